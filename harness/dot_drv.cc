// Reads automata from DOT texts as `monaa -f` does, and prints automata as
// `tre2ta` does: `id seconds read <hex>` | `id seconds print ta <TA>` |
// `id seconds print tre <hex>`.
#include "common.hh"
#include "timed_automaton_parser.hh"
#include "tre_driver.hh"

static std::string unhex(const std::string &h) {
  std::string o;
  if (h == "-") return o;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2) o += (char)std::stoi(h.substr(i, 2), nullptr, 16);
  return o;
}
static std::string answer(const std::string &cmd, std::istream &is) {
  TimedAutomaton TA;
  if (cmd == "read") {
    std::stringstream ss(unhex(tok(is)));
    BoostTimedAutomaton b;
    try {
      parseBoostTA(ss, b);
    } catch (const std::exception &e) {
      return "\"refused\":1";
    }
    convBoostTA(b, TA);
    return "\"refused\":0,\"ta\":" + dumpTA(TA);
  }
  if (tok(is) == "ta") readTA(is, TA);
  else {
    TREDriver d;
    std::stringstream ss(unhex(tok(is)));
    if (!d.parse(ss)) return "\"fail\":\"parse\"";
    d.getResult()->toEventTA(TA);
  }
  std::ostringstream o;
  ::operator<<(o, TA) << std::endl;
  return "\"text\":" + jstr(o.str()) + ",\"ta\":" + dumpTA(TA);
}
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::istringstream is(line);
    const std::string id = tok(is);
    const int secs = itok(is);
    const std::string cmd = tok(is);
    // (the parser header prints strings in its own way)
    puts(("{\"id\":" + jstr(id) + "," + isolated([&]() { return answer(cmd, is); }, secs, 0) + "}").c_str());
    fflush(stdout);
  }
}
