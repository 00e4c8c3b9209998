// Drives the three matching functions on (automaton | expression, word) pairs
// and records what a user of the library observes: the call sequence on the
// word container and the zones pushed to the answer container.
#include "common.hh"
#include "tre_driver.hh"

static std::vector<std::string> *LOG = nullptr;
static double SCALE = 1; // ticks per time unit * 1000
static int NLOG = 0;
static bool PROTOCOL = getenv("LOG_PROTOCOL") != nullptr; // also record the calls on the word container
static void log1(const std::string &s) {
  if (++NLOG <= 200000) LOG->push_back(s);
}
static void logp(const std::string &s) {
  if (PROTOCOL) log1(s);
}

// A word container over a given word which records the protocol.
struct LoggedWord {
  using value_type = std::pair<Alphabet, double>;
  std::shared_ptr<std::vector<value_type>> w;
  LoggedWord(FILE *, bool) {}
  value_type operator[](std::size_t n) {
    logp("[\"get\"," + std::to_string((long long)std::min<std::size_t>(n, 1000000)) + "]");
    if (n >= w->size()) throw std::out_of_range("LoggedWord");
    return (*w)[n];
  }
  value_type at(std::size_t n) { return (*this)[n]; }
  std::size_t size() const { return w->size(); }
  void setFront(std::size_t n) {
    logp("[\"front\"," + std::to_string((long long)std::min<std::size_t>(n, 1000000)) + "]");
  }
  bool fetch(std::size_t n) {
    const bool ok = n < w->size();
    logp("[\"fetch\"," + std::to_string((long long)std::min<std::size_t>(n, 1000000)) + "," + (ok ? "1" : "0") + "]");
    return ok;
  }
};
struct LoggedWordContainer : public WordContainer<LoggedWord> {
  LoggedWordContainer(std::shared_ptr<std::vector<LoggedWord::value_type>> w)
      : WordContainer<LoggedWord>(nullptr, false) {
    vec.w = w;
  }
};

static std::string num(double v) {
  if (std::isnan(v)) return "1999999999";
  if (v >= 1e6) return "2000000000";
  if (v <= -1e6) return "-2000000000";
  return std::to_string((long long)llround(v * SCALE));
}
struct LoggedAns {
  using value_type = Zone;
  std::vector<Zone> zs;
  std::size_t size() const { return zs.size(); }
  void push_back(const Zone &z) {
    zs.push_back(z);
    // lower/upper of t, t', t'-t with inclusiveness
    std::ostringstream o;
    auto lo = [&](int i, int j) { o << num(-z.value(i, j).first) << "," << (z.value(i, j).second ? 1 : 0); };
    auto hi = [&](int i, int j) { o << num(z.value(i, j).first) << "," << (z.value(i, j).second ? 1 : 0); };
    o << "[\"zone\",";
    lo(0, 1); o << ","; hi(1, 0); o << ",";
    lo(0, 2); o << ","; hi(2, 0); o << ",";
    lo(1, 2); o << ","; hi(2, 1); o << "]";
    log1(o.str());
  }
  void clear() { zs.clear(); }
  void reserve(std::size_t) {}
};


struct Case {
  std::string mode, kind, expr;
  int U;
  std::shared_ptr<TimedAutomaton> TA;
  std::shared_ptr<std::vector<LoggedWord::value_type>> w;
};
// mode U (ta <TA> | tre <hex of expression> | again) nEvents (code ticks)*
// "again" takes the very automaton (object) of the previous case.
static Case readCase(std::istream &is, const std::string &mode, int U, const Case *previous) {
  Case c;
  c.mode = mode;
  c.U = U;
  c.kind = tok(is);
  if (c.kind == "ta") {
    c.TA = std::make_shared<TimedAutomaton>();
    readTA(is, *c.TA);
  } else if (c.kind == "tre") {
    const std::string h = tok(is);
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) c.expr += (char)std::stoi(h.substr(i, 2), nullptr, 16);
  } else c.TA = previous->TA;
  c.w = std::make_shared<std::vector<LoggedWord::value_type>>();
  for (int k = itok(is); k > 0; k--) {
    const int a = itok(is), t = itok(is);
    c.w->push_back({(Alphabet)a, (double)t / c.U});
  }
  return c;
}
static std::string runCase(Case &c) {
  SCALE = c.U * 1000.0;
  std::vector<std::string> lg;
  LOG = &lg;
  NLOG = 0;
  if (c.kind == "tre") {
    TREDriver d;
    std::stringstream ss;
    ss << c.expr;
    if (!d.parse(ss)) return std::string("\"fail\":\"parse\"");
    c.TA = std::make_shared<TimedAutomaton>();
    if (c.mode == "signal") toSignalTA(d.getResult(), *c.TA);
    else d.getResult()->toEventTA(*c.TA);
  }
  AnsContainer<LoggedAns> ans;
  LoggedWordContainer wc(c.w);
  if (c.mode == "dollar") monaaDollar(wc, *c.TA, ans);
  else if (c.mode == "signal") monaa(wc, *c.TA, ans);
  else monaaNotNecessaryDollar(wc, *c.TA, ans);
  std::ostringstream o;
  o << "\"log\":[";
  for (std::size_t i = 0; i < lg.size(); i++) o << (i ? "," : "") << lg[i];
  o << "],\"count\":" << ans.size();
  return o.str();
}

int main(int argc, char **argv) {
  // stdin, one request per line:
  //   id mode U seconds <case>
  //   id seq n seconds (mode U <case>)*      n calls in one process
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::istringstream is(line);
    const std::string id = tok(is), mode = tok(is);
    const int U = itok(is), secs = itok(is);
    std::string r;
    if (mode == "seq") {
      std::vector<Case> cs;
      for (int i = 0; i < U; i++) {
        const std::string m = tok(is);
        const int u = itok(is);
        cs.push_back(readCase(is, m, u, i ? &cs.back() : nullptr));
      }
      r = isolated(
          [&]() {
            std::string o = "\"runs\":[";
            for (std::size_t i = 0; i < cs.size(); i++) {
              const std::string before = cs[i].kind == "tre" ? "" : dumpTA(*cs[i].TA);
              o += (i ? ",{" : "{") + runCase(cs[i]);
              o += ",\"kept\":" + std::string(before.empty() || before == dumpTA(*cs[i].TA) ? "1" : "0") + "}";
            }
            return o + "]";
          },
          secs);
    } else {
      Case c = readCase(is, mode, U, nullptr);
      r = isolated([&]() { return runCase(c); }, secs);
    }
    std::cout << "{\"id\":" << jstr(id) << "," << r << "}" << std::endl;
  }
}
