// Exposes the constructions on automata and expressions as data: one request
// per line, `id seconds command arguments`, one JSON object per answer.
#include "common.hh"
#include "intersection.hh"
#include "tre_driver.hh"

static std::string unhex(const std::string &h) {
  std::string o;
  if (h == "-") return o;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2) o += (char)std::stoi(h.substr(i, 2), nullptr, 16);
  return o;
}
static bool parse(const std::string &expr, TREDriver &d) {
  std::stringstream ss;
  ss << expr;
  return d.parse(ss);
}
static std::vector<std::pair<Alphabet, double>> readWord(std::istream &is, int U) {
  std::vector<std::pair<Alphabet, double>> w;
  for (int k = itok(is); k > 0; k--) {
    const int c = itok(is), t = itok(is);
    w.push_back({(Alphabet)c, (double)t / U});
  }
  return w;
}
static std::string dumpZA(const ZoneAutomaton &ZA, const TimedAutomaton &TA) {
  std::unordered_map<const TAState *, int> ta;
  std::unordered_map<const ZAState *, int> id;
  for (std::size_t i = 0; i < TA.states.size(); i++) ta[TA.states[i].get()] = i + 1;
  for (std::size_t i = 0; i < ZA.states.size(); i++) id[ZA.states[i].get()] = i + 1;
  std::ostringstream o;
  auto list = [&](const char *name, auto get, auto keep) {
    o << "\"" << name << "\":[";
    bool f = true;
    for (auto &s : ZA.states)
      if (keep(s)) { o << (f ? "" : ",") << get(s); f = false; }
    o << "]";
  };
  list("loc", [&](auto &s) { return ta[s->taState]; }, [](auto &) { return true; });
  o << ",";
  list("acc", [&](auto &s) { return id[s.get()]; }, [](auto &s) { return s->isMatch; });
  o << ",\"init\":[";
  bool f = true;
  for (auto &s : ZA.initialStates)
    if (id.count(s.get())) { o << (f ? "" : ",") << id[s.get()]; f = false; }
  o << "],\"edges\":[";
  f = true;
  for (auto &s : ZA.states)
    for (std::size_t c = 0; c < s->next.size(); c++)
      for (auto &e : s->next[c])
        if (auto t = e.lock())
          if (id.count(t.get())) {
            o << (f ? "" : ",") << "[" << id[s.get()] << "," << letter((Alphabet)c) << "," << id[t.get()] << "]";
            f = false;
          }
  o << "]";
  return o.str();
}

static std::string answer(const std::string &cmd, std::istream &is) {
  std::ostringstream o;
  if (cmd == "event" || cmd == "signal") {
    TREDriver d;
    if (!parse(unhex(tok(is)), d)) return "\"fail\":\"parse\"";
    TimedAutomaton TA;
    if (cmd == "event") d.getResult()->toEventTA(TA);
    else toSignalTA(d.getResult(), TA);
    o << "\"ta\":" << dumpTA(TA);
  } else if (cmd == "parse") {
    TREDriver d;
    if (!parse(unhex(tok(is)), d)) return "\"ok\":0,\"text\":\"\"";
    o << *d.getResult();
    return "\"ok\":1,\"text\":" + jstr(o.str());
  } else if (cmd == "member") {
    const int U = itok(is);
    TimedAutomaton TA;
    readTA(is, TA);
    o << "\"verdicts\":[";
    for (int k = itok(is), i = 0; i < k; i++) {
      auto w = readWord(is, U);
      o << (i ? "," : "") << (TA.isMember(w) ? 1 : 0);
    }
    o << "]";
  } else if (cmd == "prod" || cmd == "square") {
    TimedAutomaton A, B0, P;
    readTA(is, A);
    if (cmd == "prod") readTA(is, B0);
    TimedAutomaton &B = cmd == "prod" ? B0 : A; // both arguments may be one object
    boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m;
    const std::string a0 = dumpTA(A), b0 = dumpTA(B);
    intersectionTA(A, B, P, m);
    o << "\"ta\":" << dumpTA(P) << ",\"kept\":" << (a0 == dumpTA(A) && b0 == dumpTA(B) ? 1 : 0);
  } else if (cmd == "copy") {
    // a deep copy, then arbitrary damage to the copy
    TimedAutomaton A, B;
    readTA(is, A);
    std::unordered_map<TAState *, std::shared_ptr<TAState>> m;
    A.deepCopy(B, m);
    o << "\"orig\":" << dumpTA(A) << ",\"copy\":" << dumpTA(B);
    for (auto &s : B.states) {
      s->isMatch = !s->isMatch;
      for (auto &p : s->next)
        for (auto &e : p.second) {
          e.target = B.states[0].get();
          e.guard.clear();
          e.resetVars.push_back(0);
        }
      s->next['q'].push_back({B.states[0].get(), {}, {}});
    }
    B.maxConstraints.push_back(99);
    B.initialStates.clear();
    B.states.clear();
    o << ",\"after\":" << dumpTA(A);
  } else if (cmd == "za") {
    TimedAutomaton TA;
    readTA(is, TA);
    ZoneAutomaton ZA;
    ta2za(TA, ZA);
    o << "\"all\":{" << dumpZA(ZA, TA) << "},\"empty\":" << (ZA.empty() ? 1 : 0);
    ZA.removeDeadStates();
    o << ",\"live\":{" << dumpZA(ZA, TA) << "},\"emptyLive\":" << (ZA.empty() ? 1 : 0);
    o << ",\"same\":" << jstr(dumpTA(TA));
  } else if (cmd == "skip") {
    TimedAutomaton TA;
    readTA(is, TA);
    SundaySkipValue s(TA);
    std::unordered_set<Alphabet> e;
    s.getEndChars(e);
    const int m = s.getM();
    KMPSkipValue k(TA, m);
    o << "\"m\":" << m << ",\"end\":[";
    bool f = true;
    for (int c = 1; c < 127; c++)
      if (e.count((Alphabet)c)) { o << (f ? "" : ",") << letter((Alphabet)c); f = false; }
    o << "],\"delta\":{";
    f = true;
    for (int c = 33; c < 127; c++) {
      if (!isalnum(c)) continue;
      o << (f ? "" : ",") << letter((Alphabet)c) << ":" << s[(std::size_t)c];
      f = false;
    }
    o << "},\"beta\":[";
    for (std::size_t i = 0; i < TA.states.size(); i++) o << (i ? "," : "") << k[TA.states[i]];
    o << "]";
  } else return "\"fail\":\"unknown command\"";
  return o.str();
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::istringstream is(line);
    const std::string id = tok(is);
    const int secs = itok(is);
    const std::string cmd = tok(is);
    const std::string r = isolated([&]() { return answer(cmd, is); }, secs, 0);
    std::cout << "{\"id\":" << jstr(id) << "," << r << "}" << std::endl;
  }
}
