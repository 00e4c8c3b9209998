// Shared helpers of the conformance drivers: token reader, TA (de)serialisation,
// logging containers.  Everything here uses only the public API of MONAA.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "monaa.hh"

inline std::string tok(std::istream &is) {
  std::string s;
  if (!(is >> s)) {
    std::cerr << "driver: unexpected end of case\n";
    _exit(97);
  }
  return s;
}
inline int itok(std::istream &is) { return std::stoi(tok(is)); }

inline Constraint::Order opOf(const std::string &s) {
  if (s == "<") return Constraint::Order::lt;
  if (s == "<=") return Constraint::Order::le;
  if (s == ">") return Constraint::Order::gt;
  return Constraint::Order::ge;
}
inline const char *opName(Constraint::Order o) {
  switch (o) {
  case Constraint::Order::lt: return "<";
  case Constraint::Order::le: return "<=";
  case Constraint::Order::gt: return ">";
  default: return ">=";
  }
}

// nStates nClocks max* nInit init* nAcc acc* nEdges (s code t nG (x op c)* nR x*)*
inline void readTA(std::istream &is, TimedAutomaton &TA) {
  const int n = itok(is), nc = itok(is);
  TA.states.clear();
  for (int i = 0; i < n; i++) TA.states.push_back(std::make_shared<TAState>(false));
  TA.maxConstraints.clear();
  for (int i = 0; i < nc; i++) TA.maxConstraints.push_back(itok(is));
  TA.initialStates.clear();
  for (int k = itok(is); k > 0; k--) TA.initialStates.push_back(TA.states.at(itok(is)));
  for (int k = itok(is); k > 0; k--) TA.states.at(itok(is))->isMatch = true;
  for (int k = itok(is); k > 0; k--) {
    const int s = itok(is), c = itok(is), t = itok(is);
    TATransition tr;
    tr.target = TA.states.at(t).get();
    for (int g = itok(is); g > 0; g--) {
      const int x = itok(is);
      const std::string op = tok(is);
      const int v = itok(is);
      tr.guard.push_back(Constraint{(ClockVariables)x, opOf(op), v});
    }
    for (int r = itok(is); r > 0; r--) tr.resetVars.push_back((ClockVariables)itok(is));
    TA.states.at(s)->next[(Alphabet)c].push_back(std::move(tr));
  }
}

inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
inline std::string letter(Alphabet c) { return c ? jstr(std::string(1, c)) : "\"eps\""; }

// The automaton as data: only what its public fields denote.
inline std::string dumpTA(const TimedAutomaton &TA) {
  std::ostringstream o;
  std::unordered_map<const TAState *, int> id;
  for (std::size_t i = 0; i < TA.states.size(); i++) id[TA.states[i].get()] = i + 1;
  bool bad = false;
  int maxClock = -1;
  o << "{\"n\":" << TA.states.size() << ",\"init\":[";
  bool f = true;
  for (auto &s : TA.initialStates) {
    if (!id.count(s.get())) { bad = true; continue; }
    o << (f ? "" : ",") << id[s.get()];
    f = false;
  }
  o << "],\"acc\":[";
  f = true;
  for (auto &s : TA.states)
    if (s->isMatch) { o << (f ? "" : ",") << id[s.get()]; f = false; }
  o << "],\"edges\":[";
  f = true;
  for (auto &s : TA.states)
    for (const auto &[label, transitions] : std::map<Alphabet, std::vector<TATransition>>(s->next.begin(), s->next.end()))
      for (auto &e : transitions) {
        if (!e.target) continue;
        if (!id.count(e.target)) { bad = true; continue; }
        o << (f ? "" : ",") << "{\"s\":" << id[s.get()] << ",\"c\":" << letter(label)
          << ",\"t\":" << id[e.target] << ",\"g\":[";
        f = false;
        bool ff = true;
        for (auto &g : e.guard) {
          maxClock = std::max(maxClock, (int)g.x);
          o << (ff ? "" : ",") << "[" << (int)g.x + 1 << ",\"" << opName(g.odr) << "\"," << g.c << "]";
          ff = false;
        }
        o << "],\"r\":[";
        ff = true;
        for (auto &r : e.resetVars) {
          maxClock = std::max(maxClock, (int)r);
          o << (ff ? "" : ",") << (int)r + 1;
          ff = false;
        }
        o << "]}";
      }
  o << "],\"max\":[";
  f = true;
  for (auto m : TA.maxConstraints) { o << (f ? "" : ",") << m; f = false; }
  o << "],\"nc\":" << std::max<int>(TA.clockSize(), maxClock + 1) << ",\"decl\":" << TA.clockSize()
    << ",\"dangling\":" << (bad ? "true" : "false") << "}";
  return o.str();
}

// Runs f in a child, so that exit(), abort() and endless loops of the code
// under test stay inside one case.  The child writes one JSON object body.
// A driver that has met several endless calls gives the next ones less time.
inline std::string isolated(const std::function<std::string()> &f, int seconds, int memMB = 0) {
  static int timeouts = 0;
  if (timeouts >= 3) seconds = std::min(seconds, timeouts >= 8 ? 1 : 3);
  int fd[2];
  if (pipe(fd)) _exit(98);
  fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    if (memMB) {
      rlimit rl{(rlim_t)memMB << 20, (rlim_t)memMB << 20};
      setrlimit(RLIMIT_AS, &rl);
    }
    rlimit cpu{(rlim_t)seconds, (rlim_t)seconds + 1};
    setrlimit(RLIMIT_CPU, &cpu);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    std::string s;
    try {
      s = f();
    } catch (const std::exception &e) {
      s = std::string("\"fail\":") + jstr(std::string("exception ") + e.what());
    } catch (...) {
      s = "\"fail\":\"exception\"";
    }
    std::size_t off = 0;
    while (off < s.size()) {
      ssize_t k = write(fd[1], s.data() + off, s.size() - off);
      if (k <= 0) _exit(96);
      off += k;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string out;
  char buf[65536];
  ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) {
    const int sg = WTERMSIG(st);
    if (sg == SIGXCPU || sg == SIGKILL) {
      timeouts++;
      return "\"fail\":\"timeout\"";
    }
    return "\"fail\":\"signal " + std::to_string(sg) + "\"";
  }
  if (WEXITSTATUS(st) != 0) return "\"fail\":\"exit " + std::to_string(WEXITSTATUS(st)) + "\"";
  return out;
}
