From 5eed79844a08441cc793c1f4ef3405762bc79170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 01/26] fix: bound the zones relaxed by abstractize from below

Lower bounds smaller than -M were kept as they are, so that the zone
construction enumerated infinitely many zones and did not terminate.
---
 libmonaa/zone.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index e7d80e9..db022a6 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -152,13 +152,19 @@ struct Zone {
   /*
     @brief truncate the constraints compared with a constant greater than or
     equal to M
+
+    @note The bounds smaller than -M are also relaxed, to (-M, <). Otherwise, the
+    number of the abstracted zones can be infinite.
    */
   void abstractize() {
     static constexpr Bounds infinity =
         Bounds(std::numeric_limits<double>::infinity(), false);
+    const Bounds lowest = Bounds(-M.first, false);
     for (auto it = value.data(); it < value.data() + value.size(); it++) {
       if (*it >= M) {
         *it = Bounds(infinity);
+      } else if (*it < lowest) {
+        *it = lowest;
       }
     }
   }
-- 
2.43.0


From 1c21597aded8b743a06cf1ff2d36370032fce0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 02/26] fix: make the KMP-type skip values safe

The matchings beginning strictly after the n-th event or ending before the
last event of the product were not covered: skipped matchings were lost.
Edges were also inserted while iterating over the same vector.
---
 libmonaa/kmp_skip_value.hh | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 32f3a3b..d7ebf54 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -36,20 +36,21 @@ public:
     std::vector<std::shared_ptr<TAState>> extendedInitialStates(m + 1);
     std::generate(extendedInitialStates.begin(), extendedInitialStates.end(), std::make_shared<TAState>);
 
+    std::vector<ClockVariables> allClocks(TA.clockSize());
+    std::iota(allClocks.begin(), allClocks.end(), 0);
+
+    // The matching begins at or after the n-th event (and before the next one).
     for (const auto& initialState : A0.initialStates) {
-      for (auto it = initialState->next.begin(); it != initialState->next.end();
-           it++) {
-        for (TATransition edge : it->second) {
-          // We can modify edge because it is copied
-          const Alphabet c = it->first;
-          widen(edge.guard);
-          extendedInitialStates[0]->next[c].push_back(std::move(edge));
-        }
+      // The beginning is exactly at the n-th event.
+      for (const auto &edges : initialState->next) {
+        auto &newEdges = extendedInitialStates[0]->next[edges.first];
+        newEdges.insert(newEdges.end(), edges.second.begin(), edges.second.end());
       }
+      // The beginning is after the n-th event.
+      extendedInitialStates[0]->next[0].push_back(
+          {initialState.get(), allClocks, {}});
     }
 
-    std::vector<ClockVariables> allClocks(TA.clockSize());
-    std::iota(allClocks.begin(), allClocks.end(), 0);
     for (int i = 1; i <= m; ++i) {
       for (char c = 1; c < CHAR_MAX; ++c) {
         extendedInitialStates[i]->next[c].push_back(
@@ -64,15 +65,25 @@ public:
     }
     for (auto &state : A0.states) {
       for (auto & it : state->next) {
+        std::vector<TATransition> newEdges;
         for (TATransition edge : it.second) {
           const auto target = edge.target;
           // We can modify edge because it is copied
           if (target && target->isMatch) {
             edge.target = dummyAcceptingState.get();
-            widen(edge.guard);
-            it.second.emplace_back(std::move(edge));
+            // The matching can end before the event. Therefore, the upper bounds
+            // may not hold at the event.
+            edge.guard.erase(
+                std::remove_if(edge.guard.begin(), edge.guard.end(),
+                               [](const Constraint &g) {
+                                 return g.odr == Constraint::Order::lt ||
+                                        g.odr == Constraint::Order::le;
+                               }),
+                edge.guard.end());
+            newEdges.emplace_back(std::move(edge));
           }
         }
+        it.second.insert(it.second.end(), newEdges.begin(), newEdges.end());
       }
     }
     A0.states.reserve(A0.states.size() + 1 + (m + 1));
-- 
2.43.0


From ccad1217d8b1cb62bf7a3641b926270aeb17db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 03/26] fix: do not share the reset times of the first pattern
 among all calls

The static vector kept the number of clocks of the first automaton.
---
 libmonaa/monaa.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index beb1c73..3c7bb68 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -75,10 +75,8 @@ struct InternalState {
   InternalState(const std::size_t numOfVar, const TAState *s,
                 const Interval &interval)
       : s(std::move(s)), z(std::move(interval)) {
-    static const std::vector<boost::variant<double, ClockVariables>>
-        zeroResetTime(numOfVar, ClockVariables(1));
     // Every clock variables are reset at t1 ( = t)
-    resetTime = zeroResetTime;
+    resetTime.assign(numOfVar, ClockVariables(1));
   }
 };
 
-- 
2.43.0


From 17dc0eebcb19101af8debcad53a8f5b0ca40c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 04/26] fix: do not assume that the initial states are sorted

The initial states after the first one were dropped from the automaton used
for the skip values, and matchings were lost.
---
 libmonaa/monaa.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 3c7bb68..c10d791 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -707,7 +707,8 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv.at(s.get()));
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv.at(s.get()));
     }
   }
@@ -1175,7 +1176,8 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv[s.get()]);
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv[s.get()]);
     }
   }
-- 
2.43.0


From 830830f206cf5dcda9750e02148d76a76246fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 05/26] fix: sign of the lower bound of the end in
 monaaNotNecessaryDollar

---
 libmonaa/monaa.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index c10d791..7254176 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -1494,7 +1494,7 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
               //            std::move(lowerBeginConstraint));
 
               const Bounds upperEndConstraint = {t, true};
-              const Bounds lowerEndConstraint = {t, true};
+              const Bounds lowerEndConstraint = {-t, true};
 
               // value(2, 1) <= value(2, 0) + value(0, 1)
               const Bounds upperDeltaConstraint =
-- 
2.43.0


From 64a53d5a8a7c73838fe3c4672c100b127f5f8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:55 +0000
Subject: [PATCH 06/26] fix: time restrictions without upper bounds in
 event-based TREs

The infinite upper bound was cast to an integer constant of the guard.
---
 monaa/tre.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 5614a20..47c73e6 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <numeric>
 #include <ostream>
 
@@ -317,7 +318,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
             if (target->next.empty()) {
               edge.guard.reserve(edge.guard.size() + 2);
               // upper bound
-              if (regExprWithin.second->upperBound.second) {
+              if (std::isinf(regExprWithin.second->upperBound.first)) {
+                // no upper bound
+              } else if (regExprWithin.second->upperBound.second) {
                 edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) <=
                                         regExprWithin.second->upperBound.first);
               } else {
@@ -339,7 +342,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
 
               transition.guard.reserve(transition.guard.size() + 2);
               // upper bound
-              if (regExprWithin.second->upperBound.second) {
+              if (std::isinf(regExprWithin.second->upperBound.first)) {
+                // no upper bound
+              } else if (regExprWithin.second->upperBound.second) {
                 transition.guard.emplace_back(
                     TimedAutomaton::X(out.clockSize()) <=
                     regExprWithin.second->upperBound.first);
@@ -372,7 +377,10 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     if (isDummyUsed) {
       out.states.emplace_back(std::move(dummyAcceptingState));
     }
-    out.maxConstraints.emplace_back(regExprWithin.second->upperBound.first);
+    out.maxConstraints.emplace_back(
+        std::isinf(regExprWithin.second->upperBound.first)
+            ? regExprWithin.second->lowerBound.first
+            : regExprWithin.second->upperBound.first);
     break;
   }
   }
-- 
2.43.0


From 06d0da6288cdc35a7eb5c2853b1b6464724270ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:55 +0000
Subject: [PATCH 07/26] fix: keep the empty word in time restrictions
 containing zero

(r)%I dropped the empty word of r even if I contains 0.
---
 monaa/tre.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 47c73e6..cb0eb9c 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -298,15 +298,17 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     bool isDummyUsed = false;
     std::shared_ptr<TAState> dummyAcceptingState =
         std::make_shared<TAState>(true);
-    // Make all the zero duration states non-initial
-    // Note: this would not work well if we allow constraints >= 0
-    out.initialStates.erase(std::remove_if(
-                              out.initialStates.begin(), out.initialStates.end(),
-                              [](auto &state) {return state->zeroDuration;}),
-                            out.initialStates.end());
-    // Make all the state non-zero duration
-    for (auto state : out.states) {
-      state->zeroDuration = false;
+    // Make all the zero duration states non-initial, unless the interval
+    // contains the zero duration
+    if (!regExprWithin.second->contain(0)) {
+      out.initialStates.erase(std::remove_if(
+                                out.initialStates.begin(), out.initialStates.end(),
+                                [](auto &state) {return state->zeroDuration;}),
+                              out.initialStates.end());
+      // Make all the state non-zero duration
+      for (auto state : out.states) {
+        state->zeroDuration = false;
+      }
     }
     for (auto state : out.states) {
       for (auto &edges : state->next) {
-- 
2.43.0


From f7ec3ccd2a5ed67407c2ee8edecd0c28ac499ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:55 +0000
Subject: [PATCH 08/26] fix: do not confuse the zero-duration states with the
 states after an event

The zero-duration state of the right operand of a concatenation lost its mark
although it is still initial, and the zero-duration accepting states were
merged with the other accepting states: initial states were lost, or the
product refers to a pair of states that does not exist.
---
 monaa/tre.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index cb0eb9c..7b23d35 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -44,20 +44,27 @@ void concat2(TimedAutomaton &left, const TimedAutomaton &right) {
   // initial state of right
   std::vector<ClockVariables> rightClocks(right.clockSize());
   std::iota(rightClocks.begin(), rightClocks.end(), 0);
+  // The states entered from left. We copy the states of zero duration because,
+  // unlike the initial states, they are entered after an event.
+  std::vector<std::shared_ptr<TAState>> entryStates = right.initialStates;
+  for (auto &s : entryStates) {
+    if (s->zeroDuration) {
+      s = std::make_shared<TAState>(*s);
+      s->zeroDuration = false;
+    }
+  }
   for (auto &s : left.states) {
     for (auto &edges : s->next) {
       std::vector<TATransition> newTransitions;
       for (auto &edge : edges.second) {
         TAState *target = edge.target;
         if (target && target->isMatch) {
-          newTransitions.reserve(newTransitions.size() +
-                                 right.initialStates.size());
-          for (auto initState : right.initialStates) {
+          newTransitions.reserve(newTransitions.size() + entryStates.size());
+          for (const auto &entryState : entryStates) {
             TATransition transition = edge;
-            transition.target = initState.get();
+            transition.target = entryState.get();
             transition.resetVars = rightClocks;
             newTransitions.emplace_back(std::move(transition));
-            transition.target->zeroDuration = false;
           }
         }
       }
@@ -84,6 +91,11 @@ void concat2(TimedAutomaton &left, const TimedAutomaton &right) {
 
   left.states.insert(left.states.end(), right.states.begin(),
                      right.states.end());
+  std::copy_if(entryStates.begin(), entryStates.end(),
+               std::back_inserter(left.states), [&right](const auto &s) {
+                 return std::find(right.states.begin(), right.states.end(),
+                                  s) == right.states.end();
+               });
 
   // we can reuse variables since we have no overwrapping constraints
   left.maxConstraints.resize(
@@ -389,7 +401,7 @@ void TRE::toEventTA(TimedAutomaton &out) const {
   // Merge accepting states w/o outgoing transitions
   std::vector<std::shared_ptr<TAState>> terminalAcceptingStates;
   for (auto &s : out.states) {
-    if (s->isMatch && s->next.empty()) {
+    if (s->isMatch && !s->zeroDuration && s->next.empty()) {
       terminalAcceptingStates.push_back(s);
     }
   }
-- 
2.43.0


From 6b59c9268e16896f6284a5a696f01507bd2c3fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 09/26] fix: count the clocks that are reset but never compared

The clocks of an automaton in DOT were sized only by the guards, and resetting
another clock accessed the clock valuation out of its bounds.
---
 monaa/timed_automaton_parser.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 00eab35..0302c07 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -305,6 +305,10 @@ static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
             std::max<std::size_t>(TA.maxConstraints.size(), g.x + 1));
         TA.maxConstraints[g.x] = std::max(TA.maxConstraints[g.x], g.c);
       }
+      for (auto x : transition.resetVars) {
+        TA.maxConstraints.resize(
+            std::max<std::size_t>(TA.maxConstraints.size(), x + 1));
+      }
       stateConvMap[*first]
           ->next[boost::get(&BoostTATransition::c, BoostTA, *firstEdge)]
           .emplace_back(std::move(transition));
-- 
2.43.0


From 2d901c0bd1371d5e0bad308f660b40db853d176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 10/26] fix: do not take a truncated record as an event

---
 libmonaa/lazy_deque.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmonaa/lazy_deque.hh b/libmonaa/lazy_deque.hh
index 6606572..fa65e01 100644
--- a/libmonaa/lazy_deque.hh
+++ b/libmonaa/lazy_deque.hh
@@ -10,7 +10,9 @@
 #include "common_types.hh"
 
 static inline int getOne(FILE *file, std::pair<Alphabet, double> &p) {
-  return fscanf(file, " %c %lf\n", &p.first, &p.second);
+  const int read = fscanf(file, " %c %lf\n", &p.first, &p.second);
+  // A truncated or malformed record is not an event
+  return read == 2 ? read : EOF;
 }
 
 static inline int getOneBinary(FILE *file, std::pair<Alphabet, double> &p) {
-- 
2.43.0


From efeb86ccf6cfe35b03bcc56a4e0d7ace261ce035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 11/26] fix: skip value of the characters larger than 126

The table was accessed out of its bounds.
---
 libmonaa/sunday_skip_value.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmonaa/sunday_skip_value.hh b/libmonaa/sunday_skip_value.hh
index baef837..56802ee 100644
--- a/libmonaa/sunday_skip_value.hh
+++ b/libmonaa/sunday_skip_value.hh
@@ -18,7 +18,7 @@ class SundaySkipValue {
 private:
   //! @brief Minimum length of the recognized language
   int m;
-  std::array<unsigned int, CHAR_MAX> delta{};
+  std::array<unsigned int, UCHAR_MAX + 1> delta{};
   //! @brief The set of the m-th characters of the untimed projection of the recognized language
   std::unordered_set<char> endChars;
 
@@ -71,7 +71,10 @@ public:
     endChars = charSet[m - 1];
   }
   unsigned int at(std::size_t n) const { return delta.at(n); }
-  unsigned int operator[](std::size_t n) const { return delta[n]; }
+  unsigned int operator[](std::size_t n) const {
+    // char can be signed
+    return delta[static_cast<unsigned char>(n)];
+  }
   //! @brief Minimum length of the recognized language
   int getM() const { return m; }
   void getEndChars(std::unordered_set<char> &endCharsHolder) const {
-- 
2.43.0


From 144e023e76795b587727fd2a47dc11b46470d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 12/26] fix: report the errors on options and timed automata by
 the exit status

Unknown options and missing or broken timed automata ended in abort.
---
 monaa/main.cc   | 27 +++++++++++++++++++++------
 monaa/tre2ta.cc | 16 +++++++++++-----
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/monaa/main.cc b/monaa/main.cc
index e4b8286..d09ae70 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -43,12 +43,18 @@ int main(int argc, char *argv[]) {
   command_line_parser parser(argc, argv);
   parser.options(visible);
   variables_map vm;
-  const auto parseResult = parser.run();
-  store(parseResult, vm);
-  notify(vm);
+  std::vector<std::string> positionals;
+  try {
+    const auto parseResult = parser.run();
+    store(parseResult, vm);
+    notify(vm);
+    positionals =
+        collect_unrecognized(parseResult.options, include_positional);
+  } catch (const error &e) {
+    die(e.what(), 1);
+  }
 
-  for (auto const &str :
-       collect_unrecognized(parseResult.options, include_positional)) {
+  for (auto const &str : positionals) {
     if (timedAutomatonFileName.empty() && tre.empty()) {
       tre = std::move(str);
     } else if (timedWordFileName == "stdin") {
@@ -118,8 +124,17 @@ int main(int argc, char *argv[]) {
     }
     // parse TA
     std::ifstream taStream(timedAutomatonFileName);
+    if (!taStream) {
+      perror("timed automaton file");
+      return 1;
+    }
     BoostTimedAutomaton BoostTA;
-    parseBoostTA(taStream, BoostTA);
+    try {
+      parseBoostTA(taStream, BoostTA);
+    } catch (const std::exception &e) {
+      std::cerr << errorHeader << e.what() << std::endl;
+      die("Failed to parse TA", 2);
+    }
     convBoostTA(BoostTA, TA);
   }
 
diff --git a/monaa/tre2ta.cc b/monaa/tre2ta.cc
index e5c21a3..916d0b4 100644
--- a/monaa/tre2ta.cc
+++ b/monaa/tre2ta.cc
@@ -34,12 +34,18 @@ int main(int argc, char *argv[]) {
   command_line_parser parser(argc, argv);
   parser.options(visible);
   variables_map vm;
-  const auto parseResult = parser.run();
-  store(parseResult, vm);
-  notify(vm);
+  std::vector<std::string> positionals;
+  try {
+    const auto parseResult = parser.run();
+    store(parseResult, vm);
+    notify(vm);
+    positionals =
+        collect_unrecognized(parseResult.options, include_positional);
+  } catch (const error &e) {
+    die(e.what(), 1);
+  }
 
-  for (auto const &str :
-       collect_unrecognized(parseResult.options, include_positional)) {
+  for (auto const &str : positionals) {
     tre = std::move(str);
   }
 
-- 
2.43.0


From cca2b7e87469fb44a5d68b1431e5bc8462a611c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 13/26] fix: the intersection of intervals with the same lower
 bound

The closed bound was taken although the open bound is the tighter.
---
 libmonaa/interval.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index b9142e2..df22076 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -96,7 +96,11 @@ struct Interval {
 
 //! @brief The intersection of two intervals
 inline static Interval operator&&(const Interval &left, const Interval &right) {
-  Interval ret = Interval{std::max(left.lowerBound, right.lowerBound),
+  // Of the lower bounds of the same value, the open one is the tighter.
+  const auto lowerLess = [](const Bounds &a, const Bounds &b) {
+    return a.first < b.first || (a.first == b.first && a.second && !b.second);
+  };
+  Interval ret = Interval{std::max(left.lowerBound, right.lowerBound, lowerLess),
                           std::min(left.upperBound, right.upperBound)};
   return ret;
 }
-- 
2.43.0


From 57a2dbf668dd98799bec313d6e2b0b658bec2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 14/26] fix: the clock variable of unobservable transitions

The allocated variable was discarded, and the clocks reset at an unobservable
transition were handled as if they were reset at time 0.
---
 libmonaa/monaa.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 7254176..57bbe53 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -592,10 +592,10 @@ void monaa(WordContainer<InputContainer> word, TimedAutomaton A,
                 continue;
               }
               IntermediateZone tmpZ = econfig.z;
-              ClockVariables newClock = 0;
-              tmpZ.alloc({word[j].second, true},
-                         ((j > 0) ? Bounds{-word[j - 1].second, false}
-                                  : Bounds{0, true}));
+              const ClockVariables newClock =
+                  tmpZ.alloc({word[j].second, true},
+                             ((j > 0) ? Bounds{-word[j - 1].second, false}
+                                      : Bounds{0, true}));
               tmpZ.tighten(edge.guard, econfig.resetTime);
               if (tmpZ.isSatisfiableCanonized()) {
                 auto tmpResetTime = econfig.resetTime;
-- 
2.43.0


From 9673726ce3765aa6bf5d58dc03e8704c27076fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 15/26] fix: beginning of the duration in signal-based time
 restrictions

The clock was reset at the end of the first letter instead of its beginning.
---
 monaa/intermediate_tre.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index def2a50..79b7f24 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -586,9 +586,7 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
         dummyInitialState->next[c].reserve(dummyInitialState->next[c].size() +
                                            initTransitionsPair.second.size());
         for (auto &edge : initTransitionsPair.second) {
-          TATransition transition = edge;
-          transition.resetVars.push_back(out.clockSize());
-          dummyInitialState->next[c].emplace_back(std::move(transition));
+          dummyInitialState->next[c].push_back(edge);
         }
       }
     }
-- 
2.43.0


From d3681307ce45c5346593574ab9f721159718bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 16/26] fix: time restrictions without upper bounds in
 signal-based TREs

The infinite upper bound was cast to an integer constant of the guard.
---
 monaa/intermediate_tre.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 79b7f24..291b71a 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -5,6 +5,7 @@
 #include "intermediate_tre.hh"
 
 #include <algorithm>
+#include <cmath>
 #include <list>
 #include <memory>
 #include <numeric>
@@ -602,7 +603,9 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
             transition.target = dummyAcceptingState.get();
             transition.guard.reserve(transition.guard.size() + 2);
             // upper bound
-            if (within.second->upperBound.second) {
+            if (std::isinf(within.second->upperBound.first)) {
+              // no upper bound
+            } else if (within.second->upperBound.second) {
               transition.guard.emplace_back(
                   TimedAutomaton::X(out.clockSize()) <=
                   within.second->upperBound.first);
@@ -631,7 +634,9 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     out.states.reserve(out.stateSize() + 2);
     out.states.emplace_back(std::move(dummyInitialState));
     out.states.emplace_back(std::move(dummyAcceptingState));
-    out.maxConstraints.emplace_back(within.second->upperBound.first);
+    out.maxConstraints.emplace_back(std::isinf(within.second->upperBound.first)
+                                        ? within.second->lowerBound.first
+                                        : within.second->upperBound.first);
     break;
   }
   }
-- 
2.43.0


From a7bd18a46b118e1e5a35b076c93f64f7933c34b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 17/26] fix: conjunctions in signal-based TREs

The normalization did not terminate, and the product was discarded.
---
 monaa/intermediate_tre.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 291b71a..8008dd6 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -362,7 +362,7 @@ void DNFTRE::toNormalForm() {
     auto it = conjunctions.begin();
     decisions.push_back(
         std::make_shared<SyntacticDecision>(*((*it)->decision)));
-    for (it++; it != conjunctions.end();) {
+    for (it++; it != conjunctions.end(); it++) {
       decisions.back()->tag =
           (decisions.back()->tag == SyntacticDecision::Decision::Constant ||
            (*it)->decision->tag == SyntacticDecision::Decision::Constant)
@@ -651,6 +651,7 @@ void DNFTRE::toSignalTA(TimedAutomaton &out) const {
       TimedAutomaton tmpTA, TA2;
       (*it)->toSignalTA(tmpTA);
       intersectionSignalTA(another, tmpTA, TA2);
+      another = std::move(TA2);
     }
     out.states.insert(out.states.end(), another.states.begin(),
                       another.states.end());
-- 
2.43.0


From 12e851f576fe03e8b3182a4a29c88aacb2dbadc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 18/26] fix: do not modify the subexpressions shared in a
 signal-based TRE

The distributed conjunctions share their subexpressions. Merging them modified
the others, and the restricted letters were moved from the others.
---
 monaa/intermediate_tre.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 8008dd6..c012001 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -172,6 +172,9 @@ void AtomicTRE::toNormalForm() {
                  std::next(it) != list.end() &&
                  (*std::next(it))->tag == AtomicTRE::op::singleton &&
                  (*it)->singleton->c == (*std::next(it))->singleton->c) {
+        // The expression can be shared with the other conjunctions
+        *it = std::make_shared<AtomicTRE>(
+            std::make_shared<SingletonTRE>(*((*it)->singleton)));
         (*it)->singleton->intervals += (*std::next(it))->singleton->intervals;
         list.erase(std::next(it));
       } else {
@@ -293,8 +296,8 @@ void AtomicTRE::toNormalForm() {
       land(origExpr->singleton->intervals, *(within.second));
       within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
       tag = op::singleton;
-      new (&singleton)
-          std::shared_ptr<SingletonTRE>(std::move(origExpr->singleton));
+      // origExpr can be shared with the other conjunctions
+      new (&singleton) std::shared_ptr<SingletonTRE>(origExpr->singleton);
       break;
     }
     case op::epsilon: {
-- 
2.43.0


From 6625c982fdf987c8d445d1c51ef96914926ad3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:33 +0000
Subject: [PATCH 19/26] fix: keep the states which are live only through a loop

ZoneAutomaton::removeDeadStates removed the states whose only path to an
accepting state goes through a state that is visited earlier in the
depth-first search but not yet known to be live. The Sunday-type skip
values are computed from the remaining states, and therefore, matches
through such states were missed.
---
 libmonaa/zone_automaton.hh | 49 ++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/libmonaa/zone_automaton.hh b/libmonaa/zone_automaton.hh
index 8bf92fe..7484d2d 100644
--- a/libmonaa/zone_automaton.hh
+++ b/libmonaa/zone_automaton.hh
@@ -3,6 +3,7 @@
 #include "timed_automaton.hh"
 #include "zone.hh"
 #include <stack>
+#include <unordered_map>
 #include <unordered_set>
 #include <utility>
 
@@ -57,39 +58,31 @@ struct ZoneAutomaton : public Automaton<ZAState> {
 
   //! @brief remove states unreachable to any accepting states
   void removeDeadStates() {
-    // Find states unreachable to any accepting states
-    using Config = std::pair<std::shared_ptr<ZAState>,
-                             std::unordered_set<std::shared_ptr<ZAState>>>;
-    std::stack<Config> States;
-    for (auto state : initialStates) {
-      States.push(Config(state, {}));
-    }
+    // Find the states reachable to an accepting state by searching backward from the accepting states
+    std::unordered_map<ZAState *, std::vector<std::shared_ptr<ZAState>>>
+        predecessors;
     std::unordered_set<std::shared_ptr<ZAState>> reachable;
-    while (!States.empty()) {
-      Config conf = States.top();
-      States.pop();
-      if (conf.first->isMatch) {
-        reachable.insert(conf.first);
-        reachable.insert(conf.second.begin(), conf.second.end());
-      }
-      for (const auto &edges : conf.first->next) {
+    std::stack<std::shared_ptr<ZAState>> waiting;
+    for (const auto &state : states) {
+      for (const auto &edges : state->next) {
         for (const auto &edge : edges) {
-          if (conf.second.find(conf.first) != conf.second.end()) {
-            // We are in a loop
-            continue;
-          }
-          if (reachable.find(edge.lock()) != reachable.end()) {
-            // The next state is reachable
-            reachable.insert(conf.first);
-            reachable.insert(conf.second.begin(), conf.second.end());
-          } else {
-            // The next state may be unreachable
-            auto parents = conf.second;
-            parents.insert(conf.first);
-            States.push(Config(edge.lock(), parents));
+          if (auto target = edge.lock()) {
+            predecessors[target.get()].push_back(state);
           }
         }
       }
+      if (state->isMatch && reachable.insert(state).second) {
+        waiting.push(state);
+      }
+    }
+    while (!waiting.empty()) {
+      const auto state = waiting.top();
+      waiting.pop();
+      for (const auto &predecessor : predecessors[state.get()]) {
+        if (reachable.insert(predecessor).second) {
+          waiting.push(predecessor);
+        }
+      }
     }
 
     // Remove unreachable states
-- 
2.43.0


From fcfbe679c18cd46cd44f90014e4beb79a3eb0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:18 +0000
Subject: [PATCH 20/26] fix: keep the clocks nonnegative in abstracted zones

---
 libmonaa/zone.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index db022a6..442dcf6 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -167,6 +167,10 @@ struct Zone {
         *it = lowest;
       }
     }
+    // The clock variables are never negative. This matters when M is 0.
+    for (int j = 0; j < value.cols(); j++) {
+      value(0, j) = std::min(value(0, j), Bounds(0, true));
+    }
   }
 
   /*!
-- 
2.43.0


From 63d2e929ac39efe7d23c306f221b426029f38a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:10 +0000
Subject: [PATCH 21/26] fix: remove the empty intervals in intersections

---
 libmonaa/interval.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index df22076..bc6178d 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -126,8 +126,11 @@ inline static void land(std::vector<std::shared_ptr<Interval>> &left,
   }
   left.erase(std::remove_if(left.begin(), left.end(),
                             [](std::shared_ptr<Interval> interval) {
-                              return interval->lowerBound >
-                                     interval->upperBound;
+                              const auto &lower = interval->lowerBound;
+                              const auto &upper = interval->upperBound;
+                              return lower.first > upper.first ||
+                                     (lower.first == upper.first &&
+                                      !(lower.second && upper.second));
                             }),
              left.end());
 }
-- 
2.43.0


From 8076994f35b3be687c7d78b22fb7b218f9fbc9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:01 +0000
Subject: [PATCH 22/26] fix: report the failure of writing the automaton in
 tre2ta

---
 monaa/tre2ta.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monaa/tre2ta.cc b/monaa/tre2ta.cc
index 916d0b4..23bd708 100644
--- a/monaa/tre2ta.cc
+++ b/monaa/tre2ta.cc
@@ -95,6 +95,10 @@ int main(int argc, char *argv[]) {
   } else {
     std::ofstream outputStream(outputFilename);
     outputStream << TA << std::endl;
+    if (!outputStream) {
+      perror("output file");
+      return 1;
+    }
   }
 
   return 0;
-- 
2.43.0


From 233ae24b8527117bfb4d8dbbd72596dffe829d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:30 +0000
Subject: [PATCH 23/26] fix: let the zone automaton pass unobservable
 transitions without a delay

---
 libmonaa/ta2za.cc | 23 +++++++++++++++++++++--
 libmonaa/zone.hh  |  5 +++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/libmonaa/ta2za.cc b/libmonaa/ta2za.cc
index 6e5a17f..98ba290 100644
--- a/libmonaa/ta2za.cc
+++ b/libmonaa/ta2za.cc
@@ -1,6 +1,7 @@
 #include <cstdlib>
 #include <numeric>
 #include <tuple>
+#include <unordered_set>
 #include <utility>
 
 #include "ta2za.hh"
@@ -45,6 +46,17 @@ void ta2za(const TimedAutomaton &TA, ZoneAutomaton &ZA, Zone initialZone) {
     initialZone.M = Bounds(0, true);
   }
 
+  // A delay before or after an unobservable transition can be zero.
+  std::unordered_set<const TAState *> unobservableTargets;
+  for (const auto &state : TA.states) {
+    const auto unobservable = state->next.find(0);
+    if (unobservable != state->next.end()) {
+      for (const auto &edge : unobservable->second) {
+        unobservableTargets.insert(edge.target);
+      }
+    }
+  }
+
   /*!
     @brief Make initial state, that is Current configuration of BFS
   */
@@ -69,10 +81,17 @@ void ta2za(const TimedAutomaton &TA, ZoneAutomaton &ZA, Zone initialZone) {
     nextConf.clear();
     for (const auto &conf : currentConf) {
       TAState *taState = conf->taState;
-      Zone nowZone = conf->zone;
-      nowZone.elapse();
+      Zone elapsedZone = conf->zone;
+      elapsedZone.elapse();
+      Zone weaklyElapsedZone = conf->zone;
+      weaklyElapsedZone.elapseOrStay();
+      const bool isUnobservableTarget =
+          unobservableTargets.find(taState) != unobservableTargets.end();
       for (auto it = taState->next.begin(); it != taState->next.end(); it++) {
         const Alphabet c = it->first;
+        const Zone &nowZone = (c == 0 || isUnobservableTarget)
+                                  ? weaklyElapsedZone
+                                  : elapsedZone;
         for (const auto &edge : it->second) {
           Zone nextZone = nowZone;
           auto nextState = edge.target;
diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 442dcf6..8000598 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -132,6 +132,11 @@ struct Zone {
     }
   }
 
+  //! @brief let a non-negative amount of time elapse
+  void elapseOrStay() {
+    value.col(0).fill(Bounds(std::numeric_limits<double>::infinity(), false));
+  }
+
   /*
     @brief make the zone canonical
    */
-- 
2.43.0


From 63f2fccf91829f96f44232ceda99267fd75688c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:20 +0000
Subject: [PATCH 24/26] fix: keep the bounds equal to the largest constant in
 abstracted zones

---
 libmonaa/zone.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 8000598..07f4d98 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -155,8 +155,7 @@ struct Zone {
   }
 
   /*
-    @brief truncate the constraints compared with a constant greater than or
-    equal to M
+    @brief truncate the constraints compared with a constant greater than M
 
     @note The bounds smaller than -M are also relaxed, to (-M, <). Otherwise, the
     number of the abstracted zones can be infinite.
@@ -166,7 +165,7 @@ struct Zone {
         Bounds(std::numeric_limits<double>::infinity(), false);
     const Bounds lowest = Bounds(-M.first, false);
     for (auto it = value.data(); it < value.data() + value.size(); it++) {
-      if (*it >= M) {
+      if (*it > M) {
         *it = Bounds(infinity);
       } else if (*it < lowest) {
         *it = lowest;
-- 
2.43.0


From dd7040526436257c394647e65f5085c884ba47d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:14 +0000
Subject: [PATCH 25/26] fix: the lower bounds in the guard made from a zone

---
 libmonaa/zone.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 07f4d98..9ffef89 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -193,6 +193,7 @@ struct Zone {
       // the second element of Bound is true if the constraint is not strict,
       // i.e., LE or GE.
       Bounds lowerBound = value(0, i + 1);
+      lowerBound.first = -lowerBound.first;
       if (lowerBound.first > 0 or
           (lowerBound.first == 0 and lowerBound.second == false)) {
         if (lowerBound.second) {
@@ -202,7 +203,7 @@ struct Zone {
         }
       }
       Bounds upperBound = value(i + 1, 0);
-      if (upperBound < M) {
+      if (upperBound <= M) {
         if (upperBound.second) {
           guard.push_back(ConstraintMaker(i) <= upperBound.first);
         } else {
-- 
2.43.0


From b3b9f1ea280093069bb15906b4bea39de8833229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:14 +0000
Subject: [PATCH 26/26] fix: assign the intersection of zones

---
 libmonaa/zone.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 9ffef89..21d17b8 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -221,6 +221,6 @@ struct Zone {
 
   void intersectionAssign(Zone z) {
     assert(value.size() == z.value.size());
-    value.cwiseMin(z.value);
+    value = value.cwiseMin(z.value);
   }
 };
-- 
2.43.0

