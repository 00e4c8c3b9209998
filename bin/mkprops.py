#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "libmonaa/monaa.hh"
P = []
def prop(id, title, statement, over, text, why, files, mech, state, observe, level=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, level=level, technique=technique, note=note, na=na))

TV = ("TLA+ specification of the match semantics (TimedWord, TASem) checked by TLC against recorded runs of the real "
      "function (MatchTrace: conformance over every region of the begin/end plane)")
prop("C01", "Event mode reports only matches",
     "Whatever timed automaton and timed word are given to event-mode matching, every reported pair of a begin and an "
     "end time is a match: the events strictly between them, shifted so that the begin is time zero and followed by the "
     "terminator at the end, are accepted by the automaton. A pair that is not a match is never inside a reported zone.",
     ["inputs", "histories"], "all timed automata, all timed words, all real begin/end pairs",
     "a wrong bound or strictness shows only for particular guards, resets and event times; tests sample a few patterns and mostly count results",
     [MON], [("matching loop, event mode", "libmonaa/monaa.hh: monaaDollar"), ("bounds of the begin time", "libmonaa/monaa.hh: updateConstraint"),
             ("zones with unobservable transitions", "libmonaa/intermediate_zone.hh")],
     ["configurations of the automaton", "bounds on begin and end"], "zones pushed to the answer container",
     "model_checking", TV, "bounded automata (<= 9 states, <= 3 clocks) and words (<= 1100 events); exact over all real begin/end points of each recorded run")
prop("C02", "Event mode misses no match",
     "Whatever timed automaton and timed word are given to event-mode matching, every pair of a begin and an end time "
     "which is a match containing at least one event lies in some reported zone, no matter how the search skips over the "
     "input. Matching ends on every finite input.",
     ["inputs", "histories"], "all timed automata, all timed words, all real begin/end pairs with an event in between",
     "a skip that is too long loses matches only for specific combinations of pattern, word and earlier partial matches",
     [MON, "libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh"],
     [("Sunday and KMP shifts", "libmonaa/monaa.hh: monaaDollar"), ("skip tables", "libmonaa/sunday_skip_value.hh, libmonaa/kmp_skip_value.hh"),
      ("dead states", "libmonaa/zone_automaton.hh: removeDeadStates")],
     ["position in the word", "skip tables", "configurations"], "zones pushed to the answer container",
     "model_checking", TV, "as C01; a match of no event at all (the terminator alone) is outside the property")
prop("C03", "Signal-style matching of automata is exact",
     "When an automaton without terminator is matched in the signal style, a begin/end pair is reported exactly if the "
     "events strictly between, followed by the next event moved forward to the end time, are accepted from the begin "
     "time. Nothing else is reported and nothing is missed.",
     ["inputs", "histories"], "all timed automata, all timed words, all real begin/end pairs",
     "the tests compare counts or a few zones; strictness and skipping errors need particular guards and times",
     [MON], [("matching loop, signal style", "libmonaa/monaa.hh: monaa")], ["configurations", "bounds on begin and end"],
     "zones pushed to the answer container", "model_checking", TV, "bounded automata and words, exact over all real begin/end points")
prop("C04", "Matching with optional terminator is exact",
     "When the terminator is optional, a begin/end pair is reported exactly if the events strictly between followed by "
     "the terminator at the end are accepted, or if the end is the time of an event and the events after the begin up to "
     "and including it are accepted. Matches of the terminator alone need not be reported.",
     ["inputs", "histories"], "all timed automata, all timed words, all real begin/end pairs",
     "the two ways to end a match interact with skipping and with the zones; tests hold a handful of cases",
     [MON], [("matching loop, optional terminator", "libmonaa/monaa.hh: monaaNotNecessaryDollar")],
     ["configurations", "bounds on begin and end"], "zones pushed to the answer container",
     "model_checking", TV, "bounded automata and words, exact over all real begin/end points")
prop("C05", "Event expressions denote their language",
     "The automaton built from a timed regular expression in event mode accepts exactly the timed words the expression "
     "denotes: letters, concatenation, union, intersection, iteration (also zero times) and duration bounds with open, closed, or "
     "absent limits. Matching an expression against a word therefore reports exactly the pairs whose segment is in that language.",
     ["programs", "inputs"], "all timed regular expressions, all timed words",
     "the constructions interact (empty word, zero durations, reused clocks); unit tests check a few expressions and words",
     ["monaa/tre.cc", "libmonaa/intersection.cc"], [("construction by structural recursion", "monaa/tre.cc: toEventTA, concat2"),
     ("product", "libmonaa/intersection.cc")], ["automaton under construction"], "language of the automaton; zones reported by matching",
     "model_checking", "TLA+ semantics of expressions (TRESem) against the automaton dumped from the code: TLC grows every word over bounded letters and delays (TALang), and judges recorded matching runs (MatchTrace)",
     "expressions up to depth 4, words up to 3 letters for the language and 6 for matching")
prop("C06", "Signal expressions match their segments",
     "In signal mode, where each letter holds from the previous event until its own, a begin/end pair is reported if the "
     "signal between them is in the language of the expression with letters of positive length, and only if it is in the "
     "language with letters of non-negative length. This covers letters, concatenation, union, duration bounds, iteration of "
     "a single letter, and intersection not under concatenation or iteration.",
     ["programs", "inputs"], "all such expressions, all signals whose adjacent letters differ, all begin/end pairs",
     "letters stretch over and split at arbitrary real points, which a finite list of samples cannot cover",
     ["monaa/intermediate_tre.cc", "monaa/intermediate_tre.hh", "libmonaa/interval.hh", MON],
     [("normal form of signal expressions", "monaa/intermediate_tre.cc"), ("interval algebra", "libmonaa/interval.hh")],
     ["normal form", "automaton"], "zones reported in signal mode", "model_checking",
     "TLA+ semantics of expressions over signals (SigSem) checked by TLC against recorded signal-mode runs (MatchTrace)",
     "random expressions up to depth 3 and expressions built along the shape of a signal (nested bounds over split letters, conjunctions, intervals of one letter), words up to 5 letters; iteration of anything but a letter and of point intervals are known findings")


prop("C20", "Matching with unobservable transitions is exact",
     "For an automaton with unobservable transitions, none of them on a cycle, the signal-style matching reports a begin/end "
     "pair if some run of the automaton with positive delays reads the letters between begin and end, moving the last one to "
     "the end, and takes unobservable transitions at any times between them; and only if such a run exists with delays that "
     "may be zero.",
     ["programs", "inputs"], "all timed automata with unobservable transitions outside cycles, all words, all begin/end pairs",
     "the times of unobservable transitions are quantified existentially over the reals, and chains of them need a "
     "representation which the tests hardly touch",
     ["libmonaa/intermediate_zone.hh", MON, "libmonaa/zone_automaton.hh", "libmonaa/sunday_skip_value.hh"],
     [("zones with unknown times of unobservable transitions", "libmonaa/intermediate_zone.hh"),
      ("unobservable transitions of the signal style", MON), ("closures of the zone automaton", "libmonaa/zone_automaton.hh: epsilonClosure")],
     ["configurations with an IntermediateZone"], "zones reported in signal mode", "model_checking",
     "TLA+ semantics of runs with unobservable transitions on a lattice fine enough for all real times (EpsSem) checked by TLC against recorded runs (MatchTrace)",
     "up to 8 locations, 2 clocks, constants up to 3, up to 3 unobservable transitions in a run; words up to 6 events")
prop("C07", "Texts of expressions are read as the grammar says",
     "A text is accepted as a timed regular expression exactly if it follows the grammar (letters, terminator, "
     "concatenation, union, intersection, iteration, duration bounds in interval or comparison form, parentheses, blanks), "
     "and an accepted text denotes the expression in which postfix operators bind tightest and the binary operators group "
     "to the right. Everything else is refused without a crash.",
     ["inputs"], "all texts over the alphabet of the syntax",
     "precedence and associativity mix in ways a list of examples cannot cover, and refused texts are barely tested",
     ["monaa/tre_parser.yy", "monaa/tre_lexer.l", "monaa/tre_driver.hh"],
     [("grammar", "monaa/tre_parser.yy"), ("scanner", "monaa/tre_lexer.l")], ["token stream"], "acceptance of the text, language of the automaton",
     "model_checking", "TLA+ specification of the concrete syntax (TREText: scanner and parser) composed with TRESem; TLC parses each text and compares acceptance and the language of the automaton of the code, word by word (TALang)",
     "texts up to 40 characters, integers up to 99, words up to 3 letters")
prop("C09", "Zone automata preserve the untimed language",
     "The zone automaton of a timed automaton reaches, after every sequence of letters, exactly the locations which the "
     "timed automaton reaches on some strictly increasing timing of that sequence, also with unobservable transitions (which "
     "may happen without delay). Its "
     "construction ends, removing dead states changes no accepted word, and the emptiness verdict is right.",
     ["inputs", "histories"], "all timed automata, all untimed words",
     "a too coarse or too fine abstraction shows only for particular guards, resets and cycles",
     ["libmonaa/zone.hh", "libmonaa/ta2za.cc", "libmonaa/zone_automaton.hh"],
     [("breadth-first zone construction", "libmonaa/ta2za.cc"), ("abstraction", "libmonaa/zone.hh: abstractize"),
      ("dead states and unobservable transitions", "libmonaa/zone_automaton.hh")],
     ["zone states", "edges"], "states, edges and verdicts of the zone automaton", "model_checking",
     "TLA+ specification of clock regions (RegionSem, Alur and Dill) run by TLC in lockstep with the dumped zone automaton (ZATrace); emptiness by a fixpoint over the regions",
     "up to 6 locations, 3 clocks, constants up to 3; untimed words up to 5 letters, emptiness over all words")
prop("C13", "Automaton files are written and read back faithfully",
     "The automaton read from a file is the one the file describes, whatever the order of statements and attributes, the "
     "names of the nodes and the quoting; a file written for an automaton describes that automaton. Reading what was written "
     "therefore gives an automaton with the same timed language.",
     ["inputs"], "all timed automata, all files in the format",
     "tests read a handful of files and never read back what is printed",
     ["monaa/timed_automaton_parser.hh", "libmonaa/timed_automaton.hh", "monaa/tre2ta.cc"],
     [("reading", "monaa/timed_automaton_parser.hh: parseBoostTA, convBoostTA"), ("printing", "libmonaa/timed_automaton.hh: operator<<")],
     ["automaton"], "automaton read from a file; text of a printed automaton", "model_checking",
     "TLA+ specification of the file format (DotText: scanner and parser of the text) composed with TASem; TLC parses each file and compares the described automaton with the one which the code read or printed, word by word (TALang)",
     "up to 5 locations, 3 clocks; expressions up to depth 4; words up to 3 letters")
prop("C14", "Products accept exactly the common words",
     "The product of two timed automata accepts exactly the timed words which both accept, where unobservable transitions of "
     "either may be taken on their own; the clocks of the two do not interfere, the arguments may be the same automaton, and "
     "they are not modified.",
     ["programs", "inputs"], "all pairs of timed automata, all timed words",
     "clock renaming and interleaving errors need two automata with particular clocks; the tests have a few pairs",
     ["libmonaa/intersection.cc"], [("product construction", "libmonaa/intersection.cc: intersectionTA")],
     ["product automaton"], "language of the product", "model_checking",
     "TLA+ automaton semantics (TASem): TLC runs both factors and the product of the code in lockstep over every word (TALang)",
     "up to 4 locations and 2 clocks each, words up to 3 letters over four delays, unobservable steps on a lattice of ticks")
prop("C15", "Matching calls do not influence each other",
     "The result of a matching call depends only on its automaton and its word: not on earlier calls in the process, in any "
     "mode, with the same or other automata. The automaton given is left as it was, and a deep copy of an automaton has "
     "the same language and shares nothing with the original.",
     ["histories"], "all sequences of calls",
     "every test runs one call on fresh data; state kept between calls shows only for particular successions",
     [MON, "libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh", "libmonaa/zone.hh", "libmonaa/timed_automaton.hh"],
     [("matching functions", MON), ("cached zones", "libmonaa/zone.hh: zero, universal"), ("deep copy", "libmonaa/timed_automaton.hh: deepCopy")],
     ["static objects", "automaton passed by reference"], "zones reported by each call of a sequence; automaton before and after",
     "model_checking", "TLA+ match semantics (MatchTrace) on every call of recorded sequences of calls in one process; copies compared with the original by TALang, word by word",
     "sequences of up to 4 calls in mixed modes, half of them on the same automaton object")
prop("C16", "Reported zones are never empty or out of order",
     "Every zone reported by any of the matching functions holds at least one pair, and all pairs in it have a begin which is "
     "not negative and an end after the begin; its bounds are numbers. Where a match may have no duration at all (the signal style, "
     "and the terminator alone) the end is not before the begin.",
     ["inputs", "histories"], "all patterns, all timed words, all real points",
     "an inconsistent zone is reported only for particular combinations of bounds, and the tests do not look for it",
     [MON, "libmonaa/intermediate_zone.hh", "libmonaa/ans_vec.hh"], [("zones pushed to the answers", "libmonaa/monaa.hh: ans.push_back"),
     ("zones with unobservable transitions", "libmonaa/intermediate_zone.hh")], ["bounds on begin and end"],
     "zones pushed to the answer container", "model_checking",
     "TLA+ specification of the form of zones (ZoneForm): TLC visits each zone of the recorded runs and judges it point by point on the lattice of regions",
     "bounded automata, expressions and words in all modes")
prop("C17", "The membership test is exact",
     "For an automaton without unobservable transitions the membership test says yes exactly for the timed words which some "
     "run of the automaton accepts, events at the same time included.",
     ["inputs"], "all timed automata, all timed words",
     "each guard, reset and nondeterministic choice must be followed independently; the tests ask for few words",
     ["libmonaa/timed_automaton.hh", "libmonaa/constraint.hh"], [("run over sets of configurations", "libmonaa/timed_automaton.hh: isMember"),
     ("satisfaction of constraints", "libmonaa/constraint.hh")], ["set of configurations"], "verdict of isMember", "model_checking",
     "TLA+ automaton semantics (TASem): TLC enumerates every word over the letters and delays of a case and compares with the table of verdicts of the code (TALang, kind member)",
     "up to 5 locations and 3 clocks, all words up to 3 events over up to 5 delays")

prop("C08", "Interval arithmetic computes sets of durations",
     "Intersection, sum, alternative bounds and iteration of intervals denote the intersection, the element-wise sum, and the sums "
     "of one or more elements of the sets of durations they stand for, open, closed and unbounded ends included, also for lists "
     "of intervals; an interval contains exactly the values between its ends, and operands given as constants are not changed.",
     ["inputs"], "all intervals with integer ends, open or closed, bounded or not, and all lists of them",
     "one wrong strictness at one combination of ends changes the set by one point; the tests take a few intervals",
     ["libmonaa/interval.hh"], [("interval operations", "libmonaa/interval.hh: land, operator+, operator&&, plus")],
     ["lists of intervals"], "sets of values of the results", "model_checking",
     "TLA+ specification of the algebra of sets of durations (IntervalAlg): TLC computes the expected sets for every pair of operands and compares them with the results of the code point by point",
     "all pairs of intervals with ends up to 4 or 6 and drawn lists; ends and the points between them decided")

prop("C18", "Zones stand for sets of clock values",
     "The operations of a zone are operations on the set of clock values it stands for: adding a bound keeps exactly the values "
     "which satisfy it, a reset sets the clock to zero, time passing adds one delay to all clocks, cutting keeps some of the "
     "clocks, and the intersection is the intersection. A zone is satisfiable exactly if it holds a value, canonical zones have "
     "the tightest bounds and are equal exactly if they hold the same values. The abstraction only adds values, leaves bounds "
     "up to the largest constant M only, and makes no single bound up to M satisfiable; the guard made from a zone is the "
     "strongest one with constants up to M.",
     ["histories"], "all sequences of operations on all zones of whole bounds, up to the first empty zone",
     "a zone which is wrong by a point or by a diagonal bound shows only after a further reset, delay or bound",
     ["libmonaa/zone.hh"], [("difference bound matrices", "libmonaa/zone.hh: tighten, close1, canonize, reset, elapse, elapseOrStay"),
      ("abstraction and guards", "libmonaa/zone.hh: abstractize, makeGuard"), ("verdicts", "libmonaa/zone.hh: isSatisfiable, operator==")],
     ["bounds of the matrix"], "the matrix, verdict and guard after each operation", "model_checking",
     "TLA+ specification of zones as sets of clock regions with their operations (ZoneOps); TLC carries the set along with each recorded history and compares after every operation",
     "1 to 3 clocks, constants up to 4 (2 clocks: 3, 3 clocks: 1), 2 to 12 operations")
prop("C10", "Skips never jump over a match",
     "The skip tables built from a pattern are safe: no match is shorter than the length they assume, a letter which can occur at "
     "a position of a match is never skipped by more than the distance to it, and after a run has come to a location no match "
     "begins before the skip value of that location; every skip moves forward.",
     ["inputs", "programs"], "all timed automata in all three modes, all timed words of any length, all real beginnings and ends",
     "an unsafe skip loses a match only for a particular log, pattern and overlap; the tests compare a few tables",
     ["libmonaa/sunday_skip_value.hh", "libmonaa/kmp_skip_value.hh", "libmonaa/intersection.cc", "libmonaa/ta2za.cc"],
     [("Sunday-type table", "libmonaa/sunday_skip_value.hh: SundaySkipValue"), ("KMP-type table", "libmonaa/kmp_skip_value.hh: KMPSkipValue")],
     ["delta, endChars, m", "beta"], "values of the tables", "model_checking",
     "TLA+ specification of a run and a later match on clock regions (SkipSem): TLC explores all their interleavings, unbounded in the word, and judges the tables which the code built",
     "automata without unobservable transitions, up to 6 locations, one clock (two for small ones), constants up to 4; exhaustive over words for each")
prop("C11", "The word is read in one pass through a sliding window",
     "The word containers answer every sequence of fetch, access, setFront and size as a window over the stream of events, in text "
     "and binary form, a truncated record not being an event. The matching functions look only at events in the window, never move "
     "it back, and keep a bounded window for patterns without loops. Once the search has come to the begin of a match, it is reported "
     "before asking for events after the first one at or behind its end.",
     ["histories", "inputs"], "all sequences of operations, all streams; all patterns and words",
     "only particular sequences of calls and positions of the window show an offset error; the tests read one file in order",
     ["libmonaa/lazy_deque.hh", "libmonaa/word_container.hh", MON],
     [("window over a file", "libmonaa/lazy_deque.hh: LazyDeque"), ("calls on the word", "libmonaa/monaa.hh: fetch, setFront, operator[]")],
     ["front", "N", "deque of events"], "answers of the container; calls of the matching functions", "model_checking",
     "TLA+ state machine of the container (WordBuffer): TLC generates a history through every transition, replayed on the code and judged (BufferTrace); recorded calls of the matching functions are judged by the same machine (WindowTrace)",
     "every transition of streams of up to 4 (6) events, random histories on up to 400 events; all modes for the calls")
prop("C12", "Exit status and kind of output follow the options",
     "For every combination of options and files monaa and tre2ta either do what was asked and end with status 0, or stop with the "
     "status of one of the faults present (1 for options and files, 2 for patterns which cannot be parsed, 10 for patterns without "
     "words), a message on the error stream and nothing on the output. Quiet mode prints nothing; help and version are printed when asked.",
     ["configurations"], "all combinations of options, kinds of patterns and sources of words",
     "the tests call the programs three times, without faults",
     ["monaa/main.cc", "monaa/tre2ta.cc"], [("options of monaa", "monaa/main.cc: main"), ("options of tre2ta", "monaa/tre2ta.cc: main")],
     ["options"], "exit status, output and error stream", "model_checking",
     "TLA+ state machine of an invocation (Cli): TLC enumerates the invocations and their outcomes, each replayed on the real programs",
     "all invocations with up to three (five) options which differ from the plain call")
prop("C19", "The program prints the matches of its input, in every format",
     "What the program monaa prints for a pattern given as expression, automaton file or automaton made by tre2ta, and a log given as "
     "text or binary, on standard input or in a file, is a list of zones which together hold exactly the matches of the pattern in the log.",
     ["inputs", "configurations"], "all patterns, all logs, all formats and ways of input",
     "reading, translation, matching and printing must agree; the tests compare the output for three inputs",
     ["monaa/main.cc", "monaa/tre2ta.cc", "libmonaa/ans_vec.hh", "libmonaa/lazy_deque.hh", "libmonaa/timed_automaton_parser.hh"],
     [("program", "monaa/main.cc: main"), ("printing", "libmonaa/ans_vec.hh: PrintContainer"), ("reading", "libmonaa/lazy_deque.hh: getOne, getOneBinary")],
     ["output"], "standard output of the program", "model_checking",
     "TLA+ match semantics (MatchTrace over TASem, TRESem, SigSem): TLC compares the printed zones with the match set of the recorded pattern and log",
     "time stamps in quarters; bounded automata, expressions and words")


def main(extra=()):
    with open(f"{V}/properties.jsonl", "w") as h:
        for p in P:
            h.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             state=[dict(name=x) for x in p["state"]], observe_at=[p["observe"]], hook_needed=None))) + "\n")
    man = dict(version=1, setup_cmd="bash bin/setup.sh",
               checks=[dict(property=p["id"], quick_cmd=f"python3 bin/check.py {p['id']} quick",
                            thorough_cmd=f"python3 bin/check.py {p['id']} thorough",
                            technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["level"]],
               not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if not p["level"]])
    with open(f"{V}/MANIFEST.json", "w") as h:
        json.dump(man, h, indent=1)
        h.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


if __name__ == "__main__":
    main()
