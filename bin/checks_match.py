"""C01-C06: the matching functions against the denotational semantics."""
import json
from gen import *
from vlib import *


def tacase(cid, mode, U, ta, w, tmo, b0=0, b1=None, span=None):
    c = dict(id=cid, mode=mode, kind="ta", U=U, pat=ta, w=w, cmax=ta_cmax(ta), b0=b0)
    line = f"{cid} {mode} {U} {tmo} ta {enc_ta(ta)} {enc_word(w)}"
    return finish_case(c, b1, span), line


def finish_case(c, b1=None, span=None):
    hor = c["w"][-1]["t"] + (c["cmax"] + 1) * c["U"] if c["w"] else (c["cmax"] + 1) * c["U"]
    c["b1"] = hor if b1 is None else b1
    c["span"] = hor if span is None else span
    return c


def trecase(cid, e, U, w, tmo, mode="dollar"):
    full = {"op": "cat", "a": e, "b": {"op": "atom", "c": "$"}} if mode == "dollar" else e
    c = dict(id=cid, mode=mode, kind="tre" if mode == "dollar" else "sig", U=U, pat=strip(full), w=w,
             cmax=tre_cmax(full), b0=0, expr=tre_str(full), F=splits(e) + 1)
    if mode == "signal":
        c["fam"] = "tre"
    line = f"{cid} {mode} {U} {tmo} tre {tre_str(full).encode().hex()} {enc_word(w)}"
    return finish_case(c), line


def nullable(e):
    op = e["op"]
    if op in ("atom", "eps"): return op == "eps"
    if op in ("in", "plus"): return nullable(e["a"])
    if op == "or": return nullable(e["a"]) or nullable(e["b"])
    return nullable(e["a"]) and nullable(e["b"])


def touching(c):
    """May begin and end coincide?  In the signal style the last event is moved
    to the end; the terminator alone is a match without events."""
    if c["mode"] == "signal": return True
    p = c["pat"]
    if c["kind"] != "ta": return nullable(p["a"])
    return any(e["s"] in p["init"] and e["c"] == "$" for e in p["edges"])


def splits(e):
    """Upper bound on the free cut points of one signal letter."""
    op = e["op"]
    if op in ("atom", "eps"): return 0
    if op == "in": return splits(e["a"])
    if op == "plus": return 2 * (splits(e["a"]) + 1)
    if op == "or": return max(splits(e["a"]), splits(e["b"]))
    if op == "and": return splits(e["a"]) + splits(e["b"])
    return splits(e["a"]) + splits(e["b"]) + 1


LET26 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def ta_families(ck, mode, n):
    """Automaton/word pairs of every family; n scales their number."""
    rng = ck.rng
    out = []
    def add(fam, ta, U, w, tmo=20, **kw):
        if not w:
            return
        c, l = tacase(f"{fam}{len(out)}", mode, U, permute_ta(rng, ta), w, tmo, **kw)
        c["fam"] = fam
        out.append((c, l))
    for i in range(n):                     # small and random
        U, cm = rng.choice([3, 3, 6, 12]), rng.randint(1, 4)
        nc = rng.choice([0, 1, 1, 1])
        ta = rand_ta(rng, rng.randint(2, 6), nc, "ab", cm, rng.randint(0, 4), mode)
        w = rand_word(rng, rng.randint(1, 7), U, "ab", 2) if i % 2 else guided_word(rng, ta, rng.randint(2, 7), U, "ab", 3)
        add("rand", ta, U, w)
    for i in range(n):                     # chains: long matches, both skip rules
        U, cm = rng.choice([3, 3, 6, 12]), rng.randint(1, 4)
        L = rng.choice(["a", "ab", "ab", "abc"])
        ta = chain_ta(rng, rng.randint(1, 4), rng.choice([0, 1, 1, 1]), L, cm, mode)
        add("chain", ta, U, guided_word(rng, ta, rng.randint(3, 9), U, L, 3))
    for i in range(n // 3):                # two clocks
        cm = rng.randint(1, 3)
        ta = chain_ta(rng, rng.randint(1, 3), 2, rng.choice(["a", "ab"]), cm, mode, loop=0.2)
        add("two", ta, 3, guided_word(rng, ta, rng.randint(3, 6), 3, "ab", 3), 10)
    for i in range(n // 4):                # a short match inside a longer run
        L = rng.choice(["a", "ab", "ab"])
        ta = fork_ta(rng, rng.randint(1, 3), rng.choice([0, 1]), L, 3, mode)
        add("fork", ta, 3, guided_word(rng, ta, rng.randint(4, 9), 3, L, 2, 0.9))
    for i in range(n // 8):                # three clocks
        ta = chain_ta(rng, rng.randint(2, 3), 3, "ab", 2, mode, loop=0.0)
        add("three", ta, 3, guided_word(rng, ta, rng.randint(3, 5), 3, "ab", 2), 10)
    for i in range(n // 4):                # many letters
        L = "".join(rng.sample(LET26, rng.randint(3, 8)))
        ta = chain_ta(rng, rng.randint(2, 5), rng.choice([0, 1]), L, 3, mode)
        add("letters", ta, 3, guided_word(rng, ta, rng.randint(4, 10), 3, L, 2, 0.9))
    for i in range(n // 6):                # large constants, long gaps
        cm = rng.randint(8, 20)
        ta = chain_ta(rng, rng.randint(1, 3), 1, "ab", cm, mode)
        w = guided_word(rng, ta, rng.randint(3, 4), 3, "ab", rng.randint(5, 12), 0.95)
        add("large", ta, 3, w)
    for i in range(n // 10):               # longer patterns
        ta = chain_ta(rng, rng.randint(5, 8), rng.choice([0, 1]), rng.choice(["a", "ab"]), 3, mode)
        add("long", ta, 3, guided_word(rng, ta, rng.randint(8, 14), 3, "ab", 1, 0.95))
    for i in range(n // 25):               # long logs, judged in windows
        ta = chain_ta(rng, rng.randint(2, 4), rng.choice([0, 1, 1]), "ab", 3, mode)
        N = rng.choice([70, 150, 300, 1100])
        w = guided_word(rng, ta, N, 3, "ab", 2, 0.95)
        at = rng.choice([0, w[-1]["t"] - 40, w[rng.randint(1, N - 30)]["t"]])
        add("log", ta, 3, w, 30, b0=max(0, at), b1=at + 60, span=45)
    return out


def event_tre_cases(ck, n):
    rng, out = ck.rng, []
    for i in range(n):
        U = rng.choice([3, 3, 6])
        L = rng.choice(["ab", "ab", "abc", "xYz"])
        e = rand_tre(rng, rng.randint(1, 3), L, rng.choice([2, 4, 4, 9]))
        w = rand_word(rng, rng.randint(1, 6), U, L, 2)
        out.append(trecase(f"tre{i}", e, U, w, 10))
    return out


def judge(ck, pairs, kinds, what, fails_count=True, sharp=lambda c: True):
    """Drives the code on the cases and lets TLC judge the recordings."""
    cases = {c["id"]: c for c, _ in pairs}
    lines = {c["id"]: l for c, l in pairs}
    def drive(ids):
        out = ck.drive("match_drv", [lines[i] for i in ids])
        good, bad, slow = [], {}, []
        for i in ids:
            o = out[i]
            f = o.get("fail")
            if f == "exit 10":           # "empty pattern": nothing is reported
                good.append(dict(cases[i], log=[]))
            elif f == "timeout":
                slow.append(i)
            elif f:
                bad[i] = f
            else:
                good.append(dict(cases[i], log=[list(z) for z in sorted({tuple(e) for e in o["log"] if e[0] == "zone"})]))
        return good, bad, slow
    good, bad, slow = drive(list(cases))
    ck.runs += len(good)
    ck.log("zones, most of one run:", max(len(c["log"]) for c in good))
    ck.log(f"{len(good)} runs recorded, {len(bad)} failed, {len(slow)} out of time")
    printed, _ = ck.tlc("MatchTrace", good)
    rej = {i: [x for x in v if x[0] in kinds] for i, v in ck.rejects(printed).items()}
    rej = {i: v for i, v in rej.items() if v}
    if rej:                                      # only what a second run repeats counts
        good2, _, _ = drive(list(rej))
        printed, _ = ck.tlc("MatchTrace", good2, count=False)
        rej2 = ck.rejects(printed)
        for i in rej:
            v = [x for x in rej2.get(i, []) if x[0] in kinds]
            if v:
                ck.violation(f"{what}: {v[0][0]} rejected at begin tick, end ticks = {v[0][1]}",
                             dict(case=cases[i], request=lines[i], rejected=v[:10]))
    if fails_count:
        if bad:
            _, bad2, _ = drive(list(bad))
            for i in bad2:
                ck.violation(f"{what}: the call ended with {bad2[i]}", dict(case=cases[i], request=lines[i]))
        hung = [i for i in slow if sharp(cases[i])]
        if hung:
            _, _, slow2 = drive(hung[:24])
            for i in slow2:
                ck.violation(f"{what}: the call did not end", dict(case=cases[i], request=lines[i]))
    nt = sum(1 for c in good if c["log"])
    ck.cov["out_of_time"] = len(slow)
    for c in good:
        if c["log"] and len(ck.samples) < 3:
            ck.sample(dict(id=c["id"], mode=c["mode"], pattern=c.get("expr") or c["pat"], word=c["w"][:12],
                           zones=c["log"][:4]))
    return nt


RULE = ("a case is one (pattern, timed word) pair run through the real matching function; TLC compares the reported "
        "set with the denotational match set on every (begin, end) region; non-trivial: at least one match reported")
FAST = lambda c: c.get("fam") in ("rand", "chain", "letters", "large", "log", "tre", "fork")


def c01(ck):
    ck.build(["match_drv"])
    nt = judge(ck, ta_families(ck, "dollar", ck.n(260, 3000)), ("sound",), "event mode", fails_count=False)
    return ck.finish(RULE, nt, ck.runs)


def c02(ck):
    ck.build(["match_drv"])
    nt = judge(ck, ta_families(ck, "dollar", ck.n(260, 3000)), ("complete",), "event mode", sharp=FAST)
    return ck.finish(RULE, nt, ck.runs)


def c03(ck):
    ck.build(["match_drv"])
    nt = judge(ck, ta_families(ck, "signal", ck.n(240, 3000)), ("sound", "complete"), "signal mode", sharp=FAST)
    return ck.finish(RULE, nt, ck.runs)


def c04(ck):
    ck.build(["match_drv"])
    nt = judge(ck, ta_families(ck, "usual", ck.n(240, 3000)), ("sound", "complete"), "optional terminator", sharp=FAST)
    return ck.finish(RULE, nt, ck.runs)


# ------------------------------------------------------------------ signals
def sword(rng, n, U, L, maxgap):
    """A stutter-free word: consecutive letters differ."""
    w = rand_word(rng, n, U, L, maxgap)
    for i in range(1, n):
        while w[i]["c"] == w[i - 1]["c"]:
            w[i]["c"] = rng.choice(L)
    return w


def plus_ok(e):
    """Iteration of single letters only, over representable intervals."""
    if e["op"] == "plus":
        return len(letters_of(e)) == 1 and intervals(e) is not None
    return all(plus_ok(e[s]) for s in "ab" if s in e)


def sig_struct(rng):
    """Expressions with the shape of a signal: <<expression, shape>>."""
    r = rng.random()
    shape = rng.choice(["ab", "aba", "abc", "ba", "a", "abab"])
    cm = rng.randint(2, 4)
    if r < 0.4:                                   # nested bounds, letters split over parts
        return sig_chain(rng, shape, cm), shape
    if r < 0.75:                                  # conjunctions over the same shape
        shape = shape[:3]
        e = mk("and", sig_chain(rng, shape, cm, 0.2, 0.4, False), sig_chain(rng, shape, cm, 0.2, 0.4, False))
        if rng.random() < 0.2: e = rand_in(rng, e, cm)
        if rng.random() < 0.2: e = mk("or", e, sig_chain(rng, shape, cm, 0, 0.5, False))
        return e, shape
    if r < 0.82:                                  # single letters
        return one_letter(rng, "a", cm, rng.randint(1, 3)), "ab"
    shape = shape[:2]
    parts = [one_letter(rng, c, cm, 2, ("or", "plus", "cat", "in", "plus")) for c in shape]
    return tree(rng, parts, cm, 0.4), shape


def nested(rng):
    """An iteration, bounded, iterated again: <<expression, shape>>."""
    cm = rng.randint(2, 4)
    e = {"op": "plus", "a": rand_in(rng, A("a"), cm, 0, 0)}
    b = rand_in(rng, A("a"), 2 * cm, 0, 0)
    if rng.random() < 0.5: b = {"op": "plus", "a": b}
    e = mk("and", *rng.sample([e, b], 2))
    if rng.random() < 0.7: e = {"op": "plus", "a": e}
    if rng.random() < 0.3: e = rand_in(rng, e, 2 * cm, 0, 0)
    return (mk("cat", e, rand_in(rng, A("b"), cm)), "ab") if rng.random() < 0.3 else (e, "a")


def has(op, e):
    return e["op"] == op or any(has(op, e[s]) for s in "ab" if s in e)


def count(op, e):
    return (e["op"] == op) + sum(count(op, e[s]) for s in "ab" if s in e)


def iterated(e):
    """The most intervals which some iteration gives."""
    return max([len(intervals(e)) if e["op"] == "plus" else 0] + [iterated(e[s]) for s in "ab" if s in e])


def heavy(e):
    """Large products: the construction of the skip tables need not end in time."""
    return has("and", e) or iterated(e) > 4 or count("in", e) + count("or", e) > 3


def struct_cases(ck, n):
    rng, out = ck.rng, []
    while len(out) < n:
        e, shape = sig_struct(rng)
        if splits(e) + 1 > 5 or not plus_ok(e): continue
        if has("and", e) and count("in", e) > (4 if has("cat", e) else 8): continue   # products of many clocks explode
        it = has("plus", e)
        w = shape_word(rng, shape, rng.randint(1, 3 if it else 5), 3, "abc", rng.choice([2, 4]) if it else 3)
        c, l = trecase(f"str{len(out)}", e, 3, w, 15, "signal")
        if it: c["F"] = max(c["F"], 4)
        if heavy(e): c["fam"] = "str"
        out.append((c, l))
    return out


def nested_cases(ck, n):
    """At most 6 units of one letter, so that 9 fine ticks separate the iterations."""
    rng, out = ck.rng, []
    while len(out) < n:
        e, shape = nested(rng)
        if not plus_ok(e): continue
        w = [{"c": "a", "t": 3 * rng.randint(2, 6)}]
        if shape == "ab": w.append({"c": "b", "t": w[0]["t"] + 3 * rng.randint(1, 2)})
        c, l = trecase(f"nest{len(out)}", e, 3, w, 15, "signal")
        c["F"], c["fam"] = 9, "str"
        out.append((c, l))
    return out


def sig_expr(rng):
    r = rng.random()
    if r < 0.35:
        return rand_tre(rng, rng.randint(1, 3), "ab", 3, ("or", "cat", "in"))
    if r < 0.65:
        return rand_tre(rng, rng.randint(1, 3), "ab", 3, ("or", "cat", "in", "plus"))
    a = rand_tre(rng, rng.randint(1, 2), "ab", 3, ("or", "cat", "in", "plus"))
    b = rand_tre(rng, rng.randint(1, 2), "ab", 3, ("or", "cat", "in"))
    if rng.random() < 0.5:
        a, b = b, a
    e = {"op": "and", "a": a, "b": b}
    if rng.random() < 0.3:
        e = {"op": "in", "a": e, "lo": 1, "loc": rng.randint(0, 1), "hi": 3, "hic": rng.randint(0, 1)}
    if rng.random() < 0.3:
        e = {"op": "or", "a": e, "b": {"op": "atom", "c": "a"}}
    return e


SIG_FINDINGS = [("mixed-plus", {"op": "plus", "a": {"op": "cat", "a": {"op": "atom", "c": "a"}, "b": {"op": "atom", "c": "b"}}}),
                ("mixed-plus", {"op": "plus", "a": {"op": "or", "a": {"op": "atom", "c": "a"}, "b": {"op": "atom", "c": "b"}}}),
                ("plus-point", {"op": "plus", "a": {"op": "in", "a": {"op": "atom", "c": "b"}, "lo": 1, "loc": 1, "hi": 1, "hic": 1}})]


def c06(ck):
    ck.build(["match_drv", "ta_drv"])
    rng, pairs = ck.rng, []
    n = ck.n(1500, 12000)
    while len(pairs) < n:
        e = sig_expr(rng)
        if splits(e) + 1 > 5 or not plus_ok(e):
            continue
        U = 3
        w = sword(rng, rng.randint(1, 4), U, rng.choice(["ab", "ab", "abc"]), 2)
        pairs.append(trecase(f"sig{len(pairs)}", e, U, w, 15, "signal"))
        if heavy(e): pairs[-1][0]["fam"] = "str"
    pairs += struct_cases(ck, ck.n(1500, 12000)) + nested_cases(ck, ck.n(150, 2000))
    nt = judge(ck, pairs, ("sound", "complete"), "signal expression", sharp=FAST)
    # the automata themselves: language, clocks and constants
    from checks_lang import language, gaps_for
    cases = {}
    while len(cases) < ck.n(500, 4000):
        e = sig_struct(rng)[0] if len(cases) % 2 else sig_expr(rng)
        if splits(e) + 1 > 5 or not plus_ok(e): continue
        if has("and", e) and count("in", e) > (4 if has("cat", e) else 8): continue
        cid, L = f"lang{len(cases)}", sorted(letters_of(e) | {"b"})
        f = max(splits(e) + 1, 4 if has("plus", e) else 2)    # unobservable steps happen at ticks
        gaps = [f * g for g in gaps_for(rng, 2, tre_cmax(e), 5) if g]
        c = dict(id=cid, kind="sig", U=2 * f, F=1, letters=L, gaps=gaps,
                 depth=3 if len(L) < 3 else 4, pat=strip(e), expr=tre_str(e))
        cases[cid] = (c, f"{cid} 20 signal {tre_str(e).encode().hex()}")
    language(ck, cases, "signal expression to automaton")
    for i, (key, e) in enumerate(SIG_FINDINGS):
        c, l = trecase(f"known{i}", e, 3, [{"c": "a", "t": 3}, {"c": "b", "t": 6}, {"c": "a", "t": 12}], 10, "signal")
        o = ck.drive("match_drv", [l])[c["id"]]
        if "fail" in o and o["fail"] != "exit 10":
            ck.finding(key, f"signal expression {c['expr']}: {o['fail']}", dict(case=c, request=l))
    return ck.finish(RULE, nt, ck.runs)


def eps_cases(ck, n):
    """Automata with unobservable transitions; F is one more than their number."""
    rng, out = ck.rng, []
    for i in range(n):
        L = rng.choice(["a", "ab", "ab", "abc"])
        nc = rng.choice([1, 1, 2])
        ta = eps_ta(rng, rng.randint(1, 4), nc, L, rng.randint(1, 3), 2 if i % 4 else 3)
        w = eps_word(rng, ta, rng.randint(2, 6), 3, L, 2)
        c, l = tacase(f"eps{i}", "signal", 3, permute_ta(rng, ta), w, 15)
        c.update(kind="eps", F=sum(1 for e in ta["edges"] if e["c"] == "eps") + 1, fam="eps")
        out.append((c, l))
    for i in range(n // 4):
        L = rng.choice(["ab", "abc"])
        ta = fan_ta(rng, rng.choice([0, 1, 1]), L, rng.randint(1, 3))
        w = eps_word(rng, ta, rng.randint(2, 7), 3, L, 2)
        c, l = tacase(f"fan{i}", "signal", 3, permute_ta(rng, ta), w, 15)
        c.update(kind="eps", F=3, fam="fan")
        out.append((c, l))
    return out


def c20(ck):
    ck.build(["match_drv"])
    nt = judge(ck, eps_cases(ck, ck.n(700, 6000)), ("sound", "complete"), "automaton with unobservable transitions")
    return ck.finish(RULE, nt, ck.runs)


def c16(ck):
    ck.build(["match_drv"])
    rng, pairs = ck.rng, []
    for mode in ("dollar", "signal", "usual"):
        for c, l in ta_families(ck, mode, ck.n(110, 1000)):
            if len(c["w"]) <= 20:
                pairs.append((dict(c, id=f"{mode}_{c['id']}"), f"{mode}_{l}"))
    for c, l in event_tre_cases(ck, ck.n(120, 1000)):
        pairs.append((c, l))
    for i in range(ck.n(250, 2000)):
        e = sig_expr(rng)
        while splits(e) + 1 > 5 or not plus_ok(e):
            e = sig_expr(rng)
        pairs.append(trecase(f"sig{i}", e, 3, sword(rng, rng.randint(1, 5), 3, "ab", 2), 15, "signal"))
    cases = {c["id"]: (c, l) for c, l in pairs}
    def run(ids):
        out, good = ck.drive("match_drv", [cases[i][1] for i in ids]), []
        for i in ids:
            if "log" in out[i]:
                c, zs = cases[i][0], sorted({tuple(e) for e in out[i]["log"]})
                fin = [abs(b) for z in zs for b in (z[1], z[3], z[5], z[7], z[9], z[11]) if abs(b) < 10**9]
                good.append(dict(id=i, U=c["U"], weak=int(touching(c)), log=[list(z) for z in zs], top=max(fin, default=0) // 1000 + 4))
        return good
    good = run(list(cases))
    ck.runs += len(good)
    ck.log(f"{len(good)} runs, {sum(len(c['log']) for c in good)} different zones")
    small = [c for c in good if c["top"] < 400]
    printed, _ = ck.tlc("ZoneForm", small)
    rej = ck.rejects(printed)
    if rej:
        printed, _ = ck.tlc("ZoneForm", run(list(rej)), count=False)
        for i, v in ck.rejects(printed).items():
            ck.violation(f"reported zone: {v[0]}", dict(case=cases[i][0], request=cases[i][1], rejected=v[:10]))
    for c in small[:2]:
        ck.sample(dict(id=c["id"], zones=c["log"][:3]))
    return ck.finish("a case is a run of a matching function (automata and expressions, all three modes); TLC visits every "
                     "reported zone and judges it point by point", sum(1 for c in good if c["log"]), ck.runs)
