"""Languages of constructed automata (C05, C14, C15, C17) and expressions."""
import json
from gen import *
from vlib import *
from checks_match import *


def wellformed(ta):
    if ta["dangling"]:
        return "a transition or an initial state outside the automaton"
    if ta["decl"] < ta["nc"]:
        return f"clock {ta['nc'] - 1} used but only {ta['decl']} declared"
    return None


def gaps_for(rng, U, cmax, k=4):
    """Delays in ticks: zero, fractions of a unit, integer multiples."""
    g = {0, 1} | {rng.choice([U, 2 * U, U - 1, U + 1])}
    while len(g) < k:
        g.add(rng.choice([rng.randint(1, max(4, cmax * U)), rng.randint(0, max(2, cmax)) * U]))
    return sorted(g)


def language(ck, cases, what):
    """cases: {id: (TALang case without ta, request)}; the answer carries ta."""
    def run(ids):
        out = ck.drive("ta_drv", [cases[i][1] for i in ids])
        good, bad = [], {}
        for i in ids:
            o = out[i]
            if "fail" in o:
                bad[i] = o["fail"]
                continue
            if o.get("kept", 1) == 0:
                bad[i] = "an argument is modified"
                continue
            wf = wellformed(o["ta"])
            if wf:
                bad[i] = wf
            else:
                good.append(dict(cases[i][0], ta=o["ta"]))
        return good, bad
    good, bad = run(list(cases))
    ck.runs += len(good)
    slow = [i for i in bad if bad[i] == "timeout"]
    if bad:
        _, bad2 = run(list(bad))
        for i in bad2:
            if i in bad:
                ck.violation(f"{what}: {bad2[i]}", dict(case=cases[i][0], request=cases[i][1]))
    ck.log(f"{len(good)} automata, most edges:", sorted(len(c["ta"]["edges"]) for c in good)[-5:])
    printed, _ = ck.tlc("TALang", good)
    rej = ck.rejects(printed)
    if rej:
        good2, _ = run(list(rej))
        printed, _ = ck.tlc("TALang", good2, count=False)
        rej2 = ck.rejects(printed)
        for i in rej:
            if i in rej2:
                ck.violation(f"{what}: word {rej2[i][0][0]}: {rej2[i][0][1]} ({cases[i][0].get('expr','')})",
                             dict(case=cases[i][0], request=cases[i][1], rejected=rej2[i][:10]))
    for c in good[:2]:
        ck.sample(dict(id=c["id"], kind=c["kind"], expr=c.get("expr"), ta=c["ta"]))
    return good


def c05(ck):
    ck.build(["match_drv", "ta_drv"])
    rng = ck.rng
    pairs = event_tre_cases(ck, ck.n(1000, 9000))
    for c, _ in pairs:
        c["fam"] = "tre"
    nt = judge(ck, pairs, ("sound", "complete"), "event expression", sharp=FAST)
    cases = {}
    for i in range(ck.n(500, 5000)):
        L = rng.choice(["ab", "ab", "abc"])
        e = rand_tre(rng, rng.randint(1, 4) if i % 4 == 0 else rng.randint(1, 3), L, rng.choice([2, 3, 5]))
        U = rng.choice([2, 3])
        d = 3 if len(L) == 2 else 2
        cid = f"lang{i}"
        c = dict(id=cid, kind="tre", U=U, letters=list(L), gaps=gaps_for(rng, U, tre_cmax(e)), depth=d,
                 pat=strip(e), expr=tre_str(e))
        cases[cid] = (c, f"{cid} 10 event {tre_str(e).encode().hex()}")
    language(ck, cases, "event expression to automaton")
    return ck.finish(RULE + "; and for a second set of expressions TLC compares the language of the constructed "
                     "automaton with the language of the expression word by word", nt, ck.runs)


# -------------------------------------------------------------- concrete text
def blank(rng, s):
    return "".join(c + (rng.choice([" ", "\t"]) if rng.random() < 0.08 and not c.isdigit() and c not in "<>" else "") for c in s)


def ival_text(rng, cmax):
    lo = rng.randint(0, cmax); hi = rng.randint(lo, cmax + 1)
    f = rng.choice(["br", "br", "br", "<", "<=", "=", ">=", ">"])
    num = lambda n: ("0" * rng.choice([0, 0, 0, 1])) + str(n)
    if f == "br":
        s = rng.choice("([") + num(lo) + "," + num(hi) + rng.choice(")]")
    else:
        s = f + num(rng.randint(0, cmax + 1))
        if rng.random() < 0.9: s = "(" + s + ")"
    return "(" + s + ")" if rng.random() < 0.1 else s


def rand_text(rng, depth, letters, cmax):
    """Text with few parentheses, so that grouping and precedence matter."""
    if depth == 0 or rng.random() < 0.2:
        return rng.choice(letters)
    sub = lambda: rand_text(rng, depth - 1, letters, cmax)
    op = rng.choice(["cat", "cat", "or", "and", "plus", "star", "in", "paren", "paren"])
    if op == "cat": return sub() + sub()
    if op == "or": return sub() + "|" + sub()
    if op == "and": return sub() + "&" + sub()
    if op == "plus": return sub() + "+"
    if op == "star": return sub() + "*"
    if op == "in": return sub() + "%" + ival_text(rng, cmax)
    return "(" + sub() + ")"


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randint(0, max(0, len(s) - 1))
        r = rng.random()
        if r < 0.4: s = s[:i] + s[i + 1:]
        elif r < 0.8: s = s[:i] + rng.choice("ab()[]|&*+%,<>=019 $?@_-.#Z") + s[i:]
        else: s = s[:i] + s[i:][::-1]
    return s


def c07(ck):
    ck.build(["ta_drv"])
    rng = ck.rng
    cases, seen = {}, set()
    n = ck.n(2500, 15000)
    while len(cases) < n:
        L = rng.choice(["ab", "ab", "aB", "z$"])
        s = blank(rng, rand_text(rng, rng.randint(1, 4), L, rng.choice([2, 3, 12])))
        if rng.random() < 0.35: s = mutate(rng, s)
        if rng.random() < 0.05: s += "\n"
        if s in seen or len(s) > 40: continue
        seen.add(s)
        U = 2
        cid = f"text{len(cases)}"
        letters = sorted({c for c in s if c.isalpha() or c == "$"})[:2] or ["a"]
        ints = [int(x) for x in re.findall(r"\d+", s)]
        if max(ints, default=0) > 99: continue
        c = dict(id=cid, kind="text", U=U, letters=letters, gaps=gaps_for(rng, U, min(max(ints, default=1), 4), 4),
                 depth=3, expr=s, chars=[{"\n": "nl", "\t": " "}.get(x, x) for x in s])
        cases[cid] = (c, f"{cid} 10 event {s.encode().hex() or '-'}")
    out = ck.drive("ta_drv", [r for _, r in cases.values()])
    judged = []
    for i, (c, _) in cases.items():
        o = out[i]
        if o.get("fail") in ("parse", "exit 2"):          # refused by the grammar or by the scanner
            judged.append(dict(c, rejected=1, ta=dict(n=0, init=[], acc=[], nc=0, edges=[], max=[])))
        elif "fail" in o:
            if o["fail"] != "timeout":
                ck.violation(f"expression {c['expr']!r}: {o['fail']}", dict(case=c))
        else:
            judged.append(dict(c, rejected=0, ta=o["ta"]))
    big = [c for c in judged if len(c["ta"]["edges"]) > 400]
    judged = [c for c in judged if len(c["ta"]["edges"]) <= 400]
    ck.runs += len(judged)
    ck.log(f"{len(judged)} texts, {sum(c['rejected'] for c in judged)} refused, {len(big)} too large")
    printed, _ = ck.tlc("TALang", judged)
    for i, v in ck.rejects(printed).items():
        ck.violation(f"expression {cases[i][0]['expr']!r}: {v[0]}", dict(case=cases[i][0], rejected=v[:10]))
    for c in judged[:3]:
        ck.sample(dict(text=c["expr"], refused=c["rejected"], edges=len(c["ta"]["edges"])))
    return ck.finish("a case is a text given to the expression parser (a third of them damaged); TLC parses it with the "
                     "specified grammar and compares acceptance and the language of the resulting automaton word by word",
                     sum(1 for c in judged if not c["rejected"]), ck.runs)


# ------------------------------------------------------ product, copy, member
def eps_some(rng, ta, p):
    return dict(ta, edges=[dict(e, c="eps") if rng.random() < p else e for e in ta["edges"]])


def some_ta(rng, L, cm, kmax=4, ncs=(0, 1, 1, 2)):
    nc = rng.choice(ncs)
    if rng.random() < 0.5:
        ta = rand_ta(rng, rng.randint(1, kmax), nc, L, cm, rng.randint(1, 4), "signal")
    else:
        ta = chain_ta(rng, rng.randint(1, kmax - 1), nc, L, cm, "signal", loop=0.5)
    if rng.random() < 0.25:
        ta = dict(ta, init=sorted(rng.sample(range(1, ta["n"] + 1), rng.randint(1, ta["n"]))))
    return permute_ta(rng, ta)


def far_clocks(rng, ta):
    """The same automaton over some of many clocks."""
    n = rng.randint(10, 12)
    m = rng.sample(range(1, n + 1), ta["nc"] - 1) + [n]
    return dict(ta, nc=n, edges=[dict(e, g=[[m[x - 1], o, c] for x, o, c in e["g"]], r=[m[x - 1] for x in e["r"]])
                                 for e in ta["edges"]])


def eps_loop(rng, ta):
    """An unobservable loop which resets a clock that is tested afterwards."""
    e = rng.choice(ta["edges"])
    x = rng.randint(1, ta["nc"])
    edges = [dict(f, g=f["g"] + [[x, rng.choice(["<", "<="]), 1]]) if f is e else f for f in ta["edges"]]
    return dict(ta, edges=edges + [{"s": e["s"], "c": "eps", "t": e["s"], "g": rand_guard(rng, ta["nc"], 2, 0.2), "r": [x]}])


def c14(ck):
    ck.build(["ta_drv"])
    rng, cases = ck.rng, {}
    for i in range(ck.n(900, 8000)):
        U, cm = rng.choice([2, 3]), rng.randint(1, 3)
        L = rng.choice(["ab", "ab", "abc"])
        a = some_ta(rng, L, cm)
        b = some_ta(rng, rng.choice([L, L[:-1] + "Q"]), cm)
        if i % 12 == 5 and a["nc"] and b["nc"]:
            a, b = rng.choice([(eps_loop(rng, a), b), (a, eps_loop(rng, b)), (eps_loop(rng, a), eps_loop(rng, b))])
        if i % 12 == 8:                       # three clocks, many resets
            a, b = (chain_ta(rng, 2, 3, "ab", cm, "signal", loop=0.5) for _ in range(2))
            for t in (a, b):
                for e in t["edges"]:
                    if rng.random() < 0.5: e["r"] = [1, 2, 3]
        if i % 3 == 0:
            a, b = eps_some(rng, a, 0.25), eps_some(rng, b, rng.choice([0, 0.25]))
        sq = i % 10 == 1
        if sq: b = a
        cid = f"prod{i}"
        c = dict(id=cid, kind="and", U=U, letters=list(L) + (["Q"] if i % 7 == 0 else []), gaps=gaps_for(rng, U, cm, 4),
                 depth=3, a=a, b=b)
        cases[cid] = (c, f"{cid} 10 " + (f"square {enc_ta(a)}" if sq else f"prod {enc_ta(a)} {enc_ta(b)}"))
    good = language(ck, cases, "product of automata")
    return ck.finish("a case is a pair of automata (a third with unobservable transitions, a tenth the same object twice); "
                     "TLC runs both and their product over all words of the case's letters and gaps and compares acceptance",
                     sum(1 for c in good if c["ta"]["acc"]), ck.runs)


def c17(ck):
    ck.build(["ta_drv"])
    rng, cases = ck.rng, {}
    for i in range(ck.n(600, 6000)):
        U, cm = rng.choice([2, 4, 8]), rng.randint(1, 3)      # exact as floating point numbers
        L = rng.choice(["a", "ab", "ab", "a$", "aZ"])
        if i % 12 == 7: U = 2 ** 26              # exact in double precision only
        ta = some_ta(rng, L, cm, 5, (0, 1, 1, 2, 3))
        gaps = gaps_for(rng, U, cm, rng.choice([3, 4, 5]))
        if i % 12 == 7: gaps = sorted({rng.randint(1, cm) * U + rng.choice([-1, 1]) for _ in range(2)} | {rng.randint(0, cm) * U, 1})
        m, d = len(L) * len(gaps), 3
        words = [()]
        for x in words:                      # breadth first
            if len(x) < d:
                words += [x + ((c, g),) for c in L for g in gaps]
        def enc(x):
            t, o = 0, [len(x)]
            for c, g in x:
                t += g
                o += [code(c), t]
            return " ".join(map(str, o))
        cid = f"mem{i}"
        c = dict(id=cid, kind="member", U=U, letters=list(L), gaps=gaps, depth=d, ta=ta)
        cases[cid] = (c, f"{cid} 20 member {U} {enc_ta(ta)} {len(words)} " + " ".join(map(enc, words)))
    def run(ids):
        out = ck.drive("ta_drv", [cases[i][1] for i in ids])
        return ([dict(cases[i][0], verdicts=out[i]["verdicts"]) for i in ids if "fail" not in out[i]],
                {i: out[i]["fail"] for i in ids if "fail" in out[i]})
    good, bad = run(list(cases))
    if bad:
        for i, f in run(list(bad))[1].items():
            ck.violation(f"membership: {f}", dict(case=cases[i][0]))
    ck.runs += sum(len(c["verdicts"]) for c in good)
    printed, _ = ck.tlc("TALang", good)
    rej = ck.rejects(printed)
    if rej:
        again, _ = run(list(rej))
        printed, _ = ck.tlc("TALang", again, count=False)
        for i, v in ck.rejects(printed).items():
            ck.violation(f"membership: {v[0]}", dict(case=cases[i][0], rejected=v[:10]))
    for c in good[:2]:
        ck.sample(dict(ta=c["ta"], words=len(c["verdicts"]), members=sum(c["verdicts"])))
    return ck.finish("a case is an automaton with every word over its letters and gaps (zero included) up to three events "
                     "given to the membership test; TLC runs the automaton on all of them and compares the verdicts",
                     sum(1 for c in good if any(c["verdicts"])), ck.runs)


def c15(ck):
    ck.build(["match_drv", "ta_drv"])
    rng = ck.rng
    # several matching calls in one process, also on one and the same automaton object
    seqs, cases = {}, {}
    for i in range(ck.n(160, 1600)):
        sid, parts, prev = f"seq{i}", [], None
        for j in range(rng.randint(2, 4)):
            mode = rng.choice(["dollar", "signal", "usual"])
            nc, cm, U = rng.choice([0, 1, 1]), rng.randint(1, 3), 3
            if prev and rng.random() < 0.5:
                mode, ta, kind = prev[0], prev[1], "again"
            else:
                ta = permute_ta(rng, chain_ta(rng, rng.randint(1, 3), nc, rng.choice(["ab", "ab", "abc"]), cm, mode))
                kind = "ta " + enc_ta(ta)
            w = guided_word(rng, ta, rng.randint(2, 6), U, "ab", 2, 0.9)
            c, _ = tacase(f"{sid}.{j}", mode, U, ta, w, 20)
            cases[c["id"]] = c
            parts.append(f"{mode} {U} {kind} {enc_word(w)}")
            prev = (mode, ta)
        seqs[sid] = f"{sid} seq {len(parts)} 20 " + " ".join(parts)
    def run(ids):
        out = ck.drive("match_drv", [seqs[i] for i in ids])
        good, bad, slow = [], {}, 0
        for i in ids:
            o = out[i]
            if "fail" in o:
                if o["fail"] == "timeout": slow += 1
                elif o["fail"] != "exit 10": bad[i] = o["fail"]
                continue
            for j, r in enumerate(o["runs"]):
                if not r["kept"]:
                    bad[i] = f"the automaton given to call {j + 1} is modified"
                good.append(dict(cases[f"{i}.{j}"], log=[list(z) for z in sorted({tuple(e) for e in r["log"]})]))
        return good, bad, slow
    good, bad, slow = run(list(seqs))
    ck.runs += len(good)
    ck.log(f"{len(seqs)} sequences of calls, {len(good)} calls, {len(bad)} failed, {slow} out of time")
    if bad:
        for i, f in run(list(bad))[1].items():
            ck.violation(f"sequence of calls: {f}", dict(request=seqs[i]))
    printed, _ = ck.tlc("MatchTrace", good)
    rej = ck.rejects(printed)
    if rej:
        again, _, _ = run(sorted({i.split(".")[0] for i in rej}))
        printed, _ = ck.tlc("MatchTrace", again, count=False)
        for i, v in ck.rejects(printed).items():
            ck.violation(f"sequence of calls: call {i}: {v[0]}", dict(case=cases[i], request=seqs[i.split('.')[0]], rejected=v[:10]))
    nt = sum(1 for c in good if c["log"])
    # deep copies
    copies = {}
    for i in range(ck.n(300, 3000)):
        ta = some_ta(rng, "ab", 3, 5, (0, 1, 2))
        if i % 2: ta = eps_some(rng, ta, 0.3)
        copies[f"copy{i}"] = (dict(id=f"copy{i}", kind="same", U=2, letters=["a", "b"], gaps=[0, 1, 2, 5], depth=3, a=ta),
                              f"copy{i} 10 copy {enc_ta(ta)}")
    out = ck.drive("ta_drv", [l for _, l in copies.values()])
    same = []
    for i, (c, l) in copies.items():
        o = out[i]
        why = o.get("fail") or (o["orig"] != o["after"] and "changing a copy changes the original") or wellformed(o["copy"])
        if why:
            ck.violation(f"copy of an automaton: {why}", dict(case=c, request=l))
        else:
            same.append(dict(c, ta=o["copy"]))
    ck.runs += len(same)
    printed, _ = ck.tlc("TALang", same)
    for i, v in ck.rejects(printed).items():
        ck.violation(f"copy of an automaton: {v[0]}", dict(case=copies[i][0], rejected=v[:10]))
    for c in good[:2]:
        ck.sample(dict(id=c["id"], mode=c["mode"], pattern=c["pat"], zones=c["log"][:3]))
    return ck.finish("a case is a call of a matching function after other calls in the same process (half of them on the "
                     "same automaton object), judged by the match semantics; plus deep copies, damaged afterwards", nt, ck.runs)


# --------------------------------------------------------------- DOT files
def chars(s):
    return [{"\n": "nl", "\t": " "}.get(x, x) for x in s]


def dot_text(rng, ta):
    """An automaton file in one of the many ways to write it."""
    sp = lambda: rng.choice(["", " ", " ", "  ", "\t"])
    q = rng.random() < 0.5
    name = rng.choice(["loc%d", "s%d", "%d", "q_%d"])
    node = lambda s: ('"%s"' if q else "%s") % (name % s)
    val = lambda b: rng.choice(["%d", '"%d"']) % b
    end = rng.choice([";\n", "\n", " ;\n"])
    out = []
    def attrs(kv):
        rng.shuffle(kv)
        return sp() + "[" + ("," + sp()).join(f"{k}{sp()}={sp()}{v}" for k, v in kv) + "]"
    for s in range(1, ta["n"] + 1):
        kv = [("init", val(s in ta["init"])), ("match", val(s in ta["acc"]))]
        if rng.random() < 0.1: kv.append(("color", "red"))
        out.append(sp() + node(s) + attrs(kv) + end)
    es = []
    for e in ta["edges"]:
        kv = [("label", f'"{e["c"]}"' if rng.random() < 0.5 or e["c"] == "$" else e["c"])]
        if e["g"]:
            kv.append(("guard", '"{' + ", ".join(f"x{x - 1} {o} {c}" for x, o, c in e["g"]) + '}"'))
        if e["r"]:
            kv.append(("reset", '"{' + ", ".join(str(x - 1) for x in e["r"]) + '}"'))
        es.append(sp() + node(e["s"]) + sp() + "->" + sp() + node(e["t"]) + attrs(kv) + end)
    if rng.random() < 0.3:
        out, es = [], es + out          # states may be described after the transitions
    return "digraph " + rng.choice(["G ", "", "my_ta "]) + "{\n" + "".join(out + es) + "}\n"


def c13(ck):
    ck.build(["dot_drv"])
    rng, texts = ck.rng, {}
    U = 2
    def base(cid, L, cm):
        return dict(id=cid, kind="dot", U=U, letters=list(L), gaps=gaps_for(rng, U, cm, 4), depth=3)
    # files in all notations
    for i in range(ck.n(350, 3000)):
        L, cm = rng.choice(["ab", "aB", "a$", "a1"]), rng.choice([2, 3, 3, 14])
        ta = some_ta(rng, L, cm, 5, (0, 1, 2, 3)) if i % 8 else far_clocks(rng, some_ta(rng, L, cm, 5, (2, 3)))
        texts[f"file{i}"] = (base(f"file{i}", L, cm), dot_text(rng, ta))
    # what is printed: of expressions and of automata
    prints, judged = {}, []
    for i in range(ck.n(350, 3000)):
        e, cm = rand_tre(rng, rng.randint(1, 4), "ab", rng.choice([2, 3, 12])), 3
        prints[f"tre{i}"] = (base(f"tre{i}", "ab", tre_cmax(e)), f"tre {tre_str(e).encode().hex()}")
    for i in range(ck.n(200, 2000)):
        L, cm = rng.choice(["ab", "z$"]), rng.choice([2, 3, 14])
        prints[f"ta{i}"] = (base(f"ta{i}", L, cm), "ta " + enc_ta(some_ta(rng, L, cm, 5, (0, 1, 2, 3)) if i % 8 else far_clocks(rng, some_ta(rng, L, cm, 5, (2, 3)))))
    out = ck.drive("dot_drv", [f"{i} 10 print {l}" for i, (_, l) in prints.items()])
    big = 0
    for i, (c, l) in prints.items():
        o = out[i]
        if o.get("fail") == "timeout": continue
        if "fail" in o:
            ck.violation(f"printing an automaton: {o['fail']}", dict(case=c, request=l)); continue
        if len(o["text"]) > 4000:
            big += 1
            continue
        judged.append(dict(c, id="p" + i, ta=o["ta"], chars=chars(o["text"])))   # the text describes the automaton
        texts[i] = (c, o["text"])                                               # ... and is read back
    out = ck.drive("dot_drv", [f"{i} 10 read {t.encode().hex()}" for i, (_, t) in texts.items()])
    for i, (c, t) in texts.items():
        o = out[i]
        why = o.get("fail") or (o["refused"] and "refused") or wellformed(o["ta"])
        if why:
            ck.violation(f"reading an automaton: {why}", dict(case=c, text=t))
        else:
            judged.append(dict(c, id="r" + i, ta=o["ta"], chars=chars(t)))
    ck.runs += len(judged)
    ck.log(f"{len(judged)} texts, {big} too long, most characters: {max(len(c['chars']) for c in judged)}")
    printed, _ = ck.tlc("TALang", judged)
    by = {c["id"]: c for c in judged}
    for i, v in ck.rejects(printed).items():
        ck.violation(f"automaton file: {v[0]}", dict(case=by[i], text="".join(by[i]["chars"]).replace("nl", "\n"), rejected=v[:10]))
    for c in judged[:2]:
        ck.sample(dict(id=c["id"], ta=c["ta"]))
    return ck.finish("a case is an automaton file, written in varied notation or printed by the code from an expression or "
                     "an automaton; TLC parses its characters as the format is specified and compares the described "
                     "automaton with the one which the code printed or read, over all words of the case",
                     sum(1 for c in judged if c["ta"]["edges"]), ck.runs)
