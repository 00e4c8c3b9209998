"""Zones, zone automata, intervals, skip tables (C08, C09, C10, C18)."""
import json
from gen import *
from vlib import *
from checks_match import *


def strip_dollar(ta):
    """The automaton the skip tables of event mode are built from."""
    acc = set(ta["acc"]) | {e["s"] for e in ta["edges"] if e["c"] == "$"}
    return dict(ta, acc=sorted(acc), edges=[e for e in ta["edges"] if e["c"] != "$"])


def with_eps(rng, ta, p=0.3):
    edges = [dict(e, c="eps") if rng.random() < p else e for e in ta["edges"]]
    return dict(ta, edges=edges)


def still(rng, cm):
    """Letters and transitions without a delay, around the largest constant."""
    ops = ["<=", "<", ">=", ">"]
    edges, k = [], rng.randint(3, 5)
    for s in range(1, k):
        x = rng.randint(1, 2)
        y = 3 - x if rng.random() < 0.85 else x
        far = lambda: rng.choice([cm, cm, cm, rng.randint(0, cm)])
        g = [(x, rng.choice(ops), far())]
        if rng.random() < 0.3: g.append((y, rng.choice(ops), far()))
        if s == 1 or rng.random() < 0.4:
            edges.append(dict(s=s, t=s + 1, c="a", g=g, r=[y]))
        else:
            last = edges[-1]["r"] or [y]
            edges.append(dict(s=s, t=s + 1, c="eps", g=[(last[0], "<=", 0), (3 - last[0], rng.choice(ops), far())], r=rng.choice([[], [], [1], [2]])))
    if rng.random() < 0.5: edges.append(dict(s=k, t=rng.randint(1, k), c="a", g=[], r=[]))
    return dict(n=k, nc=2, init=[1], acc=[k], edges=edges)


def za_cases(ck, n):
    rng = ck.rng
    out = {}
    for i in range(n):
        r = rng.random()
        nc = rng.choice([0, 1, 1, 2, 2, 2]) if r < 0.9 else 3
        cm = rng.randint(1, 3) if nc < 3 else 1
        k = rng.randint(2, 6) if nc < 3 else rng.randint(2, 4)
        L = rng.choice(["a", "ab", "ab", "abZ"])
        if r < 0.5:
            ta = rand_ta(rng, k, nc, L, cm, rng.randint(1, 6), "signal")
        else:
            ta = chain_ta(rng, k, nc, L, cm, "signal", loop=0.6)
        # sometimes nothing is accepting, or only an unreachable state
        if rng.random() < 0.1:
            ta = dict(ta, acc=[])
        if rng.random() < 0.3:
            ta = with_eps(rng, ta)
            if rng.random() < 0.5 and nc:      # unobservable transitions without a delay
                ta = dict(ta, edges=[dict(e, g=list(e["g"])[:1] + [(rng.randint(1, nc), "<=", 0)]) if e["c"] == "eps" and rng.random() < 0.7
                                     else dict(e, r=sorted(set(e["r"]) | {rng.randint(1, nc)})) for e in ta["edges"]])
        if i % 8 == 0: ta = still(rng, cm)
        ta = permute_ta(rng, ta)
        cid = f"za{i}"
        c = dict(id=cid, ta=ta, cm=max(1, ta_cmax(ta)), letters=sorted({e["c"] for e in ta["edges"] if e["c"] != "eps"}),
                 depth=5 if len(L) < 3 else 4)
        out[cid] = (c, f"{cid} 20 za {enc_ta(ta)}")
    return out


def c09(ck):
    ck.build(["ta_drv"])
    cases = za_cases(ck, ck.n(3000, 40000))
    def run(ids):
        out = ck.drive("ta_drv", [cases[i][1] for i in ids])
        good, bad = [], {}
        for i in ids:
            o = out[i]
            if "fail" in o:
                bad[i] = o["fail"]
            else:
                good.append(dict(cases[i][0], **{x: o[x] for x in ("all", "live", "empty", "emptyLive")}))
        return good, bad
    good, bad = run(list(cases))
    ck.runs += len(good)
    big = [c["id"] for c in good if len(c["all"]["loc"]) > 400]
    ck.log(f"{len(good)} zone automata, {len(bad)} failed, {len(big)} too large; "
           f"empty: {sum(c['empty'] for c in good)}, most states: {max(len(c['all']['loc']) for c in good)}")
    if bad:
        _, bad2 = run(list(bad))
        for i in bad2:
            ck.violation(f"zone automaton: {bad2[i]}", dict(case=cases[i][0], request=cases[i][1]))
    small = [c for c in good if len(c["all"]["loc"]) <= 400]
    printed, _ = ck.tlc("ZATrace", small)
    rej = ck.rejects(printed)
    if rej:
        again, _ = run(list(rej))
        printed, _ = ck.tlc("ZATrace", again, count=False)
        for i, v in ck.rejects(printed).items():
            ck.violation(f"zone automaton: {v[0][0]} after {v[0][1]}", dict(case=cases[i][0], rejected=v[:10]))
    for c in small[:2]:
        ck.sample(dict(ta=c["ta"], zone_states=len(c["all"]["loc"]), empty=c["empty"]))
    return ck.finish("a case is a timed automaton (a third with unobservable transitions) given to the zone construction; "
                     "TLC runs the zone automaton and the region automaton in lockstep over all untimed words up to the "
                     "depth; non-trivial: more than two zone states", sum(1 for c in small if len(c["all"]["loc"]) > 2), ck.runs)


# ---------------------------------------------------------------- intervals
def all_intervals(hi):
    return [(l, lc, u, uc) for l in range(hi + 1) for lc in (0, 1) for u in list(range(hi + 1)) + [-1] for uc in (0, 1)
            if not (u == -1 and uc)]


def nonempty(i):
    l, lc, u, uc = i
    return u == -1 or l < u or (l == u and lc and uc)


def plus_defect(i):
    """Iterations which the algebra cannot represent (known findings)."""
    l, lc, u, uc = i
    return u != -1 and (l == u or (not lc and not uc and l > 0 and l % (u - l) == 0))


def ishow(i):
    return ("[" if i[1] else "(") + f"{i[0]}," + ("inf" if i[2] == -1 else str(i[2])) + ("]" if i[3] else ")")


def c08(ck):
    ck.build(["interval_drv"])
    rng, cases = ck.rng, {}
    H = lambda L: [[2 * l, lc, 1000000 if u == -1 else 2 * u, uc] for l, lc, u, uc in L]
    def add(op, left, right=(), key=None):
        fin = [x for i in list(left) + list(right) for x in (i[0], i[2])] + [0]
        top = 2 * (2 * max(fin) + 2) if op not in ("plus", "plus1") else 2 * (3 * max(fin) + 2)
        low = min([i[0] for i in left], default=0)
        cid = f"i{len(cases)}"
        c = dict(id=cid, op=op, left=H(left), right=H(right), top=top, key=key,
                 reps=(top // 2 // low + 1 if low else top + 1) if op in ("plus", "plus1") else 0,
                 text=f"{op} {' '.join(map(ishow, left))} ; {' '.join(map(ishow, right))}")
        num = lambda L: f"{len(L)} " + " ".join(f"{l} {lc} {u} {uc}" for l, lc, u, uc in L)
        rhs = f"{top + 1} " + " ".join(map(str, range(top + 1))) if op == "contain" else num(right)
        cases[cid] = (c, f"{cid} 5 {op} {num(left)} {rhs}")
    A = all_intervals(3)
    full = [i for i in all_intervals(3) if nonempty(i)]
    wide = [i for i in all_intervals(9 if ck.thorough else 6) if nonempty(i)]
    for i in A:
        add("contain", [i])
    for i in A:                                # exhaustive
        for j in A:
            add("and", [i], [j])
    for i in full:
        for j in full:
            add("sum", [i], [j])
            add("land1", [i], [j])
    for i in wide:
        add("plus1", [i], key=f"plus-{ishow(i)}" if plus_defect(i) else None)
    pick = lambda n: [rng.choice(full if rng.random() < 0.7 else wide) for _ in range(n)]
    good = [i for i in wide if not plus_defect(i)]
    for _ in range(ck.n(1500, 20000)):
        add("land", pick(rng.randint(0, 3)), pick(rng.randint(0, 3)))
        add("sums", pick(rng.randint(0, 3)), pick(rng.randint(0, 3)))
    for _ in range(ck.n(400, 4000)):
        add("land1", pick(rng.randint(0, 4)), pick(1))
        # the iteration of a list: representable unless a member is not
        small = [i for i in good if max(i[0], i[2]) <= 4]
        add("plus", [rng.choice(small) for _ in range(rng.choice([1, 1, 2, 2, 2, 3]) if ck.thorough else rng.choice([1, 2, 2]))])
    # three narrow intervals far from zero: the sums of all three fill no gap otherwise
    for _ in range(ck.n(40, 400)):
        l = [(lo, lc, lo + 1, uc) for lo in rng.sample(range(10, 24), 3) for lc, uc in [rng.choice([(1, 1), (0, 1), (1, 0)])]]
        add("plus", l)
    def run(ids):
        out, res, bad = ck.drive("interval_drv", [cases[i][1] for i in ids]), [], {}
        for i in ids:
            o = out[i]
            if "fail" in o: bad[i] = o["fail"]
            elif o.get("kept", 1) == 0: bad[i] = "the right operand is modified"
            else: res.append(dict({x: v for x, v in cases[i][0].items() if x not in ("key", "text")},
                                  **{x: o[x] for x in ("result", "verdicts") if x in o}))
        return res, bad
    res, bad = run(list(cases))
    def report(i, what, known=True):
        c = cases[i][0]
        if c["key"] and known: ck.finding(c["key"], f"intervals: {what}: {c['text']}", dict(case=c, request=cases[i][1]))
        else: ck.violation(f"intervals: {what}: {c['text']}", dict(case=c, request=cases[i][1]))
    for i, f in bad.items():
        report(i, f, cases[i][0]["left"][:1] and cases[i][0]["left"][0][0] == cases[i][0]["left"][0][2])
    for c in res:                              # intervals beyond the last sampled point decide nothing
        if "result" in c and c["op"] in ("plus", "plus1"):
            c["result"] = [i for i in c["result"] if i[0] <= c["top"]]
    big = [c for c in res if len(c.get("result", [])) > 3000]
    for c in big:                              # (a listed point interval gives arbitrarily many)
        report(c["id"], f"{len(c['result'])} intervals")
    res = [c for c in res if len(c.get("result", [])) <= 3000]
    ck.runs += len(res)
    ck.log(f"{len(res)} operations, {len(bad)} failed")
    printed, _ = ck.tlc("IntervalAlg", res)
    for i, v in ck.rejects(printed).items():
        known = False
        if cases[i][0]["key"]:               # the listed defect is one single boundary point too many
            l, _, u, _ = cases[i][0]["left"][0]
            known = u > l and v == [("extra", str(l // (u - l) * u))]
        report(i, f"{v[0][0]} at {int(v[0][1]) / 2}", known)
    for c in res[:2]:
        ck.sample(c)
    return ck.finish("a case is one operation of the interval algebra (all pairs of intervals with bounds up to 3 for "
                     "intersection and sum, all single ones up to 6 for iteration, random lists); TLC compares with the "
                     "set-theoretic result at every half unit", len(res), ck.runs)


# -------------------------------------------------------------- skip tables
def skip_cases(ck, n):
    """Automata in all modes; two clocks only for small ones (the product has twice as many)."""
    rng, out = ck.rng, {}
    for i in range(n):
        mode = ("dollar", "signal", "usual")[i % 3]
        r = rng.random()
        if r < 0.15: nc, cm, k = 2, rng.randint(1, 2), rng.randint(1, 3)
        else: nc, cm, k = rng.choice([0, 1, 1, 1, 1]), rng.randint(1, 4), rng.randint(1, 5)
        L = rng.choice(["a", "ab", "ab", "abc"]) if rng.random() < 0.8 else "".join(rng.sample("019AZazm", rng.randint(1, 3)))
        if i % 5 == 4:
            ta = fork_ta(rng, rng.randint(1, 3), min(nc, 1), L[:2], min(cm, 2), mode)
        elif rng.random() < 0.4 and k > 1:
            ta = rand_ta(rng, k + 1, nc, L, cm, rng.randint(0, 4), mode)
        else:
            ta = chain_ta(rng, k, nc, L, cm, mode, loop=0.4)
        ta = permute_ta(rng, ta)
        cid = f"sk{i}"
        c = dict(id=cid, ta=ta, mode=mode, cm=max(1, ta_cmax(ta)), letters=sorted({e["c"] for e in ta["edges"]} - {"$"}))
        out[cid] = (c, f"{cid} {60 if nc < 2 else 20} skip {enc_ta(ta if mode == 'signal' else strip_dollar(ta))}")
    return out


def c10(ck):
    ck.build(["ta_drv"])
    cases = skip_cases(ck, ck.n(1600, 12000))
    def run(ids):
        out, good, bad = ck.drive("ta_drv", [cases[i][1] for i in ids]), [], {}
        for i in ids:
            o = out[i]
            if o.get("fail") == "exit 10": continue          # the pattern is empty
            if o.get("fail") == "timeout" and cases[i][0]["ta"]["nc"] > 1: continue   # four clocks in the product
            if "fail" in o: bad[i] = o["fail"]
            else: good.append(dict(cases[i][0], **{x: o[x] for x in ("m", "end", "delta", "beta")}))
        return good, bad
    good, bad = run(list(cases))
    ck.runs += len(good)
    ck.log(f"{len(good)} tables, {len(bad)} failed; {sum(1 for c in good if max(c['beta']) > 1)} with skips of runs, "
           f"m up to {max(c['m'] for c in good)}")
    if bad:
        _, bad2 = run(list(bad))
        for i in bad2:
            ck.violation(f"skip tables: the construction ended with {bad2[i]}", dict(case=cases[i][0], request=cases[i][1]))
    printed, _ = ck.tlc("SkipSem", good, timeout=800 if not ck.thorough else 6000)
    rej = ck.rejects(printed)
    if rej:
        again, _ = run(list(rej))
        printed, _ = ck.tlc("SkipSem", again, count=False)
        for i, v in ck.rejects(printed).items():
            ck.violation(f"skip tables: unsafe {v[0][0]} {v[0][1]}", dict(case=next(c for c in again if c["id"] == i), rejected=v[:10]))
    for c in good[:2]:
        ck.sample({x: c[x] for x in ("ta", "mode", "m", "end", "beta")})
    return ck.finish("a case is the skip tables of an automaton; TLC explores all runs of the region product of a run and a "
                     "match which begins later, without a bound on the word; non-trivial: a skip of more than one event",
                     sum(1 for c in good if max(c["beta"]) > 1), ck.runs)


# -------------------------------------------------------------------- zones
def zone_history(rng, n, cm, length):
    ops = []
    for _ in range(length):
        o = rng.choice("tttttreew")
        if o == "t":
            x, y = rng.sample(range(-1, n), 2)
            if rng.random() < 0.6: x, y = rng.choice([(x if x >= 0 else y, -1), (-1, x if x >= 0 else y)])
            c = rng.choice([0, 1, 1, 2, cm, rng.randint(0, cm)])
            c = min(c, cm)
            if x == -1: c = -c
            elif y >= 0 and rng.random() < 0.4: c = -c
            ops.append(("t", x, y, c, rng.randint(0, 1)))
        elif o == "r":
            ops.append(("r", rng.randrange(n)))
        else:
            ops.append((o,))
    return ops


def zone_cases(ck, count):
    rng, out = ck.rng, {}
    while len(out) < count:
        n = rng.choice([1, 2, 2, 2, 2, 3])
        cm = {1: 4, 2: rng.choice([1, 2, 2, 3]), 3: 1}[n]
        kind = rng.choice("zzzu")
        M = rng.randint(0, cm)
        ops = [("e",)] * (rng.random() < 0.7) + zone_history(rng, n, cm, rng.randint(2, 9))
        other = [("e",)] + zone_history(rng, n, cm, rng.randint(0, 4))
        r = rng.random()
        if r < 0.25 and kind == "z": ops.append(("q",)); other = [o for o in ops if o[0] != "q"] if rng.random() < 0.3 else other
        elif r < 0.45: ops.insert(rng.randint(1, len(ops)), ("i",))
        if r > 0.6:
            p = rng.randint(1, len(ops)); ops[p:p] = [("a",), ("c",)]
        if rng.random() < 0.3: ops.insert(rng.randint(1, len(ops)), ("c",))
        if rng.random() < 0.1: ops.insert(rng.randint(1, len(ops)), ("u",))
        if rng.random() < 0.5: ops.append(("g",))
        if rng.random() < 0.3:             # always the last one
            f = rng.randrange(n); ops.append(("k", f, rng.randint(f, n - 1)))
        so = sum(abs(o[3]) for o in other if o[0] == "t")
        s, far = 0, so * sum(1 for o in other if o[0] == "r")
        for o in ops:
            if o[0] == "t": s += abs(o[3])
            elif o[0] == "i": s += so
            elif o[0] == "a": s = max(s, n * M)
            elif o[0] in "rk": far += s
        box = max(M + 1, min(s, cm) + 1)
        if any(o[0] == "q" for o in ops):
            box = max(box, s + so)
        horizon = max(box, s + 1) + 1 + far
        if horizon > {1: 40, 2: 12, 3: 4}[n]: continue
        cid = f"z{len(out)}"
        enc = lambda l: f"{len(l)} " + " ".join(" ".join(map(str, o)) for o in l)
        out[cid] = (dict(id=cid, n=n, kind=kind, M=M, box=box, horizon=horizon, text=[list(o) for o in ops], othertext=[list(o) for o in other]),
                    f"{cid} 5 {kind} {n} {M} 1 {enc(other)} {enc(ops)}")
    return out


def size(n, step):
    return step["a"][1] - step["a"][0] + 2 if step["op"] == "k" else n + 1


def c18(ck):
    ck.build(["zone_drv"])
    cases = zone_cases(ck, ck.n(2000, 20000))
    def run(ids):
        out, good, bad = ck.drive("zone_drv", [cases[i][1] for i in ids]), [], {}
        for i in ids:
            o = out[i]
            if "fail" in o:
                bad[i] = o["fail"]
            elif any(len(r) != size(cases[i][0]["n"], s) or len(s["m"]) != len(r) for s in o["steps"] for r in s["m"]) or len(o["other"]) != cases[i][0]["n"] + 1:
                bad[i] = "a matrix of the wrong size"
            elif not o["otherSat"] and any(s["op"] in "iq" for s in o["steps"]):
                continue               # the operations are for zones which hold something
            else:
                good.append(dict(cases[i][0], **{x: o[x] for x in ("other", "otherSat", "steps")}))
        return good, bad
    good, bad = run(list(cases))
    ck.runs += len(good)
    ck.log(f"{len(good)} histories, {sum(len(c['steps']) for c in good)} steps, {sum(not c['steps'][-1]['sat'] for c in good)} end in the empty zone")
    for i, f in bad.items():
        ck.violation(f"zone: the operations ended with {f}", dict(case=cases[i][0], request=cases[i][1]))
    printed, _ = ck.tlc("ZoneOps", good)
    rej = ck.rejects(printed)
    if rej:
        again, _ = run(list(rej))
        printed, _ = ck.tlc("ZoneOps", again, count=False)
        for i, v in ck.rejects(printed).items():
            ck.violation(f"zone: {v[0][0]} after step {v[0][1]}", dict(case=cases[i][0], rejected=v[:10], request=cases[i][1]))
    for c in good[:2]:
        ck.sample(dict(ops=c["text"], last=c["steps"][-1]))
    return ck.finish("a case is a history of operations on a zone; TLC keeps the set of clock values in step with it and compares "
                     "after each operation; non-trivial: more than four steps", sum(1 for c in good if len(c["steps"]) > 4), ck.runs)
