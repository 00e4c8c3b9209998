"""Seeded generators of cases (automata, expressions, words) and their encodings."""
import json, random

OPS = ["<", "<=", ">", ">="]

# ----------------------------------------------------------------- words
def rand_word(rng, n, U, letters, maxgap=3):
    """Strictly increasing time stamps, all multiples of 3 ticks (3 divides U)."""
    t, w = 0, []
    for _ in range(n):
        t += 3 * rng.randint(1, max(1, maxgap * U // 3))
        w.append({"c": rng.choice(letters), "t": t})
    return w

def all_words(n, letters, gaps):
    if n == 0:
        yield []
        return
    for w in all_words(n - 1, letters, gaps):
        t = w[-1]["t"] if w else 0
        for c in letters:
            for g in gaps:
                yield w + [{"c": c, "t": t + g}]

# ------------------------------------------------------------- automata
def rand_guard(rng, nc, cmax, p=0.5, maxlen=2):
    g = []
    if nc == 0:
        return g
    for _ in range(maxlen):
        if rng.random() < p:
            g.append([rng.randint(1, nc), rng.choice(OPS), rng.randint(0, cmax)])
    return g

def rand_ta(rng, n, nc, letters, cmax, dens, mode):
    """mode dollar: accepting state only via '$'; signal: plain; usual: both."""
    edges = []
    acc = [n] if mode == "dollar" else sorted(rng.sample(range(1, n + 1), rng.randint(1, max(1, n // 2))))
    core = n - 1 if mode == "dollar" else n
    def edge(s, t, c):
        g = rand_guard(rng, nc, cmax)
        r = [x for x in range(1, nc + 1) if rng.random() < 0.3]
        return {"s": s, "c": c, "t": t, "g": g, "r": r}
    # a backbone so that long matches exist
    order = list(range(1, core + 1))
    for a, b in zip(order, order[1:]):
        edges.append(edge(a, b, rng.choice(letters)))
    for _ in range(dens):
        edges.append(edge(rng.randint(1, core), rng.randint(1, core), rng.choice(letters)))
    if mode in ("dollar", "usual"):
        e = edge(core, n, "$"); edges.append(e)
        if rng.random() < 0.3:
            edges.append(edge(rng.randint(2 if core > 1 else 1, core), n, "$"))
    ninit = 1 if rng.random() < 0.75 else min(2, core)
    init = [1] if ninit == 1 else sorted(rng.sample(range(1, core + 1), ninit))
    return {"n": n, "init": init, "acc": acc, "nc": nc, "edges": edges}

def permute_ta(rng, ta):
    """Renames the states; the order of the state vector is immaterial."""
    p = list(range(1, ta["n"] + 1)); rng.shuffle(p)
    f = lambda s: p[s - 1]
    init = [f(s) for s in ta["init"]]; rng.shuffle(init)
    edges = [dict(e, s=f(e["s"]), t=f(e["t"])) for e in ta["edges"]]
    rng.shuffle(edges)
    return dict(ta, init=init, acc=[f(s) for s in ta["acc"]], edges=edges)

def ta_cmax(ta):
    return max([g[2] for e in ta["edges"] for g in e["g"]] + [0])

def ta_max(ta):
    m = [0] * ta["nc"]
    for e in ta["edges"]:
        for x, _, c in e["g"]:
            m[x - 1] = max(m[x - 1], c)
    return m

def code(c):
    return 0 if c == "eps" else ord(c)

def enc_ta(ta):
    o = [ta["n"], ta["nc"]] + ta_max(ta)
    o += [len(ta["init"])] + [s - 1 for s in ta["init"]]
    o += [len(ta["acc"])] + [s - 1 for s in ta["acc"]]
    o += [len(ta["edges"])]
    for e in ta["edges"]:
        o += [e["s"] - 1, code(e["c"]), e["t"] - 1, len(e["g"])]
        for x, op, c in e["g"]:
            o += [x - 1, op, c]
        o += [len(e["r"])] + [x - 1 for x in e["r"]]
    return " ".join(map(str, o))

def enc_word(w):
    return " ".join(map(str, [len(w)] + [x for e in w for x in (code(e["c"]), e["t"])]))

# ----------------------------------------------------------- expressions
def rand_tre(rng, depth, letters, cmax, ops=("cat", "or", "and", "plus", "star", "in"), inf=True):
    if depth == 0 or rng.random() < 0.15:
        return {"op": "atom", "c": rng.choice(letters)}
    op = rng.choice(ops)
    sub = lambda: rand_tre(rng, depth - 1, letters, cmax, ops, inf)
    if op in ("cat", "or", "and"):
        return {"op": op, "a": sub(), "b": sub()}
    if op == "plus":
        return {"op": "plus", "a": sub()}
    if op == "star":
        return {"op": "or", "a": {"op": "eps"}, "b": {"op": "plus", "a": sub()}, "sugar": "star"}
    lo = rng.randint(0, cmax - 1); hi = rng.randint(lo + 1, cmax)
    loc, hic = rng.randint(0, 1), rng.randint(0, 1)
    if rng.random() < 0.15 and lo > 0:
        hi, loc, hic = lo, 1, 1
    if inf and rng.random() < 0.25:
        hi, hic = -1, 0
    if lo == 0:
        loc = 0
    return {"op": "in", "a": sub(), "lo": lo, "loc": loc, "hi": hi, "hic": hic}

def tre_str(e):
    op = e["op"]
    if op == "atom": return e["c"]
    if op == "cat": return "(" + tre_str(e["a"]) + tre_str(e["b"]) + ")"
    if op == "or":
        if e.get("sugar") == "star": return "(" + tre_str(e["b"]["a"]) + "*)"
        return "(" + tre_str(e["a"]) + "|" + tre_str(e["b"]) + ")"
    if op == "and": return "(" + tre_str(e["a"]) + "&" + tre_str(e["b"]) + ")"
    if op == "plus": return "(" + tre_str(e["a"]) + "+)"
    if op == "in": return "(" + tre_str(e["a"]) + "%" + ival_str(e) + ")"
    raise ValueError(op)

def ival_str(e):
    if e["hi"] == -1:
        return "(" + (">=" if e["loc"] else ">") + str(e["lo"]) + ")"
    return ("[" if e["loc"] else "(") + f"{e['lo']},{e['hi']}" + ("]" if e["hic"] else ")")

def strip(e):
    """The AST as the specification reads it."""
    r = {k: v for k, v in e.items() if k != "sugar"}
    for s in ("a", "b"):
        if s in r:
            r[s] = strip(r[s])
    return r

def tre_cmax(e):
    m = max(e.get("lo", 0), e.get("hi", 0))
    for s in ("a", "b"):
        if s in e:
            m = max(m, tre_cmax(e[s]))
    return m

def chain_ta(rng, m, nc, letters, cmax, mode, loop=0.3):
    """Chains: shortest match of length m, so both skip rules are exercised."""
    n = m + 2 if mode == "dollar" else m + 1
    edges = []
    def edge(s, t, c):
        return {"s": s, "c": c, "t": t, "g": rand_guard(rng, nc, cmax, 0.45),
                "r": [x for x in range(1, nc + 1) if rng.random() < 0.35]}
    for i in range(1, m + 1):
        edges.append(edge(i, i + 1, rng.choice(letters)))
        if rng.random() < 0.25:
            edges.append(edge(i, i + 1, rng.choice(letters)))
    if rng.random() < loop:
        a = rng.randint(1, m + 1)
        edges.append(edge(a, rng.randint(1, a), rng.choice(letters)))
    if mode == "dollar":
        edges.append(edge(m + 1, n, "$"))
    elif mode == "usual":
        edges.append(edge(m, m + 1, "$"))
    init = [1]
    if rng.random() < 0.3 and m > 1:
        init.append(2)
    return {"n": n, "init": init, "acc": [n], "nc": nc, "edges": edges}

def fork_ta(rng, m, nc, letters, cmax, mode):
    """A short chain and a longer one from the same beginning: runs which go on
    beyond the end of a match."""
    k = m + rng.randint(1, 3)
    n = 1 + m + k + (1 if mode == "dollar" else 0)
    edges = []
    def edge(s, t, c):
        return {"s": s, "c": c, "t": t, "g": rand_guard(rng, nc, cmax, 0.3),
                "r": [x for x in range(1, nc + 1) if rng.random() < 0.3]}
    a = [1] + list(range(2, m + 2)); b = [1] + list(range(m + 2, m + k + 2))
    for p in (a, b):
        for x, y in zip(p, p[1:]): edges.append(edge(x, y, rng.choice(letters)))
    ends = [a[-1], b[-1]]
    if mode == "dollar":
        edges += [edge(x, n, "$") for x in ends]; acc = [n]
    elif mode == "usual":
        edges.append(edge(a[-1], b[-1], "$")); acc = ends if rng.random() < 0.5 else [b[-1]]
    else: acc = ends
    if rng.random() < 0.3:
        x = rng.choice(b[1:]); edges.append(edge(x, rng.choice(b), rng.choice(letters)))
    return {"n": n, "init": [1], "acc": acc, "nc": nc, "edges": edges}

def eps_ta(rng, m, nc, letters, cmax, most=3):
    """Chains of m letters with at most `most` unobservable transitions, none of
    them on a cycle; some of them follow each other directly."""
    kinds = ["L"] * m
    for _ in range(rng.randint(1, most)):
        kinds.insert(rng.randint(0, len(kinds) - 1), "e")     # the last one reads a letter
    n, edges = len(kinds) + 1, []
    def edge(s, t, c):
        return {"s": s, "c": c, "t": t, "g": rand_guard(rng, nc, cmax, 0.5),
                "r": [x for x in range(1, nc + 1) if rng.random() < 0.45]}
    left = most - kinds.count("e")
    for i, k in enumerate(kinds, 1):
        edges.append(edge(i, i + 1, "eps" if k == "e" else rng.choice(letters)))
        if k == "L" and rng.random() < 0.2:
            edges.append(edge(i, i + 1, rng.choice(letters)))
    if left and rng.random() < 0.4 and n > 3:                 # a short cut
        a = rng.randint(1, n - 2)
        edges.append(edge(a, rng.randint(a + 1, n - 1), "eps"))
    if rng.random() < 0.3:
        a = rng.randint(1, n - 1)
        edges.append(edge(a, a, rng.choice(letters)))
    init = [1] if rng.random() < 0.7 or n < 4 else [1, 2]
    return {"n": n, "init": init, "acc": [n], "nc": nc, "edges": edges}

def fan_ta(rng, nc, letters, cmax):
    """Unobservable transitions into several branches of different lengths;
    at most two of them follow each other. Ends in state n."""
    edges, n, ends = [], 1, []
    def edge(s, t, c, p=0.3):
        edges.append({"s": s, "c": c, "t": t, "g": rand_guard(rng, nc, cmax, p),
                      "r": [x for x in range(1, nc + 1) if rng.random() < 0.3]})
    for _ in range(rng.randint(2, 4)):
        n += 1; s = n; edge(1, s, "eps")
        if rng.random() < 0.7:
            n += 1; edge(s, n, "eps"); s = n
        for _ in range(rng.randint(0, 2)):
            n += 1; edge(s, n, rng.choice(letters)); s = n
        ends.append(s)
    n += 1
    for s in ends: edge(s, n, rng.choice(letters))
    return {"n": n, "init": [1], "acc": [n], "nc": nc, "edges": edges}

def eps_word(rng, ta, n, U, letters, maxgap):
    """A word which follows the chain, passing over unobservable transitions."""
    t, w, s = 0, [], 1
    for _ in range(n):
        t += 3 * rng.randint(1, max(1, maxgap * U // 3))
        for _ in range(8):
            e = rng.choice([x for x in ta["edges"] if x["s"] == s] or [{"c": rng.choice(letters), "t": 1}])
            s = e["t"]
            if e["c"] != "eps":
                break
        c = e["c"] if e["c"] != "eps" else rng.choice(letters)
        if rng.random() < 0.1:
            c, s = rng.choice(letters), 1
        if s == ta["n"]:
            s = rng.choice(ta["init"])
        w.append({"c": c, "t": t})
    return w

# ------------------------------------------------- expressions over signals
def A(c): return {"op": "atom", "c": c}
def mk(op, a, b): return {"op": op, "a": a, "b": b}

def rand_in(rng, a, cmax, point=0.1, inf=0.2):
    lo = rng.randint(0, cmax - 1); hi = rng.randint(lo + 1, cmax)
    loc, hic = rng.randint(0, 1), rng.randint(0, 1)
    if rng.random() < point and lo > 0: hi, loc, hic = lo, 1, 1
    elif rng.random() < inf: hi, hic = -1, 0
    return {"op": "in", "a": a, "lo": lo, "loc": 0 if lo == 0 else loc, "hi": hi, "hic": hic}

def tree(rng, parts, cmax, p):
    """Some bracketing of the concatenation, with duration bounds at the nodes."""
    if len(parts) == 1:
        e = parts[0]
    else:
        i = rng.randint(1, len(parts) - 1)
        e = mk("cat", tree(rng, parts[:i], cmax, p), tree(rng, parts[i:], cmax, p))
    return rand_in(rng, e, cmax) if rng.random() < p else e

def sig_chain(rng, shape, cmax, split=0.3, p=0.5, rich=True):
    """A concatenation whose letters may be split over several parts."""
    parts = []
    for c in shape:
        for _ in range(2 if rng.random() < split else 1):
            parts.append(A(c) if rng.random() < 0.6 else
                         one_letter(rng, c, cmax, 1, ("or", "in", "cat")) if rich else rand_in(rng, A(c), cmax))
    return tree(rng, parts, cmax, p)

def one_letter(rng, c, cmax, depth, ops=("or", "and", "cat", "in", "plus", "or")):
    """An expression over a single letter: everything the normal form reduces to intervals."""
    if depth == 0 or rng.random() < 0.2:
        return rand_in(rng, A(c), cmax) if rng.random() < 0.8 else A(c)
    op = rng.choice(ops)
    # (intersections below a concatenation are not supported)
    sub = lambda: one_letter(rng, c, cmax, depth - 1, [o for o in ops if op not in ("cat", "plus") or o != "and"])
    if op == "in": return rand_in(rng, sub(), cmax)
    if op == "plus": return {"op": "plus", "a": sub()}
    return mk(op, sub(), sub())

def shape_word(rng, shape, n, U, letters, maxgap):
    """A stutter-free signal in which the shape occurs, time and again."""
    seq = []
    while len(seq) < n:
        if rng.random() < 0.25: seq.append(rng.choice(letters))
        seq += list(shape)
    seq = seq[rng.randint(0, 1):]
    w, t = [], 0
    for c in seq:
        if w and w[-1]["c"] == c: continue
        t += 3 * rng.randint(1, max(1, maxgap * U // 3))
        w.append({"c": c, "t": t})
        if len(w) == n: break
    return w

def add_ivals(a, b):
    hi = None if a[2] is None or b[2] is None else a[2] + b[2]
    return (a[0] + b[0], a[1] & b[1], hi, 0 if hi is None else a[3] & b[3])

def repeats(i):
    """The multiples of an interval, up to the first one which meets the next."""
    lo, loc, hi, hic = i
    if hi is None: return [i]
    m = -(-lo // (hi - lo))
    return [(lo * k, loc, hi * k, hic) for k in range(1, m)] + [(lo * m, loc, None, 0)]

def intervals(e):
    """The durations of an expression over one letter as a list of intervals
    (lo, closed, hi or None, closed); None where an iteration meets an interval
    whose closure the interval algebra does not represent (see C08)."""
    op = e["op"]
    if op == "atom": return [(0, 1, None, 0)]
    if op == "eps": return None
    if op == "plus":
        l = intervals(e["a"])
        if not l or len(l) > 4 or not all(plain(i) for i in l): return None
        reps, out = [repeats(i) for i in l], []
        for k in range(1, 2 ** len(l)):
            sums = [(0, 1, 0, 1)]
            for j, r in enumerate(reps):
                if k >> j & 1: sums = [add_ivals(a, b) for a in sums for b in r]
            out += sums
        return out if len(out) <= 60 else None
    l = intervals(e["a"])
    if l is None: return None
    if op == "in":
        r = [(e["lo"], e["loc"], None if e["hi"] == -1 else e["hi"], e["hic"])]
    else:
        r = intervals(e["b"])
        if r is None: return None
    if op == "or": return l + r
    out = []
    for a in l:
        for b in r:
            if op == "cat":
                out.append(add_ivals(a, b))
            else:
                lo = max((a[0], 1 - a[1]), (b[0], 1 - b[1]))
                hi = min((x for x in ((a[2], a[3]), (b[2], b[3])) if x[0] is not None), default=(None, 0))
                if hi[0] is None or lo[0] < hi[0] or (lo[0] == hi[0] and not lo[1] and hi[1]):
                    out.append((lo[0], 1 - lo[1], hi[0], hi[1]))
    return out

def plain(i):
    lo, loc, hi, hic = i
    if hi is None: return True
    if lo == hi: return False
    return not (not loc and not hic and lo > 0 and lo % (hi - lo) == 0)

def letters_of(e):
    return {e["c"]} if e["op"] == "atom" else set().union(*(letters_of(e[x]) for x in "ab" if x in e), set())

def guided_word(rng, ta, n, U, letters, maxgap, stay=0.75):
    """A word that mostly follows the automaton's graph (guards are ignored)."""
    t, w, s = 0, [], rng.choice(ta["init"])
    for _ in range(n):
        t += 3 * rng.randint(1, max(1, maxgap * U // 3))
        out = [e for e in ta["edges"] if e["s"] == s and e["c"] in letters]
        if out and rng.random() < stay:
            e = rng.choice(out); c = e["c"]; s = e["t"]
            if not [x for x in ta["edges"] if x["s"] == s and x["c"] in letters]:
                s = rng.choice(ta["init"])
        else:
            c = rng.choice(letters); s = rng.choice(ta["init"])
        w.append({"c": c, "t": t})
    return w
