"""C11, C12, C19: word containers, the window of the matching functions, the programs."""
import ast, json, os, re, struct, subprocess, concurrent.futures
from gen import *
from vlib import *
from checks_match import ta_families, sig_expr, splits, plus_ok, sword, trecase, tacase, event_tre_cases, touching


# ------------------------------------------------------------------ streams
def stream(rng, w, U, binary, style=None, tail=None):
    """The bytes of a word, the offsets where its records begin, and whether it ends in a truncated record."""
    out, offs = b"", []
    if binary:
        for e in w:
            offs.append(len(out))
            out += e["c"].encode() + struct.pack("=d", e["t"] / U)
        if tail and w:
            out += (b"z" + struct.pack("=d", 1e6))[:tail]
        return out, offs
    style = style or rng.choice(["plain", "plain", "tabs", "lines", "crlf", "noeol", "exp", "glued"])
    num = lambda t: (f"{t / U:.17g}" if style != "exp" else f"{t / U:.17e}")
    if style == "lines":
        out += b"\n \n"
    for i, e in enumerate(w):
        offs.append(len(out))
        sep = {"tabs": "\t ", "lines": "\n", "glued": ""}.get(style, " ")
        eol = {"tabs": "\t\n", "lines": "\n\n", "crlf": "\r\n"}.get(style, "\n")
        if style == "noeol" and i == len(w) - 1:
            eol = ""
        out += (e["c"] + sep + num(e["t"]) + eol).encode()
    if tail:
        out += [b"", b"z", b"z ", b"z \n", b"z x\n"][tail % 5]
    return out, offs


def dyadic(rng, n, U, letters, maxgap=3):
    """Multiples of 1/U, U a power of two; mostly increasing, as in a log, but a container keeps any."""
    t, w, any_order = 0, [], rng.random() < 0.3
    for _ in range(n):
        t += rng.randint(1, maxgap * U)
        w.append({"c": rng.choice(letters), "t": rng.choice([t, 0, w[-1]["t"] if w else t, -t, rng.randint(0, t)]) if any_order else t})
    return w


def bare(c):
    """Are there matches without any event?  They are not asked to be online."""
    return int(c["mode"] != "signal" and touching(c))


def window_cases(ck, n):
    """Runs whose calls on the container are recorded; loop-free patterns have a bound."""
    rng, out = ck.rng, []
    for mode in ("dollar", "signal", "usual"):
        for c, l in ta_families(ck, mode, n):
            ta = c["pat"]
            out.append((dict(id=f"{mode}_{c['id']}", w=c["w"], bound=longest(ta), bare=bare(c)), f"{mode}_{l}"))
    for c, l in event_tre_cases(ck, n // 2):
        out.append((dict(id=c["id"], w=c["w"], bound=0, bare=bare(c)), l))
    for i in range(n // 2):
        e = sig_expr(rng)
        while splits(e) + 1 > 5 or not plus_ok(e):
            e = sig_expr(rng)
        c, l = trecase(f"sig{i}", e, 3, sword(rng, rng.randint(1, 6), 3, "ab", 2), 15, "signal")
        out.append((dict(id=c["id"], w=c["w"], bound=0, bare=bare(c)), l))
    for i in range(max(1, n // 20)):           # long logs: the window must not grow
        mode = rng.choice(["dollar", "signal", "usual"])
        ta = chain_ta(rng, rng.randint(1, 3), rng.choice([0, 1]), "ab", 3, mode, loop=0)
        w = guided_word(rng, ta, 400, 3, "ab", 2, 0.9)
        c, l = tacase(f"w{mode}{i}", mode, 3, ta, w, 30)
        out.append((dict(id=c["id"], w=w, bound=longest(ta), bare=bare(c)), l))
    return out


def longest(ta):
    """Bound on the window of a loop-free automaton: the longest path, the event
    before the beginning, and the one after the end; 0 if there is a loop."""
    succ = {}
    for e in ta["edges"]:
        succ.setdefault(e["s"], set()).add(e["t"])
    memo = {}
    def depth(s, seen):
        if s in seen: return None
        if s not in memo:
            d = 0
            for t in succ.get(s, ()):
                x = depth(t, seen | {s})
                if x is None: return None
                d = max(d, x + 1)
            memo[s] = d
        return memo[s]
    ds = [depth(s, frozenset()) for s in ta["init"]]
    return 0 if None in ds else max(ds) + 3


def c11(ck):
    ck.build(["word_drv", "match_drv"])
    rng, cases = ck.rng, {}
    def add(kind, w, U, ops, style=None, tail=None):
        binary = kind.endswith("binary")
        data, offs = stream(rng, w, U, binary, style, tail)
        cid = f"h{len(cases)}"
        cases[cid] = (dict(id=cid, kind=kind.split("-")[0], w=w, full=kind, ops=[list(o) for o in ops]), offs,
                      f"{cid} 20 {kind} {data.hex() or '-'} {U} {len(ops)} " + " ".join(f"{a} {b}" for a, b in ops))
    # every transition of the specification
    printed, _ = ck.tlc("BufferGen", env=dict(MAXTOTAL=str(ck.n(4, 6))), workers=1)
    hs = []
    for l in printed:
        m = re.match(r'<<"HISTORY", "(\w+)", (\d+), (.*)>>$', l)
        if m:
            hs.append((m.group(1), int(m.group(2)), ast.literal_eval(m.group(3).replace("<<", "(").replace(">>", ",)"))))
    ck.log(f"{len(hs)} histories from the specification")
    if len(hs) < 500:
        raise CheckError("too few histories")
    for kind, total, ops in hs:
        ops = [(o[0], o[1]) for o in ops] + [("size", 0), ("at", max(0, total - 1)), ("fetch", total)]
        for fmt in ("ascii", "binary"):
            add(f"{kind}-{fmt}", dyadic(rng, total, 4, "abZ9"), 4, ops, tail=rng.choice([None, None, 1, 2, 3, 4, 7, 8]))
    # long random histories
    for i in range(ck.n(300, 4000)):
        total, U = rng.choice([0, 1, 2, 5, 10, 40, 400]), rng.choice([1, 4, 64])
        kind = rng.choice(["lazy", "lazy", "lazy", "vector"])
        ops, front, held = [], 0, 0
        for _ in range(rng.randint(5, 60)):
            o = rng.choice(["fetch", "fetch", "fetch", "at", "at", "front", "size"])
            if o == "front":                   # mostly forward, sometimes beyond what was read
                n = min(total, max(0, front + rng.choice([-1, 0, 1, 1, 2, 3, max(0, held), max(0, held) + 1, held + 7])))
                if n >= front: front, held = n, max(0, front + held - n)
            elif o == "size": n = 0
            else:
                n = max(0, front + rng.choice([-1, 0, 0, 1, 2, 3, held - 1, held, held + 1, held + 5, rng.randint(0, total + 3)]))
                if o == "fetch" and n >= front: held = max(held, min(n, total - 1) - front + 1)
            ops.append((o, n))
        add(f"{kind}-{rng.choice(['ascii', 'binary'])}", dyadic(rng, total, U, rng.choice(["ab", LET])), U, ops,
            tail=rng.choice([None, None, None, 1, 3, 4, 8]))
    def run(ids):
        out, good, bad = ck.drive("word_drv", [cases[i][2] for i in ids]), [], {}
        for i in ids:
            c, offs, _ = cases[i]
            if "fail" in out[i]:
                bad[i] = out[i]["fail"]
                continue
            lazy = c["kind"] == "lazy"
            steps = []
            for n, a, r, ch, t, pos, held in out[i]["steps"]:
                steps.append([n, a, r, ch, t, sum(1 for x in offs if x < pos) if lazy else -1, held if lazy else -1])
            good.append(dict(id=i, kind=c["kind"], w=c["w"], steps=steps))
        return good, bad
    good, bad = run(list(cases))
    ck.runs += len(good)
    for i, f in bad.items():
        ck.violation(f"word container: the calls ended with {f}", dict(case=cases[i][0], request=cases[i][2]))
    printed, _ = ck.tlc("BufferTrace", good)
    for i, v in ck.rejects(printed).items():
        ck.violation(f"word container ({cases[i][0]['full']}): {v[0][0]} at step {v[0][1]}", dict(case=cases[i][0], request=cases[i][2], rejected=v[:5]))
    nh = len(good)
    # the matching functions and their window
    os.environ["LOG_PROTOCOL"] = "1"
    wins = {c["id"]: (c, l) for c, l in window_cases(ck, ck.n(70, 700))}
    out = ck.drive("match_drv", [l for _, l in wins.values()])
    recs = []
    for i, (c, l) in wins.items():
        o = out[i]
        if "fail" in o:
            if o["fail"] not in ("exit 10", "timeout"):
                ck.violation(f"matching: the call ended with {o['fail']}", dict(case=c, request=l))
            continue
        recs.append(dict(c, log=o["log"]))
    ck.runs += len(recs)
    ck.log(f"{len(recs)} runs, {sum(len(c['log']) for c in recs)} recorded calls")
    printed, _ = ck.tlc("WindowTrace", recs)
    for i, v in ck.rejects(printed).items():
        ck.violation(f"window of the matching: {v[0][0]} at call {v[0][1]}", dict(case=wins[i][0], request=wins[i][1], rejected=v[:5]))
    for c in good[:1]:
        ck.sample(c)
    ck.sample(dict(recs[0], log=recs[0]["log"][:20]))
    ck.cov["histories"] = nh
    return ck.finish("a case is a history of operations on a word container (all transitions of the specification, and "
                     "random histories), or the sequence of calls of a matching function on its container", nh + len(recs), ck.runs)


LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


# ----------------------------------------------------------------- programs
OPT = {"help": ["-h", "--help"], "version": ["-V", "--version"], "quiet": ["-q", "--quiet"], "a": ["-a", "--ascii"],
       "b": ["-b", "--binary"], "E": ["-E", "--event"], "S": ["-S", "--signal"], "i": ["-i", "--input"],
       "f": ["-f", "--automaton"], "e": ["-e", "--expression"], "o": ["-o", "--output-file"],
       "?": ["--no-such-option", "-Z"]}


def spell(rng, name, arg=None):
    o = rng.choice(OPT[name])
    if arg is None:
        return [o]
    if o.startswith("--") and rng.random() < 0.5:
        return [f"{o}={arg}"]
    return [o, arg]


def shell(ck, argv, data=b"", timeout=60, cwd=None):
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run(argv, input=data, capture_output=True, timeout=timeout, cwd=cwd or ck.dir, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return None, b"", b""
    return p.returncode, p.stdout, p.stderr


CLI_WORD = [{"c": "a", "t": 4}, {"c": "b", "t": 9}, {"c": "a", "t": 21}]
EDGES = {"event": [("1", "2", "a"), ("2", "3", "b"), ("3", "4", "$")], "unmatched": [("1", "2", "b"), ("2", "3", "b"), ("3", "4", "$")]}


STALE = b"digraph stale {\n" + b"  /* left from before */\n" * 400 + b"}\n"


def c12(ck):
    ck.build([], ["monaa", "tre2ta"])
    rng = ck.rng
    _, raw = ck.tlc("Cli", env=dict(MAXODD=str(ck.n(3, 5))))
    want = {}
    for l in raw.splitlines():
        if l.startswith('"OUTCOME'):
            o = json.loads(json.loads(l)[7:])
            want.setdefault(json.dumps(o["inv"], sort_keys=True), set()).add((o["status"], o["out"]))
    if len(want) < 1000:
        raise CheckError("too few invocations")
    d = os.path.join(ck.dir, "cli")
    os.makedirs(d)
    def put(name, data):
        with open(os.path.join(d, name), "wb") as h:
            h.write(data)
        return os.path.join(d, name)
    words = {"a": put("word.txt", stream(rng, CLI_WORD, 4, False, "plain")[0]), "b": put("word.bin", stream(rng, CLI_WORD, 4, True)[0])}
    dots = {}
    for k, es in EDGES.items():
        dots[k] = put(k + ".dot", ("digraph G {\n" + "".join(f'{s}[init={int(s == "1")}, match={int(s == "4")}];\n' for s in "1234") +
                                   "".join(f'{a}->{b}[label="{c}"];\n' for a, b, c in es) + "}\n").encode())
    dots["empty"] = put("empty.dot", b'digraph G {\n1[init=1, match=0];\n2[init=0, match=1];\n1->2[label="a", guard="{x0 < 1, x0 > 2}"];\n}\n')
    dots["malformed"] = put("malformed.dot", b"digraph G {\n1[init=1, match=0];\n1->")
    dots["missing"] = os.path.join(d, "no.dot")
    TRE = {"event": "(ab)$", "signal": "ab", "unmatched": "(bb)$", "malformed": "(a", "scanner": "a@", "empty": "(a%(1,1))$"}
    def invoke(job):
        n, key, r = job
        inv = json.loads(key)
        prog, opts, tail, data = inv["prog"], [], [], b""
        if inv["early"] in ("help", "both"): opts.append(spell(r, "help"))
        if inv["early"] in ("version", "both"): opts.append(spell(r, "version"))
        if inv["unknown"]: opts.append(spell(r, "?"))
        src = inv["source"]
        if src in ("expression", "both"): opts.append(spell(r, "e", TRE["event" if inv["pattern"] == "missing" else inv["pattern"]]))
        if src in ("automaton", "both"): opts.append(spell(r, "f", dots[inv["pattern"]]))
        if src == "positional": tail.append(TRE[inv["pattern"]])
        outfile = os.path.join(d, f"out{n}")
        if prog == "monaa":
            if inv["quiet"]: opts.append(spell(r, "quiet"))
            for x in {"none": "", "ab": "ab", "a": "a", "b": "b"}[inv["format"]]: opts.append(spell(r, x))
            for x in {"none": "", "ES": "ES", "E": "E", "S": "S"}[inv["mode"]]: opts.append(spell(r, x))
            f = words["b" if inv["format"] == "b" else "a"]
            if inv["word"] == "stdin":
                with open(f, "rb") as h: data = h.read()
            elif inv["word"] == "input": opts.append(spell(r, "i", f))
            elif inv["word"] == "positional": tail.append(f)
            elif inv["word"] == "missing": opts.append(spell(r, "i", os.path.join(d, "no.txt")))
            elif inv["word"] == "nowhere": tail.append(os.path.join(d, "no.txt"))
        else:
            if inv["output"] == "stale": put(f"out{n}", STALE)
            if inv["output"] in ("file", "stale"): opts.append(spell(r, "o", outfile))
            if inv["output"] == "unwritable": opts.append(spell(r, "o", os.path.join(d, "no", "such")))
        r.shuffle(opts)
        argv = [ck.bin(prog)] + [x for o in opts for x in o] + tail
        st, so, se = shell(ck, argv, data)
        made = None
        if os.path.exists(outfile):
            with open(outfile, "rb") as h: made = h.read()
            os.unlink(outfile)
        return key, argv, st, so, se, made
    def kind(prog, so, made):
        if made is not None and made != STALE:
            return "file" if made.startswith(b"digraph") and made.count(b"digraph") == 1 and made.rstrip().endswith(b"}") and not so else "file?"
        if not so: return "nothing"
        if b"GNU General Public License" in so: return "version"
        if b"OPTIONS" in so and b"--help" in so: return "help"
        if so.startswith(b"digraph"): return "automaton"
        return "zones" if b"t' - t" in so else "other"
    jobs = [(n, k, random.Random(f"{ck.seed}/{n}")) for n, k in enumerate(sorted(want))]
    def judge(js):
        bad = {}
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for (n, k, _), (key, argv, st, so, se, made) in zip(js, ex.map(invoke, js)):
                inv, exp = json.loads(key), want[key]
                got = (st, kind(inv["prog"], so, made))
                if got not in exp:
                    bad[n] = (f"{' '.join(argv)}: {got}, expected {sorted(exp)}", dict(inv=inv, argv=argv, stderr=se.decode(errors='replace')[:300]))
                elif st and not se:
                    bad[n] = (f"{' '.join(argv)}: fails without a message", dict(inv=inv, argv=argv))
        return bad
    bad = judge(jobs)
    if bad:
        again = judge([(n, k, random.Random(f"{ck.seed}/{n}")) for n, k, _ in jobs if n in bad])
        for n in again:
            ck.violation(*again[n])
    ck.runs += len(jobs)
    for k in list(want)[:3]:
        ck.sample(dict(invocation=json.loads(k), outcomes=sorted(want[k])))
    return ck.finish("a case is an invocation of monaa or tre2ta with up to three (thorough: five) options off the plain call, "
                     "enumerated by TLC; exit status, kind of output and presence of a message are compared", len(want), ck.runs)


NUM = r"\s*(-?(?:inf|nan|\d+\.\d+))"
ZONE = re.compile(NUM + r"\s+(<=?) t (<=?)" + NUM + r"\n" + NUM + r"\s+(<=?) t' (<=?)" + NUM + r"\n" +
                  NUM + r"\s+(<=?) t' - t (<=?)" + NUM + r"\n=+\n")


def parse_zones(text, U):
    """The zones printed, in thousandths of ticks; None if the text is anything else."""
    zs, pos = [], 0
    def num(x):
        if "inf" in x: return -2000000000 if x[0] == "-" else 2000000000
        return None if "nan" in x else round(float(x) * U * 1000)
    while pos < len(text):
        m = ZONE.match(text, pos)
        if not m: return None
        g, z = m.groups(), ["zone"]
        for i in (0, 4, 8):
            lo, hi = num(g[i]), num(g[i + 3])
            if lo is None or hi is None: return None
            z += [lo, int(g[i + 1] == "<="), hi, int(g[i + 2] == "<=")]
        zs.append(z)
        pos = m.end()
    return zs


def c19(ck):
    from checks_lang import dot_text
    ck.build([], ["monaa", "tre2ta"])
    rng, cases, meta = ck.rng, {}, {}
    d = os.path.join(ck.dir, "e2e")
    os.makedirs(d)
    pats = []
    n = ck.n(160, 1600)
    for c, _ in ta_families(ck, "dollar", n):
        if len(c["w"]) <= 20:
            pats.append((c, ["dot"]))
    for c, _ in event_tre_cases(ck, n):
        pats.append((c, ["expr", "tre2ta"]))
    for i in range(n):
        e = sig_expr(rng)
        while splits(e) + 1 > 5 or not plus_ok(e):
            e = sig_expr(rng)
        c, _ = trecase(f"sig{i}", e, 3, sword(rng, rng.randint(1, 5), 3, "ab", 2), 15, "signal")
        pats.append((c, ["expr"]))
    jobs = []
    for k, (c, ways) in enumerate(pats):
        jobs.append((f"{c['id']}_{k}", c, rng.choice(ways), random.Random(f"{ck.seed}/{k}")))
    def invoke(job):
        cid, c, way, r = job
        binary = r.random() < 0.4
        data, _ = stream(r, c["w"], c["U"], binary, tail=r.choice([None, None, 1, 2, 5]))
        opts, tail = [], []
        if c["mode"] == "signal": opts.append(spell(r, "S"))
        elif r.random() < 0.3: opts.append(spell(r, "E"))
        if binary: opts.append(spell(r, "b"))
        elif r.random() < 0.3: opts.append(spell(r, "a"))
        if way == "dot":
            with open(f"{d}/{cid}.dot", "w") as h: h.write(dot_text(r, c["pat"]))
            opts.append(spell(r, "f", f"{d}/{cid}.dot"))
        elif way == "tre2ta":
            st, so, se = shell(ck, [ck.bin("tre2ta"), c["expr"]], timeout=60)
            if st != 0: return cid, None, f"tre2ta {c['expr']}: status {st}", [], None
            with open(f"{d}/{cid}.dot", "wb") as h: h.write(so)
            opts.append(spell(r, "f", f"{d}/{cid}.dot"))
        elif r.random() < 0.5: opts.append(spell(r, "e", c["expr"]))
        else: tail.append(c["expr"])
        how = r.choice(["stdin", "input", "positional"])
        if how != "stdin":
            with open(f"{d}/{cid}.w", "wb") as h: h.write(data)
            if how == "input": opts.append(spell(r, "i", f"{d}/{cid}.w"))
            else: tail.append(f"{d}/{cid}.w")
            data = b""
        r.shuffle(opts)
        argv = [ck.bin("monaa")] + [x for o in opts for x in o] + tail
        st, so, se = shell(ck, argv, data, timeout=20)
        if st is None: return cid, None, "timeout", argv, None
        if st == 10 and not so: return cid, [], None, argv, None
        if st != 0: return cid, None, f"status {st}", argv, None
        zs = parse_zones(so.decode(errors="replace"), c["U"])
        if zs is None: return cid, None, "the output is not a list of zones", argv, None
        quiet = None
        if r.random() < 0.15:
            s2, q, _ = shell(ck, argv[:1] + spell(r, "quiet") + argv[1:], data, timeout=30)
            quiet = (s2, q)
        return cid, zs, None, argv, quiet
    slow = 0
    def run(js):
        nonlocal slow
        good, bad = [], {}
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for (cid, c, way, _), (_, zs, f, argv, quiet) in zip(js, ex.map(invoke, js)):
                cases[cid], meta[cid] = c, argv
                if f == "timeout": slow += 1
                elif f: bad[cid] = f
                else:
                    good.append(dict(c, id=cid, log=[list(z) for z in sorted({tuple(z) for z in zs})]))
                    if quiet and quiet != (0, b"") and quiet[0] is not None:
                        bad[cid] = f"quiet mode: status {quiet[0]}, {len(quiet[1])} bytes of output"
        return good, bad
    good, bad = run(jobs)
    ck.runs += len(good)
    ck.log(f"{len(good)} runs, {len(bad)} failed, {slow} out of time")
    ck.cov["out_of_time"] = slow
    printed, _ = ck.tlc("MatchTrace", good)
    rej = ck.rejects(printed)
    again = [(j[0], j[1], j[2], random.Random(f"{ck.seed}/{k}")) for k, j in enumerate(jobs) if j[0] in rej or j[0] in bad]
    if again:
        good2, bad2 = run(again)
        printed, _ = ck.tlc("MatchTrace", good2, count=False) if good2 else ([], "")
        for i, v in ck.rejects(printed).items():
            ck.violation(f"output of the program: {v[0][0]} rejected at begin tick, end ticks = {v[0][1]}: {' '.join(meta[i])}",
                         dict(case=cases[i], argv=meta[i], rejected=v[:5]))
        for i, f in bad2.items():
            ck.violation(f"program: {f}: {' '.join(meta[i])}", dict(case=cases[i], argv=meta[i]))
    for c in good[:3]:
        ck.sample(dict(id=c["id"], argv=meta[c["id"]], zones=c["log"][:3]))
    return ck.finish("a case is a run of the program monaa on an automaton file, an expression or the automaton tre2ta made of "
                     "it, in one of the formats and ways of input; TLC compares the printed zones with the match set",
                     sum(1 for c in good if c["log"]), ck.runs)
