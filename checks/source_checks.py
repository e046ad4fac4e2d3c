"""C09, and the syntactic positions of C06: what a program means, decided with
specs/source. TLC explores XgoSource exhaustively in a small configuration and
generates random behaviours; each is rendered as Go text, built with xgo from
the working tree (and with plain go where nothing is mocked) and run."""
import collections, json, os, shutil, subprocess
import concurrent.futures as cf
import source_render as R
import tlc
import xgoenv as X

NAMES = list(R.SHAPES) + ["X", "X", "Y"]
W = dict(open=2, close=1, decl=2, use=6, own=1, write=3)
MODULE = "module m\n\ngo 1.22\n\nrequire github.com/xhd2015/xgo/runtime v1.1.0\n\nreplace github.com/xhd2015/xgo/runtime => %s/runtime\n" % X.REPO


def generate(name, num, depth, seed, weight, feat=(), names=NAMES, maxopen=4):
    f = os.path.join(X.sub("gen"), name + ".jsonl")
    k = R.constants()
    k.update(MaxOpen=maxopen, MaxVal=9, MaxMocks=3, Feat=set(feat), Depth=depth, OutFile=f,
             Weight=[w for w, n in sorted(weight.items()) for _ in range(n)], NameWeight=list(names))
    r = tlc.run("source", "GenSource", k, init="GenInit", next="GenNext", simulate="num=%d" % num, depth=depth * 8, seed=seed,
                workers=1, timeout=800, name="Gen" + name.replace("-", "_"), heap="2g")
    tlc.must(r, "generation " + name)
    return tlc.read_lines(f)


def render(d, behaviours):
    progs, base = [], 0
    for i, b in enumerate(behaviours):
        p = R.Prog(i, b, base)
        base += len(p.expect)
        progs.append(p)
    shutil.rmtree(d, ignore_errors=True)
    R.write(d, progs, MODULE)
    return progs


def run_bin(path, timeout=120):
    p = X.run([path], cwd=os.path.dirname(path), env=X.base_env(), timeout=timeout, check=False)
    out, end = {}, False
    for line in p.out.splitlines():
        if line == "end":
            end = True
        elif line.startswith("{"):
            v = json.loads(line)
            out[v["prog"]] = v
    return out, end, p


def go_build(d, out):
    e = X.base_env()
    e["GOFLAGS"] = "-mod=mod"
    p = X.run(["go", "build", "-o", out, "./"], cwd=d, env=e, timeout=600, check=False)
    if p.returncode:
        raise X.CheckError("rendered program does not build:\n" + p.err[-4000:])


def compare(progs, out, end, p, lines=None):
    """-> [(prog, what)]"""
    devs = []
    for g in progs:
        r = out.get(g.pid)
        if r is None:
            devs.append((g, "the program died: " + p.err[-300:].replace("\n", " | ")))
            break
        if r["err"]:
            devs.append((g, "failed: " + r["err"][:200]))
            continue
        got = sorted([x[0], x[1]] for x in r["obs"] or [])
        want = [[i, v] for i, v, _ in g.expect]
        if got != want:
            bad = next((w for w in want if w not in got), None) or next(x for x in got if x not in want)
            st = next((s for i, v, s in g.expect if i == bad[0]), None)
            devs.append((g, "observation %s: specified %s, got %s" % (bad[0], [w[1] for w in want if w[0] == bad[0]], [x[1] for x in got if x[0] == bad[0]]), st))
            continue
        if lines is not None and [x[2] for x in r["obs"] or []] != [x[2] for x in lines[g.pid]["obs"] or []]:
            devs.append((g, "positions differ from those of the source"))
    return devs


# ---------------------------------------------------------------- checks

MC_TABLE = {"int": {"plain"}, "rec": {"field"}, "qint": {"plain"}, "localsub": {"localfield"}, "localtype": {"typeconv"},
            "localfunc": {"call"}, "localrecv": {"recvconv"}}
MC_ADDR = {"int": {"deref"}, "rec": {"pmethod"}, "qint": {"deref"}}
MC_WRITE = {"int": {"set", "adds"}, "rec": {"set", "setmeth"}, "qint": {"set"}}
INV = ["TypeOK"]
PROPS = ["OnlyWrites", "ReadsChangeNothing", "MocksLeaveVariables", "Uncovered", "LocalsUnmocked", "AddrIsOwn", "ReadIsMock"]


def model_check(n, names, kinds, feat, maxopen=2, decls=("define", "selfdefine", "const", "type"), maxmocks=1, timeout=800):
    full = lambda t: {k: t.get(k, set()) for k in R.constants()["ReadCtx"]}
    r = tlc.run("source", "MCSource",
                dict(Names=set(names), Shape=R.SHAPES, Quals=set(R.QUALS) & set(names), Kinds=set(kinds), ReadCtx=full(MC_TABLE), AddrCtx=full(MC_ADDR),
                     WriteCtx=full(MC_WRITE), RmwCtx=full({"int": {"adds"}}), OwnCtx={"own-field"}, DeclForms=set(decls),
                     MaxOpen=maxopen, MaxVal=1, MaxMocks=maxmocks, Feat=set(feat)),
                init="Init", next="Next", invariants=INV, properties=PROPS, view="View", workers=3, timeout=timeout, name="MCS%d" % n)
    return tlc.must(r, "model checking source %s" % (names,))


def types_enumerate(maxlen, simulate=0, seed=1):
    f = os.path.join(X.sub("gen"), "types-%d-%d-%d.jsonl" % (maxlen, simulate, seed))
    r = tlc.run("source", "XgoTypes", dict(MaxLen=maxlen, OutFile=f, Emitting=True), init="Init", next="Next",
                invariants=["TypeOK", "ConstsAreConst"], workers=1, timeout=800, simulate="num=%d" % simulate if simulate else None,
                depth=maxlen + 2 if simulate else None, seed=seed if simulate else None, name="Types%d" % maxlen, heap="3g")
    tlc.must(r, "enumerating initializers")
    u = {}
    for x in tlc.read_lines(f):
        u[x["e"]] = x
    return list(u.values()), r


class Builder:
    """xgo, in the fast form and - to confirm - in full"""

    def __init__(self, name):
        self.name, self.x = name, {}

    def get(self, fast):
        if fast not in self.x:
            self.x[fast] = X.Xgo("%s-%s" % (self.name, "fast" if fast else "full"), True, fast)
        return self.x[fast]

    def best(self):
        try:
            return self.get(True)
        except (X.BuildViolation, X.CheckError):
            return self.get(False)


def confirmed(c, b, judge):
    """judge(xgo) -> deviations; those found with the fast form count when the full one shows them"""
    x = b.best()
    devs = judge(x)
    if devs and x.fast:
        n = len(devs)
        devs = judge(b.get(False))
        if not devs:
            c.add("unconfirmed_in_full_build", n)
    return devs


def check_programs(c, b, groups, mocked):
    for name, behaviours in groups:
        d = X.sub("src-" + name)
        progs = render(d, behaviours)
        exe = os.path.join(X.sub("exe"), name)
        lines = None
        go_build(d, exe + ".go")
        if not mocked:
            out, end, p = run_bin(exe + ".go")
            bad = compare(progs, out, end, p)
            if bad or not end:
                raise X.CheckError("plain go disagrees with the specification: %s" % [x[1:] for x in bad[:3]])
            lines = out

        def judge(x):
            try:
                x.build(d, exe + ".xgo")
            except X.BuildViolation as e:
                return [("build", "xgo does not build a program go builds: " + str(e)[-600:])]
            out, end, p = run_bin(exe + ".xgo")
            return [("prog", g) for g in compare(progs, out, end, p, lines)] or ([] if end else [("build", "the program did not run to its end")])

        for kind, v in confirmed(c, b, judge)[:10]:
            if kind == "build":
                c.violation(v, {"dir": "\n".join(open(os.path.join(d, f)).read() for f in ("progs0.go", "progs1.go"))[:200000], "what": v})
                continue
            g, what = v[0], v[1]
            i = v[2] if len(v) > 2 else None
            cmd = behaviours[g.pid][i]["cmd"] if i is not None else None
            c.violation("%s program %d: %s %s" % (name, g.pid, what, cmd), {"program": "\n\n".join(g.tops), "behaviour": behaviours[g.pid], "what": what})
        c.add("traces_validated_against_impl", len(progs))
        c.add("steps_compared", sum(len(g.expect) for g in progs))
        for bh in behaviours:
            for s in bh:
                c.kinds["%s/%s" % (s["cmd"]["op"], s["cmd"]["k"])] += 1
        shutil.rmtree(d, ignore_errors=True)


def check_types(c, b, exprs, name):
    import source_types as ST
    d = X.sub("types-" + name)
    ST.write(d, exprs, MODULE)
    exe = os.path.join(X.sub("exe"), name)
    go_build(d, exe + ".go")
    want = X.run([exe + ".go"], env=X.base_env()).out
    seen = 0
    for line in want.splitlines():
        if line == "end":
            continue
        i, ty, _ = line.split("\t")
        seen += 1
        if exprs[int(i)]["t"] != ty:
            raise X.CheckError("plain go disagrees with the specification: %s is a %s" % (exprs[int(i)], ty))

    def judge(x):
        try:
            x.build(d, exe + ".xgo")
        except X.BuildViolation as e:
            return [("xgo does not build what go builds: " + str(e)[-600:], str(e)[-3000:])]
        p = X.run([exe + ".xgo"], env=X.base_env(), check=False)
        if p.out == want:
            return []
        w, g = want.splitlines(), p.out.splitlines()
        diff = [(a, e) for a, e in zip(w, g) if a != e][:5] or [("%d lines" % len(w), "%d lines" % len(g))]
        return [("variables differ: %s" % [(exprs[int(a.split("\t")[0])]["e"] if "\t" in a else "", a, e) for a, e in diff], diff)]

    for what, rep in confirmed(c, b, judge):
        c.violation(what, {"initializers": rep})
    c.add("initializers_checked", seen)


def need(kinds, names):
    for n in names:
        if not kinds[n]:
            raise X.CheckError("generated behaviours never show %s" % n)


def run_source(c):
    c.kinds = collections.Counter()
    pool = cf.ThreadPoolExecutor(8)
    b = Builder("src")
    built = pool.submit(b.best)
    m = 8 if X.THOROUGH else 1
    ty = pool.submit(types_enumerate, 3)
    tys = pool.submit(types_enumerate, 9, 4000 * m, X.SEED)
    spec = [("all", 170, 40, W, R.SHAPES), ("few", 110, 40, dict(W, open=4, close=2, decl=4), ["X", "Y", "Z", "sub", "F"]),
            ("deep", 70, 60, dict(W, open=5, close=1, decl=4), ["X", "Z", "S", "sub", "L"]),
            ("shapes", 110, 40, dict(use=6, write=3, open=1), [n for n in R.SHAPES if n not in ("X", "Y", "Z", "sub")])]
    gens = [(n, pool.submit(generate, "c09-" + n, k * m, dp, X.SEED * 100 + i, w, (), list(names))) for i, (n, k, dp, w, names) in enumerate(spec)]
    mcs = [pool.submit(model_check, 0, ["X", "S"], ["block", "ifinit", "topparam", "go"], []),
           pool.submit(model_check, 1, ["X", "Z", "sub"], ["select", "toprecv", "ifelse"], [])]
    if X.THOROUGH:
        mcs.append(pool.submit(model_check, 2, ["X", "S", "Z", "sub"], ["block", "ifinit", "topparam", "goparam"], [], 3, ("define", "selfdefine", "const"), 1, 7000))
    built.result()
    c.log("built")
    groups = [(n, f.result()) for n, f in gens]
    c.log("generated")
    check_programs(c, b, groups, False)
    c.log("programs")
    need(c.kinds, ["open/" + k for k in R.KINDS] + ["decl/" + k for k in R.DECL_FORMS] + ["use/own-label", "use/plain", "use/pmethod", "write/setselect"])
    exprs, r = ty.result()
    more, r2 = tys.result()
    import random
    rnd = random.Random(X.SEED)
    rnd.shuffle(exprs)
    have = {x["e"] for x in exprs}
    more = [x for x in more if x["e"] not in have]
    if not X.THOROUGH:
        exprs, more = exprs[:4000], more[:1500]
    check_types(c, b, exprs + more, "t")
    c.add("states", r.distinct)
    c.add("transitions", r.generated)
    for f in mcs:
        r = f.result()
        c.add("states", r.distinct)
        c.add("transitions", r.generated)
    c.cov["constructs"] = dict(c.kinds)
    c.sample({"program": groups[1][1][0][:20]})


def contexts_of_mocks(c):
    """C06: every position of a read under mocks"""
    c.kinds = collections.Counter()
    pool = cf.ThreadPoolExecutor(8)
    b = Builder("src")
    built = pool.submit(b.best)
    m = 8 if X.THOROUGH else 1
    w = dict(W, mock=3, cancel=2)
    spec = [("mall", 110, 50, w, R.SHAPES), ("mfew", 110, 50, dict(w, open=3, close=2, decl=3), ["X", "Z", "sub", "F"]),
            ("mshapes", 110, 50, dict(use=6, write=3, open=1, mock=3, cancel=2), [n for n in R.SHAPES if n not in ("X", "Y", "Z", "sub")]),
            ("mrec", 70, 50, dict(use=6, write=2, mock=3, cancel=2), ["S", "E", "P", "ZT", "ZP", "U"])]
    gens = [(n, pool.submit(generate, "c06-" + n, k * m, dp, X.SEED * 100 + 50 + i, ww, ("mock",), list(names))) for i, (n, k, dp, ww, names) in enumerate(spec)]
    mcs = [pool.submit(model_check, 10, ["X", "S"], ["block", "goparam"], ["mock"], 1, ("define",)),
           pool.submit(model_check, 11, ["X", "Z", "sub"], ["topparam", "go"], ["mock"], 1, ("define",))]
    built.result()
    groups = [(n, f.result()) for n, f in gens]
    check_programs(c, b, groups, True)
    for f in mcs:
        r = f.result()
        c.add("states", r.distinct)
        c.add("transitions", r.generated)
    c.cov["constructs"] = dict(c.kinds)


def c06(c):
    import runtime_checks
    runtime_checks.run_property(c)
    c.log("histories done")
    if not c.violations:
        contexts_of_mocks(c)


CHECKS = {"C09": (run_source, "model_checking"), "C06": (c06, "model_checking")}
