"""C14 and C15: coverage. TLC explores every small program of specs/cover and
every history of merges; C14 renders generated programs to Go, runs their tests
under xgo with the coverage flags of go, and compares the profiles with the
counts of the specification; C15 replays histories of profile files with
'xgo tool coverage'."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import tlc
import xgoenv as X

MOD = "example.com/cov"
SELS = [[1], [2], [1, 2], [3], [1, 2, 3]]
ROLLS = ["op", "op2", "op3", "inc", "dec", "brk", "cont", "rcv", "ret", "panic", "call", "call2", "if", "if2", "for", "sw", "lit", "def", "br", "br2", "close", "close2", "endfn"]
KINDS = ["plain", "method", "ptrmethod", "generic", "closurevar", "named", "variadic"]
MOCKABLE = {"plain", "named", "variadic"}
COUNTED = {"op", "inc", "dec", "call", "ret", "panic", "brk", "cont", "rcv", "if", "elif", "for", "sw", "lit", "def"}


def model(c):
    n = 0
    cfgs = [(1, 5, 2, ["op", "ret", "if", "else", "elif", "panic", "inc"], [0, 1]), (1, 6, 2, ["op", "for", "brk", "cont", "sw", "case", "default", "dec"], [0, 1]),
            (1, 5, 1, ["op", "lit", "def", "rcv", "panic", "ret", "gap"], [0]), (2, 3, 1, ["op", "call", "panic"], [0])]
    if X.THOROUGH:
        cfgs += [(2, 4, 1, ["op", "call", "panic", "def", "rcv", "if", "else"], [0, 2]), (1, 7, 2, ["op", "def", "rcv", "panic", "for", "lit"], [1])]
    for nf, mt, md, al, args in cfgs:
        r = tlc.must(tlc.run("cover", "MCCover", {"NF": nf, "MaxToks": mt, "MaxDepth": md, "Pkgs": ["p"], "Alphabet": set(al), "Args": set(args)}, spec="MCSpec",
                             invariants=["Sound", "Exact", "MockedNotRun", "MergeAdds"], properties=["Ends"], timeout=800, heap="8g"), "MCCover")
        n += r.distinct
    c.add("model_states", n)


def generate(c, num, seed, toks=20, nf=3):
    f = os.path.join(X.sub("gen"), "cover-%d.csv" % seed)
    tlc.must(tlc.run("cover", "GenCover", {"NF": nf, "MaxToks": toks, "MaxDepth": 3, "Pkgs": ["p", "q"], "OutFile": f, "Kinds": set(KINDS), "Rolls": set(ROLLS),
                                           "Sels": [set(s) for s in SELS], "MaxSteps": 700}, init="GenInit", next="GenNext", simulate="num=%d" % num, depth=3000, seed=seed,
                     timeout=800, workers=1, heap="3g"), "GenCover")
    return tlc.read_lines(f)


# ------------------------------------------------------------- rendering

class File:
    def __init__(self, pkg):
        self.pkg, self.text, self.pos = pkg, "", {}
        self.line, self.col = 1, 1

    def put(self, s):
        b = s.encode()
        self.text += s
        k = b.count(b"\n")
        if k:
            self.line += k
            self.col = len(b) - b.rfind(b"\n")
        else:
            self.col += len(b)

    def mark(self, f, pc):
        self.pos[(f, pc)] = (self.line, self.col)


def target(i, fns, f, frm):
    """how function f is called from package frm"""
    fn = fns[f - 1]
    q = "" if fn["pkg"] == frm else fn["pkg"] + "."
    if fn["kind"] in ("method", "ptrmethod"):
        return "%sT%d_.F%d_%d" % (q, i, i, f)
    if fn["kind"] == "generic":
        return "%sF%d_%d[int]" % (q, i, f)
    return "%sF%d_%d" % (q, i, f)


OPS = ["v@ += w@", "m@[\"a\"] = v@", "T@_.x++", "*(&v@) = w@", "s@ = append(s@, v@)", "v@, w@ = w@, v@", "_ = len(s@) + 1", "_ = fmt.Sprint(\"é世界\", v@) + \"ü\"", "T@_.y = v@",
       "v@ = w@ +\n\t\tz@", "u@ /* ü */ = u@ + string(\"é\")", "v@ = p@.x"]


def render_fn(w, i, fns, f):
    fn = fns[f - 1]
    kind, toks = fn["kind"], fn["toks"]
    name = "F%d_%d" % (i, f)
    recv = {"method": "(t T%d) " % i, "ptrmethod": "(t *T%d) " % i}.get(kind, "")
    tp = "[A any]" if kind == "generic" else ""
    extra = ", xs ...int" if kind == "variadic" else ""
    res = "(r int)" if kind == "named" else "int"
    if kind == "closurevar":
        w.put("var %s = func(n int) int {" % name)
    else:
        w.put("func %s%s%s(n int%s) %s {" % (recv, name, tp, extra, res))
    if len(toks) == 1 and not toks[0]["gap"]:  # one line
        w.put(" ")
        w.mark(f, 1)
        w.put("return n }\n\n")
        return
    w.put("\n")
    at = lambda s: s.replace("@", str(i))
    stack = []
    for pc, t in enumerate(toks, 1):
        k, v = t["k"], t["v"]
        ind = "\t" * (t["d"] + 1)
        if t["gap"]:
            w.put(["\n", "%s// é comment\n" % ind, "\n%s/* a\n b */\n\n" % ind][v % 3] if v % 4 else "\n\n")
        if k in COUNTED and k != "elif":
            w.put(ind)
            w.mark(f, pc)
        if k == "op":
            w.put(at(OPS[v % len(OPS)]) + ("" if v % 5 else " // x") + "\n")
        elif k == "inc":
            w.put(["n++", "n += 1", at("n += k@_1"), "n = n + 1"][v % 4] + "\n")
        elif k == "dec":
            w.put(["n--", "n -= 1", at("n -= k@_1"), "n = n - 1"][v % 4] + "\n")
        elif k == "call":
            a = {"n": "n", "m": "n - 1", "0": "0", "3": "3"}[t["x"]]
            if v % 3 == 1:
                a += at(" + z@")
            w.put(["%s(%s)", at("v@ = %s(%s)"), "_ = %s(%s)", at("w@ += %s(%s)")][v % 4] % (target(i, fns, t["a"], fn["pkg"]), a) + "\n")
        elif k == "ret":
            if any(o in ("lit", "def") for o in stack):
                w.put("return\n")
            elif kind == "named":
                w.put(["return", "return n", at("return n + z@")][v % 3] + "\n")
            else:
                w.put(["return n", at("return n + z@"), at("return len(s@) + z@"), "return n * 2"][v % 4] + "\n")
        elif k == "panic":
            w.put(['panic("x")', at("panic(v@)"), at('panic(u@)')][v % 3] + "\n")
        elif k == "brk":
            w.put("break\n")
        elif k == "cont":
            w.put("continue\n")
        elif k == "rcv":
            w.put(["recover()", "_ = recover()", at("e@ = recover()")][v % 3] + "\n")
        elif k in ("if", "elif"):
            if k == "elif":
                w.put("\t" * (t["d"] + 1) + "} else ")
                w.mark(f, pc)
            cond = ["n > %d", at("n > z@ + %d"), "!(n <= %d)", at("j := n + z@; j > %d"), at("z@ + n > %d")][v % 5] % t["a"]
            w.put("if %s {%s" % (cond, " /* é */" if v % 7 == 0 else "") + "\n")
        elif k == "else":
            w.put(ind + "} else {\n")
        elif k == "for":
            w.put(["for i := 0; i < %d; i++ {" % t["a"], at("for i := z@; i < z@+%d; i++ {" % t["a"]), at("for range a@_%d {" % t["a"]), at("for i := z@; i < k@_%d; i++ {" % t["a"])][v % 4] + "\n")
        elif k == "sw":
            w.put(["switch n {", at("switch n + z@ {"), "switch j := n; j {", "switch {", at("switch n += z@; {")][v % 5] + "\n")
        elif k == "case":
            m = toks[t["o"] - 1]["v"] % 5
            w.put(ind + (("case n == %d:" if m >= 3 else "case %d:") % t["a"] if v % 3 or m >= 3 else at("case z@ + %d:" % t["a"])) + "\n")
        elif k == "default":
            w.put(ind + "default:\n")
        elif k in ("lit", "def"):
            w.put(("defer " if k == "def" else "") + "func() {\n")
        elif k == "end":
            o = toks[t["o"] - 1]["k"]
            w.put(ind + ("}()" if o in ("lit", "def") else "}") + "\n")
        if k in ("if", "for", "sw", "lit", "def"):
            stack.append(k)
        elif k == "end":
            stack.pop()
    w.put("}\n\n")


def render(i, h):
    fns = h["fns"]
    files = {}
    for pkg in ("p", "q"):
        fs = [f for f in range(1, len(fns) + 1) if fns[f - 1]["pkg"] == pkg]
        if not fs:
            continue
        w = File(pkg)
        calls = {fns[t["a"] - 1]["pkg"] for f in fs for t in fns[f - 1]["toks"] if t["k"] == "call"}
        imps = ["fmt"] + ([MOD + "/q"] if pkg == "p" and "q" in calls else [])
        w.put("package %s\n\nimport (\n%s)\n\n" % (pkg, "".join('\t"%s"\n' % x for x in imps)))
        w.put("var v@, w@ = 1, 2\nvar z@ int\nvar k@_0, k@_1, k@_2 = 0, 1, 2\nvar m@ = map[string]int{\"a\": 1}\nvar s@ []int\nvar u@ = \"é\"\nvar e@ interface{}\nvar a@_0, a@_1, a@_2 = [0]int{}, [1]int{}, [2]int{}\n\n"
              "type T@ struct {\n\tBase\n\tx int\n}\n\nvar T@_ T@\nvar p@ = &T@_\nvar _ = fmt.Sprint\n\n".replace("@", str(i)))
        for f in fs:
            if i % 3 == 1:
                w.put("// F%d_%d is documented: ü\n" % (i, f))
            render_fn(w, i, fns, f)
        if i % 13 == 5:  # much text
            w.text += "".join("// %d é lorem ipsum dolor sit amet, \"consectetur\" `adipiscing` <elit> & sed \\\\ do\n" % k for k in range(1500))
        if i % 4 == 2:  # no newline at the end
            w.text = w.text.rstrip("\n")
        if i % 9 == 3:
            w.text = w.text.replace("\n", "\r\n")
        files["%s/prog%d.go" % (pkg, i)] = w
    # tests
    t = ["package p", "", "import ("]
    body = []
    mock = q = False
    for j, ts in enumerate(h["tests"], 1):
        body.append("func TestK%d_%d(t *testing.T) {" % (j, i))
        for m in sorted(ts["mocks"]):
            fn = fns[m - 1]
            mock = True
            ref = ("" if fn["pkg"] == "p" else "q.") + "F%d_%d" % (i, m)
            sig = {"plain": "func(n int) int", "named": "func(n int) int", "variadic": "func(n int, xs ...int) int"}[fn["kind"]]
            body.append("\tdefer mock.Patch(%s, %s { return 5 })()" % (ref, sig))
            q |= fn["pkg"] == "q"
        for call in ts["calls"]:
            body.append("\tcall(func() { %s(%d) })" % (target(i, fns, call["f"], "p"), call["n"]))
            q |= fns[call["f"] - 1]["pkg"] == "q"
        body.append("}\n")
    t.append('\t"testing"')
    if mock:
        t.append('\t"github.com/xhd2015/xgo/runtime/mock"')
    if q:
        t.append('\t"%s/q"' % MOD)
    t += [")", ""] + body
    return files, "\n".join(t)


HELPER_TEST = '''package p

func call(f func()) {
	defer func() { recover() }()
	f()
}
'''


def module(c, d, progs, mocks):
    """the Go module of a batch; mocks: with the tests that mock"""
    lay = {}
    for p in ("p", "q", "cmd"):
        os.makedirs(os.path.join(d, p))
    req = "\nrequire github.com/xhd2015/xgo/runtime v0.0.0\n\nreplace github.com/xhd2015/xgo/runtime => %s/runtime\n" % X.REPO if mocks else ""
    open(os.path.join(d, "go.mod"), "w").write("module %s\n\ngo 1.21\n%s" % (MOD, req))
    for p in ("p", "q"):
        open(os.path.join(d, p, "base.go"), "w").write("package %s\n\ntype Base struct{ y int }\n" % p)
    open(os.path.join(d, "p/help_test.go"), "w").write(HELPER_TEST)
    main = ["package main", "", "import (", '\t"%s/p"' % MOD, '\t"%s/q"' % MOD, ")", "", "var _ p.Base", "var _ q.Base", "", "func call(f func()) {", "\tdefer func() { recover() }()", "\tf()", "}", "", "func main() {"]
    for i, h in enumerate(progs):
        if not mocks:
            h = dict(h, tests=h["tests"][:2])
        files, test = render(i, h)
        for name, w in files.items():
            open(os.path.join(d, name), "w", newline="").write(w.text)
            for k, v in w.pos.items():
                lay[(i,) + k] = (MOD + "/" + name, v)
        open(os.path.join(d, "p/prog%d_test.go" % i), "w").write(test)
        for call in h["tests"][0]["calls"]:
            main.append("\tcall(func() { %s(%d) })" % (target(i, h["fns"], call["f"], "main"), call["n"]))
    open(os.path.join(d, "cmd/main.go"), "w").write("\n".join(main + ["}", ""]))
    return lay


# ------------------------------------------------------------ comparing

def parse(path):
    blocks = {}
    mode = None
    for k, line in enumerate(open(path).read().splitlines()):
        if k == 0:
            mode = line.replace("mode:", "").strip()
            continue
        m = re.match(r"^(.*):(\d+)\.(\d+),(\d+)\.(\d+) (\d+) (\d+)$", line)
        if not m:
            raise ValueError("line %d of the profile: %r" % (k + 1, line))
        key = (m.group(1), (int(m.group(2)), int(m.group(3))), (int(m.group(4)), int(m.group(5))))
        if key in blocks:
            raise ValueError("block listed twice: %r" % line)
        blocks[key] = (int(m.group(6)), int(m.group(7)))
    return mode, blocks


def expected(progs, lay, sel, pkgs, merged=None):
    """(file, position) -> (program, function, token, count or None)"""
    out = {}
    si = SELS.index(sel) if sel else None
    for (i, f, pc), (file, pos) in lay.items():
        h = progs[i]
        fn = h["fns"][f - 1]
        if fn["pkg"] not in pkgs:
            continue
        n = 0 if sel is None else h["profiles"][si][f - 1][pc - 1]
        if merged:
            n = h["merged"][f - 1][pc - 1]
        if sel and f in h["mocks"][si]:
            first = next((k for k, t in enumerate(fn["toks"], 1) if k > 1 and starts(fn["toks"], k)), len(fn["toks"]) + 1)
            if pc < first:
                n = None  # whether the entry of a mocked function is counted is left open
        out[(file, pos)] = (i, f, pc, n)
    return out


def starts(toks, pc):
    t = toks[pc - 1]
    return t["k"] in COUNTED and (pc == 1 or t["gap"] or t["k"] == "elif" or toks[pc - 2]["k"] in {"if", "for", "sw", "lit", "def", "else", "elif", "case", "default", "end", "panic", "brk", "cont"})


def compare(mode, blocks, exp, setmode, ignore=lambda f: False):
    """the deviations of a profile from what is expected"""
    bad, foreign = [], []
    by = {}
    for (file, a, b), (num, n) in blocks.items():
        by.setdefault(file, []).append((a, b, num, n))
    for v in by.values():
        v.sort()
    want = {}
    for (file, pos), x in exp.items():
        want.setdefault(file, []).append((pos, x))
    for file in by:
        if file not in want and not ignore(file):
            foreign.append(file)
    for file, sts in sorted(want.items()):
        bl = by.get(file)
        if bl is None:
            bad.append("%s has no blocks" % file)
            continue
        used = {}
        for pos, (i, f, pc, n) in sorted(sts):
            cov = [k for k, b in enumerate(bl) if b[0] <= pos < b[1]]
            if len(cov) != 1:
                bad.append("%s:%d.%d is in %d blocks" % (file, pos[0], pos[1], len(cov)))
                continue
            k = cov[0]
            used[k] = used.get(k, 0) + 1
            got = bl[k][3]
            if n is not None and got != (min(n, 1) if setmode else n):
                bad.append("%s:%d.%d (program %d, function %d, token %d): counted %d times, executed %d" % (file, pos[0], pos[1], i, f, pc, got, n))
        for k, b in enumerate(bl):
            if b[2] != used.get(k, 0):
                bad.append("%s:%d.%d,%d.%d is said to have %d statements, has %d" % (file, *b[0], *b[1], b[2], used.get(k, 0)))
    return bad, foreign


def percent(exp):
    tot = len(exp)
    return tot, sum(1 for x in exp.values() if x[3])


# name, module with mocks, go words, environment, selected tests, covered packages, mode
def forms():
    cp = MOD + "/p," + MOD + "/q"
    return [
        ("plain", False, ["-coverprofile=c.out", "./p"], {}, [1, 2], "p", "set"),
        ("count", False, ["-cover", "-covermode=count", "-coverprofile", "c.out", "./p"], {}, [2], "p", "count"),
        ("two dashes", False, ["--coverprofile=c.out", "--covermode", "count", "./p"], {}, [1], "p", "count"),
        ("test. flags", False, ["-test.coverprofile=c.out", "-covermode=count", "./p"], {}, [1], "p", "count"),
        ("only test. flag", False, ["-test.coverprofile=c.out", "./p"], {}, [1], "p", "set"),
        ("GOFLAGS", False, ["./p"], {"GOFLAGS": "-mod=mod -coverprofile=c.out"}, [2], "p", "set"),
        ("coverpkg", False, ["-coverpkg=" + cp, "-covermode=count", "-coverprofile=c.out", "./p"], {}, [1, 2], "pq", "count"),
        ("coverpkg one", False, ["-coverpkg", MOD + "/q", "-coverprofile=c.out", "-covermode=atomic", "./p"], {}, [1, 2], "q", "atomic"),
        ("all packages", False, ["-covermode=atomic", "-coverprofile=c.out", "./p", "./q"], {}, [1], "p0q", "atomic"),
        ("local pattern", False, ["-coverpkg=./...", "-covermode=count", "-coverprofile=c.out", "./p"], {}, [2], "pq", "count"),
        ("xgo flags", False, ["--strace=on", "--strace-dir=tr", "-coverpkg=" + cp, "-covermode=count", "-coverprofile=c.out", "./p"], {}, [1, 2], "pq", "count"),
        ("trap all", False, ["--trap-all=true", "-coverpkg=" + cp, "-covermode=count", "-coverprofile=c.out", "./p"], {}, [1], "pq", "count"),
        ("mocks", True, ["-coverpkg=" + cp, "-covermode=count", "-coverprofile=c.out", "./p"], {}, [3], "pq", "count"),
        ("mocks and others", True, ["-covermode=count", "-coverprofile=c.out", "./p"], {}, [1, 2, 3], "p", "count"),
        ("runtime module", True, ["-coverpkg=" + cp, "-covermode=count", "-coverprofile=c.out", "./p"], {}, [1, 2], "pq", "count"),
        ("percent", False, ["-cover", "./p"], {}, [1, 2], "p", None),
        ("test binary", False, None, {}, [2], "pq", "count"),
        ("build", False, None, {}, [1], "pq", "count"),
        ("no coverage", False, ["./p"], {}, [1, 2], "", None),
    ]


def run_form(xgo, d, form, go=None):
    """runs the tests; returns (ok, output, profile or None)"""
    name, _, words, env, sel, pkgs, mode = form
    prog = go or xgo.bin
    e = dict(xgo.env, **env)
    prof = os.path.join(d, "c.out")
    if os.path.exists(prof):
        os.unlink(prof)
    pat = "^TestK(%s)_" % "|".join(map(str, sel))

    def cmd(args, cwd=d, env=e):
        return X.run(args, cwd=cwd, env=env, timeout=600, check=False)
    if name == "test binary":
        p = cmd([prog, "test", "-c", "-cover", "-covermode=count", "-coverpkg=" + MOD + "/p," + MOD + "/q", "-o", "x.test", "./p"])
        if p.returncode == 0:
            p = cmd([os.path.join(d, "x.test"), "-test.run", pat, "-test.coverprofile=c.out"])
    elif name == "build":
        p = cmd([prog, "build", "-cover", "-covermode=count", "-o", "x.exe", "./cmd"])
        if p.returncode == 0:
            shutil.rmtree(os.path.join(d, "covdata"), ignore_errors=True)
            os.makedirs(os.path.join(d, "covdata"))
            p = cmd([os.path.join(d, "x.exe")], env=dict(e, GOCOVERDIR=os.path.join(d, "covdata")))
            if p.returncode == 0:
                p = cmd(["go", "tool", "covdata", "textfmt", "-i=covdata", "-o=c.out"])
    else:
        own = [w for w in words if w.startswith(("--strace", "--trap"))]
        rest = [w for w in words if w not in own]
        p = cmd([prog, "test"] + ([] if go else own) + ["-count=1", "-run", pat] + rest)
    return p.returncode == 0, p.out + p.err, prof if os.path.exists(prof) else None


def c14(c):
    num = 60 if not X.THOROUGH else 260
    ex = ThreadPoolExecutor(2)
    fx = ex.submit(X.Xgo, "cov", True, False)
    model(c)
    batches = [generate(c, num, X.SEED * 31 + 7)] if not X.THOROUGH else [generate(c, num, X.SEED * 31 + 7 + k, toks=20 + 6 * (k % 3), nf=3 + k % 3) for k in range(5)]
    c.add("programs", sum(len(b) for b in batches))
    c.add("executed_tokens", sum(h["steps"] for b in batches for h in b))
    xgo = fx.result()
    c.log("set up")
    for bi, progs in enumerate(batches):
        for h in progs:  # mocks of what mock.Patch does not take by name are left out
            if any(h["fns"][m - 1]["kind"] not in MOCKABLE for m in h["tests"][2]["mocks"]):
                raise X.CheckError("not mockable")
        base = X.sub("cov", str(bi))
        dirs, lays = {}, {}
        for m in (False, True):
            dirs[m] = os.path.join(base, "mod%d" % m)
            lays[m] = module(c, dirs[m], progs, m)
            dirs[m, "go"] = os.path.join(base, "go%d" % m)
            module(c, dirs[m, "go"], progs, m)
        for form in forms():
            name, m, words, env, sel, pkgs, mode = form
            ok, out, prof = run_form(xgo, dirs[m], form)
            judge(c, bi, progs, lays[m], form, ok, out, prof, dirs[m])
            if name in ("coverpkg", "plain", "local pattern") and prof:
                gok, gout, gprof = run_form(xgo, dirs[m, "go"], form, go="go")
                if not gok:
                    raise X.CheckError("go test fails: " + gout[-2000:])
                a, b = parse(prof)[1], parse(gprof)[1]
                own = lambda x: {k: v for k, v in x.items() if k[0].startswith(MOD + "/")}
                if own(a) != own(b):
                    df = sorted(set(own(a).items()) ^ set(own(b).items()))[:4]
                    c.violation("the profile of xgo test (%s) differs from that of go test: %s" % (name, df), {"form": name, "difference": df, "programs": os.path.join("batch", str(bi))})
                c.add("profiles_compared_with_go")


def judge(c, bi, progs, lay, form, ok, out, prof, d):
    name, m, words, env, sel, pkgs, mode = form
    rep = {"form": name, "words": words, "env": env, "tests": sel, "batch": bi}
    if not ok:
        c.violation("%s: the tests fail under xgo: %s" % (name, out.strip()[-700:]), dict(rep, output=out[-3000:]))
        return
    c.add("forms_run")
    if mode is None:
        got = re.findall(r"coverage: ([\d.]+)% of statements", out)
        if pkgs:
            tot, cov = percent(expected(progs, lay, sel, pkgs))
            if got != ["%.1f" % (100.0 * cov / tot)]:
                c.violation("%s: reported coverage %s, %d of %d statements were executed" % (name, got, cov, tot), rep)
        elif got or prof:
            c.violation("%s: coverage reported without being asked for" % name, rep)
        return
    if not prof:
        c.violation("%s: no profile was written" % name, dict(rep, output=out[-2000:]))
        return
    try:
        gmode, blocks = parse(prof)
    except ValueError as e:
        c.violation("%s: malformed profile: %s" % (name, e), rep)
        return
    if pkgs == "p0q":  # q has no tests of its own: its statements are listed with count 0
        exp = {**expected(progs, lay, sel, "p"), **{k: v[:3] + (0,) for k, v in expected(progs, lay, None, "q").items()}}
    else:
        exp = expected(progs, lay, sel, pkgs)
    if gmode != mode:
        c.violation("%s: mode %s instead of %s" % (name, gmode, mode), rep)
    bad, foreign = compare(gmode, blocks, exp, mode == "set", ignore=lambda f: f.startswith(MOD + "/cmd/"))
    c.add("statements_compared", len(exp))
    c.add("statements_executed", sum(1 for x in exp.values() if x[3]))
    for b in bad[:3]:
        i = re.search(r"prog(\d+)\.go", b)
        src = {}
        if i:
            for p in ("p", "q"):
                f = os.path.join(d, p, "prog%s.go" % i.group(1))
                if os.path.exists(f):
                    src[p] = open(f).read()
            src["test"] = open(os.path.join(d, "p/prog%s_test.go" % i.group(1))).read()
        c.violation("%s: %s" % (name, b), dict(rep, deviation=b, source=src))
    rt = [f for f in foreign if f.startswith("github.com/xhd2015/xgo/runtime/")]
    other = [f for f in foreign if f not in rt]
    if other:
        c.violation("%s: the profile lists %s, which were not asked for" % (name, other[:3]), rep)
    if rt:
        c.violation("%s: the profile lists packages of xgo's runtime: %s" % (name, rt[:3]), rep, key="runtime-in-" + name.replace(" ", "-"))


# ------------------------------------------------------------- profiles (C15)

BLOCKS = ["example.com/m/a/x.go:3.20,5.2 2", "example.com/m/a/x.go:3.20,5.22 2", "example.com/m/a/x.go:13.20,5.2 1", "example.com/m/a/sub/y.go:1.1,2.2 1",
          "example.com/m/b/my file.go:10.5,12.3 4", "example.com/m/b/y.go:1.1,2.2 1", "other.org/z.go:1.1,2.2 1", "other.org/z.go:1.1,2.2 10"]
EXCLUDES = ["example.com/m/a/", "example.com/m/b/my file.go", "other.org"]


def c15(c):
    exb = [{k for k, b in enumerate(BLOCKS, 1) if b.startswith(e)} for e in EXCLUDES]
    r = tlc.must(tlc.run("cover", "MCProfiles", {"Names": {"f", "g"} if not X.THOROUGH else {"f", "g", "h"}, "Blocks": [1, 2], "Excludes": [{1}], "MaxLines": 2, "MaxCount": 1},
                         invariants=["Perm2", "Adds", "Says1"], constraints=["Small"], timeout=800, heap="8g"), "MCProfiles")
    c.add("model_states", r.distinct)
    num = 400 if not X.THOROUGH else 4000
    f = os.path.join(X.sub("gen"), "profiles.csv")
    tlc.must(tlc.run("cover", "GenProfiles", {"Names": {"f", "g", "h"}, "Blocks": BLOCKS, "Excludes": exb, "OutFile": f, "Counts": {0, 1, 7, 1000003}, "Len0": 9},
                     init="GenInit", next="GenNext", simulate="num=%d" % num, depth=60, seed=X.SEED * 17 + 3, timeout=800, workers=1, heap="2g"), "GenProfiles")
    hist = tlc.read_lines(f)
    xgo = X.build_xgo("prof")
    env = X.base_env(X.sub("home-prof"))

    def one(a):
        k, h = a
        d = X.sub("prof", str(k))
        out = []
        scale = [1, 1, 1000000007][k % 3]  # counts are added: all of a history may be multiplied
        for j, e in enumerate(h):
            if e["op"] == "record":
                end = "" if (k + j) % 3 == 0 else "\n"  # the last line may lack its newline
                mode = "mode: %s" % ["set", "count", "atomic"][(k + j) % 3]
                ls = [mode] + ["%s %d" % (BLOCKS[x["b"] - 1], x["n"] * scale) for x in e["lines"]]
                if (k + j) % 5 == 1:
                    ls.insert(1 + len(ls) // 2, mode)  # profiles put one after the other
                nl = "\r\n" if (k + j) % 7 == 2 else "\n"
                open(os.path.join(d, e["out"]), "w", newline="").write(nl.join(ls) + (nl if end else ""))
                continue
            if e["op"] == "fail":
                before = {n: open(os.path.join(d, n), newline="").read() for n in os.listdir(d)}
                p = X.run([xgo, "tool", "coverage", "merge", "-o", e["out"]] + e["srcs"], cwd=d, env=env, check=False)
                rep = {"history": h[:j + 1]}
                if p.returncode == 0:
                    out.append(("merge of a file that does not exist reports success", rep))
                if before != {n: open(os.path.join(d, n), newline="").read() for n in os.listdir(d)}:
                    out.append(("merge of a file that does not exist changes files", rep))
                continue
            want = {BLOCKS[x["b"] - 1]: x["n"] * scale for x in e["want"]}
            ex = [w for i in e["ex"] for w in ("--exclude-prefix", EXCLUDES[i - 1])]
            v = (k + j) % 5
            to = ["-o", e["out"]] if v else []
            args = [to + ex + e["srcs"], e["srcs"] + ex + to, ex + e["srcs"] + to, e["srcs"][:1] + to + ex + ["--"] + e["srcs"][1:], to + ex + ["--"] + e["srcs"]][v]
            keep = {n: open(os.path.join(d, n)).read() for n in e["srcs"] if n != e["out"]}
            p = X.run([xgo, "tool", "coverage", e["op"]] + args, cwd=d, env=env, check=False)
            rep = {"history": h[:j + 1], "args": args}
            if p.returncode != 0:
                out.append(("%s fails: %s" % (e["op"], (p.out + p.err).strip()[-300:]), rep))
                return out
            text = open(os.path.join(d, e["out"])).read() if to else p.out
            if not to:
                open(os.path.join(d, e["out"]), "w").write(text)
            lines = text.split("\n")
            got, dup = {}, []
            for ln in lines[1:]:
                if ln == "":
                    continue
                b, _, n = ln.rpartition(" ")
                if b in got:
                    dup.append(b)
                got[b] = n
            if lines[0] != "mode: count":
                out.append(("%s: the first line of the result is %r" % (e["op"], lines[0]), rep))
            elif dup or {b: str(n) for b, n in want.items()} != got:
                out.append(("%s %s: the result says %s instead of %s%s" % (e["op"], args, sorted(got.items()), sorted(want.items()), ", listing blocks twice" if dup else ""), rep))
            for n, t in keep.items():
                if open(os.path.join(d, n)).read() != t:
                    out.append(("%s changed its source %s" % (e["op"], n), rep))
            if out:
                return out
        return out
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(hist)))
    for r in res:
        for what, rep in r:
            c.violation(what, rep)
    c.add("histories", len(hist))
    c.add("merges", sum(1 for h in hist for e in h if e["op"] not in ("record", "fail")))
    c.add("merges_onto_a_source", sum(1 for h in hist for e in h if e["op"] not in ("record", "fail") and e["out"] in e["srcs"]))
    c.sample(hist[0])


CHECKS = {"C14": (c14, "model_checking"), "C15": (c15, "model_checking")}
