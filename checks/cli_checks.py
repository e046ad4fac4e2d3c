"""C11: the command line of xgo means what it means to go; decided with
specs/cli. TLC explores all short command lines for the design and generates
random ones; the real xgo is run with them, a recorder standing in for the go
command it ends in, and TLC checks the recorded command lines."""
import collections, json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import tlc
import xgoenv as X
from source_checks import need

BOOL = ["a", "n", "x", "v", "race", "msan", "asan", "work", "trimpath", "linkshared", "modcacherw", "json", "cover", "buildvcs"]
VAL = ["p", "covermode", "coverpkg", "asmflags", "buildmode", "compiler", "gccgoflags", "gcflags", "installsuffix", "ldflags", "mod", "modfile",
       "overlay", "pgo", "pkgdir", "tags", "toolexec"]
TEST_BOOL = ["c", "failfast", "short", "benchmem", "fullpath", "artifacts"]
TEST_VAL = ["o", "exec", "vet", "coverprofile", "bench", "benchtime", "blockprofile", "blockprofilerate", "count", "cpu", "cpuprofile", "fuzz", "fuzztime",
            "fuzzminimizetime", "list", "memprofile", "memprofilerate", "mutexprofile", "mutexprofilefraction", "outputdir", "parallel", "run", "skip",
            "timeout", "trace", "shuffle"]
# passed to test binaries: may be written with the prefix "test."
PASSED = ["v", "failfast", "short", "benchmem", "count", "run", "bench", "timeout", "parallel", "cpu", "list", "skip"]
GOBOOL = {"build": BOOL, "run": BOOL, "test": BOOL + TEST_BOOL, "exec": []}
GOVAL = {"build": VAL + ["o"], "run": VAL + ["exec"], "test": VAL + TEST_VAL, "exec": []}
XGOBOOL = ["trap-all", "trap-stdlib", "strace", "stack-trace", "xgo-race-safe", "no-line-directive", "no-setup", "use-file-patches"]
XGOVAL = ["trap", "strace-dir", "mock-rule-include-as-main-module", "project-dir"]
KNOWN = ["a", "v", "x", "c", "run", "overlay", "mod", "modfile", "tags", "gcflags", "o"]
CUMULATIVE = ["gcflags", "ldflags", "asmflags", "gccgoflags"]
MANAGED = ["overlay", "mod", "modfile"]
OUTFILES = ["o1.bin", "sub/o2.bin", "/nowhere/o3.bin", "a=o4.bin", "sub/-o=o5.bin"]


def lex(raw):
    d = 0
    if raw.startswith("--"):
        d = 2
    elif raw.startswith("-"):
        d = 1
    body = raw[d:]
    if d and (body[:1] in ("-", "=") or (d == 1 and not body)):
        d, body = 0, ""
    if d == 0:
        return dict(raw=raw, dash=0, name="", eq=False, val="")
    name, eq, val = body.partition("=")
    return dict(raw=raw, dash=d, name=name, eq=bool(eq), val=val)


def words(*raws):
    return tlc.Raw("{%s}" % ", ".join(tlc.tla(lex(r)) for r in raws))


def fn(d, conv=set):
    return tlc.Raw("(%s)" % " @@ ".join('("%s" :> %s)' % (k, v.s if isinstance(v, tlc.Raw) else tlc.tla(conv(v))) for k, v in d.items()))


def consts():
    return dict(GoBool=fn(GOBOOL), GoVal=fn(GOVAL), XgoBool=set(XGOBOOL), XgoVal=set(XGOVAL), Cumulative=set(CUMULATIVE), Managed=set(MANAGED), Known=KNOWN)


def raws(k):
    """constants given as TLA+ expressions go into the wrapper module"""
    defs, out = [], {}
    for n, v in k.items():
        if isinstance(v, tlc.Raw):
            defs.append("def_%s == %s" % (n, v.s))
            out[n] = tlc.Raw("def_" + n)
        else:
            out[n] = v
    return out, "\n".join(defs)


def model_check(c, maxlen):
    k, defs = raws(dict(GoBool=fn({x: ["v", "race"] for x in ("build", "run", "test")}), GoVal=fn({"build": [], "run": ["count"], "test": ["run", "count"]}),
                        XgoBool={"trap-all"}, XgoVal={"trap"}, Cumulative={"gcflags"}, Managed={"overlay"}, Known=["v", "run"], MaxLen=maxlen))
    r = tlc.run("cli", "MCCli", k, init="Init", next="Grow", invariants=["Transparent"], extra_defs="LOCAL INSTANCE TLC\n" + defs, timeout=800)
    tlc.must(r, "model checking cli")
    c.add("model_states", r.distinct)


def generate(name, num, seed, prog, maxwords):
    f = os.path.join(X.sub("gen"), name + ".jsonl")
    simple = ["1", "a,b", "x y", "-v", "-a", "--", "-x=1", "./p", "k=v", "-N -l"]
    vals = {n: simple for n in set(VAL + TEST_VAL)}
    vals.update(mod=["mod"], modfile=["alt.mod"], overlay=["ov.json"], o=OUTFILES, tags=["t1", "t1,t2", "t1 t2"], compiler=["gc"], buildmode=["exe", "pie"],
                gcflags=["all=-N -l", "-m", "-N -l", "example.com/p/...=-m"], ldflags=["-s", "-w", "-X main.v=1", "-v", "-c", "-a", "all=-s -w"], run=["A=b", "^TestA$", "-v", "x y", "T/=", "1"])
    args = ["", "arg", "a b", "-v", "-x", "-c", "-run", "-o", "--trap", "--trap-all", "--project-dir", "--flag=v", "--", "-", "-args", "=", "-=x", "ünï", "./sub", "1", "'q'\"", "-race", "--no-setup"]
    k = consts()
    k.update(OutFile=f, MaxWords=maxwords,
             BoolWords=fn({c: words(*(["-" + n for n in ns] + ["--" + n for n in ns] + (["-test." + n for n in PASSED if n in ns] if c == "test" else []))) for c, ns in GOBOOL.items()}),
             BoolEq=fn({c: words(*["-%s=%s" % (n, v) for n in ns for v in ("true", "false")]) for c, ns in GOBOOL.items()}),
             ValNames=fn({c: ns + (["test." + n for n in PASSED if n in ns] if c == "test" else []) for c, ns in GOVAL.items()}),
             ValWords=fn({n: words(*v) for n, v in list(vals.items()) + [("test." + n, simple) for n in PASSED]}),
             XgoWords=words("--trap-all", "--trap-all=true", "--trap-all=false", "--trap-stdlib", "--trap-stdlib=false", "--strace", "--strace=off", "--stack-trace=on", "--xgo-race-safe",
                            "--xgo-race-safe=true", "--no-line-directive", "--no-setup", "--use-file-patches"),
             XgoValNames={"trap", "strace-dir", "mock-rule-include-as-main-module"},
             XgoValues=fn({"trap": words("example.com/p/...", "example.com/p/sub"), "strace-dir": words("./tr", "/tmp"), "mock-rule-include-as-main-module": words("example.com/q", "")}),
             Pkgs=fn({"build": words(".", "./sub", "./...", "main.go", "example.com/p"), "run": words(".", "./sub", "main.go", "example.com/p/sub"),
                      "test": words(".", "./sub", "./...", "example.com/p/sub"), "exec": words("go", prog)}),
             Args=words(*args), Custom=words("-custom", "-custom=1", "--my.flag", "-k=", "--no", "-updates=a b"),
             Stdins={"", "line\n", "no newline", "two\nlines\n"}, Outs={"", "text\n", "ok  \tp\t0.1s\n", "no newline"}, Statuses={0, 1, 2, 3, 42, 125},
             Own=fn({c: [n for n in KNOWN if n in ns] for c, ns in GOVAL.items()}), Seps={" ", "\n", "\t", "  ", " \n "})
    k, defs = raws(k)
    r = tlc.run("cli", "GenCli", k, init="GenInit", next="GenNext", simulate="num=%d" % num, depth=4 * maxwords + 8, seed=seed, workers=1, timeout=800, heap="2g",
                extra_defs=defs, name="Gen" + name)
    tlc.must(r, "generation cli")
    return tlc.read_lines(f)


RECORDER = '''#!/bin/sh
if [ -n "$XGO_VERIF_REC" ]; then
  case "$1" in
    list|env|version|mod) ;;
    *) exec python3 %(py)s go "$@" ;;
  esac
fi
exec %(real)s "$@"
'''
RECPY = '''import json, os, sys
rec = os.environ["XGO_VERIF_REC"]
spec = json.load(open(rec + ".in"))
with open(rec, "a") as f:
    f.write(json.dumps({"argv": sys.argv[1:], "cwd": os.getcwd(), "stdin": sys.stdin.read() if spec["read"] else None,
                        "env": {k: os.environ.get(k) for k in ("GOROOT", "PATH", "VERIF_MARK")}}) + "\\n")
sys.stdout.write(spec["out"]); sys.stdout.flush()
sys.stderr.write(spec["err"]); sys.stderr.flush()
sys.exit(spec["status"])
'''
MAIN = '''package main

import (
	"fmt"
	%s
)

func main() { fmt.Println("hello") }
'''


def project(d, runtime):
    """a main module with two packages; runtime: it uses xgo's runtime"""
    os.makedirs(os.path.join(d, "sub"))
    gomod = "module example.com/p\n\ngo 1.18\n"
    imp = ""
    if runtime:
        gomod += "\nrequire github.com/xhd2015/xgo/runtime v0.0.0\n\nreplace github.com/xhd2015/xgo/runtime => %s\n" % os.path.join(X.REPO, "runtime")
        imp = '_ "github.com/xhd2015/xgo/runtime/mock"'
    for n in ("go.mod", "alt.mod"):
        open(os.path.join(d, n), "w").write(gomod)
    open(os.path.join(d, "alt.sum"), "w").write("")
    for n in ("", "sub"):
        open(os.path.join(d, n, "main.go"), "w").write(MAIN % imp)
        open(os.path.join(d, n, "m_test.go"), "w").write("package main\n\nimport \"testing\"\n\nfunc TestIt(t *testing.T) {}\n")
    open(os.path.join(d, "over.go"), "w").write(MAIN % "")
    json.dump({"Replace": {os.path.join(d, "sub", "main.go"): os.path.join(d, "over.go")}}, open(os.path.join(d, "ov.json"), "w"))


def absolute(cwd):
    return {o: os.path.normpath(os.path.join(cwd, o)) for o in OUTFILES}


def execute(x, prog, d, b, i):
    """runs xgo on one behaviour; d: the project of this worker"""
    ar, cmd = b["around"], b["cmd"]
    if ar["dir"] in ("rel", "abs"):
        # files named on the command line are those of the project
        b["ws"] = [lex(os.path.join(d, w["raw"]) if w["raw"] == "alt.mod" else w["raw"].replace("=alt.mod", "=" + os.path.join(d, "alt.mod"))) for w in b["ws"]]
    argv = [w["raw"] for w in b["ws"]]
    e = dict(x.env)
    e["VERIF_MARK"] = "a=b c"
    e["GOFLAGS"] = "-mod=mod"
    cwd = d
    pre = []
    if ar["dir"] in ("rel", "abs"):
        cwd = os.path.dirname(d)
        pre = ["--project-dir", os.path.basename(d) if ar["dir"] == "rel" else d]
    elif ar["dir"] == "chdir":
        cwd = os.path.dirname(d)
        pre = ["-C", os.path.basename(d)]
    k = 0
    while k < min(ar["split"], len(argv)) and argv[k] and not any(ch.isspace() for ch in argv[k]):
        k += 1
    if k:
        # these come first: a part of the command line that ends within a flag must be followed by its value
        e["XGO_FLAGS"] = ar["sep"].join(pre + argv[:k])
        pre = []
    rec = os.path.join(X.sub("rec"), "%s.%d" % (x.name, i))
    # a command of go reads its input only if it runs a program
    json.dump({"out": ar["out"], "err": ar["err"], "status": ar["status"], "read": True}, open(rec + ".in", "w"))
    e["XGO_VERIF_REC"] = rec
    p = X.run([x.bin, cmd] + pre + argv[k:], cwd=cwd, env=e, timeout=200, check=False, input=ar["stdin"])
    got = [json.loads(line) for line in open(rec)] if os.path.exists(rec) else []
    return p, got, cwd if ar["dir"] in ("rel", "abs") else d


def observe(c, x, prog, d, b, i):
    p, got, base = execute(x, prog, d, b, i)
    ar, cmd = b["around"], b["cmd"]
    say = "xgo %s %s" % (cmd, " ".join(json.dumps(w["raw"]) for w in b["ws"]))
    extra = {"behaviour": b, "stdout": p.out[-2000:], "stderr": p.err[-2000:], "recorded": got}
    if len(got) != 1:
        return None, ("%s: go was started %d times instead of once (exit status %d): %s" % (say, len(got), p.returncode, p.err[-200:].replace("\n", " | ")), extra)
    g = got[0]
    want_prog = "go" if cmd != "exec" else b["means"]["pkgs"][0]
    name = g["argv"][0]
    words_got = g["argv"][1:]
    bad = None
    if cmd == "exec":
        words_got = ([prog] if name == prog else ["go"]) + words_got
    else:
        if name != "go" or not words_got or words_got[0] != cmd:
            return None, ("%s: another command was executed: %s" % (say, g["argv"]), extra)
        words_got = words_got[1:]
    if os.path.realpath(g["cwd"]) != os.path.realpath(d):
        bad = "go works in %s instead of %s" % (g["cwd"], d)
    elif g["stdin"] != ar["stdin"]:
        bad = "the command gets %r as its input instead of %r" % (g["stdin"], ar["stdin"])
    elif p.out != ar["out"]:
        bad = "xgo prints %r instead of %r" % (p.out, ar["out"])
    elif ar["err"] not in p.err:
        bad = "error output of go is lost: %r in %r" % (ar["err"], p.err[-300:])
    elif p.returncode != ar["status"]:
        bad = "exit status %d instead of %d" % (p.returncode, ar["status"])
    elif g["env"]["VERIF_MARK"] != "a=b c":
        bad = "environment is not passed on"
    elif g["env"]["GOROOT"] != x.goroot or not g["env"]["PATH"].startswith(os.path.join(x.goroot, "bin") + ":"):
        bad = "the environment does not lead to the instrumented GOROOT"
    if bad:
        return None, ("%s: %s" % (say, bad), extra)
    return {"cmd": cmd, "ws": b["ws"], "got": [lex(w) for w in words_got], "wabs": absolute(base), "gabs": absolute(g["cwd"])}, (say, extra)


def run_cli(c):
    c.kinds = collections.Counter()
    model_check(c, 5 if X.THOROUGH else 4)
    c.log("model checked")
    x = X.Xgo("cli", True, True)
    real = os.path.join(x.goroot, "bin", "go")
    py = os.path.join(X.sub("cli"), "rec.py")
    open(py, "w").write(RECPY)
    prog = os.path.join(X.sub("cli"), "prog")
    open(prog, "w").write("#!/bin/sh\nexec python3 %s %s \"$@\"\n" % (py, prog))
    os.chmod(prog, 0o755)
    open(real, "w").write(RECORDER % {"py": py, "real": real + ".real"})
    c.log("xgo built")
    num = 8000 if X.THOROUGH else 600
    bs = generate("cli", num, X.SEED * 17 + 3, prog, 7)
    jobs = 10
    dirs = []
    for j in range(jobs):
        d = os.path.join(X.sub("proj"), "w%d" % j, "proj")
        os.makedirs(d)
        # most of what xgo does to the command line does not depend on the runtime being used
        project(d, j % 3 == 0)
        dirs.append(d)

    def worker(j):
        return [(i, observe(c, x, prog, dirs[j], bs[i], i)) for i in range(j, len(bs), jobs)]
    with ThreadPoolExecutor(jobs) as ex:
        res = dict(r for part in ex.map(worker, range(jobs)) for r in part)
    c.log("%d command lines run" % len(bs))
    fin = os.path.join(X.sub("rec"), "records.jsonl")
    fout = os.path.join(X.sub("rec"), "checked.jsonl")
    order = []
    with open(fin, "w") as f:
        for i in sorted(res):
            rec, info = res[i]
            c.add("traces_validated_against_impl")
            b = bs[i]
            c.kinds["cmd/" + b["cmd"]] += 1
            c.kinds["dir/" + b["around"]["dir"]] += 1
            for w in b["ws"]:
                c.kinds["word/" + ("xgo" if w["name"] in XGOBOOL + XGOVAL else "flag" if w["dash"] else "plain")] += 1
            if rec is None:
                c.violation(info[0], info[1])
                continue
            f.write(json.dumps(rec) + "\n")
            order.append(i)
    k, defs = raws(dict(consts(), InFile=fin, OutFile=fout))
    r = tlc.run("cli", "TraceCli", k, init="TInit", next="TNext", extra_defs=defs, workers=1, timeout=800)
    tlc.must(r, "checking recorded command lines")
    seen = {}
    for v in tlc.read_lines(fout):
        seen[v["i"]] = v
    if len(seen) != len(order):
        raise X.CheckError("TLC checked %d of %d records" % (len(seen), len(order)))
    for n, v in sorted(seen.items()):
        if not v["same"]:
            i = order[n - 1]
            say, extra = res[i][1]
            c.violation("%s: go is told %s instead of %s" % (say, json.dumps([v["got"][q] for q in ("flags", "pkgs", "args")]), json.dumps([v["want"][q] for q in ("flags", "pkgs", "args")])),
                        dict(extra, means=v["want"], got=v["got"]))
    c.cov["by_kind"] = dict(c.kinds)
    need(c.kinds, ["cmd/" + k for k in GOBOOL] + ["dir/" + k for k in ("cwd", "rel", "abs", "chdir")])


CHECKS = {"C11": (run_cli, "model_checking")}
