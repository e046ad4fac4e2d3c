"""Running TLC: exhaustive model checking, behaviour generation, trace checking."""
import itertools, os, re, json, shutil
import xgoenv as X

JAR = "/opt/veriftools/tla"


def _cmd():
    jars = [os.path.join(JAR, f) for f in sorted(os.listdir(JAR)) if f.endswith(".jar")]
    jars.sort(key=lambda j: 0 if j.endswith("tla2tools.jar") else 1)
    return ":".join(jars)


def tla(v):
    """Python value -> TLA+ expression"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(map(tla, v))
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(map(tla, v)))
    if isinstance(v, dict):
        return "[%s]" % ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) if v else "<<>>"
    if isinstance(v, Raw):
        return v.s
    raise TypeError(v)


class Raw:
    def __init__(self, s):
        self.s = s


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and "Error:" not in out
        self.error = "" if self.ok else out[-6000:]


def run(specdir, module, consts=None, spec=None, init=None, next=None, invariants=(), properties=(), constraints=(),
        action_constraints=(), view=None, deadlock=False, simulate=None, depth=None, seed=None, timeout=600, workers=8,
        heap="6g", extra_defs="", symmetry=None, name=None, postcondition=None):
    """Runs TLC on `module` of specs/<specdir>. Constants go through a generated
    wrapper module so that any TLA+ expression can be used."""
    n = name or "Run" + module
    d = X.sub("tlc", n + "-%d" % run.n.__next__())
    src = os.path.join(X.VERIF, "specs", specdir)
    for f in os.listdir(src):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(src, f), d)
    cfg, defs = [], []
    for k, v in (consts or {}).items():
        if isinstance(v, Raw):
            cfg.append("CONSTANT %s <- %s" % (k, v.s))
        else:
            defs.append("const_%s == %s" % (k, tla(v)))
            cfg.append("CONSTANT %s <- const_%s" % (k, k))
    if spec:
        cfg.append("SPECIFICATION " + spec)
    else:
        cfg += ["INIT " + (init or "Init"), "NEXT " + (next or "Next")]
    cfg += ["INVARIANT " + i for i in invariants] + ["PROPERTY " + i for i in properties]
    cfg += ["CONSTRAINT " + i for i in constraints] + ["ACTION_CONSTRAINT " + i for i in action_constraints]
    if view:
        cfg.append("VIEW " + view)
    if symmetry:
        cfg.append("SYMMETRY " + symmetry)
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    open(os.path.join(d, n + ".tla"), "w").write(
        "---- MODULE %s ----\nEXTENDS %s\n%s\n%s\n====\n" % (n, module, "\n".join(defs), extra_defs))
    open(os.path.join(d, n + ".cfg"), "w").write("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + X.sub("jtmp"), "-cp", _cmd(), "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-config", n + ".cfg"]
    if simulate:
        cmd += ["-simulate", simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    p = X.run(cmd + [n + ".tla"], cwd=d, timeout=timeout, check=False)
    r = Result(p.out + p.err, p.returncode)
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return r


run.n = itertools.count()


def must(r, what):
    if not r.ok:
        raise X.CheckError("TLC failed on %s:\n%s" % (what, r.error))
    return r


def read_lines(path):
    """CSVWrite output: one TLA+-free JSON document per line"""
    out = []
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if line:
            v = json.loads(line)
            out.append(json.loads(v) if isinstance(v, str) else v)
    return out
