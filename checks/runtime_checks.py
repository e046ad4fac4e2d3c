"""C01-C08: the runtime, decided with specs/runtime.

Each check (1) model checks the relevant part of XgoRuntime exhaustively in a
small configuration, (2) generates random behaviours of the same specification
with TLC and executes them, step by step, on a program instrumented and built
with xgo from the working tree, comparing every observation."""
import concurrent.futures as cf
import collections, json, os, shutil, subprocess
import tlc
import xgoenv as X

FUNCS = {"F0", "F1", "TM", "PN", "D0"}

# ---------------------------------------------------------------- the program


class Driver:
    """drivers/rt built with xgo; built again with the full toolchain
    (compiler included) when something has to be confirmed"""

    def __init__(self, src, name, use_sources=True):
        self.src, self.name, self.use_sources = src, name, use_sources
        self.bins = {}

    def bin(self, fast):
        if fast not in self.bins:
            n = "%s-%s" % (self.name, "fast" if fast else "full")
            x = X.Xgo(n, self.use_sources, fast)
            d = X.sub("src-" + n)
            shutil.copytree(os.path.join(X.VERIF, "drivers", self.src), d, dirs_exist_ok=True)
            p = os.path.join(d, "go.mod.tmpl")
            open(os.path.join(d, "go.mod"), "w").write(open(p).read().replace("@REPO@", X.REPO))
            out = os.path.join(d, "driver.exe")
            x.build(d, out)
            self.bins[fast] = out
        return self.bins[fast]

    def any_bin(self):
        try:
            return self.bin(True), True
        except (X.BuildViolation, X.CheckError):
            return self.bin(False), False


def variants():
    """the tree as its sources have it, and, when the embedded copy that users
    get differs from them, as embedded"""
    out = [Driver("rt", "rt")]
    if X.asset_state()[1]:
        out.append(Driver("rt", "rt-embedded", use_sources=False))
    return out


def execute(binary, scenarios, globs=(), free=False, timeout=300):
    """-> (summary, deviations); a crash is a deviation too"""
    execute.n += 1
    d = X.sub("exec-%d" % execute.n)
    f = os.path.join(d, "scenarios.jsonl")
    with open(f, "w") as w:
        for s in scenarios:
            w.write(json.dumps(s) + "\n")
    env = X.base_env(d)
    env["XGO_VERIF_PROGRESS"] = os.path.join(d, "progress")
    if globs:
        env["XGO_VERIF_GLOBALS"] = ",".join("%(op)s:%(f)s:%(b)s:%(o)s" % g for g in globs)
    if free:
        env["XGO_VERIF_FREE"] = "1"
    p = subprocess.Popen([binary, f], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        err = "did not finish in %ds\n" % timeout + err
    devs, done = [], None
    for line in out.splitlines():
        try:
            v = json.loads(line)
        except ValueError:
            continue
        if not isinstance(v, dict):
            continue
        if v.get("done"):
            done = v
        elif "scenario" in v:
            devs.append(v)
    if done is None:
        try:
            at = int(open(env["XGO_VERIF_PROGRESS"]).read())
        except Exception:
            at = scenarios[0]["id"] if scenarios else -1
        devs.append({"scenario": at, "step": -1, "want": "the program to run on",
                     "got": "it died (exit %s): %s" % (p.returncode, err[:300].replace("\n", " | "))})
        done = {"scenarios": 0, "steps": 0}
    elif done.get("stuck") and not devs:
        at = int(open(env["XGO_VERIF_PROGRESS"]).read())
        devs.append({"scenario": at, "step": -1, "want": "goroutines to unwind", "got": "stuck"})
    shutil.rmtree(d, ignore_errors=True)
    return done, devs


execute.n = 0


# ---------------------------------------------------------------- behaviours

def generate(n, feat, weights, num, depth, seed, globs=(), ng=3, funcs=FUNCS, maxframes=4, maxid=6):
    f = os.path.join(X.sub("gen"), "%s.jsonl" % n)
    w = [k for k, v in sorted(weights.items()) for _ in range(v)]
    r = tlc.run("runtime", "GenRuntime",
                dict(NG=ng, MaxId=maxid, MaxFrames=maxframes, Funcs=set(funcs), Vars={"V0", "V1"}, Feat=set(feat),
                     Globs=tlc.Raw("GenGlobs"), Depth=depth, OutFile=f, Globals=list(globs), Weight=w),
                init="GenInit", next="GenNext", simulate="num=%d" % num, depth=depth * 8, seed=seed, workers=1,
                timeout=800, name="Gen%s" % n.replace("-", "_"), heap="2g")
    tlc.must(r, "generation " + n)
    return [{"id": i, "steps": s} for i, s in enumerate(tlc.read_lines(f))]


W = dict(call=6, panic=1, mock=2, rec=2, int=1, cancel=1, go=1, trace=1, tls=2)
W["return"] = 10


def weights(feat, **over):
    w = {"return": W["return"]}
    for k in W:
        if k in feat:
            w[k] = W[k]
    if "var" in feat:
        w["var"] = 4
        if "mock" in feat:
            w["varmock"] = 2
        if "rec" in feat:
            w["varrec"] = 1
    w.update(over)
    return w


INV = ["TypeOK", "OnlyAncestors", "CancelledIsGone", "LiveIsThere", "Ordered", "PostsOfPres", "MockApplicable",
       "TraceNesting", "TraceEnds", "TraceStarts", "HandlersUntraced"]
PROPS = ["Isolation", "Inherit", "CallsDoNotInstall", "GlobStays", "TraceReported", "TlsOwn", "VarsOnlyByWrite", "Residue"]


def mc(feat, NG=2, ids=2, frames=2, funcs=("F0", "TM"), vars=("V0",), globs="GNone", ents=99, steps=99):
    return dict(feat=feat.split(), NG=NG, ids=ids, frames=frames, funcs=funcs, vars=vars, globs=globs, ents=ents, steps=steps)


def model_check(n, m, workers):
    r = tlc.run("runtime", "MCRuntime",
                dict(NG=m["NG"], MaxId=m["ids"], MaxFrames=m["frames"], Funcs=set(m["funcs"]), Vars=set(m["vars"]),
                     Feat=set(m["feat"]), Globs=tlc.Raw(m["globs"]), MaxSteps=m["steps"], MaxEnts=m["ents"]),
                init="Init", next="Next", invariants=INV, properties=PROPS, constraints=["Bounded"], view="View",
                workers=workers, heap="12g" if X.THOROUGH else "6g", timeout=7200 if X.THOROUGH else 800, name="MC%d" % n)
    return tlc.must(r, "model checking %s" % m)


# ---------------------------------------------------------------- properties

def gen(feat, num=400, depth=50, globs=(), free=False, need=(), funcs=FUNCS, ng=3, maxframes=4, maxid=6, **over):
    return dict(feat=feat.split(), num=num, depth=depth, globs=globs, free=free, need=need, funcs=funcs, ng=ng,
                maxframes=maxframes, maxid=maxid, over=over)


def g(op, f="", b="-", o=""):
    return dict(op=op, f=f, b=b, o=o)


GLOBS = [
    [g("mock", "F0", "-", "patch"), g("record", "F0", "-", "record"), g("intercept")],
    [g("record", "F0", "-", "record"), g("record", "F0", "-", "call"), g("record", "F1", "-", "intercept"),
     g("mock", "F1", "-", "mockname")],
    [g("mock", "TM", "a", "patch"), g("mock", "TM", "-", "patch"), g("mock", "PN", "b", "patch"), g("record", "PN", "a", "result")],
    [g("mockvar", "V0", "-", "patch"), g("mockvarptr", "V1", "-", "patch"), g("recordvar", "V0", "-", "call"), g("intercept")],
]

ALL = "call mock rec int cancel go exit panic trace var tls"

PLAN = {
    # goroutine isolation and inheritance
    "C01": dict(
        mc=[mc("call mock rec cancel go exit"), mc("call mock int cancel go exit", NG=3, ids=1, frames=2, funcs=("F0",)),
            mc("var mock rec cancel go exit", NG=3, ids=2, frames=1, funcs=("F0",))],
        gen=[gen("call mock rec int cancel go exit var", num=500, ng=4, go=2, need=("ok/go", "exit/return")),
             gen("call mock rec int cancel go exit var panic trace tls free", num=500, depth=70, ng=4, free=True, go=3,
                 need=("ok/go",)),
             gen("call mock rec int cancel go exit", num=300, depth=60, ng=6, go=3, maxframes=2),
             # many handlers on few functions before and after goroutines are created
             gen("call mock rec int go", num=250, depth=50, ng=3, go=3, mock=6, rec=6, int=3, maxid=12, maxframes=2, funcs={"F0", "D0"}),
             gen("call mock go", num=150, depth=40, ng=3, go=3, mock=8, maxid=12, maxframes=2, funcs={"F0"})]),
    # which mock runs
    "C02": dict(
        mc=[mc("call mock cancel", NG=1, ids=3, frames=2, funcs=("F0", "PN")), mc("call mock cancel go", NG=2, ids=2, frames=3, funcs=("TM",))],
        gen=[gen("call mock cancel", num=500, need=("mock/call", "body/call")),
             gen("call mock cancel panic rec", num=400, funcs={"TM", "PN", "F0"}, mock=4, cancel=2),
             gen("call mock cancel go exit trace", num=400, mock=4, cancel=2, funcs={"TM", "PN", "D0"})]),
    # handlers installed by init()
    "C03": dict(
        mc=[mc("call mock rec cancel go exit glob", ids=1, funcs=("F0",), globs="GSome")],
        gen=[gen("call mock rec int cancel go exit glob panic" + (" var" if i == 3 else ""), num=300, depth=40, globs=gl, go=2,
                 need=("refused/cancelglobal",)) for i, gl in enumerate(GLOBS)]
            + [gen("call mock rec int cancel go panic var trace glob free", num=200, depth=60, globs=GLOBS[0], free=True, go=3)]),
    # recorders and interceptors
    "C04": dict(
        mc=[mc("call rec int cancel", NG=1, ids=3, frames=2, funcs=("F0",)), mc("call rec int mock", NG=1, ids=2, frames=3, funcs=("F0",))],
        gen=[gen("call rec int cancel", num=500, rec=3, int=2, need=("pre/call", "post/return")),
             gen("call rec int cancel mock panic", num=500, rec=3, int=2),
             gen("call rec int cancel mock go trace", num=300, rec=3, int=2)]),
    # panics and Goexit
    "C05": dict(
        mc=[mc("call mock rec panic", NG=1, ids=1, frames=3, funcs=("F0", "D0")), mc("call int rec go panic exit", NG=2, ids=1, frames=2, funcs=("F0",))],
        gen=[gen("call mock rec int panic cancel", num=500, panic=3, need=("recovered/panic",)),
             gen("call mock rec int panic cancel go exit trace var tls", num=500, panic=3, need=("exit/goexit",)),
             gen("call panic rec int trace", num=300, panic=3, funcs={"D0", "F1"}, maxframes=5)]),
    # variables
    "C06": dict(
        mc=[mc("var mock rec cancel go exit", NG=2, ids=2, frames=1, funcs=("F0",), vars=("V0", "V1")), mc("var mock cancel", NG=1, ids=4, frames=1, funcs=("F0",))],
        gen=[gen("var mock rec cancel call int", num=500, depth=60, var=6, varmock=3, mock=0, call=3, need=("val/readvar", "val/readptr")),
             gen("var mock rec cancel call int go exit panic trace", num=400, var=6, varmock=3, varrec=2, mock=1, call=4),
             gen("var mock call glob go", num=150, globs=GLOBS[3], var=6, varmock=3)]),
    # traces
    "C07": dict(
        mc=[mc("call trace panic", NG=1, ids=0, frames=4, funcs=("F0", "D0"), ents=3), mc("call trace panic rec", NG=1, ids=1, frames=3, funcs=("F0",), ents=3),
            mc("call trace panic mock", NG=1, ids=1, frames=3, funcs=("F0", "D0"), ents=3), mc("call trace go exit", NG=2, ids=0, frames=3, funcs=("F0",), ents=4)],
        gen=[gen("call trace", num=300, trace=2, maxframes=6, depth=60, need=("traced/return",)),
             gen("call trace panic mock rec int var", num=600, trace=2, panic=2),
             gen("call trace go exit panic", num=400, trace=2, go=2),
             gen(ALL, num=300, trace=2)]),
    # goroutine-local values
    "C08": dict(
        mc=[mc("call tls go exit", NG=2, ids=0, frames=2, funcs=("F0",)), mc("tls go exit", NG=3, ids=0, frames=1, funcs=("F0",))],
        thorough=[mc("call tls go exit", NG=3, ids=0, frames=2, funcs=("F0",)), mc("tls go exit", NG=4, ids=0, frames=1, funcs=("F0",))],
        gen=[gen("tls go exit call", num=500, ng=6, go=3, tls=8, need=("val/tlsget",)),
             gen("tls go exit call mock panic trace rec", num=400, ng=5, go=3, tls=6),
             gen("tls go call exit free", num=400, ng=6, free=True, go=3, tls=8, depth=80)]),
}


def replay_of(s, dev, gi):
    return {"scenario": s, "deviation": dev, "globals": list(gi["globs"]), "free": gi["free"]}


def run_property(c):
    plan = PLAN[c.prop]
    c.assumptions += ["the test program's functions stand for user functions of their shape",
                      "lockstep: between two commands the other goroutines of the program are idle, except in the free-running groups"]
    drivers = variants()
    pool = cf.ThreadPoolExecutor(8)
    builds = [pool.submit(d.any_bin) for d in drivers[:1]]
    gens = []
    mult = 12 if X.THOROUGH else 1
    for i, gi in enumerate(plan["gen"]):
        w = weights(gi["feat"], **gi["over"])
        for k in range(4 if X.THOROUGH else 1):
            gens.append((gi, pool.submit(generate, "%s-%d-%d" % (c.prop, i, k), gi["feat"], w, gi["num"] * mult // (4 if X.THOROUGH else 1),
                                         gi["depth"], X.SEED * 1000 + i * 10 + k, gi["globs"], gi["ng"], gi["funcs"], gi["maxframes"], gi["maxid"])))
    mcs = [(m, pool.submit(model_check, i, m, 3)) for i, m in enumerate(plan["mc"] + (plan.get("thorough", []) if X.THOROUGH else []))]

    kinds = collections.Counter()
    distinct = set()
    runs = []
    for gi, f in gens:
        scen = f.result()
        have = collections.Counter()
        for s in scen:
            for st in s["steps"]:
                have["%s/%s" % (st["obs"][0], st["cmd"]["op"])] += 1
            distinct.add(json.dumps(s["steps"][:], sort_keys=True))
        for n in gi["need"]:
            if not have[n]:
                raise X.CheckError("generated behaviours never show %s" % n)
        kinds.update(have)
        runs.append((gi, scen))
    c.log("generated", sum(len(s) for _, s in runs))

    def confirm(d, gi, scen, devs):
        """a deviation counts when the full toolchain shows it too"""
        b = d.bin(False)
        ids = {v["scenario"] for v in devs}
        for gi_, again in ((gi, [s for s in scen if s["id"] in ids]), (gi, scen)):
            for _ in range(5 if gi["free"] else 1):
                _, dv = execute(b, again, gi["globs"], gi["free"])
                if dv:
                    return dv
        return []

    for d in drivers:
        b, fast = builds[0].result() if d is drivers[0] else d.any_bin()
        c.log("built", d.name, "fast" if fast else "full")
        for gi, scen in runs:
            for rep in range((3 if X.THOROUGH else 2) if gi["free"] else 1):
                done, devs = execute(b, scen, gi["globs"], gi["free"])
                c.add("traces_validated_against_impl", done["scenarios"])
                c.add("steps_compared", done["steps"])
                if devs and fast:
                    n = len(devs)
                    devs = confirm(d, gi, scen, devs)
                    if not devs:
                        c.add("unconfirmed_in_full_build", n)
                for v in devs[:10]:
                    s = next((s for s in scen if s["id"] == v["scenario"]), None)
                    c.violation("%s step %s of scenario %s: %s -> got `%s', specified `%s'" % (
                        d.name, v["step"], v["scenario"], v.get("cmd"), v["got"], v["want"]), replay_of(s, v, gi))
                if c.violations:
                    break
            if c.violations:
                break
    for m, f in mcs:
        r = f.result()
        c.add("states", r.distinct)
        c.add("transitions", r.generated)
        c.cov.setdefault("model_checked", []).append(dict(m, states=r.distinct, depth=r.depth))
    c.cov["distinct_behaviours"] = len(distinct)
    c.cov["observations"] = dict(kinds)
    for gi, scen in runs[:2]:
        if scen:
            c.sample({"features": gi["feat"], "steps": [[st["cmd"]["op"], st["cmd"]["g"], st["cmd"]["f"], st["obs"]] for st in scen[0]["steps"][:25]]})


CHECKS = {p: (run_property, "model_checking") for p in PLAN}
