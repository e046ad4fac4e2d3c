"""C10: whatever its declaration looks like, a function is found, mocked and
inspected as declared; decided with specs/funcs. TLC explores histories on a
family of declarations exhaustively and generates random declarations with
random histories; each is rendered as Go, built with xgo and run."""
import collections, json, os, shutil
import sig_render as R
import tlc
import xgoenv as X
from source_checks import need

INV = ["WellFormed", "Transparent", "BoundOnly", "Passed"]
MAXREF = 90  # functions of one package instrumented because they are referred to, see DESIGN.md


def model_check(c, places, bases, maxv, maxops, timeout=800):
    r = tlc.run("funcs", "MCSig", dict(Places=places, Bases=bases, GenBases={"gen1"}, Types={"int"}, Insts={"int"}, UInsts=set(), GTypes={"T"}, MaxParams=1, MaxResults=1,
                                       MaxV=maxv, MaxOps=maxops, Names={"a"}), invariants=INV, init="MCInit", next="Next", view="View",
                timeout=timeout, name="MCSig%s%d" % ("".join(sorted(bases)), maxops))
    tlc.must(r, "model checking funcs %s" % sorted(places))
    c.add("model_states", r.distinct)


def generate(name, num, seed, places, maxops, maxparams=4, maxresults=3):
    f = os.path.join(X.sub("gen"), name + ".jsonl")
    k = R.constants()
    k.update(Places=set(places), MaxParams=maxparams, MaxResults=maxresults, MaxV=3, MaxOps=maxops, OutFile=f)
    r = tlc.run("funcs", "GenSig", k, init="GenInit", next="GenNext", simulate="num=%d" % num, depth=20 + 4 * (maxparams + maxresults) + 4 * maxops,
                seed=seed, workers=1, timeout=800, heap="2g", name="Gen" + name)
    tlc.must(r, "generation " + name)
    return tlc.read_lines(f)


def run_program(c, x, name, behaviours):
    refs, bs = 0, []
    for b in behaviours:
        refs += b["d"]["place"] == "ref"
        if b["d"]["place"] != "ref" or refs <= MAXREF:
            bs.append(b)
    decls = [R.Decl(i, b) for i, b in enumerate(bs)]
    d = X.sub("sig-" + name)
    R.write(d, decls)
    exe = os.path.join(X.sub("exe"), name)
    e = X.base_env()
    e["GOFLAGS"] = "-mod=mod"
    p = X.run(["go", "build", "-o", exe + ".go", "./"], cwd=d, env=e, timeout=600, check=False)
    if p.returncode:
        raise X.CheckError("rendered program does not build:\n" + p.err[-4000:])
    x.build(d, exe, "./", ["--trap", "example.com/dep/..."])
    p = X.run([exe], cwd=d, env=X.base_env(), timeout=200, check=False)
    res = {}
    for line in p.out.splitlines():
        if line.startswith("{"):
            v = json.loads(line)
            res[v["prog"]] = v
    seen = collections.Counter()
    for g in decls:
        if g.i not in res:
            c.violation("the program died at %s: %s" % (g.text().strip(), p.err[-300:].replace("\n", " | ")), {"declaration": g.text(), "behaviour": g.b, "stderr": p.err[-4000:]})
            break
        bad = g.compare(res[g.i])
        if bad:
            seen["bad"] += 1
            if seen["bad"] <= 5:
                c.violation("%s in %s, operation %d: %s" % (g.text().strip().replace("\n", " / ")[:200], g.place, bad[0], bad[1]),
                            {"declaration": g.text(), "behaviour": g.b, "program": g.run(), "what": bad[1], "observed": res[g.i]})
        c.add("traces_validated_against_impl")
        c.add("steps_compared", len(g.b["ops"]))
        c.kinds["place/" + g.place] += 1
        c.kinds["base/" + (g.d["base"] or "func")] += 1
        for o in g.b["ops"]:
            c.kinds["op/" + o["op"]] += 1
            if o["op"] == "install":
                c.kinds["api/%s" % o["api"]] += 1
            for ev in o.get("evs", []):
                c.kinds["event/" + ev["ev"]] += 1
    shutil.rmtree(d, ignore_errors=True)


def run_sig(c):
    c.kinds = collections.Counter()
    model_check(c, {"dep"}, {"struct"}, 1, 2)
    model_check(c, {"ref"}, {"gen1"}, 1, 2)
    if X.THOROUGH:
        model_check(c, {"dep"}, {"struct"}, 2, 2)
    c.log("model checked")
    x = X.Xgo("sig", True, False)
    c.log("xgo built")
    for k in range(6 if X.THOROUGH else 1):
        bs = generate("sig%d" % k, 1000 if X.THOROUGH else 380, X.SEED * 131 + k, R.PLACES, 9 if X.THOROUGH else 7, *((5, 4) if X.THOROUGH else ()))
        run_program(c, x, "sig%d" % k, bs)
        c.log("program %d ran" % k)
    need(c.kinds, ["place/" + p for p in R.PLACES] + ["base/" + b for b in list(R.BASE) + ["func"]] + ["event/" + e for e in ("pre", "mock", "body", "post", "ret", "panic")]
         + ["api/" + a for a in ("patch", "mock", "patchName", "mockName", "patchMethod", "mockMethod", "call", "result", "record", "intercept")])
    c.cov["by_kind"] = dict(c.kinds)


CHECKS = {"C10": (run_sig, "model_checking")}
