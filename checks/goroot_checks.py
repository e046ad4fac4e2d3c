"""C13: set-ups of the instrumented GOROOT, decided with specs/goroot. TLC
explores every history of set-ups killed at any write for the design, and
generates histories; the real xgo (two revisions of it, built over a package os
that counts, refuses and interrupts writes) runs them on small GOROOTs whose go
command is a stand-in, and TLC checks what was recorded."""
import collections, hashlib, json, os, random, re, shutil, signal, stat, subprocess
from concurrent.futures import ThreadPoolExecutor
import tlc
import oshook
import xgoenv as X

REVS = ["A", "B"]
ORIGS = ["o1", "o2"]
ALL = ["o1", "o2", "o3", "o4"]
# names that are hard to tell apart
NAMES = {"o1": "sdk-Xa+1/go1.27.3", "o2": "sdk-xa+1/go1.27.3", "o3": "sdk-Xa_1/go1.27.3", "o4": "sdk-Xa+1/lib/go1.27.3"}
CLASSES = ["rev", "record", "bin", "tool", "src", "src", "patched", "cache", "copy", "extract", "local", "any", "any"]
EXTRA = ["src/runtime/extern.go", "src/time/tick.go", "src/cmd/go/go_test.go", "src/cmd/compile/main.go", "src/cmd/compile/internal/typecheck/mkbuiltin.go",
         "src/cmd/compile/internal/typecheck/builtin.go", "src/cmd/compile/internal/typecheck/_builtin/runtime.go", "src/cmd/cover/doc.go", "VERSION", "LICENSE",
         "src/errors/errors.go", "src/cmd/go.mod", "src/go.mod"]


def patchdir():
    return os.path.join(X.REPO, "patches/go1.27")


def revision_overlay(r):
    """overlay that makes the tree another revision of xgo"""
    mapping, _ = X.asset_state()
    rep = {os.path.join(X.REPO, "cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go"): os.path.join(X.VERIF, "lib/stubs/collate_tables.go")}
    if os.path.exists(next(iter(rep))):
        rep = {}
    rep.update(mapping)
    d = X.sub("rev-" + r)
    hit = 0
    for f in sorted(os.listdir(os.path.join(X.REPO, "cmd/xgo"))):
        p = os.path.join(X.REPO, "cmd/xgo", f)
        if f.endswith(".go") and not f.endswith("_test.go"):
            s = open(p).read()
            t, n = re.subn(r'(CORE_REVISION\s*(?:string\s*)?=\s*")([^"]*)"', r'\g<1>\g<2>-verif%s"' % r, s)
            if n:
                hit += n
                open(os.path.join(d, f), "w").write(t)
                rep[p] = os.path.join(d, f)
    if hit != 1:
        raise X.CheckError("%d declarations of CORE_REVISION" % hit)
    if r == "B":
        k = 0
        inv = collections.defaultdict(list)
        for a, s in mapping.items():
            inv[s].append(a)

        def put(asset, text):
            nonlocal k
            k += 1
            o = os.path.join(d, "f%d" % k)
            open(o, "w").write(text)
            rep[asset] = o
        for s, assets in sorted(inv.items()):
            for a in assets:
                b, base = os.path.relpath(s, X.REPO), os.path.basename(s)
                if b.startswith("patches/go1.27/") and b.endswith("xgo_trap.go") or b == "patch/patch.go":
                    put(a, open(s).read() + "\n// verif B\n")  # changed
                elif b.startswith("patches/go1.27/") and base == "xgo_testinfo.go":
                    rep[a] = ""  # gone
                elif b.startswith("patches/go1.27/") and b.endswith(".xgo.patch") and "/*xgo_instrumented*/" in open(s).read():
                    put(a, open(s).read().replace("/*xgo_instrumented*/", "/*xgo_instrumented B*/"))
                elif b == "patch/patch.go":
                    pass
        ad = os.path.join(X.REPO, "cmd/xgo/asset")
        put(os.path.join(ad, "patches/go1.27/src/time/tick.go.xgo.patch"), "<patch verif_b>\nfind_for_replace type Ticker struct {\nreplace type Ticker struct { /* B */\n</patch>\n")
        put(os.path.join(ad, "patches/go1.27/src/cmd/go/xgo_verif_b.go.txt"), "package main\n\n// only in B\n")
        put(os.path.join(ad, "compiler_patch_gen/funcs/verif_b.go"), "package funcs\n\n// only in B\n")
    return rep


def build(c):
    hook = oshook.overlay()
    out = {}

    def one(r):
        d = X.sub("gbin")
        ov = os.path.join(d, r + ".json")
        rep = dict(hook)
        cwd, pkg = X.REPO, "./cmd/xgo"
        if r == "go":
            cwd, pkg = X.sub("fakego"), "./"
            shutil.copy(os.path.join(X.VERIF, "drivers/goroot/fakego.go"), os.path.join(cwd, "main.go"))
            open(os.path.join(cwd, "go.mod"), "w").write("module fakego\n\ngo 1.18\n")
        else:
            rep.update(revision_overlay(r))
        json.dump({"Replace": rep}, open(ov, "w"))
        out[r] = os.path.join(d, r)
        X.run(["go", "build", "-ldflags=-s -w", "-overlay", ov, "-o", out[r], pkg], cwd=cwd, timeout=500)
    one("go")
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, REVS))
    return out


def make_goroot(d, name, fakego):
    """a GOROOT with the files that xgo touches, and a few others"""
    files = set(EXTRA)
    for root, _, fs in os.walk(patchdir()):
        for f in fs:
            if f.endswith(".xgo.patch"):
                files.add(os.path.relpath(os.path.join(root, f), patchdir())[:-len(".xgo.patch")])
    for f in sorted(files):
        s = os.path.join(X.GOROOT_BASE, f)
        if os.path.exists(s):
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            shutil.copyfile(s, os.path.join(d, f))
    code = open(fakego, "rb").read()
    for p, tr in (("bin/go", "orig go"), ("pkg/tool/linux_amd64/compile", "orig compile"), ("pkg/tool/linux_amd64/link", "orig link")):
        os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
        with open(os.path.join(d, p), "wb") as f:
            f.write(code if p == "bin/go" else b"tool\n")
            f.write(b"\nXGOVBUILT:%s:END\n" % tr.encode())
        os.chmod(os.path.join(d, p), 0o755)
    open(os.path.join(d, "src/runtime/which.go"), "w").write("package runtime\n\n// %s\n" % name)
    os.makedirs(os.path.join(d, "misc/empty"))
    open(os.path.join(d, "misc/ro.txt"), "w").write("read only " + name)
    os.chmod(os.path.join(d, "misc/ro.txt"), 0o444)
    os.symlink("ro.txt", os.path.join(d, "misc/link"))
    open(os.path.join(d, "misc/zero"), "w").close()


def tree_id(d):
    """content of a tree: names, kinds, contents"""
    if not os.path.lexists(d):
        return "none"
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for n in list(dirs):
            if os.path.islink(os.path.join(root, n)):
                files.append(n)
                dirs.remove(n)
        rel = os.path.relpath(root, d)
        h.update(("D %s\n" % rel).encode())
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p):
                h.update(("L %s/%s %s\n" % (rel, f, os.readlink(p))).encode())
            else:
                b = open(p, "rb").read()
                h.update(("F %s/%s %d\n" % (rel, f, len(b))).encode())
                h.update(b)
    return h.hexdigest()[:16]


def stat_id(d):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files) + dirs:
            s = os.lstat(os.path.join(root, f))
            h.update(("%s %s %o %d %d\n" % (root[len(d):], f, s.st_mode, s.st_size if not stat.S_ISDIR(s.st_mode) else 0, s.st_mtime_ns)).encode())
    return h.hexdigest()[:16]


def diff(a, b):
    p = subprocess.run(["diff", "-rq", "--no-dereference", a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return [x.replace(a, "<expected>").replace(b, "<got>") for x in p.stdout.splitlines()[:6]]


class World:
    """the disk a history runs on"""

    def __init__(self, root, goroots, bins):
        self.root, self.bins, self.orig = root, bins, goroots
        for s in ("home", "tmp", "proj", "x"):
            os.makedirs(os.path.join(root, s))
        open(os.path.join(root, "proj/go.mod"), "w").write("module p\n\ngo 1.18\n")
        self.goroot = {}

    def idir(self, o):
        g = self.orig[o]
        # the directory named after the original GOROOT
        base = os.path.join(self.root, "home/.xgo/go-instrument")
        sums = hashlib.md5(g.encode()).hexdigest()[:8]
        for n in (os.listdir(base) if os.path.isdir(base) else []):
            if n.endswith("_" + sums):
                return os.path.join(base, n)
        return None

    def tree(self, o):
        d = self.idir(o)
        if not d:
            return None
        for n in sorted(os.listdir(d)):
            if os.path.isdir(os.path.join(d, n)) and n.startswith("go1"):
                return os.path.join(d, n)
        return None

    def caches(self, o):
        out = []
        for root, dirs, files in os.walk(os.path.join(self.root, "tmp")):
            for f in files:
                if f.startswith("marker-%s-" % o):
                    out.append(f[-1])
        return sorted(set(out))

    def mark(self, o, r):
        d = self.idir(o)
        if not d:
            return
        sums = hashlib.md5(d.encode()).hexdigest()[:8]
        for root, dirs, files in os.walk(os.path.join(self.root, "tmp")):
            if root.endswith("_" + sums):
                dirs[:] = [x for x in dirs if x == "build-cache"]
            if os.path.basename(root) == "build-cache" and os.path.dirname(root).endswith("_" + sums):
                open(os.path.join(root, "marker-%s-%s" % (o, r)), "w").close()
                dirs[:] = []

    def run(self, kind, r, o, at=None, mode=None, deny=None):
        x = os.path.join(self.root, "x")
        for f in ("log", "count", "denied"):
            if os.path.exists(os.path.join(x, f)):
                os.unlink(os.path.join(x, f))
        e = X.base_env(os.path.join(self.root, "home"))
        e.update(TMPDIR=os.path.join(self.root, "tmp"), XGOV_DIR=x, XGOV_ROOT=":".join(os.path.join(self.root, s) for s in ("home", "tmp", "proj")) + ":" + os.path.dirname(os.path.dirname(self.orig["o1"])),
                 PATH=self.orig[o] + "/bin:/usr/bin:/bin")
        if at is not None:
            e.update(XGOV_AT=str(at), XGOV_MODE=mode)
        if deny:
            e["XGOV_DENY"] = os.path.normpath(os.path.join(self.orig[o], deny))
        g = self.orig[o] if kind != "again" else self.tree(o)
        cmd = [self.bins[r]] + {"setup": ["setup"], "exec": ["exec"], "reset": ["setup", "--reset-instrument"], "delete": ["setup", "--delete"],
                               "again": ["setup", "--reset-instrument"]}[kind] + ["--with-goroot", g]
        if kind == "exec":
            cmd += ["go", "version"]
        p = subprocess.Popen(cmd, cwd=os.path.join(self.root, "proj"), env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             errors="replace", start_new_session=True)
        try:
            out, err = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            return "hangs", [], out, err
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        lf = os.path.join(x, "log")
        log = [l.split("\t") for l in open(lf, errors="replace").read().splitlines()] if os.path.exists(lf) else []
        log = [l for l in log if len(l) == 2]
        outcome = "finished" if p.returncode == 0 else "killed" if p.returncode == -9 else "failed"
        return outcome, log, out, err

    def classify(self, op, path):
        rel = os.path.relpath(path, self.root).split("/")
        if rel[0] == "proj":
            return "local"
        if rel[0] == "tmp":
            return "cache" if "build-cache" in rel or rel[1:2] == ["xgo"] else "extract"
        if rel[:3] == ["home", ".xgo", "go-instrument"] and len(rel) > 4:
            if rel[4].startswith("go1"):
                if op in ("mkdir", "symlink"):
                    return "copy"
                return {"bin": "bin", "pkg": "tool", "src": "src"}.get(rel[5] if len(rel) > 5 else "", "copy")
            return "rev" if "revision" in rel[4] else "record"
        return "other"

    def snapshot(self, to):
        w = World.__new__(World)
        w.root, w.bins, w.orig, w.goroot = to, self.bins, self.orig, {}
        subprocess.run(["cp", "-a", self.root, to], check=True)
        return w


def choose(rnd, log, w, step):
    """number of the operation the step is to be hit at"""
    want = step["class"]
    idx = []
    seen = collections.Counter()
    for i, (op, path) in enumerate(log):
        cl = w.classify(op, path)
        seen[path] += op == "open"
        if want == "any" or cl == want or want == "patched" and cl == "src" and seen[path] > 1:
            if op.startswith("escape"):
                continue
            idx.append(i + 1)
    if not idx:
        return None
    n = len(idx)
    k = {"first": 0, "second": min(1, n - 1), "mid": n // 2, "late": n - min(n, 4), "last": n - 1}.get(step["pos"], rnd.randrange(n))
    return idx[k]


def play(c, hist, root, goroots, bins, fresh, freshtree, rnd):
    os.makedirs(root)
    w = World(os.path.join(root, "w"), goroots, bins)
    before = {o: (tree_id(g), stat_id(g)) for o, g in goroots.items()}
    known = {o: None for o in ALL}  # revision that finished last, if nothing happened since
    rec = []
    try:
        for st in hist:
            kind, r, o = st["kind"], st["rev"], st["orig"]
            if kind == "again" and known[o] != r:
                # only a GOROOT that is complete can be given to xgo
                kind = "setup"
            hit, at = st["hit"], None
            deny = st.get("deny")
            if deny:
                at = 0
            elif hit != "none":
                # rehearse on a copy, to learn which operations there are. The
                # copy lies at the same path, as names depend on it
                keep = os.path.join(root, "keep")
                w.snapshot(keep)
                _, log, _, _ = w.run(kind, r, o)
                at = st.get("at") or choose(rnd, log, w, st)
                shutil.rmtree(w.root)
                os.rename(keep, w.root)
                if at is None or at > len(log):
                    hit, at = "none", None
            outcome, log, out, err = w.run(kind, r, o, at or None, {"kill": "before", "torn": "torn", "error": "error"}.get(hit), deny)
            esc = [l for l in log if l[0].startswith("escape")]
            where = "%s %s" % (log[at - 1][0], os.path.relpath(log[at - 1][1], w.root)) if at and at <= len(log) else "reading %s of the original GOROOT" % deny if deny else ""
            t = w.tree(o)
            tid = tree_id(t) if t else "none"
            if kind == "delete" and w.idir(o):
                tid = "directory left"
            name = fresh.get(tid, tid)
            now = {x: (tree_id(g), stat_id(g)) for x, g in goroots.items()}
            x = dict(kind=kind, rev=r, orig=o, hit=hit, at=at or 0, where=where, outcome=outcome, tree=name, untouched=now == before, escapes=len(esc), caches=w.caches(o))
            d = []
            if outcome == "finished":
                if kind != "delete":
                    if name != "%s-%s" % (o, r):
                        d = diff(freshtree["%s-%s" % (o, r)], t) if t else ["no GOROOT"]
                    w.mark(o, r)
                    known[o] = r
                else:
                    known[o] = None
            else:
                known[o] = None
            x["note"] = (err.strip().splitlines() or [""])[-1][:200] if outcome == "failed" else "; ".join(d)[:600] if d else esc[0][1] if esc else ""
            rec.append(x)
            if not x["untouched"]:
                break
            good = not esc and (outcome == "finished" and not d and all(m == r for m in x["caches"]) or outcome == "killed" and hit in ("kill", "torn") or outcome == "failed" and hit == "error")
            if not good:
                break
    finally:
        subprocess.run(["chmod", "-R", "u+w", root], stderr=subprocess.DEVNULL)
        shutil.rmtree(root, ignore_errors=True)
    return {"steps": rec}


def describe(steps, i):
    def one(x):
        s = {"setup": "xgo setup", "exec": "xgo exec", "reset": "xgo setup --reset-instrument", "delete": "xgo setup --delete", "again": "xgo setup --reset-instrument in the instrumented GOROOT"}[x["kind"]]
        s += " by revision %s for %s" % (x["rev"], x["orig"])
        if x["hit"] != "none":
            s += ", %s at operation %d (%s)" % ({"kill": "killed", "torn": "killed", "error": "error"}[x["hit"]], x["at"], x["where"])
        return s + ": " + x["outcome"]
    x = steps[i]
    return " | ".join(one(y) for y in steps[:i + 1]) + "; GOROOT %s%s%s%s" % (
        x["tree"], "" if x["untouched"] else ", the original GOROOT was changed", ", wrote outside of its directories" if x["escapes"] else "",
        " (%s)" % x["note"] if x["note"] else "") + (", build caches of %s" % x["caches"] if any(m != x["rev"] for m in x["caches"]) else "")


def model_check(c):
    k = dict(Revs=set(REVS), MaxOps=4 if X.THOROUGH else 3)
    r = tlc.run("goroot", "MCGoroot", k, init="Init", next="Next", invariants=["Inv"], timeout=800)
    tlc.must(r, "model checking goroot")
    c.add("model_states", r.distinct)


def run(c):
    model_check(c)
    bins = build(c)
    base = X.sub("gw")
    goroots = {}
    for o in ALL:
        goroots[o] = os.path.join(base, "orig", NAMES[o])
        os.makedirs(goroots[o])
        make_goroot(goroots[o], o, bins["go"])
    # what each revision makes from scratch
    fresh, freshtree = {}, {}
    ids = {}
    for o in ALL:
        for r in REVS if o in ORIGS else "A":
            os.makedirs(os.path.join(base, "f"), exist_ok=True)
            w = World(os.path.join(base, "f", o + r), goroots, bins)
            before = tree_id(goroots[o]), stat_id(goroots[o])
            outcome, log, out, err = w.run("setup", r, o)
            if outcome != "finished" or not w.tree(o):
                c.violation("the first set-up of %s by revision %s: %s (%s)" % (o, r, outcome, err.strip()[-400:]), {"out": out, "err": err, "log": log[-20:]}, key="first")
                return
            if (tree_id(goroots[o]), stat_id(goroots[o])) != before:
                c.violation("the first set-up of %s by revision %s changed the original GOROOT" % (o, r), {"log": log}, key="first")
                return
            t = tree_id(w.tree(o))
            ids["%s-%s" % (o, r)] = t
            fresh[t] = "%s-%s" % (o, r)
            freshtree["%s-%s" % (o, r)] = w.tree(o)
            nops = len(log)
    if len(fresh) != 6:
        raise X.CheckError("the GOROOTs of revisions do not differ: %s" % ids)
    c.add("file_operations_of_a_set_up", nops)
    # histories from the specification
    f = os.path.join(X.sub("gen"), "goroot.jsonl")
    num = 700 if X.THOROUGH else 150
    r = tlc.run("goroot", "GenGoroot", dict(Revs=set(REVS), Origs=set(ORIGS), Classes=set(CLASSES), Hist={2, 3, 4, 5}, OutFile=f), simulate="num=%d" % num, depth=40,
                seed=X.SEED, workers=1, timeout=300)
    tlc.must(r, "generation goroot")
    hists = tlc.read_lines(f)
    for h in hists:
        # the last step is not disturbed: it shows what the others have left
        if h[-1]["kind"] == "delete":
            h[-1]["kind"] = "setup"
        h[-1]["hit"] = "none"
    # every operation of some set-ups, one history each
    S = lambda kind, r, hit="none", at=0: dict(kind=kind, rev=r, orig="o1", hit=hit, at=at, **{"class": "any", "pos": "random"})
    step = 4 if X.THOROUGH else 13
    rnd = random.Random(X.SEED)
    off = rnd.randrange(step) if step > 1 else 0
    n2 = int(nops * 1.4)
    for at in range(1 + off, nops + 1, step):
        hists.append([S("setup", "A", rnd.choice(["kill", "torn", "torn"]), at), S("setup", rnd.choice("AB"))])
        hists.append([S("setup", "A", "error", at), S("setup", "A")])
    for at in range(1 + off, n2, step):
        hists.append([S("setup", "A"), S("setup", "B", rnd.choice(["kill", "torn", "torn"]), at), S("setup", rnd.choice("AAB"))])
        hists.append([S("setup", "A"), S(rnd.choice(["reset", "reset", "delete"]), "A", rnd.choice(["kill", "torn", "error"]), at), S("setup", "A")])
    # GOROOTs next to each other
    for a, b in [(a, b) for a in ALL for b in ALL if a != b]:
        hists.append([dict(S("setup", "A"), orig=a), dict(S("setup", "A"), orig=b)] + ([dict(S("delete", "A"), orig=a), dict(S("exec", "A"), orig=b)] if a < b else []))
    # a deletion cut off near its ends and where the build cache goes
    for cl, pos in [("cache", "first"), ("cache", "second"), ("cache", "mid"), ("cache", "last"), ("record", "first"), ("record", "last"), ("any", "first"), ("any", "last"), ("any", "late")]:
        for hit in ("kill", "error"):
            for r in REVS:
                hists.append([S("setup", "A"), dict(S("delete", "A", hit), **{"class": cl, "pos": pos}), S("setup", r)])
    # parts of the original GOROOT that cannot be read
    files = sorted(os.path.relpath(os.path.join(a, n), goroots["o1"]) for a, b, fs in os.walk(goroots["o1"]) for n in fs + b if n not in ("link", "go", "bin"))
    for f in ["src", "src/runtime", "misc/ro.txt", "pkg/tool/linux_amd64/compile", ".", "src/cmd/compile"] + [rnd.choice(files) for _ in range(40 if X.THOROUGH else 6)]:
        hists.append([dict(S("setup", "A", "error"), deny=f), S("setup", "A")])
        hists.append([S("setup", "A"), dict(S(rnd.choice(["setup", "exec"]), "B", "error"), deny=f), S("setup", "B")])
    rnds = [random.Random(X.SEED * 100003 + i) for i in range(len(hists))]
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(lambda i: play(c, hists[i], os.path.join(base, "h%d" % i), goroots, bins, fresh, freshtree, rnds[i]), range(len(hists))))
    inf, outf = os.path.join(X.sub("gen"), "gr_in.jsonl"), os.path.join(X.sub("gen"), "gr_out.jsonl")
    with open(inf, "w") as fo:
        for x in recs:
            fo.write(json.dumps(x) + "\n")
    r = tlc.run("goroot", "TraceGoroot", dict(InFile=inf, OutFile=outf), init="TInit", next="TNext", workers=1, timeout=300)
    tlc.must(r, "checking goroot")
    res = tlc.read_lines(outf)
    if len(res) != len(recs):
        raise X.CheckError("checked %d of %d histories" % (len(res), len(recs)))
    seen = collections.Counter()
    for v in res:
        if v["bad"]:
            steps = recs[v["i"] - 1]["steps"]
            x = steps[v["bad"] - 1]
            kind = (x["outcome"], x["tree"] == "none", x["untouched"], x["escapes"] > 0, steps[v["bad"] - 2]["outcome"] if v["bad"] > 1 else "", x["hit"])
            seen[kind] += 1
            if seen[kind] <= 2:
                c.violation(describe(steps, v["bad"] - 1), {"steps": steps})
    c.add("histories", len(recs))
    for x in recs:
        c.add("operations", len(x["steps"]))
        for s in x["steps"]:
            c.add("outcome_" + s["outcome"])
        c.sample(x["steps"])


CHECKS = {"C13": (run, "model_checking")}
