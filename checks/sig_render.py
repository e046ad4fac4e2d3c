"""Renders behaviours of specs/funcs (one declaration and a history of
operations on it each) as a Go program, and compares what it observes."""
import os, shutil
import xgoenv as X

TY = dict(int="int", string="string", bool="bool", error="error", ctx="context.Context", any="any", iface="hh.I", ptr="*hh.S",
          slice="[]int", map="map[string]int", func="func() int", sfunc="func(hh.S, ...string) (int, error)", struct="hh.S",
          arr="[2]int", chan="chan int", rchan="<-chan int", anon="struct{ A int }", dur="time.Duration", gen="hh.G[int]",
          pptr="**hh.S", eptr="*hh.E", cctx="hh.C", T="T", sT="[]T", pT="*T", mT="map[string]T", fT="func(T) T", gT="hh.G[T]")
TYPES = [t for t in TY if "T" not in t]
GTYPES = [t for t in TY if "T" in t]
BASE = dict(struct="struct {\n\tV int\n\tw string\n}", int="int", str="string", slice="[]int", map="map[string]int", fn="func() int",
            arr="[2]int", ustruct="struct {\n\tV int\n\tS []int\n}", gen1="struct{ V T }", gen2="struct {\n\tA T\n\tB U\n}", gsl="[]T", gmap="map[string]T")
GENBASES = ["gen1", "gen2", "gsl", "gmap"]
TPDECL = {"gen1": "[T any]", "gen2": "[T comparable, U any]", "gsl": "[T any]", "gmap": "[T any]"}
PLACES = dict(main=("m", "main"), sub=("m/sub", "sub"), dep=("example.com/dep", "dep"), ref=("example.com/ref.v3", "ref"))
NAMES = ["a", "b", "err", "ctx", "args", "len", "fn", "trap", "name", "x1", "recv"]

INST = dict(int="int", string="string", slice="[]int", gen="hh.G[int]", gen2="hh.G[hh.G[string]]", ptr="*hh.S", map="map[string]int", func="func() int",
            anon="struct{ A int }", dur="time.Duration", iface="hh.I", err="error", arr="[2]int", chan="<-chan int", any="interface{}")


def constants():
    return dict(Insts=set(INST), UInsts={"slice", "map", "func"}, Places=set(PLACES), Bases=set(BASE), GenBases=set(GENBASES), Types=set(TYPES), GTypes=set(GTYPES), Names=set(NAMES))


class Decl:
    def __init__(self, i, b):
        self.i, self.b = i, b
        d = self.d = b["d"]
        self.place = d["place"]
        self.path, self.pkg = PLACES[self.place]
        self.fn = ("F%d" if d["exported"] else "f%d") % i
        self.rt = "R%d" % i
        self.generic = d["tps"] > 0 or d["base"] in GENBASES
        # where the history runs: functions that are not exported can be reached in their package only
        self.home = self.place if not d["exported"] else "main"
        self.q = "" if self.home == self.place else self.pkg + "."
        self.insts = {"gen1": [INST[d["inst"]]], "gen2": [INST[d["inst"]], "int"], "gsl": [INST[d["inst"]]], "gmap": [INST[d["inst"]]]}.get(d["base"], [])
        if d["tps"]:
            self.insts = [INST[d["inst"]], "string"][:d["tps"]]
        self.inst = "[%s]" % ", ".join(self.insts) if self.insts else ""

    # types as seen by a caller: the type parameters are instantiated
    def conc(self, ty):
        t = TY[ty]
        if ty in GTYPES:
            t = t.replace("T", INST[self.d["inst"]])
        return t

    def ptypes(self, conc):
        f = self.conc if conc else TY.__getitem__
        r = [f(p["ty"]) for p in self.d["params"]]
        if self.d["variadic"]:
            r[-1] = "[]" + r[-1]
        return r

    def rtypes(self, conc):
        f = self.conc if conc else TY.__getitem__
        return [f(p["ty"]) for p in self.d["results"]]

    @property
    def recv(self):
        """the receiver type as seen by a caller"""
        t = self.q + self.rt + self.inst
        return "*" + t if self.d["ptr"] else t

    def fields(self, which):
        d, fs, out = self.d, self.d[which], []
        named = d["pnamed"] if which == "params" else d["rnamed"]
        for i, f in enumerate(fs):
            t = TY[f["ty"]]
            last = which == "params" and d["variadic"] and i == len(fs) - 1
            if last:
                t = "..." + t
            if not named:
                out.append(t)
            elif d["pgroup"] and i + 1 < len(fs) and fs[i + 1]["ty"] == f["ty"] and not (which == "params" and d["variadic"] and i + 1 == len(fs) - 1) and not last:
                out.append(f["nm"])
            else:
                out.append(f["nm"] + " " + t)
        return ", ".join(out)

    def text(self):
        d = self.d
        out = []
        rc = ""
        if d["method"]:
            tp = {"gen1": "[T]", "gen2": "[T, U]", "gsl": "[T]", "gmap": "[T]"}.get(d["base"], "")
            out.append("type %s%s %s\n" % (self.rt, TPDECL.get(d["base"], ""), BASE[d["base"]]))
            rc = "(%s%s%s%s) " % (d["rname"] + " " if d["rname"] else "", "*" if d["ptr"] else "", self.rt, tp)
        tps = ["", "[T any]", "[T, U any]"][d["tps"]]
        res = self.fields("results")
        if len(d["results"]) > 1 or (res and d["rnamed"]):
            res = "(%s)" % res
        vis = lambda n: "&" + n if n not in ("", "_") else "hh.Skip"
        rv = [("hh.R[%s](%d)" % (t, i)) for i, t in enumerate(self.rtypes(False))]
        names = [f["nm"] for f in d["results"]]
        body = ["hh.Log(%s, %s, []any{%s}, nil)" % ('"body"', vis(d["rname"]), ", ".join(vis(p["nm"]) for p in d["params"]))]
        if names and all(n not in ("", "_") for n in names) and self.i % 2:
            body += ["%s = %s" % x for x in zip(names, rv)] + ["return"]
        elif rv:
            body.append("return " + ", ".join(rv))
        lead = ["", "// %s is declared here\n" % self.fn, "/* block */ "][self.i % 3]
        out.append("%sfunc %s%s%s(%s) %s{%s}\n" % (lead, rc, self.fn, tps, self.fields("params"), res + " " if res else "",
                                                  (" " + "; ".join(body) + " ") if self.i % 5 == 0 else "\n\t" + "\n\t".join(body) + "\n"))
        return "\n".join(out)

    # ------------------------------------------------------------ the history
    def expr(self):
        """T.M or F"""
        if not self.d["method"]:
            return self.q + self.fn + self.inst
        t = self.q + self.rt + self.inst
        return ("(*%s).%s" if self.d["ptr"] else "%s.%s") % (t, self.fn)

    def sig(self, recv, names=True):
        ps = self.ptypes(True)
        if self.d["variadic"]:
            ps[-1] = "..." + ps[-1][2:]
        if recv:
            ps = [self.recv] + ps
        ns = (["r"] if recv else []) + ["a%d" % i for i in range(len(self.d["params"]))]
        rs = self.rtypes(True)
        return "(%s)%s" % (", ".join("%s %s" % (n, p) if names else p for n, p in zip(ns, ps)), " (%s)" % ", ".join(rs) if rs else "")

    def install(self, o):
        d, api = self.d, o["api"]
        out, byinst = [], o["inst"] != -1
        wants = d["method"] and not byinst  # does the handler get the receiver?
        ref = None
        if o["form"] == "bound":
            out.append("var x %s = hh.Mk[%s](%d)" % (self.recv, self.recv, o["inst"]))
            ref = "x." + self.fn
        elif o["form"] in ("expr", "func"):
            ref = self.expr()
        ident = self.ident
        if o["slot"] == "mock":
            if api.startswith("patch"):
                h = "func%s {\nhh.Log(\"mock\", %s, []any{%s}, nil)\n%s}" % (
                    self.sig(wants), "&r" if wants else "hh.Skip", ", ".join("&a%d" % i for i in range(len(d["params"]))),
                    "return %s\n" % ", ".join("hh.R[%s](%d)" % (t, i) for i, t in enumerate(self.rtypes(True))) if d["results"] else "")
            else:
                byname = all(f["nm"] not in ("", "_") for f in d["results"])
                h = "func(ctx context.Context, f *core.FuncInfo, args, res core.Object) error {\nhh.LogI(\"mock\", %s, ctx, f, args, res)\nhh.Give(res, %s)\nreturn hh.Err()\n}" % (
                    str(wants).lower(), str(byname).lower())
            call = {"patch": "mock.Patch(%s, %s)" % (ref, h), "mock": "mock.Mock(%s, %s)" % (ref, h),
                    "patchName": "mock.PatchByName(%s, %s, %s)" % (self.pkgq, ident, h), "mockName": "mock.MockByName(%s, %s, %s)" % (self.pkgq, ident, h),
                    "patchMethod": "mock.PatchMethodByName(hh.Mk[%s](%d), %s, %s)" % (self.recv, o["inst"], '"%s"' % self.fn, h),
                    "mockMethod": "mock.MockMethodByName(hh.Mk[%s](%d), %s, %s)" % (self.recv, o["inst"], '"%s"' % self.fn, h)}[api]
        elif api == "intercept":
            args = (str(wants).lower(), 1 if wants else 0)
            call = ("trap.AddFuncInterceptor(%s, &trap.Interceptor{\nPre: func(ctx context.Context, f *core.FuncInfo, args, res core.Object) (any, error) {\nhh.LogI(\"pre\", %s, ctx, f, args, res)\nhh.SetField(args, %d, true)\n"
                    "if hh.Cur.Stop {\nreturn nil, trap.ErrMocked\n}\nreturn \"data\", nil\n},\nPost: func(ctx context.Context, f *core.FuncInfo, args, res core.Object, data any) error {\nhh.LogI(\"post\", %s, ctx, f, args, res)\nhh.SetField(res, 0, false)\n"
                    "if data != \"data\" {\npanic(\"data lost\")\n}\nreturn nil\n},\n})") % (ref, args[0], args[1], args[0])
        else:
            ts = ([self.recv] if wants else []) + self.ptypes(True) + self.rtypes(True)
            ns = (["r"] if wants else []) + ["a%d" % i for i in range(len(d["params"]))] + ["q%d" % i for i in range(len(d["results"]))]
            star, amp = ("*", "") if o["ptrs"] else ("", "&")

            def handler(ev):
                b = "hh.Log(\"%s\", %s, []any{%s}, []any{%s})\n" % (ev, amp + "r" if wants else "hh.Skip", ", ".join(amp + n for n in ns if n[0] == "a"), ", ".join(amp + n for n in ns if n[0] == "q"))
                if o["ptrs"]:
                    for n in ns:
                        if n[0] == ("a" if ev == "pre" else "q"):
                            b += "hh.SetPtr(%s, %s, %s)\n" % (n[1:], "true" if ev == "pre" else "false", n)
                return "func(%s) {\n%s}" % (", ".join("%s %s%s" % (n, star, t) for n, t in zip(ns, ts)), b)
            call = {"call": "trace.RecordCall(%s, %s)" % (ref, handler("pre")), "result": "trace.RecordResult(%s, %s)" % (ref, handler("post")),
                    "record": "trace.Record(%s, %s, %s)" % (ref, handler("pre"), handler("post"))}[api]
        out.append("%s = %s" % (o["slot"], call))
        return out

    @property
    def pkgq(self):
        return '"%s"' % self.path

    @property
    def ident(self):
        return '"%s"' % self.identity

    @property
    def identity(self):
        if not self.d["method"]:
            return self.fn
        return ("(*%s).%s" if self.d["ptr"] else "%s.%s") % (self.rt, self.fn)

    def call(self, o):
        d = self.d
        n = len(d["params"])
        out = ["hh.Cur.Ret, hh.Cur.E, hh.Cur.SetI, hh.Cur.SetArg, hh.Cur.SetRes, hh.Cur.Stop = []int{%s}, %d, %d, %d, %d, %s" % (
            ", ".join(map(str, o["ret"])), o["e"], o["seti"], o["setarg"], o["setres"], str(o["stop"]).lower())]
        args = ["hh.Mk[%s](%d)" % (t, v) for t, v in zip(self.ptypes(True), o["args"])]
        if d["variadic"]:
            args[-1] += "..."
        cf = o["cf"]
        if d["method"]:
            out.append("x := hh.Mk[%s](%d)" % (self.recv, o["inst"]))
        f = "x." + self.fn if d["method"] else self.expr()
        if cf == "value":
            out.append("f := " + f)
            f = "f"
        elif cf == "expr":
            f, args = self.expr(), ["x"] + args
        elif cf == "iface":
            out.append("var i interface{ %s%s } = %s" % (self.fn, self.sig(False, False), "&x" if not d["ptr"] and o["inst"] == 2 else "x"))
            f = "i." + self.fn
        elif cf == "embed":
            pass
        rs = ["q%d" % i for i in range(len(d["results"]))]
        call = "%s(%s)" % (f, ", ".join(args))
        log = "hh.Log(\"ret\", hh.Skip, nil, []any{%s})" % ", ".join("&" + r for r in rs)
        direct = "%s%s\n%s" % ("%s := " % ", ".join(rs) if rs else "", call, log)
        if cf == "defer":
            # deferred, its results are dropped
            direct = "func() {\ndefer %s\n}()\nhh.Log(\"ret\", hh.Skip, nil, nil)" % call
        if cf == "go":
            direct = "done := make(chan bool)\ngo func() {\ndefer close(done)\nhh.Try(func() {\n%s\n})\n}()\n<-done" % direct
        out.append("hh.Try(func() {\n%s\n})" % direct)
        return out

    def run(self):
        out = ["func Run%d() {" % self.i, "var mock_, rec_ func()", "_, _ = mock_, rec_"]
        for o in self.b["ops"]:
            out.append("{")
            if o["op"] == "install":
                out += [l.replace("mock = ", "mock_ = ", 1).replace("rec = ", "rec_ = ", 1) if l.startswith(("mock = ", "rec = ")) else l for l in self.install(o)]
                out.append("hh.Op(hh.Take())")
            elif o["op"] == "cancel":
                out += ["%s_()" % o["slot"], "hh.Op(hh.Take())"]
            elif o["op"] == "call":
                out += self.call(o) + ["hh.Op(hh.Take())"]
            else:
                short = self.fn if not self.d["method"] else "%s.%s" % (self.rt, self.fn)
                pc = "main" if self.place == "main" else self.path
                out.append("hh.Op(hh.Info(%s, %s, \"%s\", \"%s\", %s))" % (self.pkgq, self.ident, short, "%s.%s" % (pc, self.identity), "nil" if self.generic else self.expr()))
            out.append("}")
        out.append("}")
        if self.place == "ref":
            # never called: that it is mocked by its name somewhere is what has it instrumented,
            # mocks of variables of a type that is not apparent are not followed
            out.append("func anchor%d() {\nmock.Mock(%s, nil)\n}\n\nvar _ = anchor%d" % (self.i, self.expr(), self.i))
        return "\n".join(out)

    # --------------------------------------------------------------- compare
    def expected_info(self):
        d = self.d
        return dict(Kind="func", Pkg=self.path, Id=self.identity, Name=self.fn, RecvType=self.rt if d["method"] else "", Ptr=d["ptr"],
                    Generic=self.generic, Intf=False, Sl=False, Line=self.line, File=self.file)

    def compare(self, got):
        """-> (op index, what) or None"""
        d = self.d
        if got["err"]:
            return len(got["ops"] or []), "failed: " + got["err"][:300]
        named = lambda n: n not in ("", "_")
        for k, (o, g) in enumerate(zip(self.b["ops"], got["ops"])):
            if o["op"] == "info":
                if g["Err"]:
                    return k, "function table: " + g["Err"]
                w = self.expected_info()
                if not self.generic:
                    w["Ctx"], w["LastErr"] = o["ctx"], o["err"]
                for f, v in w.items():
                    if g[f] != v:
                        return k, "function table: %s is %r, declared %r" % (f, g[f], v)
                for f, ns in (("Args", o["args"]), ("Res", o["res"])):
                    gn = g[f] or []
                    if len(gn) != len(ns) or any(named(b) and a != b for a, b in zip(gn, ns)):
                        return k, "function table: %s are %r, declared %r" % (f, gn, ns)
                if named(d["rname"]) and g["Recv"] != d["rname"]:
                    return k, "function table: receiver is %r, declared %r" % (g["Recv"], d["rname"])
                if not all(g["Same"]):
                    return k, "function table: lookups disagree: %s" % g["Same"]
                continue
            evs = o.get("evs", [])
            if [e["ev"] for e in g] != [e["ev"] for e in evs]:
                return k, "observed %s, specified %s%s" % ([e["ev"] for e in g], [e["ev"] for e in evs], [e["id"] for e in g if e["ev"] == "crash"])
            for e, w in zip(g, evs):
                diff = None
                if w["ev"] in ("pre", "mock", "post") and e["recv"] != w["recv"]:
                    diff = "receiver"
                if w["ev"] == "body" and named(d["rname"]) and e["recv"] != w["recv"]:
                    diff = "receiver"
                if w["ev"] == "body":
                    if any(named(p["nm"]) and a != b for p, a, b in zip(d["params"], e["args"], w["args"])):
                        diff = "arguments"
                elif w["ev"] in ("pre", "mock", "post") and e["args"] != w["args"]:
                    diff = "arguments"
                if w["ev"] in ("panic", "pre", "post", "mock") and e["res"] and e["res"] != w["res"]:
                    diff = "results"
                if w["ev"] == "ret" and o["cf"] != "defer" and e["res"] != w["res"]:
                    diff = "results"
                if w["ctx"] != -1 and e.get("names") is not None and e["ctx"] != w["ctx"]:
                    diff = "context"
                if w["ev"] in ("pre", "mock", "post") and e.get("id"):
                    if e["id"] != self.identity:
                        diff = "identity %s" % e["id"]
                    ns = ([d["rname"]] if w["recv"] != -1 else []) + [p["nm"] for p in d["params"]]
                    rn = [p["nm"] for p in d["results"]]
                    if any(named(b) and a != b for a, b in zip(e["names"] or [], ns)) or any(named(b) and a != b for a, b in zip(e["rnames"] or [], rn)):
                        diff = "names"
                if diff:
                    return k, "%s differ at %s: observed %s, specified %s" % (diff, w["ev"], e, w)
        if len(got["ops"]) != len(self.b["ops"]):
            return len(got["ops"]), "stopped early"
        return None


HEAD = "package %s\n\nimport (\n%s)\n\n"
USES = {"context": "var _ context.Context\n", "time": "var _ time.Duration\n", "example.com/hh": "var _ hh.S\n",
        "github.com/xhd2015/xgo/runtime/core": "var _ *core.FuncInfo\n", "github.com/xhd2015/xgo/runtime/mock": "var _ = mock.Patch\n",
        "github.com/xhd2015/xgo/runtime/trap": "var _ trap.Interceptor\n", "github.com/xhd2015/xgo/runtime/trace": "var _ = trace.Record\n"}
ALL = list(USES)


def gofile(path, pkg, imports, body):
    t = HEAD % (pkg, "".join('\t"%s"\n' % i for i in imports)) + "".join(USES[i] for i in imports if i in USES) + "\n" + body
    open(path, "w").write(t)
    return t


def write(d, decls):
    shutil.rmtree(d, ignore_errors=True)
    dirs = {p: os.path.join(d, {"main": ".", "sub": "sub", "dep": "_dep", "ref": "_ref"}[p]) for p in PLACES}
    for x in dirs.values():
        os.makedirs(x)
    shutil.copytree(os.path.join(X.VERIF, "drivers/sig/hh"), os.path.join(d, "_hh"))
    rt = "require github.com/xhd2015/xgo/runtime v1.1.0\nreplace github.com/xhd2015/xgo/runtime => %s/runtime\n" % X.REPO
    open(os.path.join(d, "_hh/go.mod"), "w").write("module example.com/hh\n\ngo 1.22\n\n" + rt)
    hh = "require example.com/hh v0.0.0\nreplace example.com/hh => ../_hh\n"
    open(os.path.join(d, "_dep/go.mod"), "w").write("module example.com/dep\n\ngo 1.22\n\n" + rt + hh)
    open(os.path.join(d, "_ref/go.mod"), "w").write("module example.com/ref.v3\n\ngo 1.22\n\n" + rt + hh)
    open(os.path.join(d, "go.mod"), "w").write(
        "module m\n\ngo 1.22\n\n" + rt + hh.replace("../", "./") + "".join(
            "require %s v0.0.0\nreplace %s => ./%s\n" % (m, m, p) for m, p in (("example.com/dep", "_dep"), ("example.com/ref.v3", "_ref"))))
    for p in PLACES:
        ds = [x for x in decls if x.place == p]
        # a few declarations per file
        for k in range(0, len(ds), 12):
            name = "d%d.go" % (k // 12)
            pos = 0
            t = gofile(os.path.join(dirs[p], name), PLACES[p][1], ["context", "time", "example.com/hh"], "")
            for x in ds[k:k + 12]:
                x.file = name
                body = x.text()
                start = t.count("\n") + 1
                for j, line in enumerate(body.split("\n")):
                    if "func " in line and (" %s(" % x.fn in line or " %s[" % x.fn in line):
                        x.line = start + j
                t += body + "\n"
            open(os.path.join(dirs[p], name), "w").write(t)
        runs = [x for x in decls if x.home == p]
        for k in range(0, len(runs), 20):
            imps = ALL + (sorted({x.path for x in runs[k:k + 20] if x.place != p}) if p == "main" else [])
            gofile(os.path.join(dirs[p], "run%d.go" % (k // 20)), PLACES[p][1], imps, "\n\n".join(x.run() for x in runs[k:k + 20]) + "\n")
        if not ds and not runs:
            gofile(os.path.join(dirs[p], "empty.go"), PLACES[p][1], [], "")
    body = "func main() {\n" + "".join("\thh.Prog(%d, %sRun%d)\n" % (x.i, "" if x.home == "main" else PLACES[x.home][1] + ".", x.i) for x in decls) + "\tfmt.Println(\"end\")\n}\n"
    open(os.path.join(d, "main.go"), "w").write("package main\n\nimport (\n\t\"fmt\"\n\t\"example.com/hh\"\n\t_ \"m/sub\"\n\t_ \"example.com/dep\"\n\t_ \"example.com/ref.v3\"\n%s)\n\n%s" % (
        "".join('\t"%s"\n' % PLACES[p][0] for p in ("sub", "dep") if any(x.home == p for x in decls)), body))
