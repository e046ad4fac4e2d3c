"""C12: what can be mocked is decided by the present sources, references and
flags, not by what was built before; decided with specs/project. TLC explores
all histories of a small project, and generates random histories of edits and
builds of a larger one; these are rendered, built with xgo one after the other
in one directory, and each program built tells what it can mock."""
import collections, json, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
import tlc
import xgoenv as X
from source_checks import need

PATHS = {"m": "example.com/m", "sub": "example.com/m/sub", "mx": "example.com/mx", "a": "third.com/dep/a", "b": "third.com/dep/a/b", "ab": "third.com/dep/ab",
         "inc": "inc.org/i/v2", "os": "os", "html": "html", "io": "io"}
MODULES = {"m": ("example.com/m", "main"), "mx": ("example.com/mx", "mx"), "dep": ("third.com/dep", "dep"), "inc": ("inc.org/i/v2", "inc")}
DIRS = {"m": "main", "sub": "main/sub", "mx": "mx", "a": "dep/a", "b": "dep/a/b", "ab": "dep/ab", "inc": "inc"}
STD = {"os", "html", "io"}


def F(pkg, name, recv="", kind=None, nosplit=False, white=False):
    return dict(pkg=pkg, kind=kind or ("method" if recv else "func"), recv=recv, name=name, exported=name[0].isupper(), nosplit=nosplit, white=white)


POOL = [F("m", "Top"), F("m", "low"), F("m", "A", "T"), F("m", "P", "*T"), F("m", "V", kind="var"), F("m", "N", nosplit=True),
        F("sub", "A"), F("sub", "low"), F("sub", "A", "T"), F("sub", "low", "*T"), F("sub", "V", kind="var"), F("sub", "N", nosplit=True), F("sub", "v", kind="var"),
        F("a", "A"), F("a", "AB"), F("a", "low"), F("a", "N", nosplit=True), F("a", "C", "T"), F("a", "P", "*T"), F("a", "p", "*T"),
        F("a", "A", "T"), F("a", "AV", kind="var"),
        F("b", "A"), F("b", "AB"), F("b", "B"), F("b", "BA"), F("b", "ABA"), F("b", "low"), F("ab", "A"), F("ab", "C", "T"),
        F("mx", "A"), F("mx", "low"), F("mx", "V", kind="var"), F("mx", "P", "*T"),
        F("inc", "A"), F("inc", "low"), F("inc", "V", kind="var"), F("inc", "C", "T"),
        F("os", "Getenv", white=True), F("os", "Hostname"), F("html", "EscapeString"), F("html", "UnescapeString"), F("io", "ReadAll", white=True)]
BULK0 = len(POOL)
POOL += [F("a", "Q%d" % i) for i in range(22)]
BULK = range(BULK0 + 1, len(POOL) + 1)
STDCALL = {"Getenv": ('os.Getenv("VERIF_PROBE")', "probe"), "Hostname": ("first(os.Hostname())", None), "EscapeString": ('html.EscapeString("<")', "&lt;"),
           "UnescapeString": ('html.UnescapeString("&lt;")', "<"), "ReadAll": ('bytes0(io.ReadAll(strings.NewReader("r")))', "r")}
FROMS = [("m", "x.go"), ("m", "x_test.go"), ("m", "ext_test.go"), ("m", "tag.go"), ("sub", "x.go"), ("sub", "x_test.go"), ("mx", "x.go"), ("m", "notag.go")]
PATTERNS = [("third.com/dep/a", True), ("third.com/dep/a", False), ("third.com/dep", True), ("third.com/dep/ab", False), ("example.com/mx", False), ("html", False), ("inc.org/i/v2", True),
            ("third.com/dep/a/b", False)]
APIS = ["Patch", "Mock", "Record", "RecordCall", "RecordResult", "AddFuncInterceptor", "MarkIntercept", "InfoFunc"]
FUNC_FORMS = ["plain", "paren", "alias"]
METHOD_FORMS = ["plain", "paren", "alias", "define", "literal", "pkgvar"]
VAR_FORMS = ["plain", "alias", "paren"]
POSES = {
    "stmt": "%s", "closure": "func() { %s }()", "defer": "defer func() { %s }()", "go": "go func() { %s }()", "if": "if yes() { %s }", "else": "if yes() { } else { %s }",
    "for": "for i := 0; i < 1; i++ { %s }", "range": "for range []int{1} { %s }", "switch": "switch { case yes(): %s }", "default": "switch yes() { case false: default: %s }",
    "select": "select { default: %s }", "typeswitch": "var v interface{} = 1\n\tswitch v.(type) { case int: %s }", "block": "{ %s }", "label": "L:\n\tfor { %s; break L }",
    "lit": "_ = struct{ f func() }{f: func() { %s }}", "arg": "take(func() { %s })", "deep": "take(func() { for _, x := range []func(){func() { %s }} { x() } })",
    "map": "_ = map[string]func(){\"k\": func() { %s }}", "slice": "_ = []func(){func() { %s }}", "ret": "func() func() { return func() { %s } }()", "assign": "f := func() { %s }\n\tf()",
    "varfunc": "var f func() = func() { %s }\n\tf()", "chan": "c := make(chan func(), 1)\n\tc <- func() { %s }", "method": None, "generic": None,
    "init": "if c := func() int { %s; return 1 }(); c > 0 { }", "comm": "select { case <-func() chan int { %s; return nil }(): default: }",
    "index": "_ = []int{1}[func() int { %s; return 0 }()]", "binary": "_ = 1 + func() int { %s; return 0 }()", "incdec": "xs := []int{1}\n\txs[func() int { %s; return 0 }()]++",
    "caselist": "switch 1 { case func() int { %s; return 0 }(): }", "rangex": "for range func() []int { %s; return nil }() { }", "assertion": "_, _ = func() interface{} { %s; return nil }().(int)",
}
EXPRPOS = {"value": "_ = %s", "deferred": "defer %s", "gone": "go %s", "called": "%s()", "argument": "take(%s)", "returned": "func() func() { return %s }()", "tuple": "a, b := 1, %s\n\t_, _ = a, b",
           "element": "_ = []func(){%s}", "field": "_ = struct{ f func() }{%s}", "ifinit": "if c := %s; c != nil { }", "var": "var c = %s\n\t_ = c", "store": "var c func()\n\tc = %s\n\t_ = c",
           "post": "var c func()\n\tfor c = nil; yes(); c = %s { }\n\t_ = c", "cmp": "if %s != nil { }", "conv": "_ = interface{}(%s)", "parens": "_ = (%s)"}
WHAT = {"func": 0}


def path(p):
    return PATHS[p].split("/")


def consts(**kw):
    k = dict(Pool=POOL, Path={}, Std=STD, MainModule=path("m"), Files={}, Froms=tlc.Raw(""), Patterns=tlc.Raw(""), Modules=tlc.Raw(""), StdSet={"os", "io"}, Quota=16,
             Cmds={"build", "test"}, Sep="\n")
    files = {p: {"x.go", "y.go"} if p not in STD else {"x.go"} for p in PATHS}
    for p in PATHS:
        if p not in STD:
            files[p] |= {"tag.go", "notag.go"}
    files["m"] |= {"x_test.go"}
    files["sub"] |= {"big.go"}
    files["a"] |= {"big.go"}
    defs = dict(Path=tlc.tla({p: path(p) for p in PATHS}), Files=tlc.tla(files), Pool=tlc.tla(POOL),
                Froms="{%s}" % ", ".join(tlc.tla(dict(pkg=p, file=f)) for p, f in FROMS),
                Patterns="{%s}" % ", ".join(tlc.tla(dict(path=p.split("/"), dots=d)) for p, d in PATTERNS),
                Modules="{%s}" % ", ".join(tlc.tla(p.split("/")) for p in ("inc.org/i/v2", "example.com/mx", "inc.org/i", "third.com/de")), MainModule=tlc.tla(path("m")))
    k.update({n: tlc.Raw("def_" + n) for n in defs})
    k.update(kw)
    return k, "\n".join("def_%s == %s" % (n, v) for n, v in defs.items())


def model_check(c, steps):
    pool = [F("m", "X"), F("a", "A"), F("a", "AB"), F("a", "BA"), F("os", "G", white=True)]
    defs = dict(Pool=tlc.tla(pool), Path=tlc.tla({"m": ["m"], "a": ["d", "a"], "os": ["os"]}), Files=tlc.tla({"m": {"x.go", "tag.go"}, "a": {"x.go"}, "os": {"x.go"}}),
                Froms="{%s}" % ", ".join(tlc.tla(dict(pkg="m", file=f)) for f in ("x.go", "x_test.go")), Patterns="{%s}" % tlc.tla(dict(path=["d"], dots=True)),
                Modules='{<<"d", "a">>}')
    k = dict({n: tlc.Raw("def_" + n) for n in defs}, Std={"os"}, MainModule=["m"], StdSet={"os"}, Quota=2, Cmds={"build", "test"}, Sep=";", MaxSteps=steps, MaxRefs=2)
    r = tlc.run("project", "MCProject", k, init="MCInit", next="MCNext", invariants=["Promised", "Frugal"], properties=["Fresh", "Monotone"], view="View",
                extra_defs="\n".join("def_%s == %s" % d for d in defs.items()), timeout=800)
    tlc.must(r, "model checking project")
    c.add("model_states", r.distinct)


def generate(name, num, seed, maxbuilds, maxedits):
    f = os.path.join(X.sub("gen"), name + ".jsonl")
    k, defs = consts(OutFile=f, MaxBuilds=maxbuilds, MaxEdits=maxedits, Apis=set(APIS), FuncForms=FUNC_FORMS, MethodForms=METHOD_FORMS, VarForms=VAR_FORMS,
                     Poses=list(POSES) + list(EXPRPOS), Bulk=set(BULK),
             Methods={i + 1 for i, f in enumerate(POOL) if f["recv"] and f["exported"] and f["pkg"] not in ("m", "sub")}, Twins={i + 1 for i, f in enumerate(POOL) if f["pkg"] == "b" and f["exported"]})
    r = tlc.run("project", "GenProject", k, init="GenInit", next="GenNext", simulate="num=%d" % num, depth=(2 * maxedits + 1) * maxbuilds + maxedits * 2 + 4, seed=seed, workers=1,
                timeout=800, heap="4g", extra_defs=defs, name="Gen" + name)
    tlc.must(r, "generation project")
    return tlc.read_lines(f)


# ------------------------------------------------------------------ rendering

def value(i, ver):
    f = POOL[i]
    return "%s.%s%s#%d" % (f["pkg"], f["recv"], f["name"], ver)


def decl(i, ver):
    f = POOL[i]
    v = json.dumps(value(i, ver))
    if f["kind"] == "var":
        return "var %s = %s\n" % (f["name"], v)
    head = "//go:nosplit\n" if f["nosplit"] else ""
    return head + "func %s%s() string {\n\treturn %s\n}\n" % ("(t %s) " % f["recv"] if f["recv"] else "", f["name"], v)


def pkgname(p):
    return "main" if p == "m" else p


def goname(p):
    return {"inc": "inc"}.get(p, p)


GUARD = {"tag.go": "//go:build foo\n// +build foo\n\n", "notag.go": "//go:build !foo\n// +build !foo\n\n"}
BIG = "/*\n" + ("x" * 1023 + "\n") * 1025 + "*/\n"


def imports(ps):
    return "".join("import %s\n" % (json.dumps(p) if not a else "%s %s" % (a, json.dumps(p))) for p, a in sorted(ps))


def ref_code(n, r, imps):
    """one reference: a function that is never called"""
    f = POOL[r["target"] - 1]
    p, form, pos, api = f["pkg"], r["form"], r["pos"], r["api"]
    q = p + "_alias" if form == "alias" else p
    imps.add((PATHS[p], q if form == "alias" or PATHS[p].split("/")[-1] != p else ""))
    pre = post = ""
    params = ""
    base = "%s.%s" % (q, f["name"])
    if f["kind"] == "var":
        x = "&" + base
        if form == "paren":
            x = "(&%s)" % base
    elif f["kind"] == "func":
        x = base if form != "paren" else "(%s)" % base
    else:
        t, ptr = "%s.%s" % (q, f["recv"].strip("*")), f["recv"][0] == "*"
        x = "%s.%s" % ("(*%s)" % t if ptr else t, f["name"])
        if form == "paren":
            x = "(%s).%s" % ("*" + t if ptr else t, f["name"])
        elif form == "literal":
            x = "(%s%s{}).%s" % ("&" if ptr else "", t, f["name"])
        elif form == "define":
            pre = "t := %s%s{}\n\t" % ("&" if ptr else "", t)
            x = "t.%s" % f["name"]
        elif form == "pkgvar":
            post = "\nvar refv_%d = %s%s{}\n" % (n, "&" if ptr else "", t)
            x = "refv_%d.%s" % (n, f["name"])
    lib = {"Patch": "mock", "Mock": "mock", "Record": "trace", "RecordCall": "trace", "RecordResult": "trace", "AddFuncInterceptor": "trap", "MarkIntercept": "trap",
           "InfoFunc": "functab", "InfoVar": "functab"}[api]
    imps.add(("github.com/xhd2015/xgo/runtime/" + lib, ""))
    args = {"Patch": ", nil", "Mock": ", nil", "Record": ", nil, nil", "RecordCall": ", nil", "RecordResult": ", nil", "AddFuncInterceptor": ", nil"}.get(api, "")
    call = "%s.%s(%s%s)" % (lib, api, x, args)
    if pos in EXPRPOS and lib in ("mock", "trace", "trap") and api != "MarkIntercept":
        body = EXPRPOS[pos] % call
        if pos in ("deferred", "gone"):
            body = EXPRPOS[pos] % (call + "()")
    elif api in ("InfoFunc", "InfoVar"):
        body = (POSES.get(pos) or "%s") % ("_ = " + call)
    else:
        body = (POSES.get(pos) or "%s") % call
    head = "func ref_%d(%s) {" % (n, params)
    if pos == "method":
        post += "\ntype refT_%d struct{}\n" % n
        head = "func (refT_%d) ref(%s) {" % (n, params)
    elif pos == "generic":
        head = "func ref_%d[G any](%s) {" % (n, params)
    return "%s\n\t%s%s\n}\n%s\n" % (head, pre, body, post)


HELP = "\nfunc yes%(s)s() bool { return false }\nfunc take%(s)s(f func()) {}\n"
REFFILE = {"x.go": "refs.go", "x_test.go": "refs_test.go", "ext_test.go": "refs_ext_test.go", "tag.go": "refs_tag.go", "notag.go": "refs_notag.go"}


def present(b, i):
    """compiled into the program under test"""
    h = b["home"][i]
    return h != "none" and not (h == "tag.go" and not b["flags"]["tags"]) and not (h == "notag.go" and b["flags"]["tags"]) and not (h == "x_test.go" and b["flags"]["cmd"] != "test")


def render(b):
    """-> {file: content} of the whole project at one build"""
    out = {}
    for m, (mp, d) in MODULES.items():
        s = "module %s\n\ngo 1.18\n" % mp
        req = [x for k, (x, _) in MODULES.items() if k not in ("m", m)] if m == "m" else ["third.com/dep"] if m == "mx" else []
        if m in ("m", "mx"):
            s += "\nrequire github.com/xhd2015/xgo/runtime v0.0.0\n" + "".join("require %s %s\n" % (r, "v2.0.0" if r.endswith("/v2") else "v0.0.0") for r in req)
            s += "replace github.com/xhd2015/xgo/runtime => %s\n" % os.path.join(X.REPO, "runtime")
            s += "".join("replace %s => ../%s\n" % (x, dd) for k, (x, dd) in MODULES.items() if x in req)
        out[d + "/go.mod"] = s
    for p, d in DIRS.items():
        files = collections.defaultdict(str)
        files["x.go"] += "type T struct{}\n\nvar Keep int\n"
        for i, f in enumerate(POOL):
            if f["pkg"] == p and b["home"][i] != "none":
                files[b["home"][i]] += "\n" + decl(i, b["ver"][i])
                if not f["exported"] and p != "m":
                    # the way to call it from outside
                    u = "Call_%s%s" % (f["recv"].strip("*"), f["name"])
                    files[b["home"][i]] += "\nfunc %s() string {\n\treturn %s\n}\n" % (u, f["name"] if f["kind"] != "func" and not f["recv"] else callexpr(f, ""))
        for name, body in files.items():
            out["%s/%s" % (d, name)] = "%spackage %s\n\n%s%s" % (GUARD.get(name, ""), pkgname(p), body, BIG if name == "big.go" else "")
    byfrom = collections.defaultdict(list)
    for r in b["refs"]:
        byfrom[(r["from"]["pkg"], r["from"]["file"])].append(r)
    for n, fr in enumerate(FROMS):
        ints = any((f["pkg"], f["file"]) == fr for f in b["ints"])
        rs = byfrom.get(fr, [])
        if not rs and not ints:
            continue
        imps, code = set(), ""
        for k, r in enumerate(sorted(rs, key=lambda r: json.dumps(r, sort_keys=True))):
            code += ref_code(100 * n + k, r, imps)
        if ints:
            imps.add(("github.com/xhd2015/xgo/runtime/trap", ""))
            code += "func ints_%d() {\n\ttrap.AddInterceptor(nil)\n}\n" % n
        suffix = "_%d" % n
        code = re.sub(r"\b(yes|take)\(", r"\1%s(" % suffix, code)
        p, file = fr
        pk = pkgname(p) + ("_test" if file == "ext_test.go" else "")
        out["%s/%s" % (DIRS[p], REFFILE[file])] = GUARD.get(file, "") + "package %s\n\n" % pk + imports(imps) + HELP % {"s": suffix} + "\n" + code
    out.update(probe(b))
    return out


def callexpr(f, q):
    if f["kind"] == "var":
        return q + f["name"]
    if f["recv"]:
        return "(%s%sT{}).%s()" % ("&" if f["recv"][0] == "*" else "", q, f["name"])
    return "%s%s()" % (q, f["name"])


MAINGO = '''package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
	"github.com/xhd2015/xgo/runtime/mock"
)

type item struct {
	id   int
	pkg  string
	name string
	v    bool
	call func() string
}

var items []item

func first(a string, err error) string { return a }
func bytes0(a []byte, err error) string { return string(a) }

var _ = strings.NewReader

type result struct {
	ID     int
	Listed bool
	File   string
	Line   int
	Mocked bool
	Hits   int
	Plain  string
	During string
	After  string
}

func probe(it item) (r result) {
	r.ID = it.id
	r.Plain = it.call()
	if f := functab.Info(it.pkg, it.name); f != nil {
		r.Listed, r.File, r.Line = true, f.File, f.Line
	}
	func() {
		var cancel func()
		defer func() {
			if e := recover(); e != nil {
				r.During = fmt.Sprint(e)
			}
		}()
		cancel = mock.MockByName(it.pkg, it.name, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
			r.Hits++
			switch v := results.GetFieldIndex(0).Value().(type) {
			case string:
				results.GetFieldIndex(0).Set("mocked")
			case []byte:
				results.GetFieldIndex(0).Set([]byte("mocked"))
			default:
				panic(fmt.Sprintf("%T", v))
			}
			return nil
		})
		defer cancel()
		r.Mocked = true
		r.During = it.call()
	}()
	r.After = it.call()
	return
}

func probeAll() {
	var rs []result
	for _, it := range items {
		rs = append(rs, probe(it))
	}
	data, err := json.Marshal(rs)
	if err != nil {
		panic(err)
	}
	os.WriteFile(os.Getenv("VERIF_OUT"), data, 0644)
}

func main() { probeAll() }
'''


def probe(b):
    """the tables of what to look at; never in the files the declarations are in"""
    out = {"main/probe.go": MAINGO, "main/probe_test.go": 'package main\n\nimport "testing"\n\nfunc TestProbe(t *testing.T) { probeAll() }\n'}
    groups = collections.defaultdict(list)
    for i, f in enumerate(POOL):
        h = b["home"][i]
        if h != "none":
            groups[h if h in ("tag.go", "notag.go", "x_test.go") else "x.go"].append(i)
    for h, ids in groups.items():
        name = {"x.go": "items.go", "tag.go": "items_tag.go", "notag.go": "items_notag.go", "x_test.go": "items_test.go"}[h]
        imps, rows = set(), ""
        for i in ids:
            f = POOL[i]
            p = f["pkg"]
            if p != "m":
                imps.add((PATHS[p], p if PATHS[p].split("/")[-1] != p else ""))
            if p in STD:
                call = STDCALL[f["name"]][0]
                if p == "io":
                    imps.add(("strings", ""))
            elif not f["exported"] and p != "m":
                call = "%s.Call_%s%s()" % (p, f["recv"].strip("*"), f["name"])
            else:
                call = callexpr(f, "" if p == "m" else p + ".")
            ident = ("(%s).%s" % (f["recv"], f["name"]) if f["recv"][:1] == "*" else "%s.%s" % (f["recv"], f["name"])) if f["recv"] else f["name"]
            rows += "\t\titem{%d, %s, %s, %s, func() string { return %s }},\n" % (i + 1, json.dumps(PATHS[p]), json.dumps(ident), "true" if f["kind"] == "var" else "false", call)
        keep = "".join("var _ = %s.Keep\n" % p for p in DIRS if p != "m") if h == "x.go" else ""
        if h == "x.go":
            imps |= {(PATHS[p], p if PATHS[p].split("/")[-1] != p else "") for p in DIRS if p != "m"}
        out["main/" + name] = "%spackage main\n\n%s\n%s\nfunc init() {\n\titems = append(items,\n%s\t)\n}\n" % (GUARD.get(h, ""), imports(imps), keep, rows)
    return out


def write(d, files, old):
    """as an editor would: only what changed"""
    for n in set(old) - set(files):
        os.remove(os.path.join(d, n))
    for n, s in files.items():
        if old.get(n) != s:
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(s)


def command(b):
    fl = b["flags"]
    a = []
    for t in fl["trap"]:
        a += ["--trap", "/".join(t["path"]) + ("/..." if t["dots"] else "")]
    if fl["all"] != "default":
        a.append("--trap-all" + ("" if fl["all"] == "true" else "=false"))
    if fl["stdlib"] != "default":
        a.append("--trap-stdlib" + ("" if fl["stdlib"] == "true" else "=false"))
    if fl["inc"]:
        a += ["--mock-rule-include-as-main-module", ",".join("/".join(m) for m in fl["inc"])]
    if fl["tags"]:
        a += ["-tags", "foo"]
    return a


# ------------------------------------------------------------------- checking

def check_build(b, files, res):
    """-> what deviates"""
    bad = []
    lines = {}
    for i, f in enumerate(POOL):
        e = b["expect"][i]
        r = res.get(i + 1)
        what = "%s of package %s" % ((f["recv"] + "." if f["recv"] else "") + f["name"], PATHS[f["pkg"]])
        if e == "absent":
            continue
        if r is None:
            raise X.CheckError("%s was not looked at" % what)
        plain = STDCALL[f["name"]][1] if f["pkg"] in STD else value(i, b["ver"][i])
        if plain is None:
            plain = r["Plain"]
        if r["Plain"] != plain or r["After"] != plain:
            bad.append((i, "%s gives %r, and %r after a mock, instead of %r" % (what, r["Plain"], r["After"], plain)))
        elif e == "yes" and not r["Mocked"]:
            bad.append((i, "%s cannot be mocked: %s" % (what, r["During"])))
        elif e == "no" and r["Mocked"]:
            bad.append((i, "%s can be mocked, though nothing asks for it" % what))
        elif r["Mocked"] and f["kind"] != "var" and (r["During"] != "mocked" or r["Hits"] != 1):
            bad.append((i, "%s gives %r while mocked (mock called %d times)" % (what, r["During"], r["Hits"])))
        elif r["Mocked"] and f["kind"] == "var" and e == "yes" and (not f["exported"] or f["pkg"] in ("m", "sub")) and r["During"] != "mocked":
            bad.append((i, "variable %s gives %r while mocked" % (what, r["During"])))
        elif r["Mocked"] and not r["Listed"]:
            bad.append((i, "%s can be mocked but is not in the function table" % what))
        elif r["Listed"] and f["pkg"] not in STD and f["kind"] != "var":
            text = files["%s/%s" % (DIRS[f["pkg"]], b["home"][i])]
            head = decl(i, b["ver"][i])
            line = text[:text.index(head)].count("\n") + 1 + (1 if f["nosplit"] else 0)
            if os.path.basename(r["File"]) != b["home"][i] or r["Line"] != line:
                bad.append((i, "%s is listed at %s:%d instead of %s:%d" % (what, r["File"], r["Line"], b["home"][i], line)))
    return bad


def history(c, x, k, builds, d):
    """-> deviations of one history"""
    old, devs = {}, []
    shutil.rmtree(d, ignore_errors=True)
    for n, b in enumerate(builds):
        files = render(b)
        write(d, files, old)
        old = files
        exe, outf = os.path.join(d, "prog.exe"), os.path.join(d, "out.json")
        for f in (exe, outf):
            if os.path.exists(f):
                os.remove(f)
        e = dict(x.env)
        e["GOFLAGS"] = "-mod=mod"
        main = os.path.join(d, "main")
        args = [x.bin] + (["build"] if b["flags"]["cmd"] == "build" else ["test", "-c"]) + command(b) + ["-o", exe, "./"]
        p = X.run(args, cwd=main, env=e, timeout=600, check=False)
        info = {"history": builds[:n + 1], "build": n + 1, "command": args[1:], "files": {f: s if len(s) < 20000 else s[:2000] for f, s in files.items() if not f.startswith("main/probe")}}
        if p.returncode or not os.path.exists(exe):
            e2 = X.base_env()
            e2["GOFLAGS"] = "-mod=mod"
            q = X.run(["go"] + (["build"] if b["flags"]["cmd"] == "build" else ["test", "-c"]) + (["-tags", "foo"] if b["flags"]["tags"] else []) + ["-o", exe + ".go", "./"],
                      cwd=main, env=e2, timeout=600, check=False)
            if q.returncode:
                raise X.CheckError("the rendered project does not build:\n" + q.err[-3000:])
            devs.append(("build %d fails: %s" % (n + 1, p.err[-500:].replace("\n", " | ")), dict(info, stderr=p.err[-4000:])))
            break
        e3 = X.base_env()
        e3.update(VERIF_OUT=outf, VERIF_PROBE="probe")
        q = X.run([exe], cwd=main, env=e3, timeout=120, check=False)
        if not os.path.exists(outf):
            devs.append(("the program of build %d dies: %s" % (n + 1, q.err[-500:].replace("\n", " | ")), dict(info, stderr=q.err[-4000:])))
            break
        res = {r["ID"]: r for r in json.load(open(outf))}
        for i, what in check_build(b, files, res):
            rs = [r for r in b["refs"] if r["target"] == i + 1]
            devs.append(("build %d of a history (xgo %s): %s%s" % (n + 1, " ".join(args[1:-3]), what, "; referred to: %s" % [(r["api"], r["form"], r["pos"], r["from"]["pkg"] + "/" + r["from"]["file"]) for r in rs] if rs else ""),
                         dict(info, observed=res.get(i + 1), fresh=None)))
        with c.lock:
            c.add("builds")
            for i in range(len(POOL)):
                c.kinds["expect/" + b["expect"][i]] += 1
            for r in b["refs"]:
                c.kinds["api/" + r["api"]] += 1
                c.kinds["form/%s" % r["form"]] += 1
                c.kinds["pos/%s" % r["pos"]] += 1
            for fl in command(b):
                if fl.startswith("-"):
                    c.kinds["flag/" + fl] += 1
            c.kinds["cmd/" + b["flags"]["cmd"]] += 1
        if devs:
            break
    shutil.rmtree(d, ignore_errors=True)
    return devs


def run_project(c):
    import threading
    c.kinds, c.lock = collections.Counter(), threading.Lock()
    built = ThreadPoolExecutor(1).submit(X.Xgo, "project", True, False)
    model_check(c, 7 if X.THOROUGH else 5)
    c.log("model checked")
    hs = generate("project", 400 if X.THOROUGH else 40, X.SEED * 13 + 5, 8 if X.THOROUGH else 6, 8)
    c.log("%d histories, %d builds" % (len(hs), sum(map(len, hs))))
    x = built.result()
    c.log("xgo built")

    def one(k):
        return history(c, x, k, hs[k], os.path.join(X.sub("hist"), "h%d" % k))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(hs))))
    seen = 0
    for devs in res:
        c.add("traces_validated_against_impl")
        for what, info in devs[:3]:
            seen += 1
            if seen <= 12:
                c.violation(what, info)
    c.cov["by_kind"] = dict(c.kinds)
    need(c.kinds, ["api/" + a for a in APIS] + ["form/" + f for f in set(FUNC_FORMS + METHOD_FORMS + VAR_FORMS)] + ["expect/" + e for e in ("yes", "no", "absent")] + ["cmd/build", "cmd/test"])


CHECKS = {"C12": (run_project, "model_checking")}
