"""Stands in for the rebuilt `go` of an instrumented GOROOT in fast mode.

xgo's compiler patch does one thing for user code: inside functions named
__xgo_init_* it rebinds __xgo_trap_*/__xgo_register_*/... to the runtime's
XgoTrap/XgoRegister/... . Fast mode leaves the compiler alone (rebuilding it
takes a minute) and writes the same binding into the overlaid sources."""
import json, os, re, sys

LINKS = [("trap_varptr_", "XgoTrapVarPtr"), ("trap_var_", "XgoTrapVar"), ("trap_", "XgoTrap"), ("register_", "XgoRegister")]


def bind(m):
    name = m.group(1)
    for pre, to in LINKS:
        if name.startswith("__xgo_" + pre):
            return "%s=__xgo_rt_pkg.%s;" % (name, to)
    return m.group(0)


def fix(text):
    # the assignments x=x occur only inside __xgo_init_N bodies
    m = re.search(r"func __xgo_init_\w+\(\)\{[^}]*\}", text)
    if not m:
        return text
    body = re.sub(r"(__xgo_\w+)=\1;", bind, m.group(0))
    text = text[:m.start()] + body + text[m.end():]
    # first package clause outside comments: a line starting with "package "
    return re.sub(r"(?m)^(package\s+\w+)", r'\1;import __xgo_rt_pkg "runtime"', text, count=1)


def main():
    real, args = sys.argv[1], sys.argv[2:]
    if args and args[0] in ("build", "test", "run"):
        srcs = []
        for i, a in enumerate(args):
            ov = None
            if a == "-overlay":
                ov = args[i + 1]
            elif a.startswith("-overlay="):
                ov = a[len("-overlay="):]
            if ov:
                srcs += list(json.load(open(ov))["Replace"].values())
        mods = os.path.join(os.getcwd(), ".xgo/gen/modules")
        for root, _, files in os.walk(mods):
            srcs += [os.path.join(root, f) for f in files if f.endswith(".go")]
        for s in srcs:
            if not s.endswith(".go") or not os.path.exists(s):
                continue
            t = open(s, encoding="utf-8", errors="surrogateescape").read()
            if "__xgo_init_" not in t or "__xgo_rt_pkg" in t:
                continue
            n = fix(t)
            if n != t:
                open(s, "w", encoding="utf-8", errors="surrogateescape").write(n)
    os.execv(real, [real] + args)


main()
