"""Shared infrastructure of the checks: environment, building xgo from /repo's
working tree, instrumenting and building driver programs, running TLC.

Nothing here writes below /repo; all output goes to a scratch directory that is
removed when the process ends.
"""
import atexit, hashlib, json, os, shutil, subprocess, sys, tempfile, time, glob, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT_BASE = "/opt/veriftools/go1.27.3"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class CheckError(Exception):
    """The check itself could not run (never a verdict)."""


def base_env(home=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("XGO_") or k in ("GOROOT", "GOWORK", "GOOS", "GOARCH", "GO_BYPASS_XGO", "GOPATH", "GOEXPERIMENT"):
            del env[k]
    env.update(
        LANG="C.UTF-8",
        PATH=GOROOT_BASE + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GONOSUMDB="*", GONOSUMCHECK="1",
        GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod",
        HOME=home or "/root", GIT_CONFIG_NOSYSTEM="1",
    )
    env.pop("JAVA_TOOL_OPTIONS", None)
    return env


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="xgoverif.", dir="/tmp")
        atexit.register(_cleanup)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
    return _scratch


_extra_dirs = []


def _cleanup():
    if os.environ.get("VERIF_KEEP"):
        sys.stderr.write("kept scratch: %s\n" % _scratch)
        return
    for d in [g for e in _extra_dirs for g in glob.glob(e)] + [_scratch]:
        subprocess.run(["chmod", "-R", "u+w", d], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)


def sub(*parts):
    d = os.path.join(scratch(), *parts)
    os.makedirs(d, exist_ok=True)
    return d


def run(args, cwd=None, env=None, timeout=600, check=True, input=None, capture=True):
    p = subprocess.Popen(args, cwd=cwd, env=env or base_env(), stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE if capture else None, stderr=subprocess.PIPE if capture else None,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        raise CheckError("timeout after %ss: %s\n%s\n%s" % (timeout, " ".join(map(str, args)), (out or "")[-2000:], (err or "")[-4000:]))
    p.out, p.err = out or "", err or ""
    if check and p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s\n%s" % (p.returncode, " ".join(map(str, args)), p.out[-3000:], p.err[-6000:]))
    return p


# ---------------------------------------------------------------- xgo build

def _canon(rel):
    return rel[:-4] if rel.endswith(".txt") else rel


def asset_state():
    """Compare the embedded assets with their sources.

    Returns (mapping, differing): mapping of asset file -> canonical source for
    every file whose source exists; differing = the ones whose content differs,
    plus sources that have no asset yet."""
    asset = os.path.join(REPO, "cmd/xgo/asset")
    pairs = [("runtime_gen", "runtime"), ("compiler_patch_gen", "patch"), ("patches", "patches")]
    mapping, differing = {}, []
    for a, s in pairs:
        adir, sdir = os.path.join(asset, a), os.path.join(REPO, s)
        seen = set()
        for root, _, files in os.walk(adir):
            for f in files:
                ap = os.path.join(root, f)
                rel = os.path.relpath(ap, adir)
                sp = os.path.join(sdir, _canon(rel))
                seen.add(_canon(rel))
                if os.path.exists(sp):
                    mapping[ap] = sp
                    if open(ap, "rb").read() != open(sp, "rb").read():
                        differing.append(ap)
        for root, dirs, files in os.walk(sdir):
            rr = os.path.relpath(root, sdir)
            top = rr.split(os.sep)[0]
            if (a == "runtime_gen" and top in ("test", ".xgo")) or (a == "compiler_patch_gen" and top == "legacy"):
                continue
            if a == "patches" and top == ".":
                continue
            for f in files:
                rel = os.path.normpath(os.path.join(rr, f))
                if "issues" in rel.split(os.sep):
                    continue  # notes, not part of any patch
                if not f.endswith(".go") and not (a == "patches" and f.endswith(".xgo.patch")):
                    continue
                if f.endswith("_test.go") or rel in seen:
                    continue
                ap = os.path.join(adir, rel + (".txt" if a == "patches" and f.endswith(".go") else ""))
                mapping[ap] = os.path.join(sdir, rel)
                differing.append(ap)
    return mapping, differing


def overlay_json(path, use_sources=True, fast=True, extra=None):
    rep = {os.path.join(REPO, "cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go"):
           os.path.join(VERIF, "lib/stubs/collate_tables.go")}
    if os.path.exists(next(iter(rep))):
        rep = {}
    mapping, _ = asset_state()
    if use_sources:
        rep.update(mapping)
    if fast:
        # leave out the steps that rebuild the compiler, go and the whole of std;
        # the driver's build compiles the packages it needs from the patched GOROOT
        for cfg in glob.glob(os.path.join(REPO, "cmd/xgo/asset/patches/*/__config__.json")):
            src = rep.get(cfg, cfg)
            try:
                c = json.load(open(src))
            except Exception:
                continue
            c["generate"] = [g for g in c.get("generate", []) if not str(g.get("kind", "")).startswith("rebuild-")]
            out = os.path.join(os.path.dirname(path), "cfg_" + os.path.basename(os.path.dirname(cfg)) + ".json")
            json.dump(c, open(out, "w"))
            rep[cfg] = out
    if extra:
        rep.update(extra)
    json.dump({"Replace": rep}, open(path, "w"))
    return path


def stub_overlay(path, extra=None):
    rep = {}
    t = os.path.join(REPO, "cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go")
    if not os.path.exists(t):
        rep[t] = os.path.join(VERIF, "lib/stubs/collate_tables.go")
    if extra:
        rep.update(extra)
    json.dump({"Replace": rep}, open(path, "w"))
    return path


def build_xgo(name="xgo", use_sources=True, fast=True):
    d = sub("bld-" + name)
    ov = overlay_json(os.path.join(d, "overlay.json"), use_sources, fast)
    out = os.path.join(d, "xgo")
    run(["go", "build", "-overlay", ov, "-o", out, "./cmd/xgo"], cwd=REPO, timeout=400)
    return out


class BuildViolation(Exception):
    """xgo failed to instrument or compile a program it must accept."""


class Xgo:
    """An xgo installation in its own HOME, with a set-up instrumented GOROOT."""

    def __init__(self, name="xgo", use_sources=True, fast=True):
        self.name, self.fast = name, fast
        self.bin = build_xgo(name, use_sources, fast)
        self.home = sub("home-" + name)
        self.env = base_env(self.home)
        self.env["GOFLAGS"] = "-mod=mod"
        self.env["GOPATH"] = "/root/go"
        p = run([self.bin, "setup"], cwd=scratch(), env=self.env, timeout=800)
        self.goroot = p.out.strip().splitlines()[-1]
        self._register_cache()
        if fast:
            real = os.path.join(self.goroot, "bin", "go")
            os.rename(real, real + ".real")
            with open(real, "w") as f:
                f.write("#!/bin/sh\nexec python3 %s %s \"$@\"\n" % (os.path.join(VERIF, "lib/gowrap.py"), real + ".real"))
            os.chmod(real, 0o755)

    def _register_cache(self):
        # xgo puts the build cache of this GOROOT under /tmp/xgo, keyed by the
        # md5 of the instrument dir (which is below our scratch HOME)
        h = hashlib.md5(os.path.dirname(self.goroot).encode()).hexdigest()[:8]
        _extra_dirs.append("/tmp/xgo/go-instrument/*_" + h)

    def build(self, srcdir, out, pkg="./", args=(), timeout=600, mode="build"):
        cmd = [self.bin, mode] + list(args) + ["-o", out, pkg]
        p = run(cmd, cwd=srcdir, env=self.env, timeout=timeout, check=False)
        if p.returncode != 0:
            raise BuildViolation("xgo %s failed in %s:\n%s\n%s" % (mode, srcdir, p.out[-3000:], p.err[-6000:]))
        return p

