"""Builds Go programs over a package os whose writing operations can be counted,
logged, contained, and made to fail or to end the process at a chosen point.

The operations on the file system are numbered across all processes of a run:
  XGOV_DIR   directory of the run's counter and log (nothing is done if unset)
  XGOV_ROOT  directories (separated by ':'): writes elsewhere are refused and logged as escapes
  XGOV_AT    number of the operation to hit, XGOV_MODE  before | torn | error
"""
import os, re, json
import xgoenv as X

HOOK = r'''
package os

import (
	"syscall"
)

func xgovEnv(k string) string { v, _ := syscall.Getenv(k); return v }

// xgovOp is called before each operation. It returns an error to
// return instead of doing it; torn tells to do half of it and die.
func xgovOp(op string, path string) (torn bool, err error) {
	dir := xgovEnv("XGOV_DIR")
	if dir == "" {
		return false, nil
	}
	if len(path) > 4 && path[:5] == "/dev/" {
		return false, nil
	}
	if len(path) == 0 || path[0] != '/' {
		wd, _ := syscall.Getwd()
		path = wd + "/" + path
	}
	// lexical clean, and no links: nothing linked leaves the scratch directory
	path = xgovClean(path)
	ok := false
	roots := xgovEnv("XGOV_ROOT")
	for i, j := 0, 0; i <= len(roots); i++ {
		if i == len(roots) || roots[i] == ':' {
			r := roots[j:i]
			j = i + 1
			if r != "" && (path == r || len(path) > len(r) && path[:len(r)] == r && path[len(r)] == '/') {
				ok = true
			}
		}
	}
	n := xgovCount(dir)
	kind := op
	if !ok {
		kind = "escape-" + op
	}
	xgovAppend(dir+"/log", kind+"\t"+path+"\n")
	if !ok {
		return false, syscall.EPERM
	}
	if xgovEnv("XGOV_AT") == xgovItoa(n) {
		switch xgovEnv("XGOV_MODE") {
		case "before":
			xgovDie()
		case "torn":
			if op != "write" {
				xgovDie()
			}
			return true, nil
		case "error":
			return false, syscall.EIO
		}
	}
	return false, nil
}

// xgovDenied tells whether a file or directory cannot be read
func xgovDenied(name string) error {
	deny := xgovEnv("XGOV_DENY")
	if deny == "" || xgovEnv("XGOV_DIR") == "" || len(name) == 0 {
		return nil
	}
	if name[0] != '/' {
		wd, _ := syscall.Getwd()
		name = wd + "/" + name
	}
	if xgovClean(name) == deny {
		xgovAppend(xgovEnv("XGOV_DIR")+"/denied", ".")
		return syscall.EACCES
	}
	return nil
}

func xgovDie() {
	pgid := syscall.Getpgrp()
	syscall.Kill(-pgid, syscall.SIGKILL)
	for {
		syscall.Pause()
	}
}

func xgovAppend(file string, s string) int64 {
	fd, e := syscall.Open(file, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND|syscall.O_CLOEXEC, 0644)
	if e != nil {
		return -1
	}
	syscall.Write(fd, []byte(s))
	var st syscall.Stat_t
	syscall.Fstat(fd, &st)
	syscall.Close(fd)
	return st.Size
}

func xgovCount(dir string) int64 { return xgovAppend(dir+"/count", ".") }

func xgovItoa(n int64) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func xgovClean(p string) string {
	var parts []string
	for i, j := 0, 0; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			e := p[j:i]
			j = i + 1
			if e == "" || e == "." {
				continue
			}
			if e == ".." {
				if len(parts) > 0 {
					parts = parts[:len(parts)-1]
				}
				continue
			}
			parts = append(parts, e)
		}
	}
	s := ""
	for _, e := range parts {
		s += "/" + e
	}
	return s
}
'''


def _sub(text, head, code, what):
    i = text.find(head)
    if i < 0:
        raise X.CheckError("package os of the toolchain has no %s" % what)
    i += len(head)
    return text[:i] + "\n" + code + text[i:]


def overlay(extra=None):
    """Returns {file of GOROOT: replacement}."""
    d = X.sub("oshook")
    src = os.path.join(X.GOROOT_BASE, "src/os")
    rd = lambda f: open(os.path.join(src, f)).read()
    f = rd("file.go")
    f = _sub(f, "func Mkdir(name string, perm FileMode) error {", '\tif _, e := xgovOp("mkdir", name); e != nil {\n\t\treturn &PathError{Op: "mkdir", Path: name, Err: e}\n\t}', "Mkdir")
    f = _sub(f, "func OpenFile(name string, flag int, perm FileMode) (*File, error) {",
             '\tif flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC|O_APPEND) != 0 {\n\t\tif _, e := xgovOp("open", name); e != nil {\n\t\t\treturn nil, &PathError{Op: "open", Path: name, Err: e}\n\t\t}\n\t}', "OpenFile")
    deny = '\tif e := xgovDenied(name); e != nil {\n\t\treturn nil, &PathError{Op: "open", Path: name, Err: e}\n\t}'
    f = _sub(f, "func OpenFile(name string, flag int, perm FileMode) (*File, error) {", deny, "OpenFile")
    f = _sub(f, "func openDir(name string) (*File, error) {", deny, "openDir")
    f = _sub(f, "func (f *File) Write(b []byte) (n int, err error) {",
             '\tif f != nil && f.file != nil && f.kind != kindSock && !f.xgovStd() {\n\t\ttorn, e := xgovOp("write", f.name)\n\t\tif e != nil {\n\t\t\treturn 0, &PathError{Op: "write", Path: f.name, Err: e}\n\t\t}\n\t\tif torn {\n\t\t\tf.write(b[:len(b)/2])\n\t\t\txgovDie()\n\t\t}\n\t}', "Write")
    f = _sub(f, "func (f *File) ReadFrom(r io.Reader) (n int64, err error) {",
             '\tif xgovEnv("XGOV_DIR") != "" && !f.xgovStd() {\n\t\treturn genericReadFrom(f, r)\n\t}', "ReadFrom")
    f = _sub(f, "func Rename(oldpath, newpath string) error {",
             '\tif _, e := xgovOp("rename", oldpath); e != nil {\n\t\treturn &LinkError{"rename", oldpath, newpath, e}\n\t}\n\tif _, e := xgovOp("renameto", newpath); e != nil {\n\t\treturn &LinkError{"rename", oldpath, newpath, e}\n\t}', "Rename")
    # pipes and the standard streams are not files
    f += '\nfunc (f *File) xgovStd() bool {\n\treturn f == nil || f.file == nil || f.name == "" || f.name[0] == \'|\' || f.pfd.Sysfd <= 2\n}\n'
    f = f.replace("f.kind != kindSock && ", "")
    u = rd("file_unix.go")
    u = _sub(u, "func Remove(name string) error {", '\tif _, e := xgovOp("remove", name); e != nil {\n\t\treturn &PathError{Op: "remove", Path: name, Err: e}\n\t}', "Remove")
    u = _sub(u, "func Symlink(oldname, newname string) error {", '\tif _, e := xgovOp("symlink", newname); e != nil {\n\t\treturn &LinkError{"symlink", oldname, newname, e}\n\t}', "Symlink")
    u = _sub(u, "func Link(oldname, newname string) error {", '\tif _, e := xgovOp("link", newname); e != nil {\n\t\treturn &LinkError{"link", oldname, newname, e}\n\t}', "Link")
    u = _sub(u, "func Truncate(name string, size int64) error {", '\tif _, e := xgovOp("truncate", name); e != nil {\n\t\treturn &PathError{Op: "truncate", Path: name, Err: e}\n\t}', "Truncate")
    r = rd("removeall_at.go")
    # removing a tree: entry by entry, by path
    i = r.find("func removeAll(path string) error {")
    if i < 0:
        raise X.CheckError("package os of the toolchain has no removeAll")
    r = r[:i] + r[i:].replace("func removeAll(path string) error {", '''func removeAll(path string) error {
	if xgovEnv("XGOV_DIR") != "" {
		fi, e := Lstat(path)
		if e != nil {
			if IsNotExist(e) {
				return nil
			}
			return e
		}
		if !fi.IsDir() {
			return Remove(path)
		}
		list, e := ReadDir(path)
		if e != nil {
			return e
		}
		for _, d := range list {
			if e := removeAll(path + "/" + d.Name()); e != nil {
				return e
			}
		}
		return Remove(path)
	}''', 1)
    st = rd("stat.go")
    # the temporary directory is the one in TMPDIR
    st = _sub(st, "func Stat(name string) (FileInfo, error) {", '\tif name == "/tmp" && xgovEnv("XGOV_DIR") != "" {\n\t\treturn nil, ErrNotExist\n\t}', "Stat")
    rep = {}
    for name, text in [("stat.go", st), ("file.go", f), ("file_unix.go", u), ("removeall_at.go", r)]:
        out = os.path.join(d, name)
        open(out, "w").write(text)
        rep[os.path.join(src, name)] = out
    open(os.path.join(d, "xgov.go"), "w").write(HOOK)
    rep[os.path.join(src, "xgov.go")] = os.path.join(d, "xgov.go")
    rep.update(extra or {})
    return rep
