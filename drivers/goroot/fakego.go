// A go command for a GOROOT with few files: it answers for its version, and
// "builds" by writing files whose content is a function of the sources.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

const mark = "\nXGOV" + "BUILT:"

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "go: "+f+"\n", a...)
	os.Exit(1)
}

// a program is the code of this one and a trailer
func split(file string) (code []byte, trailer string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fail("%v", err)
	}
	i := bytes.LastIndex(b, []byte(mark))
	if i < 0 || !bytes.HasSuffix(b, []byte(":END\n")) {
		fail("%s: exec format error", file)
	}
	return b[:i], string(b[i+len(mark) : len(b)-len(":END\n")])
}

func hash(dirs ...string) string {
	h := sha256.New()
	for _, d := range dirs {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				r, _ := filepath.Rel(d, p)
				fmt.Fprintf(h, "%s %s %d\n", filepath.Base(d), r, len(b))
				h.Write(b)
			}
			return nil
		})
	}
	return hex.EncodeToString(h.Sum(nil))[:16]
}

func main() {
	self, _ := os.Executable()
	code, _ := split(self)
	args := os.Args[1:]
	if len(args) == 0 {
		fail("no command")
	}
	goroot := filepath.Dir(filepath.Dir(self))
	// the tools of the GOROOT that is told to be used
	if e := os.Getenv("GOROOT"); e != "" {
		goroot = e
	}
	src := filepath.Join(goroot, "src")
	write := func(out string, data []byte) {
		os.MkdirAll(filepath.Dir(out), 0755)
		os.Remove(out) // as go does: it may be running
		if err := os.WriteFile(out, data, 0755); err != nil {
			fail("%v", err)
		}
	}
	compile := filepath.Join(goroot, "pkg", "tool", "linux_amd64", "compile")
	switch args[0] {
	case "version":
		fmt.Println("go version go1.27.3 linux/amd64")
	case "env":
		for _, k := range args[1:] {
			switch k {
			case "GOROOT":
				fmt.Println(goroot)
			default:
				fmt.Println(os.Getenv(k))
			}
		}
	case "run":
		split(compile)
		if len(args) != 2 || args[1] != "mkbuiltin.go" {
			fail("run %v", args)
		}
		if _, err := os.Stat("mkbuiltin.go"); err != nil {
			fail("%v", err)
		}
		b, err := os.ReadFile(filepath.Join("_builtin", "runtime.go"))
		if err != nil {
			fail("%v", err)
		}
		write("builtin.go", append([]byte("package typecheck\n// "), b...))
	case "install":
		split(compile)
		_, c := split(compile)
		write(filepath.Join(goroot, "pkg", "linux_amd64", "std.a"), []byte("std "+c+" "+hash(filepath.Join(src, "runtime"), filepath.Join(src, "time"), filepath.Join(src, "testing"))+"\n"))
	case "build":
		split(compile)
		out, pkg := "", args[len(args)-1]
		for i, a := range args {
			if a == "-o" {
				out = args[i+1]
			}
		}
		if out == "" || !strings.HasPrefix(pkg, "cmd/") {
			fail("build %v", args)
		}
		h := hash(filepath.Join(src, pkg), filepath.Join(src, "cmd", "internal"), filepath.Join(src, "runtime"))
		write(out, append(append([]byte{}, code...), []byte(mark+pkg+" "+h+":END\n")...))
		os.Chmod(out, 0755)
	default:
		fail("unknown command %v", args)
	}
}
