"""Programs for specs/source/XgoTypes: one package variable per initializer."""
import os

LEAVES = '''
const (
	CI = 2
	CF = 0.5
	CR = 'b'
	CS = "c"
	CB = true
	CE = CF * CI
	CG = CI<<2 | 1
)
const KN Num = 3
const KL int64 = 5
const KS Str = "k"

type Num int

func (n Num) Get() int { return int(n) }

type Str string
type T struct {
	A int
	N Num
	F float64
}
type Box[V any] struct{ V V }

var VI, VU = 3, uint(2)
var VF = 1.5
var VN Num = 4
var VS string = "s"
var VB bool
var VL int64 = 6
var VR rune = 'r'
var VQ Str = "q"
var VT = T{A: 1}
var VP = &T{F: 2}
var VA struct{ x int64 }
var VL2 = []int{1}
var VPI = new(int)
var VE, VEE = two()

func two() (int, error)  { return 1, nil }
func VG() float64        { return 1 }
func fi() int            { return 1 }
func fn() Num            { return 1 }
func gid[X any](x X) X   { return x }
'''

SUB = '''package sub

type Num int

const C = 7
const CF = 1.25
const K Num = 9

var V Num = 2

func F() Num { return 1 }

type Any struct{ V interface{} }

func New(v interface{}) *Any { return &Any{v} }
'''

IMPORTS = '''package main

import (
	"fmt"
	"time"

	"m/sub"
)

var _ = fmt.Sprint
var _ time.Duration
var _ sub.Num

'''


def write(d, exprs, module):
    """exprs: [{e, t, c}]; -> names in order"""
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    open(os.path.join(d, "go.mod"), "w").write(module)
    open(os.path.join(d, "sub/sub.go"), "w").write(SUB)
    files, shows, names, i = [[], []], [], [], 0
    while i < len(exprs):
        x, out = exprs[i], files[(i // 3) % 2]
        n = "t%d" % i
        names.append(n)
        form = i % 5
        if form == 1 and i + 1 < len(exprs):
            names.append("t%d" % (i + 1))
            out.append("var %s, t%d = %s, %s" % (n, i + 1, x["e"], exprs[i + 1]["e"]))
            shows.append("\tp(%d, t%d)" % (i + 1, i + 1))
            i += 1
        elif form == 2:
            out.append("var (\n\t%s = %s\n\t_ = 0\n)" % (n, x["e"]))
        elif form == 3 and x["c"]:
            out.append("const k%d = %s\n\nvar %s = k%d" % (i, x["e"], n, i))
        elif form == 4:
            out.append("var %s = b%d\nvar b%d = %s" % (n, i, i, x["e"]))
        else:
            out.append("var %s = %s" % (n, x["e"]))
        k = int(n[1:])
        shows.append("\tp(%d, %s)" % (k, n))
        i += 1
    for j, f in enumerate(files):
        open(os.path.join(d, "vars%d.go" % j), "w").write(IMPORTS + "\n".join(f) + "\n")
    chunks = [shows[j:j + 200] for j in range(0, len(shows), 200)]
    body = "".join("func show%d() {\n%s\n}\n\n" % (j, "\n".join(c)) for j, c in enumerate(chunks))
    open(os.path.join(d, "main.go"), "w").write(
        IMPORTS + LEAVES + body + '''
func p(i int, v interface{}) {
	switch v.(type) {
	case int, float64, string, bool, int64, int32, Num, Str, sub.Num, time.Duration:
		fmt.Printf("%d\\t%T\\t%v\\n", i, v, v)
	default:
		fmt.Printf("%d\\t%T\\t\\n", i, v)
	}
}

func main() {
''' + "\n".join("\tshow%d()" % j for j in range(len(chunks))) + '''
	_, _, _, _, _, _, _, _, _ = VI, VU, VF, VN, VS, VB, VL, VR, VQ
	_, _, _, _, _, _ = VT, VP, VA, VL2, VPI, VEE
	fmt.Println("end")
}
''')
    return names
