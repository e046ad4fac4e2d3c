// Package t is the program under test: plain functions, methods on value and
// pointer receivers, and package variables.
package t

import "verifharness"

func F0(x int) int { return harness.Body("-", "F0", x) }

func F1(x int) (r int) { return harness.Body("-", "F1", x) }

// D0 has a deferred part that runs however the body ends
func D0(x int) int {
	defer harness.Deferred("D0")
	return harness.Body("-", "D0", x)
}

type T struct{ Name string }

func (t T) TM(x int) int { return harness.Body(t.Name, "TM", x) }

type P struct{ Name string }

func (p *P) PN(x int) int { return harness.Body(p.Name, "PN", x) }

var Ta, Tb = T{"a"}, T{"b"}
var Pa, Pb = &P{"a"}, &P{"b"}

var V0 int = 7
var V1 int = 7

// RawV0 and RawV1 are the variables' real addresses
var RawV0, RawV1 *int

func init() { RawV0, RawV1 = &V0, &V1 }

func ReadV0() int   { return V0 }
func ReadV1() int   { return V1 }
func PtrV0() *int   { p := &V0; return p }
func PtrV1() *int   { return &V1 }
func WriteV0(x int) { V0 = x }
func WriteV1(x int) { *RawV1 = x }
