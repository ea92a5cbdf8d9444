// Package zzref: reference terms and unification, and the unit protocol.
package zzref

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
)

// T is a reference term: V >= 0 is a variable, otherwise a symbol applied.
type T struct {
	V int
	F string
	A []*T
}

func V(i int) *T             { return &T{V: i} }
func F(f string, a ...*T) *T { return &T{V: -1, F: f, A: a} }
func (t *T) IsVar() bool     { return t.V >= 0 }
func VarName(i int) string   { return string(rune('X'-'A'+'A'+i%3)) + strings.Repeat("'", i/3) }
func (t *T) String() string {
	if t.IsVar() {
		return VarName(t.V)
	}
	if len(t.A) == 0 {
		return t.F
	}
	var s []string
	for _, a := range t.A {
		s = append(s, a.String())
	}
	return t.F + "(" + strings.Join(s, ",") + ")"
}

func Eq(a, b *T) bool {
	if a.V != b.V || a.F != b.F || len(a.A) != len(b.A) {
		return false
	}
	for i := range a.A {
		if !Eq(a.A[i], b.A[i]) {
			return false
		}
	}
	return true
}

type Sub map[int]*T

func (s Sub) App(t *T) *T {
	if t.IsVar() {
		if u, ok := s[t.V]; ok {
			return s.App(u)
		}
		return t
	}
	if len(t.A) == 0 {
		return t
	}
	r := &T{V: -1, F: t.F}
	for _, a := range t.A {
		r.A = append(r.A, s.App(a))
	}
	return r
}

func (s Sub) Occurs(v int, t *T) bool {
	if t.IsVar() {
		if t.V == v {
			return true
		}
		if u, ok := s[t.V]; ok {
			return s.Occurs(v, u)
		}
		return false
	}
	for _, a := range t.A {
		if s.Occurs(v, a) {
			return true
		}
	}
	return false
}

func (s Sub) walk(t *T) *T {
	for t.IsVar() {
		u, ok := s[t.V]
		if !ok {
			return t
		}
		t = u
	}
	return t
}

// Unify extends s (triangular form).
func (s Sub) Unify(a, b *T) bool {
	a, b = s.walk(a), s.walk(b)
	switch {
	case a.IsVar() && b.IsVar() && a.V == b.V:
		return true
	case a.IsVar():
		if s.Occurs(a.V, b) {
			return false
		}
		s[a.V] = b
		return true
	case b.IsVar():
		return s.Unify(b, a)
	}
	if a.F != b.F || len(a.A) != len(b.A) {
		return false
	}
	for i := range a.A {
		if !s.Unify(a.A[i], b.A[i]) {
			return false
		}
	}
	return true
}

func (t *T) Vars(m map[int]bool) {
	if t.IsVar() {
		m[t.V] = true
	}
	for _, a := range t.A {
		a.Vars(m)
	}
}

func (t *T) Size() int {
	n := 1
	for _, a := range t.A {
		n += a.Size()
	}
	return n
}

// ---- unit protocol: one process per shard, JSON lines on stdout ----

type U struct {
	Unit, Tier     string
	Shard, N       int
	Evals, NonTriv int
	States, Trans  int
	viol           int
	samples        int
	out            *bufio.Writer
	i              int
	Extra          map[string]int
}

func Start() *U {
	debug.SetGCPercent(400)
	u := &U{Unit: os.Args[1], Tier: os.Args[2], out: bufio.NewWriter(os.Stdout), Extra: map[string]int{}}
	u.Shard, _ = strconv.Atoi(os.Args[3])
	u.N, _ = strconv.Atoi(os.Args[4])
	return u
}

func (u *U) Thorough() bool { return u.Tier == "thorough" }

// Mine partitions the enumeration.
func (u *U) Mine() bool {
	u.i++
	return u.i%u.N == u.Shard
}

func (u *U) emit(m map[string]any) {
	b, _ := json.Marshal(m)
	u.out.Write(b)
	u.out.WriteByte('\n')
}

func (u *U) Violate(key, what string, replay any) {
	u.viol++
	if u.viol <= 20 {
		u.emit(map[string]any{"viol": key, "what": what, "replay": replay})
		u.out.Flush()
	}
}

func (u *U) Sample(v any) {
	if u.samples < 2 {
		u.samples++
		u.emit(map[string]any{"sample": v})
	}
}

// Guard runs f and reports a panic as a violation.
func (u *U) Guard(key string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			u.Violate("panic "+key, fmt.Sprintf("panic: %v", r), string(debug.Stack()))
		}
	}()
	f()
}

func (u *U) Done() {
	u.emit(map[string]any{"done": true, "evals": u.Evals, "nontriv": u.NonTriv, "states": u.States, "trans": u.Trans, "violn": u.viol, "extra": u.Extra})
	u.out.Flush()
	os.Exit(0)
}
