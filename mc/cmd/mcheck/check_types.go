package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// A reference checker for TPTP TF1 formulas over a fixed signature.

// tx is an untyped expression: a term, a type or an atom.
type tx struct {
	s string
	a []*tx
}

func (t *tx) str() string {
	if t.s == "=" || t.s == "!=" {
		return t.a[0].str() + " " + t.s + " " + t.a[1].str()
	}
	if len(t.a) == 0 {
		return t.s
	}
	var b []string
	for _, x := range t.a {
		b = append(b, x.str())
	}
	return t.s + "(" + strings.Join(b, ",") + ")"
}

func tE(s string, a ...*tx) *tx { return &tx{s, a} }

func (t *tx) eq(u *tx) bool {
	if t.s != u.s || len(t.a) != len(u.a) {
		return false
	}
	for i := range t.a {
		if !t.a[i].eq(u.a[i]) {
			return false
		}
	}
	return true
}

// tscheme: type variables, types of the arguments, result.
type tscheme struct {
	tv  []string
	arg []*tx
	out *tx
}

type tsig struct {
	types map[string]int
	syms  map[string]tscheme
	decl  string
}

// tbind: a variable of the context; ty == nil: a type variable.
type tbind struct {
	n    string
	id   int // depth of the binder
	ty   *tx // its type, in the context of its binder
	seen int // length of the context of its type
}

type tctx struct {
	sig *tsig
	b   []tbind
}

func (c tctx) find(n string) int {
	for i := len(c.b) - 1; i >= 0; i-- {
		if c.b[i].n == n {
			return i
		}
	}
	return -1
}

func isVarName(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }

// ty reads t as a type: bound type variables become their depth.
func (c tctx) ty(t *tx) (*tx, bool) {
	if isVarName(t.s) {
		i := c.find(t.s)
		if i < 0 || c.b[i].ty != nil || len(t.a) > 0 {
			return nil, false
		}
		return tE(fmt.Sprintf("v%d", c.b[i].id)), true
	}
	n, ok := c.sig.types[t.s]
	if !ok || n != len(t.a) {
		return nil, false
	}
	r := tE(t.s)
	for _, x := range t.a {
		y, ok := c.ty(x)
		if !ok {
			return nil, false
		}
		r.a = append(r.a, y)
	}
	return r, true
}

func (t *tx) inst(tv []string, by []*tx) *tx {
	for i, v := range tv {
		if t.s == v {
			return by[i]
		}
	}
	r := tE(t.s)
	for _, x := range t.a {
		r.a = append(r.a, x.inst(tv, by))
	}
	return r
}

func canonT(t *tx) string {
	if len(t.a) == 0 {
		return t.s
	}
	var b []string
	for _, x := range t.a {
		b = append(b, canonT(x))
	}
	return t.s + "(" + strings.Join(b, ",") + ")"
}

// infer gives the type of a term and what it must be read as.
func (c tctx) infer(t *tx) (*tx, string, bool) {
	if isVarName(t.s) {
		i := c.find(t.s)
		if i < 0 || c.b[i].ty == nil || len(t.a) > 0 {
			return nil, "", false
		}
		return c.b[i].ty, fmt.Sprintf("v%d", c.b[i].id), true
	}
	sc, ok := c.sig.syms[t.s]
	if !ok || len(t.a) != len(sc.tv)+len(sc.arg) {
		return nil, "", false
	}
	var by []*tx
	s := "(" + t.s
	for i := range sc.tv {
		y, ok := c.ty(t.a[i])
		if !ok {
			return nil, "", false
		}
		by = append(by, y)
		s += " <" + canonT(y) + ">"
	}
	for i, x := range sc.arg {
		y, z, ok := c.infer(t.a[len(sc.tv)+i])
		if !ok || !y.eq(x.inst(sc.tv, by)) {
			return nil, "", false
		}
		s += " " + z
	}
	return sc.out.inst(sc.tv, by), s + ")", true
}

// tf is a formula: an atom, a connective or a quantifier.
type tf struct {
	op  string // "", "~", "&", "|", "=>", "!", "?"
	at  *tx
	k   []*tf
	v   []tbind // n and ty (nil: $tType) as written
	two bool
}

func tA(a *tx) *tf { return &tf{at: a} }

func tB(op string, a, b *tf) *tf { return &tf{op: op, k: []*tf{a, b}} }

func tQ(op string, v []tbind, f *tf) *tf { return &tf{op: op, k: []*tf{f}, v: v} }

func tV(s ...any) (r []tbind) {
	for i := 0; i < len(s); i += 2 {
		b := tbind{n: s[i].(string)}
		if t, ok := s[i+1].(*tx); ok {
			b.ty = t
		}
		r = append(r, b)
	}
	return
}

func (f *tf) str() string {
	switch f.op {
	case "":
		return f.at.str()
	case "~":
		return "~ (" + f.k[0].str() + ")"
	case "!", "?":
		var b []string
		for _, v := range f.v {
			t := "$tType"
			if v.ty != nil {
				t = v.ty.str()
			}
			b = append(b, v.n+": "+t)
		}
		return f.op + " [" + strings.Join(b, ",") + "] : (" + f.k[0].str() + ")"
	}
	return "(" + f.k[0].str() + ") " + f.op + " (" + f.k[1].str() + ")"
}

var tfOps = map[string]string{"&": "and", "|": "or", "=>": "imp", "!": "all", "?": "ex", "~": "not", "<=>": "equ"}

func (c tctx) check(f *tf) (string, bool) {
	switch f.op {
	case "":
		if f.at.s == "=" || f.at.s == "!=" {
			t, a, ok := c.infer(f.at.a[0])
			u, b, ok2 := c.infer(f.at.a[1])
			if !ok || !ok2 || !t.eq(u) || t.s == "$o" {
				return "", false
			}
			s := "(= <" + canonT(t) + "> " + a + " " + b + ")"
			if f.at.s == "!=" {
				s = "(not " + s + ")"
			}
			return s, true
		}
		t, s, ok := c.infer(f.at)
		return s, ok && t.s == "$o"
	case "!", "?":
		s := "(" + tfOps[f.op]
		n := c
		n.b = append([]tbind{}, c.b...)
		for _, v := range f.v {
			b := tbind{n: v.n, id: len(n.b)}
			if v.ty == nil {
				s += " $tType"
			} else {
				t, ok := n.ty(v.ty)
				if !ok || t.s == "$o" {
					return "", false
				}
				b.ty = t
				s += " " + canonT(t)
			}
			n.b = append(n.b, b)
		}
		g, ok := n.check(f.k[0])
		return s + " " + g + ")", ok
	}
	s := "(" + tfOps[f.op]
	for _, g := range f.k {
		x, ok := c.check(g)
		if !ok {
			return "", false
		}
		s += " " + x
	}
	return s + ")", true
}

func stdSig() *tsig {
	s := &tsig{types: map[string]int{"nat": 0, "$i": 0, "list": 1, "$int": 0, "map": 2}, syms: map[string]tscheme{}}
	A, B, nat, ind, o := tE("A"), tE("B"), tE("nat"), tE("$i"), tE("$o")
	list := func(x *tx) *tx { return tE("list", x) }
	d := []string{"nat: $tType", "list: $tType > $tType", "map: ($tType * $tType) > $tType"}
	add := func(n string, tv []string, arg []*tx, out *tx) {
		s.syms[n] = tscheme{tv, arg, out}
		t := out.str()
		if len(arg) == 1 {
			t = arg[0].str() + " > " + t
		} else if len(arg) > 1 {
			var b []string
			for _, x := range arg {
				b = append(b, x.str())
			}
			t = "(" + strings.Join(b, " * ") + ") > " + t
		}
		if len(tv) > 0 {
			var b []string
			for _, x := range tv {
				b = append(b, x+": $tType")
			}
			t = "!> [" + strings.Join(b, ",") + "] : (" + t + ")"
		}
		d = append(d, n+": "+t)
	}
	add("a", nil, nil, nat)
	add("b", nil, nil, ind)
	add("f", nil, []*tx{nat}, nat)
	add("g", nil, []*tx{nat, ind}, nat)
	add("nil", []string{"A"}, nil, list(A))
	add("cons", []string{"A"}, []*tx{A, list(A)}, list(A))
	add("h", []string{"A", "B"}, []*tx{tE("map", A, B)}, list(B))
	add("m", []string{"B"}, []*tx{B}, tE("map", B, nat))
	add("q", nil, nil, o)
	add("p", nil, []*tx{nat}, o)
	add("r", nil, []*tx{nat, ind}, o)
	add("pp", []string{"A"}, []*tx{A}, o)
	add("pl", []string{"A"}, []*tx{list(A), A}, o)
	for i, x := range d {
		s.decl += fmt.Sprintf("tff(d%d,type,%s).\n", i, x)
	}
	return s
}

// tterms: every application of the symbols to the atoms, with at most three arguments.
func tterms(l0 []*tx, l0small []*tx, syms []string) (r []*tx) {
	for _, s := range syms {
		for _, x := range l0 {
			r = append(r, tE(s, x))
			for _, y := range l0 {
				r = append(r, tE(s, x, y))
			}
		}
		if s != "cons" && s != "h" && s != "g" {
			continue
		}
		for _, x := range l0small {
			for _, y := range l0small {
				for _, z := range l0small {
					r = append(r, tE(s, x, y, z))
				}
			}
		}
	}
	return
}

type tcase struct {
	f   *tf
	fam string
}

func typeCases(th bool) (r []tcase) {
	add := func(fam string, f *tf) { r = append(r, tcase{f, fam}) }
	a, b, nat, ind := tE("a"), tE("b"), tE("nat"), tE("$i")
	lst := func(x *tx) *tx { return tE("list", x) }
	nilOf := func(x *tx) *tx { return tE("nil", x) }
	// atoms without variables
	l0 := []*tx{a, b, tE("nil"), tE("q"), nat, ind, lst(nat), nilOf(nat), tE("f")}
	l1 := append(append([]*tx{}, l0...), tterms(l0, []*tx{a, b, nat, ind, nilOf(nat)}, []string{"f", "g", "nil", "cons", "h", "m", "list", "p", "a"})...)
	ty := []*tx{nat, ind, lst(nat), lst(lst(nat)), lst(ind), tE("map", nat, ind), tE("list"), tE("map", nat), a, b, lst(a), tE("$int")}
	vals := []*tx{a, b, nilOf(nat), nilOf(lst(nat)), nilOf(ind), tE("cons", nat, a, nilOf(nat)), tE("f", a), tE("m", nat, a), tE("h", nat, nat, tE("m", nat, a)), tE("q"), nat}
	for _, t := range l1 {
		add("atom", tA(t))
		add("atom", tA(tE("p", t)))
		for _, y := range ty {
			add("atom", tA(tE("pp", y, t)))
		}
		for _, y := range vals {
			add("equality", tA(tE("=", t, y)))
			add("equality", tA(tE("!=", y, t)))
		}
		add("atom", tA(tE("r", t, b)))
		add("atom", tA(tE("r", a, t)))
		add("atom", tA(tE("p", t, a)))
		add("atom", tA(tE("pp", t, nat)))
		add("deep", tA(tE("p", tE("f", t))))
		add("deep", tA(tE("p", tE("g", t, b))))
		add("deep", tA(tE("pp", lst(nat), tE("cons", nat, t, nilOf(nat)))))
		add("deep", tA(tE("pp", lst(nat), tE("cons", nat, a, t))))
		add("deep", tA(tE("pl", nat, t, a)))
		add("deep", tA(tE("pl", t, nilOf(nat), a)))
		add("deep", tA(tE("pp", lst(lst(nat)), tE("cons", lst(nat), t, nilOf(lst(nat))))))
	}
	for _, x := range ty {
		for _, v := range vals {
			for _, w := range vals {
				add("atom", tA(tE("pl", x, v, w)))
			}
		}
	}
	for _, v := range vals {
		for _, w := range vals {
			add("equality", tA(tE("=", v, w)))
		}
	}
	// variables
	X, Y, A, B := tE("X"), tE("Y"), tE("A"), tE("B")
	tt := any(nil)
	ctxs := [][]tbind{
		tV("X", nat), tV("X", ind), tV("X", lst(nat)), tV("X", lst(lst(nat))), tV("A", tt, "X", A), tV("A", tt, "X", lst(A)), tV("A", tt, "B", tt, "X", tE("map", A, B)),
		tV("X", tE("list")), tV("X", lst(a)), tV("X", tE("undeclared")), tV("X", tE("nat", nat)), tV("X", A),
		tV("X", A, "A", tt), tV("X", tt), tV("X", nat, "Y", X), tV("A", tt, "X", tE("A", nat)), tV("X", tE("$int")), tV("X", nat, "Y", ind), tV("A", tt, "X", A, "B", tt, "Y", B),
		tV("A", tt, "X", A, "Y", A), tV("A", nat, "X", A), tV("X", tE("p")),
	}
	ones := len(ctxs)
	// a variable bound again
	ctxs = append(ctxs, tV("X", nat, "X", ind), tV("X", ind, "X", nat), tV("A", tt, "X", A, "A", tt), tV("A", tt, "X", A, "A", tt, "Y", A))
	v0 := []*tx{X, Y, A, a, nat, lst(A), nilOf(A), b}
	v1 := append(append([]*tx{}, v0...), tterms(v0, []*tx{X, A, a, nilOf(A)}, []string{"f", "nil", "cons", "m", "list"})...)
	vty := []*tx{A, nat, lst(A), X, B}
	for ci, cx := range ctxs {
		for _, one := range []bool{true, false} { // in one quantifier or in several
			if one && ci >= ones {
				continue
			}
			qs := []string{"!"}
			hasT := false
			for _, v := range cx {
				hasT = hasT || v.ty == nil
			}
			if !hasT {
				qs = append(qs, "?")
			}
			for _, q := range qs {
				w := func(f *tf) *tf {
					if one {
						return tQ(q, cx, f)
					}
					for i := len(cx) - 1; i >= 0; i-- {
						f = tQ(q, cx[i:i+1], f)
					}
					return f
				}
				fam := "variables"
				if q == "?" && !th {
					add(fam, w(tA(tE("p", X))))
					add(fam, w(tA(tE("r", X, Y))))
					add(fam, w(tA(tE("=", X, Y))))
					add(fam, w(tA(tE("=", X, a))))
					continue
				}
				for _, t := range v1 {
					add(fam, w(tA(tE("p", t))))
					add(fam, w(tA(tE("=", X, t))))
					if !one && !th && ci < ones {
						continue
					}
					add(fam, w(tA(tE("r", t, Y))))
					add(fam, w(tA(tE("=", t, X))))
					for _, y := range vty {
						add(fam, w(tA(tE("pp", y, t))))
					}
				}
			}
		}
	}
	// well-typed atoms, and the same with one subterm replaced
	m := tE
	byTy := map[string][]*tx{}
	tys := []*tx{nat, ind, lst(nat), lst(ind), lst(lst(nat)), m("map", nat, nat), m("map", ind, nat), m("map", lst(nat), nat)}
	for d := 0; d < 4; d++ {
		nx := map[string][]*tx{}
		get := func(t *tx) []*tx {
			l := byTy[canonT(t)]
			if d >= 2 && !th && len(l) > 4 {
				l = l[:4]
			}
			return l
		}
		for _, t := range tys {
			var r []*tx
			switch {
			case t.s == "nat":
				r = append(r, a)
				for _, x := range get(nat) {
					r = append(r, m("f", x), m("g", x, b))
				}
			case t.s == "$i":
				r = append(r, b)
			case t.s == "list":
				r = append(r, m("nil", t.a[0]))
				for _, x := range get(t.a[0]) {
					for _, y := range get(t) {
						r = append(r, m("cons", t.a[0], x, y))
					}
				}
				if t.a[0].s == "nat" {
					for _, k := range []*tx{nat, ind, lst(nat)} {
						for _, x := range get(m("map", k, nat)) {
							r = append(r, m("h", k, nat, x))
						}
					}
				}
			case t.s == "map":
				for _, x := range get(t.a[0]) {
					r = append(r, m("m", t.a[0], x))
				}
			}
			nx[canonT(t)] = r
		}
		byTy = nx
	}
	repl := []*tx{a, b, nat, nilOf(nat), lst(nat), nilOf(ind)}
	var mut func(t *tx, f func(*tx))
	mut = func(t *tx, f func(*tx)) {
		f(t)
		for _, x := range repl {
			f(x)
		}
		for i := range t.a {
			mut(t.a[i], func(u *tx) {
				k := &tx{t.s, append([]*tx{}, t.a...)}
				k.a[i] = u
				f(k)
			})
		}
	}
	for _, t := range tys {
		for i, x := range byTy[canonT(t)] {
			at := []*tx{m("pp", t, x)}
			switch {
			case t.s == "nat":
				at = append(at, m("p", x), m("r", x, b), m("=", x, a))
			case t.s == "list" && len(byTy[canonT(t.a[0])]) > 0:
				at = append(at, m("pl", t.a[0], x, byTy[canonT(t.a[0])][0]), m("=", m("nil", t.a[0]), x))
			}
			for j, y := range at {
				add("typed", tA(y))
				if th || i%2 == 0 || j == 0 {
					if y.s == "=" {
						for _, z := range repl {
							add("mutated", tA(m("=", y.a[0], z)))
						}
						mut(y.a[1], func(u *tx) { add("mutated", tA(m("=", y.a[0], u))) })
					} else {
						mut(y, func(u *tx) {
							if u.s == y.s {
								add("mutated", tA(u))
							}
						})
					}
				}
			}
		}
	}
	// scopes: a variable is visible under its quantifier only, with the type of the nearest one
	at := []*tf{tA(tE("p", X)), tA(tE("pp", ind, X)), tA(tE("p", Y)), tA(tE("r", X, Y)), tA(tE("=", X, a)), tA(tE("q"))}
	var one []*tf
	for _, q := range []string{"!", "?"} {
		for _, v := range [][]tbind{tV("X", nat), tV("X", ind), tV("Y", nat), tV("Y", ind)} {
			for _, f := range at {
				one = append(one, tQ(q, v, f))
			}
		}
	}
	var two []*tf
	for _, o := range []string{"&", "=>", "<=>"} {
		for _, f := range one {
			for _, g := range at {
				two = append(two, tB(o, f, g), tB(o, g, f))
			}
			for _, g := range one {
				add("scope", tB(o, f, g))
			}
		}
	}
	for _, f := range two {
		add("scope", f)
		add("scope", tQ("!", tV("X", nat), f))
		add("scope", tQ("?", tV("Y", ind), f))
		add("scope", tQ("!", tV("X", ind, "Y", ind), f))
		if th {
			add("scope", tQ("!", tV("Y", nat), tQ("?", tV("X", nat), f)))
		}
	}
	// type variables bound in several places
	pat := []*tf{tA(tE("pp", A, X)), tA(tE("pp", B, X)), tA(tE("pp", nat, X)), tA(tE("=", X, Y)), tA(tE("pp", lst(A), tE("cons", A, X, nilOf(A))))}
	for _, o := range []string{"&", "=>"} {
		for _, v := range [][]tbind{tV("A", tt, "X", A), tV("B", tt, "X", B), tV("A", tt, "B", tt, "X", B), tV("X", nat)} {
			for _, f := range pat {
				for _, g := range pat {
					add("scope", tB(o, tQ("!", v, f), g))
					add("scope", tQ("!", v, tB(o, tQ("!", v, f), g)))
					add("scope", tQ("!", tV("A", tt, "Y", A), tB(o, g, tQ("!", v, f))))
					add("scope", tQ("!", tV("A", tt), tQ("?", tV("Y", A), tB(o, tQ("!", v, f), tQ("!", v, g)))))
				}
			}
		}
	}
	// many variables: n in scope, some more under a subformula, then each is used
	nm := func(p string, i int) string { return fmt.Sprintf("%s%d", p, i) }
	for n := 0; n <= 9; n++ {
		for m := 0; m <= 6; m++ {
			for _, pre := range [][2]string{{"X", "Y"}, {"X", "X"}, {"X", "Xa"}} {
				for side := 0; side < 2; side++ {
					var vs, ws []tbind
					for i := 0; i < n; i++ {
						t := nat
						if i%3 == 1 {
							t = ind
						}
						vs = append(vs, tbind{n: nm(pre[0], i), ty: t})
					}
					for i := 0; i < m; i++ {
						ws = append(ws, tbind{n: nm(pre[1], i), ty: nat})
					}
					use := tA(tE("q"))
					for _, v := range vs {
						use = tB("&", use, tA(tE("pp", v.ty, tE(v.n))))
					}
					in := tA(tE("q"))
					for i := len(ws) - 1; i >= 0; i-- {
						in = tB("&", in, tA(tE("p", tE(ws[i].n))))
					}
					if m > 0 {
						in = tQ("?", ws, in)
					}
					f := tB("&", in, use)
					if side == 1 {
						f = tB("&", use, in)
					}
					if n > 0 {
						f = tQ("!", vs, f)
					}
					add("many", f)
				}
			}
		}
	}
	return
}

func init() {
	checks["G09"] = func(c *Ctx) {
		c.Cov["rule"] = "every listed formula over a fixed polymorphic signature, well typed or not, is loaded by the real code; it is accepted exactly if the reference TF1 checker types it, and is then read with the reference's type arguments; non-trivial: the formula is well typed"
		if _, err := os.Stat(filepath.Join(c.Build, "dumper")); err != nil {
			fatal("the loader cannot be built into the engine")
		}
		sig := stdSig()
		type job struct {
			tcase
			text, want string
			ok         bool
		}
		var jobs []*Job
		seen := map[string]bool{}
		for _, x := range typeCases(c.Thorough()) {
			s := x.f.str()
			if seen[s] {
				continue
			}
			seen[s] = true
			if f := os.Getenv("G09_FAM"); f != "" && f != x.fam {
				continue
			}
			w, ok := tctx{sig: sig}.check(x.f)
			if a := x.f.at; a != nil && (a.s == "=" || a.s == "!=") {
				if t, _, k := (tctx{sig: sig}).infer(a.a[0]); k && t.s == "$o" {
					if u, _, k := (tctx{sig: sig}).infer(a.a[1]); k && u.s == "$o" {
						continue // an equality between formulas (TFX)
					}
				}
			}
			j := &Job{Unit: "load", Args: []string{"p.p"}, Files: map[string]string{"p.p": sig.decl + "tff(c,conjecture," + s + ").\n"}, MaxSteps: 20000, MaxMs: 10000, meta: job{x, s, w, ok}}
			if x.fam == "scope" || x.fam == "many" {
				j.Policies = []int{0, 1, 2, 3}
			}
			jobs = append(jobs, j)
		}
		c.Cov["texts"] = len(jobs)
		cnt := map[string]int{}
		nontriv := 0
		p := c.Pool("dumper")
		p.WallMax = 30 * time.Second
		var vs []violation
		p.DoList(jobs, func(j *Job, r *Result) {
			x := j.meta.(job)
			for _, o := range r.Outcomes {
				acc := o.Out != "" && o.Kind == "exit" && o.Code == 0
				cnt[fmt.Sprintf("%s well-typed=%v accepted=%v", x.fam, x.ok, acc)]++
				if o.Kind == "hang" || o.Kind == "timeout" {
					continue
				}
				bad := func(s string) {
					vs = append(vs, violation{x.text, s, map[string]any{"text": j.Files["p.p"]}})
				}
				switch {
				case acc && !x.ok:
					bad("ill typed and accepted: " + x.text)
				case !acc && x.ok:
					bad(fmt.Sprintf("well typed and refused: %s: %s %d %s", x.text, o.Kind, o.Code, tailOf(o.Msg)))
				case acc:
					nontriv++
					got, err := canonDump(o.Out[strings.Index(o.Out, "("):])
					got = strings.ReplaceAll(got, ", ", ",")
					if err != nil || got != "(not "+x.want+")" {
						bad(fmt.Sprintf("%s must be read as (not %s), and is read as %s", x.text, x.want, got))
					}
					if nontriv%2001 == 1 {
						c.Sample(map[string]any{"formula": x.text, "read": got})
					}
				case o.Kind != "exit" || o.Code == 0:
					bad(fmt.Sprintf("ill typed and not refused cleanly: %s: %s %d %s", x.text, o.Kind, o.Code, tailOf(o.Msg)))
				}
			}
		})
		for _, v := range vs {
			c.Violate(v.Key, v.What, v.Replay)
		}
		c.Cov["distinct_nontrivial"] = nontriv
		c.Cov["texts_by_family_and_answer"] = cnt
	}
}
