package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
)

// subsets calls f with every subset of at most k of the formulas, and each
// conjecture (nil: none).
// Sets of two or more axioms are restricted to those whose indices add up to a
// multiple of mod.
func typedFamily(fam string, sig *tsig, ax, cj []*tf, k, mod int) (r []*tproblem) {
	var rec func(i, sum int, cur []*tf)
	rec = func(i, sum int, cur []*tf) {
		if len(cur) > 1 && sum%mod != 0 {
			return
		}
		for _, c := range cj {
			r = append(r, &tproblem{sig: sig, ax: append([]*tf{}, cur...), conj: c, fam: fam})
		}
		if len(cur) > 0 {
			r = append(r, &tproblem{sig: sig, ax: append([]*tf{}, cur...), fam: fam})
		}
		if len(cur) == k {
			return
		}
		for ; i < len(ax); i++ {
			rec(i+1, sum+i, append(cur[:len(cur):len(cur)], ax[i]))
		}
	}
	rec(0, 0, nil)
	return
}

func fA(s string, a ...*tx) *tf { return tA(tE(s, a...)) }
func fN(f *tf) *tf              { return &tf{op: "~", k: []*tf{f}} }
func fAll(f *tf, v ...any) *tf  { return tQ("!", tV(v...), f) }
func fEx(f *tf, v ...any) *tf   { return tQ("?", tV(v...), f) }

// famTF0: two sorts, no equality: every pair of two-quantifier literals.
func famTF0(th bool) (r []*tproblem) {
	s, t := tE("s"), tE("t")
	o := tE("$o")
	sig := newTsig()
	sig.addType("s", 0)
	sig.addType("t", 0)
	sig.addSym("a", nil, nil, s)
	sig.addSym("b", nil, nil, t)
	sig.addSym("f", nil, []*tx{s}, t)
	sig.addSym("g", nil, []*tx{t}, s)
	sig.addSym("p", nil, []*tx{s}, o)
	sig.addSym("q", nil, []*tx{t}, o)
	sig.addSym("r", nil, []*tx{s, t}, o)
	X, Y := tE("X"), tE("Y")
	mk := func(q1, q2 string, tx1, ty1 *tx, first bool) (r []*tf) {
		var at []*tf
		st := map[string][]*tx{"s": {tE("a")}, "t": {tE("b")}}
		st[tx1.s] = append(st[tx1.s], X)
		st[ty1.s] = append(st[ty1.s], Y)
		for _, x := range st["s"] {
			at = append(at, fA("p", x))
		}
		for _, y := range st["t"] {
			at = append(at, fA("q", y))
		}
		for _, x := range st["s"] {
			for _, y := range st["t"] {
				at = append(at, fA("r", x, y))
			}
		}
		if tx1.s == "s" {
			at = append(at, fA("q", tE("f", X)), fA("r", X, tE("f", X)))
		}
		if ty1.s == "t" {
			at = append(at, fA("p", tE("g", Y)), fA("r", tE("g", Y), Y))
		}
		for _, a := range at {
			r = append(r, tQ(q1, tV("X", tx1), tQ(q2, tV("Y", ty1), a)))
			if th {
				r = append(r, tQ(q1, tV("X", tx1), tQ(q2, tV("Y", ty1), fN(a))))
			}
		}
		return
	}
	var fs []*tf
	for _, c := range [][2]*tx{{s, t}, {t, s}, {s, s}, {t, t}} {
		for _, q1 := range []string{"!", "?"} {
			for _, q2 := range []string{"!", "?"} {
				fs = append(fs, mk(q1, q2, c[0], c[1], true)...)
			}
		}
	}
	for i, f := range fs {
		for j, g := range fs {
			if !th && (i+j)%13 != 0 {
				continue
			}
			r = append(r, &tproblem{sig: sig, conj: tB("=>", f, g), fam: "tf0"})
		}
	}
	return
}

// famTF0Eq: two sorts and equality.
func famTF0Eq(k, mod int) []*tproblem {
	s, t := tE("s"), tE("t")
	o := tE("$o")
	sig := newTsig()
	sig.addType("s", 0)
	sig.addType("t", 0)
	for _, n := range []string{"a", "a2"} {
		sig.addSym(n, nil, nil, s)
	}
	for _, n := range []string{"b", "b2"} {
		sig.addSym(n, nil, nil, t)
	}
	sig.addSym("f", nil, []*tx{s}, t)
	sig.addSym("g", nil, []*tx{t}, s)
	sig.addSym("p", nil, []*tx{s}, o)
	sig.addSym("q", nil, []*tx{t}, o)
	X, Y, a, a2, b, b2 := tE("X"), tE("Y"), tE("a"), tE("a2"), tE("b"), tE("b2")
	f := func(x *tx) *tx { return tE("f", x) }
	g := func(x *tx) *tx { return tE("g", x) }
	eq := func(x, y *tx) *tf { return fA("=", x, y) }
	ne := func(x, y *tx) *tf { return fA("!=", x, y) }
	ax := []*tf{
		fAll(eq(X, a), "X", s), fAll(eq(X, b), "X", t), fAll(tB("|", eq(X, a), eq(X, a2)), "X", s), eq(f(a), b), eq(g(b), a),
		fAll(eq(g(f(X)), X), "X", s), fAll(eq(f(g(X)), X), "X", t), fAll(fA("p", X), "X", s), fA("p", a), fA("q", b),
		fAll(tB("=>", fA("p", X), fA("q", f(X))), "X", s), fEx(ne(X, a), "X", s), fAll(tB("=>", eq(f(X), f(Y)), eq(X, Y)), "X", s, "Y", s),
		eq(a, a2), ne(f(a), f(a2)), fAll(eq(f(X), b), "X", s), fAll(tB("=>", fA("q", X), eq(X, b)), "X", t),
	}
	cj := []*tf{
		eq(b, b2), eq(a, a2), eq(f(a), f(a2)), fA("q", b2), fA("p", a2), fAll(eq(X, Y), "X", t, "Y", t), fAll(eq(X, Y), "X", s, "Y", s),
		fEx(fA("q", X), "X", t), fAll(fEx(eq(f(Y), X), "Y", s), "X", t), fEx(eq(g(f(X)), X), "X", s), eq(g(f(a)), a), fA("q", f(a)), fA("p", g(b)),
		fEx(ne(X, a), "X", s), fAll(fA("p", X), "X", s), fEx(tB("&", eq(X, b2), fA("q", X)), "X", t), fEx(eq(X, X), "X", t),
	}
	return typedFamily("tf0eq", sig, ax, cj, k, mod)
}

func tf1Sig() *tsig {
	sig := newTsig()
	A, B, nat, o := tE("A"), tE("B"), tE("nat"), tE("$o")
	l := func(x *tx) *tx { return tE("list", x) }
	sig.addType("nat", 0)
	sig.addType("list", 1)
	sig.addSym("a", nil, nil, nat)
	sig.addSym("b", nil, nil, nat)
	sig.addSym("p", nil, []*tx{nat}, o)
	sig.addSym("pp", []string{"A"}, []*tx{A}, o)
	sig.addSym("c", []string{"A"}, nil, A)
	sig.addSym("fn", []string{"A"}, []*tx{A}, A)
	sig.addSym("w", []string{"A"}, nil, o)
	sig.addSym("k", []string{"A", "B"}, []*tx{A, B}, o)
	sig.addSym("nil", []string{"A"}, nil, l(A))
	sig.addSym("hd", []string{"A"}, []*tx{l(A)}, A)
	sig.addSym("cast", []string{"A", "B"}, []*tx{A}, B)
	return sig
}

// famTF1: polymorphic symbols.
func famTF1(k, mod int) []*tproblem {
	A, B, X, Y, nat, a, b := tE("A"), tE("B"), tE("X"), tE("Y"), tE("nat"), tE("a"), tE("b")
	l := func(x *tx) *tx { return tE("list", x) }
	var T any
	pp := func(t, x *tx) *tf { return fA("pp", t, x) }
	kk := func(t, u, x, y *tx) *tf { return fA("k", t, u, x, y) }
	w := func(t *tx) *tf { return fA("w", t) }
	imp := func(f, g *tf) *tf { return tB("=>", f, g) }
	fn := func(t, x *tx) *tx { return tE("fn", t, x) }
	cc := func(t *tx) *tx { return tE("c", t) }
	nl := func(t *tx) *tx { return tE("nil", t) }
	ln := l(nat)
	ax := []*tf{
		fAll(pp(A, X), "A", T, "X", A), fAll(pp(nat, X), "X", nat), pp(nat, a), fAll(pp(A, cc(A)), "A", T),
		fAll(imp(pp(A, X), pp(A, fn(A, X))), "A", T, "X", A), fAll(pp(l(A), X), "A", T, "X", l(A)),
		fAll(w(A), "A", T), w(nat), fAll(imp(w(A), w(l(A))), "A", T),
		fAll(kk(A, B, X, Y), "A", T, "B", T, "X", A, "Y", B), fAll(kk(A, A, X, X), "A", T, "X", A),
		fAll(imp(kk(A, B, X, Y), kk(B, A, Y, X)), "A", T, "B", T, "X", A, "Y", B), kk(nat, ln, a, nl(nat)),
		fAll(fEx(kk(A, A, X, Y), "Y", A), "A", T, "X", A), fAll(imp(pp(A, X), w(A)), "A", T, "X", A),
		fEx(fN(pp(nat, X)), "X", nat), fN(w(ln)), fAll(pp(A, tE("hd", A, X)), "A", T, "X", l(A)),
		fAll(imp(kk(A, B, X, Y), pp(A, X)), "A", T, "B", T, "X", A, "Y", B), fAll(fA("p", tE("cast", A, nat, X)), "A", T, "X", A),
		fAll(imp(pp(A, X), pp(B, tE("cast", A, B, X))), "A", T, "B", T, "X", A), fAll(tB("|", pp(A, X), w(A)), "A", T, "X", A),
		fAll(imp(fEx(pp(A, X), "X", A), w(A)), "A", T),
	}
	cj := []*tf{
		pp(nat, a), pp(nat, b), fAll(pp(nat, X), "X", nat), fAll(pp(A, X), "A", T, "X", A), fAll(pp(A, cc(A)), "A", T), pp(ln, nl(nat)),
		w(nat), w(ln), fAll(w(A), "A", T), fAll(w(l(A)), "A", T), w(l(ln)), kk(nat, nat, a, b), kk(ln, nat, nl(nat), a),
		fAll(kk(A, A, X, X), "A", T, "X", A), fAll(kk(A, B, X, Y), "A", T, "B", T, "X", A, "Y", B), fEx(kk(nat, nat, X, a), "X", nat),
		fEx(kk(nat, ln, X, Y), "X", nat, "Y", ln), fAll(imp(fAll(pp(A, X), "X", A), pp(A, cc(A))), "A", T),
		fAll(imp(fAll(pp(A, X), "X", A), fAll(pp(B, Y), "Y", B)), "A", T, "B", T), fAll(imp(w(A), w(B)), "A", T, "B", T), fAll(imp(w(A), w(A)), "A", T),
		pp(nat, fn(nat, a)), pp(nat, fn(nat, fn(nat, a))), fEx(pp(nat, X), "X", nat), fEx(pp(ln, X), "X", ln), fAll(fEx(kk(A, A, X, Y), "Y", A), "A", T, "X", A),
		pp(nat, tE("hd", nat, nl(nat))), fA("p", a), fEx(fA("p", X), "X", nat), pp(ln, tE("cast", nat, ln, a)),
		fAll(fEx(kk(A, B, X, Y), "Y", B), "A", T, "B", T, "X", A), fEx(fAll(kk(nat, ln, X, Y), "Y", ln), "X", nat),
	}
	return typedFamily("tf1", tf1Sig(), ax, cj, k, mod)
}

// famTF1Eq: polymorphic symbols and equality.
func famTF1Eq(k, mod int) []*tproblem {
	A, X, Y, nat, a, b := tE("A"), tE("X"), tE("Y"), tE("nat"), tE("a"), tE("b")
	l := func(x *tx) *tx { return tE("list", x) }
	var T any
	ln := l(nat)
	eq := func(x, y *tx) *tf { return fA("=", x, y) }
	nl := func(t *tx) *tx { return tE("nil", t) }
	ax := []*tf{
		fAll(eq(X, Y), "X", nat, "Y", nat), fAll(eq(X, nl(nat)), "X", ln), fAll(eq(X, nl(A)), "A", T, "X", l(A)), fAll(eq(tE("fn", A, X), X), "A", T, "X", A),
		eq(a, b), fAll(eq(tE("hd", A, nl(A)), tE("c", A)), "A", T), eq(tE("c", nat), a), fA("pp", nat, a), fAll(fA("pp", A, tE("c", A)), "A", T),
		fEx(fA("!=", X, Y), "X", ln, "Y", ln), eq(tE("fn", nat, a), b), fAll(tB("|", fA("pp", A, X), fA("w", A)), "A", T, "X", A),
		fAll(fA("k", A, nat, X, a), "A", T, "X", A), fAll(tB("=>", fA("pp", A, X), eq(X, tE("c", A))), "A", T, "X", A), fAll(eq(tE("cast", A, A, X), X), "A", T, "X", A),
		tB("&", fA("pp", ln, nl(nat)), fN(fA("w", nat))), fA("!=", nl(ln), tE("c", l(ln))), fAll(tB("=>", fA("w", A), eq(X, Y)), "A", T, "X", A, "Y", A), fA("w", nat),
	}
	cj := []*tf{
		eq(a, b), fAll(eq(X, Y), "X", ln, "Y", ln), fAll(eq(X, Y), "A", T, "X", A, "Y", A), eq(tE("c", ln), nl(nat)), fA("pp", nat, b), fA("pp", nat, tE("hd", nat, nl(nat))),
		fA("pp", ln, nl(nat)), fAll(eq(tE("c", l(A)), nl(A)), "A", T), fEx(eq(X, b), "X", nat), fEx(fA("!=", X, Y), "X", nat, "Y", nat), eq(tE("fn", nat, tE("fn", nat, a)), a),
		fAll(tB("=>", eq(X, Y), tB("=>", fA("pp", A, X), fA("pp", A, Y))), "A", T, "X", A, "Y", A),
		tB("|", fA("pp", nat, b), fA("w", ln)), fA("k", ln, nat, nl(nat), b), fA("k", nat, ln, a, nl(nat)), fA("pp", nat, tE("fn", nat, a)), eq(tE("cast", nat, nat, a), b),
		fA("pp", nat, tE("cast", ln, nat, nl(nat))),
		fAll(tB("=>", fA("w", A), fAll(eq(X, Y), "X", A, "Y", A)), "A", T), fAll(fEx(eq(X, Y), "Y", A), "A", T, "X", A),
	}
	return typedFamily("tf1eq", tf1Sig(), ax, cj, k, mod)
}

func classifyTypedAll(ps []*tproblem) []classified {
	r := make([]classified, len(ps))
	var wg sync.WaitGroup
	ch := make(chan int, 64)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				p := ps[i]
				for _, f := range p.forms() {
					if _, ok := (tctx{sig: p.sig}).check(f); !ok {
						fatal("G10: ill typed: %s", f.str())
					}
				}
				c, why := classifyTyped(p)
				q := &problem{fam: p.fam, tff: p.text()}
				if p.conj != nil {
					q.conj = Atom("c")
				}
				r[i] = classified{q, c, why}
			}
		}()
	}
	for i := range ps {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return r
}

func init() {
	checks["G10"] = func(c *Ctx) {
		c.Cov["rule"] = "every set of at most k axioms of a pool with each conjecture of a pool, for four families of typed problems (two sorts; two sorts and equality; polymorphic symbols; polymorphic symbols and equality); oracles: exhaustive search of many-sorted models (sorts of at most 3 elements; type constructors interpreted in every way over at most 3 sorts of at most 2 elements), and unsatisfiable finite sets of type and term instances; non-trivial: more than 3 scheduling steps on average"
		th := c.Thorough()
		m0, m1, m2 := 6, 9, 4
		if th {
			m0, m1, m2 = 1, 1, 1
		}
		ps := famTF0(th)
		ps = append(ps, famTF0Eq(2, m0)...)
		ps = append(ps, famTF1(2, m1)...)
		ps = append(ps, famTF1Eq(2, m2)...)
		cl := classifyTypedAll(ps)
		if os.Getenv("G10_TIME") != "" {
			fmt.Println("classified", len(cl), c.since())
		}
		c.countClasses(cl)
		pol := []int{0, 3}
		ms := 700
		if th {
			pol, ms = allPol, 3000
		}
		noEq := func(x classified) bool { return x.fam == "tf0" || x.fam == "tf1" }
		var eq []classified
		for _, x := range cl {
			if x.fam == "tf0eq" || x.fam == "tf1eq" {
				eq = append(eq, x)
			}
		}
		c.optVerdicts([]optGroup{
			{args: nil, ps: cl, pol: pol, msInv: ms, msValid: 6000, complete: noEq},
			{args: []string{"-sateq"}, ps: eq, pol: pol[:1], msInv: ms / 2, msValid: ms, complete: never},
		})
	}
}
