package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
)

// problem is a set of axioms and an optional conjecture.
type problem struct {
	ax    []*Form
	conj  *Form
	fam   string
	tff   string // printed text (instead of the standard rendering)
	loose bool   // quantifier lists merged, chains of & and | unparenthesised
}

func (p *problem) form() *Form {
	if p.conj == nil {
		return Not(Conj(p.ax))
	}
	if len(p.ax) == 0 {
		return p.conj
	}
	return Imp(Conj(p.ax), p.conj)
}

func (p *problem) text() string {
	if p.tff != "" {
		return p.tff
	}
	s := ""
	pr := (*Form).String
	if p.loose {
		pr = (*Form).looseStr
	}
	for i, a := range p.ax {
		s += fmt.Sprintf("fof(ax%d,axiom,%s).\n", i, pr(a))
	}
	if p.conj != nil {
		s += fmt.Sprintf("fof(c,conjecture,%s).\n", pr(p.conj))
	}
	return s
}

// looseStr prints TPTP with merged quantifier lists (! [X,Y]) and with chains
// of & and | written without parentheses.
func (f *Form) looseStr() string {
	switch f.Op {
	case ONot:
		return "~ " + f.A.looseStr()
	case OAll, OEx:
		vs := []string{fmt.Sprintf("X%d", f.V)}
		seen := map[int]bool{f.V: true}
		b := f.A
		for b.Op == f.Op && !seen[b.V] {
			seen[b.V] = true
			vs = append(vs, fmt.Sprintf("X%d", b.V))
			b = b.A
		}
		q := "!"
		if f.Op == OEx {
			q = "?"
		}
		return "(" + q + " [" + strings.Join(vs, ",") + "] : " + b.looseStr() + ")"
	case OAnd, OOr:
		s := f.B.looseStr()
		b := f.A
		for ; b.Op == f.Op; b = b.A {
			s = b.B.looseStr() + " " + opStr[f.Op] + " " + s
		}
		return "(" + b.looseStr() + " " + opStr[f.Op] + " " + s + ")"
	case OImp, OEquiv, ORev, OXor, ONor, ONand:
		return "(" + f.A.looseStr() + " " + opStr[f.Op] + " " + f.B.looseStr() + ")"
	}
	return f.String()
}

// withLoose adds the loose rendering of every problem it changes.
func withLoose(ps []*problem) []*problem {
	r := ps
	for _, p := range ps {
		q := *p
		q.loose = true
		q.fam += "_loose"
		if q.text() != p.text() {
			r = append(r, &q)
		}
	}
	return r
}

type class int

const (
	unknown class = iota
	valid
	invalid
)

// classify decides the problem with oracles that share nothing with the
// prover: a finite countermodel, or an unsatisfiable set of ground instances.
func classify(p *problem, size int) (class, string) {
	f := p.form()
	if d, found, _ := Countermodel(f, size, 300000); found {
		return invalid, d
	}
	if HerbrandValid(f, 2, 20000) {
		return valid, "Herbrand"
	}
	return unknown, ""
}

type classified struct {
	*problem
	cl  class
	why string
}

func classifyAll(ps []*problem, size int) []classified {
	r := make([]classified, len(ps))
	var wg sync.WaitGroup
	ch := make(chan int, 64)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				c, why := classify(ps[i], size)
				r[i] = classified{ps[i], c, why}
			}
		}()
	}
	for i := range ps {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return r
}

func conjectures(fam string, fs []*Form) (r []*problem) {
	for _, f := range fs {
		if f.hasQuant() {
			r = append(r, &problem{conj: f, fam: fam})
		}
	}
	return
}

func famM(n int) []*problem {
	g := newGen(genCfg{preds: []string{"p", "q"}, ar: map[string]int{"p": 1, "q": 1}, consts: []string{"a"}, ops: []Op{OAnd, OOr, OImp, OEquiv}, depth: 2})
	return conjectures("monadic", g.forms(n, 0))
}
func famM1(n int) []*problem {
	g := newGen(genCfg{preds: []string{"p"}, ar: map[string]int{"p": 1}, consts: []string{"a"}, ops: []Op{OAnd, OOr, OImp, OEquiv}, depth: 2})
	return conjectures("monadic1", g.forms(n, 0))
}
func famR(n int) []*problem {
	g := newGen(genCfg{preds: []string{"r"}, ar: map[string]int{"r": 2}, ops: []Op{OAnd, OOr, OImp}, depth: 2})
	return conjectures("binary", g.forms(n, 0))
}
func famF(n int) []*problem {
	g := newGen(genCfg{preds: []string{"p"}, ar: map[string]int{"p": 1}, consts: []string{"a"}, funs: []string{"f"}, ops: []Op{OAnd, OOr, OImp, OEquiv}, depth: 2})
	return conjectures("function", g.forms(n, 0))
}

// famQQ: (Q1 X Q2 Y A) => (Q3 X Q4 Y B), A and B literals over one binary and
// one unary predicate.
func famQQ(two bool) (r []*problem) {
	x, y := Var(0), Var(1)
	var at []*Form
	for _, a := range []*Form{Atom("r", x, y), Atom("r", y, x), Atom("r", x, x), Atom("r", y, y), Atom("p", x), Atom("p", y)} {
		at = append(at, a, Not(a))
	}
	pre := func(q int, f *Form) *Form {
		mk := func(all bool, v int, f *Form) *Form {
			if all {
				return All(v, f)
			}
			return Ex(v, f)
		}
		f = mk(q&1 == 0, 1, f)
		return mk(q&2 == 0, 0, f)
	}
	for q1 := 0; q1 < 4; q1++ {
		for q2 := 0; q2 < 4; q2++ {
			for _, a := range at {
				for _, b := range at {
					r = append(r, &problem{conj: Imp(pre(q1, a), pre(q2, b)), fam: "prefix"})
					if two {
						for _, c := range at {
							r = append(r, &problem{conj: Imp(pre(q1, a), pre(q2, Or(b, c))), fam: "prefix2"})
							r = append(r, &problem{conj: Imp(pre(q1, Or(a, c)), pre(q2, b)), fam: "prefix2"})
						}
					}
				}
			}
		}
	}
	return
}

// famHorn: every choice of at most k axioms from a pool, against a pool of
// conjectures.
func famHorn(k int) (r []*problem) {
	x, y, z := Var(0), Var(1), Var(2)
	a, b := Fun("a"), Fun("b")
	f := func(t Term) Term { return Fun("f", t) }
	p := func(t Term) *Form { return Atom("p", t) }
	q := func(t Term) *Form { return Atom("q", t) }
	rr := func(s, t Term) *Form { return Atom("r", s, t) }
	ax := []*Form{
		p(a), q(b), Or(p(a), p(b)), All(0, Imp(p(x), p(f(x)))), All(0, Imp(p(f(x)), q(x))),
		All(0, Or(p(x), q(x))), Ex(0, And(p(x), Not(q(x)))), All(0, Ex(1, rr(x, y))),
		All(0, All(1, Imp(rr(x, y), rr(y, x)))), All(0, All(1, All(2, Imp(And(rr(x, y), rr(y, z)), rr(x, z))))),
		rr(a, b), All(0, Bin(OEquiv, p(x), q(f(x)))), All(0, All(1, Imp(rr(x, y), And(p(x), q(y))))),
		All(0, Imp(q(x), Ex(1, rr(y, x)))),
	}
	cj := []*Form{
		p(f(a)), q(a), Ex(0, p(x)), Ex(0, And(p(x), q(x))), rr(b, a), Ex(0, rr(x, x)),
		All(0, Imp(p(x), q(x))), Ex(0, Ex(1, And(rr(x, y), q(y)))), Or(p(b), q(a)), All(0, Ex(1, rr(y, x))),
	}
	var rec func(i int, cur []*Form)
	rec = func(i int, cur []*Form) {
		if len(cur) > 0 {
			for _, c := range cj {
				r = append(r, &problem{ax: append([]*Form{}, cur...), conj: c, fam: "horn"})
			}
			r = append(r, &problem{ax: append([]*Form{}, cur...), fam: "hornsat"})
		}
		if len(cur) == k {
			return
		}
		for ; i < len(ax); i++ {
			rec(i+1, append(cur, ax[i]))
		}
	}
	rec(0, nil)
	return
}
