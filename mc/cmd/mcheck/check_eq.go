package main

import (
	"fmt"
	"time"
)

// famEqGround: every set of at most k axioms from a pool of ground literals
// over a, b, c, f, p, against a pool of ground conjectures.
func famEqGround(k int) (r []*problem) {
	a, b, cc := Fun("a"), Fun("b"), Fun("c")
	f := func(t Term) Term { return Fun("f", t) }
	g := func(s, t Term) Term { return Fun("g", s, t) }
	p := func(t Term) *Form { return Atom("p", t) }
	pool := []*Form{
		Eq(a, b), Eq(b, cc), Eq(f(a), b), Eq(f(b), cc), Eq(f(f(a)), a), Eq(cc, a), Not(Eq(a, b)), Not(Eq(f(a), f(b))),
		p(a), Not(p(f(b))), p(g(a, b)), Eq(g(a, b), cc), Eq(g(b, b), f(cc)), Or(Eq(a, b), Eq(a, cc)), Imp(Eq(a, cc), p(b)),
	}
	conj := []*Form{
		Eq(a, cc), Eq(f(a), f(cc)), p(b), p(cc), Eq(f(f(f(a))), f(a)), Eq(g(a, a), g(b, cc)), Not(Eq(b, cc)), Or(p(f(a)), Eq(b, a)), Eq(b, a), p(g(b, a)), nil,
	}
	var rec func(i int, cur []*Form)
	rec = func(i int, cur []*Form) {
		if len(cur) > 0 {
			for _, c := range conj {
				r = append(r, &problem{ax: append([]*Form{}, cur...), conj: c, fam: "eqground"})
			}
		}
		if len(cur) == k {
			return
		}
		for ; i < len(pool); i++ {
			rec(i+1, append(cur, pool[i]))
		}
	}
	rec(0, nil)
	return
}

// famEqFO: quantified equations.
func famEqFO(k int) (r []*problem) {
	x, y := Var(0), Var(1)
	a, b := Fun("a"), Fun("b")
	f := func(t Term) Term { return Fun("f", t) }
	p := func(t Term) *Form { return Atom("p", t) }
	pool := []*Form{
		All(0, Eq(f(x), x)), All(0, Eq(f(f(x)), x)), All(0, Imp(p(x), Eq(x, a))), All(0, All(1, Imp(Eq(f(x), f(y)), Eq(x, y)))),
		Eq(f(a), b), Eq(a, b), p(a), p(f(b)), Not(p(b)), Ex(0, Eq(f(x), a)), Ex(0, And(p(x), Not(Eq(x, a)))), All(0, Eq(x, a)),
		All(0, Or(Eq(x, a), Eq(x, b))),
	}
	conj := []*Form{
		Eq(f(f(a)), a), p(b), Ex(0, Eq(f(x), b)), Ex(0, Eq(f(x), x)), All(0, Ex(1, Eq(f(y), x))), Ex(0, Not(Eq(x, a))), Eq(b, a), p(f(a)),
		All(0, Imp(Eq(x, b), p(x))), Ex(0, And(Eq(x, b), p(x))), All(0, p(x)), nil,
	}
	var rec func(i int, cur []*Form)
	rec = func(i int, cur []*Form) {
		if len(cur) > 0 {
			for _, c := range conj {
				r = append(r, &problem{ax: append([]*Form{}, cur...), conj: c, fam: "eqfo"})
			}
		}
		if len(cur) == k {
			return
		}
		for ; i < len(pool); i++ {
			rec(i+1, append(cur, pool[i]))
		}
	}
	rec(0, nil)
	return
}

// famEqForms: all closed formulas with equality atoms.
func famEqForms(n int) []*problem {
	g := newGen(genCfg{preds: []string{"p"}, ar: map[string]int{"p": 1}, consts: []string{"a"}, ops: []Op{OAnd, OOr, OImp}, depth: 2, eq: true})
	return conjectures("eqforms", g.forms(n, 0))
}

func init() {
	checks["campeq"] = func(c *Ctx) {
		ps := famEqGround(2)
		ps = append(ps, famEqFO(2)...)
		for n := 1; n <= 3; n++ {
			ps = append(ps, famEqForms(n)...)
		}
		campaign(c, ps)
	}
	_ = fmt.Sprint
}

// famCongr: chains that need congruence closure, in every order of the axioms.
func famCongr(k int) (r []*problem) {
	a, b, cc, d := Fun("a"), Fun("b"), Fun("c"), Fun("d")
	f := func(t Term) Term { return Fun("f", t) }
	pool := []*Form{Eq(a, b), Eq(f(a), cc), Eq(f(b), d), Eq(Fun("g", f(a), b), a), Eq(Fun("g", cc, a), d), Eq(f(f(a)), b)}
	conj := []*Form{Eq(cc, d), Eq(f(d), f(cc)), Eq(a, d), Eq(f(cc), a)}
	var rec func(cur []*Form)
	rec = func(cur []*Form) {
		if len(cur) == k {
			for _, c := range conj {
				r = append(r, &problem{ax: append([]*Form{}, cur...), conj: c, fam: "eqcongr"})
			}
			return
		}
	next:
		for _, x := range pool {
			for _, y := range cur {
				if x == y {
					continue next
				}
			}
			rec(append(cur[:len(cur):len(cur)], x))
		}
	}
	rec(nil)
	return
}

func hasEqQuant(p *problem) bool {
	if p.conj.hasQuantSafe() {
		return true
	}
	for _, a := range p.ax {
		if a.hasQuant() {
			return true
		}
	}
	return false
}

func (f *Form) hasQuantSafe() bool { return f != nil && f.hasQuant() }

func expected(v classified) string {
	switch {
	case v.conj == nil && v.cl == valid:
		return "Unsatisfiable"
	case v.conj == nil:
		return "Satisfiable"
	case v.cl == valid:
		return "Theorem"
	}
	return "CounterSatisfiable"
}

func init() {
	checks["G05"] = func(c *Ctx) {
		c.Cov["rule"] = "all sets of at most k axioms of two pools (ground equational literals over a,b,c,f,g,p; quantified equations) with each conjecture of a pool, and all closed formulas with equality atoms up to the size bound; oracles: exhaustive finite model search up to size 3 with real equality, and congruence closure over Herbrand instances; non-trivial: more than 3 scheduling steps on average"
		th := c.Thorough()
		k := 2
		ps := famEqGround(k)
		ps = append(ps, famEqFO(k)...)
		ps = append(ps, famCongr(3)...)
		nf := 3
		if th {
			ps = append(append(famEqGround(3), famEqFO(k)...), famCongr(4)...)
			nf = 4
		}
		for n := 1; n <= nf; n++ {
			ps = append(ps, famEqForms(n)...)
		}
		cl := classifyAll(ps, 3)
		c.countClasses(cl)
		p := c.Pool("engine")
		p.WallMax = 60 * time.Second
		var jobs []*Job
		for _, x := range cl {
			if x.cl == unknown {
				continue
			}
			ground := !hasEqQuant(x.problem)
			switch {
			case ground:
				jobs = append(jobs, c.mk(x, nil, Job{Policies: allPol, MaxSteps: 60000, MaxMs: 20000}))
				if len(x.ax) < 2 || th {
					jobs = append(jobs, c.mk(x, nil, Job{Policies: []int{0}, Dev: 1, MaxSteps: 60000, MaxMs: 20000, MaxRuns: 300, RandPts: true}))
				}
			case x.cl == invalid:
				ms := 700
				if th {
					ms = 3000
				}
				jobs = append(jobs, c.mk(x, nil, Job{Policies: []int{0, 3}, MaxSteps: ms, MaxMs: 500}))
			default:
				ms := 6000
				if x.fam == "eqforms" {
					ms = 60000
				}
				jobs = append(jobs, c.mk(x, nil, Job{Policies: allPol, MaxSteps: ms, MaxMs: ms / 3}))
			}
		}
		c.verdicts(p, jobs, func(v vjob, o Outcome) (bool, string) {
			if o.Kind == "timeout" || o.Kind == "hang" {
				return false, ""
			}
			want := expected(v.classified)
			if o.Status != "" && o.Status != want {
				return true, "reported " + o.Status + " although " + v.why
			}
			if !hasEqQuant(v.problem) {
				return o.Kind != "exit" || o.Status != want, "ground equational problem decided " + o.Key() + ", expected " + want
			}
			if o.Kind == "exit" && o.Code != 0 || o.Kind == "crash" || o.Kind == "panic" || o.Kind == "deadlock" {
				return true, "the prover breaks down: " + o.Key()
			}
			if v.fam == "eqforms" && v.cl == valid {
				return o.Status != want, "valid problem not proved (outcome " + o.Key() + ")"
			}
			return false, ""
		})
	}
}
