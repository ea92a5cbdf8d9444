package main

func taut(f *Form) bool {
	_, found, _ := Countermodel(f, 1, 1<<20)
	return !found
}

func famProp(n int, ops []Op, preds []string, tb, comm bool) []*problem {
	ar := map[string]int{}
	for _, p := range preds {
		ar[p] = 0
	}
	g := newGen(genCfg{preds: preds, ar: ar, ops: ops, notnot: true, tb: tb, comm: comm})
	var r []*problem
	for _, f := range g.forms(n, 0) {
		r = append(r, &problem{conj: f, fam: "prop"})
	}
	return r
}

// famClauses: sets of axioms (clauses, shuffled polarity) with and without a
// conjecture.
func famClauses(k int) []*problem {
	p, q, s := Atom("p"), Atom("q"), Atom("s")
	pool := []*Form{p, Not(q), Or(p, q), Or(Not(p), q), Imp(q, s), Or(Not(p), Not(q)), Or(p, Not(s)), Bin(OEquiv, p, s), And(Or(q, s), Or(Not(q), s)), Not(And(p, s)), Bin(OXor, q, s), Not(Imp(p, q))}
	conj := []*Form{nil, s, And(p, q), Or(Not(p), s)}
	var r []*problem
	var rec func(i int, cur []*Form)
	rec = func(i int, cur []*Form) {
		if len(cur) > 0 {
			for _, c := range conj {
				r = append(r, &problem{ax: append([]*Form{}, cur...), conj: c, fam: "clauses"})
			}
		}
		if len(cur) == k {
			return
		}
		for ; i < len(pool); i++ {
			rec(i+1, append(cur, pool[i]))
		}
	}
	rec(0, nil)
	return r
}

func init() {
	checks["G02"] = func(c *Ctx) {
		c.Cov["rule"] = "all propositional formulas up to the listed number of connectives (constants and the eight binary connectives up to 2, |,&,=>,<=> above), and all sets of at most k axioms from a pool with each conjecture; truth tables are the oracle; non-trivial: more than 3 scheduling steps on average"
		th := c.Thorough()
		var ps []*problem
		for n := 0; n <= 2; n++ {
			ps = append(ps, famProp(n, binOps, []string{"p", "q"}, true, true)...)
			ps = append(ps, famProp(n, []Op{OAnd, OOr, OImp, OEquiv}, []string{"p", "q", "s"}, false, true)...)
		}
		ps = append(ps, famProp(3, []Op{OAnd, OOr, OImp, OEquiv}, []string{"p", "q"}, false, false)...)
		if th {
			ps = append(ps, famProp(3, binOps, []string{"p", "q"}, true, false)...)
			ps = append(ps, famProp(4, []Op{OAnd, OOr, OImp, OEquiv}, []string{"p", "q"}, false, false)...)
			ps = append(ps, famClauses(5)...)
		} else {
			ps = append(ps, famClauses(3)...)
		}
		p := c.Pool("engine")
		var jobs []*Job
		for _, x := range ps {
			f := x.form()
			k := classified{x, invalid, "truth table"}
			if taut(f) {
				k.cl = valid
			}
			jobs = append(jobs, c.mk(k, nil, Job{Policies: []int{0, 3}, MaxSteps: 20000, MaxMs: 20000}))
			n := nodes(f)
			if n <= 2 && x.fam == "prop" || n <= 3 && th {
				jobs = append(jobs, c.mk(k, nil, Job{Policies: []int{0}, Dev: 1, MaxSteps: 20000, MaxMs: 20000, MaxRuns: 300}))
			}
		}
		c.Cov["problems"] = len(ps)
		c.verdicts(p, jobs, func(v vjob, o Outcome) (bool, string) {
			if o.Kind == "timeout" || o.Kind == "hang" {
				return false, ""
			}
			want := "CounterSatisfiable"
			switch {
			case v.conj == nil && v.cl == valid:
				want = "Unsatisfiable"
			case v.conj == nil:
				want = "Satisfiable"
			case v.cl == valid:
				want = "Theorem"
			}
			return o.Kind != "exit" || o.Code != 0 || o.Status != want, "propositional problem decided " + o.Key() + ", truth table says " + want
		})
	}
}
