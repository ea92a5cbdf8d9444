package main

// famClause3: a universally quantified disjunction (or a negated existential
// conjunction) of three literals, with units for each predicate.
func famClause3() (r []*problem) {
	x := Var(0)
	a, b := Fun("a"), Fun("b")
	ps := []string{"p", "q", "s"}
	or3 := func(f, g, h *Form) *Form { return Or(Or(f, g), h) }
	and3 := func(f, g, h *Form) *Form { return And(And(f, g), h) }
	unit := func(p string, k int) *Form {
		switch k {
		case 1:
			return Not(Atom(p, a))
		case 2:
			return Not(Atom(p, b))
		case 3:
			return All(0, Not(Atom(p, x)))
		}
		return nil
	}
	for k := 0; k < 64; k++ {
		var us []*Form
		for i, p := range ps {
			if u := unit(p, k>>(2*i)&3); u != nil {
				us = append(us, u)
			}
		}
		c := All(0, or3(Atom("p", x), Atom("q", x), Atom("s", x)))
		r = append(r, &problem{ax: append(append([]*Form{}, us...), c), fam: "clause3"})
		r = append(r, &problem{ax: append([]*Form{c}, us...), fam: "clause3"})
		if len(us) > 0 {
			r = append(r, &problem{ax: us, conj: Ex(0, and3(Not(Atom("p", x)), Not(Atom("q", x)), Not(Atom("s", x)))), fam: "clause3c"})
		}
		g := or3(Atom("p", a), Atom("q", b), Atom("s", a))
		r = append(r, &problem{ax: append(append([]*Form{}, us...), g), fam: "clause3g"})
		if len(us) > 0 {
			r = append(r, &problem{ax: us, conj: Ex(0, or3(Not(Atom("p", x)), Not(Atom("q", x)), Not(Atom("s", x)))), fam: "clause3c"})
			r = append(r, &problem{ax: append(us[:len(us):len(us)], g), conj: Ex(0, or3(Atom("p", x), Atom("q", x), Atom("s", x))), fam: "clause3c"})
		}
	}
	return
}

func optProblems(th bool) []*problem {
	ps := famClause3()
	nm := 2
	if th {
		nm = 3
	}
	for n := 1; n <= nm; n++ {
		ps = append(ps, famM(n)...)
		ps = append(ps, famR(n)...)
		ps = append(ps, famF(n)...)
	}
	ps = append(ps, famQQ(false)...)
	ps = append(ps, famHorn(1)...)
	if th {
		ps = append(ps, famHorn(2)...)
	}
	ps = append(ps, famProp(2, []Op{OAnd, OOr, OImp, OEquiv}, []string{"p", "q"}, false, false)...)
	return ps
}

func init() {
	checks["camp9"] = func(c *Ctx) {
		eq := append(famEqGround(1), famEqFO(1)...)
		for n := 1; n <= 2; n++ {
			eq = append(eq, famEqForms(n)...)
		}
		eq = append(eq, famCongr(3)...)
		campaign(c, eq)
	}
	checks["camp8"] = func(c *Ctx) { campaign(c, optProblems(false)) }
}

// famDMT: axioms deduction modulo theory turns into rewrite rules (equivalences
// and atoms, with and without variables), and axioms it does not.
func famDMT(k int) (r []*problem) {
	x, y := Var(0), Var(1)
	a, b := Fun("a"), Fun("b")
	f := func(t Term) Term { return Fun("f", t) }
	p := func(t Term) *Form { return Atom("p", t) }
	q := func(t Term) *Form { return Atom("q", t) }
	rr := func(s, t Term) *Form { return Atom("r", s, t) }
	eqv := func(f, g *Form) *Form { return Bin(OEquiv, f, g) }
	ax := []*Form{
		All(0, eqv(p(x), q(x))),
		All(0, eqv(p(x), Ex(1, rr(x, y)))),
		All(0, eqv(p(x), All(1, rr(x, y)))),
		All(0, All(1, eqv(rr(x, y), And(p(x), q(y))))),
		All(0, All(1, eqv(rr(x, y), Or(p(x), Not(q(y)))))),
		All(0, eqv(p(f(x)), q(x))),
		All(0, eqv(q(f(x)), p(x))),
		All(0, eqv(q(x), Not(p(f(x))))),
		eqv(p(a), q(b)), eqv(p(b), And(q(a), q(b))), eqv(q(a), Not(p(b))),
		All(0, eqv(Not(p(x)), And(q(x), Not(rr(x, x))))), All(0, eqv(Or(q(x), rr(x, x)), Not(p(x)))),
		All(0, Imp(Not(p(x)), And(q(x), rr(x, x)))), All(0, Imp(Not(q(x)), Or(p(x), rr(x, a)))), All(0, Imp(Or(p(x), rr(x, x)), Not(q(x)))), All(0, Imp(And(q(x), rr(x, a)), p(x))),
		All(0, eqv(q(x), rr(x, x))),
		All(0, p(x)), All(0, Not(q(x))), All(0, rr(x, f(x))), p(a), Not(q(b)),
		All(0, Imp(p(x), q(x))), All(0, Imp(q(x), Ex(1, rr(x, y)))), All(0, All(1, Imp(rr(x, y), p(y)))), Or(p(a), q(b)),
		Ex(0, And(p(x), Not(q(x)))),
	}
	cj := []*Form{
		p(a), q(b), Not(p(a)), Ex(0, p(x)), Ex(0, And(p(x), q(x))), All(0, Or(p(x), q(x))), rr(a, b), Ex(0, rr(x, x)),
		All(0, Imp(p(x), q(x))), All(0, Imp(q(x), p(x))), Imp(p(a), p(b)), All(0, Ex(1, rr(x, y))), Ex(0, All(1, rr(x, y))),
		Imp(q(a), p(f(a))), eqv(p(a), q(a)), Imp(p(a), Ex(0, rr(a, x))), Imp(rr(a, b), rr(b, a)),
	}
	var rec func(i int, cur []*Form)
	rec = func(i int, cur []*Form) {
		if len(cur) > 0 {
			for _, c := range cj {
				r = append(r, &problem{ax: append([]*Form{}, cur...), conj: c, fam: "dmt"})
			}
			r = append(r, &problem{ax: append([]*Form{}, cur...), fam: "dmtsat"})
		}
		if len(cur) == k {
			return
		}
		for ; i < len(ax); i++ {
			rec(i+1, append(cur, ax[i]))
		}
	}
	rec(0, nil)
	return
}

func init() {
	checks["camp7"] = func(c *Ctx) { campaign(c, famDMT(2)) }
}

// famOcc: clauses whose terms repeat a variable below the top level.
func famOcc(k int) (r []*problem) {
	x, y := Var(0), Var(1)
	a, b := Fun("a"), Fun("b")
	g := func(s, t Term) Term { return Fun("g", s, t) }
	p := func(t Term) *Form { return Atom("p", t) }
	q := func(t Term) *Form { return Atom("q", t) }
	s := func(t Term) *Form { return Atom("s", t) }
	ax := []*Form{
		All(0, Or(q(x), p(g(x, x)))),
		All(0, Or(p(g(x, x)), q(x))),
		All(0, Or(Not(p(g(x, x))), s(g(x, x)))),
		All(0, All(1, Or(q(x), Or(q(y), p(g(g(x, y), g(x, y))))))),
		All(0, Imp(p(g(x, g(x, x))), q(x))),
		All(0, Imp(s(g(x, x)), p(g(x, x)))),
		All(0, Ex(1, And(Or(q(x), s(x)), p(g(x, g(y, x)))))),
		Not(q(a)), Not(q(b)), Not(s(g(a, a))), All(0, Not(s(x))), p(g(a, g(a, a))), Or(Not(q(a)), Not(q(b))),
	}
	cj := []*Form{
		p(g(a, a)), p(g(a, b)), Ex(0, p(g(x, a))), Ex(0, p(g(x, b))), Ex(0, And(p(g(x, x)), Not(q(x)))), s(g(a, a)), Ex(0, s(g(x, x))), Ex(0, Ex(1, p(g(x, y)))),
		q(a), p(g(g(a, b), g(a, b))), p(g(g(a, b), g(b, a))), Ex(0, p(g(a, g(x, a)))), Ex(0, p(g(a, g(x, b)))),
		Ex(0, And(q(x), p(g(x, x)))), All(0, p(g(x, x))), All(0, Or(p(g(x, x)), q(x))),
	}
	var rec func(i int, cur []*Form)
	rec = func(i int, cur []*Form) {
		if len(cur) > 0 {
			for _, c := range cj {
				r = append(r, &problem{ax: append([]*Form{}, cur...), conj: c, fam: "occ"})
			}
			r = append(r, &problem{ax: append([]*Form{}, cur...), fam: "occsat"})
		}
		if len(cur) == k {
			return
		}
		for ; i < len(ax); i++ {
			rec(i+1, append(cur, ax[i]))
		}
	}
	rec(0, nil)
	return
}

func init() {
	checks["camp6"] = func(c *Ctx) { campaign(c, famOcc(3)) }
}
