package main

import (
	"strings"
	"time"
)

// optGroup is a family run under one option vector. complete tells for which
// valid problems the option vector is expected to find a proof.
type optGroup struct {
	args     []string
	ps       []classified
	complete func(x classified) bool
	msInv    int // step budget where no verdict is expected
	msValid  int
	pol      []int
	quiet    func(x classified, o Outcome) bool // outcomes to leave aside
}

func always(classified) bool { return true }
func never(classified) bool  { return false }

// optVerdicts compares, for every problem and option vector, the verdict with
// the oracle: no positive verdict on invalid problems, no negative one on valid
// problems, no breakdown, and a proof where the group promises one.
func (c *Ctx) optVerdicts(gs []optGroup) {
	p := c.Pool("engine")
	p.WallMax = 60 * time.Second
	var jobs []*Job
	per := map[string]int{}
	for i := range gs {
		g := &gs[i]
		for _, x := range g.ps {
			if x.cl == unknown {
				continue
			}
			ms, mms := g.msInv, 400
			if x.cl == valid {
				ms = g.msValid
				mms = 4000
				if g.complete(x) {
					ms, mms = 40000, 20000
				}
			}
			j := c.mk(x, g.args, Job{Policies: g.pol, MaxSteps: ms, MaxMs: mms})
			jobs = append(jobs, j)
			per[strings.Join(g.args, " ")]++
		}
	}
	old, _ := c.Cov["jobs_per_option_vector"].(map[string]int)
	for k, n := range old {
		per[k] += n
	}
	c.Cov["jobs_per_option_vector"] = per
	group := map[string]*optGroup{}
	for i := range gs {
		group[strings.Join(gs[i].args, " ")] = &gs[i]
	}
	c.verdicts(p, jobs, func(v vjob, o Outcome) (bool, string) {
		g := group[strings.Join(v.args, " ")]
		if o.Kind == "timeout" || o.Kind == "hang" || g.quiet != nil && g.quiet(v.classified, o) {
			return false, ""
		}
		if v.cl == invalid && positive(o.Status) {
			return true, "reported " + o.Status + " although the problem has a countermodel (" + v.why + ")"
		}
		if v.cl == valid && negative(o.Status) {
			return true, "reported " + o.Status + " although the problem is valid"
		}
		if o.Kind == "exit" && (o.Code != 0 || o.Status == "") || o.Kind == "crash" || o.Kind == "panic" || o.Kind == "deadlock" {
			return true, "the prover breaks down: " + o.Key()
		}
		if o.Status != "" && o.Status != expected(v.classified) {
			return true, "reported " + o.Status + ", expected " + expected(v.classified)
		}
		if v.cl == valid && g.complete(v.classified) && o.Status != expected(v.classified) {
			return true, "valid problem not proved (outcome " + o.Key() + ")"
		}
		return false, ""
	})
}

// ruleHeads lists the predicates that head a rewrite rule under -dmt and whether
// every such head is applied to variables only.
func dmtNice(x classified) bool {
	head := map[string]int{}
	uses := map[string]map[string]bool{}
	for _, a := range x.ax {
		f := a
		for f.Op == OAll {
			f = f.A
		}
		if f.Op != OEquiv {
			continue
		}
		l, r := f.A, f.B
		if (l.Op == OAtom || l.Op == ONot && l.A.Op == OAtom) == (r.Op == OAtom || r.Op == ONot && r.A.Op == OAtom) {
			continue
		}
		if l.Op != OAtom {
			return false
		}
		head[l.P]++
		if head[l.P] > 1 {
			return false
		}
		for _, t := range l.T {
			if t.V < 0 {
				return false
			}
		}
		uses[l.P] = map[string]bool{}
		preds(r, uses[l.P])
	}
	// rewriting terminates: no head is reachable from its own right-hand side
	for h := range uses {
		seen := map[string]bool{}
		todo := []string{h}
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			for y := range uses[x] {
				if y == h {
					return false
				}
				if !seen[y] {
					seen[y] = true
					todo = append(todo, y)
				}
			}
		}
	}
	return true
}

// preds collects the predicates of f.
func preds(f *Form, m map[string]bool) {
	if f == nil {
		return
	}
	if f.Op == OAtom {
		m[f.P] = true
	}
	preds(f.A, m)
	preds(f.B, m)
}

func init() {
	checks["G06"] = func(c *Ctx) {
		c.Cov["rule"] = "all problems of the clause, monadic, relational, function, two-quantifier and Horn families up to the size bound, each under -inner and under -preinner; oracles as for G01 and G03; non-trivial: more than 3 scheduling steps on average"
		th := c.Thorough()
		ps := append(optProblems(th), famOcc(1)...)
		ps = append(ps, famSko(th)...)
		ps = append(ps, withLoose(append(famSkoDep(), famSkoShare()...))...)
		cl := classifyAll(ps, 3)
		c.countClasses(cl)
		ms := 220
		pol := []int{0}
		if th {
			ms, pol = 1500, allPol
		}
		var gs []optGroup
		for _, o := range []string{"-inner", "-preinner", "-flatten -inner", "-flatten -preinner"} {
			gs = append(gs, optGroup{args: strings.Fields(o), ps: cl, complete: always, msInv: ms, pol: pol})
		}
		c.optVerdicts(gs)
	}
	checks["G07"] = func(c *Ctx) {
		c.Cov["rule"] = "all sets of at most k axioms of a pool of 20 (equivalences that become rewrite rules, with variable, compound and ground heads, and axioms that do not) with each conjecture of a pool of 17, under each deduction-modulo option vector; oracles as for G01 and G03; a proof is demanded only when every rule head is a predicate applied to variables and no predicate heads two rules; non-trivial: more than 3 scheduling steps on average"
		th := c.Thorough()
		k, ms, msv := 2, 260, 500
		pol := []int{0}
		if th {
			ms, msv, pol = 2500, 4000, allPol
		}
		var ps []*problem
		for _, x := range famDMT(k) {
			if x.conj != nil {
				ps = append(ps, x)
			}
		}
		cl := classifyAll(ps, 3)
		c.countClasses(cl)
		var gs []optGroup
		for _, o := range []string{"-dmt", "-dmt -polarized", "-dmt -presko", "-dmt -preinner", "-dmt -inner", "-dmt -flatten", "-dmt -polarized -presko"} {
			g := optGroup{args: strings.Fields(o), ps: cl, complete: dmtNice, msInv: ms, msValid: msv, pol: pol}
			if strings.Contains(o, "polarized") {
				g.complete = never
			}
			gs = append(gs, g)
		}
		c.optVerdicts(gs)
	}
	checks["G08"] = func(c *Ctx) {
		c.Cov["rule"] = "all problems of the clause, monadic, relational, function, two-quantifier, Horn and two-predicate propositional families (and of the equational families for the equality options) up to the size bound, each under every option that does not change the logic; oracles as for G01, G03 and G05; non-trivial: more than 3 scheduling steps on average"
		th := c.Thorough()
		cl := classifyAll(optProblems(th), 3)
		eq := append(famEqGround(1), famEqFO(1)...)
		for n := 1; n <= 2; n++ {
			eq = append(eq, famEqForms(n)...)
		}
		eq = append(eq, famCongr(3)...)
		if th {
			eq = append(eq, famEqGround(2)...)
			eq = append(eq, famEqFO(2)...)
		}
		ecl := classifyAll(eq, 3)
		c.countClasses(append(append([]classified{}, cl...), ecl...))
		ms := 160
		pol := []int{0}
		if th {
			ms, pol = 1500, allPol
		}
		var gs []optGroup
		for _, o := range []string{"-flatten", "-completeness", "-proof", "-core_limit 1", "-l 2", "-vec -print-id", "-noeq", "-no-type-check", "-flatten -completeness -proof"} {
			gs = append(gs, optGroup{args: strings.Fields(o), ps: cl, complete: always, msInv: ms, pol: pol})
		}
		for _, o := range []string{"-eagereq", "-sateq", "-increq", "-flatten -eagereq", "-dmt_before_eq -dmt"} {
			gs = append(gs, optGroup{args: strings.Fields(o), ps: ecl, complete: func(x classified) bool { return !hasEqQuant(x.problem) || x.fam == "eqforms" }, msInv: 400, msValid: 3000, pol: pol})
		}
		c.optVerdicts(gs)
	}
	checks["G19"] = func(c *Ctx) {
		c.Cov["rule"] = "all problems of the clause, monadic, relational, function, two-quantifier, Horn and two-predicate propositional families (and of the equational families) up to the size bound, each under every option that chooses what is printed and under the options that limit the search; the verdict is that of the semantics under the former, and never contradicts it under the latter (exact on propositional problems); non-trivial: more than 3 scheduling steps on average"
		th := c.Thorough()
		ps := optProblems(th)
		ps = append(ps, famEqGround(1)...)
		ps = append(ps, famCongr(2)...)
		cl := classifyAll(ps, 3)
		c.countClasses(cl)
		ms := 160
		pol := []int{0}
		if th {
			ms, pol = 1500, []int{0, 3}
		}
		var gs []optGroup
		ans := cl
		if !th {
			ans = nil // those that the prover answers
			for _, x := range cl {
				if x.cl == valid || propositional(x) {
					ans = append(ans, x)
				}
			}
		}
		for _, o := range displayOpts {
			gs = append(gs, optGroup{args: strings.Fields(o), ps: ans, complete: always, msInv: ms, pol: pol})
		}
		for _, o := range []string{"-one_step", "-l 0", "-one_step -proof", "-one_step -inner", "-l 0 -preinner"} {
			gs = append(gs, optGroup{args: strings.Fields(o), ps: cl, complete: propositional, msInv: 4000, msValid: 4000, pol: allPol,
				quiet: func(x classified, o Outcome) bool { return o.Status == "GaveUp" && !propositional(x) }})
		}
		c.optVerdicts(gs)
	}
}

// displayOpts choose what is printed, not what is decided.
var displayOpts = []string{"-silent", "-quiet", "-show_trace", "-debug all", "-proof -pretty", "-proof -print-id", "-proof -quoted_pred", "-type_proof", "-proof -vec", "-orocq", "-orocq -context", "-orocq -context -chrono", "-otptp", "-osctptp", "-osctptp -chrono", "-olp", "-olp -context", "-otptp -quiet", "-silent -proof"}

// propositional: no quantifier in any formula.
func propositional(x classified) bool {
	for _, f := range append([]*Form{x.conj}, x.ax...) {
		if f.hasQuantSafe() {
			return false
		}
	}
	return true
}

// famSko: nested quantifiers whose Skolem terms depend on outer variables.
func famSko(th bool) (r []*problem) {
	x, y, z := Var(0), Var(1), Var(2)
	R := func(s, t Term) *Form { return Atom("r", s, t) }
	p := func(t Term) *Form { return Atom("p", t) }
	bodies := []*Form{R(x, y), R(y, x), And(p(x), p(y)), Imp(p(x), p(y)), Or(p(x), Not(p(y))), Imp(R(x, z), R(y, z)), Imp(R(x, y), R(y, z)), Bin(OEquiv, R(x, y), Not(R(y, y))), Imp(R(x, y), p(x))}
	q := func(k int, v int, f *Form) *Form {
		if k == 0 {
			return All(v, f)
		}
		return Ex(v, f)
	}
	var forms []*Form
	for _, b := range bodies {
		for k := 0; k < 8; k++ {
			forms = append(forms, q(k&1, 0, q(k>>1&1, 1, q(k>>2&1, 2, b))))
		}
	}
	for _, f := range forms {
		r = append(r, &problem{conj: f, fam: "sko"}, &problem{conj: Not(f), fam: "sko"})
	}
	n := len(forms)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j || !th && (i/8 != j/8 && (i*31+j)%7 != 0) {
				continue
			}
			r = append(r, &problem{ax: []*Form{forms[i]}, conj: forms[j], fam: "sko2"})
		}
	}
	return
}

// famSkoDep: one axiom and one conjecture over the same template, each under
// every quantifier prefix of length two (and three for the three-variable
// templates); the templates bury the variables at different argument positions.
func famSkoDep() (r []*problem) {
	x, y, z := Var(0), Var(1), Var(2)
	a := Fun("a")
	R := func(s, t Term) *Form { return Atom("r", s, t) }
	f := func(t Term) Term { return Fun("f", t) }
	h := func(s, t Term) Term { return Fun("h", s, t) }
	two := []*Form{R(f(x), y), R(h(a, x), y), R(h(x, a), y), R(y, h(a, f(x))), Atom("p", h(x, y)), Atom("p", h(y, f(h(a, x)))), And(Atom("p", h(a, x)), R(x, y)), Or(Not(R(y, h(x, y))), Atom("p", f(x))), Imp(Atom("p", h(a, x)), Atom("p", h(y, y)))}
	three := []*Form{R(h(x, y), z), R(h(a, z), h(x, y)), And(R(x, y), R(y, z)), R(x, h(f(y), f(z)))}
	q := func(k int, v int, f *Form) *Form {
		if k == 0 {
			return All(v, f)
		}
		return Ex(v, f)
	}
	pre2 := func(b *Form) (fs []*Form) {
		for k := 0; k < 4; k++ {
			fs = append(fs, q(k&1, 0, q(k>>1&1, 1, b)), q(k&1, 1, q(k>>1&1, 0, b)))
		}
		return
	}
	pre3 := func(b *Form) (fs []*Form) {
		for k := 0; k < 8; k++ {
			fs = append(fs, q(k&1, 0, q(k>>1&1, 1, q(k>>2&1, 2, b))), q(k&1, 2, q(k>>1&1, 0, q(k>>2&1, 1, b))))
		}
		return
	}
	add := func(fs []*Form) {
		for i, f := range fs {
			for j, g := range fs {
				if i != j {
					r = append(r, &problem{ax: []*Form{f}, conj: g, fam: "skodep"})
				}
			}
		}
	}
	for _, b := range two {
		add(pre2(b))
	}
	for _, b := range three {
		add(pre3(b))
	}
	return
}

// famSkoShare: two existential axioms, alpha-equivalent or nearly so, and a
// conjecture that holds only if their witnesses are (or need not be) related.
func famSkoShare() (r []*problem) {
	x, y, z := Var(0), Var(1), Var(2)
	a, b := Fun("a"), Fun("b")
	R := func(s, t Term) *Form { return Atom("r", s, t) }
	p := func(t Term) *Form { return Atom("p", t) }
	s := func(t Term) *Form { return Atom("s", t) }
	ax := []*Form{
		Ex(0, Ex(1, R(x, y))), Ex(0, Ex(1, R(y, x))), Ex(0, R(x, x)), Ex(0, p(x)), Ex(0, Not(p(x))), Not(All(0, p(x))), Not(All(0, Not(p(x)))), Ex(0, s(x)),
		Ex(0, And(p(x), s(x))), Ex(0, And(s(x), p(x))), Ex(0, Or(p(x), s(x))),
		All(0, Ex(1, R(x, y))), All(0, Ex(1, R(y, x))), All(0, Ex(1, Not(R(x, y)))), Ex(0, All(1, R(x, y))), Ex(0, All(1, R(y, x))),
		Ex(0, R(x, a)), Ex(0, R(x, b)), Ex(0, R(a, x)), Ex(0, And(p(x), Ex(1, R(x, y)))), Ex(0, And(p(x), Ex(1, R(y, x)))), Ex(0, And(p(x), Ex(1, And(p(y), R(x, y))))), Ex(0, Ex(1, And(p(x), s(y)))), Ex(0, Ex(1, And(p(y), s(x)))), All(0, Ex(1, Ex(2, And(R(x, y), R(z, x))))), All(0, Ex(1, Ex(2, And(R(x, z), R(y, x))))),
	}
	cj := []*Form{
		Ex(0, And(p(x), s(x))), Ex(0, And(Ex(1, R(x, y)), Ex(1, R(y, x)))), Ex(0, And(R(x, a), R(x, b))), All(0, Ex(1, And(R(x, y), R(y, x)))), Ex(0, Ex(1, And(R(x, y), R(y, x)))),
		Ex(0, And(p(x), Ex(1, And(R(x, y), R(y, x))))), {Op: OBot}, Ex(0, And(p(x), And(s(x), R(x, x)))), Ex(0, Ex(1, R(x, y))), Ex(0, p(x)),
	}
	for i := range ax {
		for j := range ax {
			if i == j {
				continue
			}
			for _, c := range cj {
				r = append(r, &problem{ax: []*Form{ax[i], ax[j]}, conj: c, fam: "skoshare"})
			}
		}
	}
	return
}
