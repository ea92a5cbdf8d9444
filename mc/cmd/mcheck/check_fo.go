package main

import (
	"strings"
	"time"
)

func foFamilies(th bool) []*problem {
	var ps []*problem
	for n := 1; n <= 3; n++ {
		ps = append(ps, famM(n)...)
		ps = append(ps, famF(n)...)
	}
	for n := 1; n <= 4; n++ {
		ps = append(ps, famM1(n)...)
		ps = append(ps, famR(n)...)
	}
	ps = append(ps, famQQ(th)...)
	if th {
		ps = append(ps, famM1(5)...)
		ps = append(ps, famR(5)...)
		ps = append(ps, famM(4)...)
	}
	return ps
}

var allPol = []int{0, 1, 2, 3}

func (c *Ctx) countClasses(cl []classified) {
	n := map[string]int{}
	for _, x := range cl {
		n[x.fam+"_"+[]string{"unknown", "valid", "invalid"}[x.cl]]++
	}
	c.Cov["oracle_classes"] = n
}

func nodes(f *Form) int {
	if f == nil {
		return 0
	}
	n := nodes(f.A) + nodes(f.B)
	if f.Op >= ONot {
		n++
	}
	return n
}

func init() {
	// soundness of the positive verdict
	checks["G01"] = func(c *Ctx) {
		c.Cov["rule"] = "all closed formulas of the listed families up to their size bound that have a finite countermodel of size <= 3 (found by exhaustive model enumeration); non-trivial: the prover takes more than 3 scheduling steps on average"
		th := c.Thorough()
		ps := foFamilies(th)
		if th {
			ps = append(ps, famHorn(4)...)
		} else {
			ps = append(ps, famHorn(2)...)
		}
		// equivalences, several universally quantified axioms and three-literal clauses need longer runs
		extra := append(append(famDMT(2), famClause3()...), famOcc(2)...)
		deep := map[*problem]bool{}
		for _, x := range extra {
			deep[x] = true
		}
		cl := classifyAll(append(ps, extra...), 3)
		c.countClasses(cl)
		p := c.Pool("engine")
		p.WallMax = 30 * time.Second
		var jobs []*Job
		for _, x := range cl {
			if x.cl != invalid {
				continue
			}
			pol := []int{0, 3}
			if th {
				pol = allPol
			}
			if deep[x.problem] {
				ms, pl := 700, []int{0}
				if th {
					ms, pl = 3000, allPol
				}
				jobs = append(jobs, c.mk(x, nil, Job{Policies: pl, MaxSteps: ms, MaxMs: 1500}))
				jobs = append(jobs, c.mk(x, []string{"-flatten"}, Job{Policies: pl[:1], MaxSteps: ms, MaxMs: 1500}))
				continue
			}
			n := nodes(x.form())
			ms := 160
			if th {
				ms = 400
			}
			jobs = append(jobs, c.mk(x, nil, Job{Policies: pol, MaxSteps: ms, MaxMs: 250}))
			if n <= 2 || (th && n <= 3) {
				jobs = append(jobs, c.mk(x, nil, Job{Policies: []int{0}, Dev: 1, MaxSteps: 90, MaxMs: 250, MaxRuns: 400, RandPts: true}))
			}
		}
		c.verdicts(p, jobs, func(v vjob, o Outcome) (bool, string) {
			return positive(o.Status), "reported " + o.Status + " although the problem has a countermodel (" + v.why + ")"
		})
	}
	// completeness
	checks["G03"] = func(c *Ctx) {
		c.Cov["rule"] = "all closed formulas of the listed families up to their size bound whose negation has an unsatisfiable finite set of ground instances (found by Herbrand instantiation and DPLL); non-trivial: the prover takes more than 3 scheduling steps on average"
		th := c.Thorough()
		ps := append(append(foFamilies(th), famClause3()...), famOcc(2)...)
		for _, x := range famDMT(2) {
			// two-variable equivalences with a second axiom outgrow the step budget
			if len(x.ax) < 2 || !strings.Contains(x.text(), "(! [X1] : (r(X0,X1) <=>") {
				ps = append(ps, x)
			}
		}
		cl := classifyAll(ps, 3)
		c.countClasses(cl)
		p := c.Pool("engine")
		var jobs []*Job
		for _, x := range cl {
			if x.cl != valid {
				continue
			}
			jobs = append(jobs, c.mk(x, nil, Job{Policies: allPol, MaxSteps: 20000, MaxMs: 20000}))
			if n := nodes(x.form()); n <= 3 || (th && n <= 4) {
				jobs = append(jobs, c.mk(x, nil, Job{Policies: []int{0}, Dev: 1, MaxSteps: 20000, MaxMs: 20000, MaxRuns: 300, RandPts: true}))
			}
		}
		c.verdicts(p, jobs, func(v vjob, o Outcome) (bool, string) {
			if o.Kind == "timeout" || o.Kind == "hang" {
				return false, ""
			}
			return o.Kind != "exit" || o.Status != expectedPos(v), "valid problem not proved (outcome " + o.Key() + ")"
		})
	}
}

func expectedPos(v vjob) string {
	if v.conj == nil {
		return "Unsatisfiable"
	}
	return "Theorem"
}
