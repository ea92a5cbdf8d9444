package main

import "sort"

func init() {
	checks["G04"] = func(c *Ctx) {
		c.Cov["rule"] = "every execution within d scheduling deviations (d as listed per group) of four base schedules of each problem, including the choice among ready select cases and the random substitution choice; all executions of a problem must end by themselves with one and the same verdict; non-trivial: more than 3 scheduling steps on average"
		th := c.Thorough()
		var ps []*problem
		for n := 1; n <= 3; n++ {
			ps = append(ps, famM(n)...)
			ps = append(ps, famF(n)...)
			ps = append(ps, famR(n)...)
		}
		ps = append(ps, famQQ(false)...)
		cl := classifyAll(ps, 2)
		for _, x := range famProp(2, binOps, []string{"p", "q"}, false, false) {
			k := classified{x, invalid, "truth table"}
			if taut(x.form()) {
				k.cl = valid
			}
			cl = append(cl, k)
		}
		p := c.Pool("engine")
		var jobs []*Job
		for _, x := range cl {
			if x.cl == invalid && x.conj.hasQuant() || x.cl == unknown {
				continue
			}
			jobs = append(jobs, c.mk(x, nil, Job{Policies: allPol, Dev: 1, MaxSteps: 20000, MaxMs: 20000, MaxRuns: 1500, RandPts: true, MutexPts: true}))
		}
		// deeper on the problems with the fewest decisions
		type sz struct {
			x classified
			n int
		}
		var small []sz
		c.verdicts(p, jobs, func(v vjob, o Outcome) (bool, string) { return judgeSched(v, o) })
		// second pass: two (thorough: three) deviations
		q := c.Pool("engine")
		var probe []*Job
		for _, x := range cl {
			if x.cl == invalid && x.conj.hasQuant() || x.cl == unknown {
				continue
			}
			probe = append(probe, c.mk(x, nil, Job{Policies: []int{0}, MaxSteps: 20000, MaxMs: 20000, RandPts: true}))
		}
		q.DoList(probe, func(j *Job, r *Result) {
			small = append(small, sz{j.meta.(vjob).classified, r.Decisions})
		})
		sort.SliceStable(small, func(a, b int) bool {
			if small[a].n != small[b].n {
				return small[a].n < small[b].n
			}
			return small[a].x.text() < small[b].x.text()
		})
		jobs = nil
		n3, n2 := 0, 0
		for _, s := range small {
			switch {
			case s.n == 0:
			case s.n <= 10 && (th || n3 < 150):
				n3++
				jobs = append(jobs, c.mk(s.x, nil, Job{Policies: []int{0, 1}, Dev: 3, MaxSteps: 20000, MaxMs: 20000, MaxRuns: 3000, RandPts: true}))
			case s.n <= 40 && (th || n2 < 150) || th && s.n <= 80:
				n2++
				jobs = append(jobs, c.mk(s.x, nil, Job{Policies: []int{0}, Dev: 2, MaxSteps: 20000, MaxMs: 20000, MaxRuns: 3000, RandPts: true}))
			}
		}
		c.Cov["problems_two_deviations"] = n2
		c.Cov["problems_three_deviations"] = n3
		c.verdicts(c.Pool("engine"), jobs, judgeSched)
	}
}

func judgeSched(v vjob, o Outcome) (bool, string) {
	if o.Kind == "timeout" || o.Kind == "hang" {
		return false, ""
	}
	want := "Theorem"
	if v.cl == invalid {
		want = "CounterSatisfiable"
	}
	return o.Kind != "exit" || o.Code != 0 || o.Status != want, "under this schedule the outcome is " + o.Key() + ", expected " + want
}
