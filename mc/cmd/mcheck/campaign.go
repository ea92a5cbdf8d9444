package main

import (
	"fmt"
	"time"
)

func init() {
	checks["campaign"] = func(c *Ctx) {
		var ps []*problem
		for n := 1; n <= 3; n++ {
			ps = append(ps, famM(n)...)
			ps = append(ps, famF(n)...)
		}
		for n := 1; n <= 4; n++ {
			ps = append(ps, famM1(n)...)
			ps = append(ps, famR(n)...)
		}
		ps = append(ps, famQQ(false)...)
		ps = append(ps, famHorn(3)...)
		campaign(c, ps)
	}
}

func campaign(c *Ctx, ps []*problem) {
	cl := classifyAll(ps, 3)
	cnt := map[string]int{}
	var jobs []*Job
	for _, x := range cl {
		cnt[x.fam+[]string{" unknown", " valid", " invalid"}[x.cl]]++
		x := x
		jobs = append(jobs, &Job{Args: append(campArgs, "p.p"), Files: map[string]string{"p.p": x.text()}, Policies: []int{0, 1, 2, 3}, MaxSteps: campSteps, MaxMs: 300, meta: x})
		if x.cl == valid {
			jobs[len(jobs)-1].MaxSteps, jobs[len(jobs)-1].MaxMs = 20000, 10000
		}
	}
	fmt.Println("classes", cnt, "at", c.since())
	p := c.Pool("engine")
	p.WallMax = 45 * time.Second
	st := map[string]int{}
	p.DoList(jobs, func(j *Job, r *Result) {
		x := j.meta.(classified)
		for _, o := range r.Outcomes {
			k := fmt.Sprint(x.fam, " ", []string{"unknown", "valid", "invalid"}[x.cl], " -> ", o.Key())
			st[k]++
			if st[k] <= campShow {
				fmt.Println(k, x.text(), o.Sched, o.Msg, tailOf(o.Out))
			}
		}
	})
	for _, k := range sortedKeys(st) {
		fmt.Println(k, st[k])
	}
	fmt.Println("runs", p.Runs, "steps", p.Steps, "at", c.since())
}
