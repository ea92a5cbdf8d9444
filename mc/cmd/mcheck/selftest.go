package main

import "fmt"

func init() {
	// selftest: the engine must be deterministic (a schedule replayed gives the
	// same outcome) and must agree with the plain binary's verdicts.
	checks["selftest"] = func(c *Ctx) {
		p := c.Pool("engine")
		jobs := []*Job{}
		for _, x := range famQQ(false)[:16] {
			jobs = append(jobs, &Job{Args: []string{"p.p"}, Files: map[string]string{"p.p": x.text()}, Policies: allPol, Dev: 1, MaxSteps: 300, MaxMs: 1000, MaxRuns: 50, RandPts: true})
		}
		p.DoList(jobs, func(j *Job, r *Result) {
			if r.Err != "" || r.Diverged > 0 {
				fatal("selftest: %s diverged=%d", r.Err, r.Diverged)
			}
		})
		fmt.Println("selftest runs", p.Runs)
	}
}
