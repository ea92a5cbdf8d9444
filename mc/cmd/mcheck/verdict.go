package main

import (
	"fmt"
	"strings"
)

func short(s string) string {
	return strings.Join(strings.Fields(s), " ")
}

// vjob describes how one verdict problem is executed.
type vjob struct {
	classified
	args []string
	job  *Job
}

func (c *Ctx) mk(x classified, args []string, t Job) *Job {
	j := t
	j.Args = append(append([]string{}, args...), "p.p")
	j.Files = map[string]string{"p.p": x.text()}
	j.meta = vjob{x, args, &j}
	return &j
}

// reproduce replays one schedule of a job five times on fresh processes.
func (c *Ctx) reproduce(p *Pool, j *Job, o Outcome) bool {
	if o.Kind == "hang" || o.Kind == "crash" {
		for i := 0; i < 2; i++ {
			k := *j
			r := p.One(&k)
			if len(r.Outcomes) == 0 || r.Outcomes[0].Kind != o.Kind {
				return false
			}
		}
		return true
	}
	k := *j
	k.Only = [][]int{o.Sched, o.Sched, o.Sched, o.Sched, o.Sched}
	r := p.One(&k)
	if r == nil || len(r.Outcomes) != 1 {
		return false
	}
	return r.Outcomes[0].Key() == o.Key() && r.Outcomes[0].Count == 5
}

type judgement struct {
	bad  bool
	what string
}

// verdicts runs the jobs and applies judge to every distinct outcome.
func (c *Ctx) verdicts(p *Pool, jobs []*Job, judge func(v vjob, o Outcome) (bad bool, what string)) {
	nontriv := 0
	type cand struct {
		j    *Job
		o    Outcome
		what string
	}
	var cands []cand
	p.DoList(jobs, func(j *Job, r *Result) {
		v := j.meta.(vjob)
		if r.Err != "" {
			fatal("engine: %s", r.Err)
		}
		if r.Steps/maxi(r.Runs, 1) > 3 {
			nontriv++
		}
		if nontriv%997 == 1 {
			c.Sample(map[string]any{"problem": short(v.text()), "args": v.args, "oracle": []string{"unknown", "valid", "invalid"}[v.cl] + " " + v.why,
				"executions": r.Runs, "outcome": keysOf(r.Outcomes)})
		}
		for _, o := range r.Outcomes {
			if bad, what := judge(v, o); bad {
				cands = append(cands, cand{j, o, what})
			}
		}
	})
	c.Add("evaluations", len(jobs))
	c.Add("distinct_nontrivial", nontriv)
	seen := map[string]bool{}
	for _, x := range cands {
		v := x.j.meta.(vjob)
		key := short(strings.Join(v.args, " ") + " " + v.text() + "=> " + x.o.Key())
		if seen[key] || len(c.viol) >= 20 {
			continue
		}
		seen[key] = true
		if !c.reproduce(p, x.j, x.o) {
			c.Add("unreproducible_discarded", 1)
			continue
		}
		c.Violate(key, x.what+": "+short(v.text())+" args="+fmt.Sprint(v.args), map[string]any{
			"problem": v.text(), "args": v.args, "schedule": x.o.Sched, "outcome": x.o.Key(), "message": x.o.Msg, "output_tail": tailOf(x.o.Out), "oracle": v.why})
	}
}

func keysOf(os []Outcome) (r []string) {
	for _, o := range os {
		r = append(r, fmt.Sprintf("%s x%d", o.Key(), o.Count))
	}
	return
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func positive(s string) bool { return s == "Theorem" || s == "Unsatisfiable" }
func negative(s string) bool { return s == "CounterSatisfiable" || s == "Satisfiable" }
