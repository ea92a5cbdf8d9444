package main

import (
	"fmt"

	. "github.com/GoelandProver/Goeland/zzref"
	"github.com/GoelandProver/Goeland/zvs"
)

// explore runs fn under every schedule that differs from one of the base
// schedules by at most dev decisions, and calls after once per execution.
func explore(u *U, pols []int, dev int, fn func(), after func(o zvs.Outcome, pol int, prefix []int) bool) {
	type item struct {
		prefix []int
		from   int
		dev    int
	}
	for _, pol := range pols {
		stack := []item{{}}
		for len(stack) > 0 {
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			o := zvs.Run(zvs.Config{Prefix: it.prefix, MaxSteps: 100000, Policy: pol}, fn)
			u.Trans += o.Steps
			u.States += len(o.Trace)
			u.Extra["schedules"]++
			if !after(o, pol, it.prefix) {
				return
			}
			if it.dev >= dev {
				continue
			}
			for i := len(o.Trace) - 1; i >= it.from; i-- {
				for c := o.Trace[i].N - 1; c >= 1; c-- {
					p := append(append([]int{}, it.prefix...), i, c)
					stack = append(stack, item{p, i + 1, it.dev + 1})
				}
			}
		}
	}
}

// schedindex: the branches of the index are searched concurrently; the answer
// is the same set of most general unifiers under every schedule.
func schedindex(u *U) {
	x, y := V(0), V(1)
	a := F("a")
	terms := []*T{x, a, F("f", x), F("f", a), F("g", x, y), F("g", a, y), F("g", x, x), F("b")}
	qs := []*T{V(2), F("f", V(2)), F("g", V(2), V(2)), F("g", F("b"), V(2)), x, a}
	dev := 2
	if u.Thorough() {
		dev = 3
	}
	pool := atoms([]string{"P"}, terms, 1)
	for i, s1 := range pool {
		for j, s2 := range pool[:i] {
			for _, s3 := range pool[:j] {
				if !u.Mine() {
					continue
				}
				set := []*T{s1, s2, s3}
				for _, q := range atoms([]string{"P"}, qs, 1) {
					var done bool
					explore(u, []int{0, 1, 2, 3}, dev, func() {
						done = false
						d := build(set, 1)
						found, res := d.Unify(pred(q))
						checkMatch(u, "sched", set, q, found, res)
						done = true
					}, func(o zvs.Outcome, pol int, prefix []int) bool {
						if !done {
							u.Violate(fmt.Sprintf("sched set=%v query=%v: %s", set, q, o.Kind), fmt.Sprintf("index %v, query %v, schedule %d %v: %s %s", set, q, pol, prefix, o.Kind, o.Msg), nil)
						}
						return done
					})
				}
			}
		}
	}
}
