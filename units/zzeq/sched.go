package main

import (

	. "github.com/GoelandProver/Goeland/zzref"
	"github.com/GoelandProver/Goeland/zvs"
)

// explore runs fn under every schedule that differs from one of the base
// schedules by at most dev decisions, and calls after once per execution.
func explore(u *U, pols []int, dev int, fn func(), after func(o zvs.Outcome, pol int, prefix []int) bool) {
	type item struct {
		prefix []int
		from   int
		dev    int
	}
	for _, pol := range pols {
		stack := []item{{}}
		for len(stack) > 0 {
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			o := zvs.Run(zvs.Config{Prefix: it.prefix, MaxSteps: 100000, Policy: pol}, fn)
			u.Trans += o.Steps
			u.States += len(o.Trace)
			u.Extra["schedules"]++
			if !after(o, pol, it.prefix) {
				return
			}
			if it.dev >= dev {
				continue
			}
			for i := len(o.Trace) - 1; i >= it.from; i-- {
				for c := o.Trace[i].N - 1; c >= 1; c-- {
					p := append(append([]int{}, it.prefix...), i, c)
					stack = append(stack, item{p, i + 1, it.dev + 1})
				}
			}
		}
	}
}

