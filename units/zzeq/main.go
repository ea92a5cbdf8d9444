package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
	equality "github.com/GoelandProver/Goeland/Mods/equality/bse"
	"github.com/GoelandProver/Goeland/Mods/equality/eqStruct"
	"github.com/GoelandProver/Goeland/Mods/equality/sateq"
	"github.com/GoelandProver/Goeland/Search"
	"github.com/GoelandProver/Goeland/Typing"
	"github.com/GoelandProver/Goeland/Unif"
	. "github.com/GoelandProver/Goeland/zzref"
	"github.com/GoelandProver/Goeland/zvs"
)

var metas [3]AST.Meta
var metaOf = map[int]int{}
var ids = map[string]AST.Id{}

func setup() {
	Glob.SetStart(time.Now())
	Glob.InitLogs()
	AST.InitDebugger()
	Unif.InitDebugger()
	Core.InitDebugger()
	Typing.InitDebugger()
	Search.InitDebugger()
	equality.InitDebugger()
	AST.Init()
	Typing.Init()
	for i := range metas {
		metas[i] = AST.MakerMeta(VarName(i), i, AST.TIndividual())
		metaOf[metas[i].GetIndex()] = i
	}
	for _, s := range []string{"a", "b", "c", "f", "g"} {
		ids[s] = AST.MakerId(s)
	}
}

func term(t *T) AST.Term {
	if t.IsVar() {
		return metas[t.V]
	}
	l := Lib.NewList[AST.Term]()
	for _, a := range t.A {
		l.Append(term(a))
	}
	return AST.MakerFun(ids[t.F], Lib.NewList[AST.Ty](), l)
}

func back(t AST.Term) *T {
	switch u := t.(type) {
	case AST.Meta:
		if i, ok := metaOf[u.GetIndex()]; ok {
			return V(i)
		}
		return F("?meta" + u.ToString())
	case AST.Fun:
		r := F(u.GetID().GetName())
		for _, a := range u.GetArgs().GetSlice() {
			r.A = append(r.A, back(a))
		}
		return r
	}
	return F("?" + t.ToString())
}

type eqn struct{ l, r *T }

func (e eqn) String() string { return e.l.String() + "=" + e.r.String() }

// entails: whether the pairs of goal follow from ax by congruence (variables
// are constants).
func entails(ax, goal []eqn) bool {
	idx := map[string]int{}
	var ts []*T
	var add func(t *T)
	add = func(t *T) {
		if _, ok := idx[t.String()]; ok {
			return
		}
		for _, a := range t.A {
			add(a)
		}
		idx[t.String()] = len(ts)
		ts = append(ts, t)
	}
	for _, e := range append(append([]eqn{}, ax...), goal...) {
		add(e.l)
		add(e.r)
	}
	cl := make([]int, len(ts))
	for i := range cl {
		cl[i] = i
	}
	merge := func(a, b int) bool {
		x, y := cl[a], cl[b]
		if x == y {
			return false
		}
		for i := range cl {
			if cl[i] == x {
				cl[i] = y
			}
		}
		return true
	}
	for _, e := range ax {
		merge(idx[e.l.String()], idx[e.r.String()])
	}
	for ch := true; ch; {
		ch = false
		for i, s := range ts {
			for j, t := range ts[:i] {
				if s.IsVar() || t.IsVar() || s.F != t.F || len(s.A) == 0 || cl[i] == cl[j] {
					continue
				}
				same := true
				for k := range s.A {
					same = same && cl[idx[s.A[k].String()]] == cl[idx[t.A[k].String()]]
				}
				ch = ch || same && merge(i, j)
			}
		}
	}
	for _, e := range goal {
		if cl[idx[e.l.String()]] != cl[idx[e.r.String()]] {
			return false
		}
	}
	return true
}

func subst(s Sub, es []eqn) (r []eqn) {
	for _, e := range es {
		r = append(r, eqn{s.App(e.l), s.App(e.r)})
	}
	return
}

func subterms(t *T, m map[string]*T) {
	m[t.String()] = t
	for _, a := range t.A {
		subterms(a, m)
	}
}

// solvable looks for a substitution that maps each variable to a subterm of
// the problem (a rigid E-unification problem that has a solution has one that
// is a triangular substitution of this form).
func solvable(ax, goal []eqn) Sub {
	m := map[string]*T{}
	vs := map[int]bool{}
	for _, e := range append(append([]eqn{}, ax...), goal...) {
		for _, t := range []*T{e.l, e.r} {
			subterms(t, m)
			t.Vars(vs)
		}
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var vars []int
	for v := range vs {
		vars = append(vars, v)
	}
	sort.Ints(vars)
	var rec func(i int, s Sub) Sub
	rec = func(i int, s Sub) Sub {
		if i == len(vars) {
			if entails(subst(s, ax), subst(s, goal)) {
				return s
			}
			return nil
		}
		if r := rec(i+1, s); r != nil {
			return r
		}
		for _, k := range keys {
			t := m[k]
			if t.IsVar() && t.V == vars[i] || s.Occurs(vars[i], t) {
				continue
			}
			n := Sub{}
			for k, v := range s {
				n[k] = v
			}
			n[vars[i]] = t
			if r := rec(i+1, n); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(0, Sub{})
}

type answer struct {
	found bool
	subs  []Unif.Substitutions
}

func pair(e eqn) eqStruct.TermPair { return eqStruct.MakeTermPair(term(e.l), term(e.r)) }

func run(mk func() eqStruct.EqualityStruct, ax []eqn, goals [][]eqn) answer {
	es := mk()
	for _, e := range ax {
		es.AddAssumption(pair(e))
	}
	for _, g := range goals {
		var ps []eqStruct.TermPair
		for _, e := range g {
			ps = append(ps, pair(e))
		}
		es.AddGoal(ps)
	}
	subs, ok := es.Solve()
	return answer{ok, subs}
}

// judge checks an answer: every substitution solves one of the goals; when a
// solution exists (and complete is set) one is found.
func judge(u *U, tag string, ax []eqn, goals [][]eqn, sol Sub, complete bool, a answer, ctx string) bool {
	key := fmt.Sprintf("%s %v |- %v", tag, ax, goals)
	bad := func(k, w string) bool {
		u.Violate(key+": "+k, w+" "+ctx, nil)
		return false
	}
	if a.found && len(a.subs) == 0 {
		return bad("empty", "claims a solution of "+key+" and gives none")
	}
	if !a.found {
		if sol != nil && complete {
			return bad("missed", fmt.Sprintf("no solution found for %s although %v is one", key, sol))
		}
		return true
	}
	for _, s := range a.subs {
		sg := Sub{}
		for _, p := range s {
			k, v := p.Get()
			bk, bv := back(k), back(v)
			if !bk.IsVar() {
				return bad("key", "unknown variable in the substitution "+s.ToString()+" for "+key)
			}
			if bv.IsVar() && bv.V == bk.V {
				continue
			}
			if _, dup := sg[bk.V]; dup || sg.Occurs(bk.V, bv) {
				return bad("cyclic", "cyclic or ambiguous substitution "+s.ToString()+" for "+key)
			}
			sg[bk.V] = bv
		}
		ok := false
		for _, g := range goals {
			ok = ok || entails(subst(sg, ax), subst(sg, g))
		}
		if !ok {
			return bad("unsound", fmt.Sprintf("%v is not a solution of %s", sg, key))
		}
	}
	return true
}

var engines = map[string]func() eqStruct.EqualityStruct{"bse": equality.NewBasicEqualityStruct, "sateq": sateq.NewEqStruct}

// problems enumerates sets of at most k equations and goals over the pool.
func problems(ts []*T, k int, u *U, f func(ax []eqn, g []eqn)) {
	var eqs []eqn
	for i, s := range ts {
		for _, t := range ts[:i] {
			eqs = append(eqs, eqn{s, t}, eqn{t, s})
		}
	}
	var goals []eqn
	for i := 0; i < len(eqs); i += 2 {
		goals = append(goals, eqs[i])
	}
	var rec func(ax []eqn, from int)
	rec = func(ax []eqn, from int) {
		for _, g := range goals {
			if u.Mine() {
				f(ax, []eqn{g})
			}
		}
		if len(ax) == k {
			return
		}
		for i := from; i < len(eqs); i++ {
			rec(append(append([]eqn{}, ax...), eqs[i]), i/2*2+2)
		}
	}
	rec(nil, 0)
}

func eqsolve(u *U) {
	x, y := V(0), V(1)
	a, b, c := F("a"), F("b"), F("c")
	f := func(t *T) *T { return F("f", t) }
	pools := [][]*T{
		{a, b, c, f(a), f(b), f(f(a))},
		{a, b, x, f(a), f(x)},
		{a, x, y, f(x), f(a)},
		{a, b, x, F("g", x, a), F("g", b, x)},
	}
	k := 2
	if u.Thorough() {
		k = 3
		pools = append(pools, []*T{a, b, x, y, f(x), F("g", x, y)}, []*T{a, b, f(f(x)), f(x), f(y)})
	}
	for _, ts := range pools {
		problems(ts, k, u, func(ax, g []eqn) {
			one(u, ax, [][]eqn{g}, []int{0}, 0)
		})
	}
}

func one(u *U, ax []eqn, goals [][]eqn, pols []int, dev int) {
	u.Evals++
	var sol Sub
	for _, g := range goals {
		if s := solvable(ax, g); s != nil {
			sol = s
			break
		}
	}
	if sol != nil {
		u.NonTriv++
	}
	for _, n := range []string{"bse", "sateq"} {
		mk := engines[n]
		// The default procedure is not complete with several pairs to solve
		// together, nor when an equation has a metavariable for a side.
		complete := n == "sateq" || !bare(ax) && single(goals)
		var ans answer
		done := false
		explore(u, pols, dev, func() {
			done = false
			ans = run(mk, ax, goals)
			done = true
		}, func(o zvs.Outcome, pol int, prefix []int) bool {
			ctx := fmt.Sprintf("(schedule %d %v)", pol, prefix)
			if !done {
				u.Violate(fmt.Sprintf("%s %v |- %v: %s", n, ax, goals, o.Kind), fmt.Sprintf("%s %v |- %v %s: %s %s", n, ax, goals, ctx, o.Kind, strings.TrimSpace(o.Msg)), nil)
				return false
			}
			return judge(u, n, ax, goals, sol, complete, ans, ctx)
		})
	}
}

func bare(es []eqn) bool {
	for _, e := range es {
		if e.l.IsVar() || e.r.IsVar() {
			return true
		}
	}
	return false
}

func single(goals [][]eqn) bool {
	for _, g := range goals {
		if len(g) > 1 {
			return false
		}
	}
	return true
}

// eqpairs: goals of two pairs to solve together, and two alternative goals.
func eqpairs(u *U) {
	x, y := V(0), V(1)
	a, b, c := F("a"), F("b"), F("c")
	f := func(t *T) *T { return F("f", t) }
	pools := [][]*T{{a, b, c, f(a)}, {a, b, x, f(x)}, {a, x, y, f(x)}}
	k := 2
	if u.Thorough() {
		pools = append(pools, []*T{a, x, y, F("g", x, y)}, []*T{a, b, x, f(x), f(a)})
	}
	for _, ts := range pools {
		var eqs []eqn
		for i, s := range ts {
			for _, t := range ts[:i] {
				eqs = append(eqs, eqn{s, t})
			}
		}
		problems(ts, k, u, func(ax, g []eqn) {
			for _, e := range eqs {
				one(u, ax, [][]eqn{{g[0], e}}, []int{0}, 0)
				one(u, ax, [][]eqn{g, {e}}, []int{0}, 0)
				one(u, ax, [][]eqn{{g[0], e}, {e}}, []int{0}, 0)
			}
		})
	}
}

// eqsched: the rules are applied by concurrent goroutines.
func eqsched(u *U) {
	x := V(0)
	a, b := F("a"), F("b")
	f := func(t *T) *T { return F("f", t) }
	for _, ts := range [][]*T{{a, b, f(x), f(a)}, {a, x, f(x), f(b)}} {
		problems(ts, 2, u, func(ax, g []eqn) {
			one(u, ax, [][]eqn{g}, []int{1, 2, 3}, 0)
		})
	}
	pools, k := [][]*T{{a, x, f(x)}, {a, b, x}}, 1
	if u.Thorough() {
		pools = append(pools, []*T{a, f(a), f(x)}, []*T{b, x, f(a)})
	}
	for _, ts := range pools {
		problems(ts, k, u, func(ax, g []eqn) {
			one(u, ax, [][]eqn{g}, []int{0, 3}, 1)
		})
	}
}

func main() {
	setup()
	u := Start()
	switch u.Unit {
	case "eqsolve":
		eqsolve(u)
	case "eqpairs":
		eqpairs(u)
	case "eqsched":
		eqsched(u)
	default:
		fmt.Println("unknown unit", u.Unit)
		os.Exit(2)
	}
	u.Done()
}
