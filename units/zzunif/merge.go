package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Unif"
	. "github.com/GoelandProver/Goeland/zzref"
)

// B is one binding of an ordered substitution.
type B struct {
	K int
	V *T
}

type OS []B

func (s OS) String() string {
	var r []string
	for _, b := range s {
		r = append(r, VarName(b.K)+"->"+b.V.String())
	}
	return "{" + strings.Join(r, " ") + "}"
}

func (s OS) sub() Sub {
	r := Sub{}
	for _, b := range s {
		r[b.K] = b.V
	}
	return r
}

func (s OS) mixed() Lib.List[Unif.MixedSubstitution] {
	r := Lib.NewList[Unif.MixedSubstitution]()
	for _, b := range s {
		if b.K >= 6 {
			r.Append(Unif.MkMixedFromTy(Unif.MkTySubstitution(tymetas[b.K-6], typ(b.V))))
			continue
		}
		r.Append(Unif.MkMixedFromSubst(Unif.MakeSubstitution(metas[b.K], term(b.V))))
	}
	return r
}

func (s OS) raw() Unif.Substitutions {
	r := Unif.Substitutions{}
	for _, b := range s {
		r = append(r, Unif.MakeSubstitution(metas[b.K], term(b.V)))
	}
	return r
}

func mixedBack(l Lib.List[Unif.MixedSubstitution]) (OS, bool) {
	var r OS
	for _, m := range l.GetSlice() {
		if ts, ok := m.TySubstitution().(Lib.Some[Unif.TySubstitution]); ok {
			k, v := ts.Val.Get()
			r = append(r, B{tyBack(k).V, tyBack(v)})
			continue
		}
		s, ok := m.Substitution().(Lib.Some[Unif.Substitution])
		if !ok {
			return nil, false
		}
		k, v := s.Val.Get()
		bk := back(k)
		if !bk.IsVar() || v == nil {
			return nil, false
		}
		r = append(r, B{bk.V, back(v)})
	}
	return r, true
}

func rawBack(l Unif.Substitutions) (OS, bool) {
	var r OS
	for _, m := range l {
		k, v := m.Get()
		bk := back(k)
		if !bk.IsVar() || v == nil {
			return nil, false
		}
		r = append(r, B{bk.V, back(v)})
	}
	return r, true
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

// substitutions lists every idempotent substitution on nv variables with
// values in the pool, in every order of the pairs.
func substitutions(nv, maxKeys int, pool []*T) []OS {
	var r []OS
	var rec func(i int, cur OS)
	rec = func(i int, cur OS) {
		if i == nv {
			keys := map[int]bool{}
			for _, b := range cur {
				keys[b.K] = true
			}
			for _, b := range cur {
				vs := map[int]bool{}
				b.V.Vars(vs)
				for v := range vs {
					if keys[v] {
						return
					}
				}
			}
			for _, p := range perms(len(cur)) {
				o := make(OS, len(cur))
				for j, k := range p {
					o[j] = cur[k]
				}
				r = append(r, o)
			}
			return
		}
		rec(i+1, cur)
		if len(cur) < maxKeys {
			for _, t := range pool {
				rec(i+1, append(append(OS{}, cur...), B{i, t}))
			}
		}
	}
	rec(0, nil)
	return r
}

// resolved: no duplicate key, no key in a value.
func (s OS) resolved() bool {
	keys := map[int]bool{}
	for _, b := range s {
		if keys[b.K] {
			return false
		}
		keys[b.K] = true
	}
	for _, b := range s {
		vs := map[int]bool{}
		b.V.Vars(vs)
		for v := range vs {
			if keys[v] {
				return false
			}
		}
	}
	return true
}

func equivalent(th Sub, s OS) bool {
	for _, b := range s {
		if !Eq(th.App(V(b.K)), th.App(b.V)) {
			return false
		}
	}
	sg := s.sub()
	for k, v := range th {
		if !Eq(sg.App(V(k)), sg.App(v)) {
			return false
		}
	}
	return true
}

func x(i int) *T { return V(i) }

func pool(deep bool) []*T {
	f := func(a *T) *T { return F("f", a) }
	g := func(a, b *T) *T { return F("g", a, b) }
	X, Y, Z, a, b := x(0), x(1), x(2), F("a"), F("b")
	p := []*T{X, Y, Z, a, b, f(X), f(Y), f(Z), f(a), g(X, Y), g(Y, Z), g(X, X), g(a, Z), f(f(X)), f(f(Z))}
	if deep {
		p = append(p, f(f(Y)), f(f(a)), g(a, Y), g(b, Z), g(Y, Y), g(Z, X), g(f(X), Y), g(Z, f(Z)), f(g(X, Y)))
	}
	return p
}

func merge(u *U) {
	maxKeys := 2
	if u.Thorough() {
		maxKeys = 3
	}
	ss := substitutions(3, maxKeys, pool(u.Thorough()))
	if !u.Thorough() {
		for _, s := range substitutions(3, 3, pool(false)[:9]) {
			if len(s) == 3 {
				ss = append(ss, s)
			}
		}
	}
	for _, s1 := range ss {
		if !u.Mine() {
			continue
		}
		for _, s2 := range ss {
			// in three-binding pairs, one order of the pairs of the first
			if len(s1)+len(s2) > 5 && !sort.SliceIsSorted(s1, func(i, j int) bool { return s1[i].K < s1[j].K }) {
				continue
			}
			mergeOne(u, s1, s2)
		}
	}
}

func mergeOne(u *U, s1, s2 OS) {
	u.Evals++
	key := fmt.Sprintf("merge %v with %v", s1, s2)
	th := Sub{}
	want := true
	for _, b := range append(append(OS{}, s1...), s2...) {
		if !th.Unify(V(b.K), b.V) {
			want = false
			break
		}
	}
	if want && len(s1) > 0 && len(s2) > 0 {
		u.NonTriv++
	}
	u.Guard(key, func() {
		in1, in2 := s1.mixed(), s2.mixed()
		res, ok := Unif.MergeMixedSubstitutions(in1, in2)
		if ok != want {
			u.Violate(key+": success", fmt.Sprintf("merging %v with %v: success=%v, unifiable=%v", s1, s2, ok, want), nil)
			return
		}
		raw, _ := Unif.MergeSubstitutions(s1.raw(), s2.raw())
		if raw.Equals(Unif.Failure()) == want {
			u.Violate(key+": raw success", fmt.Sprintf("merging %v with %v: failure=%v, unifiable=%v", s1, s2, !want, want), nil)
			return
		}
		if !ok {
			return
		}
		o, ok1 := mixedBack(res)
		o2, ok2 := rawBack(raw)
		if !ok1 || !ok2 {
			u.Violate(key+": form", "the merged substitution is not one: "+raw.ToString(), nil)
			return
		}
		for _, s := range []OS{o, o2} {
			if !s.resolved() {
				u.Violate(key+": not resolved", fmt.Sprintf("merging %v with %v gives %v, which is not idempotent", s1, s2, s), nil)
				return
			}
			if !equivalent(th, s) {
				u.Violate(key+": wrong", fmt.Sprintf("merging %v with %v gives %v, which is not their most general common instance", s1, s2, s), nil)
				return
			}
		}
		// the arguments are left as they were
		b1, _ := mixedBack(in1)
		b2, _ := mixedBack(in2)
		if b1.String() != s1.String() || b2.String() != s2.String() {
			u.Violate(key+": argument changed", fmt.Sprintf("merging %v with %v turned them into %v and %v", s1, s2, b1, b2), nil)
		}
	})
}

// ---- resolution of a triangular system ----

func eliminate(u *U) {
	p := pool(false)
	var rec func(cur OS, used int)
	rec = func(cur OS, used int) {
		if len(cur) > 0 && u.Mine() {
			u.Evals++
			key := fmt.Sprintf("eliminate %v", cur)
			u.Guard(key, func() {
				// reference: apply pairs exhaustively; a cycle is a failure
				sg := cur.sub()
				cyc := false
				for _, b := range cur {
					cyc = cyc || occursFar(sg, b.K, b.V, 8)
				}
				raw := cur.raw()
				Unif.Eliminate(&raw)
				fail := raw.Equals(Unif.Failure())
				if fail != cyc {
					u.Violate(key+": failure", fmt.Sprintf("resolving %v: failure=%v, cyclic=%v", cur, fail, cyc), nil)
					return
				}
				if cyc {
					return
				}
				o, ok := rawBack(raw)
				if !ok || len(o) != len(cur) || !o.resolved() {
					u.Violate(key+": not resolved", fmt.Sprintf("resolving %v gives %v", cur, o), nil)
					return
				}
				u.NonTriv++
				for _, b := range o {
					if !Eq(b.V, sg.App(V(b.K))) {
						u.Violate(key+": wrong", fmt.Sprintf("resolving %v gives %v", cur, o), nil)
						return
					}
				}
			})
		}
		if len(cur) == 3 {
			return
		}
		for k := 0; k < 3; k++ {
			if used&(1<<k) != 0 {
				continue
			}
			for _, t := range p {
				// pairs of metavariables pointing at each other belong to EliminateMeta
				if t.IsVar() && (t.V == k || metaCycle(append(append(OS{}, cur...), B{k, t}))) {
					continue
				}
				rec(append(append(OS{}, cur...), B{k, t}), used|1<<k)
			}
		}
	}
	rec(nil, 0)
}

// addunif: every equation between two terms of the pool added to every
// idempotent substitution.
func addunif(u *U) {
	ts := pool(true)
	ss := substitutions(3, 2, pool(u.Thorough()))
	if u.Thorough() {
		for _, s := range substitutions(3, 3, pool(false)) {
			if len(s) == 3 {
				ss = append(ss, s)
			}
		}
	}
	for _, s := range ss {
		if !u.Mine() {
			continue
		}
		for _, t1 := range ts {
			for _, t2 := range ts {
				u.Evals++
				key := fmt.Sprintf("add %v=%v to %v", t1, t2, s)
				th := Sub{}
				want := true
				for _, b := range s {
					want = want && th.Unify(V(b.K), b.V)
				}
				want = want && th.Unify(t1, t2)
				if want && len(s) > 0 {
					u.NonTriv++
				}
				u.Guard(key, func() {
					in := s.raw()
					res := Unif.AddUnification(term(t1), term(t2), in)
					if res.Equals(Unif.Failure()) == want {
						u.Violate(key+": success", fmt.Sprintf("adding %v = %v to %v: failure=%v, unifiable=%v", t1, t2, s, !want, want), nil)
						return
					}
					if b, _ := rawBack(in); b.String() != s.String() {
						u.Violate(key+": argument changed", fmt.Sprintf("adding %v = %v turned %v into %v", t1, t2, s, b), nil)
						return
					}
					if !want {
						return
					}
					o, ok := rawBack(res)
					if !ok || !o.resolved() {
						u.Violate(key+": not resolved", fmt.Sprintf("adding %v = %v to %v gives %v, which is not idempotent", t1, t2, s, o), nil)
						return
					}
					if !equivalent(th, o) {
						u.Violate(key+": wrong", fmt.Sprintf("adding %v = %v to %v gives %v, which is not the most general solution", t1, t2, s, o), nil)
					}
				})
			}
		}
	}
}

func metaCycle(s OS) bool {
	m := s.sub()
	for _, b := range s {
		v := b.K
		for i := 0; i < 4; i++ {
			t, ok := m[v]
			if !ok || !t.IsVar() {
				break
			}
			v = t.V
			if v == b.K {
				return true
			}
		}
	}
	return false
}

func occursFar(s Sub, k int, t *T, depth int) bool {
	if depth == 0 {
		return false
	}
	if t.IsVar() {
		if t.V == k {
			return true
		}
		if v, ok := s[t.V]; ok {
			return occursFar(s, k, v, depth-1)
		}
		return false
	}
	for _, a := range t.A {
		if occursFar(s, k, a, depth) {
			return true
		}
	}
	return false
}

// ---- what a node reports to its father ----

// restrict: the part of a substitution that concerns the metavariables M,
// up to a renaming of the others.
func restrict(u *U) {
	f := func(a *T) *T { return F("f", a) }
	g := func(a, b *T) *T { return F("g", a, b) }
	X, Y, Z, W, a := x(0), x(1), x(2), x(3), F("a")
	p := []*T{X, Y, Z, W, a, f(X), f(Y), f(Z), f(W), g(X, Y), g(Z, W), f(f(W)), g(W, W), f(a)}
	if u.Thorough() {
		p = append(p, g(X, Z), g(Y, W), g(a, W), f(g(Z, W)))
	}
	for _, s := range substitutions(4, 3, p) {
		if !u.Mine() {
			continue
		}
		for m := 0; m < 16; m++ {
			u.Evals++
			mm := Lib.EmptySet[AST.Meta]()
			var ms []int
			for i := 0; i < 4; i++ {
				if m&(1<<i) != 0 {
					mm = mm.Add(metas[i])
					ms = append(ms, i)
				}
			}
			key := fmt.Sprintf("restrict %v to %v", s, names(ms))
			u.Guard(key, func() {
				res := Core.RemoveElementWithoutMM(s.mixed(), mm)
				o, ok := mixedBack(res)
				if !ok || !o.resolved() {
					u.Violate(key+": not resolved", fmt.Sprintf("%s gives %v", key, o), nil)
					return
				}
				if len(ms) > 0 && len(s) > 0 {
					u.NonTriv++
				}
				sg, th := s.sub(), o.sub()
				l, r := F("t"), F("t")
				for _, i := range ms {
					l.A = append(l.A, sg.App(V(i)))
					r.A = append(r.A, th.App(V(i)))
				}
				if !variant(l, r) {
					u.Violate(key+": differs", fmt.Sprintf("%s gives %v: %v becomes %v instead of %v", key, o, names(ms), r, l), nil)
				}
			})
		}
	}
}

func names(ms []int) string {
	var r []string
	for _, i := range ms {
		r = append(r, VarName(i))
	}
	return "[" + strings.Join(r, " ") + "]"
}

func variant(a, b *T) bool {
	l, r := map[int]int{}, map[int]int{}
	var rec func(a, b *T) bool
	rec = func(a, b *T) bool {
		if a.IsVar() != b.IsVar() {
			return false
		}
		if a.IsVar() {
			x, ok := l[a.V]
			y, ok2 := r[b.V]
			if !ok && !ok2 {
				l[a.V], r[b.V] = b.V, a.V
				return true
			}
			return ok && ok2 && x == b.V && y == a.V
		}
		if a.F != b.F || len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !rec(a.A[i], b.A[i]) {
				return false
			}
		}
		return true
	}
	return rec(a, b)
}

// ---- application ----

func apply(u *U) {
	f := func(a *T) *T { return F("f", a) }
	g := func(a, b *T) *T { return F("g", a, b) }
	X, Y, Z, a := x(0), x(1), x(2), F("a")
	terms := []*T{X, Y, Z, a, f(X), f(Y), g(X, Y), g(Y, X), g(X, X), f(f(X)), g(f(X), Z), g(a, f(g(X, Y))), f(g(X, X)), f(a), g(g(X, Y), g(Y, Z))}
	ss := substitutions(3, 3, pool(u.Thorough()))
	for _, s := range ss {
		if !u.Mine() {
			continue
		}
		th := s.sub()
		ms := s.mixed()
		for _, t := range terms {
			u.Evals++
			key := fmt.Sprintf("apply %v to %v", s, t)
			want := th.App(t)
			if !Eq(want, t) {
				u.NonTriv++
			}
			u.Guard(key, func() {
				src := term(t)
				src.GetMetas()
				got := Core.ApplySubstitutionsOnTerm(ms, src)
				if !Eq(back(got), want) {
					u.Violate(key, fmt.Sprintf("%s gives %v instead of %v", key, back(got), want), nil)
					return
				}
				if !Eq(back(src), t) {
					u.Violate(key+": argument", fmt.Sprintf("%s changed the term into %v", key, back(src)), nil)
					return
				}
				if w, h := metasOf(want), metaSet(got.GetMetas()); w != h {
					u.Violate(key+": metavariables", fmt.Sprintf("%s: the result %v has the metavariables %s, GetMetas says %s", key, want, w, h), nil)
					return
				}
				l := Core.ApplySubstitutionsOnTermList(ms, Lib.MkListV[AST.Term](src, term(X)))
				if l.Len() != 2 || !Eq(back(l.At(0)), want) || !Eq(back(l.At(1)), th.App(X)) {
					u.Violate(key+": list", fmt.Sprintf("%s in a list gives %v", key, Lib.ListToString(l)), nil)
				}
			})
		}
	}
}

func metasOf(t *T) string {
	m := map[int]bool{}
	t.Vars(m)
	var r []string
	for i := range m {
		r = append(r, VarName(i))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func metaSet(s Lib.Set[AST.Meta]) string {
	var r []string
	for _, m := range s.Elements().GetSlice() {
		r = append(r, back(m).String())
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// ---- the same with type metavariables and polymorphic symbols ----

func polypool() (terms, types []*T) {
	A, Bt := V(6), V(7)
	i, li := F("i"), F("lst", V(6))
	h := func(t *T) *T { return F("h1", t) }
	p := func(t, x *T) *T { return F("p1", t, x) }
	terms = []*T{V(0), V(1), F("a"), h(A), h(i), h(Bt), p(A, V(0)), p(i, V(1)), p(Bt, h(Bt)), F("f", h(A))}
	types = []*T{A, Bt, i, F("j"), li, F("lst", i)}
	return
}

func polysubs() []OS {
	terms, types := polypool()
	var r []OS
	opt := func(k int, l []*T) []OS {
		o := []OS{{}}
		for _, t := range l {
			if t.IsVar() && t.V == k {
				continue
			}
			o = append(o, OS{{k, t}})
		}
		return o
	}
	for _, a := range opt(0, terms) {
		for _, b := range opt(1, terms) {
			for _, c := range opt(6, types) {
				for _, d := range opt(7, types) {
					all := append(append(append(append(OS{}, a...), b...), c...), d...)
					if len(all) > 3 || !all.resolved() {
						continue
					}
					rev := OS{}
					for i := len(all) - 1; i >= 0; i-- {
						rev = append(rev, all[i])
					}
					r = append(r, all)
					if len(all) > 1 {
						r = append(r, rev)
					}
				}
			}
		}
	}
	return r
}

func polymerge(u *U) {
	ss := polysubs()
	for _, s1 := range ss {
		if !u.Mine() {
			continue
		}
		for _, s2 := range ss {
			polyOne(u, s1, s2)
		}
	}
}

func polyOne(u *U, s1, s2 OS) {
	u.Evals++
	key := fmt.Sprintf("merge %v with %v", s1, s2)
	th := Sub{}
	want := true
	for _, b := range append(append(OS{}, s1...), s2...) {
		if !th.Unify(V(b.K), b.V) {
			want = false
			break
		}
	}
	if want && len(s1) > 0 && len(s2) > 0 {
		u.NonTriv++
	}
	u.Guard(key, func() {
		res, ok := Unif.MergeMixedSubstitutions(s1.mixed(), s2.mixed())
		if ok != want {
			u.Violate(key+": success", fmt.Sprintf("merging %v with %v: success=%v, unifiable=%v", s1, s2, ok, want), nil)
			return
		}
		if !ok {
			return
		}
		s, ok1 := mixedBack(res)
		if !ok1 || !s.resolved() || !equivalent(th, s) {
			u.Violate(key+": wrong", fmt.Sprintf("merging %v with %v gives %v, which is not their most general common instance", s1, s2, s), nil)
		}
	})
}

func polyindex(u *U) {
	terms, types := polypool()
	var atoms []*T
	for _, ty := range types {
		for _, t := range terms {
			atoms = append(atoms, F("PP", ty, t))
		}
	}
	for _, s1 := range atoms {
		for _, s2 := range atoms {
			if !u.Mine() {
				continue
			}
			set := []*T{s1, s2}
			d := build(set, 1)
			for _, q := range atoms {
				query(u, "PP", d, set, q, 1)
			}
		}
	}
}
