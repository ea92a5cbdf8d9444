package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Lib"
	. "github.com/GoelandProver/Goeland/zzref"
)

// Fm is a reference formula: K is P (atom), T, B, not, and, or, imp, equ, all, ex.
// In its atoms, T.V >= 20 is a bound variable.
type Fm struct {
	K  string
	A  *T
	S  []*Fm
	Vs []int
}

func vname(i int) string {
	if i < 20 {
		return VarName(i)
	}
	return fmt.Sprintf("v%d", i-20)
}

func (t *Fm) String() string {
	switch t.K {
	case "P":
		return tstr(t.A)
	case "T", "B":
		return "$" + t.K
	case "not":
		return "~" + t.S[0].String()
	case "all", "ex":
		var v []string
		for _, x := range t.Vs {
			v = append(v, vname(x))
		}
		return map[string]string{"all": "!", "ex": "?"}[t.K] + "[" + strings.Join(v, ",") + "]" + t.S[0].String()
	}
	var s []string
	for _, x := range t.S {
		s = append(s, x.String())
	}
	return "(" + strings.Join(s, map[string]string{"and": " & ", "or": " | ", "imp": " => ", "equ": " <=> "}[t.K]) + ")"
}

func tstr(t *T) string {
	if t.IsVar() {
		return vname(t.V)
	}
	var s []string
	for _, a := range t.A {
		s = append(s, tstr(a))
	}
	if len(s) == 0 {
		return t.F
	}
	return t.F + "(" + strings.Join(s, ",") + ")"
}

var bvs = map[int]AST.Var{}
var bvOf = map[int]int{}

func bv(i int) AST.Var {
	v, ok := bvs[i]
	if !ok {
		v = AST.MakerVar(fmt.Sprintf("v%d", i-20))
		bvs[i] = v
		bvOf[v.GetIndex()] = i
	}
	return v
}

func bvBack(index int) int {
	if i, ok := bvOf[index]; ok {
		return i
	}
	i := 100 + len(bvOf)
	bvOf[index] = i
	return i
}

func fterm(t *T) AST.Term {
	if t.IsVar() {
		if t.V >= 20 {
			return bv(t.V)
		}
		return metas[t.V]
	}
	l := Lib.NewList[AST.Term]()
	for _, a := range t.A {
		l.Append(fterm(a))
	}
	return AST.MakerFun(ids[t.F], Lib.NewList[AST.Ty](), l)
}

func fterms(ts []*T) Lib.List[AST.Term] {
	l := Lib.NewList[AST.Term]()
	for _, a := range ts {
		l.Append(fterm(a))
	}
	return l
}

func form(f *Fm) AST.Form {
	l := Lib.NewList[AST.Form]()
	for _, s := range f.S {
		l.Append(form(s))
	}
	vs := Lib.NewList[AST.TypedVar]()
	for _, v := range f.Vs {
		b := bv(v)
		vs.Append(AST.MkTypedVar(b.GetName(), b.GetIndex(), AST.TIndividual()))
	}
	switch f.K {
	case "P":
		return AST.MakerPred(ids[f.A.F], Lib.NewList[AST.Ty](), fterms(f.A.A))
	case "T":
		return AST.MakerTop()
	case "B":
		return AST.MakerBot()
	case "not":
		return AST.MakerNot(l.At(0))
	case "and":
		return AST.MakerAnd(l)
	case "or":
		return AST.MakerOr(l)
	case "imp":
		return AST.MakerImp(l.At(0), l.At(1))
	case "equ":
		return AST.MakerEqu(l.At(0), l.At(1))
	case "all":
		return AST.MakerAll(vs, l.At(0))
	case "ex":
		return AST.MakerEx(vs, l.At(0))
	}
	panic(f.K)
}

func fback(t AST.Term) *T {
	switch u := t.(type) {
	case AST.Var:
		return V(bvBack(u.GetIndex()))
	case AST.Fun:
		r := F(u.GetID().GetName())
		for _, a := range u.GetArgs().GetSlice() {
			r.A = append(r.A, fback(a))
		}
		return r
	}
	return back(t)
}

func vsBack(l Lib.List[AST.TypedVar]) (r []int) {
	for _, v := range l.GetSlice() {
		r = append(r, bvBack(v.GetIndex()))
	}
	return
}

func formBack(f AST.Form) *Fm {
	ls := func(l Lib.List[AST.Form]) (r []*Fm) {
		for _, g := range l.GetSlice() {
			r = append(r, formBack(g))
		}
		return
	}
	switch u := f.(type) {
	case AST.Pred:
		r := F(u.GetID().GetName())
		for _, a := range u.GetArgs().GetSlice() {
			r.A = append(r.A, fback(a))
		}
		return &Fm{K: "P", A: r}
	case AST.Top:
		return &Fm{K: "T"}
	case AST.Bot:
		return &Fm{K: "B"}
	case AST.Not:
		return &Fm{K: "not", S: []*Fm{formBack(u.GetForm())}}
	case AST.And:
		return &Fm{K: "and", S: ls(u.GetChildFormulas())}
	case AST.Or:
		return &Fm{K: "or", S: ls(u.GetChildFormulas())}
	case AST.Imp:
		return &Fm{K: "imp", S: []*Fm{formBack(u.GetF1()), formBack(u.GetF2())}}
	case AST.Equ:
		return &Fm{K: "equ", S: []*Fm{formBack(u.GetF1()), formBack(u.GetF2())}}
	case AST.All:
		return &Fm{K: "all", Vs: vsBack(u.GetVarList()), S: []*Fm{formBack(u.GetForm())}}
	case AST.Ex:
		return &Fm{K: "ex", Vs: vsBack(u.GetVarList()), S: []*Fm{formBack(u.GetForm())}}
	}
	return &Fm{K: fmt.Sprintf("?%T", f)}
}

// sub replaces the free occurrences of a variable (meta or bound).
func (t *Fm) sub(v int, by *T) *Fm {
	r := &Fm{K: t.K, A: t.A, Vs: t.Vs}
	if t.A != nil {
		r.A = subT(t.A, v, by)
	}
	for _, w := range t.Vs {
		if w == v {
			return t
		}
	}
	for _, s := range t.S {
		r.S = append(r.S, s.sub(v, by))
	}
	return r
}

func subT(t *T, v int, by *T) *T {
	if t.IsVar() {
		if t.V == v {
			return by
		}
		return t
	}
	r := F(t.F)
	for _, a := range t.A {
		r.A = append(r.A, subT(a, v, by))
	}
	return r
}

// free lists metavariables and free variables; bind, the variables bound.
func (t *Fm) free(m map[int]bool) {
	if t.A != nil {
		t.A.Vars(m)
	}
	n := map[int]bool{}
	for _, s := range t.S {
		s.free(n)
	}
	for _, v := range t.Vs {
		delete(n, v)
	}
	for v := range n {
		m[v] = true
	}
}

func (t *Fm) binds() (r []int) {
	r = append(r, t.Vs...)
	for _, s := range t.S {
		r = append(r, s.binds()...)
	}
	return
}

func (t *Fm) metas() string {
	m := map[int]bool{}
	t.free(m)
	var r []string
	for v := range m {
		if v < 20 {
			r = append(r, VarName(v))
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// alpha prints the formula with its bound variables numbered.
func (t *Fm) alpha(env []int) string {
	ts := func(x *T) string { return "" }
	ts = func(x *T) string {
		if x.IsVar() {
			for i := len(env) - 1; i >= 0; i-- {
				if env[i] == x.V {
					return fmt.Sprintf("#%d", i)
				}
			}
			return vname(x.V)
		}
		s := x.F
		for _, a := range x.A {
			s += "," + ts(a)
		}
		return s + "."
	}
	if t.A != nil {
		return ts(t.A)
	}
	s := "(" + t.K + fmt.Sprint(len(t.Vs))
	e := append(append([]int{}, env...), t.Vs...)
	for _, g := range t.S {
		s += " " + g.alpha(e)
	}
	return s + ")"
}

func (t *Fm) subforms() (r []string) {
	r = append(r, t.String())
	for _, s := range t.S {
		r = append(r, s.subforms()...)
	}
	return
}

func (t *Fm) subterms(m map[string]bool) {
	if t.A != nil {
		var rec func(x *T)
		rec = func(x *T) {
			m[tstr(x)] = true
			for _, a := range x.A {
				rec(a)
			}
		}
		for _, a := range t.A.A {
			rec(a)
		}
	}
	for _, s := range t.S {
		s.subterms(m)
	}
}

func keys(m map[string]bool) string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return strings.Join(r, " ; ")
}

// ---- enumeration ----

func formPool(deep bool) []*Fm {
	X, Y, a, u, w := V(0), V(1), F("a"), V(20), V(21)
	f := func(t *T) *T { return F("f", t) }
	at := func(n string, ts ...*T) *Fm { return &Fm{K: "P", A: F(n, ts...)} }
	atoms := []*Fm{at("P", X), at("P", u), at("R", X, f(Y)), at("R", u, f(X)), at("R", f(u), w), at("Q"), at("P", F("g", f(u), F("g", Y, a)))}
	if deep {
		atoms = append(atoms, at("R", Y, Y), at("P", f(f(w))), at("R", a, u), &Fm{K: "T"})
	}
	bin := func(l, r []*Fm) (o []*Fm) {
		for i, x := range l {
			for j, y := range r {
				for k, c := range []string{"and", "or", "imp", "equ"} {
					if len(l) > 12 && (i+j+k)%2 == 1 {
						continue
					}
					o = append(o, &Fm{K: c, S: []*Fm{x, y}})
				}
			}
		}
		return
	}
	qs := func(l []*Fm) (o []*Fm) {
		for _, x := range l {
			for _, c := range []string{"all", "ex"} {
				for _, v := range [][]int{{20}, {21}, {20, 21}, {21, 20}} {
					o = append(o, &Fm{K: c, Vs: v, S: []*Fm{x}})
				}
			}
		}
		return
	}
	neg := func(l []*Fm) (o []*Fm) {
		for _, x := range l {
			o = append(o, &Fm{K: "not", S: []*Fm{x}})
		}
		return
	}
	b1 := bin(atoms, atoms)
	q1 := qs(atoms)
	r := append([]*Fm{}, atoms...)
	r = append(r, neg(atoms)...)
	r = append(r, b1...)
	r = append(r, q1...)
	r = append(r, qs(b1)...)
	r = append(r, neg(q1)...)
	r = append(r, bin(q1, atoms)...)
	r = append(r, bin(atoms, q1)...)
	r = append(r, qs(neg(q1))...)
	r = append(r, bin(q1, q1)...)
	for _, x := range atoms {
		for _, y := range atoms {
			for _, z := range atoms {
				for _, c := range []string{"and", "or"} {
					g := &Fm{K: c, S: []*Fm{x, y, z}}
					r = append(r, g, &Fm{K: "all", Vs: []int{20}, S: []*Fm{g}})
				}
			}
		}
	}
	r = append(r, neg(neg(b1))...)
	r = append(r, &Fm{K: "T"}, &Fm{K: "B"}, &Fm{K: "not", S: []*Fm{{K: "T"}}})
	return r
}

// ---- operations ----

type fop struct {
	name string
	// run performs the operation; ref gives the expected formula, nil when the
	// operation does not apply; alpha: up to bound variables
	run   func(AST.Form) AST.Form
	ref   func(*Fm) *Fm
	alpha bool
}

func bound(f *Fm, v int) bool {
	for _, w := range f.binds() {
		if w == v {
			return true
		}
	}
	return false
}

func ops() []fop {
	X, Y, a := V(0), V(1), F("a")
	f := func(t *T) *T { return F("f", t) }
	meta := func(v int, by *T) fop {
		return fop{fmt.Sprintf("%s:=%s", vname(v), tstr(by)),
			func(g AST.Form) AST.Form { return g.ReplaceMetaByTerm(metas[v], fterm(by)) },
			func(g *Fm) *Fm { return g.sub(v, by) }, false}
	}
	inst := func(v int, m int) fop {
		return fop{fmt.Sprintf("%s->%s", vname(v), vname(m)),
			func(g AST.Form) AST.Form { return g.SubstituteVarByMeta(bv(v), metas[m]) },
			func(g *Fm) *Fm {
				if bound(g, v) {
					return nil
				}
				return g.sub(v, V(m))
			}, false}
	}
	repl := func(v int, by *T) fop {
		return fop{fmt.Sprintf("%s/%s", tstr(by), vname(v)),
			func(g AST.Form) AST.Form { h, _ := g.ReplaceTermByTerm(bv(v), fterm(by)); return h },
			func(g *Fm) *Fm {
				if bound(g, v) {
					return nil
				}
				return g.sub(v, by)
			}, false}
	}
	return []fop{
		{"copy", func(g AST.Form) AST.Form { return g.Copy() }, func(g *Fm) *Fm { return g }, false},
		{"metas", func(g AST.Form) AST.Form { g.GetMetas(); return g }, func(g *Fm) *Fm { return g }, false},
		{"rename", func(g AST.Form) AST.Form { return g.RenameVariables() }, func(g *Fm) *Fm { return g }, true},
		{"simplify", AST.SimplifyNegations, func(g *Fm) *Fm {
			n := 0
			for g.K == "not" {
				g = g.S[0]
				n++
			}
			if n%2 == 1 {
				return &Fm{K: "not", S: []*Fm{g}}
			}
			return g
		}, false},
		meta(0, a), meta(0, f(Y)), meta(1, X), meta(1, F("g", a, a)), meta(2, a),
		inst(20, 0), inst(20, 2), inst(21, 1), repl(20, f(X)), repl(21, a), repl(20, F("g", X, V(2))),
	}
}

func forms(u *U) {
	all := formPool(u.Thorough())
	os := ops()
	depth := 2
	var rec func(orig string, f AST.Form, r *Fm, d int) bool
	state := func(key string, g AST.Form, want *Fm, al bool) (*Fm, bool) {
		u.States++
		got := formBack(g)
		bad := func(m string) bool {
			u.Violate("formula "+key, fmt.Sprintf("%s: %s", key, m), nil)
			return false
		}
		if al {
			if got.alpha(nil) != want.alpha(nil) {
				return nil, bad(fmt.Sprintf("gives %v, expected %v up to bound variables", got, want))
			}
			seen := map[int]bool{}
			for _, v := range got.binds() {
				if seen[v] || v < 100 {
					return nil, bad(fmt.Sprintf("gives %v: the bound variables are not fresh and distinct", got))
				}
				seen[v] = true
			}
			fr := map[int]bool{}
			got.free(fr)
			for v := range seen {
				if fr[v] {
					return nil, bad(fmt.Sprintf("gives %v: a bound variable also occurs free", got))
				}
			}
			want = got
		} else if got.String() != want.String() {
			return nil, bad(fmt.Sprintf("gives %v, expected %v", got, want))
		}
		if h := metaSet(g.GetMetas()); h != want.metas() {
			return nil, bad(fmt.Sprintf("the formula %v has the metavariables [%s], GetMetas says [%s]", want, want.metas(), h))
		}
		return want, true
	}
	rec = func(orig string, f AST.Form, r *Fm, d int) bool {
		before := f.ToString()
		for _, op := range os {
			ref := op.ref(r)
			if ref == nil {
				continue
			}
			u.Trans++
			if r.String() != ref.String() || op.alpha && len(r.binds()) > 0 {
				u.NonTriv++
			}
			key := orig + " " + op.name
			ok := false
			u.Guard("formula "+key, func() {
				g := op.run(f)
				w, good := state(key, g, ref, op.alpha)
				if !good {
					return
				}
				if f.ToString() != before {
					u.Violate("formula "+key+" argument", fmt.Sprintf("%s: the operation changes its argument", key), nil)
					return
				}
				ok = d <= 1 || rec(key, g, w, d-1)
			})
			if !ok {
				return false
			}
		}
		return true
	}
	for i, r := range all {
		if !u.Mine() {
			continue
		}
		u.Evals++
		key := r.String()
		u.Guard("formula "+key, func() {
			f := form(r)
			bad := func(m string) { u.Violate("formula "+key+": "+m, key+": "+m, nil) }
			if got := formBack(f); got.String() != key {
				bad(fmt.Sprintf("built as %v", got))
				return
			}
			if h := metaSet(f.GetMetas()); h != r.metas() {
				bad(fmt.Sprintf("GetMetas says [%s] instead of [%s]", h, r.metas()))
				return
			}
			// equality: against the copies, and the formulas next to it
			if !f.Equals(f.Copy()) || !f.Equals(form(r)) {
				bad("it is not equal to its copy")
			}
			for j := i - 40; j < i+40; j++ {
				if j >= 0 && j < len(all) && f.Equals(form(all[j])) != (key == all[j].String()) {
					bad(fmt.Sprintf("equality with %v is %v", all[j], key != all[j].String()))
				}
			}
			var sf []string
			for _, g := range f.GetSubFormulasRecur().GetSlice() {
				sf = append(sf, formBack(g).String())
			}
			want := r.subforms()
			sort.Strings(sf)
			sort.Strings(want)
			if strings.Join(sf, " ; ") != strings.Join(want, " ; ") {
				bad(fmt.Sprintf("subformulas %v instead of %v", sf, want))
			}
			var cf, wc []string
			for _, g := range f.GetChildFormulas().GetSlice() {
				cf = append(cf, formBack(g).String())
			}
			for _, g := range r.S {
				wc = append(wc, g.String())
			}
			if strings.Join(cf, " ; ") != strings.Join(wc, " ; ") {
				bad(fmt.Sprintf("immediate subformulas %v instead of %v", cf, wc))
			}
			st, ws := map[string]bool{}, map[string]bool{}
			for _, t := range f.GetSubTerms().GetSlice() {
				st[tstr(fback(t))] = true
			}
			r.subterms(ws)
			if keys(st) != keys(ws) {
				bad(fmt.Sprintf("subterms %s instead of %s", keys(st), keys(ws)))
			}
			lf := Core.ApplySubstitutionsOnFormulaList(OS{{0, F("a")}, {1, F("f", F("b"))}}.mixed(), Lib.MkListV(f))
			w := r.sub(0, F("a")).sub(1, F("f", F("b")))
			if lf.Len() != 1 || formBack(lf.At(0)).String() != w.String() {
				bad(fmt.Sprintf("applying {X->a Y->f(b)} gives %s instead of %v", Lib.ListToString(lf), w))
			}
			d := depth
			if u.Thorough() && i%4 == 0 {
				d = 3
			}
			rec(key, f, r, d)
		})
	}
}
