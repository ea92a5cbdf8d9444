package main

import (
	"fmt"
	"os"
	"time"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Typing"
	"github.com/GoelandProver/Goeland/Unif"
	. "github.com/GoelandProver/Goeland/zzref"
)

var metas [6]AST.Meta
var metaOf = map[int]int{}
var ids = map[string]AST.Id{}

func setup() {
	Glob.SetStart(time.Now())
	Glob.InitLogs()
	AST.InitDebugger()
	Unif.InitDebugger()
	Core.InitDebugger()
	Typing.InitDebugger()
	AST.Init()
	Typing.Init()
	for i := range metas {
		metas[i] = AST.MakerMeta(VarName(i), i, AST.TIndividual())
		metaOf[metas[i].GetIndex()] = i
	}
	for _, s := range []string{"a", "b", "f", "g", "h", "P", "R", "Q"} {
		ids[s] = AST.MakerId(s)
	}
}

// poly: the symbols whose first argument is a type (h, p of result $i; PP a
// predicate). Variables 6 and 7 are type metavariables.
var poly = map[string]int{"h1": 0, "p1": 1, "PP": 1}
var tymetas [2]AST.TyMeta

func setupPoly() {
	v := AST.MkTyBV("A", 0)
	_ = v
	for n, k := range poly {
		out := AST.TIndividual()
		if n == "PP" {
			out = AST.TProp()
		}
		ty := out
		if k == 1 {
			ty = AST.MkTyFunc(AST.TIndividual(), out)
		}
		Typing.AddToGlobalEnv(n, AST.MkTyPi(Lib.MkListV("A"), ty))
		ids[n] = AST.MakerId(n)
	}
	for i := range tymetas {
		tymetas[i] = AST.MkTyMeta(VarName(6+i), 6+i).(AST.TyMeta)
		metaOf[tymetas[i].ToTermMeta().GetIndex()] = 6 + i
	}
}

func typ(t *T) AST.Ty {
	if t.IsVar() {
		return tymetas[t.V-6]
	}
	l := Lib.NewList[AST.Ty]()
	for _, a := range t.A {
		l.Append(typ(a))
	}
	return AST.MkTyConstr(t.F, l)
}

func tyBack(t AST.Ty) *T {
	switch u := t.(type) {
	case AST.TyMeta:
		return back(u.ToTermMeta())
	case AST.TyConstr:
		r := F(u.Symbol())
		for _, a := range u.Args().GetSlice() {
			r.A = append(r.A, tyBack(a))
		}
		return r
	}
	return F("?type" + t.ToString())
}

func split(t *T) (Lib.List[AST.Ty], []*T) {
	tys := Lib.NewList[AST.Ty]()
	if _, ok := poly[t.F]; ok {
		tys.Append(typ(t.A[0]))
		return tys, t.A[1:]
	}
	return tys, t.A
}

func term(t *T) AST.Term {
	if t.IsVar() {
		return metas[t.V]
	}
	l := Lib.NewList[AST.Term]()
	tys, args := split(t)
	for _, a := range args {
		l.Append(term(a))
	}
	return AST.MakerFun(ids[t.F], tys, l)
}

func back(t AST.Term) *T {
	switch u := t.(type) {
	case AST.Meta:
		if i, ok := metaOf[u.GetIndex()]; ok {
			return V(i)
		}
		return F("?meta" + u.ToString())
	case AST.Fun:
		r := F(u.GetID().GetName())
		for _, a := range u.GetTyArgs().GetSlice() {
			r.A = append(r.A, tyBack(a))
		}
		for _, a := range u.GetArgs().GetSlice() {
			r.A = append(r.A, back(a))
		}
		return r
	}
	return F("?" + t.ToString())
}

func pred(t *T) AST.Form {
	l := Lib.NewList[AST.Term]()
	tys, args := split(t)
	for _, a := range args {
		l.Append(term(a))
	}
	return AST.MakerPred(ids[t.F], tys, l)
}

func backForm(f AST.Form) *T {
	switch u := f.(type) {
	case AST.Pred:
		r := F(u.GetID().GetName())
		for _, a := range u.GetTyArgs().GetSlice() {
			r.A = append(r.A, tyBack(a))
		}
		for _, a := range u.GetArgs().GetSlice() {
			r.A = append(r.A, back(a))
		}
		return r
	case Unif.TermForm:
		return back(u.GetTerm())
	}
	return F("?form" + f.ToString())
}

// checkMatch compares the answer of the index with reference unification.
func checkMatch(u *U, tag string, set []*T, q *T, found bool, res []Unif.MixedSubstitutions) {
	u.Evals++
	want := map[string]Sub{}
	for _, s := range set {
		th := Sub{}
		if th.Unify(s, q) {
			want[s.String()] = th
		}
	}
	if len(want) > 0 {
		u.NonTriv++
	}
	key := func(x string) string { return fmt.Sprintf("%s set=%v query=%v: %s", tag, set, q, x) }
	got := map[string]bool{}
	if found != (len(want) > 0) {
		u.Violate(key("found"), fmt.Sprintf("the index %v answers found=%v to %v; %d members unify", set, found, q, len(want)), nil)
		return
	}
	if !found {
		return
	}
	for _, m := range res {
		f := backForm(m.GetForm())
		th, ok := want[f.String()]
		if !ok {
			u.Violate(key("extra "+f.String()), fmt.Sprintf("the index %v answers %v to %v, which does not unify", set, f, q), nil)
			return
		}
		got[f.String()] = true
		sg := Sub{}
		os, ok := mixedBack(m.GetSubsts())
		if !ok {
			u.Violate(key("key"), "unknown variable in the substitution "+m.ToString(), nil)
			return
		}
		for _, b := range os {
			bk := V(b.K)
			if _, dup := sg[bk.V]; dup {
				u.Violate(key("dupkey"), "two values for one variable: "+m.ToString(), nil)
				return
			}
			bv := b.V
			if sg.Occurs(bk.V, bv) {
				u.Violate(key("cyclic"), "cyclic substitution "+m.ToString(), nil)
				return
			}
			sg[bk.V] = bv
			if !Eq(th.App(bk), th.App(bv)) {
				u.Violate(key("not most general "+f.String()), fmt.Sprintf("index %v, query %v, match %v: substitution %v is not a most general unifier", set, q, f, m.ToString()), nil)
				return
			}
		}
		if !Eq(sg.App(f), sg.App(q)) {
			u.Violate(key("not a unifier "+f.String()), fmt.Sprintf("index %v, query %v, match %v: substitution %v does not unify them", set, q, f, m.ToString()), nil)
			return
		}
	}
	for k := range want {
		if !got[k] {
			u.Violate(key("missing "+k), fmt.Sprintf("index %v, query %v: the unifiable member %v is not returned", set, q, k), nil)
			return
		}
	}
}

func main() {
	setup()
	setupPoly()
	u := Start()
	switch u.Unit {
	case "index":
		index(u)
	case "forms":
		forms(u)
	case "sets":
		sets(u)
	case "lists":
		lists(u)
	case "par":
		par(u)
	case "schedindex":
		schedindex(u)
	case "polymerge":
		polymerge(u)
	case "polyindex":
		polyindex(u)
	case "addunif":
		addunif(u)
	case "merge":
		merge(u)
	case "eliminate":
		eliminate(u)
	case "restrict":
		restrict(u)
	case "apply":
		apply(u)
	default:
		fmt.Println("unknown unit", u.Unit)
		os.Exit(2)
	}
	u.Done()
}
