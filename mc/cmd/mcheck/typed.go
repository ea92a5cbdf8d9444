package main

import (
	"fmt"
	"strings"
)

// Oracles for typed problems: many-sorted finite models (types interpreted in
// a finite universe of sorts), and Herbrand refutations of the problem after
// its type variables have been instantiated.

type tproblem struct {
	sig  *tsig
	ax   []*tf
	conj *tf
	fam  string
}

func newTsig() *tsig { return &tsig{types: map[string]int{}, syms: map[string]tscheme{}} }

func (s *tsig) addType(n string, ar int) { s.types[n] = ar }

func (s *tsig) addSym(n string, tv []string, arg []*tx, out *tx) {
	s.syms[n] = tscheme{tv, arg, out}
}

func (s *tsig) typeDecl(n string) string {
	switch ar := s.types[n]; ar {
	case 0:
		return n + ": $tType"
	case 1:
		return n + ": $tType > $tType"
	default:
		return n + ": (" + strings.Repeat("$tType * ", ar-1) + "$tType) > $tType"
	}
}

func (s *tsig) symDecl(n string) string {
	sc := s.syms[n]
	t := sc.out.str()
	if len(sc.arg) == 1 {
		t = sc.arg[0].str() + " > " + t
	} else if len(sc.arg) > 1 {
		var b []string
		for _, x := range sc.arg {
			b = append(b, x.str())
		}
		t = "(" + strings.Join(b, " * ") + ") > " + t
	}
	if len(sc.tv) > 0 {
		var b []string
		for _, x := range sc.tv {
			b = append(b, x+": $tType")
		}
		t = "!> [" + strings.Join(b, ",") + "] : (" + t + ")"
	}
	return n + ": " + t
}

func (t *tx) symsOf(m map[string]bool) {
	m[t.s] = true
	for _, x := range t.a {
		x.symsOf(m)
	}
}

func (f *tf) symsOf(m map[string]bool) {
	if f.at != nil {
		f.at.symsOf(m)
	}
	for _, v := range f.v {
		if v.ty != nil {
			v.ty.symsOf(m)
		}
	}
	for _, g := range f.k {
		g.symsOf(m)
	}
}

func (p *tproblem) forms() []*tf {
	if p.conj == nil {
		return p.ax
	}
	return append(p.ax[:len(p.ax):len(p.ax)], p.conj)
}

func (p *tproblem) text() string {
	used := map[string]bool{}
	for _, f := range p.forms() {
		f.symsOf(used)
	}
	for _, s := range sortedKeys(p.sig.syms) {
		if used[s] {
			for _, x := range p.sig.syms[s].arg {
				x.symsOf(used)
			}
			p.sig.syms[s].out.symsOf(used)
		}
	}
	s := ""
	for _, n := range sortedKeys(p.sig.types) {
		if used[n] && n[0] != '$' {
			s += "tff(" + n + "_t,type," + p.sig.typeDecl(n) + ").\n"
		}
	}
	for _, n := range sortedKeys(p.sig.syms) {
		if used[n] {
			s += "tff(" + n + "_d,type," + p.sig.symDecl(n) + ").\n"
		}
	}
	for i, a := range p.ax {
		s += fmt.Sprintf("tff(ax%d,axiom,%s).\n", i, a.str())
	}
	if p.conj != nil {
		s += "tff(c,conjecture," + p.conj.str() + ").\n"
	}
	return s
}

// texp expands a typed formula into one without type variables.
type texp struct {
	sig   *tsig
	op    func(string, []string) string // interpretation of the type constructors
	univ  []string                      // the sorts
	exact bool                          // univ is the whole universe; otherwise a set of instances, and conjectured type variables are fresh types
	fresh int
	bad   bool
	sorts map[string][]string // symbol -> sorts of its arguments and result
}

type tenv struct {
	n string
	t string // the sort a type variable stands for, or the sort of a term variable
	v int    // index of a term variable, -1: a type variable
}

func envFind(env []tenv, n string) tenv {
	for i := len(env) - 1; i >= 0; i-- {
		if env[i].n == n {
			return env[i]
		}
	}
	panic("unbound " + n)
}

func (e *texp) ty(t *tx, env []tenv) string {
	if isVarName(t.s) {
		return envFind(env, t.s).t
	}
	var a []string
	for _, x := range t.a {
		a = append(a, e.ty(x, env))
	}
	return e.op(t.s, a)
}

func (e *texp) sym(t *tx, env []tenv) (name string, args []*tx, sorts []string) {
	sc, ok := e.sig.syms[t.s]
	if !ok {
		panic("undeclared " + t.s)
	}
	name = t.s
	ne := []tenv{}
	for i, v := range sc.tv {
		s := e.ty(t.a[i], env)
		name += "<" + s + ">"
		ne = append(ne, tenv{v, s, -1})
	}
	for _, x := range sc.arg {
		sorts = append(sorts, e.ty(x, ne))
	}
	if sc.out.s != "$o" {
		sorts = append(sorts, e.ty(sc.out, ne))
	}
	e.sorts[name] = sorts
	return name, t.a[len(sc.tv):], sorts
}

func (e *texp) term(t *tx, env []tenv) (Term, string) {
	if isVarName(t.s) {
		x := envFind(env, t.s)
		return Var(x.v), x.t
	}
	n, args, sorts := e.sym(t, env)
	r := Fun(n)
	for _, x := range args {
		y, _ := e.term(x, env)
		r.Args = append(r.Args, y)
	}
	return r, sorts[len(sorts)-1]
}

// form: side is 1 for what is to be proved, -1 for what is assumed, 0 for
// both; deep: under a quantifier on which a fresh type would depend.
func (e *texp) form(f *tf, env []tenv, depth, side int, deep bool) *Form {
	switch f.op {
	case "":
		if f.at.s == "=" || f.at.s == "!=" {
			a, _ := e.term(f.at.a[0], env)
			b, _ := e.term(f.at.a[1], env)
			if f.at.s == "!=" {
				return Not(Eq(a, b))
			}
			return Eq(a, b)
		}
		n, args, _ := e.sym(f.at, env)
		r := Atom(n)
		for _, x := range args {
			y, _ := e.term(x, env)
			r.T = append(r.T, y)
		}
		return r
	case "~":
		return Not(e.form(f.k[0], env, depth, -side, deep))
	case "&":
		return And(e.form(f.k[0], env, depth, side, deep), e.form(f.k[1], env, depth, side, deep))
	case "|":
		return Or(e.form(f.k[0], env, depth, side, deep), e.form(f.k[1], env, depth, side, deep))
	case "=>":
		return Imp(e.form(f.k[0], env, depth, -side, deep), e.form(f.k[1], env, depth, side, deep))
	case "<=>":
		return Bin(OEquiv, e.form(f.k[0], env, depth, 0, deep), e.form(f.k[1], env, depth, 0, deep))
	}
	if len(f.v) == 0 {
		return e.form(f.k[0], env, depth, side, deep)
	}
	v := f.v[0]
	rest := &tf{op: f.op, k: f.k, v: f.v[1:]}
	if v.ty != nil {
		s := e.ty(v.ty, env)
		b := e.form(rest, append(env[:len(env):len(env)], tenv{v.n, s, depth}), depth+1, side, deep || (f.op == "!") != (side > 0) || side == 0)
		q := All(depth, b)
		if f.op == "?" {
			q = Ex(depth, b)
		}
		q.S = s
		return q
	}
	if f.op != "!" {
		panic("existential type")
	}
	ts := e.univ
	if !e.exact && side >= 0 {
		if side == 0 || deep {
			e.bad = true
		}
		ts = []string{fmt.Sprintf("k%d", e.fresh)}
		e.fresh++
		if e.fresh > maxFresh {
			e.bad = true
		}
	}
	var r *Form
	for _, t := range ts {
		g := e.form(rest, append(env[:len(env):len(env)], tenv{v.n, t, -1}), depth, side, deep || side <= 0)
		if r == nil {
			r = g
		} else {
			r = And(r, g)
		}
	}
	return r
}

const maxFresh = 2

func (e *texp) problem(p *tproblem) *Form {
	var ax []*Form
	for _, a := range p.ax {
		ax = append(ax, e.form(a, nil, 0, -1, false))
	}
	if p.conj == nil {
		return Not(Conj(ax))
	}
	c := e.form(p.conj, nil, 0, 1, false)
	if len(ax) == 0 {
		return c
	}
	return Imp(Conj(ax), c)
}

func (f *Form) sorts(all map[string]bool) {
	if f == nil {
		return
	}
	if f.S != "" {
		all[f.S] = true
	}
	f.A.sorts(all)
	f.B.sorts(all)
}

// groundTypes: the types without variables occurring in the problem.
func (p *tproblem) groundTypes() (r []*tx) {
	seen := map[string]bool{}
	var isTy func(t *tx) bool
	isTy = func(t *tx) bool {
		n, ok := p.sig.types[t.s]
		if !ok || n != len(t.a) {
			return false
		}
		for _, x := range t.a {
			if !isTy(x) {
				return false
			}
		}
		return true
	}
	var walk func(t *tx)
	walk = func(t *tx) {
		if isTy(t) && t.s != "$o" && !seen[canonT(t)] {
			seen[canonT(t)] = true
			r = append(r, t)
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	var fw func(f *tf)
	fw = func(f *tf) {
		if f.at != nil {
			walk(f.at)
		}
		for _, v := range f.v {
			if v.ty != nil {
				walk(v.ty)
			}
		}
		for _, g := range f.k {
			fw(g)
		}
	}
	for _, f := range p.forms() {
		fw(f)
	}
	used := map[string]bool{}
	for _, f := range p.forms() {
		f.symsOf(used)
	}
	for _, s := range sortedKeys(p.sig.syms) {
		if used[s] {
			for _, x := range p.sig.syms[s].arg {
				walk(x)
			}
			walk(p.sig.syms[s].out)
		}
	}
	return
}

func freeOp(n string, a []string) string {
	if len(a) == 0 {
		return n
	}
	return n + "(" + strings.Join(a, ",") + ")"
}

// classifyTyped decides a typed problem.
func classifyTyped(p *tproblem) (class, string) {
	poly := false
	var hasTV func(f *tf)
	hasTV = func(f *tf) {
		for _, v := range f.v {
			poly = poly || v.ty == nil
		}
		for _, g := range f.k {
			hasTV(g)
		}
	}
	for _, f := range p.forms() {
		hasTV(f)
	}
	cons := map[string]bool{}
	for _, t := range p.groundTypes() {
		t.symsOf(cons)
	}
	for _, f := range p.forms() {
		m := map[string]bool{}
		f.symsOf(m)
		for _, s := range sortedKeys(p.sig.syms) {
			if m[s] {
				for _, x := range p.sig.syms[s].arg {
					x.symsOf(m)
				}
				p.sig.syms[s].out.symsOf(m)
			}
		}
		for n := range p.sig.types {
			if m[n] {
				cons[n] = true
			}
		}
	}
	delete(cons, "$o")
	lim := 2000
	try := func(e *texp, max int) (string, bool) {
		e.sig, e.exact, e.sorts = p.sig, true, map[string][]string{}
		f := e.problem(p)
		return sortedCountermodel(f, e.sorts, max, lim)
	}
	models := func() (string, bool) {
		if !poly {
			if d, ok := try(&texp{op: freeOp}, 3); ok {
				return d, true
			}
		} else {
			for n := 1; n <= 3; n++ {
				// every interpretation of the constructors in a universe of n sorts
				us := []string{"u0", "u1", "u2"}[:n]
				type cell struct {
					k string
					i int
				}
				var cells []string
				idx := map[string]int{}
				var args func(c string, ar int, pre []string)
				args = func(c string, ar int, pre []string) {
					if ar == 0 {
						k := freeOp(c, pre)
						idx[k] = len(cells)
						cells = append(cells, k)
						return
					}
					for _, u := range us {
						args(c, ar-1, append(pre[:len(pre):len(pre)], u))
					}
				}
				for _, c := range sortedKeys(cons) {
					args(c, p.sig.types[c], nil)
				}
				val := make([]int, len(cells))
				if pw(n, len(cells)) > 300 {
					continue
				}
				for {
					e := &texp{univ: us, op: func(c string, a []string) string { return us[val[idx[freeOp(c, a)]]] }}
					if d, ok := try(e, 2); ok {
						m := ""
						for i, c := range cells {
							m += c + "=" + us[val[i]] + " "
						}
						return m + d, true
					}
					i := 0
					for i < len(val) {
						val[i]++
						if val[i] < n {
							break
						}
						val[i] = 0
						i++
					}
					if i == len(val) {
						break
					}
				}
			}
		}
		return "", false
	}
	if d, ok := models(); ok {
		return invalid, d
	}
	e := &texp{sig: p.sig, op: freeOp, sorts: map[string][]string{}}
	if poly {
		g := p.groundTypes()
		for i := 0; i < maxFresh; i++ {
			g = append(g, tE(fmt.Sprintf("k%d", i)))
		}
		if cons["list"] {
			for _, t := range g[:len(g):len(g)] {
				g = append(g, tE("list", t))
			}
		}
		seen := map[string]bool{}
		for _, t := range g {
			if s := canonT(t); !seen[s] {
				seen[s] = true
				e.univ = append(e.univ, s)
			}
		}
	}
	f := e.problem(p)
	if !e.bad && SortedHerbrand(f, e.sorts, 2, 2000) {
		return valid, "Herbrand"
	}
	lim = 100000
	if d, ok := models(); ok {
		return invalid, d
	}
	return unknown, ""
}

// sortedCountermodel looks for a many-sorted interpretation falsifying f, each
// sort having at most max elements.
func sortedCountermodel(f *Form, sorts map[string][]string, max, lim int) (string, bool) {
	all := map[string]bool{}
	f.sorts(all)
	fs, ps := map[string]int{}, map[string]int{}
	f.collect(fs, ps)
	for n := range fs {
		for _, s := range sorts[n] {
			all[s] = true
		}
	}
	for n := range ps {
		for _, s := range sorts[n] {
			all[s] = true
		}
	}
	ss := sortedKeys(all)
	size := map[string]int{}
	vec := make([]int, len(ss))
	for {
		for i, s := range ss {
			size[s] = vec[i] + 1
		}
		if d, ok := sortedModel(f, sorts, size, fs, ps, lim); ok {
			return fmt.Sprint("sizes ", size, d), true
		}
		i := 0
		for i < len(vec) {
			vec[i]++
			if vec[i] < max {
				break
			}
			vec[i] = 0
			i++
		}
		if i == len(vec) {
			return "", false
		}
	}
}

func sortedModel(f *Form, sorts map[string][]string, size map[string]int, fs, ps map[string]int, lim int) (string, bool) {
	var tab, base []int
	off := map[string]int{}
	total := 1.0
	add := func(n string, args []string, vals int) {
		off[n] = len(tab)
		c := 1
		for _, s := range args {
			c *= size[s]
		}
		for i := 0; i < c; i++ {
			tab = append(tab, 0)
			base = append(base, vals)
			total *= float64(vals)
		}
	}
	for _, n := range sortedKeys(fs) {
		s := sorts[n]
		add("f:"+n, s[:len(s)-1], size[s[len(s)-1]])
	}
	for _, n := range sortedKeys(ps) {
		add("p:"+n, sorts[n], 2)
	}
	if total > float64(lim) {
		return "", false
	}
	var env [32]int
	var cterm func(t Term) func() int
	index := func(o int, args []Term, n string) func() int {
		var as []func() int
		var ds []int
		for i, a := range args {
			as = append(as, cterm(a))
			ds = append(ds, size[sorts[n][i]])
		}
		return func() int {
			k := 0
			for i, a := range as {
				k = k*ds[i] + a()
			}
			return tab[o+k]
		}
	}
	cterm = func(t Term) (r func() int) {
		if t.V >= 0 {
			v := t.V
			return func() int { return env[v] }
		}
		return index(off["f:"+t.Fn], t.Args, t.Fn)
	}
	var cf func(f *Form) func() bool
	cf = func(f *Form) func() bool {
		switch f.Op {
		case OAtom:
			x := index(off["p:"+f.P], f.T, f.P)
			return func() bool { return x() == 1 }
		case OEq:
			a, b := cterm(f.T[0]), cterm(f.T[1])
			return func() bool { return a() == b() }
		case OTop:
			return func() bool { return true }
		case OBot:
			return func() bool { return false }
		case ONot:
			a := cf(f.A)
			return func() bool { return !a() }
		case OAll, OEx:
			a, v, all, n := cf(f.A), f.V, f.Op == OAll, size[f.S]
			return func() bool {
				old := env[v]
				r := all
				for d := 0; d < n; d++ {
					env[v] = d
					if a() != all {
						r = !all
						break
					}
				}
				env[v] = old
				return r
			}
		}
		a, b := cf(f.A), cf(f.B)
		switch f.Op {
		case OAnd:
			return func() bool { return a() && b() }
		case OOr:
			return func() bool { return a() || b() }
		case OImp:
			return func() bool { return !a() || b() }
		case OEquiv:
			return func() bool { return a() == b() }
		}
		panic("sortedModel")
	}
	ev := cf(f)
	for {
		if !ev() {
			return fmt.Sprint(" tables ", off, tab), true
		}
		i := 0
		for i < len(tab) {
			tab[i]++
			if tab[i] < base[i] {
				break
			}
			tab[i] = 0
			i++
		}
		if i == len(tab) {
			return "", false
		}
	}
}
