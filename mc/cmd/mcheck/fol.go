package main

import (
	"fmt"
	"sort"
	"strings"
)

// Own first-order syntax, independent of the prover's.

type Term struct {
	V    int // bound variable, or -1
	Fn   string
	Args []Term
}

func Var(v int) Term               { return Term{V: v} }
func Fun(f string, a ...Term) Term { return Term{V: -1, Fn: f, Args: a} }
func (t Term) String() string      { return t.str(nil) }
func (t Term) str(names []string) string {
	if t.V >= 0 {
		if names != nil {
			return names[t.V]
		}
		return fmt.Sprintf("X%d", t.V)
	}
	if len(t.Args) == 0 {
		return t.Fn
	}
	var s []string
	for _, a := range t.Args {
		s = append(s, a.str(names))
	}
	return t.Fn + "(" + strings.Join(s, ",") + ")"
}

type Op int

const (
	OAtom Op = iota
	OEq
	OTop
	OBot
	ONot
	OAnd
	OOr
	OImp
	OEquiv
	ORev
	OXor
	ONor
	ONand
	OAll
	OEx
)

var opStr = map[Op]string{OAnd: "&", OOr: "|", OImp: "=>", OEquiv: "<=>", ORev: "<=", OXor: "<~>", ONor: "~|", ONand: "~&"}
var binOps = []Op{OAnd, OOr, OImp, OEquiv, ORev, OXor, ONor, ONand}

type Form struct {
	Op   Op
	P    string
	T    []Term
	A, B *Form
	V    int
	S    string // sort of the bound variable (typed problems)
}

func Atom(p string, t ...Term) *Form { return &Form{Op: OAtom, P: p, T: t} }
func Eq(a, b Term) *Form             { return &Form{Op: OEq, T: []Term{a, b}} }
func Not(a *Form) *Form              { return &Form{Op: ONot, A: a} }
func Bin(o Op, a, b *Form) *Form     { return &Form{Op: o, A: a, B: b} }
func And(a, b *Form) *Form           { return Bin(OAnd, a, b) }
func Or(a, b *Form) *Form            { return Bin(OOr, a, b) }
func Imp(a, b *Form) *Form           { return Bin(OImp, a, b) }
func All(v int, a *Form) *Form       { return &Form{Op: OAll, V: v, A: a} }
func Ex(v int, a *Form) *Form        { return &Form{Op: OEx, V: v, A: a} }
func Conj(fs []*Form) *Form {
	r := fs[0]
	for _, f := range fs[1:] {
		r = And(r, f)
	}
	return r
}

func (f *Form) String() string { return f.str(nil) }

// str prints TPTP, fully parenthesised at binary connectives.
func (f *Form) str(names []string) string {
	switch f.Op {
	case OAtom:
		if len(f.T) == 0 {
			return f.P
		}
		var s []string
		for _, a := range f.T {
			s = append(s, a.str(names))
		}
		return f.P + "(" + strings.Join(s, ",") + ")"
	case OEq:
		return "(" + f.T[0].str(names) + " = " + f.T[1].str(names) + ")"
	case OTop:
		return "$true"
	case OBot:
		return "$false"
	case ONot:
		return "~ " + f.A.str(names)
	case OAll, OEx:
		q := "!"
		if f.Op == OEx {
			q = "?"
		}
		n := fmt.Sprintf("X%d", f.V)
		if names != nil {
			n = names[f.V]
		}
		return "(" + q + " [" + n + "] : " + f.A.str(names) + ")"
	}
	return "(" + f.A.str(names) + " " + opStr[f.Op] + " " + f.B.str(names) + ")"
}

// ---------------------------------------------------------------- models

type sym struct {
	name  string
	ar    int
	pred  bool
	off   int
	cells int
}

type model struct {
	n    int
	syms map[string]*sym
	tab  []int
	env  [16]int
}

func pw(n, k int) int {
	r := 1
	for i := 0; i < k; i++ {
		r *= n
	}
	return r
}

func (t Term) collect(fs map[string]int) {
	if t.V >= 0 {
		return
	}
	fs[t.Fn] = len(t.Args)
	for _, a := range t.Args {
		a.collect(fs)
	}
}

func (f *Form) collect(fs, ps map[string]int) {
	if f == nil {
		return
	}
	if f.Op == OAtom {
		ps[f.P] = len(f.T)
	}
	for _, t := range f.T {
		t.collect(fs)
	}
	f.A.collect(fs, ps)
	f.B.collect(fs, ps)
}

func (m *model) term(t *Term) int {
	if t.V >= 0 {
		return m.env[t.V]
	}
	s := m.syms["f:"+t.Fn]
	k := 0
	for i := range t.Args {
		k = k*m.n + m.term(&t.Args[i])
	}
	return m.tab[s.off+k]
}

func (m *model) eval(f *Form) bool {
	switch f.Op {
	case OAtom:
		s := m.syms["p:"+f.P]
		k := 0
		for i := range f.T {
			k = k*m.n + m.term(&f.T[i])
		}
		return m.tab[s.off+k] == 1
	case OEq:
		return m.term(&f.T[0]) == m.term(&f.T[1])
	case OTop:
		return true
	case OBot:
		return false
	case ONot:
		return !m.eval(f.A)
	case OAnd:
		return m.eval(f.A) && m.eval(f.B)
	case OOr:
		return m.eval(f.A) || m.eval(f.B)
	case OImp:
		return !m.eval(f.A) || m.eval(f.B)
	case OEquiv:
		return m.eval(f.A) == m.eval(f.B)
	case ORev:
		return m.eval(f.A) || !m.eval(f.B)
	case OXor:
		return m.eval(f.A) != m.eval(f.B)
	case ONor:
		return !(m.eval(f.A) || m.eval(f.B))
	case ONand:
		return !(m.eval(f.A) && m.eval(f.B))
	case OAll, OEx:
		old := m.env[f.V]
		r := f.Op == OAll
		for d := 0; d < m.n; d++ {
			m.env[f.V] = d
			if m.eval(f.A) != (f.Op == OAll) {
				r = f.Op != OAll
				break
			}
		}
		m.env[f.V] = old
		return r
	}
	panic("eval")
}

// compiled evaluation: closures over the model tables, an order of magnitude
// faster than the map lookups above.
type cform func() bool
type cterm func() int

func (m *model) cterm(t Term) cterm {
	if t.V >= 0 {
		v := t.V
		return func() int { return m.env[v] }
	}
	off := m.syms["f:"+t.Fn].off
	switch len(t.Args) {
	case 0:
		return func() int { return m.tab[off] }
	case 1:
		a := m.cterm(t.Args[0])
		return func() int { return m.tab[off+a()] }
	}
	var as []cterm
	for _, a := range t.Args {
		as = append(as, m.cterm(a))
	}
	return func() int {
		k := 0
		for _, a := range as {
			k = k*m.n + a()
		}
		return m.tab[off+k]
	}
}

func (m *model) cform(f *Form) cform {
	switch f.Op {
	case OAtom:
		off := m.syms["p:"+f.P].off
		var as []cterm
		for _, a := range f.T {
			as = append(as, m.cterm(a))
		}
		switch len(as) {
		case 0:
			return func() bool { return m.tab[off] == 1 }
		case 1:
			a := as[0]
			return func() bool { return m.tab[off+a()] == 1 }
		}
		return func() bool {
			k := 0
			for _, a := range as {
				k = k*m.n + a()
			}
			return m.tab[off+k] == 1
		}
	case OEq:
		a, b := m.cterm(f.T[0]), m.cterm(f.T[1])
		return func() bool { return a() == b() }
	case OTop:
		return func() bool { return true }
	case OBot:
		return func() bool { return false }
	case ONot:
		a := m.cform(f.A)
		return func() bool { return !a() }
	case OAll, OEx:
		a := m.cform(f.A)
		v := f.V
		all := f.Op == OAll
		return func() bool {
			old := m.env[v]
			r := all
			for d := 0; d < m.n; d++ {
				m.env[v] = d
				if a() != all {
					r = !all
					break
				}
			}
			m.env[v] = old
			return r
		}
	}
	a, b := m.cform(f.A), m.cform(f.B)
	switch f.Op {
	case OAnd:
		return func() bool { return a() && b() }
	case OOr:
		return func() bool { return a() || b() }
	case OImp:
		return func() bool { return !a() || b() }
	case OEquiv:
		return func() bool { return a() == b() }
	case ORev:
		return func() bool { return a() || !b() }
	case OXor:
		return func() bool { return a() != b() }
	case ONor:
		return func() bool { return !(a() || b()) }
	case ONand:
		return func() bool { return !(a() && b()) }
	}
	panic("cform")
}

// Countermodel looks for an interpretation falsifying the closed formula f
// with domain size at most max, enumerating at most lim interpretations per
// size. full reports whether every size up to max was enumerated completely.
func Countermodel(f *Form, max int, lim int) (desc string, found, full bool) {
	fs, ps := map[string]int{}, map[string]int{}
	f.collect(fs, ps)
	full = true
	for n := 1; n <= max; n++ {
		m := &model{n: n, syms: map[string]*sym{}}
		var order []*sym
		total := 1.0
		add := func(k string, ar int, pred bool) {
			s := &sym{name: k, ar: ar, pred: pred, off: len(m.tab), cells: pw(n, ar)}
			m.syms[k] = s
			order = append(order, s)
			for i := 0; i < s.cells; i++ {
				m.tab = append(m.tab, 0)
				if pred {
					total *= 2
				} else {
					total *= float64(n)
				}
			}
		}
		for _, k := range sortedKeys(fs) {
			add("f:"+k, fs[k], false)
		}
		for _, k := range sortedKeys(ps) {
			add("p:"+k, ps[k], true)
		}
		if total > float64(lim) {
			full = false
			continue
		}
		base := make([]int, len(m.tab))
		firstConst := true
		for _, s := range order {
			for i := 0; i < s.cells; i++ {
				if s.pred {
					base[s.off+i] = 2
				} else {
					base[s.off+i] = n
					if s.ar == 0 && firstConst {
						base[s.off] = 1 // up to isomorphism
						firstConst = false
					}
				}
			}
		}
		ev := m.cform(f)
		for {
			if !ev() {
				return fmt.Sprintf("domain %d, tables %v in order %v", n, m.tab, names(order)), true, true
			}
			i := 0
			for i < len(m.tab) {
				m.tab[i]++
				if m.tab[i] < base[i] {
					break
				}
				m.tab[i] = 0
				i++
			}
			if i == len(m.tab) {
				break
			}
		}
	}
	return "", false, full
}

func names(o []*sym) (r []string) {
	for _, s := range o {
		r = append(r, s.name)
	}
	return
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------- Herbrand

// nnf with skolemisation of "not f": returns a quantifier-free matrix whose
// free variables are universal.
type skCtx struct {
	nsk, nvar int
	vs        map[int]string      // sorts of the variables
	fs        map[string][]string // sorts of the Skolem functions
}

func subT(t Term, env map[int]Term) Term {
	if t.V >= 0 {
		if r, ok := env[t.V]; ok {
			return r
		}
		return t
	}
	if len(t.Args) == 0 {
		return t
	}
	a := make([]Term, len(t.Args))
	for i := range t.Args {
		a[i] = subT(t.Args[i], env)
	}
	return Term{V: -1, Fn: t.Fn, Args: a}
}

func (c *skCtx) sk(f *Form, pos bool, env map[int]Term, univ []Term) *Form {
	with := func(v int, t Term) map[int]Term {
		e := map[int]Term{}
		for k, x := range env {
			e[k] = x
		}
		e[v] = t
		return e
	}
	switch f.Op {
	case OAtom, OEq:
		g := &Form{Op: f.Op, P: f.P}
		for _, t := range f.T {
			g.T = append(g.T, subT(t, env))
		}
		if !pos {
			return Not(g)
		}
		return g
	case OTop, OBot:
		if (f.Op == OTop) == pos {
			return &Form{Op: OTop}
		}
		return &Form{Op: OBot}
	case ONot:
		return c.sk(f.A, !pos, env, univ)
	case OAnd, OOr:
		o := f.Op
		if !pos {
			o = OAnd + OOr - o
		}
		return Bin(o, c.sk(f.A, pos, env, univ), c.sk(f.B, pos, env, univ))
	case OImp:
		return c.sk(Or(Not(f.A), f.B), pos, env, univ)
	case ORev:
		return c.sk(Or(f.A, Not(f.B)), pos, env, univ)
	case ONor:
		return c.sk(Or(f.A, f.B), !pos, env, univ)
	case ONand:
		return c.sk(And(f.A, f.B), !pos, env, univ)
	case OEquiv:
		return c.sk(And(Or(Not(f.A), f.B), Or(f.A, Not(f.B))), pos, env, univ)
	case OXor:
		return c.sk(And(Or(Not(f.A), f.B), Or(f.A, Not(f.B))), !pos, env, univ)
	case OAll, OEx:
		if (f.Op == OAll) == pos {
			v := Var(1000 + c.nvar)
			c.vs[v.V] = f.S
			c.nvar++
			return c.sk(f.A, pos, with(f.V, v), append(univ[:len(univ):len(univ)], v))
		}
		t := Fun(fmt.Sprintf("sK%d", c.nsk), univ...)
		c.nsk++
		var ss []string
		for _, u := range univ {
			ss = append(ss, c.vs[u.V])
		}
		c.fs[t.Fn] = append(ss, f.S)
		return c.sk(f.A, pos, with(f.V, t), univ)
	}
	panic("sk")
}

func distCNF(f *Form) [][]*Form {
	switch f.Op {
	case OTop:
		return nil
	case OBot:
		return [][]*Form{{}}
	case OAnd:
		return append(distCNF(f.A), distCNF(f.B)...)
	case OOr:
		a, b := distCNF(f.A), distCNF(f.B)
		var r [][]*Form
		for _, x := range a {
			for _, y := range b {
				r = append(r, append(append([]*Form{}, x...), y...))
			}
		}
		return r
	}
	return [][]*Form{{f}}
}

// HerbrandValid certifies that f is valid: some finite set
// of ground instances of the clauses of "not f" is unsatisfiable. It
// instantiates with terms up to the given depth; rounds are bounded by lim
// ground clauses.
func HerbrandValid(f *Form, depth, lim int) bool { return SortedHerbrand(f, nil, depth, lim) }

// SortedHerbrand: the same, with sorts giving the sorts of the arguments and
// of the result of every function symbol (nil: one sort).
func SortedHerbrand(f *Form, sorts map[string][]string, depth, lim int) bool {
	c := &skCtx{vs: map[int]string{}, fs: map[string][]string{}}
	m := c.sk(f, false, map[int]Term{}, nil)
	cls := distCNF(m)
	if len(cls) > 400 {
		return false
	}
	fs := map[string]int{}
	for _, cl := range cls {
		for _, l := range cl {
			l.collect(fs, map[string]int{})
		}
	}
	need := map[string]bool{}
	for _, s := range c.vs {
		need[s] = true
	}
	for k, ar := range fs {
		if _, ok := c.fs[k]; ok {
			continue
		}
		if sorts == nil {
			c.fs[k] = make([]string, ar+1)
		} else {
			c.fs[k] = sorts[k]
		}
	}
	for _, ss := range c.fs {
		for _, s := range ss {
			need[s] = true
		}
	}
	for k, ar := range fs {
		if ar == 0 {
			delete(need, c.fs[k][0])
		}
	}
	for s := range need { // every sort has an element
		fs["sKc"+s] = 0
		c.fs["sKc"+s] = []string{s}
	}
	if sorts == nil && len(fs) == 0 {
		fs["sKc"] = 0
		c.fs["sKc"] = []string{""}
	}
	terms := map[string][]Term{}
	for _, k := range sortedKeys(fs) {
		if fs[k] == 0 {
			terms[c.fs[k][0]] = append(terms[c.fs[k][0]], Fun(k))
		}
	}
	for d := 0; d <= depth; d++ {
		if d > 0 {
			seen := map[string]bool{}
			base := map[string][]Term{}
			for s, ts := range terms {
				base[s] = ts
				for _, t := range ts {
					seen[t.String()] = true
				}
			}
			for _, k := range sortedKeys(fs) {
				ar := fs[k]
				if ar == 0 {
					continue
				}
				ss := c.fs[k]
				n := 1
				for i := 0; i < ar; i++ {
					n *= len(base[ss[i]])
					if n > 4000 {
						return false
					}
				}
				if n == 0 {
					continue
				}
				idx := make([]int, ar)
				for {
					var as []Term
					for i, x := range idx {
						as = append(as, base[ss[i]][x])
					}
					t := Fun(k, as...)
					if !seen[t.String()] {
						seen[t.String()] = true
						terms[ss[ar]] = append(terms[ss[ar]], t)
					}
					i := 0
					for i < ar {
						idx[i]++
						if idx[i] < len(base[ss[i]]) {
							break
						}
						idx[i] = 0
						i++
					}
					if i == ar {
						break
					}
				}
			}
		}
		var s sat
		s.atoms = map[string]int{}
		ok := true
		for _, cl := range cls {
			vs := map[int]bool{}
			for _, l := range cl {
				litVars(l, vs)
			}
			var vl []int
			n := 1
			for v := range vs {
				vl = append(vl, v)
				if n *= len(terms[c.vs[v]]); n > lim {
					break
				}
			}
			sort.Ints(vl)
			if n > lim || len(s.cls) > lim {
				ok = false
				break
			}
			idx := make([]int, len(vl))
			for {
				env := map[int]Term{}
				for i, v := range vl {
					env[v] = terms[c.vs[v]][idx[i]]
				}
				var g []int
				for _, l := range cl {
					g = append(g, s.lit(l, env))
				}
				s.cls = append(s.cls, g)
				i := 0
				for i < len(vl) {
					idx[i]++
					if idx[i] < len(terms[c.vs[vl[i]]]) {
						break
					}
					idx[i] = 0
					i++
				}
				if i == len(vl) {
					break
				}
			}
		}
		if !ok {
			return false
		}
		if !s.solveEq() {
			return true
		}
		grow := false
		for _, a := range fs {
			if a > 0 {
				grow = true
			}
		}
		if !grow {
			return false
		}
	}
	return false
}

func termVars(t Term, vs map[int]bool) {
	if t.V >= 0 {
		vs[t.V] = true
	}
	for _, a := range t.Args {
		termVars(a, vs)
	}
}
func litVars(l *Form, vs map[int]bool) {
	if l.Op == ONot {
		l = l.A
	}
	for _, t := range l.T {
		termVars(t, vs)
	}
}

// sat is a small DPLL.
type sat struct {
	atoms map[string]int
	cls   [][]int
	at    []*Form // atom i+1
	model []int8
	eq    bool
}

func (s *sat) lit(l *Form, env map[int]Term) int {
	sg := 1
	if l.Op == ONot {
		sg = -1
		l = l.A
	}
	g := &Form{Op: l.Op, P: l.P}
	k := l.P
	if l.Op == OEq {
		s.eq = true
		k = "="
	}
	for _, t := range l.T {
		u := subT(t, env)
		g.T = append(g.T, u)
		k += "," + u.String()
	}
	a, ok := s.atoms[k]
	if !ok {
		a = len(s.atoms) + 1
		s.atoms[k] = a
		s.at = append(s.at, g)
	}
	return sg * a
}

// solveEq is solve modulo equality with uninterpreted functions.
func (s *sat) solveEq() bool {
	for round := 0; ; round++ {
		if !s.solve() {
			return false
		}
		if !s.eq {
			return true
		}
		if round > 3000 {
			return true // gives up: "not certified"
		}
		var lits []int
		for i := range s.at {
			if s.model[i+1] == 1 {
				lits = append(lits, i+1)
			} else if s.model[i+1] == -1 {
				lits = append(lits, -(i + 1))
			}
		}
		if s.eqConsistent(lits) {
			return true
		}
		for i := 0; i < len(lits); {
			try := append(append([]int{}, lits[:i]...), lits[i+1:]...)
			if !s.eqConsistent(try) {
				lits = try
			} else {
				i++
			}
		}
		var cl []int
		for _, l := range lits {
			cl = append(cl, -l)
		}
		s.cls = append(s.cls, cl)
	}
}

func (s *sat) eqConsistent(lits []int) bool {
	c := newCC()
	for _, l := range lits {
		a := s.at[abs(l)-1]
		for _, t := range a.T {
			c.add(t)
		}
		if l > 0 && a.Op == OEq {
			c.merge(a.T[0], a.T[1])
		}
	}
	c.close()
	pos := map[string]bool{}
	for _, l := range lits {
		a := s.at[abs(l)-1]
		if a.Op == OEq {
			if l < 0 && c.same(a.T[0], a.T[1]) {
				return false
			}
			continue
		}
		if l > 0 {
			pos[c.atomKey(a)] = true
		}
	}
	for _, l := range lits {
		if a := s.at[abs(l)-1]; l < 0 && a.Op == OAtom && pos[c.atomKey(a)] {
			return false
		}
	}
	return true
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// cc is congruence closure by fixpoint iteration.
type cc struct {
	id  map[string]int
	ts  []Term
	rep []int
}

func newCC() *cc { return &cc{id: map[string]int{}} }

func (c *cc) add(t Term) int {
	for _, a := range t.Args {
		c.add(a)
	}
	k := t.String()
	if i, ok := c.id[k]; ok {
		return i
	}
	i := len(c.ts)
	c.id[k] = i
	c.ts = append(c.ts, t)
	c.rep = append(c.rep, i)
	return i
}

func (c *cc) find(i int) int {
	for c.rep[i] != i {
		i = c.rep[i]
	}
	return i
}

func (c *cc) merge(a, b Term) {
	x, y := c.find(c.add(a)), c.find(c.add(b))
	if x != y {
		c.rep[x] = y
	}
}

func (c *cc) close() {
	for ch := true; ch; {
		ch = false
		sig := map[string]int{}
		for i, t := range c.ts {
			if len(t.Args) == 0 {
				continue
			}
			k := t.Fn
			for _, a := range t.Args {
				k += fmt.Sprintf(",%d", c.find(c.id[a.String()]))
			}
			if j, ok := sig[k]; ok {
				x, y := c.find(i), c.find(j)
				if x != y {
					c.rep[x] = y
					ch = true
				}
			} else {
				sig[k] = i
			}
		}
	}
}

func (c *cc) same(a, b Term) bool {
	return c.find(c.add(a)) == c.find(c.add(b))
}

func (c *cc) atomKey(a *Form) string {
	k := a.P
	for _, t := range a.T {
		k += fmt.Sprintf(",%d", c.find(c.id[t.String()]))
	}
	return k
}

func (s *sat) solve() bool {
	val := make([]int8, len(s.atoms)+1)
	occ := make([][]int, 2*len(val))
	ix := func(l int) int {
		if l > 0 {
			return 2 * l
		}
		return -2*l + 1
	}
	var cls [][]int
	for _, c := range s.cls {
		m := map[int]bool{}
		var d []int
		taut := false
		for _, l := range c {
			if m[-l] {
				taut = true
			}
			if !m[l] {
				m[l] = true
				d = append(d, l)
			}
		}
		if taut {
			continue
		}
		if len(d) == 0 {
			return false
		}
		for _, l := range d {
			occ[ix(l)] = append(occ[ix(l)], len(cls))
		}
		cls = append(cls, d)
	}
	var trail []int
	assign := func(l int) {
		if l > 0 {
			val[l] = 1
		} else {
			val[-l] = -1
		}
		trail = append(trail, l)
	}
	value := func(l int) int8 {
		if l > 0 {
			return val[l]
		}
		return -val[-l]
	}
	prop := func(from int) bool {
		for q := from; q < len(trail); q++ {
			for _, ci := range occ[ix(-trail[q])] {
				un, cnt, sat := 0, 0, false
				for _, l := range cls[ci] {
					switch value(l) {
					case 1:
						sat = true
					case 0:
						un = l
						cnt++
					}
					if sat || cnt > 1 {
						break
					}
				}
				if sat || cnt > 1 {
					continue
				}
				if cnt == 0 {
					return false
				}
				assign(un)
			}
		}
		return true
	}
	for _, c := range cls {
		if len(c) == 1 {
			if value(c[0]) == -1 {
				return false
			}
			if value(c[0]) == 0 {
				assign(c[0])
			}
		}
	}
	if !prop(0) {
		return false
	}
	var rec func() bool
	rec = func() bool {
		best := 0
		for _, c := range cls {
			sat, un := false, 0
			for _, l := range c {
				if value(l) == 1 {
					sat = true
					break
				}
				if value(l) == 0 {
					un = l
				}
			}
			if !sat && un != 0 {
				best = un
				break
			}
		}
		if best == 0 {
			s.model = append([]int8(nil), val...)
			return true
		}
		for _, l := range []int{best, -best} {
			mark := len(trail)
			assign(l)
			if prop(mark) && rec() {
				return true
			}
			for len(trail) > mark {
				x := trail[len(trail)-1]
				trail = trail[:len(trail)-1]
				if x < 0 {
					x = -x
				}
				val[x] = 0
			}
		}
		return false
	}
	return rec()
}
