package main

// Exhaustive generators of closed formulas.

type genCfg struct {
	preds  []string       // predicate symbols
	ar     map[string]int // their arity
	consts []string
	funs   []string // unary function symbols, applied to variables/constants once
	ops    []Op
	notnot bool // allow double negation
	vac    bool // allow vacuous quantifiers
	eq     bool // equality atoms
	depth  int  // maximal quantifier nesting
	comm   bool // both argument orders of & | <=> <~> ~| ~&
	tb     bool // $true / $false atoms
}

type gen struct {
	genCfg
	memo map[[2]int][]*Form
}

func newGen(c genCfg) *gen { return &gen{c, map[[2]int][]*Form{}} }

func (g *gen) terms(d int) []Term {
	var ts []Term
	for v := 0; v < d; v++ {
		ts = append(ts, Var(v))
	}
	for _, c := range g.consts {
		ts = append(ts, Fun(c))
	}
	base := ts
	for _, f := range g.funs {
		for _, t := range base {
			ts = append(ts, Fun(f, t))
		}
	}
	return ts
}

func (g *gen) atoms(d int) (r []*Form) {
	ts := g.terms(d)
	for _, p := range g.preds {
		switch g.ar[p] {
		case 0:
			r = append(r, Atom(p))
		case 1:
			for _, t := range ts {
				r = append(r, Atom(p, t))
			}
		case 2:
			for _, t := range ts {
				for _, u := range ts {
					r = append(r, Atom(p, t, u))
				}
			}
		}
	}
	if g.eq {
		for i, t := range ts {
			for j, u := range ts {
				if i < j || (i != j && g.comm) {
					r = append(r, Eq(t, u))
				}
			}
		}
	}
	if g.tb {
		r = append(r, &Form{Op: OTop}, &Form{Op: OBot})
	}
	return
}

func (f *Form) usesVar(v int) bool {
	if f == nil {
		return false
	}
	vs := map[int]bool{}
	for _, t := range f.T {
		termVars(t, vs)
	}
	return vs[v] || f.A.usesVar(v) || f.B.usesVar(v)
}

// forms returns the formulas with n connectives/quantifiers and free variables
// among the first d.
func (g *gen) forms(n, d int) []*Form {
	k := [2]int{n, d}
	if r, ok := g.memo[k]; ok {
		return r
	}
	var r []*Form
	if n == 0 {
		r = g.atoms(d)
	} else {
		for _, a := range g.forms(n-1, d) {
			if a.Op != ONot || g.notnot {
				r = append(r, Not(a))
			}
		}
		if d < g.depth {
			for _, a := range g.forms(n-1, d+1) {
				if g.vac || a.usesVar(d) {
					r = append(r, All(d, a), Ex(d, a))
				}
			}
		}
		for i := 0; i <= n-1; i++ {
			as, bs := g.forms(i, d), g.forms(n-1-i, d)
			for _, o := range g.ops {
				comm := o != OImp && o != ORev
				if comm && !g.comm && i > n-1-i {
					continue
				}
				for x, a := range as {
					for y, b := range bs {
						if comm && !g.comm && i == n-1-i && y < x {
							continue
						}
						r = append(r, Bin(o, a, b))
					}
				}
			}
		}
	}
	g.memo[k] = r
	return r
}

func (f *Form) hasQuant() bool {
	return f != nil && (f.Op == OAll || f.Op == OEx || f.A.hasQuant() || f.B.hasQuant())
}
