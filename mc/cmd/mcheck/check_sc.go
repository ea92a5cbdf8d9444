package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// SC-TPTP proofs: every sequent proof printed with -proof -otptp or -osctptp
// is read back and every inference is checked.

type scStep struct {
	name, role  string
	left, right []*pf
	rule        string
	par         []string
	prem        []string
}

var reScPlain = regexp.MustCompile(`^fof\((\w+), plain, \[(.*)\] --> \[(.*)\], inference\((\w+), \[status\(thm\)(.*)\], \[(.*)\]\)\)\.$`)
var reScForm = regexp.MustCompile(`^fof\((\w+), (axiom|conjecture), (.*)\)\.$`)

func splitPar(s string) (r []string) {
	for _, x := range strings.Split(s, ", ") {
		if x = strings.Trim(strings.TrimSpace(x), ","); x != "" {
			r = append(r, strings.TrimSpace(x))
		}
	}
	return
}

// checkSC checks the sequent proof in an output.
func checkSC(p *problem, out string) (bad string, n int) {
	defer func() {
		if e := recover(); e != nil {
			if m, ok := e.(perr); ok {
				bad = "unreadable proof: " + string(m)
				return
			}
			panic(e)
		}
	}()
	i := strings.Index(out, "SZS output start Proof")
	e := strings.Index(out, "% SZS output end")
	if i < 0 || e < i {
		return "no proof in the output", 0
	}
	steps := map[string]*scStep{}
	var order []*scStep
	// The text proof comes first.
	ls := strings.Split(out[i:e], "\n")[1:]
	k := 0
	for k < len(ls) && !strings.HasPrefix(ls[k], "fof(") {
		k++
	}
	if k == len(ls) {
		return "no sequent proof in the output", 0
	}
	for _, l := range ls[k:] {
		if l = strings.TrimSpace(l); l == "" {
			continue
		}
		s := &scStep{}
		if m := reScPlain.FindStringSubmatch(l); m != nil {
			s.name, s.role, s.rule, s.par, s.prem = m[1], "plain", m[4], splitPar(m[5]), splitPar(m[6])
			s.left, s.right = (&pparser{s: m[2]}).list(), (&pparser{s: m[3]}).list()
		} else if m := reScForm.FindStringSubmatch(l); m != nil {
			s.name, s.role = m[1], m[2]
			s.right = []*pf{one(m[3], true)}
		} else {
			return "not a step: " + l, len(order)
		}
		if steps[s.name] != nil {
			return "two steps have the name " + s.name, len(order)
		}
		steps[s.name] = s
		order = append(order, s)
	}
	n = len(order)
	c := &scChecker{steps: steps, syms: map[string]bool{}, used: map[string]bool{}}
	var want []string
	for _, a := range p.ax {
		f := toPf(a, nil)
		c.names(f)
		var rec func(h *pf)
		rec = func(h *pf) {
			if h.op == '&' {
				for _, x := range h.k {
					rec(x)
				}
				return
			}
			want = append(want, h.key())
		}
		rec(f.flat())
	}
	conj := &pf{op: 'F'}
	if p.conj != nil {
		conj = toPf(p.conj, nil)
	}
	c.names(conj)
	var last *scStep
	for _, s := range order {
		if s.role != "plain" {
			c.givens++
		}
		switch s.role {
		case "axiom":
			var rec func(h *pf) bool
			rec = func(h *pf) bool {
				if h.op == '&' {
					for _, x := range h.k {
						if !rec(x) {
							return false
						}
					}
					return true
				}
				for _, w := range want {
					if w == h.key() {
						return true
					}
				}
				return false
			}
			if !rec(s.right[0].flat()) {
				return "an axiom of the proof is not one of the problem: " + s.right[0].key(), n
			}
		case "conjecture":
			got := s.right[0].flat()
			// Without a conjecture the last axiom may be taken for a negated one.
			if got.key() != conj.flat().key() && !(p.conj == nil && func() bool {
				for _, w := range want {
					if w == pnot(got).key() {
						return true
					}
				}
				return false
			}()) {
				return "the conjecture of the proof is not that of the problem", n
			}
			conj = s.right[0]
		default:
			last = s
		}
	}
	if last == nil {
		return "no step", n
	}
	// The last step proves the conjecture, from nothing but steps that are there.
	if len(last.left) != 0 || len(last.right) != 1 || last.right[0].txt() != conj.txt() {
		return "the last step is not the conjecture", n
	}
	if b := c.step(last, nil, []*pf{conj}, 0); b != "" {
		return b, n
	}
	if len(c.used) != n-c.givens {
		return "steps which nothing uses", n
	}
	return "", n
}

type scChecker struct {
	steps  map[string]*scStep
	syms   map[string]bool
	used   map[string]bool
	givens int
	eq     bool
}

func (c *scChecker) names(f *pf) {
	if f.op == '=' {
		c.eq = true
	}
	f.each(func(t *pt) { c.syms[t.f] = true })
}

func inSet(f *pf, fs []*pf) bool {
	for _, g := range fs {
		if g.key() == f.key() {
			return true
		}
	}
	return false
}

// resolve finds what printed formulas stand for among those that are allowed.
func resolve(fs, among []*pf) ([]*pf, *pf) {
	var r []*pf
	for _, f := range fs {
		var got *pf
		for _, g := range among {
			if g.txt() == f.txt() {
				got = g
			}
		}
		if got == nil {
			return nil, f
		}
		r = append(r, got)
	}
	return r, nil
}

// step checks the derivation of a sequent whose formulas are to be among L and R.
func (c *scChecker) step(st *scStep, L, R []*pf, depth int) (bad string) {
	say := func(s string) string { return fmt.Sprintf("step %s (%s): %s", st.name, st.rule, s) }
	if depth > 2000 {
		return say("the proof is circular")
	}
	if st.role == "conjecture" {
		return "the conjecture is used as a premise"
	}
	if st.role == "axiom" {
		if !inSet(st.right[0], R) {
			return "the axiom " + st.name + " is not what the step it is used in needs"
		}
		return ""
	}
	c.used[st.name] = true
	s := &scStep{name: st.name, rule: st.rule, par: st.par, prem: st.prem}
	var no *pf
	if s.left, no = resolve(st.left, L); no != nil {
		return say("a hypothesis which the step above does not give: " + no.txt())
	}
	if s.right, no = resolve(st.right, R); no != nil {
		return say("a conclusion which the step above does not give: " + no.txt())
	}
	var ps []*scStep
	for _, m := range s.prem {
		q := c.steps[m]
		if q == nil {
			return say("no step " + m)
		}
		ps = append(ps, q)
	}
	defer func() {
		if bad != "" && !strings.HasPrefix(bad, "step ") {
			bad = say(bad)
		}
	}()
	// from checks premise i, which has the conclusion's formulas and the given ones.
	from := func(i int, l, r []*pf) string {
		return c.step(ps[i], append(l[:len(l):len(l)], s.left...), append(r[:len(r):len(r)], s.right...), depth+1)
	}
	need := func(n int) string {
		if len(ps) != n {
			return fmt.Sprintf("%d premises", len(ps))
		}
		return ""
	}
	idx := func(fs []*pf) *pf {
		if len(s.par) == 0 {
			return nil
		}
		i, err := strconv.Atoi(s.par[0])
		if err != nil || i < 0 || i >= len(fs) {
			return nil
		}
		return fs[i]
	}
	const noIdx = "the index does not designate a formula"
	const shape = "the formula designated does not have the shape the rule is for"
	switch s.rule {
	case "congruence":
		k := &treeChecker{eq: true}
		on := map[string]bool{}
		if !k.closed(nil, s.left, on) {
			return "the hypotheses are not contradictory by congruence"
		}
		return need(0)
	case "cut":
		if b := need(2); b != "" {
			return b
		}
		a := idx(ps[0].right)
		if a == nil {
			return noIdx
		}
		if ps[0].role != "axiom" {
			// Cuts come before there is any metavariable.
			a = a.readings()[0]
		}
		if b := from(0, nil, []*pf{a}); b != "" {
			return b
		}
		return from(1, []*pf{a}, nil)
	case "leftWeaken":
		if b := need(1); b != "" {
			return b
		}
		return from(0, nil, nil)
	case "rightNot":
		if b := need(1); b != "" {
			return b
		}
		f := idx(s.right)
		if f == nil {
			return noIdx
		}
		if f.op != '~' {
			return shape
		}
		return from(0, f.k, nil)
	}
	f := idx(s.left)
	if f == nil {
		return noIdx
	}
	var g *pf
	if f.op == '~' {
		g = f.k[0]
	}
	is := func(h *pf, op byte) bool { return h != nil && h.op == op }
	// all: one premise per list of formulas.
	all := func(ok bool, fs ...[]*pf) string {
		if !ok {
			return shape
		}
		if b := need(len(fs)); b != "" {
			return b
		}
		for i := range fs {
			if b := from(i, fs[i], nil); b != "" {
				return b
			}
		}
		return ""
	}
	neg := func(fs []*pf) (r []*pf) {
		for _, x := range fs {
			r = append(r, pnot(x))
		}
		return
	}
	single := func(fs []*pf) (r [][]*pf) {
		for _, x := range fs {
			r = append(r, []*pf{x})
		}
		return
	}
	kid := func(h *pf) []*pf {
		if h == nil {
			return nil
		}
		return h.k
	}
	imp := func(a, b *pf) *pf { return &pf{op: '>', k: []*pf{a, b}} }
	switch s.rule {
	case "hyp":
		if !inSet(f, s.right) {
			return "the formula is not on the right"
		}
		return need(0)
	case "leftHyp":
		if !inSet(pnot(f), s.left) && !(g != nil && inSet(g, s.left)) {
			return "no complementary formula"
		}
		return need(0)
	case "leftFalse":
		if f.op != 'F' {
			return shape
		}
		return need(0)
	case "leftNotNot":
		return all(is(g, '~'), kid(g))
	case "leftAnd":
		return all(f.op == '&', f.k)
	case "leftNotOr":
		return all(is(g, '|'), neg(kid(g)))
	case "leftNotImplies":
		if !is(g, '>') {
			return shape
		}
		return all(true, []*pf{g.k[0], pnot(g.k[1])})
	case "leftNotAnd":
		return all(is(g, '&'), single(neg(kid(g)))...)
	case "leftOr":
		return all(f.op == '|', single(f.k)...)
	case "leftImp2":
		if f.op != '>' {
			return shape
		}
		return all(true, []*pf{pnot(f.k[0])}, []*pf{f.k[1]})
	case "leftIff":
		if f.op != '<' {
			return shape
		}
		return all(true, []*pf{imp(f.k[0], f.k[1]), imp(f.k[1], f.k[0])})
	case "leftNotIff":
		if !is(g, '<') {
			return shape
		}
		return all(true, []*pf{pnot(imp(g.k[0], g.k[1]))}, []*pf{pnot(imp(g.k[1], g.k[0]))})
	case "leftForall", "leftNotEx", "leftExists", "leftNotAll":
		op, h, wrap := byte('!'), f, func(x *pf) *pf { return x }
		if s.rule == "leftExists" || s.rule == "leftNotEx" {
			op = '?'
		}
		if s.rule == "leftNotEx" || s.rule == "leftNotAll" {
			h, wrap = g, pnot
		}
		if !is(h, op) {
			return shape
		}
		if len(s.par) < 2 {
			return "no term given"
		}
		ts := strings.Join(s.par[1:], ", ")
		gamma := strings.HasPrefix(ts, "$fot(")
		var x *pt
		if gamma {
			pp := &pparser{s: strings.TrimSuffix(strings.TrimPrefix(ts, "$fot("), ")")}
			x = pp.term()
		} else {
			x = &pt{v: -1, f: strings.Trim(ts, "'")}
		}
		if gamma != (s.rule == "leftForall" || s.rule == "leftNotEx") {
			return "wrong kind of parameter"
		}
		if !gamma {
			// The new constant occurs in nothing the step concludes.
			occ := c.syms[x.f]
			for _, y := range append(append([]*pf{}, s.left...), s.right...) {
				y.each(func(t *pt) { occ = occ || t.f == x.f })
			}
			if occ {
				return "the constant " + x.f + " is not new"
			}
		}
		return all(true, []*pf{wrap(h.k[0].inst(0, x))})
	}
	return "unknown rule"
}

func init() {
	checks["G23"] = func(c *Ctx) { c.scCheck() }
}

func (c *Ctx) scCheck() {
	c.Cov["rule"] = "every valid problem of the enumerated families is proved on the real engine with -proof -otptp / -osctptp; in every distinct proof printed each inference is checked (premises, principal formula, fresh constants, instances, closure), as well as the axioms and the conjecture it starts from and the absence of cycles and holes"
	fo, eq, _ := proofFamilies(c.Thorough())
	var gs, hs []rocqGroup
	add := func(gs *[]rocqGroup, ps []classified, k, steps int, pol []int, opts ...string) {
		for n, o := range opts {
			var qs []classified
			for i, x := range ps {
				// Inner Skolemisation meets defects of the translation to sequents
				// (see known_findings.txt): the same problems in both tiers.
				if i%k == n%k || c.Thorough() && !strings.Contains(o, "inner") {
					qs = append(qs, x)
				}
			}
			*gs = append(*gs, rocqGroup{args: strings.Fields(o), ps: qs, pol: pol, steps: steps})
		}
	}
	add(&gs, fo, 1, 0, []int{0, 3}, "")
	add(&gs, fo, 4, 0, []int{0}, "-flatten")
	add(&gs, fo, 8, 0, []int{0}, "-inner", "-preinner")
	add(&gs, eq, 1, 0, []int{0, 3}, "")
	add(&gs, eq, 4, 0, []int{0}, "-flatten", "-inner")
	add(&hs, fo, 4, 0, []int{0}, "", "-flatten")
	add(&hs, classifyAll(famNames(), 3), 1, 0, []int{0}, "")
	f := func(v vjob, out string) (string, int) { return checkSC(v.problem, out) }
	c.proofs(gs, []string{"-osctptp"}, f)
	c.proofs(hs, []string{"-otptp"}, f)
}
