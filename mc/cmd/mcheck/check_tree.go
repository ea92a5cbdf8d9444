package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// Tableau proofs: every proof the prover prints with -proof is read back and
// checked rule by rule. Metavariables left in a proof are arbitrary constants.
//
// A printed metavariable has the name of the variable it comes from, which may
// be bound around it. The text of a formula is therefore read relative to the
// formula it comes from: a checker carries formulas whose variables are
// resolved (starting from the problem's, where there is no metavariable) and
// compares what a rule gives with the text below by printed names.

// A pt is a term; v >= 0 is a de Bruijn index.
type pt struct {
	v int
	f string
	a []*pt
}

// A pf is a formula: op is a (atom), = T F ~ & | > < ! ?.
type pf struct {
	op byte
	p  string
	t  []*pt
	k  []*pf
	s  string
	x  string
}

// write prints the term: with the names of the enclosing binders, or (sc nil)
// with indices.
func (t *pt) write(b *strings.Builder, sc []string) {
	if t.v >= 0 {
		if sc != nil {
			b.WriteString(sc[len(sc)-1-t.v])
		} else {
			fmt.Fprintf(b, "#%d", t.v)
		}
		return
	}
	b.WriteString(t.f)
	if len(t.a) > 0 {
		b.WriteByte('(')
		for i, x := range t.a {
			if i > 0 {
				b.WriteByte(',')
			}
			x.write(b, sc)
		}
		b.WriteByte(')')
	}
}

func (t *pt) key() string {
	var b strings.Builder
	t.write(&b, nil)
	return b.String()
}

// key identifies a formula up to the names of its bound variables.
func (f *pf) key() string {
	if f.s == "" {
		var b strings.Builder
		f.write(&b, nil, false)
		f.s = b.String()
	}
	return f.s
}

// txt identifies a formula by what is printed.
func (f *pf) txt() string {
	if f.x == "" {
		var b strings.Builder
		f.write(&b, []string{}, true)
		f.x = b.String()
	}
	return f.x
}

func (f *pf) write(b *strings.Builder, sc []string, named bool) {
	b.WriteByte(f.op)
	if f.op == '!' || f.op == '?' {
		if named {
			b.WriteString(f.p)
			sc = append(sc[:len(sc):len(sc)], f.p)
		}
	} else {
		b.WriteString(f.p)
	}
	if len(f.t) > 0 {
		b.WriteByte('(')
		for _, x := range f.t {
			x.write(b, sc)
			b.WriteByte(';')
		}
		b.WriteByte(')')
	}
	if len(f.k) > 0 {
		b.WriteByte('[')
		for _, x := range f.k {
			x.write(b, sc, named)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	}
}

func pnot(f *pf) *pf { return &pf{op: '~', k: []*pf{f}} }

// compl is the complement: the negation, with one negation taken away if there is one.
func compl(f *pf) string {
	if f.op == '~' {
		return f.k[0].key()
	}
	return pnot(f).key()
}

func (t *pt) inst(d int, x *pt) *pt {
	switch {
	case t.v == d:
		return x
	case t.v > d:
		return &pt{v: t.v - 1}
	case t.v >= 0 || len(t.a) == 0:
		return t
	}
	r := &pt{v: -1, f: t.f}
	for _, y := range t.a {
		r.a = append(r.a, y.inst(d, x))
	}
	return r
}

// inst replaces the variable d by the (closed) term x.
func (f *pf) inst(d int, x *pt) *pf {
	r := &pf{op: f.op, p: f.p}
	for _, t := range f.t {
		r.t = append(r.t, t.inst(d, x))
	}
	if f.op == '!' || f.op == '?' {
		d++
	}
	for _, g := range f.k {
		r.k = append(r.k, g.inst(d, x))
	}
	return r
}

// find looks for the term which stands in g where f has the variable d.
func (t *pt) find(d int, u *pt) *pt {
	if t.v == d {
		return u
	}
	if t.v >= 0 || u.v >= 0 || len(t.a) != len(u.a) {
		return nil
	}
	for i := range t.a {
		if r := t.a[i].find(d, u.a[i]); r != nil {
			return r
		}
	}
	return nil
}

func (f *pf) find(d int, g *pf) *pt {
	if f.op != g.op || len(f.k) != len(g.k) || len(f.t) != len(g.t) {
		return nil
	}
	for i := range f.t {
		if r := f.t[i].find(d, g.t[i]); r != nil {
			return r
		}
	}
	e := d
	if f.op == '!' || f.op == '?' {
		e++
	}
	for i := range f.k {
		if r := f.k[i].find(e, g.k[i]); r != nil {
			return r
		}
	}
	return nil
}

// instanceOf finds the term for which the body f of a quantifier becomes the
// printed formula g (nil: the variable does not occur), and the instance.
func instanceOf(f, g *pf) (*pt, *pf) {
	x := f.find(0, g)
	y := x
	if x == nil {
		y = &pt{v: -1, f: "$none"}
	}
	if i := f.inst(0, y); i.txt() == g.txt() {
		return x, i
	}
	return nil, nil
}

func (t *pt) closed(d int) bool {
	if t.v >= d {
		return false
	}
	for _, x := range t.a {
		if !x.closed(d) {
			return false
		}
	}
	return true
}

// flat collapses nested & and |.
func (f *pf) flat() *pf {
	r := &pf{op: f.op, p: f.p, t: f.t}
	for _, g := range f.k {
		h := g.flat()
		if (f.op == '&' || f.op == '|') && h.op == f.op {
			r.k = append(r.k, h.k...)
		} else {
			r.k = append(r.k, h)
		}
	}
	return r
}

// toPf translates a formula of a family.
func toPf(f *Form, sc []int) *pf {
	tm := func(t Term) *pt { return toPt(t, sc) }
	r := &pf{}
	switch f.Op {
	case OAtom:
		r.op, r.p = 'a', f.P
		for _, t := range f.T {
			r.t = append(r.t, tm(t))
		}
	case OEq:
		r.op, r.t = '=', []*pt{tm(f.T[0]), tm(f.T[1])}
	case OTop:
		r.op = 'T'
	case OBot:
		r.op = 'F'
	case ONot:
		return pnot(toPf(f.A, sc))
	case OAll, OEx:
		r.op = map[Op]byte{OAll: '!', OEx: '?'}[f.Op]
		r.p = fmt.Sprintf("X%d", f.V)
		r.k = []*pf{toPf(f.A, append(append([]int{}, sc...), f.V))}
	default:
		op, ok := map[Op]byte{OAnd: '&', OOr: '|', OImp: '>', OEquiv: '<'}[f.Op]
		if !ok {
			panic("connective")
		}
		r.op, r.k = op, []*pf{toPf(f.A, sc), toPf(f.B, sc)}
	}
	return r
}

func toPt(t Term, sc []int) *pt {
	if t.V >= 0 {
		for i := len(sc) - 1; i >= 0; i-- {
			if sc[i] == t.V {
				return &pt{v: len(sc) - 1 - i}
			}
		}
		panic("free variable")
	}
	r := &pt{v: -1, f: t.Fn}
	for _, a := range t.Args {
		r.a = append(r.a, toPt(a, sc))
	}
	return r
}

// pparser reads the formulas of printed proofs.
type pparser struct {
	s  string
	i  int
	sc []string
	// scoped: names bound by a quantifier are variables (else they stay names).
	scoped bool
}

type perr string

func (p *pparser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n') {
		p.i++
	}
}
func (p *pparser) is(t string) bool { p.ws(); return strings.HasPrefix(p.s[p.i:], t) }
func (p *pparser) try(t string) bool {
	if p.is(t) {
		p.i += len(t)
		return true
	}
	return false
}
func (p *pparser) eat(t string) {
	if !p.try(t) {
		panic(perr(fmt.Sprintf("%q expected at %q of %q", t, p.s[min(p.i, len(p.s)):], p.s)))
	}
}
func (p *pparser) name() string {
	p.ws()
	j := p.i
	if j < len(p.s) && p.s[j] == '\'' {
		if k := strings.IndexByte(p.s[j+1:], '\''); k >= 0 {
			p.i = j + k + 2
			return p.s[j:p.i]
		}
	}
	for j < len(p.s) && (isAln(p.s[j]) || p.s[j] == '@' || p.s[j] == '$' || p.s[j] == '\'') {
		j++
	}
	if j == p.i {
		panic(perr(fmt.Sprintf("name expected at %q of %q", p.s[p.i:], p.s)))
	}
	n := p.s[p.i:j]
	p.i = j
	return n
}

func (p *pparser) form() *pf {
	f := p.unit()
	switch {
	case p.is("=>"), p.is("<=>"):
		op := byte('>')
		if p.try("<=>") {
			op = '<'
		} else {
			p.eat("=>")
		}
		return &pf{op: op, k: []*pf{f, p.unit()}}
	case p.is("&"), p.is("|"):
		op := p.s[p.i]
		r := &pf{op: op, k: []*pf{f}}
		for p.try(string(op)) {
			r.k = append(r.k, p.unit())
		}
		return r
	}
	return f
}

func (p *pparser) unit() *pf {
	switch {
	case p.is("~"):
		p.eat("~")
		return pnot(p.unit())
	case p.is("("):
		p.eat("(")
		f := p.form()
		p.eat(")")
		return f
	case p.is("!"), p.is("?"):
		op := p.s[p.i]
		p.i++
		p.eat("[")
		n := len(p.sc)
		for {
			p.sc = append(p.sc, p.name())
			if !p.try(",") {
				break
			}
		}
		p.eat("]")
		p.eat(":")
		f := p.form()
		for i := len(p.sc) - 1; i >= n; i-- {
			f = &pf{op: op, p: p.sc[i], k: []*pf{f}}
		}
		p.sc = p.sc[:n]
		return f
	case p.try("$true"):
		return &pf{op: 'T'}
	case p.try("$false"):
		return &pf{op: 'F'}
	}
	t := p.term()
	if p.is("=") && !p.is("=>") {
		p.eat("=")
		return &pf{op: '=', t: []*pt{t, p.term()}}
	}
	if p.is("!=") {
		p.eat("!=")
		return pnot(&pf{op: '=', t: []*pt{t, p.term()}})
	}
	if t.v >= 0 {
		panic(perr("a variable as a formula in " + p.s))
	}
	return &pf{op: 'a', p: t.f, t: t.a}
}

func (p *pparser) term() *pt {
	n := p.name()
	for i := len(p.sc) - 1; i >= 0 && p.scoped; i-- {
		if p.sc[i] == n {
			return &pt{v: len(p.sc) - 1 - i}
		}
	}
	t := &pt{v: -1, f: n}
	if p.try("(") {
		for {
			t.a = append(t.a, p.term())
			if !p.try(",") {
				break
			}
		}
		p.eat(")")
	}
	return t
}

// list reads formulas separated by commas up to the end.
func (p *pparser) list() (fs []*pf) {
	if p.ws(); p.i == len(p.s) {
		return nil
	}
	for {
		fs = append(fs, p.form())
		if !p.try(",") {
			break
		}
	}
	p.ws()
	if p.i != len(p.s) {
		panic(perr("unread: " + p.s[p.i:]))
	}
	return
}

// A pnode is a node of a printed tableau.
type pnode struct {
	id   int
	rule string
	f    *pf
	ch   []pchild
}
type pchild struct {
	id int
	fs []*pf
}

var reNode = regexp.MustCompile(`^\[(\d+)\] ([A-Za-z_]+) : (.*)$`)
var reRes = regexp.MustCompile(`^\t-> \[(\d+)\] (.*)$`)

// parseTree reads the text proof of an output.
func parseTree(out string) (nodes map[int]*pnode, root *pnode, bad string) {
	defer func() {
		if e := recover(); e != nil {
			if m, ok := e.(perr); ok {
				bad = "unreadable proof: " + string(m)
				return
			}
			panic(e)
		}
	}()
	i := strings.Index(out, "SZS output start Proof")
	if i < 0 {
		return nil, nil, "no proof in the output"
	}
	out = out[i:]
	e := strings.Index(out, "% SZS output end")
	if e < 0 {
		return nil, nil, "the proof does not end"
	}
	nodes = map[int]*pnode{}
	var cur *pnode
	for _, l := range strings.Split(out[:e], "\n")[1:] {
		if l == "" {
			continue
		}
		if m := reNode.FindStringSubmatch(l); m != nil {
			id, _ := strconv.Atoi(m[1])
			if nodes[id] != nil {
				return nil, nil, "two nodes have the number " + m[1]
			}
			cur = &pnode{id: id, rule: strings.ToUpper(m[2])}
			if strings.TrimSpace(m[3]) != "=" {
				cur.f = one(m[3], root == nil)
			}
			nodes[id] = cur
			if root == nil {
				root = cur
			}
		} else if m := reRes.FindStringSubmatch(l); m != nil && cur != nil {
			id, _ := strconv.Atoi(m[1])
			cur.ch = append(cur.ch, pchild{id, (&pparser{s: m[2]}).list()})
		} else {
			return nil, nil, "unexpected line: " + l
		}
	}
	if root == nil {
		return nil, nil, "empty proof"
	}
	return nodes, root, ""
}

func one(s string, scoped bool) *pf {
	fs := (&pparser{s: s, scoped: scoped}).list()
	if len(fs) != 1 {
		panic(perr("not one formula: " + s))
	}
	return fs[0]
}

// A treeChecker checks one tableau.
type treeChecker struct {
	nodes map[int]*pnode
	used  map[int]bool
	syms  map[string]bool
	ax    []*pf
	eq    bool
	sk    map[string]string // Skolem term -> formula it witnesses
	skT   map[string]*pt
	skF   map[string]*pf
	n     int
}

func checkTree(p *problem, out string) (bad string, nodes int) {
	ns, root, bad := parseTree(out)
	if bad != "" {
		return bad, 0
	}
	k := &treeChecker{nodes: ns, used: map[int]bool{}, syms: map[string]bool{}, sk: map[string]string{}, skT: map[string]*pt{}, skF: map[string]*pf{}}
	have := map[string]bool{}
	addPart := func(f *Form) {
		g := toPf(f, nil)
		k.ax = append(k.ax, g)
		var rec func(h *pf)
		rec = func(h *pf) {
			if h.op == '&' {
				for _, x := range h.k {
					rec(x)
				}
				return
			}
			have[h.key()] = true
		}
		rec(g.flat())
		k.names(g)
	}
	for _, a := range p.ax {
		addPart(a)
	}
	if p.conj != nil {
		addPart(Not(p.conj))
	}
	if root.f == nil {
		return "the first node has no formula", 0
	}
	var parts []*pf
	if rf := root.f.flat(); rf.op == '&' {
		parts = rf.k
	} else {
		parts = []*pf{rf}
	}
	for _, x := range parts {
		if !have[x.key()] {
			return "the proof starts from a formula which is not in the problem: " + x.key(), 0
		}
	}
	if b := k.node(root, []*pf{root.f}); b != "" {
		return b, len(ns)
	}
	if len(k.used) != len(ns) {
		return "nodes which no branch leads to", len(ns)
	}
	return k.skolem(), len(ns)
}

func (k *treeChecker) names(f *pf) {
	var rec func(t *pt)
	rec = func(t *pt) {
		if t.v < 0 {
			k.syms[t.f] = true
		}
		for _, x := range t.a {
			rec(x)
		}
	}
	if f.op == '=' {
		k.eq = true
	}
	for _, t := range f.t {
		rec(t)
	}
	for _, g := range f.k {
		k.names(g)
	}
}

func (k *treeChecker) node(n *pnode, br []*pf) string {
	say := func(f string, a ...any) string {
		return fmt.Sprintf("node [%d] %s: ", n.id, n.rule) + fmt.Sprintf(f, a...)
	}
	if k.used[n.id] {
		return say("reached twice")
	}
	k.used[n.id] = true
	on := map[string]bool{}
	var fs []*pf
	for _, f := range br {
		on[f.key()] = true
		if n.f != nil && f.txt() == n.f.txt() {
			fs = append(fs, f)
		}
	}
	if n.f != nil && len(fs) == 0 {
		return say("its formula is not on the branch")
	}
	if len(n.ch) == 0 {
		if n.rule != "CLOSURE" {
			return say("an open leaf")
		}
		for _, f := range fs {
			if k.closed(f, br, on) {
				return ""
			}
		}
		if n.f == nil && k.closed(nil, br, on) {
			return ""
		}
		return say("the branch is not closed")
	}
	if n.f == nil {
		return say("a rule without a formula")
	}
	bad := ""
	for _, f := range fs {
		var got [][]*pf
		if got, bad = k.rule(n, f); bad != "" {
			continue
		}
		for i, c := range n.ch {
			m := k.nodes[c.id]
			if m == nil {
				return say("its child %d is missing: an open branch", c.id)
			}
			if b := k.node(m, append(br[:len(br):len(br)], got[i]...)); b != "" {
				return b
			}
		}
		return ""
	}
	return say("%s", bad)
}

// rule checks that the children of a node are those its rule gives for f, and
// returns the formulas of each child.
func (k *treeChecker) rule(n *pnode, f *pf) (got [][]*pf, bad string) {
	var g *pf
	if f.op == '~' {
		g = f.k[0]
	}
	fail := func(s string) ([][]*pf, string) { return nil, s }
	split := func(want ...[]*pf) ([][]*pf, string) {
		// Each branch of the rule has to be there, with nothing else on it.
		got := make([][]*pf, len(n.ch))
		for _, w := range want {
			ok := false
			for i, c := range n.ch {
				var l []*pf
				for _, x := range c.fs {
					for _, y := range w {
						if x.txt() == y.txt() {
							l = append(l, y)
							break
						}
					}
				}
				if len(l) == len(c.fs) && len(l) > 0 {
					ok, got[i] = true, l
				}
			}
			if !ok {
				return fail("a branch is missing, or has something else on it")
			}
		}
		for i := range got {
			if got[i] == nil {
				return fail("a branch the rule does not have")
			}
		}
		return got, ""
	}
	neg := func(fs []*pf) (r []*pf) {
		for _, x := range fs {
			r = append(r, pnot(x))
		}
		return
	}
	single := func(fs []*pf) (r [][]*pf) {
		for _, x := range fs {
			r = append(r, []*pf{x})
		}
		return
	}
	is := func(h *pf, op byte) bool { return h != nil && h.op == op }
	const shape = "the formula does not have the shape the rule is for"
	switch n.rule {
	case "ALPHA_AND":
		if !is(f, '&') {
			return fail(shape)
		}
		return split(f.k)
	case "ALPHA_NOT_NOT":
		if !is(g, '~') {
			return fail(shape)
		}
		return split(g.k)
	case "ALPHA_NOT_OR":
		if !is(g, '|') {
			return fail(shape)
		}
		return split(neg(g.k))
	case "ALPHA_NOT_IMPLY":
		if !is(g, '>') {
			return fail(shape)
		}
		return split([]*pf{g.k[0], pnot(g.k[1])})
	case "BETA_NOT_AND":
		if !is(g, '&') {
			return fail(shape)
		}
		return split(single(neg(g.k))...)
	case "BETA_OR":
		if !is(f, '|') {
			return fail(shape)
		}
		return split(single(f.k)...)
	case "BETA_IMPLY":
		if !is(f, '>') {
			return fail(shape)
		}
		return split([]*pf{pnot(f.k[0])}, []*pf{f.k[1]})
	case "BETA_EQUIV":
		if !is(f, '<') {
			return fail(shape)
		}
		return split(neg(f.k), f.k)
	case "BETA_NOT_EQUIV":
		if !is(g, '<') {
			return fail(shape)
		}
		return split([]*pf{pnot(g.k[0]), g.k[1]}, []*pf{g.k[0], pnot(g.k[1])})
	case "REINTRODUCTION":
		if len(n.ch) != 1 || len(n.ch[0].fs) != 1 || n.ch[0].fs[0].txt() != f.txt() {
			return fail("the formula reintroduced is another one")
		}
		return [][]*pf{{f}}, ""
	}
	if len(n.ch) != 1 || len(n.ch[0].fs) != 1 {
		return fail("not exactly one formula below")
	}
	r := n.ch[0].fs[0]
	switch n.rule {
	case "GAMMA_FORALL", "DELTA_EXISTS":
		if n.rule == "GAMMA_FORALL" && f.op != '!' || n.rule != "GAMMA_FORALL" && f.op != '?' {
			return fail(shape)
		}
		x, i := instanceOf(f.k[0], r)
		if i == nil {
			return fail("the formula below is not an instance")
		}
		if n.rule == "DELTA_EXISTS" {
			return [][]*pf{{i}}, k.witness(x, f)
		}
		return [][]*pf{{i}}, ""
	case "GAMMA_NOT_EXISTS", "DELTA_NOT_FORALL":
		if n.rule == "GAMMA_NOT_EXISTS" && !is(g, '?') || n.rule != "GAMMA_NOT_EXISTS" && !is(g, '!') {
			return fail(shape)
		}
		if r.op != '~' {
			return fail("the formula below is not an instance")
		}
		x, i := instanceOf(g.k[0], r.k[0])
		if i == nil {
			return fail("the formula below is not an instance")
		}
		if n.rule == "DELTA_NOT_FORALL" {
			return [][]*pf{{pnot(i)}}, k.witness(x, &pf{op: '?', p: g.p, k: []*pf{pnot(g.k[0])}})
		}
		return [][]*pf{{pnot(i)}}, ""
	case "REWRITE":
		for _, a := range k.ax {
			if i := rewrites(a, f, r); i != nil {
				return [][]*pf{{i}}, ""
			}
		}
		return fail("no axiom allows this step")
	}
	return fail("unknown rule")
}

// witness records that the term x stands for something that makes f (an
// existential formula) true.
func (k *treeChecker) witness(x *pt, f *pf) string {
	if x == nil {
		return ""
	}
	if k.syms[x.f] || isUp(x.f[0]) && len(x.a) == 0 {
		return "the witness " + x.key() + " is not a new symbol"
	}
	t := x.key()
	if g, ok := k.sk[t]; ok && g != f.key() {
		return "the witness " + t + " stands for two different formulas"
	}
	k.sk[t], k.skT[t], k.skF[t] = f.key(), x, f
	return ""
}

// subterms of a formula or a term.
func (t *pt) each(g func(*pt)) {
	g(t)
	for _, x := range t.a {
		x.each(g)
	}
}
func (f *pf) each(g func(*pt)) {
	for _, t := range f.t {
		t.each(g)
	}
	for _, h := range f.k {
		h.each(g)
	}
}

// skolem checks that the witnesses can be chosen: none stands for a formula
// that depends on it, and (with equality) equal arguments give one formula.
func (k *treeChecker) skolem() string {
	state := map[string]int{}
	var visit func(t string) bool
	visit = func(t string) bool {
		switch state[t] {
		case 1:
			return false
		case 2:
			return true
		}
		state[t] = 1
		ok := true
		k.skF[t].each(func(x *pt) {
			if s := x.key(); ok && k.skF[s] != nil {
				ok = visit(s)
			}
		})
		state[t] = 2
		return ok
	}
	for _, t := range sortedKeys(k.sk) {
		if !visit(t) {
			return "the witness " + t + " stands for a formula that depends on it"
		}
	}
	if !k.eq {
		return ""
	}
	by := map[string][]string{}
	for _, t := range sortedKeys(k.sk) {
		by[k.skT[t].f] = append(by[k.skT[t].f], t)
	}
	for _, ts := range by {
		for i := range ts {
			for j := 0; j < i; j++ {
				if !sameScheme(k.skF[ts[i]], k.skF[ts[j]], k.skT[ts[i]], k.skT[ts[j]]) {
					return "the witnesses " + ts[i] + " and " + ts[j] + " may be equal and stand for different formulas"
				}
			}
		}
	}
	return ""
}

// sameScheme: f and g differ only where an argument of s stands for one of t.
func sameScheme(f, g *pf, s, t *pt) bool {
	if len(s.a) != len(t.a) {
		return true
	}
	pair := map[string]bool{}
	for i := range s.a {
		pair[s.a[i].key()+"\x00"+t.a[i].key()] = true
	}
	var tm func(a, b *pt) bool
	tm = func(a, b *pt) bool {
		if a.key() == b.key() || pair[a.key()+"\x00"+b.key()] {
			return true
		}
		if a.v >= 0 || b.v >= 0 || a.f != b.f || len(a.a) != len(b.a) {
			return false
		}
		for i := range a.a {
			if !tm(a.a[i], b.a[i]) {
				return false
			}
		}
		return true
	}
	var fm func(a, b *pf) bool
	fm = func(a, b *pf) bool {
		if a.op != b.op || a.p != b.p && a.op != '!' && a.op != '?' || len(a.k) != len(b.k) || len(a.t) != len(b.t) {
			return false
		}
		for i := range a.t {
			if !tm(a.t[i], b.t[i]) {
				return false
			}
		}
		for i := range a.k {
			if !fm(a.k[i], b.k[i]) {
				return false
			}
		}
		return true
	}
	return fm(f, g)
}

// closed tells whether a branch is contradictory because of f (nil: equality).
func (k *treeChecker) closed(f *pf, br []*pf, on map[string]bool) bool {
	if f != nil {
		if on[compl(f)] || on[pnot(f).key()] || f.op == 'F' || f.op == '~' && f.k[0].op == 'T' {
			return true
		}
		if f.op == '~' && f.k[0].op == '=' && f.k[0].t[0].key() == f.k[0].t[1].key() {
			return true
		}
	}
	if !k.eq {
		return false
	}
	c := newCC()
	var toT func(t *pt) Term
	toT = func(t *pt) Term {
		r := Term{V: -1, Fn: t.f}
		for _, x := range t.a {
			r.Args = append(r.Args, toT(x))
		}
		return r
	}
	type lit struct {
		pos bool
		t   Term
		u   *Term
	}
	var ls []lit
	for _, g := range br {
		l := lit{pos: true}
		if g.op == '~' {
			l.pos, g = false, g.k[0]
		}
		switch g.op {
		case 'a':
			l.t = Term{V: -1, Fn: "pred:" + g.p}
			for _, x := range g.t {
				l.t.Args = append(l.t.Args, toT(x))
			}
		case '=':
			a, b := toT(g.t[0]), toT(g.t[1])
			l.t, l.u = a, &b
			c.add(b)
		default:
			continue
		}
		c.add(l.t)
		ls = append(ls, l)
	}
	for _, l := range ls {
		if l.pos && l.u != nil {
			c.merge(l.t, *l.u)
		}
	}
	c.close()
	for _, l := range ls {
		if l.pos {
			continue
		}
		if l.u != nil {
			if c.same(l.t, *l.u) {
				return true
			}
			continue
		}
		for _, m := range ls {
			if m.pos && m.u == nil && c.same(l.t, m.t) {
				return true
			}
		}
	}
	return false
}

// nnot negates, taking away double negations.
func nnot(f *pf) *pf {
	if f.op == '~' {
		return f.k[0]
	}
	return pnot(f)
}

// rewrites tells whether the axiom a turns f into (the text) r, an instance of a
// and f entailing r, and returns what r stands for.
func rewrites(a, f, r *pf) *pf {
	n := 0
	for a.op == '!' {
		a = a.k[0]
		n++
	}
	var sides [][2]*pf
	switch a.op {
	case '<':
		A, B := a.k[0], a.k[1]
		sides = [][2]*pf{{A, B}, {B, A}, {nnot(A), nnot(B)}, {nnot(B), nnot(A)}}
	case '>':
		sides = [][2]*pf{{a.k[0], a.k[1]}, {nnot(a.k[1]), nnot(a.k[0])}}
	case 'a':
		sides = [][2]*pf{{nnot(a), {op: 'F'}}, {a, {op: 'T'}}}
	case '~':
		sides = [][2]*pf{{a.k[0], {op: 'F'}}}
	}
	for _, x := range r.readings() {
		for _, s := range sides {
			b := map[int]*pt{}
			if s[0].match(f, n, 0, b) && (s[1].match(x, n, 0, b) || nnot(nnot(s[1])).match(x, n, 0, b) || pnot(nnot(s[1])).match(x, n, 0, b)) {
				return x
			}
		}
	}
	return nil
}

// readings lists what a printed formula may stand for: a name may be that of
// the variable bound around it or of a metavariable.
func (f *pf) readings() []*pf {
	amb := 0
	var build func(g *pf, sc []string, choice int) *pf
	var term func(t *pt, sc []string, choice int) *pt
	i := 0
	term = func(t *pt, sc []string, choice int) *pt {
		for d := len(sc) - 1; d >= 0; d-- {
			if sc[d] == t.f {
				i++
				if choice>>(i-1)&1 == 0 {
					return &pt{v: len(sc) - 1 - d}
				}
				return t
			}
		}
		r := &pt{v: -1, f: t.f}
		for _, x := range t.a {
			r.a = append(r.a, term(x, sc, choice))
		}
		return r
	}
	build = func(g *pf, sc []string, choice int) *pf {
		r := &pf{op: g.op, p: g.p}
		if g.op == '!' || g.op == '?' {
			sc = append(sc[:len(sc):len(sc)], g.p)
		}
		for _, t := range g.t {
			r.t = append(r.t, term(t, sc, choice))
		}
		for _, h := range g.k {
			r.k = append(r.k, build(h, sc, choice))
		}
		return r
	}
	all := []*pf{build(f, nil, 0)}
	amb = min(i, 8)
	for ch := 1; ch < 1<<amb; ch++ {
		i = 0
		all = append(all, build(f, nil, ch))
	}
	return all
}

// match finds the values of the n outermost variables of f (below d binders) that make it g.
func (f *pf) match(g *pf, n, d int, b map[int]*pt) bool {
	if f.op != g.op || f.p != g.p && f.op != '!' && f.op != '?' || len(f.k) != len(g.k) || len(f.t) != len(g.t) {
		return false
	}
	for i := range f.t {
		if !f.t[i].match(g.t[i], n, d, b) {
			return false
		}
	}
	if f.op == '!' || f.op == '?' {
		d++
	}
	for i := range f.k {
		if !f.k[i].match(g.k[i], n, d, b) {
			return false
		}
	}
	return true
}

func (t *pt) match(u *pt, n, d int, b map[int]*pt) bool {
	if t.v >= d {
		if !u.closed(0) {
			return false
		}
		if x := b[t.v-d]; x != nil {
			return x.key() == u.key()
		}
		b[t.v-d] = u
		return true
	}
	if t.v >= 0 || u.v >= 0 {
		return t.v == u.v
	}
	if t.f != u.f || len(t.a) != len(u.a) {
		return false
	}
	for i := range t.a {
		if !t.a[i].match(u.a[i], n, d, b) {
			return false
		}
	}
	return true
}

func init() {
	checks["G14"] = func(c *Ctx) { c.treeCheck() }
}

// famNames: constants and functions whose names are quoted words with a percent sign (quotes are only printed around words which start with no letter).
func famNames() (r []*problem) {
	p := func(t Term) *Form { return Atom("p", t) }
	ns := []string{"'100%s'", "'%'", "'%d%d'"}
	for _, n := range ns {
		for _, t := range []Term{Fun(n), Fun(n, Fun("a")), Fun("f", Fun(n))} {
			r = append(r,
				&problem{conj: Imp(p(t), p(t)), fam: "names"},
				&problem{ax: []*Form{All(0, Or(p(Var(0)), Atom("q")))}, conj: Or(Atom("q"), And(p(t), p(Fun("a")))), fam: "names"},
				&problem{ax: []*Form{p(t)}, conj: Ex(0, p(Var(0))), fam: "names"})
		}
	}
	return
}

func (c *Ctx) treeCheck() {
	c.Cov["rule"] = "every valid problem of the enumerated families is proved on the real engine under the listed scheduling policies and options; every distinct proof printed is read back and checked node by node: the root is made of the problem's formulas, each node's formula is on its branch and its children are those of the rule, witnesses are new and stand for one formula each, every leaf is closed (by congruence closure when equality is used), rewriting follows an axiom"
	fo, eq, dmt := proofFamilies(c.Thorough())
	var gs []rocqGroup
	add := func(ps []classified, k, steps int, pol []int, opts ...string) {
		for n, o := range opts {
			var qs []classified
			for i, x := range ps {
				if c.Thorough() || i%k == n%k {
					qs = append(qs, x)
				}
			}
			gs = append(gs, rocqGroup{args: strings.Fields(o), ps: qs, pol: pol, steps: steps})
		}
	}
	add(fo, 1, 0, []int{0, 1, 2, 3}, "")
	add(fo, 2, 0, []int{0, 3}, "-inner", "-flatten")
	add(eq, 1, 0, []int{0, 3}, "")
	add(eq, 1, 0, []int{0}, "-inner", "-flatten", "-sateq")
	add(dmt, 1, 3000, []int{0}, "-dmt", "-dmt -polarized", "-dmt -flatten", "-dmt -inner")
	add(classifyAll(famNames(), 3), 1, 0, []int{0}, "", "-inner")
	sk := famSkolem()
	if !c.Thorough() {
		sk = sk[:min(len(sk), 60)]
	}
	for _, o := range []string{"", "-inner", "-preinner"} {
		gs = append(gs, rocqGroup{args: strings.Fields(o), ps: sk, pol: []int{0, 1}, dev: 1})
	}
	c.proofs(gs, nil, func(v vjob, out string) (string, int) { return checkTree(v.problem, out) })
}

// proofs proves the problems of the groups and judges every distinct proof.
func (c *Ctx) proofs(gs []rocqGroup, out []string, check func(v vjob, out string) (string, int)) {
	p := c.Pool("engine")
	jobs := c.proofJobs(gs, out...)
	type cand struct {
		j    *Job
		o    Outcome
		what string
	}
	var cands []cand
	seen := map[string]bool{}
	n, nodes, printed := 0, 0, 0
	p.DoList(jobs, func(j *Job, r *Result) {
		if r.Err != "" {
			fatal("engine: %s", r.Err)
		}
		v := j.meta.(vjob)
		for _, o := range r.Outcomes {
			if o.Kind != "exit" || o.Code != 0 {
				if o.Kind == "timeout" || o.Kind == "budget" || o.Kind == "hang" {
					c.Add("executions_without_a_proof", 1)
					continue
				}
				cands = append(cands, cand{j, o, "the prover breaks down: " + o.Key() + " " + short(o.Msg)})
				continue
			}
			if !positive(o.Status) {
				c.Add("executions_without_a_proof", 1)
				continue
			}
			printed++
			k := v.text() + "\x00" + o.Out
			if seen[k] {
				continue
			}
			seen[k] = true
			n++
			bad, m := check(v, o.Out)
			nodes += m
			if n%1999 == 1 {
				c.Sample(map[string]any{"problem": short(v.text()), "args": v.args, "proof": tailOf(o.Out), "verdict": bad})
			}
			if bad != "" {
				cands = append(cands, cand{j, o, "the proof printed is wrong: " + bad})
			}
		}
	})
	c.Add("evaluations", len(jobs))
	c.Add("proofs_printed", printed)
	c.Add("distinct_proofs_checked", n)
	c.Add("distinct_nontrivial", n)
	c.Add("proof_steps_checked", nodes)
	var hs []histEntry
	for _, x := range cands {
		hs = append(hs, histEntry{x.j.meta.(vjob), x.what})
	}
	histogram(hs)
	done := map[string]bool{}
	for _, x := range cands {
		v := x.j.meta.(vjob)
		key := short(strings.Join(v.args, " ") + " " + v.text())
		if done[key] || len(c.viol) >= 200 {
			continue
		}
		done[key] = true
		if !c.reproduceProof(p, x.j, x.o) {
			c.Add("unreproducible_discarded", 1)
			continue
		}
		c.Violate(key, x.what+": "+short(v.text())+" args="+fmt.Sprint(v.args), map[string]any{
			"problem": v.text(), "args": v.args, "schedule": x.o.Sched, "outcome": x.o.Key(), "message": x.o.Msg, "output": x.o.Out})
	}
}

// famSkolem: branches that introduce witnesses at the same time.
func famSkolem() []classified {
	x, y := Var(0), Var(1)
	at := func(p string, ts ...Term) *Form { return Atom(p, ts...) }
	es := []*Form{
		Ex(0, at("p", x)), Ex(0, at("q", x)), Not(All(0, Not(at("p", x)))),
		Ex(0, And(at("p", x), at("q", x))), Ex(0, Ex(1, at("r", x, y))), All(0, Ex(1, at("r", x, y))),
	}
	var ps []*problem
	for i, a := range es {
		for j, b := range es {
			for _, c := range []*Form{Or(a, b), Ex(0, Or(at("p", x), at("q", x))), Or(Ex(0, at("p", x)), Ex(0, Ex(1, at("r", x, y))))} {
				ps = append(ps, &problem{ax: []*Form{Or(a, b)}, conj: c, fam: "skolem"})
				if i < 3 && j < 3 {
					ps = append(ps, &problem{ax: []*Form{All(0, Imp(at("r", x, x), Or(Ex(1, at("p", y)), b))), All(0, at("r", x, x))}, conj: c, fam: "skolem"})
				}
			}
		}
	}
	var r []classified
	for _, c := range classifyAll(ps, 3) {
		if c.cl == valid {
			r = append(r, c)
		}
	}
	return r
}
