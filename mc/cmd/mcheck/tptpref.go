package main

import (
	"fmt"
	"strconv"
	"strings"
)

// A reference reader for the first-order (fof) part of TPTP, written from the
// published grammar (SyntaxBNF 8.x) and sharing nothing with the prover's.

type rtok struct {
	k string // lower upper squote dquote dollar int rat real punct end
	s string
}

type rerr struct{ s string }

func isLow(c byte) bool { return c >= 'a' && c <= 'z' }
func isUp(c byte) bool  { return c >= 'A' && c <= 'Z' }
func isDig(c byte) bool { return c >= '0' && c <= '9' }
func isAln(c byte) bool { return isLow(c) || isUp(c) || isDig(c) || c == '_' }

func refLex(s string) (ts []rtok, err error) {
	i := 0
	at := func(j int) byte {
		if j < len(s) {
			return s[j]
		}
		return 0
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '%':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '/' && at(i+1) == '*':
			e := strings.Index(s[i+2:], "*/")
			if e < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += e + 4
		case isLow(c) || isUp(c):
			j := i
			for isAln(at(j)) {
				j++
			}
			k := "lower"
			if isUp(c) {
				k = "upper"
			}
			ts = append(ts, rtok{k, s[i:j]})
			i = j
		case c == '$':
			j := i + 1
			if at(j) == '$' {
				j++
			}
			for isAln(at(j)) {
				j++
			}
			ts = append(ts, rtok{"dollar", s[i:j]})
			i = j
		case c == '\'' || c == '"':
			j := i + 1
			for at(j) != c {
				if j >= len(s) || s[j] < 32 || s[j] > 126 {
					return nil, fmt.Errorf("bad quoted word")
				}
				if s[j] == '\\' {
					j++
					if at(j) != '\\' && at(j) != c {
						return nil, fmt.Errorf("bad escape")
					}
				}
				j++
			}
			if c == '\'' && j == i+1 {
				return nil, fmt.Errorf("empty quoted word")
			}
			k := "squote"
			if c == '"' {
				k = "dquote"
			}
			ts = append(ts, rtok{k, s[i : j+1]})
			i = j + 1
		case isDig(c) || (c == '-' || c == '+') && isDig(at(i+1)):
			j := i
			if !isDig(c) {
				j++
			}
			dec := func(j int) int {
				if at(j) == '0' {
					return j + 1
				}
				for isDig(at(j)) {
					j++
				}
				return j
			}
			j = dec(j)
			k := "int"
			if at(j) == '/' && at(j+1) >= '1' && at(j+1) <= '9' {
				k, j = "rat", dec(j+1)
			} else {
				if at(j) == '.' && isDig(at(j+1)) {
					k = "real"
					j++
					for isDig(at(j)) {
						j++
					}
				}
				if at(j) == 'E' || at(j) == 'e' {
					e := j + 1
					if at(e) == '+' || at(e) == '-' {
						e++
					}
					if isDig(at(e)) {
						k = "real"
						for isDig(at(e)) {
							e++
						}
						j = e
					}
				}
			}
			ts = append(ts, rtok{k, s[i:j]})
			i = j
		default:
			ok := false
			for _, p := range []string{"<=>", "<~>", "=>", "<=", "~|", "~&", "!=", "!", "?", "~", "|", "&", "=", "(", ")", "[", "]", ",", ".", ":"} {
				if strings.HasPrefix(s[i:], p) {
					ts = append(ts, rtok{"punct", p})
					i += len(p)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("unexpected character %q", c)
			}
		}
	}
	return append(ts, rtok{"end", ""}), nil
}

type rparser struct {
	ts     []rtok
	i      int
	env    []string
	ids    []int
	dollar bool // system symbols occur
}

type rstmt struct {
	name, role string
	f          *Form
	incl       string
	sel        []string // nil: everything
	sys        bool     // $-words occur: the prover may refuse them
	hasSel     bool
}

func (p *rparser) peek() rtok { return p.ts[p.i] }
func (p *rparser) is(s string) bool {
	return p.ts[p.i].k == "punct" && p.ts[p.i].s == s
}
func (p *rparser) fail(s string) {
	panic(rerr{s + " at " + p.peek().s})
}
func (p *rparser) eat(s string) {
	if !p.is(s) {
		p.fail("expected " + s)
	}
	p.i++
}
func (p *rparser) next() rtok { t := p.ts[p.i]; p.i++; return t }

func rname(t rtok) string {
	if t.k == "squote" {
		c := t.s[1 : len(t.s)-1]
		ok := len(c) > 0 && isLow(c[0])
		for j := 0; j < len(c); j++ {
			ok = ok && isAln(c[j])
		}
		if ok {
			return c
		}
	}
	return t.s
}

// refParse reads a problem; nil and an error if the text is not TPTP.
func refParse(s string) (r []rstmt, err error) {
	ts, err := refLex(s)
	if err != nil {
		return nil, err
	}
	p := &rparser{ts: ts}
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(rerr); ok {
				r, err = nil, fmt.Errorf("%s", x.s)
				return
			}
			panic(e)
		}
	}()
	for p.peek().k != "end" {
		t := p.next()
		if t.k != "lower" {
			p.fail("statement")
		}
		switch t.s {
		case "fof":
			p.eat("(")
			st := rstmt{name: p.stName()}
			p.eat(",")
			if p.peek().k != "lower" {
				p.fail("role")
			}
			st.role = p.next().s
			p.eat(",")
			p.dollar = false
			st.f = p.logic()
			st.sys = p.dollar
			if p.is(",") {
				p.i++
				p.general()
				if p.is(",") {
					p.i++
					if !p.is("[") {
						p.fail("useful info")
					}
					p.general()
				}
			}
			p.eat(")")
			p.eat(".")
			r = append(r, st)
		case "include":
			p.eat("(")
			if p.peek().k != "squote" {
				p.fail("file name")
			}
			f := p.next().s
			st := rstmt{incl: f[1 : len(f)-1]}
			if p.is(",") {
				p.i++
				st.hasSel = true
				p.eat("[")
				st.sel = append(st.sel, p.stName())
				for p.is(",") {
					p.i++
					st.sel = append(st.sel, p.stName())
				}
				p.eat("]")
			}
			p.eat(")")
			p.eat(".")
			r = append(r, st)
		default:
			p.fail("statement")
		}
	}
	return r, nil
}

func (p *rparser) stName() string {
	t := p.next()
	if t.k != "lower" && t.k != "squote" && t.k != "int" {
		p.fail("name")
	}
	return rname(t)
}

func (p *rparser) general() {
	if p.is("[") {
		p.i++
		if p.is("]") {
			p.i++
			return
		}
		p.general()
		for p.is(",") {
			p.i++
			p.general()
		}
		p.eat("]")
		return
	}
	t := p.next()
	switch t.k {
	case "lower", "squote":
		if p.is("(") {
			p.i++
			p.general()
			for p.is(",") {
				p.i++
				p.general()
			}
			p.eat(")")
		}
	case "upper", "int", "rat", "real", "dquote":
	default:
		p.fail("general term")
	}
	if p.is(":") {
		p.i++
		p.general()
	}
}

func (p *rparser) logic() *Form {
	a := p.unit()
	ops := map[string]Op{"<=>": OEquiv, "=>": OImp, "<=": ORev, "<~>": OXor, "~|": ONor, "~&": ONand}
	t := p.peek()
	if t.k != "punct" {
		return a
	}
	if o, ok := ops[t.s]; ok {
		p.i++
		return Bin(o, a, p.unit())
	}
	if t.s == "|" || t.s == "&" {
		o := OOr
		if t.s == "&" {
			o = OAnd
		}
		for p.is(t.s) {
			p.i++
			a = Bin(o, a, p.unit())
		}
	}
	return a
}

func (p *rparser) unit() *Form {
	switch {
	case p.is("~"):
		p.i++
		return Not(p.unit())
	case p.is("("):
		p.i++
		f := p.logic()
		p.eat(")")
		return f
	case p.is("!") || p.is("?"):
		all := p.next().s == "!"
		p.eat("[")
		n0 := len(p.env)
		for {
			if p.peek().k != "upper" {
				p.fail("variable")
			}
			p.env = append(p.env, p.next().s)
			p.ids = append(p.ids, len(p.ids))
			if !p.is(",") {
				break
			}
			p.i++
		}
		p.eat("]")
		p.eat(":")
		f := p.unit()
		for i := len(p.env) - 1; i >= n0; i-- {
			if all {
				f = All(p.ids[i], f)
			} else {
				f = Ex(p.ids[i], f)
			}
		}
		p.env, p.ids = p.env[:n0], p.ids[:n0]
		return f
	}
	t := p.peek()
	if t.k == "dollar" {
		switch t.s {
		case "$true", "$false":
			p.i++
			if t.s == "$true" {
				return &Form{Op: OTop}
			}
			return &Form{Op: OBot}
		}
	}
	x := p.term()
	if p.is("=") {
		p.i++
		return Eq(x, p.term())
	}
	if p.is("!=") {
		p.i++
		return Not(Eq(x, p.term()))
	}
	if t.k != "lower" && t.k != "squote" && t.k != "dollar" {
		p.fail("atom")
	}
	return &Form{Op: OAtom, P: x.Fn, T: x.Args}
}

func (p *rparser) term() Term {
	t := p.next()
	switch t.k {
	case "upper":
		for i := len(p.env) - 1; i >= 0; i-- {
			if p.env[i] == t.s {
				return Var(p.ids[i])
			}
		}
		panic(rerr{"free variable " + t.s})
	case "int", "rat", "real", "dquote":
		return Fun(t.s)
	case "lower", "squote", "dollar":
		if t.k == "dollar" {
			if strings.HasPrefix(t.s, "$$") || t.s == "$true" || t.s == "$false" || t.s == "$fof" || t.s == "$fot" || t.s == "$tff" {
				p.i--
				p.fail("term")
			}
			p.dollar = true
		}
		r := Fun(rname(t))
		if p.is("(") {
			p.i++
			r.Args = append(r.Args, p.term())
			for p.is(",") {
				p.i++
				r.Args = append(r.Args, p.term())
			}
			p.eat(")")
		}
		return r
	}
	p.i--
	p.fail("term")
	return Term{}
}

// refProblem puts the statements together. ok is false when a role has no
// fixed meaning or there is more than one conjecture.
func refProblem(ss []rstmt) (f *Form, conj, ok bool) {
	var ax []*Form
	var neg *Form
	for _, s := range ss {
		switch s.role {
		case "axiom", "hypothesis", "definition", "assumption", "lemma", "theorem":
			ax = append(ax, s.f)
		case "conjecture", "negated_conjecture":
			if neg != nil {
				return nil, false, false
			}
			neg = s.f
			if s.role == "conjecture" {
				neg = Not(s.f)
			}
			conj = true
		default:
			return nil, false, false
		}
	}
	if neg != nil {
		ax = append(ax, neg)
	}
	if len(ax) == 0 {
		return nil, false, true
	}
	return Conj(ax), conj, true
}

// ------------------------------------------------------------ loader dumps

type sexp struct {
	atom string
	str  bool
	l    []*sexp
}

func parseSexp(s string) (*sexp, error) {
	i := 0
	var rec func() (*sexp, error)
	rec = func() (*sexp, error) {
		for i < len(s) && s[i] == ' ' {
			i++
		}
		if i >= len(s) {
			return nil, fmt.Errorf("end of dump")
		}
		if s[i] == '(' {
			i++
			r := &sexp{l: []*sexp{}}
			for {
				for i < len(s) && s[i] == ' ' {
					i++
				}
				if i >= len(s) {
					return nil, fmt.Errorf("end of dump")
				}
				if s[i] == ')' {
					i++
					return r, nil
				}
				x, err := rec()
				if err != nil {
					return nil, err
				}
				r.l = append(r.l, x)
			}
		}
		if s[i] == '"' {
			q, err := strconv.QuotedPrefix(s[i:])
			if err != nil {
				return nil, err
			}
			i += len(q)
			u, err := strconv.Unquote(q)
			return &sexp{atom: u, str: true}, err
		}
		j := i
		for i < len(s) && s[i] != ' ' && s[i] != '(' && s[i] != ')' {
			i++
		}
		return &sexp{atom: s[j:i]}, nil
	}
	return rec()
}

type dumpReader struct {
	env  []string
	ids  []int
	free string
}

func (d *dumpReader) term(x *sexp) Term {
	switch x.l[0].atom {
	case "v":
		k := x.l[1].atom + "#" + x.l[2].atom
		for i := len(d.env) - 1; i >= 0; i-- {
			if d.env[i] == k {
				return Var(d.ids[i])
			}
		}
		d.free = "unbound variable " + k
		return Fun("unbound " + k)
	case "f":
		r := Fun(x.l[1].atom)
		for _, a := range x.l[3:] {
			r.Args = append(r.Args, d.term(a))
		}
		return r
	}
	d.free = "unknown term " + x.l[1].atom
	return Fun("unknown")
}

func (d *dumpReader) form(x *sexp) *Form {
	var ks []*Form
	kids := func() {
		for _, k := range x.l[1:] {
			ks = append(ks, d.form(k))
		}
	}
	switch x.l[0].atom {
	case "top":
		return &Form{Op: OTop}
	case "bot":
		return &Form{Op: OBot}
	case "not":
		return Not(d.form(x.l[1]))
	case "and", "or", "imp", "equ":
		kids()
		o := map[string]Op{"and": OAnd, "or": OOr, "imp": OImp, "equ": OEquiv}[x.l[0].atom]
		if len(ks) == 0 {
			if o == OAnd {
				return &Form{Op: OTop}
			}
			return &Form{Op: OBot}
		}
		r := ks[0]
		for _, k := range ks[1:] {
			r = Bin(o, r, k)
		}
		return r
	case "all", "ex":
		n0 := len(d.env)
		v := x.l[1].l
		for i := 0; i+2 < len(v); i += 3 {
			d.env = append(d.env, v[i].atom+"#"+v[i+1].atom)
			d.ids = append(d.ids, len(d.ids))
		}
		f := d.form(x.l[2])
		for i := len(d.env) - 1; i >= n0; i-- {
			if x.l[0].atom == "all" {
				f = All(d.ids[i], f)
			} else {
				f = Ex(d.ids[i], f)
			}
		}
		d.env, d.ids = d.env[:n0], d.ids[:n0]
		return f
	case "p":
		var ts []Term
		for _, a := range x.l[3:] {
			ts = append(ts, d.term(a))
		}
		if x.l[1].atom == "=" && len(ts) == 2 {
			return Eq(ts[0], ts[1])
		}
		return &Form{Op: OAtom, P: x.l[1].atom, T: ts}
	}
	d.free = "unknown formula " + x.l[1].atom
	return &Form{Op: OTop}
}

// mapNames applies f to every symbol (kind 'f' or 'p', arity, name).
func (t Term) mapNames(f func(kind byte, ar int, n string) string) Term {
	if t.V >= 0 {
		return t
	}
	r := Fun(f('f', len(t.Args), t.Fn))
	for _, a := range t.Args {
		r.Args = append(r.Args, a.mapNames(f))
	}
	return r
}

func (f *Form) mapNames(g func(kind byte, ar int, n string) string) *Form {
	if f == nil {
		return nil
	}
	r := *f
	r.A, r.B = f.A.mapNames(g), f.B.mapNames(g)
	r.T = nil
	for _, t := range f.T {
		r.T = append(r.T, t.mapNames(g))
	}
	if f.Op == OAtom {
		r.P = g('p', len(f.T), f.P)
	}
	return &r
}

// sameReading compares what the loader built with what the text says; "" when
// they agree.
func sameReading(ref *Form, dump string, size, lim int) string {
	x, err := parseSexp(dump)
	if err != nil || len(x.l) == 0 {
		return "unreadable dump: " + dump
	}
	d := &dumpReader{}
	got := d.form(x)
	if d.free != "" {
		return "the formula read has an " + d.free
	}
	have := map[string]bool{}
	got.mapNames(func(k byte, a int, n string) string { have[fmt.Sprintf("%c%d %s", k, a, n)] = true; return n })
	ren := map[string]string{}
	back := map[string]string{}
	bad := ""
	pend := map[string]string{}
	ref.mapNames(func(k byte, a int, n string) string {
		key := fmt.Sprintf("%c%d %s", k, a, n)
		if _, ok := ren[key]; ok {
			return n
		}
		c := []string{n}
		if n[0] == '\'' || n[0] == '"' {
			c = append(c, n[1:len(n)-1])
			dec := strings.NewReplacer("\\\\", "\\", "\\'", "'", "\\\"", "\"")
			c = append(c, dec.Replace(n), dec.Replace(n[1:len(n)-1]))
		}
		ren[key] = n
		for _, m := range c {
			mk := fmt.Sprintf("%c%d %s", k, a, m)
			if have[mk] {
				if o, ok := back[mk]; ok && o != key {
					bad = fmt.Sprintf("the distinct symbols %s and %s are read as one", o, key)
				}
				back[mk] = key
				ren[key] = m
				return n
			}
		}
		if strings.Contains(n, "\\") {
			pend[key] = fmt.Sprintf("%c%d ", k, a)
		}
		return n
	})
	for _, key := range sortedKeys(pend) {
		var un []string
		for h := range have {
			if _, ok := back[h]; !ok && strings.HasPrefix(h, pend[key]) {
				un = append(un, h)
			}
		}
		if len(un) == 1 && len(pend) == 1 {
			ren[key] = un[0][len(pend[key]):]
			back[un[0]] = key
		} else if len(pend) > len(un) && len(pend) > 1 {
			return "distinct quoted symbols are read as one"
		} else if len(pend) > 1 {
			return "" // several escaped symbols: no way to pair them up here
		}
	}
	if bad != "" {
		return bad
	}
	ar := func(k byte, a int, n string) string { return fmt.Sprintf("%s/%d", n, a) }
	r2 := ref.mapNames(func(k byte, a int, n string) string { return ar(k, a, ren[fmt.Sprintf("%c%d %s", k, a, n)]) })
	g2 := got.mapNames(ar)
	if desc, found, _ := Countermodel(Bin(OEquiv, r2, g2), size, lim); found {
		return fmt.Sprintf("read as %s, means %s; they differ in the model: %s", g2, r2, desc)
	}
	return ""
}
