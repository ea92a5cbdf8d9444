package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// rtext is one problem text of the parsing check.
type rtext struct {
	text  string
	fam   string
	files map[string]string // further files
}

type rstyle int

// toks prints a formula as a token list.
func (f *Form) toks(style rstyle, vn []string) []string {
	var r []string
	var term func(t Term)
	term = func(t Term) {
		if t.V >= 0 {
			r = append(r, vn[t.V])
			return
		}
		r = append(r, t.Fn)
		if len(t.Args) > 0 {
			r = append(r, "(")
			for i, a := range t.Args {
				if i > 0 {
					r = append(r, ",")
				}
				term(a)
			}
			r = append(r, ")")
		}
	}
	// ctx: 0 a whole formula, 1 an operand, 2 the left operand of the same chain
	var rec func(f *Form, operand bool, chain Op)
	rec = func(f *Form, operand bool, chain Op) {
		par := style == 3
		bin := false
		switch f.Op {
		case OAnd, OOr:
			bin = true
			if operand && (style == 0 || f.Op != chain) {
				par = true
			}
		case OImp, OEquiv, ORev, OXor, ONor, ONand:
			bin = true
			par = par || operand
		case OAll, OEx:
			par = par || style == 0
		case OEq:
			par = par || style == 0
		}
		if par {
			r = append(r, "(")
			defer func() { r = append(r, ")") }()
		}
		switch {
		case bin:
			c := Op(-1)
			if f.Op == OAnd || f.Op == OOr {
				c = f.Op
			}
			rec(f.A, true, c)
			r = append(r, opStr[f.Op])
			rec(f.B, true, -1)
		case f.Op == ONot && f.A.Op == OEq && style != 0 && style != 3:
			term(f.A.T[0])
			r = append(r, "!=")
			term(f.A.T[1])
		case f.Op == ONot:
			r = append(r, "~")
			rec(f.A, true, -1)
		case f.Op == OAll || f.Op == OEx:
			q := "!"
			if f.Op == OEx {
				q = "?"
			}
			r = append(r, q, "[", vn[f.V])
			b := f.A
			if style == 1 || style == 2 {
				for b.Op == f.Op {
					r = append(r, ",", vn[b.V])
					b = b.A
				}
			}
			r = append(r, "]", ":")
			rec(b, true, -1)
		case f.Op == OEq:
			term(f.T[0])
			r = append(r, "=")
			term(f.T[1])
		case f.Op == OTop:
			r = append(r, "$true")
		case f.Op == OBot:
			r = append(r, "$false")
		default:
			term(Term{V: -1, Fn: f.P, Args: f.T})
		}
	}
	rec(f, false, -1)
	return r
}

func joinToks(ts []string, style rstyle) string {
	switch style {
	case 1:
		var b strings.Builder
		for i, t := range ts {
			if i > 0 && isAln(t[0]) && isAln(ts[i-1][len(ts[i-1])-1]) {
				b.WriteByte(' ')
			}
			// two operators that would merge into a longer token
			if i > 0 && (ts[i-1] == "~" && (t[0] == '&' || t[0] == '|') || ts[i-1] == "<=" && t[0] == '>' || ts[i-1] == "=" && t[0] == '>' || ts[i-1] == "!" && t[0] == '=') {
				b.WriteByte(' ')
			}
			b.WriteString(t)
		}
		return b.String()
	case 2:
		return strings.Join(ts, "\n\t % it's \"( a comment => ,\n /* ** / & */ ")
	}
	return strings.Join(ts, " ")
}

var stdVars = []string{"X", "Y", "Z", "X1", "X_y", "Xx"}

func wrapF(body string) string { return "fof(c,conjecture," + body + ")." }

func parseTrees(th bool) (r []rtext) {
	x := Var(0)
	a, b := Fun("a"), Fun("b")
	leaf := []*Form{Atom("p"), Not(Atom("q")), {Op: OTop}, {Op: OBot}, Eq(a, b), Not(Eq(a, Fun("f", b))), Atom("r", a, Fun("f", a)), All(0, Atom("s", x)), Ex(0, Not(Atom("s", x))), Not(Not(Atom("p")))}
	few := []*Form{Atom("p"), Not(Atom("q")), All(0, Atom("s", x))}
	if th {
		few = append(few, Not(Eq(a, b)), Ex(0, Atom("s", x)))
	}
	var fs []*Form
	fs = append(fs, leaf...)
	for _, o := range binOps {
		for _, l := range leaf {
			for _, m := range leaf {
				fs = append(fs, Bin(o, l, m), Not(Bin(o, l, m)))
			}
		}
	}
	var one []*Form
	for _, o := range binOps {
		for _, l := range few {
			for _, m := range few {
				one = append(one, Bin(o, l, m))
			}
		}
	}
	for _, o := range binOps {
		for _, g := range one {
			for _, l := range few {
				fs = append(fs, Bin(o, g, l), Bin(o, l, g), Not(Bin(o, Not(g), l)))
			}
		}
	}
	// quantifiers: nesting, shadowing, lists, scope against connectives
	y := Var(1)
	ats := []*Form{Atom("r", x, y), Atom("r", y, x), Eq(x, y), Atom("s", x)}
	for q := 0; q < 4; q++ {
		for _, at := range ats {
			for _, o := range binOps {
				in := All(1, at)
				if q&1 == 1 {
					in = Ex(1, at)
				}
				w := func(f *Form) *Form {
					if q&2 == 2 {
						return Ex(0, f)
					}
					return All(0, f)
				}
				fs = append(fs, w(in), w(Bin(o, in, Atom("s", x))), w(Bin(o, Atom("s", x), in)), Bin(o, w(in), Atom("p")), w(Not(in)), Not(w(in)),
					w(Bin(o, w(Atom("s", x)), Atom("s", x))), w(Bin(o, Atom("s", x), w(Atom("s", x)))), w(w(Bin(o, Atom("s", x), Atom("t", x)))))
			}
		}
	}
	for _, f := range fs {
		for st := rstyle(0); st < 4; st++ {
			r = append(r, rtext{text: wrapF(joinToks(f.toks(st, stdVars), st)), fam: "tree"})
		}
	}
	return
}

// parseSeqs: every sequence of at most n tokens as the formula.
func parseSeqs(toks []string, n int, sep, fam string) (r []rtext) {
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) > 0 {
			r = append(r, rtext{text: wrapF(strings.Join(cur, sep)), fam: fam})
		}
		if len(cur) == n {
			return
		}
		for _, t := range toks {
			rec(append(cur[:len(cur):len(cur)], t))
		}
	}
	rec(nil)
	return
}

// parseChars: every string of at most n characters in several places.
func parseChars(chars string, n int, ctx ...string) (r []rtext) {
	var rec func(cur string)
	rec = func(cur string) {
		for _, c := range ctx {
			r = append(r, rtext{text: strings.Replace(c, "@", cur, 1), fam: "chars"})
		}
		if len(cur) == n {
			return
		}
		for i := range chars {
			rec(cur + chars[i:i+1])
		}
	}
	rec("")
	return
}

// parseNames: the meaning does not depend on the names of the variables.
func parseNames(m int) (r []rtext) {
	var ns []string
	for i := 0; i < m; i++ {
		ns = append(ns, fmt.Sprintf("X%d", i))
	}
	x, y, z := Var(0), Var(1), Var(2)
	for _, n := range ns {
		for q := 0; q < 8; q++ {
			f := Atom("r", x, Fun("g", y, z))
			for i := 2; i >= 0; i-- {
				if q>>i&1 == 1 {
					f = Ex(i, f)
				} else {
					f = All(i, f)
				}
			}
			for _, v := range [][]string{{n, "X", "Y"}, {"X", n, "Y"}, {"X", "Y", n}, {n, "X", "X1"}} {
				if v[0] == v[1] || v[1] == v[2] || v[0] == v[2] {
					continue
				}
				r = append(r, rtext{text: wrapF(joinToks(f.toks(0, v), 0)), fam: "names"})
			}
		}
		f := All(0, Imp(Atom("s", x), Ex(1, Atom("r", x, y))))
		g := All(1, Imp(Ex(0, Atom("r", x, y)), Atom("s", y)))
		r = append(r, rtext{text: "fof(a1,axiom," + joinToks(f.toks(0, []string{n, "X"}), 0) + ").\nfof(a2,axiom," + joinToks(g.toks(0, []string{"X", n}), 0) + ").\n" + wrapF(joinToks(f.toks(1, []string{"X", n}), 1)), fam: "names"})
	}
	return
}

// parseStmts: statement level: roles, names, annotations, separators.
func parseStmts() (r []rtext) {
	roles := []string{"axiom", "hypothesis", "definition", "assumption", "lemma", "theorem", "conjecture", "negated_conjecture"}
	names := []string{"a", "ax_1", "'quoted name'", "12", "fof", "conjecture"}
	ann := []string{"", ",file('x.p',a1)", ",unknown,[]", ",inference(i,[status(thm)],[a,b:c]),[x(Y),\"d\",1.5]"}
	seps := []string{"", "\n", " ", "\r\n", "%c\n", "/*c*/", "\n% fof(z,axiom,$false).\n", "/* fof(z,axiom,$false).\n*/", "%\tfof(z,axiom,$false).\n", "/***/", "/* * / ** */"}
	st := func(n, ro, f, an string) string { return "fof(" + n + "," + ro + "," + f + an + ")." }
	for _, r1 := range roles {
		for _, n := range names {
			for _, an := range ann {
				r = append(r, rtext{text: st(n, r1, "p & ~ q", an), fam: "statements"})
			}
		}
		for _, r2 := range roles {
			for _, s := range seps {
				r = append(r, rtext{text: st("n1", r1, "(p|q)", "") + s + st("n2", r2, "q", ""), fam: "statements"})
				r = append(r, rtext{text: s + st("n1", r1, "(p|q)", "") + s + st("n2", "axiom", "r(a)", "") + s + st("n3", r2, "q", "") + s, fam: "statements"})
			}
		}
	}
	return
}

func init() {
	checks["G11"] = func(c *Ctx) {
		c.Cov["rule"] = "every text of the listed families is read by the prover's own loader (main without the search) and by a reference reader written from the TPTP grammar; the formula built and the meaning of the text are compared in every interpretation of size at most 2, and texts outside the grammar must be refused; non-trivial: the text is well formed"
		th := c.Thorough()
		n := 5
		if th {
			n = 6
		}
		var ts []rtext
		ts = append(ts, parseTrees(th)...)
		ts = append(ts, parseSeqs([]string{"p", "q", "(", ")", "~", "&", "|", "=>", "<=", "<~>"}, n-1, " ", "tokens")...)
		ts = append(ts, parseSeqs([]string{"p", "(", ")", "~", "&", "|", "=>", "<=>"}, n, "", "tokens")...)
		ts = append(ts, parseSeqs([]string{"![X]:", "? [X] : ", "p(", "X", ")", ",", "f(", "a", "=", "!="}, n-1, "", "tokens")...)
		ts = append(ts, parseSeqs([]string{"! [X] :", "? [X,Y] :", "s(X)", "Y = a", "~", "(", ")", "&", "=>"}, n, " ", "tokens")...)
		k := 3
		if th {
			k = 4
		}
		ts = append(ts, parseChars("aB10.'\"\\/*%$ \n-+_E", k, "fof(c,conjecture,p(@)).", "fof(a,axiom,p).@fof(c,conjecture,q).")...)
		ts = append(ts, parseChars("a10./E+-", k+1, "fof(a,axiom,p(1)).\nfof(c,conjecture,p(@)).")...)
		ts = append(ts, parseChars("a'\"\\ 1", k+2, "fof(a,axiom,p(a)&p(1)).\nfof(c,conjecture,p(@)).")...)
		ts = append(ts, parseChars("@#^`;{}&<>\t\x01\xc3", 1, "fof(a,axiom,p).@ fof(c,conjecture,q).", "fof(a,axiom,p @ ).", "% @ fof(z,axiom,$false).\nfof(a,axiom,p).", "/* @ fof(z,axiom,$false). */fof(a,axiom,p).")...)
		ts = append(ts, parseNames(40)...)
		ts = append(ts, parseStmts()...)
		if f := os.Getenv("G11_FAM"); f != "" {
			var u []rtext
			for _, t := range ts {
				if t.fam == f {
					u = append(u, t)
				}
			}
			ts = u
		}
		c.readTexts(ts)
	}
}

func (c *Ctx) readTexts(ts []rtext) {
	if _, err := os.Stat(filepath.Join(c.Build, "dumper")); err != nil {
		fatal("the loader cannot be built into the engine")
	}
	seen := map[string]bool{}
	var jobs []*Job
	for _, t := range ts {
		if seen[t.text] && t.files == nil {
			continue
		}
		seen[t.text] = true
		fs := map[string]string{"p.p": t.text}
		for k, v := range t.files {
			fs[k] = v
		}
		jobs = append(jobs, &Job{Unit: "load", Args: []string{"p.p"}, Files: fs, MaxSteps: 20000, MaxMs: 10000, meta: t})
	}
	c.Cov["texts"] = len(jobs)
	p := c.Pool("dumper")
	p.WallMax = 30 * time.Second
	cnt := map[string]int{}
	nontriv := 0
	for _, v := range c.readJobs(p, jobs, cnt, &nontriv) {
		c.Violate(v.Key, v.What, v.Replay)
	}
	c.Cov["distinct_nontrivial"] = nontriv
	c.Cov["texts_by_family_and_answer"] = cnt
}

// readJobs runs the loader on every job; f is called in several goroutines.
func (c *Ctx) readJobs(p *Pool, jobs []*Job, cnt map[string]int, nontriv *int) (vs []violation) {
	type done struct {
		j *Job
		r *Result
	}
	p.DoList(jobs, func(j *Job, r *Result) {
		t := j.meta.(rtext)
		ss, err := refParse(t.text)
		var f *Form
		ok, sys := true, false
		if err == nil {
			for i := range ss {
				sys = sys || ss[i].sys
				if ss[i].incl != "" {
					ok = false
				}
			}
			if ok {
				f, _, ok = refProblem(ss)
			}
		}
		bad := func(s string) {
			vs = append(vs, violation{t.text, s, map[string]any{"text": t.text, "files": t.files}})
		}
		for _, o := range r.Outcomes {
			acc := o.Out != "" && o.Kind == "exit" && o.Code == 0
			cnt[fmt.Sprintf("%s well-formed=%v accepted=%v", t.fam, err == nil, acc)]++
			if o.Kind == "hang" || o.Kind == "timeout" {
				continue
			}
			switch {
			case err != nil && strings.HasPrefix(err.Error(), "free variable"):
			case err != nil:
				if acc {
					bad(fmt.Sprintf("the text is not TPTP (%v) and is read as %s", err, o.Out))
				}
			case !ok:
				if acc {
					bad("several conjectures or a role without meaning, read as " + o.Out)
				}
			case f == nil: // no statement
			case !acc && sys:
			case !acc:
				bad(fmt.Sprintf("well-formed text refused: %s %d %s", o.Kind, o.Code, tailOf(o.Msg)))
			default:
				*nontriv++
				d := o.Out
				d = d[strings.Index(d, "("):]
				if w := sameReading(f, d, 2, 20000); w != "" {
					bad(w)
				}
				if *nontriv%4001 == 1 {
					c.Sample(map[string]any{"text": t.text, "read": d})
				}
			}
		}
	})
	return
}
