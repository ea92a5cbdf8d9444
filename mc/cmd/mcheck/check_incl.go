package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// canonDump gives the conjuncts of a dumped formula with bound variables
// numbered by their binder, in a fixed order.
func canonDump(d string) (string, error) {
	x, err := parseSexp(d)
	if err != nil {
		return "", err
	}
	var out []string
	var pr func(x *sexp, env []string) string
	pr = func(x *sexp, env []string) string {
		switch x.l[0].atom {
		case "v":
			k := x.l[1].atom + "#" + x.l[2].atom
			for i := len(env) - 1; i >= 0; i-- {
				if env[i] == k {
					return fmt.Sprintf("v%d", i)
				}
			}
			return "free " + x.l[1].atom
		case "all", "ex":
			s := "(" + x.l[0].atom
			v := x.l[1].l
			for i := 0; i+2 < len(v); i += 3 {
				env = append(env[:len(env):len(env)], v[i].atom+"#"+v[i+1].atom)
			}
			for i := 0; i+2 < len(v); i += 3 {
				s += " " + canonTy(v[i+2].atom, env)
			}
			return s + " " + pr(x.l[2], env) + ")"
		case "p", "f":
			s := "(" + x.l[1].atom
			for _, t := range x.l[2].l {
				s += " <" + canonTy(t.atom, env) + ">"
			}
			for _, a := range x.l[3:] {
				s += " " + pr(a, env)
			}
			return s + ")"
		}
		s := "(" + x.l[0].atom
		for _, a := range x.l[1:] {
			s += " " + pr(a, env)
		}
		return s + ")"
	}
	var top func(x *sexp)
	top = func(x *sexp) {
		if len(x.l) > 0 && x.l[0].atom == "and" {
			for _, a := range x.l[1:] {
				top(a)
			}
			return
		}
		out = append(out, pr(x, nil))
	}
	top(x)
	sort.Strings(out)
	return strings.Join(out, "\n"), nil
}

// canonTy renames the bound type variables of a printed type.
func canonTy(t string, env []string) string {
	var b strings.Builder
	for i := 0; i < len(t); {
		if isUp(t[i]) && (i == 0 || !isAln(t[i-1]) && t[i-1] != '$') {
			j := i
			for j < len(t) && isAln(t[j]) {
				j++
			}
			n := t[i:j]
			for k := len(env) - 1; k >= 0; k-- {
				if strings.HasPrefix(env[k], n+"#") {
					n = fmt.Sprintf("v%d", k)
					break
				}
			}
			b.WriteString(n)
			i = j
			continue
		}
		b.WriteByte(t[i])
		i++
	}
	return b.String()
}

type inclCase struct {
	rtext
	inline string
	args   []string
}

// splits cuts the statements into a main file and included files in every way
// (contiguous blocks, nested once), over several places to put the files.
func inclCases(stmts []string, fam string) (r []inclCase) {
	n := len(stmts)
	inline := strings.Join(stmts, "\n") + "\n"
	join := func(s []string) string { return strings.Join(s, "\n") + "\n" }
	places := []struct{ ref, file, ref2, file2 string }{
		{"a.ax", "a.ax", "b.ax", "b.ax"},
		{"sub/a.ax", "sub/a.ax", "b.ax", "sub/b.ax"},
		{"sub/a.ax", "sub/a.ax", "deep/b.ax", "sub/deep/b.ax"},
		{"sub/deep/a.ax", "sub/deep/a.ax", "../b.ax", "sub/b.ax"},
		{"Axioms/a.ax", "tptp/Axioms/a.ax", "Axioms/b.ax", "tptp/Axioms/b.ax"},
		{"./a.ax", "a.ax", "../w/b.ax", "../w/b.ax"},
	}
	add := func(main string, fs map[string]string, more string, args ...string) {
		r = append(r, inclCase{rtext{text: main, fam: fam + more, files: fs}, inline, args})
	}
	for i := 0; i <= n; i++ {
		for j := i; j <= n; j++ {
			for _, p := range places[:5] {
				inc := "include('" + p.ref + "')."
				m := join(append(append(append([]string{}, stmts[:i]...), inc), stmts[j:]...))
				add(m, map[string]string{p.file: join(stmts[i:j])}, "")
				if i == 0 {
					add(m, map[string]string{p.file: join(stmts[i:j])}, " -l", "-l", "1")
				}
				// nested
				for k := i; k <= j; k++ {
					for l := k; l <= j; l++ {
						if (l-k == 0 || l-k == j-i) && k != i {
							continue
						}
						a := join(append(append(append([]string{}, stmts[i:k]...), "include('"+p.ref2+"')."), stmts[l:j]...))
						add(m, map[string]string{p.file: a, p.file2: join(stmts[k:l])}, " nested")
					}
				}
			}
		}
	}
	// two included files
	for i := 0; i <= n; i++ {
		for j := i; j <= n; j++ {
			m := join(append([]string{"include('a.ax').", "include('b.ax')."}, stmts[j:]...))
			add(m, map[string]string{"a.ax": join(stmts[:i]), "b.ax": join(stmts[i:j])}, " two")
			m = join(append(append([]string{}, stmts[j:]...), "include('a.ax').", "include('b.ax')."))
			if !strings.Contains(fam, "typed") {
				add(m, map[string]string{"a.ax": join(stmts[:i]), "b.ax": join(stmts[i:j])}, " after")
			}
		}
	}
	return
}

func stmtName(s string) string {
	a := strings.Index(s, "(")
	b := strings.Index(s, ",")
	return s[a+1 : b]
}

// selCases: every formula selection.
func selCases(ax []string, conj string) (r []inclCase) {
	for m := 1; m < 1<<len(ax); m++ {
		var sel, in []string
		for i, s := range ax {
			if m>>i&1 == 1 {
				sel = append(sel, stmtName(s))
				in = append(in, s)
			}
		}
		file := map[string]string{"a.ax": strings.Join(ax, "\n")}
		add := func(names []string, in []string) {
			r = append(r, inclCase{rtext{text: "include('a.ax',[" + strings.Join(names, ",") + "]).\n" + conj + "\n", fam: "selection", files: file}, strings.Join(in, "\n") + "\n" + conj + "\n", nil})
		}
		add(sel, in)
		rev := append([]string{}, sel...)
		sort.Sort(sort.Reverse(sort.StringSlice(rev)))
		add(rev, in)
		// a selection of a file that itself includes everything
		r = append(r, inclCase{rtext{text: "include('b.ax',[" + strings.Join(sel, ",") + "]).\n" + conj + "\n", fam: "selection nested",
			files: map[string]string{"a.ax": strings.Join(ax, "\n"), "b.ax": "include('a.ax').\n"}}, strings.Join(in, "\n") + "\n" + conj + "\n", nil})
	}
	return
}

func init() {
	checks["G12"] = func(c *Ctx) {
		c.Cov["rule"] = "every way to cut each listed problem into a file and included files (contiguous blocks, nested once, two files), at every listed place, and every formula selection: the loader must build the same formula as from the text with the files written in place; the verdict is compared as well; non-trivial: the problem is read"
		if _, err := os.Stat(filepath.Join(c.Build, "dumper")); err != nil {
			fatal("the loader cannot be built into the engine")
		}
		var cs []inclCase
		cs = append(cs, inclCases([]string{"fof(a1,axiom,p).", "fof(a2,axiom,(p=>q)).", "fof(a3,hypothesis,(q=>s)).", "fof(c,conjecture,s)."}, "fof")...)
		cs = append(cs, inclCases([]string{"fof(a1,axiom,! [X] : p(X)).", "fof(a2,axiom,? [X] : (p(X) => q(X)) ).", "fof(c,negated_conjecture,! [X] : ~ q(X))."}, "fof quantifiers")...)
		cs = append(cs, inclCases([]string{"fof(a1,axiom,a = b).", "fof(a2,axiom,f(a) = c).", "fof(c,conjecture,f(b) = c)."}, "fof equality")...)
		cs = append(cs, inclCases([]string{"tff(t1,type,nat: $tType).", "tff(t2,type,a: nat).", "tff(t3,type,p: nat > $o).", "tff(a1,axiom,! [X: nat] : p(X)).", "tff(c,conjecture,p(a))."}, "typed")...)
		cs = append(cs, inclCases([]string{"tff(t1,type,nat: $tType).", "tff(t2,type,a: nat).", "tff(t3,type,b: nat).", "tff(a1,axiom,a = b).", "tff(c,conjecture,b = a)."}, "typed equality")...)
		cs = append(cs, inclCases([]string{"tff(t1,type,nat: $tType).", "tff(t2,type,list: $tType > $tType).", "tff(t3,type,nil: !> [A: $tType] : list(A)).", "tff(t4,type,q: !> [A: $tType] : (list(A) > $o)).", "tff(a1,axiom,! [A: $tType] : q(A,nil(A))).", "tff(c,conjecture,q(nat,nil(nat)))."}, "typed polymorphic")...)
		cs = append(cs, inclCases([]string{"tff(t1,type,nat: $tType).", "tff(t2,type,a: nat).", "tff(t3,type,p: $i > $o).", "tff(c,conjecture,p(a))."}, "ill typed")...)
		cs = append(cs, inclCases([]string{"fof(a1,axiom,p).", "fof(c1,conjecture,p).", "fof(c2,conjecture,q)."}, "two conjectures")...)
		ax := []string{"fof(a1,axiom,p).", "fof(a2,axiom,(p=>q)).", "fof('quoted ax',axiom,(q=>s)).", "fof(12,axiom,r(a))."}
		cs = append(cs, selCases(ax, "fof(c,conjecture,s).")...)
		cs = append(cs, selCases(ax, "fof(c,conjecture,(p|s)).")...)
		c.Cov["problems"] = len(cs)

		inl := map[string]string{}
		read := func(o Outcome) (string, bool) {
			if o.Out != "" && o.Kind == "exit" && o.Code == 0 {
				return o.Out, true
			}
			return fmt.Sprintf("refused (%s %d)", o.Kind, o.Code), false
		}
		key := func(x inclCase) string { return strings.Join(x.args, " ") + "|" + x.inline }
		p := c.Pool("dumper")
		p.WallMax = 30 * time.Second
		e := c.Pool("engine")
		e.WallMax = 60 * time.Second
		uniq := map[string]bool{}
		var ij, ej []*Job
		for _, x := range cs {
			if !uniq[key(x)] {
				uniq[key(x)] = true
				ij = append(ij, &Job{Unit: "load", Args: append(append([]string{}, x.args...), "p.p"), Files: map[string]string{"p.p": x.inline}, MaxSteps: 20000, MaxMs: 10000, meta: x})
				ej = append(ej, &Job{Args: append(append([]string{}, x.args...), "p.p"), Files: map[string]string{"p.p": x.inline}, MaxSteps: 20000, MaxMs: 3000, meta: x})
			}
		}
		verd := map[string]string{}
		p.DoList(ij, func(j *Job, r *Result) { inl[key(j.meta.(inclCase))], _ = read(r.Outcomes[0]) })
		e.DoList(ej, func(j *Job, r *Result) { verd[key(j.meta.(inclCase))] = r.Outcomes[0].Key() })
		var jobs, vjobs []*Job
		for _, x := range cs {
			fs := map[string]string{"p.p": x.text}
			for k, v := range x.files {
				fs[k] = v
			}
			jobs = append(jobs, &Job{Unit: "load", Args: append(append([]string{}, x.args...), "p.p"), Files: fs, MaxSteps: 20000, MaxMs: 10000, meta: x})
			vjobs = append(vjobs, &Job{Args: append(append([]string{}, x.args...), "p.p"), Files: fs, MaxSteps: 20000, MaxMs: 3000, meta: x})
		}
		cnt := map[string]int{}
		nontriv := 0
		var vs []violation
		note := func(x inclCase, s string) {
			k := x.text
			for _, f := range sortedKeys(x.files) {
				k += " | " + f + ": " + x.files[f]
			}
			vs = append(vs, violation{short(k), s, map[string]any{"text": x.text, "files": x.files, "args": x.args, "inlined": x.inline}})
		}
		p.DoList(jobs, func(j *Job, r *Result) {
			x := j.meta.(inclCase)
			want := inl[key(x)]
			got, ok := read(r.Outcomes[0])
			cnt[fmt.Sprintf("%s read=%v", x.fam, ok)]++
			if r.Outcomes[0].Kind == "hang" || r.Outcomes[0].Kind == "timeout" {
				return
			}
			wok := strings.HasPrefix(want, "conj=")
			if ok != wok {
				note(x, fmt.Sprintf("with the files written in place: %s; with includes: %s", want, got))
				return
			}
			if !ok {
				return
			}
			nontriv++
			gw, gg := want[:strings.Index(want, "(")], got[:strings.Index(got, "(")]
			a, e1 := canonDump(want[strings.Index(want, "("):])
			b, e2 := canonDump(got[strings.Index(got, "("):])
			if e1 != nil || e2 != nil {
				fatal("unreadable dump %s / %s", want, got)
			}
			if a != b || gw != gg {
				note(x, fmt.Sprintf("with the files written in place: %s%s; with includes: %s%s", gw, short(a), gg, short(b)))
			}
			if nontriv%401 == 1 {
				c.Sample(map[string]any{"text": x.text, "files": x.files})
			}
		})
		e.DoList(vjobs, func(j *Job, r *Result) {
			x := j.meta.(inclCase)
			o := r.Outcomes[0]
			w := verd[key(x)]
			cnt[x.fam+" verdict "+o.Key()]++
			if o.Kind == "hang" || o.Kind == "timeout" || strings.HasPrefix(w, "hang") || strings.HasPrefix(w, "timeout") {
				return
			}
			if w != o.Key() {
				note(x, fmt.Sprintf("verdict %s with the files written in place, %s with includes", w, o.Key()))
			}
		})
		for _, v := range vs {
			c.Violate(v.Key, v.What, v.Replay)
		}
		c.Cov["evaluations"] = len(jobs) + len(vjobs)
		c.Cov["distinct_nontrivial"] = nontriv
		c.Cov["outcomes"] = cnt
	}
}
