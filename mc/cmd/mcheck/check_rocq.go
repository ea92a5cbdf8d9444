package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Rocq proofs: every proof the prover prints with -proof -orocq -context is
// compiled by the installed Coq, and the theorem it proves is compared (by
// conversion) with this file's own translation of the problem.

func (t Term) rocq() string {
	if t.V >= 0 {
		return fmt.Sprintf("X%d", t.V)
	}
	if len(t.Args) == 0 {
		return t.Fn
	}
	var s []string
	for _, a := range t.Args {
		s = append(s, a.rocq())
	}
	return t.Fn + "(" + strings.Join(s, ", ") + ")"
}

func (f *Form) rocq() string {
	switch f.Op {
	case OAtom:
		return "(" + Fun(f.P, f.T...).rocq() + ")"
	case OEq:
		return "(" + f.T[0].rocq() + " = " + f.T[1].rocq() + ")"
	case OTop:
		return "True"
	case OBot:
		return "False"
	case ONot:
		return "(~ " + f.A.rocq() + ")"
	case OAnd:
		return "(" + f.A.rocq() + " /\\ " + f.B.rocq() + ")"
	case OOr:
		return "(" + f.A.rocq() + " \\/ " + f.B.rocq() + ")"
	case OImp:
		return "(" + f.A.rocq() + " -> " + f.B.rocq() + ")"
	case OEquiv:
		return "(" + f.A.rocq() + " <-> " + f.B.rocq() + ")"
	case OAll:
		return fmt.Sprintf("(forall X%d : goeland_U, %s)", f.V, f.A.rocq())
	case OEx:
		return fmt.Sprintf("(exists X%d : goeland_U, %s)", f.V, f.A.rocq())
	}
	panic("no Rocq form for this connective")
}

// rocqStatement is the proposition a proof of the problem has to establish.
func (p *problem) rocqStatement(flat bool) string {
	s := ""
	f := func(g *Form) string {
		if flat {
			g = g.rightAssoc()
		}
		return g.rocq()
	}
	for _, a := range p.ax {
		s += f(a) + " -> "
	}
	if p.conj != nil {
		return s + "~ ~ " + f(p.conj)
	}
	return s + "False"
}

// rightAssoc nests chains of & and | to the right.
func (f *Form) rightAssoc() *Form {
	if f == nil {
		return nil
	}
	g := *f
	if f.Op == OAnd || f.Op == OOr {
		var ch []*Form
		var rec func(h *Form)
		rec = func(h *Form) {
			if h.Op == f.Op {
				rec(h.A)
				rec(h.B)
			} else {
				ch = append(ch, h.rightAssoc())
			}
		}
		rec(f)
		r := ch[len(ch)-1]
		for i := len(ch) - 2; i >= 0; i-- {
			r = Bin(f.Op, ch[i], r)
		}
		return r
	}
	g.A, g.B = f.A.rightAssoc(), f.B.rightAssoc()
	return &g
}

// rocqChunk is one proof to compile.
type rocqChunk struct {
	j    *Job
	o    Outcome
	body string // declarations, theorem, proof
	thm  string
	err  string
	slow bool
}

var (
	reRocqDecl  = regexp.MustCompile(`^Parameters? [^:]+ ?: (goeland_U|Prop|Set|->|\*|[() ])+\.( \(\*.*\*\))?$`)
	reRocqThm   = regexp.MustCompile(`(?m)^Theorem (\S+) :`)
	reRocqBad   = regexp.MustCompile(`\b(Admitted|admit|Axiom|Axioms|Hypothesis|Conjecture|Variable|give_up|Abort)\b`)
	reRocqError = regexp.MustCompile(`File "[^"]*", line (\d+), characters [0-9-]+:\s*\n(Error:[\s\S]*)`)
)

// splitRocq extracts the Rocq text of an output: the lemmas every file starts
// with and the part that belongs to this problem.
func splitRocq(out string) (pre, body, bad string) {
	i := strings.Index(out, "From Stdlib Require")
	if i < 0 {
		return "", "", "no Rocq text in the output"
	}
	out = out[i:]
	e := strings.Index(out, "% SZS output end")
	if e < 0 {
		return "", "", "the Rocq text does not end"
	}
	out = strings.Replace(out[:e], "From Stdlib Require", "From Coq Require", 1)
	k := strings.Index(out, "Parameter goeland_U")
	if k < 0 {
		return "", "", "no universe declared"
	}
	pre, body = out[:k], out[k:]
	if m := reRocqBad.FindString(body); m != "" {
		return "", "", "the proof uses " + m
	}
	for _, l := range strings.Split(body, "\n") {
		if strings.HasPrefix(l, "Parameter") && !reRocqDecl.MatchString(l) {
			return "", "", "declaration that is not that of a symbol: " + l
		}
	}
	if len(reRocqThm.FindAllString(body, -1)) != 1 {
		return "", "", "not exactly one theorem"
	}
	return pre, body, ""
}

// compileRocq compiles the chunks (which share a preamble) and fills in err.
func compileRocq(dir string, pre string, cs []*rocqChunk, limit time.Duration) (answered bool) {
	file := filepath.Join(dir, "b.v")
	todo := cs
	for try := 0; len(todo) > 0 && try < 40; try++ {
		var sb strings.Builder
		sb.WriteString(pre)
		line := strings.Count(pre, "\n") + 1
		start := make([]int, len(todo))
		for i, c := range todo {
			m := fmt.Sprintf("Module M%d.\n%s\nLemma zzchk : %s.\nProof. first [ exact %s | intros; repeat match goal with H : _ /\\ _ |- _ => destruct H end; apply %s; first [ assumption | exact (fun x => x) ] ]. Qed.\nEnd M%d.\n", i, c.body, c.j.meta.(vjob).rocqStatement(strings.Contains(strings.Join(c.j.meta.(vjob).args, " "), "-flatten")), c.thm, c.thm, i)
			start[i] = line
			line += strings.Count(m, "\n")
			sb.WriteString(m)
		}
		if err := os.WriteFile(file, []byte(sb.String()), 0o644); err != nil {
			fatal("%v", err)
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		cmd := exec.CommandContext(ctx, "coqc", "-q", "-w", "none", "b.v")
		cmd.Dir = dir
		b, err := cmd.CombinedOutput()
		late := ctx.Err() != nil
		cancel()
		if late {
			for _, c := range todo {
				c.slow = true
			}
			return false
		}
		if err == nil {
			return true
		}
		m := reRocqError.FindSubmatch(b)
		if m == nil {
			fatal("coqc: %v: %s", err, tailOf(string(b)))
		}
		ln, _ := strconv.Atoi(string(m[1]))
		k := -1
		for i := range todo {
			if start[i] <= ln {
				k = i
			}
		}
		if k < 0 {
			for _, c := range todo {
				c.err = "the lemmas every proof starts with do not compile: " + short(string(m[2]))
			}
			return true
		}
		todo[k].err = short(string(m[2]))
		todo = todo[k+1:]
	}
	return len(todo) == 0
}

// rocqGroup is a family of valid problems with the options to prove them under.
type rocqGroup struct {
	args  []string
	ps    []classified
	pol   []int
	steps int
	dev int // deviations from the base schedules (then also at mutexes and random choices)
}

// proofJobs makes the jobs of the groups (valid problems only).
func (c *Ctx) proofJobs(gs []rocqGroup, out ...string) (jobs []*Job) {
	for _, g := range gs {
		for _, x := range g.ps {
			if x.cl != valid {
				continue
			}
			a := append(append([]string{"-proof"}, out...), g.args...)
			steps := g.steps
			if steps == 0 {
				steps = 40000
			}
			jobs = append(jobs, c.mk(x, a, Job{Policies: g.pol, MaxSteps: steps, MaxMs: max(steps/2, 8000), Proof: true, Dev: g.dev, MutexPts: g.dev > 0, RandPts: g.dev > 0, MaxRuns: 3000}))
		}
	}
	return
}

func (c *Ctx) rocq(gs []rocqGroup) {
	p := c.Pool("engine")
	p.WallMax = 60 * time.Second
	jobs := c.proofJobs(gs, "-orocq", "-context")
	type cand struct {
		ch   *rocqChunk
		what string
	}
	var cands []cand
	byPre := map[string][]*rocqChunk{}
	seen := map[string]bool{}
	nproofs := 0
	p.DoList(jobs, func(j *Job, r *Result) {
		if r.Err != "" {
			fatal("engine: %s", r.Err)
		}
		v := j.meta.(vjob)
		for _, o := range r.Outcomes {
			ch := &rocqChunk{j: j, o: o}
			if o.Kind == "timeout" || o.Kind == "budget" || o.Kind == "hang" || o.Kind == "exit" && !positive(o.Status) {
				if o.Kind == "exit" && o.Code != 0 {
					cands = append(cands, cand{ch, "the prover breaks down while it prints the proof: " + o.Key() + " " + short(o.Msg)})
				}
				c.Add("executions_without_a_proof", 1)
				continue
			}
			if o.Kind != "exit" || o.Code != 0 {
				cands = append(cands, cand{ch, "the prover breaks down while it prints the proof: " + o.Key() + " " + short(o.Msg)})
				continue
			}
			nproofs++
			pre, body, bad := splitRocq(o.Out)
			if bad != "" {
				cands = append(cands, cand{ch, bad})
				continue
			}
			k := v.text() + "\x00" + body
			if seen[k] {
				continue
			}
			seen[k] = true
			ch.body, ch.thm = body, reRocqThm.FindStringSubmatch(body)[1]
			byPre[pre] = append(byPre[pre], ch)
		}
	})
	c.Add("evaluations", len(jobs))
	c.Add("proofs_printed", nproofs)
	var mu sync.Mutex
	var wg sync.WaitGroup
	type batch struct {
		pre string
		cs  []*rocqChunk
	}
	ch := make(chan batch)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			dir := filepath.Join(c.Work, fmt.Sprintf("rocq%d", w))
			os.MkdirAll(dir, 0o755)
			for b := range ch {
				ok := compileRocq(dir, b.pre, b.cs, 120*time.Second)
				mu.Lock()
				if !ok {
					c.Add("batches_not_finished_by_coqc", 1)
					c.Cov["exhaustive"] = false
				}
				mu.Unlock()
			}
		}(w)
	}
	for _, pre := range sortedKeys(byPre) {
		cs := byPre[pre]
		for i := 0; i < len(cs); i += 100 {
			ch <- batch{pre, cs[i:min(i+100, len(cs))]}
		}
	}
	close(ch)
	wg.Wait()
	n := 0
	for _, pre := range sortedKeys(byPre) {
		for _, k := range byPre[pre] {
			if k.slow {
				continue
			}
			n++
			if n%499 == 1 {
				c.Sample(map[string]any{"problem": short(k.j.meta.(vjob).text()), "args": k.j.meta.(vjob).args, "proof": tailOf(k.body), "coqc": k.err == ""})
			}
			if k.err != "" {
				cands = append(cands, cand{k, "Coq rejects the proof: " + k.err})
			}
		}
	}
	c.Add("distinct_proofs_compiled", n)
	c.Add("distinct_nontrivial", n)
	var hs []histEntry
	for _, x := range cands {
		hs = append(hs, histEntry{x.ch.j.meta.(vjob), x.what})
	}
	histogram(hs)
	done := map[string]bool{}
	for _, x := range cands {
		v := x.ch.j.meta.(vjob)
		key := short(strings.Join(v.args, " ") + " " + v.text())
		if done[key] || len(c.viol) >= 200 {
			continue
		}
		done[key] = true
		if !c.reproduceProof(p, x.ch.j, x.ch.o) {
			c.Add("unreproducible_discarded", 1)
			continue
		}
		c.Violate(key, x.what+": "+short(v.text())+" args="+fmt.Sprint(v.args), map[string]any{
			"problem": v.text(), "args": v.args, "schedule": x.ch.o.Sched, "outcome": x.ch.o.Key(), "message": x.ch.o.Msg, "rocq": x.ch.body})
	}
}

// reproduceProof replays the schedule; the same output has to come back.
func (c *Ctx) reproduceProof(p *Pool, j *Job, o Outcome) bool {
	k := *j
	k.Only = [][]int{o.Sched, o.Sched, o.Sched}
	r := p.One(&k)
	return r != nil && len(r.Outcomes) == 1 && r.Outcomes[0].Key() == o.Key() && r.Outcomes[0].Count == 3
}

func init() {
	checks["G13"] = func(c *Ctx) {
		c.rocqCheck()
	}
}

func proofFamilies(th bool) (fo, eq, dmt []classified) {
	ps := optProblems(th)
	ps = append(ps, famOcc(1)...)
	ps = append(ps, famSko(th)...)
	ps = append(ps, withLoose(append(famSkoDep(), famSkoShare()...))...)
	es := append(famEqGround(1), famEqFO(1)...)
	for n := 1; n <= 2; n++ {
		es = append(es, famEqForms(n)...)
	}
	es = append(es, famCongr(3)...)
	if th {
		es = append(es, famEqFO(2)...)
	}
	var ds []*problem
	for _, x := range famDMT(2) {
		if !negHead(x) {
			ds = append(ds, x)
		}
	}
	return classifyAll(ps, 3), classifyAll(es, 3), classifyAll(ds, 3)
}

// negHead tells whether an axiom is an equivalence with a negated atom on one
// side and no literal on the other: deduction modulo turns it into a rule whose
// head is the negated atom.
func negHead(p *problem) bool {
	for _, a := range p.ax {
		f := a
		for f.Op == OAll {
			f = f.A
		}
		if f.Op == OEquiv && (f.A.Op == ONot && f.A.A.Op == OAtom || f.B.Op == ONot && f.B.A.Op == OAtom) {
			return true
		}
	}
	return false
}

func (c *Ctx) rocqCheck() {
	c.Cov["rule"] = "every valid problem of the enumerated families is proved on the real engine under the listed scheduling policies and options; every distinct Rocq text printed is compiled by coqc and its theorem has to imply the checker's own translation of the problem; a breakdown while printing counts as a violation"
	fo, eq, dmt := proofFamilies(c.Thorough())
	var gs []rocqGroup
	add := func(ps []classified, k, steps int, pol []int, opts ...string) {
		for n, o := range opts {
			var qs []classified
			for i, x := range ps {
				if c.Thorough() || i%k == n%k {
					qs = append(qs, x)
				}
			}
			gs = append(gs, rocqGroup{args: strings.Fields(o), ps: qs, pol: pol, steps: steps})
		}
	}
	add(fo, 1, 0, []int{0, 3}, "")
	add(fo, 3, 0, []int{0}, "-inner", "-preinner", "-flatten", "-flatten -inner", "-flatten -preinner")
	add(eq, 1, 0, []int{0}, "")
	add(eq, 3, 0, []int{0}, "-inner", "-preinner", "-flatten")
	add(dmt, 2, 3000, []int{0}, "-dmt", "-dmt -preinner", "-dmt -presko", "-dmt -flatten")
	if only, ok := os.LookupEnv("VERIF_ONLYARGS"); ok {
		var hs []rocqGroup
		for _, g := range gs {
			if slices.Contains(strings.Split(only, ","), strings.Join(g.args, " ")) {
				hs = append(hs, g)
			}
		}
		gs = hs
	}
	c.rocq(gs)
}

var reSig = []*regexp.Regexp{regexp.MustCompile(`[0-9]+`), regexp.MustCompile(`\(0x[^)]*\)|\{[^ ]*`)}

func sigRocq(s string) string {
	if i := strings.Index(s, "panic({"); i >= 0 {
		m := regexp.MustCompile(`/repo/src/(\S+:\d+)`).FindAllStringSubmatch(s[i:], 6)
		r := s[:60]
		for _, x := range m {
			r += " " + x[1]
		}
		return r
	}
	s = reSig[0].ReplaceAllString(s, "N")
	if len(s) > 110 {
		s = s[:110]
	}
	return s
}

type histEntry struct {
	v    vjob
	what string
}

// histogram prints what went wrong, by kind (a development aid).
func histogram(es []histEntry) {
	if os.Getenv("VERIF_HIST") == "" {
		return
	}
	h, ex, mode := map[string]int{}, map[string]string{}, map[string]map[string]int{}
	for _, e := range es {
		a := strings.Join(e.v.args, " ")
		k := sigRocq(e.what)
		h[k]++
		t := a + " :: " + short(e.v.text())
		if mode[k] == nil {
			mode[k] = map[string]int{}
		}
		mode[k][a]++
		if ex[k] == "" || len(t) < len(ex[k]) {
			ex[k] = t
		}
	}
	for _, k := range sortedKeys(h) {
		fmt.Println(h[k], k, "\n     e.g.", ex[k], "\n", mode[k])
	}
}
