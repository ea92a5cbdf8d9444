package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	zzrtdebug "runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/GoelandProver/Goeland/zvs"
)

// zzJob is one unit of exploration: a program input plus the bounds of the
// schedule space to enumerate around it.
type zzJob struct {
	ID       int               `json:"id"`
	Unit     string            `json:"unit,omitempty"` // in-process unit instead of main()
	Param    json.RawMessage   `json:"param,omitempty"`
	Args     []string          `json:"args"`
	Files    map[string]string `json:"files,omitempty"`
	Dev      int               `json:"dev"`      // deviations from the base schedule
	Policies []int             `json:"policies"` // base schedules
	MaxSteps int               `json:"maxsteps"`
	MaxRuns  int               `json:"maxruns"`
	MaxMs    int               `json:"maxms"`    // per execution
	TotalMs  int               `json:"totalms"`  // for the whole job
	MutexPts bool              `json:"mutex"`
	RandPts  bool              `json:"rand"`
	MapPts   bool              `json:"map"`
	Out      bool              `json:"out"`   // outcomes are distinguished by their full output
	Proof    bool              `json:"proof"` // outcomes are distinguished by their proof text
	Only     [][]int           `json:"only,omitempty"` // replay exactly these prefixes (policy first)
	FirstMax int               `json:"firstmax,omitempty"`
}

type zzOutcome struct {
	Kind   string `json:"kind"`
	Code   int    `json:"code"`
	Status string `json:"status"`
	Msg    string `json:"msg,omitempty"`
	Out    string `json:"out,omitempty"`
	Count  int    `json:"count"`
	Sched  []int  `json:"sched"` // policy followed by the deviations (index, choice)
	Leaked int    `json:"leaked"`
}

type zzResult struct {
	ID        int         `json:"id"`
	Runs      int         `json:"runs"`
	Steps     int         `json:"steps"`
	MaxLive   int         `json:"maxlive"`
	Decisions int         `json:"decisions"`
	Complete  bool        `json:"complete"`
	Diverged  int         `json:"diverged"`
	Outcomes  []zzOutcome `json:"outcomes"`
	Err       string      `json:"err,omitempty"`
}

var zzUnits = map[string]func(json.RawMessage) string{}

var zzStdout *os.File

func zzMemfd() *os.File {
	name := []byte("out\x00")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 0, 0)
	if e != 0 {
		f, err := os.CreateTemp("", "zzout")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		return f
	}
	return os.NewFile(fd, "out")
}

func zzTake() string {
	n, _ := zzStdout.Seek(0, 1)
	b := make([]byte, n)
	if n > 0 {
		zzStdout.ReadAt(b, 0)
		zzStdout.Truncate(0)
		zzStdout.Seek(0, 0)
	}
	return string(b)
}

func zzStatus(out string) string {
	n, st := 0, ""
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "% SZS status ") {
			n++
			f := strings.Fields(l)
			if len(f) > 3 {
				st = f[3]
			}
		}
	}
	if n == 0 {
		return ""
	}
	if n > 1 {
		return fmt.Sprintf("MULTIPLE(%d)", n)
	}
	return st
}

func zzProof(out string) string {
	a := strings.Index(out, "SZS output start")
	b := strings.Index(out, "SZS output end")
	if a < 0 || b < a {
		return ""
	}
	return out[a:b]
}

func zzOne(j *zzJob, pol int, prefix []int) (zvs.Outcome, string) {
	os.Args = append([]string{"goeland"}, j.Args...)
	flag.CommandLine = flag.NewFlagSet("goeland", flag.ContinueOnError)
	flag.CommandLine.SetOutput(zzStdout)
	zvsResetAll()
	cfg := zvs.Config{Prefix: prefix, MaxSteps: j.MaxSteps, Policy: pol,
		MutexPts: j.MutexPts, RandPts: j.RandPts, MapPts: j.MapPts}
	if j.MaxMs > 0 {
		cfg.Deadline = time.Now().Add(time.Duration(j.MaxMs) * time.Millisecond)
	}
	var unitOut string
	fn := ZvsMain
	if j.Unit != "" {
		u, ok := zzUnits[j.Unit]
		if !ok {
			return zvs.Outcome{Kind: "nounit"}, ""
		}
		fn = func() { unitOut = u(j.Param) }
	}
	o := zvs.Run(cfg, fn)
	out := zzTake()
	if j.Unit != "" {
		out = unitOut
	}
	return o, out
}


// zzExplore enumerates every execution that differs from one of the base
// schedules by at most Dev decisions.
func zzExplore(j *zzJob) zzResult {
	res := zzResult{ID: j.ID, Complete: true}
	for n, c := range j.Files {
		os.MkdirAll(filepath.Dir(n), 0o755)
		if err := os.WriteFile(n, []byte(c), 0o644); err != nil {
			res.Err = err.Error()
			return res
		}
	}
	defer func() {
		for n := range j.Files {
			os.Remove(n)
		}
	}()
	if j.MaxSteps == 0 {
		j.MaxSteps = 20000
	}
	if len(j.Policies) == 0 {
		j.Policies = []int{0}
	}
	start := time.Now()
	seen := map[string]int{}
	record := func(pol int, prefix []int, o zvs.Outcome, out string) {
		res.Runs++
		res.Steps += o.Steps
		if o.MaxLive > res.MaxLive {
			res.MaxLive = o.MaxLive
		}
		if len(o.Trace) > res.Decisions {
			res.Decisions = len(o.Trace)
		}
		if zvs.Diverged {
			res.Diverged++
		}
		st := zzStatus(out)
		key := fmt.Sprintf("%s|%d|%s", o.Kind, o.Code, st)
		if o.Kind == "panic" {
			m := o.Msg
			if i := strings.IndexByte(m, '\n'); i > 0 {
				m = m[:i]
			}
			key += "|" + m
		}
		if j.Out || j.Unit != "" {
			key += "|" + out
		} else if j.Proof {
			key += "|" + zzProof(out)
		}
		if i, ok := seen[key]; ok {
			res.Outcomes[i].Count++
			return
		}
		seen[key] = len(res.Outcomes)
		oc := zzOutcome{Kind: o.Kind, Code: o.Code, Status: st, Msg: o.Msg, Count: 1,
			Sched: append([]int{pol}, prefix...), Leaked: o.Leaked}
		if j.Out || j.Proof || j.Unit != "" || (o.Kind != "exit") || st == "" || o.Code != 0 {
			oc.Out = out
			if len(out) > 400000 {
				oc.Out = out[:400000]
			}
		}
		res.Outcomes = append(res.Outcomes, oc)
	}
	if len(j.Only) > 0 {
		for _, s := range j.Only {
			o, out := zzOne(j, s[0], s[1:])
			record(s[0], s[1:], o, out)
		}
		return res
	}
	type item struct {
		prefix []int
		from   int
		dev    int
	}
	for _, pol := range j.Policies {
		stack := []item{{nil, 0, 0}}
		for len(stack) > 0 {
			if (j.MaxRuns > 0 && res.Runs >= j.MaxRuns) ||
				(j.TotalMs > 0 && time.Since(start) > time.Duration(j.TotalMs)*time.Millisecond) {
				res.Complete = false
				return res
			}
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			o, out := zzOne(j, pol, it.prefix)
			record(pol, it.prefix, o, out)
			if o.Kind == "timeout" {
				res.Complete = false
				continue
			}
			if it.dev >= j.Dev {
				continue
			}
			lim := len(o.Trace)
			if j.FirstMax > 0 && lim > j.FirstMax {
				lim = j.FirstMax
				res.Complete = false
			}
			for i := lim - 1; i >= it.from; i-- {
				for c := o.Trace[i].N - 1; c >= 1; c-- {
					p := make([]int, 0, len(it.prefix)+2)
					p = append(p, it.prefix...)
					p = append(p, i, c)
					stack = append(stack, item{p, i + 1, it.dev + 1})
				}
			}
		}
	}
	sort.SliceStable(res.Outcomes, func(a, b int) bool { return res.Outcomes[a].Count > res.Outcomes[b].Count })
	return res
}

func main() {
	runtime.GOMAXPROCS(1)
	zzrtdebug.SetMaxStack(256 << 20)
	zzrtdebug.SetGCPercent(400)
	real := os.Stdout
	zzStdout = zzMemfd()
	os.Stdout = zzStdout
	if dir := os.Getenv("ZZ_DIR"); dir != "" {
		os.Chdir(dir)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(real)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	for {
		j := &zzJob{}
		if err := dec.Decode(j); err != nil {
			return
		}
		r := zzExplore(j)
		enc.Encode(&r)
		out.Flush()
	}
}
