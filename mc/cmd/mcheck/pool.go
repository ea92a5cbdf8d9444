package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Job mirrors the driver's zzJob.
type Job struct {
	ID       int               `json:"id"`
	Unit     string            `json:"unit,omitempty"`
	Param    any               `json:"param,omitempty"`
	Args     []string          `json:"args,omitempty"`
	Files    map[string]string `json:"files,omitempty"`
	Dev      int               `json:"dev"`
	Policies []int             `json:"policies,omitempty"`
	MaxSteps int               `json:"maxsteps,omitempty"`
	MaxRuns  int               `json:"maxruns,omitempty"`
	MaxMs    int               `json:"maxms,omitempty"`
	TotalMs  int               `json:"totalms,omitempty"`
	MutexPts bool              `json:"mutex,omitempty"`
	RandPts  bool              `json:"rand,omitempty"`
	MapPts   bool              `json:"map,omitempty"`
	Out      bool              `json:"out,omitempty"`
	Proof    bool              `json:"proof,omitempty"`
	Only     [][]int           `json:"only,omitempty"`
	FirstMax int               `json:"firstmax,omitempty"`

	meta any
}

type Outcome struct {
	Kind   string `json:"kind"`
	Code   int    `json:"code"`
	Status string `json:"status"`
	Msg    string `json:"msg,omitempty"`
	Out    string `json:"out,omitempty"`
	Count  int    `json:"count"`
	Sched  []int  `json:"sched"`
	Leaked int    `json:"leaked"`
}

func (o Outcome) Key() string {
	s := o.Kind
	if o.Kind == "exit" {
		s += fmt.Sprintf("%d", o.Code)
	}
	if o.Status != "" {
		s += ":" + o.Status
	}
	return s
}

type Result struct {
	ID        int       `json:"id"`
	Runs      int       `json:"runs"`
	Steps     int       `json:"steps"`
	MaxLive   int       `json:"maxlive"`
	Decisions int       `json:"decisions"`
	Complete  bool      `json:"complete"`
	Diverged  int       `json:"diverged"`
	Outcomes  []Outcome `json:"outcomes"`
	Err       string    `json:"err,omitempty"`
}

// Pool drives engine processes, one job each at a time.
type Pool struct {
	Bin     string
	Dir     string
	N       int
	WallMax time.Duration // per job; a job past it is counted as not answered
	Stop    time.Time     // no job is started after this

	Runs, Steps, Jobs, Skipped, Hung, Crashed, Incomplete, Diverged int64
	MaxLive, MaxDec                                                 int64
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 8000 {
		t.b = append([]byte(nil), t.b[:8000]...)
	}
	return len(p), nil
}

func (p *Pool) start(i int) (*worker, error) {
	dir := filepath.Join(p.Dir, fmt.Sprintf("w%d", i))
	os.MkdirAll(dir, 0o755)
	c := exec.Command("bash", "-c", "ulimit -v 12000000; exec \"$0\"", p.Bin)
	c.Env = append(os.Environ(), "ZZ_DIR="+dir, "GOMEMLIMIT=2GiB", "TPTP="+filepath.Join(dir, "tptp"))
	w := &worker{cmd: c, err: &tail{}}
	c.Stderr = w.err
	var err error
	if w.in, err = c.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<20)
	return w, c.Start()
}

func (w *worker) kill() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func maxA(p *int64, v int64) {
	for {
		o := atomic.LoadInt64(p)
		if v <= o || atomic.CompareAndSwapInt64(p, o, v) {
			return
		}
	}
}

// Do runs the jobs and calls f (serialised) for each result. A process that
// dies gives an outcome of kind "crash", one that does not answer "hang".
func (p *Pool) Do(jobs <-chan *Job, f func(*Job, *Result)) {
	if p.N == 0 {
		p.N = runtime.NumCPU()
		if p.N > 8 {
			p.N = 8
		}
	}
	if p.WallMax == 0 {
		p.WallMax = 60 * time.Second
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < p.N; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.kill()
				}
			}()
			for j := range jobs {
				if !p.Stop.IsZero() && time.Now().After(p.Stop) {
					atomic.AddInt64(&p.Skipped, 1)
					continue
				}
				var err error
				if w == nil {
					if w, err = p.start(i); err != nil {
						fatal("cannot start %s: %v", p.Bin, err)
					}
				}
				b, err := json.Marshal(j)
				if err != nil {
					fatal("marshal: %v", err)
				}
				var late atomic.Bool
				ww := w
				tm := time.AfterFunc(p.WallMax, func() { late.Store(true); ww.cmd.Process.Kill() })
				var line []byte
				if _, err = w.in.Write(append(b, '\n')); err == nil {
					line, err = w.out.ReadBytes('\n')
				}
				tm.Stop()
				r := &Result{}
				if err == nil {
					err = json.Unmarshal(line, r)
				}
				if err != nil {
					w.kill()
					k := "crash"
					if late.Load() {
						k = "hang"
						atomic.AddInt64(&p.Hung, 1)
					} else {
						atomic.AddInt64(&p.Crashed, 1)
					}
					r = &Result{ID: j.ID, Runs: 1, Outcomes: []Outcome{{Kind: k, Code: -1, Msg: string(w.err.b), Count: 1}}}
					w = nil
				}
				atomic.AddInt64(&p.Jobs, 1)
				atomic.AddInt64(&p.Runs, int64(r.Runs))
				atomic.AddInt64(&p.Steps, int64(r.Steps))
				atomic.AddInt64(&p.Diverged, int64(r.Diverged))
				if !r.Complete {
					atomic.AddInt64(&p.Incomplete, 1)
				}
				maxA(&p.MaxLive, int64(r.MaxLive))
				maxA(&p.MaxDec, int64(r.Decisions))
				mu.Lock()
				f(j, r)
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
}

// DoList is Do over a slice.
func (p *Pool) DoList(jobs []*Job, f func(*Job, *Result)) {
	ch := make(chan *Job)
	go func() {
		for i, j := range jobs {
			j.ID = i
			ch <- j
		}
		close(ch)
	}()
	p.Do(ch, f)
}

// One runs a single job on a fresh process.
func (p *Pool) One(j *Job) *Result {
	q := &Pool{Bin: p.Bin, Dir: filepath.Join(p.Dir, "one"), N: 1, WallMax: 120 * time.Second}
	var res *Result
	q.DoList([]*Job{j}, func(_ *Job, r *Result) { res = r })
	return res
}
