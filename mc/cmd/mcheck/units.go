package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Units runs one exhaustive in-process exploration (package /verif/units/bin)
// in eight shards and merges what they report.
func (c *Ctx) Units(bin, unit string, limit time.Duration) {
	const n = 8
	type line struct {
		Viol    string         `json:"viol"`
		What    string         `json:"what"`
		Replay  any            `json:"replay"`
		Sample  any            `json:"sample"`
		Done    bool           `json:"done"`
		Evals   int            `json:"evals"`
		NonTriv int            `json:"nontriv"`
		States  int            `json:"states"`
		Trans   int            `json:"trans"`
		ViolN   int            `json:"violn"`
		Extra   map[string]int `json:"extra"`
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var ls []line
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(filepath.Join(c.Build, bin), unit, c.Tier, fmt.Sprint(s), fmt.Sprint(n))
			cmd.Dir = c.Work
			out, err := cmd.StdoutPipe()
			if err != nil {
				fatal("%v", err)
			}
			se := &tail{}
			cmd.Stderr = se
			if err := cmd.Start(); err != nil {
				fatal("unit %s: %v", unit, err)
			}
			tm := time.AfterFunc(limit, func() { cmd.Process.Kill() })
			sc := bufio.NewScanner(out)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			done, last := false, ""
			for sc.Scan() {
				var l line
				if !strings.HasPrefix(sc.Text(), "{") || json.Unmarshal(sc.Bytes(), &l) != nil {
					last = sc.Text()
					continue
				}
				done = done || l.Done
				mu.Lock()
				ls = append(ls, l)
				mu.Unlock()
			}
			cmd.Wait()
			timedOut := !tm.Stop()
			if done {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			if timedOut {
				c.Add("unit_shards_out_of_time", 1)
				c.Cov["exhaustive"] = false
				return
			}
			ls = append(ls, line{Viol: fmt.Sprintf("unit %s died", unit), What: "the code under exploration ended the process: " + last + " " + tailOf(string(se.b)), ViolN: 1})
		}()
	}
	wg.Wait()
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].Viol) != len(ls[j].Viol) {
			return len(ls[i].Viol) < len(ls[j].Viol)
		}
		return ls[i].Viol < ls[j].Viol
	})
	seen := map[string]bool{}
	for _, l := range ls {
		switch {
		case l.Done:
			c.Add("evaluations", l.Evals)
			c.Add("distinct_nontrivial", l.NonTriv)
			c.Add("states", l.States)
			c.Add("transitions", l.Trans)
			c.Add("executions_in_process", l.Evals)
			for k, v := range l.Extra {
				c.Add(k, v)
			}
		case l.Sample != nil:
			c.Sample(l.Sample)
		case l.Viol != "":
			if !seen[l.Viol] {
				seen[l.Viol] = true
				c.Violate(l.Viol, l.What, l.Replay)
			}
		}
	}
}
