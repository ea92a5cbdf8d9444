package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "mcheck: "+f+"\n", a...)
	os.Exit(3)
}

// Ctx is the state of one check.
type Ctx struct {
	Prop     string
	Tier     string
	Seed     int
	Build    string // directory with the freshly built engine
	Work     string // scratch
	Start    time.Time
	Level    string
	Cov      map[string]any
	Assume   []string
	viol     []violation
	known    map[string]string
	knownHit map[string]string
	samples  []any
	pools    []*Pool
}

type violation struct {
	Key    string
	What   string
	Replay any
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

func (c *Ctx) Pool(bin string) *Pool {
	p := &Pool{Bin: filepath.Join(c.Build, bin), Dir: filepath.Join(c.Work, fmt.Sprintf("p%d", len(c.pools)))}
	c.pools = append(c.pools, p)
	return p
}

// Violate records a violation found at key (stable identity of the failing
// input); a key listed in the known-findings file is reported as such.
func (c *Ctx) Violate(key, what string, replay any) {
	if k, ok := c.known[key]; ok {
		c.knownHit[key] = k
		return
	}
	c.viol = append(c.viol, violation{key, what, replay})
}

func (c *Ctx) Sample(v any) {
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
}

func (c *Ctx) Add(k string, n int) {
	if v, ok := c.Cov[k].(int); ok {
		c.Cov[k] = v + n
	} else {
		c.Cov[k] = n
	}
}

func (c *Ctx) loadKnown() {
	c.known = map[string]string{}
	c.knownHit = map[string]string{}
	b, err := os.ReadFile("/verif/known_findings.txt")
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> :: text
		if !strings.HasPrefix(l, "known: property="+c.Prop+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+c.Prop+" key=")
		if i := strings.Index(l, " :: "); i >= 0 {
			c.known[l[:i]] = l[i+4:]
		}
	}
}

func (c *Ctx) finish() int {
	if c.Cov == nil {
		c.Cov = map[string]any{}
	}
	var sch, steps, jobs, skipped, hung, crashed, incomplete, div int64
	var live, dec int64
	for _, p := range c.pools {
		sch += p.Runs
		steps += p.Steps
		jobs += p.Jobs
		skipped += p.Skipped
		hung += p.Hung
		crashed += p.Crashed
		incomplete += p.Incomplete
		div += p.Diverged
		if p.MaxLive > live {
			live = p.MaxLive
		}
		if p.MaxDec > dec {
			dec = p.MaxDec
		}
	}
	if len(c.pools) > 0 {
		c.Cov["executions"] = sch
		c.Cov["scheduling_steps"] = steps
		c.Cov["jobs"] = jobs
		c.Cov["jobs_not_started_before_deadline"] = skipped
		c.Cov["jobs_not_answered"] = hung
		c.Cov["jobs_truncated"] = incomplete
		c.Cov["max_live_goroutines"] = live
		c.Cov["max_decisions_in_one_execution"] = dec
		c.Cov["replay_divergences"] = div
		if skipped > 0 || hung > 0 || incomplete > 0 {
			c.Cov["exhaustive"] = false
		}
	}
	if _, ok := c.Cov["exhaustive"]; !ok {
		c.Cov["exhaustive"] = true
	}
	if len(c.samples) == 0 {
		c.samples = []any{"none"}
	}
	c.Cov["samples"] = c.samples
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": c.Cov, "assumptions": c.Assume,
		"wall_s": time.Since(c.Start).Seconds(), "violations": len(c.viol),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll("/verif/evidence", 0o755)
	if err := os.WriteFile("/verif/evidence/"+c.Prop+".json", append(b, '\n'), 0o644); err != nil {
		fatal("evidence: %v", err)
	}
	var ks []string
	for k := range c.knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.Prop, c.knownHit[k], k)
	}
	if len(c.viol) > 0 {
		os.MkdirAll("/verif/replay", 0o755)
		sort.SliceStable(c.viol, func(i, j int) bool { return len(c.viol[i].Key) < len(c.viol[j].Key) })
		for i, v := range c.viol {
			if i == maxShow {
				fmt.Printf("... and %d more\n", len(c.viol)-maxShow)
				break
			}
			path := fmt.Sprintf("/verif/replay/%s-%d.json", c.Prop, i)
			b, _ := json.MarshalIndent(map[string]any{"property": c.Prop, "key": v.Key, "what": v.What, "replay": v.Replay}, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n  key: %s\n", c.Prop, path, v.What, v.Key)
		}
		return 1
	}
	fmt.Printf("ok property=%s tier=%s wall=%.1fs executions=%d\n", c.Prop, c.Tier, time.Since(c.Start).Seconds(), sch)
	return 0
}

var checks = map[string]func(*Ctx){}

func main() {
	if len(os.Args) < 5 {
		fatal("usage: mcheck PROP TIER BUILDDIR WORKDIR")
	}
	c := &Ctx{Prop: os.Args[1], Tier: os.Args[2], Build: os.Args[3], Work: os.Args[4],
		Start: time.Now(), Cov: map[string]any{}, Level: "exploration"}
	if t := os.Getenv("VERIF_T0"); t != "" {
		if s, err := strconv.ParseInt(t, 10, 64); err == nil {
			c.Start = time.Unix(s, 0)
		}
	}
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	c.loadKnown()
	f, ok := checks[c.Prop]
	if !ok {
		fatal("no check for %s", c.Prop)
	}
	f(c)
	os.Exit(c.finish())
}

func (c *Ctx) since() string { return fmt.Sprintf("%.1fs", time.Since(c.Start).Seconds()) }

func tailOf(s string) string {
	if len(s) > 300 {
		return "..." + s[len(s)-300:]
	}
	return s
}

var campArgs = strings.Fields(os.Getenv("CAMP_ARGS"))
var campSteps = func() int {
	n, _ := strconv.Atoi(os.Getenv("CAMP_STEPS"))
	if n == 0 {
		n = 3000
	}
	return n
}()

var campShow = func() int {
	n, _ := strconv.Atoi(os.Getenv("CAMP_SHOW"))
	return maxi(n, 3)
}()

var maxShow = func() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SHOW"))
	if n == 0 {
		n = 5
	}
	return n
}()
