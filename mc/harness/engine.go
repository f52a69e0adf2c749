package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/childe/healer/kfake"
	"github.com/childe/healer/vrt"
)

// Bound is the exploration bound of a scenario: total number of deviations and
// optional caps per kind of deviation.
type Bound struct {
	Dev  int
	Caps map[byte]int
}

// Scenario is one closed system (client under test + driver + fake cluster).
type Scenario struct {
	Prop, Name      string
	Quick, Thorough Bound
	Fine, TimeDev   bool
	Stall           time.Duration // goroutines may be held back for that long
	MaxSteps        int
	Horizon         time.Duration
	Run             func(t *T)
	AllowDeadlock   bool
	AllowHorizon    bool
	CrashOK         bool
	Fresh           bool // every execution in a process of its own
}

var scenarios []*Scenario

func reg(s *Scenario) { scenarios = append(scenarios, s) }

// T is what a scenario sees.
type T struct {
	X   *vrt.Exec
	Cl  *kfake.Cluster
	sc  *Scenario
	out strings.Builder
	// Cleanup checks run after the execution ended normally
	tier string
	// Sample describes the case for the evidence.
	Sample string
	// plausible: the damaged response is still well-formed (P21).
	plausible, twice bool
	unknownEnd       map[int32]bool
	trivial          bool
	nf               int // faults injected
}

// Fail reports a violation.
func (t *T) Fail(format string, a ...any) { t.X.Fail(format, a...) }

// Out adds to the outcome of the execution (distinct outcomes are counted).
func (t *T) Out(format string, a ...any) { fmt.Fprintf(&t.out, format+";", a...) }

// Trivial marks the execution as trivial for the coverage count.
func (t *T) Trivial() { t.trivial = true }

// ---- running one execution --------------------------------------------------

type result struct {
	Status  vrt.Status
	Fails   []string
	Crash   string
	Hash    uint64 // outcome hash
	Steps   int
	NPts    int
	Points  []vrt.Point
	First   int
	Blocked string
	Events  []string
	Outcome string
	Sample  string
	Trivial bool
}

func runOne(sc *Scenario, devs []vrt.Dev, trace bool, tier string) *result {
	so, si, sa := os.Stdout, os.Stdin, os.Args
	defer func() { os.Stdout, os.Stdin, os.Args = so, si, sa }()
	x := vrt.NewExec(devs)
	x.Stall = sc.Stall
	x.Fine, x.TimeDev, x.Trace, x.KeepEv = sc.Fine, sc.TimeDev, trace, trace
	if sc.MaxSteps > 0 {
		x.MaxSteps = sc.MaxSteps
	}
	if sc.Horizon > 0 {
		x.HorizonT = sc.Horizon
	}
	t := &T{X: x, sc: sc, tier: tier}
	x.Run(func() { sc.Run(t) })
	r := &result{Status: x.Status, Fails: x.Fails, Steps: x.NSteps(), NPts: x.NPoints(), Points: x.Points, First: x.FirstPoint(), Events: x.Events, Outcome: t.out.String(), Sample: t.Sample, Trivial: t.trivial}
	if !x.Replayed() && x.Status != vrt.Diverged && len(x.Fails) == 0 && x.Status == vrt.Done {
		r.Status = vrt.Diverged
		r.Crash = "replay ended before all deviations were used"
		return r
	}
	switch x.Status {
	case vrt.Crash:
		if !sc.CrashOK {
			r.Fails = append(r.Fails, "crash: "+x.CrashMsg)
		}
	case vrt.Deadlock:
		r.Blocked = x.Blocked()
		if !sc.AllowDeadlock {
			r.Fails = append(r.Fails, "deadlock: every goroutine is blocked forever: "+r.Blocked)
		}
	case vrt.Horizon:
		r.Blocked = x.Blocked()
		if !sc.AllowHorizon {
			r.Fails = append(r.Fails, "stuck: the scenario did not finish within the virtual time horizon: "+r.Blocked)
		}
	case vrt.Steps:
		r.Fails = append(r.Fails, "livelock: step limit exceeded: "+x.Blocked())
	case vrt.Diverged:
		r.Crash = x.CrashMsg
	}
	h := fnv.New64a()
	io.WriteString(h, r.Outcome)
	fmt.Fprintf(h, "%d", r.Status)
	r.Hash = h.Sum64()
	return r
}

// ---- worker -----------------------------------------------------------------

type job struct {
	S      int       `json:"s"`
	Expand bool      `json:"e,omitempty"`
	Solo   bool      `json:"o,omitempty"`
	Devs   []vrt.Dev `json:"d,omitempty"`
}

type violation struct {
	S     int       `json:"s"`
	Name  string    `json:"scenario"`
	Prop  string    `json:"property"`
	Devs  []vrt.Dev `json:"devs"`
	Fails []string  `json:"fails"`
	Out   string    `json:"outcome,omitempty"`
}

type report struct {
	Execs, Steps, Points, Diverged int
	NonTrivial                     int
	Outs                           []uint64
	Nodes                          []job // executed nodes, to be expanded at the next level
	Left                           []job
	Viol                           []violation
	Samples                        []string
	DivMsg                         string
}

type task struct {
	Tier  string
	Jobs  []job
	Keep  bool // return executed nodes
	Slice time.Duration
}

func cost(k byte) int {
	if k == vrt.KInput {
		return 0
	}
	return 1
}

func totalCost(d []vrt.Dev) int {
	c := 0
	for _, v := range d {
		c += cost(v.K)
	}
	return c
}

func (sc *Scenario) bound(tier string) Bound {
	if tier == "thorough" {
		return sc.Thorough
	}
	return sc.Quick
}

func allowed(b Bound, devs []vrt.Dev, k byte) bool {
	if b.Caps == nil {
		return true
	}
	cap, ok := b.Caps[k]
	if !ok {
		return true
	}
	n := 0
	for _, d := range devs {
		if d.K == k {
			n++
		}
	}
	return n < cap
}

func worker() {
	in := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	outw := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(outw)
	debug.SetGCPercent(400)
	// an absurd allocation ends the worker instead of the machine
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	for {
		var tk task
		if err := in.Decode(&tk); err != nil {
			return
		}
		rep := doTask(&tk)
		enc.Encode(rep)
		outw.Flush()
	}
}

// runSingle runs one execution in a process of its own, see Scenario.Fresh.
func runSingle() {
	var tk task
	if json.NewDecoder(os.Stdin).Decode(&tk) != nil {
		return
	}
	out := os.Stdout
	r := runOne(scenarios[tk.Jobs[0].S], tk.Jobs[0].Devs, false, tk.Tier)
	json.NewEncoder(out).Encode(r)
}

func runFresh(s int, devs []vrt.Dev, tier string) *result {
	c := exec.Command("/proc/self/exe", "single")
	b, _ := json.Marshal(&task{Tier: tier, Jobs: []job{{S: s, Devs: devs}}})
	c.Stdin = bytes.NewReader(b)
	o, err := c.Output()
	r := &result{}
	if err == nil {
		err = json.Unmarshal(o, r)
	}
	if err != nil {
		r.Fails = append(r.Fails, "crash: the process ended: "+err.Error())
	}
	return r
}

func children(sc *Scenario, b Bound, devs []vrt.Dev, r *result, zero bool) []job {
	var out []job
	for j, p := range r.Points {
		if (cost(p.K) == 0) != zero {
			continue
		}
		if !zero && !allowed(b, devs, p.K) {
			continue
		}
		for a := 1; a < p.N; a++ {
			d := make([]vrt.Dev, len(devs)+1)
			copy(d, devs)
			d[len(devs)] = vrt.Dev{I: r.First + j, Alt: a, K: p.K, H: p.H}
			out = append(out, job{Devs: d})
		}
	}
	return out
}

func doTask(tk *task) *report {
	rep := &report{}
	outs := map[uint64]bool{}
	stack := make([]job, 0, len(tk.Jobs))
	for i := len(tk.Jobs) - 1; i >= 0; i-- {
		stack = append(stack, tk.Jobs[i])
	}
	start := time.Now()
	nrun := 0
	for len(stack) > 0 {
		if (time.Since(start) > tk.Slice || tk.Jobs[0].Solo) && nrun > 0 {
			break
		}
		nrun++
		j := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		sc := scenarios[j.S]
		b := sc.bound(tk.Tier)
		var r *result
		if sc.Fresh {
			r = runFresh(j.S, j.Devs, tk.Tier)
		} else {
			r = runOne(sc, j.Devs, false, tk.Tier)
		}
		if r.Status == vrt.Diverged {
			rep.Diverged++
			rep.DivMsg = r.Crash
			continue
		}
		if j.Expand { // already counted when it was first run
			for _, c := range children(sc, b, j.Devs, r, false) {
				c.S = j.S
				stack = append(stack, c)
			}
			continue
		}
		rep.Execs++
		rep.Steps += r.Steps
		rep.Points += len(r.Points)
		if !r.Trivial {
			outs[r.Hash] = true
		}
		if len(rep.Samples) < 2 {
			s := r.Sample
			if s == "" {
				s = r.Outcome
			}
			if len(s) > 400 {
				s = s[:400]
			}
			rep.Samples = append(rep.Samples, fmt.Sprintf("%s devs=%s: %s", sc.Name, devString(j.Devs), s))
		}
		if len(r.Fails) > 0 {
			rep.Viol = append(rep.Viol, violation{S: j.S, Name: sc.Name, Prop: sc.Prop, Devs: j.Devs, Fails: r.Fails, Out: r.Outcome})
			if len(rep.Viol) > 50 {
				break
			}
			// do not explore below a violation, except other inputs
			for _, c := range children(sc, b, j.Devs, r, true) {
				c.S = j.S
				stack = append(stack, c)
			}
			continue
		}
		if tk.Keep {
			rep.Nodes = append(rep.Nodes, job{S: j.S, Expand: true, Devs: j.Devs})
		}
		for _, c := range children(sc, b, j.Devs, r, true) {
			c.S = j.S
			stack = append(stack, c)
		}
	}
	rep.Left = stack
	for h := range outs {
		rep.Outs = append(rep.Outs, h)
	}
	return rep
}

func devString(d []vrt.Dev) string {
	var s []string
	for _, v := range d {
		s = append(s, fmt.Sprintf("%c%d=%d", v.K, v.I, v.Alt))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// ---- master -----------------------------------------------------------------

type wproc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
}

func startWorker() *wproc {
	c := exec.Command(os.Args[0], "worker")
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = io.Discard
	if os.Getenv("VERIF_DEBUG") != "" {
		c.Stderr = os.Stderr
	}
	if err := c.Start(); err != nil {
		fmt.Println("cannot start worker:", err)
		os.Exit(3)
	}
	return &wproc{cmd: c, in: in, enc: json.NewEncoder(in), dec: json.NewDecoder(bufio.NewReaderSize(out, 1<<20))}
}

func (w *wproc) do(tk *task, limit time.Duration) (*report, error) {
	if err := w.enc.Encode(tk); err != nil {
		return nil, err
	}
	var rep report
	done := make(chan error, 1)
	go func() { done <- w.dec.Decode(&rep) }()
	select {
	case err := <-done:
		return &rep, err
	case <-time.After(limit):
		w.cmd.Process.Kill()
		<-done
		return nil, fmt.Errorf("worker hung")
	}
}

type levelStat struct {
	Scenario string `json:"scenario"`
	Level    int    `json:"deviations"`
	Execs    int    `json:"executions"`
	Complete bool   `json:"complete"`
}

type known struct {
	Status   string `json:"status"` // known | fixed
	Property string `json:"property"`
	Scenario string `json:"scenario,omitempty"`
	Match    string `json:"match,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	re       *regexp.Regexp
}

func loadKnown(path string) []*known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []*known
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<20)
	for s.Scan() {
		l := strings.TrimSpace(s.Text())
		if l == "" || l[0] != '{' {
			continue
		}
		k := &known{}
		if json.Unmarshal([]byte(l), k) == nil && k.Status == "known" {
			k.re = regexp.MustCompile(k.Match)
			out = append(out, k)
		}
	}
	return out
}

func (k *known) matches(v *violation) bool {
	if k.Property != v.Prop || (k.Scenario != "" && k.Scenario != v.Name) {
		return false
	}
	for _, f := range v.Fails {
		if !k.re.MatchString(f) {
			return false
		}
	}
	return true
}

type opts struct {
	prop, tier, only string
	budget           time.Duration
	workers          int
	verif            string
	seed             int
	maxLevel         int
	all              bool
}

func check(o *opts) int {
	start := time.Now()
	deadline := start.Add(o.budget)
	knowns := loadKnown(o.verif + "/known-findings.jsonl")
	seenKnown := map[*known]bool{}
	var idx []int
	maxLevel := 0
	for i, s := range scenarios {
		if s.Prop != o.prop || (o.only != "" && !strings.Contains(s.Name, o.only)) {
			continue
		}
		idx = append(idx, i)
		if b := s.bound(o.tier); b.Dev > maxLevel {
			maxLevel = b.Dev
		}
	}
	if len(idx) == 0 {
		fmt.Println("no scenario for", o.prop)
		return 3
	}
	if o.maxLevel >= 0 && o.maxLevel < maxLevel {
		maxLevel = o.maxLevel
	}
	pool := make(chan *wproc, o.workers)
	for i := 0; i < o.workers; i++ {
		pool <- startWorker()
	}
	defer func() {
		for i := 0; i < o.workers; i++ {
			w := <-pool
			w.in.Close()
			w.cmd.Process.Kill()
		}
	}()
	var (
		mu      sync.Mutex
		tot     report
		outs    = map[uint64]bool{}
		viols   []violation
		stats   []*levelStat
		exhaust = true
		hung    = 0
		notes   []string
		perOuts = map[int]map[uint64]bool{}
		samples = map[int][]string{}
	)
	front := map[int][]job{}
	for _, i := range idx {
		front[i] = []job{{S: i}}
		perOuts[i] = map[uint64]bool{}
	}
	for lvl := 0; lvl <= maxLevel && len(viols) == 0; lvl++ {
		// One work queue per level holds the jobs of all scenarios.
		queue := []job{}
		st := map[int]*levelStat{}
		nextFront := map[int][]job{}
		for _, i := range idx {
			if lvl > scenarios[i].bound(o.tier).Dev {
				continue
			}
			st[i] = &levelStat{Scenario: scenarios[i].Name, Level: lvl, Complete: true}
			stats = append(stats, st[i])
			queue = append(queue, front[i]...)
		}
		pending := 0
		cond := sync.NewCond(&mu)
		var wg sync.WaitGroup
		stop := false
		for w := 0; w < o.workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					for len(queue) == 0 && pending > 0 && !stop {
						cond.Wait()
					}
					if time.Now().After(deadline) && len(queue) > 0 && !stop {
						stop = true
						exhaust = false
						notes = append(notes, fmt.Sprintf("time budget reached at %d deviations", lvl))
						for _, j := range queue {
							st[j.S].Complete = false
						}
						queue = nil
					}
					if stop || (len(queue) == 0 && pending == 0) {
						cond.Broadcast()
						mu.Unlock()
						return
					}
					// take a share of the queue, single scenario
					n := len(queue)/(o.workers*4) + 1
					if n > 64 {
						n = 64
					}
					s0 := queue[len(queue)-1].S
					var jobs []job
					for len(queue) > 0 && len(jobs) < n && queue[len(queue)-1].S == s0 && (len(jobs) == 0 || !jobs[0].Solo && !queue[len(queue)-1].Solo) {
						jobs = append(jobs, queue[len(queue)-1])
						queue = queue[:len(queue)-1]
					}
					pending++
					mu.Unlock()
					wp := <-pool
					keep := lvl < scenarios[s0].bound(o.tier).Dev && lvl < maxLevel
					rep, err := wp.do(&task{Tier: o.tier, Jobs: jobs, Keep: keep, Slice: 400 * time.Millisecond}, 60*time.Second)
					if err != nil {
						wp.cmd.Process.Kill()
						wp.cmd.Wait()
						wp = startWorker()
					}
					pool <- wp
					mu.Lock()
					pending--
					if err != nil {
						hung++
						if len(jobs) == 1 && jobs[0].Solo && !jobs[0].Expand {
							// one execution kills or hangs the process every time
							viols = append(viols, violation{S: s0, Name: scenarios[s0].Name, Prop: o.prop, Devs: jobs[0].Devs, Fails: []string{"process died or ran in an endless loop without any scheduling point: " + err.Error()}})
							if !o.all {
								stop = true
							}
						} else {
							for _, j := range jobs {
								j.Solo = true
								queue = append(queue, j)
							}
						}
						if hung > 100 {
							stop = true
							exhaust = false
							st[s0].Complete = false
						}
						notes = append(notes, fmt.Sprintf("worker failed (%v) on %s %s", err, scenarios[s0].Name, devString(jobs[0].Devs)))
						cond.Broadcast()
						mu.Unlock()
						continue
					}
					tot.Execs += rep.Execs
					tot.Steps += rep.Steps
					tot.Points += rep.Points
					tot.Diverged += rep.Diverged
					if rep.Diverged > 0 {
						exhaust = false
						tot.DivMsg = scenarios[s0].Name + ": " + rep.DivMsg
					}
					st[s0].Execs += rep.Execs
					for _, h := range rep.Outs {
						outs[h*31+uint64(s0)] = true
						perOuts[s0][h] = true
					}
					if len(samples[s0]) < 3 {
						samples[s0] = append(samples[s0], rep.Samples...)
					}
					nextFront[s0] = append(nextFront[s0], rep.Nodes...)
					queue = append(queue, rep.Left...)
					for i := range rep.Viol {
						v := rep.Viol[i]
						isKnown := false
						for _, k := range knowns {
							if k.matches(&v) {
								isKnown = true
								seenKnown[k] = true
							}
						}
						if !isKnown {
							viols = append(viols, v)
						}
					}
					if len(viols) > 0 && !o.all || len(viols) > 2000 {
						stop = true
					}
					cond.Broadcast()
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		for _, i := range idx {
			front[i] = nextFront[i]
		}
		if stop {
			break
		}
	}
	code := 0
	nviol := 0
	// confirm violations, fewest deviations first
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Devs) < len(viols[j].Devs) })
	shown := map[string]bool{}
	for _, v := range viols {
		sig := v.Name + "|" + sigOf(v.Fails)
		if shown[sig] || len(shown) >= 12 {
			continue
		}
		okAll := true
		for k := 0; k < 3; k++ {
			w := <-pool
			rep, err := w.do(&task{Tier: o.tier, Jobs: []job{{S: v.S, Devs: v.Devs}}, Slice: time.Millisecond}, 60*time.Second)
			if err != nil {
				w.cmd.Process.Kill()
				w = startWorker()
			}
			pool <- w
			if died := strings.HasPrefix(v.Fails[0], "process died"); died != (err != nil) || err == nil && len(rep.Viol) == 0 {
				okAll = false
			}
		}
		if !okAll {
			notes = append(notes, "violation not reproducible, ignored: "+v.Fails[0])
			exhaust = false
			continue
		}
		shown[sig] = true
		nviol++
		os.MkdirAll(o.verif+"/.replay", 0o755)
		path := fmt.Sprintf("%s/.replay/%s-%d.json", o.verif, o.prop, nviol)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("scenario %s, deviations %s:\n", v.Name, devString(v.Devs))
		for _, f := range v.Fails {
			fmt.Println("   ", f)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
		code = 1
	}
	for _, k := range knowns {
		if seenKnown[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.What)
		}
	}
	var smp []any
	for _, i := range idx {
		for n, s := range samples[i] {
			if n < 2 && len(smp) < 40 {
				smp = append(smp, s)
			}
		}
	}
	if len(notes) > 10 {
		notes = notes[:10]
	}
	distinct := 0
	for _, i := range idx {
		distinct += len(perOuts[i])
	}
	ev := map[string]any{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking", "wall_s": time.Since(start).Seconds(), "violations": nviol,
		"coverage": map[string]any{
			"states": tot.Points + tot.Execs, "transitions": tot.Steps, "traces_validated_against_impl": tot.Execs,
			"evaluations": tot.Execs, "distinct_nontrivial": distinct,
			"rule":       "an execution is one complete run of the instrumented implementation for one choice of inputs, schedule and faults; states counts the distinct choice-tree nodes visited (prefixes of choices), transitions the scheduler steps executed; distinct_nontrivial counts distinct observable outcomes (deliveries, requests seen by the fake brokers, errors) per scenario, scenarios marking an execution trivial excluded",
			"samples":    smp,
			"exhaustive": exhaust,
			"levels":     stats,
			"diverged":   tot.Diverged, "diverged_msg": tot.DivMsg,
			"notes": notes,
		},
		"assumptions": []string{"sequential consistency at the instrumented scheduling points", "bounded small-scope clusters, logs and fault budgets as listed per level", "the fake cluster answers like a Kafka broker"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(o.verif+"/evidence", 0o755)
	if err := os.WriteFile(o.verif+"/evidence/"+o.prop+".json", b, 0o644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s %s: %d executions, %d states, %d steps, %d distinct outcomes, exhaustive=%v, diverged=%d, %.1fs\n", o.prop, o.tier, tot.Execs, tot.Points+tot.Execs, tot.Steps, distinct, exhaust, tot.Diverged, time.Since(start).Seconds())
	for _, s := range stats {
		fmt.Printf("   %-28s k=%d executions=%d complete=%v\n", s.Scenario, s.Level, s.Execs, s.Complete)
	}
	for _, n := range notes {
		fmt.Println("   note:", n)
	}
	if tot.Diverged > 0 {
		fmt.Println("   diverged:", tot.DivMsg)
	}
	return code
}

var digits = regexp.MustCompile(`[0-9a-fx]+`)

func sigOf(f []string) string {
	s := f[0]
	if i := strings.Index(s, "\n"); i > 0 {
		s = s[:i]
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return digits.ReplaceAllString(s, "#")
}

func replay(path, tier string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 3
	}
	for _, sc := range scenarios {
		if sc.Prop == v.Prop && sc.Name == v.Name {
			r := runOne(sc, v.Devs, true, tier)
			for _, e := range r.Events {
				fmt.Println(e)
			}
			fmt.Println("status:", r.Status, r.Crash)
			for _, f := range r.Fails {
				fmt.Println("FAIL:", f)
			}
			if len(r.Fails) > 0 {
				return 1
			}
			return 0
		}
	}
	fmt.Println("no such scenario")
	return 3
}
