//go:build go1.21

// Package hk is the harness kit: plans, runs, oracles' helpers, minimisation,
// replay files and the worker protocol.
package hk

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	rt "github.com/chanjarster/gears/zzsim/rt"
)

// Rng is the generator of plans (splitmix64).
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { r := &Rng{seed}; r.U(); r.U(); return r }
func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// R is uniform in [a,b].
func (r *Rng) R(a, b int) int           { return a + r.N(b-a+1) }
func (r *Rng) R64(a, b int64) int64     { return a + int64(r.U()%uint64(b-a+1)) }
func (r *Rng) P(num, den int) bool      { return r.N(den) < num }
func (r *Rng) Pick(v ...int64) int64    { return v[r.N(len(v))] }
func (r *Rng) PickS(v ...string) string { return v[r.N(len(v))] }

// Op is one generated operation.
type Op struct {
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	S string `json:"s,omitempty"`
}

func (o Op) String() string {
	t := o.K + "("
	t += fmt.Sprint(o.A)
	if o.B != 0 || o.C != 0 {
		t += fmt.Sprintf(",%d", o.B)
	}
	if o.C != 0 {
		t += fmt.Sprintf(",%d", o.C)
	}
	if o.S != "" {
		t += "," + o.S
	}
	return t + ")"
}

// Sim is the schedule and fault space of one plan.
type Sim struct {
	Strategy int   `json:"strategy"`
	SwitchP  int   `json:"switch_p"`
	PCTDepth int   `json:"pct_depth,omitempty"`
	PCTLen   int   `json:"pct_len,omitempty"`
	StallP   int   `json:"stall_p,omitempty"`
	StallMax int64 `json:"stall_max,omitempty"`
	WallBase int64 `json:"wall_base"`
	MaxSteps int   `json:"max_steps,omitempty"`
}

// Plan is everything generated for a run apart from the schedule.
type Plan struct {
	Cfg map[string]int64 `json:"cfg"`
	Ops [][]Op           `json:"ops"`
	Sim Sim              `json:"sim"`
}

func (p *Plan) C(k string) int64 { return p.Cfg[k] }
func (p *Plan) I(k string) int   { return int(p.Cfg[k]) }
func (p *Plan) Clone() *Plan {
	q := &Plan{Cfg: map[string]int64{}, Sim: p.Sim}
	for k, v := range p.Cfg {
		q.Cfg[k] = v
	}
	for _, t := range p.Ops {
		q.Ops = append(q.Ops, append([]Op(nil), t...))
	}
	return q
}
func (p *Plan) NOps() int {
	n := 0
	for _, t := range p.Ops {
		n += len(t)
	}
	return n
}

// Scenario is a workload with an oracle for one property.
type Scenario struct {
	Prop string
	Name string
	Runs int // runs of the quick tier (over all workers)
	Gen  func(r *Rng) *Plan
	Run  func(p *Plan, x *X)
	Race bool // meant for the race build: the verdict is the race detector's
	// Valid, if set, says whether a shrunk plan is still meaningful.
	Valid func(p *Plan) bool
	// Stub describes which components were stubs.
	Real, Stub string
	// NoShrinkCfg keeps the configuration as generated.
	FixedOps bool
	// NoLiveness: a run that exhausts its steps is no violation (overloaded system with slow threads).
	NoLiveness bool
	// By is used instead of Bystander.
	By   func(x *X, r *Rng)
	Cost int // of one run, relative to the others of the property (0 is 1)
}

func (sc *Scenario) cost() float64 {
	if sc.Cost > 0 {
		return float64(sc.Runs) * float64(sc.Cost)
	}
	return float64(sc.Runs)
}

// Violation of a property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type failStop struct{}

// X is the context of one run.
type X struct {
	P      *Plan
	R      *Rng
	viol   *Violation
	probes map[string]int
	faults map[string]int
	n      int
	live   int
	inconc int
	Extra  interface{}
	final  func()
}

// Fail records a violation (the first one counts).
func (x *X) Fail(class, f string, a ...interface{}) {
	if x.viol == nil {
		x.viol = &Violation{class, fmt.Sprintf(f, a...)}
	}
}

// Failed reports whether a violation has been recorded.
func (x *X) Failed() bool { return x.viol != nil }

// Probe counts a rare condition.
func (x *X) Probe(n string) { x.probes[n]++ }

// Fault counts an injected fault that actually fired.
func (x *X) Fault(n string) { x.faults[n]++ }

// Inconclusive notes a history the oracle could not decide within its budget.
func (x *X) Inconclusive() { x.inconc++ }

// Thread starts a harness thread.
func (x *X) Thread(name string, f func()) {
	x.n++
	rt.Spawn(name, func() {
		f()
		rt.ThreadDone()
	})
}

// Join waits until all harness threads are done.
func (x *X) Join() { rt.JoinThreads(x.n) }

// JoinFor waits until all harness threads are done or the time is over.
func (x *X) JoinFor(ns int64) bool { return rt.JoinThreadsFor(x.n, ns) }

// RunOps runs one thread per op list.
func (x *X) RunOps(f func(t int, op Op)) {
	for i := range x.P.Ops {
		i := i
		x.Thread(fmt.Sprintf("T%d", i), func() {
			for _, op := range x.P.Ops[i] {
				rt.YH()
				f(i, op)
			}
		})
	}
}

// RunOpsDone is RunOps with a set-up of each thread.
func (x *X) RunOpsDone(mk func(t int) func(op Op)) {
	for i := range x.P.Ops {
		i := i
		x.Thread(fmt.Sprintf("T%d", i), func() {
			f := mk(i)
			for _, op := range x.P.Ops[i] {
				rt.YH()
				f(op)
			}
		})
	}
}

// Catch runs f and returns its panic value, if any. Goexit passes through.
func Catch(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return
}

// Outcome of one run.
type Outcome struct {
	V      *Violation
	Res    rt.Result
	Probes map[string]int
	Faults map[string]int
	Inconc int
	Hist   []rt.Event
	Races  int
}

// Exec runs a plan once.
func Exec(sc *Scenario, p *Plan, seed uint64, replay []rt.Decision, isReplay, trace bool) Outcome {
	x := &X{P: p, R: NewRng(seed ^ 0xabcdef), probes: map[string]int{}, faults: map[string]int{}}
	cfg := rt.Config{Seed: seed, Strategy: p.Sim.Strategy, SwitchP: p.Sim.SwitchP, PCTDepth: p.Sim.PCTDepth, PCTLen: p.Sim.PCTLen,
		StallP: p.Sim.StallP, StallMax: p.Sim.StallMax, WallBase: p.Sim.WallBase, MaxSteps: p.Sim.MaxSteps, Replay: replay, IsReplay: isReplay, Trace: trace}
	r0 := rt.RaceErrors()
	res := rt.Run(cfg, func() {
		rt.Reset()
		if EachRun != nil {
			EachRun()
		}
		if by := p.C("by"); by > 0 && sc.by() != nil {
			rt.Bystander(func() { sc.by()(x, NewRng(uint64(by))) })
		}
		sc.Run(p, x)
	})
	races := rt.RaceErrors() - r0
	if x.viol == nil {
		switch {
		case res.Crash != "":
			x.Fail("crash", "the process crashed in g(%s): %s", res.CrashG, res.Crash)
		case res.Deadlock:
			x.Fail("deadlock", "every goroutine is blocked for ever: %s", describe(res.Blocked))
		case res.StepLimit && sc.NoLiveness:
			x.inconc++
		case res.StepLimit:
			x.Fail("livelock", "no end within the step limit (%d steps, %v simulated): %s", res.Steps, time.Duration(res.SimNanos), describe(res.Blocked))
		case x.final != nil:
			x.final()
		}
	}
	if sc.Race {
		x.viol = nil
		if races > 0 {
			x.viol = &Violation{"race", "data race"}
		}
	}
	h := append([]rt.Event(nil), rt.History()...)
	if res.Stalls > 0 {
		x.faults["thread_stall"] += res.Stalls
	}
	if res.WallJumps > 0 {
		x.faults["clock_jump"] += res.WallJumps
	}
	return Outcome{V: x.viol, Res: res, Probes: x.probes, Faults: x.faults, Inconc: x.inconc, Hist: h, Races: races}
}

// Final registers a check to run after the simulated run has ended.
func (x *X) Final(f func()) { x.final = f }

func describe(b []string) string {
	if len(b) > 12 {
		b = b[:12]
	}
	return strings.Join(siteify(b), "; ")
}

var siteNames []struct {
	ID  int
	Pos string
	Fn  string
}

func siteify(b []string) []string {
	out := make([]string, len(b))
	for i, t := range b {
		// replace @N and "site N" by positions
		out[i] = siteText(t)
	}
	return out
}

func siteText(t string) string {
	var sb strings.Builder
	for i := 0; i < len(t); i++ {
		pre := ""
		if t[i] == '@' {
			pre = "@"
		} else if strings.HasPrefix(t[i:], "site ") {
			pre = "site "
		}
		if pre != "" {
			j := i + len(pre)
			k := j
			if k < len(t) && t[k] == '-' {
				k++
			}
			for k < len(t) && t[k] >= '0' && t[k] <= '9' {
				k++
			}
			if k > j {
				var id int
				fmt.Sscan(t[j:k], &id)
				sb.WriteString(pre + SiteName(id))
				i = k - 1
				continue
			}
		}
		sb.WriteByte(t[i])
	}
	return sb.String()
}

// SiteName turns a site id into file:line.
func SiteName(id int) string {
	if id > 0 && id < len(siteNames) {
		return siteNames[id].Pos
	}
	switch {
	case id <= -50:
		return "rt"
	case id < 0:
		return fmt.Sprintf("rt%d", id)
	}
	return "harness"
}

// Base is the wall clock at the start of a run unless a scenario says otherwise.
const Base = int64(1700000000) * 1e9

// GenSim draws schedule parameters. stalls allows slow threads.
func GenSim(r *Rng, approxSteps int, stalls bool, stallMax int64) Sim {
	s := Sim{WallBase: Base + r.R64(0, 3e9)}
	switch r.N(10) {
	case 0:
		s.Strategy = rt.StratSerial
	case 1, 2, 3:
		s.Strategy = rt.StratPCT
		s.PCTDepth = r.R(1, 5)
		s.PCTLen = approxSteps
	default:
		s.Strategy = rt.StratRandom
		s.SwitchP = int(r.Pick(15, 40, 100, 250, 500, 800))
	}
	if stalls {
		s.StallP = int(r.Pick(100, 400, 1500, 4000))
		s.StallMax = stallMax
	}
	return s
}

// Bystander uses other instances of what is tested, in some of the runs: they must not
// disturb each other. It is a thread of its own that nobody waits for; it has to end.
var Bystander func(x *X, r *Rng)

func (sc *Scenario) by() func(x *X, r *Rng) {
	if sc.By != nil {
		return sc.By
	}
	return Bystander
}

func genPlan(sc *Scenario, sd uint64) *Plan {
	p := sc.Gen(NewRng(sd))
	if r := NewRng(sd ^ 0xb157a9de5); sc.by() != nil && r.P(1, 8) {
		if p.Cfg == nil {
			p.Cfg = map[string]int64{}
		}
		p.Cfg["by"] = 1 + r.R64(0, 1<<40)
	}
	return p
}

// EachRun is called when a run begins, after the package variables have been reset.
var EachRun func()

// ---- replay files --------------------------------------------------------------

// ReplayFile is a complete description of one failing execution.
type ReplayFile struct {
	Property  string        `json:"property"`
	Scenario  string        `json:"scenario"`
	Group     string        `json:"group"`
	Seed      uint64        `json:"seed"`
	Index     int           `json:"index"`
	Plan      *Plan         `json:"plan"`
	Decisions []rt.Decision `json:"decisions"`
	Violation *Violation    `json:"violation"`
	Hash      string        `json:"hash"`
	OrigOps   int           `json:"original_ops"`
	OrigDecs  int           `json:"original_decisions"`
	History   []string      `json:"history"`
	Schedule  []string      `json:"schedule"`
	Race      bool          `json:"race,omitempty"`
	Tree      string        `json:"tree,omitempty"`
}

func histText(h []rt.Event) []string {
	var out []string
	for _, e := range h {
		out = append(out, fmt.Sprintf("#%d t=%v g%d %s a=%d b=%d %s %s", e.Seq, time.Duration(e.Mono), e.G, e.Kind, e.A, e.B, e.S, vtext(e.V)))
	}
	if len(out) > 400 {
		out = append(out[:400], fmt.Sprintf("... %d more", len(out)-400))
	}
	return out
}

func vtext(v interface{}) string {
	switch v.(type) {
	case nil:
		return ""
	case string, int, int64, bool, []string, error:
		return fmt.Sprintf("%v", v)
	}
	return ""
}

// ---- worker ----------------------------------------------------------------------

// WorkerResult is what a worker process reports.
type WorkerResult struct {
	Runs      int            `json:"runs"`
	PerScen   map[string]int `json:"per_scenario"`
	Steps     int64          `json:"steps"`
	Switches  int64          `json:"switches"`
	Choices   int64          `json:"choices"`
	Nondef    int64          `json:"nondefault_decisions"`
	Timers    int64          `json:"timer_fires"`
	MapPerms  int64          `json:"map_order_permutations"`
	SimNanos  float64        `json:"sim_nanos"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	Inconc    int            `json:"inconclusive"`
	Nontriv   int            `json:"nontrivial"`
	Known     map[string]int `json:"known"`
	Samples   []interface{}  `json:"samples"`
	Violation string         `json:"violation,omitempty"`
	VScen     string         `json:"v_scenario,omitempty"`
	VIndex    int            `json:"v_index"`
	VClass    string         `json:"v_class,omitempty"`
	VMsg      string         `json:"v_msg,omitempty"`
	WallS     float64        `json:"wall_s"`
	Capped    bool           `json:"capped"`
	LogHash   uint64         `json:"log_hash"`
	Real      []string       `json:"real"`
	Stub      []string       `json:"stub"`
	Error     string         `json:"error,omitempty"`
	Unrepro   int            `json:"unreproducible"`
}

// Known finding: a violation of this property, scenario and class whose message
// contains every listed fragment.
type Known struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Class    string   `json:"class"`
	Contains []string `json:"contains"`
	ID       string   `json:"id"`
}

func seedOf(base uint64, sc string, i int) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range []byte(sc) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	h ^= base * 0x9e3779b97f4a7c15
	h = (h ^ uint64(i)) * 1099511628211
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

// Main is the entry point of every group's binary.
func Main(group string, scens []*Scenario) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	log.SetOutput(io.Discard)
	prop := flag.String("prop", "", "")
	only := flag.String("scenario", "", "")
	seed := flag.Uint64("seed", 1, "")
	worker := flag.Int("worker", 0, "")
	stride := flag.Int("stride", 1, "")
	mult := flag.Float64("mult", 1, "")
	wall := flag.Float64("wall", 60, "")
	out := flag.String("out", "", "")
	sites := flag.String("sites", "", "")
	replay := flag.String("replay", "", "")
	known := flag.String("known", "", "")
	hashes := flag.Bool("hashes", false, "")
	hashN := flag.Int("hashn", 50, "")
	verbose := flag.Bool("v", false, "")
	nomin := flag.Bool("nomin", false, "")
	raceOnly := flag.Bool("race", false, "run race scenarios")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	if *prof != "" {
		if f, err := os.Create(*prof); err == nil {
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	if *sites != "" {
		if b, err := os.ReadFile(*sites); err == nil {
			var t struct {
				Sites []struct {
					ID  int
					Pos string
					Fn  string
				}
			}
			if json.Unmarshal(b, &t) == nil {
				siteNames = t.Sites
			}
		}
	}
	rt.SiteName = SiteName
	// a real-time watchdog: a stuck process is an error of the check, never a verdict
	var beat int64
	go func() {
		last, n := int64(-1), 0
		for {
			time.Sleep(5 * time.Second)
			if beat == last {
				n++
			} else {
				n, last = 0, beat
			}
			if n >= 12 {
				buf := make([]byte, 1<<16)
				k := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "WATCHDOG: no progress for 60 s\n%s\n", buf[:k])
				os.Exit(7)
			}
		}
	}()
	if *replay != "" {
		os.Exit(doReplay(scens, *replay, *verbose))
	}
	var sel []*Scenario
	for _, sc := range scens {
		if (*prop == "" || sc.Prop == *prop) && (*only == "" || sc.Name == *only) && sc.Race == *raceOnly {
			sel = append(sel, sc)
		}
	}
	if len(sel) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", *prop)
		os.Exit(4)
	}
	if *hashes {
		for _, sc := range sel {
			for i := *worker; i < *hashN; i += *stride {
				sd := seedOf(*seed, sc.Name, i)
				p := genPlan(sc, sd)
				o := Exec(sc, p, sd, nil, false, false)
				v := ""
				if o.V != nil {
					v = o.V.Class
				}
				fmt.Printf("%s %d %016x %d %d %d %s\n", sc.Name, i, o.Res.Hash, o.Res.Steps, o.Res.NChoices, o.Res.SimNanos, v)
				beat++
			}
		}
		return
	}
	var kn []Known
	if *known != "" {
		if b, err := os.ReadFile(*known); err == nil {
			var doc struct {
				Findings []Known `json:"findings"`
			}
			if err := json.Unmarshal(b, &doc); err != nil {
				fmt.Fprintln(os.Stderr, "known findings:", err)
				os.Exit(5)
			}
			kn = doc.Findings
		}
	}
	w := &WorkerResult{PerScen: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	start := time.Now()
	hs := map[uint64]bool{}
	ih := map[uint64]bool{}
	reals, stubs := map[string]bool{}, map[string]bool{}
	total := 0.0
	for _, sc := range sel {
		total += sc.cost()
	}
	done := 0.0
outer:
	for _, sc := range sel {
		if sc.Real != "" {
			reals[sc.Real] = true
		}
		if sc.Stub != "" {
			stubs[sc.Stub] = true
		}
		n := int(float64(sc.Runs) * *mult)
		done += sc.cost()
		share := *wall * done / total
		for i := *worker; i < n; i += *stride {
			if time.Since(start).Seconds() > share {
				w.Capped = true
				break
			}
			sd := seedOf(*seed, sc.Name, i)
			p := genPlan(sc, sd)
			o := Exec(sc, p, sd, nil, false, false)
			beat++
			w.Runs++
			w.PerScen[sc.Name]++
			w.Steps += int64(o.Res.Steps)
			w.Switches += int64(o.Res.Switches)
			w.Choices += int64(o.Res.NChoices)
			w.Nondef += int64(len(o.Res.Decisions))
			w.Timers += int64(o.Res.TimerFires)
			w.MapPerms += int64(o.Res.MapPerms)
			w.SimNanos += float64(o.Res.SimNanos)
			w.Inconc += o.Inconc
			w.LogHash = w.LogHash*1099511628211 + o.Res.Hash
			for k, v := range o.Faults {
				w.Faults[k] += v
			}
			for k, v := range o.Probes {
				w.Probes[k] += v
			}
			nt := len(o.Res.Decisions) > 0 || len(o.Faults) > 0
			if nt {
				w.Nontriv++
				hs[o.Res.Hash] = true
			}
			ih[o.Res.Interleave] = true
			if len(w.Samples) < 2 && nt && w.PerScen[sc.Name] < 4 {
				h := histText(o.Hist)
				if len(h) > 25 {
					h = h[:25]
				}
				w.Samples = append(w.Samples, map[string]interface{}{"scenario": sc.Name, "index": i, "seed": fmt.Sprint(sd), "plan": p, "decisions": len(o.Res.Decisions), "sim_ns": o.Res.SimNanos, "history_head": h})
			}
			if o.V != nil {
				if k := matchKnown(kn, sc, o.V); k != "" {
					w.Known[k]++
					continue
				}
				rf := &ReplayFile{Property: sc.Prop, Scenario: sc.Name, Group: group, Seed: sd, Index: i, Plan: p, Decisions: append([]rt.Decision{}, o.Res.Decisions...), Violation: o.V,
					Hash: fmt.Sprintf("%016x", o.Res.Hash), OrigOps: p.NOps(), OrigDecs: len(o.Res.Decisions), Race: sc.Race}
				if *nomin {
					w.VMsg = o.V.Msg
				} else if !minimise(sc, rf, func() { beat++ }, kn) {
					if sc.Race {
						w.Unrepro++
						if w.Unrepro < 20 {
							continue
						}
					}
					w.Error = fmt.Sprintf("violation of %s in %s #%d did not replay: %s: %s", sc.Prop, sc.Name, i, o.V.Class, o.V.Msg)
					break outer
				}
				w.VScen, w.VIndex, w.VClass, w.VMsg = sc.Name, i, rf.Violation.Class, rf.Violation.Msg
				w.Violation = *out + ".replay"
				b, _ := json.MarshalIndent(rf, "", " ")
				os.WriteFile(w.Violation, b, 0644)
				break outer
			}
		}
	}
	w.WallS = time.Since(start).Seconds()
	for k := range reals {
		w.Real = append(w.Real, k)
	}
	for k := range stubs {
		w.Stub = append(w.Stub, k)
	}
	sort.Strings(w.Real)
	sort.Strings(w.Stub)
	writeSet(*out+".hs", hs)
	writeSet(*out+".ih", ih)
	b, err := json.Marshal(w)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(6)
	}
	os.WriteFile(*out, b, 0644)
}

func matchKnown(kn []Known, sc *Scenario, v *Violation) string {
	for _, k := range kn {
		if k.Property != sc.Prop || (k.Scenario != "" && k.Scenario != sc.Name) || k.Class != v.Class {
			continue
		}
		ok := true
		for _, c := range k.Contains {
			if !strings.Contains(v.Msg, c) {
				ok = false
			}
		}
		if ok {
			return k.ID
		}
	}
	return ""
}

func writeSet(path string, m map[uint64]bool) {
	var b bytes.Buffer
	for k := range m {
		binary.Write(&b, binary.LittleEndian, k)
	}
	os.WriteFile(path, b.Bytes(), 0644)
}

func doReplay(scens []*Scenario, file string, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	for _, sc := range scens {
		if sc.Name != rf.Scenario || sc.Prop != rf.Property || sc.Race != rf.Race {
			continue
		}
		o := Exec(sc, rf.Plan, rf.Seed, rf.Decisions, true, true)
		if verbose {
			for _, l := range histText(o.Hist) {
				fmt.Println(l)
			}
			for _, l := range siteify(o.Res.Trace) {
				fmt.Println(l)
			}
		}
		if o.V == nil {
			fmt.Printf("REPLAY no violation (hash %016x, recorded %s)\n", o.Res.Hash, rf.Hash)
			return 0
		}
		same := o.V.Class == rf.Violation.Class && o.V.Msg == rf.Violation.Msg && fmt.Sprintf("%016x", o.Res.Hash) == rf.Hash
		fmt.Printf("REPLAY property=%s class=%s identical=%v hash=%016x: %s\n", rf.Property, o.V.Class, same, o.Res.Hash, o.V.Msg)
		if same {
			return 1
		}
		return 2
	}
	fmt.Fprintln(os.Stderr, "scenario not in this binary")
	return 4
}
