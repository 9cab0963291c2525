// Command mcmain drives the exploration of one property: it enumerates the
// units (scenario x configuration x default order), farms them out to worker
// processes, confirms violations by replay and writes the evidence file.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	mc "MCRTPATH"
	_ "SCENPATH"
)

type unit struct {
	Prop, Scenario, Config string
	Policy                 int
	Min, Max               int
	Seconds                float64
	Promoted               []string
	Thorough               bool
	Choices                []int // replay when non-nil
	Trace                  bool
	MaxExecs               int64
}

type replayFile struct {
	Property, Scenario, Config string
	Policy                     int
	Thorough                   bool
	Promoted                   []string
	Choices                    []int
	Violation                  string
	Ops                        []string
}

type workerOut struct {
	Unit   *mc.UnitResult
	Viol   string
	Ops    []string
	Log    []string
	Replay bool
}

func find(prop, sc, cfg string, thorough bool) (*mc.Scenario, *mc.Config) {
	for _, s := range mc.Scenarios {
		if s.Name != sc || s.Prop != prop {
			continue
		}
		for _, c := range s.Configs(thorough) {
			c := c
			if c.Name == cfg {
				return s, &c
			}
		}
	}
	return nil, nil
}

func worker() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	if f := os.Getenv("MC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer func() {
			pprof.StopCPUProfile()
			runtime.GC()
			h, _ := os.Create(f + ".heap")
			pprof.WriteHeapProfile(h)
			g, _ := os.Create(f + ".gor")
			pprof.Lookup("goroutine").WriteTo(g, 1)
		}()
	}
	mc.HangHook = func(r *mc.UnitResult) { out.Encode(workerOut{Unit: r}) }
	mc.ReplayHang = func(msg string) { out.Encode(workerOut{Viol: msg, Replay: true}) }
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var u unit
		if err := json.Unmarshal(line, &u); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		s, c := find(u.Prop, u.Scenario, u.Config, u.Thorough)
		if s == nil {
			fmt.Fprintln(os.Stderr, "no such unit", u.Scenario, u.Config)
			os.Exit(4)
		}
		if u.Choices != nil {
			v, ops, log := mc.Replay(s, c, u.Policy, u.Promoted, u.Choices, u.Trace)
			out.Encode(workerOut{Viol: v, Ops: ops, Log: log, Replay: true})
			continue
		}
		r := mc.Explore(s, c, u.Policy, u.Min, u.Max, u.Promoted, time.Now().Add(time.Duration(u.Seconds*float64(time.Second))), u.MaxExecs)
		out.Encode(workerOut{Unit: r})
	}
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

// tail keeps the last part of what is written to it.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 16<<10 {
		t.b = append(append([]byte{}, t.b[:4<<10]...), t.b[len(t.b)-8<<10:]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func start() *proc {
	p := &proc{cmd: exec.Command(os.Args[0], "worker"), err: &tail{}}
	p.cmd.Stderr = p.err
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.out = bufio.NewReaderSize(o, 1<<20)
	if err := p.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return p
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// ask sends a unit; on death of the worker returns what it printed.
func (p *proc) ask(u *unit) (*workerOut, string) {
	b, _ := json.Marshal(u)
	p.in.Write(append(b, '\n'))
	for {
		line, err := p.out.ReadBytes('\n')
		if err != nil {
			p.cmd.Wait()
			return nil, p.err.String()
		}
		if len(line) == 0 || line[0] != '{' {
			continue
		}
		var o workerOut
		if err := json.Unmarshal(line, &o); err != nil {
			continue
		}
		return &o, ""
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type known struct {
	Property  string `json:"property"`
	Status    string `json:"status"`
	Scenario  string `json:"scenario"`
	Config    string `json:"config"`
	Match     string `json:"match"`
	What      string `json:"what"`
	Commit    string `json:"commit"`
	FixedLine string `json:"line"`
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "list":
		for _, s := range mc.Scenarios {
			for _, c := range s.Configs(true) {
				fmt.Println(s.Prop, s.Name, c.Name)
			}
		}
	case "replay":
		replay(os.Args[2])
	case "check":
		check(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	p := start()
	ch := r.Choices
	if ch == nil {
		ch = []int{}
	}
	o, e := p.ask(&unit{Prop: r.Property, Scenario: r.Scenario, Config: r.Config, Policy: r.Policy, Thorough: r.Thorough, Promoted: r.Promoted, Choices: ch, Trace: true})
	if o == nil {
		fmt.Println("worker died:", e)
		os.Exit(1)
	}
	for _, l := range o.Ops {
		fmt.Println(l)
	}
	if o.Viol == "" {
		fmt.Println("no violation on this schedule")
		return
	}
	fmt.Println("VIOLATION", o.Viol)
	os.Exit(1)
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	evid := fs.String("evidence", "", "evidence file")
	knownF := fs.String("known", "", "known findings file")
	rdir := fs.String("replays", "", "directory for replay files")
	seed := fs.Int("seed", 1, "seed (unused: nothing is random)")
	budget := fs.Float64("budget", 60, "wall seconds for exploration")
	only := fs.String("only", "", "only scenarios containing this")
	verbose := fs.Bool("v", false, "verbose")
	order := fs.Int("order", -1, "explore only this default order")
	maxb := fs.Int("bound", -1, "override bound")
	lvl := fs.String("level", "model_checking", "")
	fs.Parse(args)
	thorough := *tier == "thorough"
	t0 := time.Now()
	nw := runtime.NumCPU()
	var knowns []known
	if b, err := os.ReadFile(*knownF); err == nil {
		if err := json.Unmarshal(b, &knowns); err != nil {
			fmt.Fprintln(os.Stderr, "known findings file:", err)
			os.Exit(2)
		}
	}

	type ustate struct {
		u    unit
		cfg  mc.Config
		res  []*mc.UnitResult
		best int
		done bool
		tgt  int
		dead string
		pr   []string
		kn   *known
		hit  bool
	}
	var us []*ustate
	for _, s := range mc.Scenarios {
		if s.Prop != *prop || *only != "" && !strings.Contains(s.Name, *only) {
			continue
		}
		for _, c := range s.Configs(thorough) {
			pol := c.Policies
			if pol == nil {
				pol = []int{0}
			}
			if c.MaxBound != 0 || *maxb > 0 {
				for _, p := range pol {
					if p < 10 {
						pol = append(pol[:len(pol):len(pol)], 10+p)
					}
				}
			}
			if *order >= 0 {
				pol = []int{*order}
			}
			for _, p := range pol {
				tgt := c.MaxBound
				if tgt < 0 {
					tgt = 2
					if thorough {
						tgt = 3
					}
				}
				if *maxb >= 0 {
					tgt = *maxb
				}
				st := &ustate{u: unit{Prop: *prop, Scenario: s.Name, Config: c.Name, Policy: p, Thorough: thorough}, cfg: c, best: -1, tgt: tgt}
				for i := range knowns {
					k := &knowns[i]
					if k.Status == "known" && k.Property == *prop && k.Scenario == s.Name && k.Config == c.Name {
						st.kn = k
					}
				}
				us = append(us, st)
			}
		}
	}
	if len(us) == 0 {
		fmt.Fprintln(os.Stderr, "no units for", *prop)
		os.Exit(2)
	}
	var mu sync.Mutex
	var violation *replayFile
	var notes []string
	stopAll := false
	end := t0.Add(time.Duration(*budget * float64(time.Second)))

	confirm := func(u unit, r *mc.UnitResult) (bool, []string) {
		var ops []string
		n := 5
		if strings.HasPrefix(r.Violation, "hang:") {
			n = 1
		}
		ch := r.Choices
		if ch == nil {
			ch = []int{}
		}
		for i := 0; i < n; i++ {
			p := start()
			o, e := p.ask(&unit{Prop: u.Prop, Scenario: u.Scenario, Config: u.Config, Policy: u.Policy, Thorough: u.Thorough, Promoted: r.Promoted, Choices: ch, Trace: i == 0})
			p.stop()
			if o == nil {
				if strings.HasPrefix(r.Violation, "crash: process died") || strings.HasPrefix(r.Violation, "hang:") {
					continue
				}
				mu.Lock()
				notes = append(notes, "replay died: "+e)
				mu.Unlock()
				return false, nil
			}
			if o.Unit != nil { // hang
				continue
			}
			if o.Viol == "" { // the text itself may differ, in addresses for example
				mu.Lock()
				notes = append(notes, fmt.Sprintf("not reproduced: %q vs %q", firstLine(r.Violation), firstLine(o.Viol)))
				mu.Unlock()
				return false, nil
			}
			if i == 0 {
				ops = o.Ops
			}
		}
		return true, ops
	}

	round := func(list []*ustate, min, max int, limit float64) {
		work := make(chan *ustate, len(list))
		for _, x := range list {
			work <- x
		}
		close(work)
		left := len(list)
		var wg sync.WaitGroup
		for i := 0; i < nw; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := start()
				defer func() { p.stop() }()
				for st := range work {
					mu.Lock()
					if stopAll {
						mu.Unlock()
						return
					}
					remain := time.Until(end).Seconds()
					cap := remain * float64(nw) / float64(left+nw-1)
					if cap < 2 {
						cap = 2
					}
					if cap > remain {
						cap = remain
					}
					left--
					if remain <= 0 {
						mu.Unlock()
						continue
					}
					u := st.u
					u.Min, u.Max, u.Promoted = min, max, st.pr
					if u.Max > st.tgt {
						u.Max = st.tgt
					}
					mu.Unlock()
					if limit > 0 && cap > limit {
						cap = limit
					}
					u.Seconds = cap
					o, e := p.ask(&u)
					// a machine that stood still for a while is no verdict
					for try := 0; try < 2 && (o == nil && !crashed(e) || o != nil && o.Unit != nil && strings.HasPrefix(o.Unit.Violation, "hang:")); try++ {
						p.stop()
						p = start()
						if o != nil {
							if ok, _ := confirm(u, o.Unit); ok {
								break
							}
						}
						o, e = p.ask(&u)
					}
					if o != nil && o.Unit != nil && strings.HasPrefix(o.Unit.Violation, "hang:") {
						p.stop()
						p = start()
					}
					var r *mc.UnitResult
					if o == nil {
						if crashed(e) {
							r = &mc.UnitResult{Prop: u.Prop, Scenario: u.Scenario, Config: u.Config, Policy: u.Policy, Violation: "crash: process died: " + e, Outcomes: map[string]int{}}
						}
						p.stop()
						p = start()
						if r == nil {
							mu.Lock()
							st.dead = e
							st.done = true
							notes = append(notes, fmt.Sprintf("%s/%s: worker died: %s", u.Scenario, u.Config, e))
							mu.Unlock()
							continue
						}
					} else {
						r = o.Unit
					}
					if r.Violation != "" {
						if st.kn != nil && strings.HasPrefix(firstLine(r.Violation), st.kn.Match) {
							mu.Lock()
							st.hit = true
							st.done = true
							st.res = append(st.res, r)
							mu.Unlock()
							continue
						}
						ok, ops := true, []string(nil)
						if !strings.HasPrefix(r.Violation, "crash: process died") {
							ok, ops = confirm(u, r)
						}
						mu.Lock()
						if ok && violation == nil {
							violation = &replayFile{Property: *prop, Scenario: u.Scenario, Config: u.Config, Policy: u.Policy, Thorough: thorough,
								Promoted: r.Promoted, Choices: r.Choices, Violation: r.Violation, Ops: ops}
							stopAll = true
						}
						st.done = true
						st.res = append(st.res, r)
						mu.Unlock()
						if ok {
							return
						}
						continue
					}
					mu.Lock()
					st.res = append(st.res, r)
					if r.Bound > st.best {
						st.best = r.Bound
					}
					st.pr = r.Promoted
					if st.best >= st.tgt {
						st.done = true
					}
					if *verbose {
						fmt.Fprintf(os.Stderr, "%-22s %-34s p%d bound=%d/%d execs=%d pruned=%d states=%d steps=%d outcomes=%d thr=%d %.1fs %v\n", r.Scenario, r.Config, r.Policy, r.Bound, u.Max,
							r.Execs, r.Pruned, r.States, r.Steps, len(r.Outcomes), r.MaxThreads, r.Seconds, r.Promoted)
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	todo := func() []*ustate {
		var l []*ustate
		for _, x := range us {
			if !x.done {
				l = append(l, x)
			}
		}
		return l
	}
	round(todo(), 0, 1, *budget*0.5)
	// units cut off by their share of the time get what is left
	var cut []*ustate
	for _, x := range todo() {
		if x.best < x.tgt && x.best < 1 {
			cut = append(cut, x)
		}
	}
	if len(cut) > 0 && !stopAll && time.Now().Before(end) {
		round(cut, 0, 1, 0)
	}
	for b := 2; b <= 8 && !stopAll; b++ {
		var l []*ustate
		for _, x := range todo() {
			if x.best == b-1 && x.tgt >= b {
				l = append(l, x)
			}
		}
		if len(l) == 0 || time.Now().After(end) {
			break
		}
		// cheapest first, so that every unit gets its share
		sort.SliceStable(l, func(i, j int) bool { return last(l[i].res).Execs < last(l[j].res).Execs })
		round(l, b, b, 0)
	}

	// evidence
	var execs, pruned, steps, states, decs int64
	outcomes := map[string]bool{}
	exhaustive := true
	var perUnit []interface{}
	var samples []interface{}
	var promoted = map[string]bool{}
	for _, x := range us {
		var r *mc.UnitResult
		ue, ust := int64(0), int64(0)
		for _, q := range x.res {
			execs += q.Execs
			pruned += q.Pruned
			steps += q.Steps
			decs += q.Decisions
			ue += q.Execs
			if q.States > ust {
				ust = q.States
			}
			r = q
			for o := range q.Outcomes {
				outcomes[q.Scenario+"/"+q.Config+": "+o] = true
			}
			for _, p := range q.Promoted {
				promoted[p] = true
			}
		}
		states += ust
		if x.best < x.tgt && !x.hit {
			exhaustive = false
		}
		oc := 0
		if r != nil {
			oc = len(r.Outcomes)
			if len(samples) < 12 && r.Sample != "" {
				samples = append(samples, fmt.Sprintf("%s/%s order=%d: %s", r.Scenario, r.Config, r.Policy, r.Sample))
			}
		}
		perUnit = append(perUnit, map[string]interface{}{"scenario": x.u.Scenario, "config": x.u.Config, "order": x.u.Policy, "bound_completed": x.best, "bound_target": x.tgt, "executions": ue, "states": ust, "outcomes": oc})
	}
	var prl []string
	for p := range promoted {
		prl = append(prl, p)
	}
	sort.Strings(prl)
	nv := 0
	if violation != nil {
		nv = 1
		exhaustive = false
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": *seed, "level": *lvl, "wall_s": time.Since(t0).Seconds(), "violations": nv,
		"coverage": map[string]interface{}{
			"states": states, "transitions": steps, "traces_validated_against_impl": execs - pruned, "executions": execs, "pruned_by_state_cache": pruned,
			"decisions": decs, "distinct_outcomes": len(outcomes), "exhaustive": exhaustive, "samples": samples, "units": perUnit,
			"racy_variables_as_scheduling_points": prl, "notes": notes,
			"explanation": "every execution runs the real (instrumented) implementation; states are distinct happens-before states at decision points, transitions are scheduler steps, traces_validated_against_impl counts complete executions of the implementation whose oracle was evaluated",
		},
		"assumptions": []string{"sequentially consistent memory; data races are found by vector clocks and turned into scheduling points", "bounds: deviations from the default schedule as listed per unit; virtual time; simulated network", "the rewriter and the controlled runtime preserve Go semantics"},
	}
	if *evid != "" {
		os.MkdirAll(filepath.Dir(*evid), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*evid, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	for _, n := range notes {
		fmt.Fprintln(os.Stderr, "note:", n)
	}
	printed := map[string]bool{}
	for _, x := range us {
		if x.hit && !printed[x.kn.What] {
			printed[x.kn.What] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, x.kn.What)
		}
	}
	fmt.Printf("%s %s: units=%d executions=%d (pruned %d) states=%d steps=%d outcomes=%d exhaustive=%v %.1fs\n", *prop, *tier, len(us), execs, pruned, states, steps, len(outcomes), exhaustive, time.Since(t0).Seconds())
	if violation != nil {
		os.MkdirAll(*rdir, 0755)
		f := filepath.Join(*rdir, *prop+".json")
		b, _ := json.MarshalIndent(violation, "", " ")
		os.WriteFile(f, b, 0644)
		fmt.Printf("scenario=%s config=%s order=%d\n%s\n", violation.Scenario, violation.Config, violation.Policy, violation.Violation)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f)
		os.Exit(1)
	}
}

func last(l []*mc.UnitResult) *mc.UnitResult {
	if len(l) == 0 {
		return &mc.UnitResult{}
	}
	return l[len(l)-1]
}

// crashed tells whether the code under test ended its process.
func crashed(e string) bool {
	return strings.Contains(e, "stack overflow") || strings.Contains(e, "goroutine stack exceeds") ||
		strings.Contains(e, "fatal error:") && !strings.Contains(e, "mcrt internal error") && !strings.Contains(e, "out of memory")
}
