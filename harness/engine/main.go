package engine

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Prop is one property's check.
type Prop struct {
	ID       string
	Families func(w *W) []*Family
	// What a state and a transition are, for the evidence.
	Rule        string
	Assumptions []string
	Workers     int           // 0: one per core
	Procs       int           // GOMAXPROCS of a worker; 0: 1
	Hang        time.Duration // 0: 40 s
	Quick       time.Duration // 0: 300 s of exploration
	Thorough    time.Duration // 0: 700 s
}

type result struct {
	Families   []FamStat   `json:"families"`
	Violations []Violation `json:"violations"`
	Samples    []string    `json:"samples"`
	Done       bool        `json:"done"`
}

// Main runs a check (or, internally, one of its workers, or a replay).
func Main(props []*Prop) {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verif := flag.String("verif", "/verif", "framework directory")
	worker := flag.String("worker", "", "internal: k/n")
	dir := flag.String("dir", "", "internal: worker directory")
	skip := flag.String("skip", "", "internal: family/counter to skip up to")
	deadline := flag.Int64("deadline", 0, "internal: unix time")
	replay := flag.String("replay", "", "replay a violation file")
	only := flag.String("families", "", "only families with this prefix")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	if *replay != "" {
		os.Exit(replayFile(props, *replay, *tier))
	}
	var p *Prop
	for _, q := range props {
		if q.ID == *prop {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *worker != "" {
		runWorker(p, *tier, *worker, *dir, *skip, *deadline, *only)
		return
	}
	os.Exit(supervise(p, *tier, *verif, *only))
}

func limits() {
	lim := uint64(6 << 30)
	if raceEnabled {
		return
	}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(2 << 30)
}

func runWorker(p *Prop, tier, shard, dir, skip string, deadline int64, only string) {
	limits()
	w := &W{Prop: p.ID, Tier: tier, Dir: dir, States: map[uint64]struct{}{}, skipFam: -1}
	fmt.Sscanf(shard, "%d/%d", &w.shard, &w.n)
	if skip != "" {
		fmt.Sscanf(skip, "%d/%d", &w.skipFam, &w.skipTo)
	}
	w.shm = mapShared(filepath.Join(dir, "shm"))
	w.deadline = time.Unix(deadline, 0)
	if b, err := os.ReadFile(filepath.Join(filepath.Dir(dir), "known")); err == nil {
		w.known = map[string]bool{} // false: not met yet
		for _, sig := range strings.Fields(string(b)) {
			w.known[sig] = false
		}
	}
	res := result{Done: true}
	for i, f := range p.Families(w) {
		if i < w.skipFam || (only != "" && !strings.HasPrefix(f.Name, only)) {
			continue
		}
		st, all := w.runFamily(i, f)
		res.Families = append(res.Families, st)
		if all {
			break
		}
	}
	res.Violations, res.Samples = w.Violations, w.Samples
	b, _ := json.Marshal(res)
	_ = os.WriteFile(filepath.Join(dir, "result"), b, 0o600)
	sb := make([]byte, 0, 8*len(w.States))
	for h := range w.States {
		sb = binary.LittleEndian.AppendUint64(sb, h)
	}
	_ = os.WriteFile(filepath.Join(dir, "states"), sb, 0o600)
}

// ReplayCase is the content of a replay file.
type ReplayCase struct {
	Property string `json:"property"`
	Violation
	How string `json:"how"`
}

func runCase(p *Prop, tier, dir, fam string, picks []int) []Violation {
	w := &W{Prop: p.ID, Tier: tier, Dir: dir, States: map[uint64]struct{}{}, n: 1, only: true, skipFam: -1, deadline: time.Now().Add(time.Hour)}
	for i, f := range p.Families(w) {
		if f.Name != fam {
			continue
		}
		st := FamStat{}
		w.famIdx, w.fam, w.stat = i, f, &st
		x := &X{budget: 1 << 30}
		for _, k := range picks {
			x.trail = append(x.trail, step{pick: k})
		}
		w.x = x
		f.Run(x, w)
	}
	return w.Violations
}

func replayFile(props []*Prop, path, tier string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var c ReplayCase
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if strings.HasPrefix(c.How, "tier=") {
		tier = strings.TrimPrefix(c.How, "tier=")
	}
	limits()
	dir, err := scratch("verif-replay-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	for _, p := range props {
		if p.ID != c.Property {
			continue
		}
		vs := runCase(p, tier, dir, c.Family, c.Picks)
		for _, v := range vs {
			fmt.Printf("property %s, family %s\n%s\n--- input\n%s\n", p.ID, v.Family, v.Msg, v.Input)
		}
		if len(vs) > 0 {
			return 1
		}
		fmt.Println("not reproduced: the property holds on this case")
	}
	return 0
}

func supervise(p *Prop, tier, verif, only string) int {
	start := time.Now()
	n := p.Workers
	if n == 0 {
		n = 8
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		n = v
	}
	hang := p.Hang
	if hang == 0 {
		hang = 40 * time.Second
	}
	limit := p.Quick
	if limit == 0 {
		limit = 300 * time.Second
	}
	if tier == "thorough" {
		if limit = p.Thorough; limit == 0 {
			limit = 700 * time.Second
		}
	}
	deadline := start.Add(limit)
	root, err := scratch("verif-" + p.ID + "-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(root)
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), p.ID)
	sigs := ""
	for sig := range known {
		sigs += sig + "\n"
	}
	_ = os.WriteFile(filepath.Join(root, "known"), []byte(sigs), 0o600)

	results := make([]*result, n)
	crashes := make([][]Violation, n)
	states := make([][]byte, n)
	var notes []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	failed := false
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			skip := ""
			for attempt := 0; ; attempt++ {
				dir := filepath.Join(root, fmt.Sprintf("w%d-%d", k, attempt))
				_ = os.MkdirAll(dir, 0o755)
				res, sb, dead := runProc(p, tier, k, n, dir, skip, deadline, hang, only)
				if dead == nil {
					mu.Lock()
					if res == nil {
						failed = true
						notes = append(notes, fmt.Sprintf("worker %d ended without a result", k))
					} else if results[k] == nil {
						results[k] = res
					} else {
						results[k].Families = append(results[k].Families, res.Families...)
						results[k].Violations = append(results[k].Violations, res.Violations...)
						results[k].Samples = append(results[k].Samples, res.Samples...)
					}
					states[k] = append(states[k], sb...)
					mu.Unlock()
					return
				}
				if dead.fam < 0 {
					mu.Lock()
					failed = true
					notes = append(notes, "worker died before its first case: "+clip(dead.msg, 3000))
					mu.Unlock()
					return
				}
				v, ok := confirm(p, tier, root, dead)
				mu.Lock()
				if ok {
					crashes[k] = append(crashes[k], v)
				} else {
					notes = append(notes, fmt.Sprintf("worker %d: %s in family #%d not reproduced in isolation; continuing after it", k, dead.kind, dead.fam))
				}
				mu.Unlock()
				if len(crashes[k]) >= 2 || attempt >= 4 || time.Now().After(deadline) {
					mu.Lock()
					if results[k] == nil {
						results[k] = &result{}
					}
					mu.Unlock()
					return
				}
				skip = fmt.Sprintf("%d/%d", dead.fam, dead.counter)
			}
		}(k)
	}
	wg.Wait()

	// Merge.
	type agg struct {
		FamStat
		workers int
	}
	order := []string{}
	fams := map[string]*agg{}
	var samples []string
	var viol []Violation
	distinct := map[uint64]struct{}{}
	for k, r := range results {
		viol = append(viol, crashes[k]...)
		for i := 0; i+8 <= len(states[k]); i += 8 {
			distinct[binary.LittleEndian.Uint64(states[k][i:])] = struct{}{}
		}
		if r == nil {
			continue
		}
		viol = append(viol, r.Violations...)
		if len(samples) < 60 {
			samples = append(samples, r.Samples...)
		}
		for _, f := range r.Families {
			a := fams[f.Name]
			if a == nil {
				a = &agg{FamStat: FamStat{Name: f.Name, Bound: f.Bound}}
				fams[f.Name] = a
				order = append(order, f.Name)
			}
			a.Executions += f.Executions
			a.Steps += f.Steps
			if f.Choices > a.Choices {
				a.Choices = f.Choices
			}
			if f.Complete {
				a.workers++
			}
		}
	}
	exhaustive := !failed
	var execs, choices, steps uint64
	famOut := []FamStat{}
	for _, name := range order {
		a := fams[name]
		a.Complete = a.workers >= n
		exhaustive = exhaustive && a.Complete
		execs += a.Executions
		choices += a.Choices
		steps += a.Steps
		famOut = append(famOut, a.FamStat)
	}
	sort.SliceStable(viol, func(i, j int) bool { return len(viol[i].Input) < len(viol[j].Input) })

	newV, knownV := []Violation{}, map[string]string{}
	for _, v := range viol {
		if text, ok := known[v.Sig]; ok {
			knownV[v.Sig] = text
		} else {
			newV = append(newV, v)
		}
	}
	for sig, text := range knownV {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, text, sig)
	}
	replays := filepath.Join(verif, "replays")
	_ = os.MkdirAll(replays, 0o755)
	for i, v := range newV {
		if i >= 3 {
			break
		}
		path := filepath.Join(replays, fmt.Sprintf("%s-%d.json", p.ID, i))
		b, _ := json.MarshalIndent(ReplayCase{Property: p.ID, Violation: v, How: "tier=" + tier}, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  family %s, %s\n  %s\n", v.Family, v.Sig, strings.ReplaceAll(clip(v.Msg, 2000), "\n", "\n  "))
		fmt.Printf("  input: %s\n", strings.ReplaceAll(clip(v.Input, 1500), "\n", "\n    "))
	}
	if len(samples) > 25 {
		samples = samples[:25]
	}
	transitions := choices
	if steps > 0 {
		transitions = steps
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": 1, "level": "model_checking",
		"coverage": map[string]any{
			"states": len(distinct), "transitions": transitions, "traces_validated_against_impl": execs,
			"choice_tree_nodes": choices, "samples": samples, "families": famOut,
			"exhaustive": exhaustive, "rule": p.Rule, "notes": notes,
		},
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(newV),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if only == "" {
		if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, s := range notes {
		fmt.Println("note:", s)
	}
	for _, f := range famOut {
		c := ""
		if !f.Complete {
			c = " INCOMPLETE"
		}
		fmt.Printf("  %-34s %9d executions %10d choices%s\n", f.Name, f.Executions, f.Choices, c)
	}
	fmt.Printf("%s %s: %d executions, %d distinct states, %d transitions, exhaustive=%v, %.1fs, %d violations\n",
		p.ID, tier, execs, len(distinct), transitions, exhaustive, time.Since(start).Seconds(), len(newV))
	if len(newV) > 0 {
		return 1
	}
	if failed {
		return 2
	}
	return 0
}

type death struct {
	kind    string
	fam     int
	counter uint64
	picks   []int
	msg     string
}

func runProc(p *Prop, tier string, k, n int, dir, skip string, deadline time.Time, hang time.Duration, only string) (*result, []byte, *death) {
	shm := mapShared(filepath.Join(dir, "shm"))
	if shm == nil {
		return nil, nil, nil
	}
	defer syscall.Munmap(shm)
	self, _ := os.Executable()
	cmd := exec.Command(self, "-prop", p.ID, "-tier", tier, "-worker", fmt.Sprintf("%d/%d", k, n), "-dir", dir,
		"-skip", skip, "-deadline", fmt.Sprint(deadline.Unix()), "-families", only)
	var out tail
	cmd.Stdout, cmd.Stderr = &out, &out
	procs := p.Procs
	if procs == 0 {
		procs = 1
	}
	cmd.Env = append(os.Environ(), fmt.Sprint("GOMAXPROCS=", procs))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, nil, &death{kind: "start", fam: -1, msg: err.Error()}
	}
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	kill := func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL); <-exited }
	last, lastAt := uint64(0), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-exited:
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // stragglers
			if b, rerr := os.ReadFile(filepath.Join(dir, "result")); err == nil && rerr == nil {
				var r result
				if json.Unmarshal(b, &r) == nil && r.Done {
					sb, _ := os.ReadFile(filepath.Join(dir, "states"))
					return &r, sb, nil
				}
			}
			d := lastCase(shm)
			d.kind, d.msg = "crash", fmt.Sprintf("%v\n%s", err, out.String())
			return nil, nil, d
		case <-tick.C:
			now := *(*uint64)(unsafe.Pointer(&shm[0]))
			if now != last {
				last, lastAt = now, time.Now()
			} else if time.Since(lastAt) > hang && now > 0 {
				kill()
				d := lastCase(shm)
				d.kind, d.msg = "hang", fmt.Sprintf("no progress for %v", hang)
				return nil, nil, d
			} else if time.Since(lastAt) > hang+300*time.Second {
				kill()
				return nil, nil, &death{kind: "hang", fam: -1, msg: "worker never started"}
			}
			if time.Now().After(deadline.Add(120 * time.Second)) {
				kill()
				d := lastCase(shm)
				d.kind, d.msg = "hang", "ran past its deadline"
				return nil, nil, d
			}
		}
	}
}

func lastCase(shm []byte) *death {
	get := func(i int) uint64 { return *(*uint64)(unsafe.Pointer(&shm[i])) }
	if get(8) == 0 {
		return &death{fam: -1}
	}
	d := &death{fam: int(get(24)), counter: get(32)}
	n := int(get(40))
	for i := 0; i < n; i++ {
		d.picks = append(d.picks, int(*(*uint32)(unsafe.Pointer(&shm[48+4*i]))))
	}
	return d
}

// confirm replays a case that killed or blocked its worker, alone, in a fresh
// process.
func confirm(p *Prop, tier, root string, d *death) (Violation, bool) {
	dir, _ := os.MkdirTemp(root, "confirm-")
	w := &W{Prop: p.ID, Tier: tier, Dir: dir}
	fams := p.Families(w)
	if d.fam >= len(fams) {
		return Violation{}, false
	}
	v := Violation{Family: fams[d.fam].Name, Picks: d.picks, Sig: d.kind}
	c := ReplayCase{Property: p.ID, Violation: v, How: "tier=" + tier}
	b, _ := json.Marshal(c)
	path := filepath.Join(dir, "case.json")
	_ = os.WriteFile(path, b, 0o600)
	self, _ := os.Executable()
	seen := 0
	for i := 0; i < 2; i++ {
		cmd := exec.Command(self, "-prop", p.ID, "-tier", tier, "-replay", path)
		var out tail
		cmd.Stdout, cmd.Stderr = &out, &out
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if cmd.Start() != nil {
			continue
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			if err != nil {
				seen++
				v.Msg = "the process died:\n" + clip(crashText(out.String()), 3000)
			}
		case <-time.After(60 * time.Second):
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			seen++
			v.Msg = "no result after 60 s"
		}
	}
	if seen < 2 && d.kind == "crash" && strings.Contains(d.msg, "/repo/") {
		// depends on what ran before in the same process, but it is the code's own crash
		seen = 2
		v.Msg = "the process died (not when replayed alone):\n" + clip(crashText(d.msg), 3000)
	}
	v.Input = describe(p, tier, dir, v)
	return v, seen == 2
}

func crashText(s string) string {
	for _, m := range []string{"fatal error:", "panic:", "runtime:"} {
		if i := strings.Index(s, m); i >= 0 {
			return s[i:]
		}
	}
	return s
}

// describe re-runs only the generation of a case to print its input.
func describe(p *Prop, tier, dir string, v Violation) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if d, ok := r.(describeOnly); ok {
				s = string(d)
			}
		}
	}()
	w := &W{Prop: p.ID, Tier: tier, Dir: dir, States: map[uint64]struct{}{}, n: 1, only: true, skipFam: -1}
	for i, f := range p.Families(w) {
		if f.Name == v.Family {
			st := FamStat{}
			w.famIdx, w.fam, w.stat = i, f, &st
			x := &X{budget: 1 << 30}
			for _, k := range v.Picks {
				x.trail = append(x.trail, step{pick: k})
			}
			w.x = x
			describing = true
			f.Run(x, w)
		}
	}
	return ""
}

type describeOnly string

var describing bool

func loadKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, line := range strings.Split(string(b), "\n") {
		// known: property=P01 sig=<signature> | <what fails>
		rest, ok := strings.CutPrefix(line, "known: property="+prop+" sig=")
		if !ok {
			continue
		}
		sig, text, _ := strings.Cut(rest, " | ")
		m[strings.TrimSpace(sig)] = strings.TrimSpace(text)
	}
	return m
}

// tail keeps the first and last parts of an output.
type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.b.String()
}

// scratch makes a directory, in memory where possible.
func scratch(prefix string) (string, error) {
	if dir, err := os.MkdirTemp("/dev/shm", prefix); err == nil {
		return dir, nil
	}
	return os.MkdirTemp("", prefix)
}
