package mon

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// limits of one case; every operation under test is specified to return
const (
	maxCaseCPU   = 60.0    // seconds of CPU time
	maxIdlePolls = 900     // polls without any CPU time used
	maxRSS       = 3 << 30 // bytes
	pollEvery    = 200 * time.Millisecond
	maxShapes    = 4 << 20
	maxViol      = 12
)

type violation struct {
	Case  int
	Msg   string
	Steps []string
}

type result struct {
	Done    int64
	Events  map[string]int64
	Known   map[string]int64
	Samples []string
	Viol    []violation
	Shapes  []uint64
}

type worker struct {
	res    result
	shapes map[uint64]struct{}
	known  map[string]string
	total  int
}

func (w *worker) shape(h uint64) {
	if len(w.shapes) < maxShapes {
		w.shapes[h] = struct{}{}
	}
}

func (w *worker) violation(i int, msg string, steps []string) {
	if len(w.res.Viol) < maxViol {
		w.res.Viol = append(w.res.Viol, violation{i, msg, append([]string(nil), steps...)})
	}
}

func (w *worker) sampleDue(i int) bool { return true }

// Main is the entry point of a harness binary.
func Main(root string, props []*Prop) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness list | check ID TIER | replay FILE | case ID TIER N")
		os.Exit(2)
	}
	find := func(id string) *Prop {
		for _, p := range props {
			if p.ID == id {
				return p
			}
		}
		fmt.Fprintln(os.Stderr, "no such property:", id)
		os.Exit(2)
		return nil
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID, p.Level, p.Directed, p.Quick, p.Thorough)
		}
	case "check":
		os.Exit(parent(root, find(os.Args[2]), os.Args[3]))
	case "work":
		work(root, find(os.Args[2]), os.Args[3], os.Args[4], os.Args[5], os.Args[6])
	case "replay":
		var r replay
		b, err := os.ReadFile(os.Args[2])
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(single(root, find(r.Property), r.Tier, r.Seed, r.Case))
	case "case":
		n, _ := strconv.Atoi(os.Args[4])
		os.Exit(single(root, find(os.Args[2]), os.Args[3], seed(), n))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

type replay struct {
	Property string
	Tier     string
	Seed     uint64
	Case     int
	Failure  string
	Steps    []string
	How      string
	Arch     string
}

func seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func (p *Prop) total(tier string) int {
	if tier == "thorough" {
		return p.Directed + p.Thorough
	}
	return p.Directed + p.Quick
}

func newWorker(root string, p *Prop) *worker {
	return &worker{
		res:    result{Events: map[string]int64{}, Known: map[string]int64{}},
		shapes: map[uint64]struct{}{},
		known:  knownFindings(root, p.ID),
	}
}

// knownFindings reads the committed list of findings of one property.
func knownFindings(root, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		l := s.Text()
		rest, ok := strings.CutPrefix(l, "known: property="+id+" ")
		if !ok {
			continue
		}
		k, what, _ := strings.Cut(rest, " ")
		m[strings.TrimPrefix(k, "id=")] = what
	}
	return m
}

func (w *worker) run(p *Prop, tier string, sd uint64, i int) {
	c := &C{Rand: p.rng(sd, i), Prop: p, I: i, Thorough: tier == "thorough", w: w}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			w.violation(i, fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack())), c.noted)
		}
	}()
	p.Run(c)
}

func single(root string, p *Prop, tier string, sd uint64, i int) int {
	w := newWorker(root, p)
	w.run(p, tier, sd, i)
	for _, v := range w.res.Viol {
		fmt.Printf("case %d: %s\n", v.Case, v.Msg)
		for _, s := range v.Steps {
			fmt.Println("   ", s)
		}
	}
	b, _ := json.Marshal(w.res.Events)
	fmt.Println("events", string(b), "known", w.res.Known, "samples", w.res.Samples)
	if len(w.res.Viol) > 0 {
		fmt.Println("VIOLATION property=" + p.ID)
		return 1
	}
	fmt.Println("no violation in this case")
	return 0
}

const statusSize = 4096

func mapStatus(path string) ([]byte, error) {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return syscall.Mmap(int(f.Fd()), 0, statusSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
}

func slot(m []byte, i int) *int64 { return (*int64)(unsafe.Pointer(&m[8*i])) }

func work(root string, p *Prop, tier, sdText, dir, numText string) {
	num, _ := strconv.Atoi(numText)
	sd, _ := strconv.ParseUint(sdText, 10, 64)
	m, err := mapStatus(filepath.Join(dir, "status"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := newWorker(root, p)
	total := p.total(tier)
	next, cur, stopAll := slot(m, 0), slot(m, 2+num), slot(m, 1)
	for atomic.LoadInt64(stopAll) == 0 {
		i := int(atomic.AddInt64(next, 1) - 1)
		if i >= total {
			break
		}
		atomic.StoreInt64(cur, int64(i)+1)
		w.run(p, tier, sd, i)
		w.res.Done++
		if len(w.res.Viol) >= maxViol {
			atomic.StoreInt64(stopAll, 1)
		}
	}
	atomic.StoreInt64(cur, 0)
	for h := range w.shapes {
		w.res.Shapes = append(w.res.Shapes, h)
	}
	b, err := json.Marshal(&w.res)
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, "result"+numText), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

type child struct {
	cmd       *exec.Cmd
	done      chan error
	finished  bool
	err       error
	cur       int64
	cpu0      float64
	cpuLast   float64
	idlePolls int
	killed    string
}

func parent(root string, p *Prop, tier string) int {
	start := time.Now()
	if tier != "thorough" {
		tier = "quick"
	}
	dir, err := os.MkdirTemp("", "verif-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	status := filepath.Join(dir, "status")
	if err := os.WriteFile(status, make([]byte, statusSize), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	m, err := mapStatus(status)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if t := p.total(tier); n > t {
		n = t
	}
	sd := seed()
	exe, _ := os.Executable()
	kids := make([]*child, n)
	for i := range kids {
		cmd := exec.Command(exe, "work", p.ID, tier, fmt.Sprint(sd), dir, fmt.Sprint(i))
		errf, _ := os.Create(filepath.Join(dir, fmt.Sprintf("stderr%d", i)))
		cmd.Stdout, cmd.Stderr = errf, errf
		cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
		if os.Getenv("VERIF_PROCS") == "" {
			cmd.Env = append(cmd.Env, "GOMAXPROCS=1")
		} else {
			cmd.Env = append(cmd.Env, "GOMAXPROCS="+os.Getenv("VERIF_PROCS"))
		}
		k := &child{cmd: cmd, done: make(chan error, 1)}
		kids[i] = k
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		errf.Close()
		go func() { k.done <- cmd.Wait() }()
	}
	var res result
	res.Events, res.Known = map[string]int64{}, map[string]int64{}
	live := n
	for live > 0 {
		time.Sleep(pollEvery)
		for i, k := range kids {
			if k.finished {
				continue
			}
			select {
			case k.err = <-k.done:
				k.finished = true
				live--
				continue
			default:
			}
			cpu, rss, ok := procUsage(k.cmd.Process.Pid)
			if !ok {
				continue
			}
			cur := atomic.LoadInt64(slot(m, 2+i))
			if cur != k.cur || cur == 0 {
				k.cur, k.cpu0, k.cpuLast, k.idlePolls = cur, cpu, cpu, 0
			} else {
				if cpu-k.cpuLast < 0.02 {
					k.idlePolls++
				} else {
					k.cpuLast, k.idlePolls = cpu, 0
				}
			}
			switch {
			case cur == 0 || k.killed != "":
			case rss > maxRSS:
				k.killed = fmt.Sprintf("memory: the case uses %d MB", rss>>20)
			case cpu-k.cpu0 > maxCaseCPU:
				k.killed = fmt.Sprintf("hang: the case has used %.0f s of CPU time", cpu-k.cpu0)
			case k.idlePolls > maxIdlePolls:
				k.killed = "hang: the case is blocked and uses no CPU time"
			}
			if k.killed != "" {
				k.cmd.Process.Kill()
			}
		}
	}
	shapes := map[uint64]struct{}{}
	broken := false
	for i, k := range kids {
		var r result
		b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result%d", i)))
		if rerr == nil {
			rerr = json.Unmarshal(b, &r)
		}
		if rerr == nil {
			res.Done += r.Done
			for e, v := range r.Events {
				res.Events[e] += v
			}
			for e, v := range r.Known {
				res.Known[e] += v
			}
			res.Samples = append(res.Samples, r.Samples...)
			res.Viol = append(res.Viol, r.Viol...)
			for _, h := range r.Shapes {
				shapes[h] = struct{}{}
			}
		}
		if k.err == nil && rerr == nil {
			continue
		}
		cur := atomic.LoadInt64(slot(m, 2+i))
		out, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stderr%d", i)))
		msg := k.killed
		if msg == "" {
			msg = fmt.Sprintf("the process died (%v)", k.err)
		}
		if cur == 0 || (k.killed == "" && len(out) == 0) {
			// not attributable to a case: an error of the run, not a finding
			fmt.Fprintf(os.Stderr, "worker %d: %s\n%s\n", i, msg, trimStack(out))
			broken = true
			continue
		}
		res.Viol = append(res.Viol, violation{int(cur) - 1, msg + "\n" + trimStack(out), nil})
	}
	sort.SliceStable(res.Viol, func(a, b int) bool { return res.Viol[a].Case < res.Viol[b].Case })
	known := knownFindings(root, p.ID)
	names := make([]string, 0, len(known))
	for k := range known {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if res.Known[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[k])
		}
	}
	code := 0
	if len(res.Viol) > 0 {
		code = 1
		outDir := filepath.Join(root, "out")
		os.MkdirAll(outDir, 0o755)
		seen := map[int]bool{}
		for _, v := range res.Viol {
			if seen[v.Case] || len(seen) >= 3 {
				continue
			}
			seen[v.Case] = true
			path := filepath.Join(outDir, fmt.Sprintf("%s-%s-%d-%d-%s.json", p.ID, tier, sd, v.Case, runtime.GOARCH))
			b, _ := json.MarshalIndent(replay{p.ID, tier, sd, v.Case, v.Msg, v.Steps,
				"bash /verif/run.sh replay " + path, runtime.GOARCH}, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("case %d: %s\n", v.Case, v.Msg)
			for i, s := range v.Steps {
				if i >= 12 {
					break
				}
				fmt.Println("   ", s)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
	}
	var missing []string
	for _, e := range p.Need {
		if res.Events[e] == 0 {
			missing = append(missing, e)
		}
	}
	if code == 0 && (len(missing) > 0 || broken || res.Done != int64(p.total(tier))) {
		fmt.Printf("INCONCLUSIVE property=%s done=%d of %d, not observed: %v\n", p.ID, res.Done, p.total(tier), missing)
		code = 2
	}
	if len(res.Samples) > 5 {
		res.Samples = res.Samples[:5]
	}
	if res.Samples == nil {
		res.Samples = []string{}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": sd, "level": p.Level,
		"wall_s": time.Since(start).Seconds(), "violations": len(res.Viol),
		"assumptions": append([]string{}, p.Assume...),
		"coverage": map[string]interface{}{
			"evaluations": res.Done, "distinct_nontrivial": len(shapes), "rule": p.Rule,
			"samples": res.Samples, "observed_events": res.Events, "known_finding_occurrences": res.Known,
		},
	}
	// a first pass of a 32-bit build leaves its counts for the evidence
	pass32 := os.Getenv("VERIF_PASS32")
	if pass32 != "" && bits.UintSize == 32 {
		os.WriteFile(pass32, fmt.Appendf(nil, "%d", res.Done), 0o644)
		fmt.Printf("%s %s, 32-bit build: %d cases, %d violations, %.1f s\n", p.ID, tier, res.Done, len(res.Viol), time.Since(start).Seconds())
		return code
	}
	if b, err := os.ReadFile(pass32); err == nil {
		n, _ := strconv.Atoi(string(b))
		ev["coverage"].(map[string]interface{})["evaluations_on_32_bit_build"] = n
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s %s: %d cases, %d distinct, %d violations, %.1f s\n", p.ID, tier, res.Done, len(shapes), len(res.Viol), time.Since(start).Seconds())
	return code
}

// procUsage returns the CPU seconds and resident bytes of a child process.
func procUsage(pid int) (float64, int64, bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0, false
	}
	s := string(b)
	k := strings.LastIndexByte(s, ')')
	if k < 0 {
		return 0, 0, false
	}
	f := strings.Fields(s[k+1:])
	if len(f) < 22 {
		return 0, 0, false
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	t, _ := strconv.ParseFloat(f[12], 64)
	rss, _ := strconv.ParseInt(f[21], 10, 64)
	return (u + t) / 100, rss * 4096, true
}
