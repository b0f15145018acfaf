package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The driver: runs batches of seeds in worker processes, reproduces and
// minimises failures, writes the evidence. It runs outside the simulator.

type plan struct {
	quick, thorough int // runs
	batch           int // runs per process
	raceShare       int // one batch in so many runs in the race detector's build (0: none)
}

var plans = map[string]plan{
	"C01": {6400, 120000, 200, 0},
	"C02": {7200, 140000, 200, 0},
	"C03": {16000, 300000, 400, 0},
	"C04": {12000, 240000, 400, 0},
	"C05": {5600, 110000, 200, 0},
	"C06": {3600, 70000, 150, 5},
	"C07": {14000, 280000, 250, 5},
	"C08": {80000, 1600000, 1000, 0},
	"C09": {8000, 160000, 200, 0},
	"C10": {9600, 180000, 200, 0},
	"C11": {24000, 480000, 400, 0},
	"C12": {4800, 120000, 200, 0},
	"C13": {60000, 1200000, 1000, 0},
	"C14": {4800, 90000, 150, 0},
	"C15": {3600, 100000, 200, 0},
}

type driver struct {
	prop, tier, verif string
	seed              uint64
	exe, race         string
	title             string
	workers           int
	t0                time.Time
}

func (d *driver) cmd(ctx context.Context, race bool, args ...string) *exec.Cmd {
	var c *exec.Cmd
	if race {
		// the race detector reserves terabytes of address space
		c = exec.CommandContext(ctx, d.race, args...)
		c.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(d.verif, ".build", "race", "log"))
	} else {
		c = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `ulimit -v 16000000; exec "$0" "$@"`, d.exe}, args...)...)
		c.Env = os.Environ()
	}
	c.Env = append(c.Env, "GOTRACEBACK=single")
	c.WaitDelay = 2 * time.Second
	return c
}

// procOut is what one process printed.
type procOut struct {
	last    uint64 // seed of the run that was being executed
	begun   bool
	viols   []Verdict
	hashes  map[uint64]uint64
	sum     *batchLine
	done    bool
	more    uint64 // seed to go on from in a fresh process
	verdict *Verdict
	sched   []byte
	atLast  bool
	timeout bool
	err     error
	stderr  string
}

func (d *driver) run(race bool, limit time.Duration, args ...string) *procOut {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := d.cmd(ctx, race, args...)
	var eb bytes.Buffer
	c.Stderr = &eb
	p, err := c.StdoutPipe()
	if err != nil {
		return &procOut{err: err}
	}
	o := &procOut{hashes: map[uint64]uint64{}}
	if o.err = c.Start(); o.err != nil {
		return o
	}
	r := bufio.NewReaderSize(p, 1<<20)
	for {
		l, err := r.ReadString('\n')
		l = strings.TrimSuffix(l, "\n")
		switch {
		case strings.HasPrefix(l, "B "):
			o.last, _ = strconv.ParseUint(l[2:], 10, 64)
			o.begun = true
		case strings.HasPrefix(l, "H "):
			var a, b uint64
			fmt.Sscanf(l[2:], "%d %d", &a, &b)
			o.hashes[a] = b
		case strings.HasPrefix(l, "V "):
			var v Verdict
			if json.Unmarshal([]byte(l[2:]), &v) == nil {
				o.viols = append(o.viols, v)
				o.verdict = &v
			}
		case strings.HasPrefix(l, "M "):
			o.more, _ = strconv.ParseUint(l[2:], 10, 64)
		case strings.HasPrefix(l, "S "):
			bl := &batchLine{Stats: newStats()}
			if json.Unmarshal([]byte(l[2:]), bl) == nil {
				o.sum = bl
			}
		case strings.HasPrefix(l, "R "):
			o.sched = []byte(l[2:])
		case l == "LAST":
			o.atLast = true
		case l == "DONE":
			o.done = true
		}
		if err != nil {
			break
		}
	}
	o.err = c.Wait()
	o.timeout = ctx.Err() != nil
	o.stderr = eb.String()
	return o
}

// crash tells whether a process died of what it was executing.
func (o *procOut) crash() string {
	if o.done || o.timeout || strings.Contains(o.stderr, "harness:") || strings.Contains(o.stderr, "sim: ") {
		return ""
	}
	for _, l := range strings.Split(o.stderr, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return short(l)
		}
	}
	return ""
}

func (d *driver) fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

func tail(s string, n int) string {
	if len(s) > n {
		s = "..." + s[len(s)-n:]
	}
	return s
}

type failure struct {
	seed, from uint64
	race       bool
	crash      string
	viols      []Viol
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	d := &driver{t0: time.Now()}
	fs.StringVar(&d.prop, "prop", "", "property")
	fs.StringVar(&d.tier, "tier", "quick", "quick or thorough")
	fs.Uint64Var(&d.seed, "seed", 1, "seed")
	fs.StringVar(&d.verif, "verif", "/verif", "")
	fs.StringVar(&d.race, "race", "", "race detector's build")
	fs.IntVar(&d.workers, "workers", 8, "processes")
	runs := fs.Int("runs", 0, "number of runs (0: the tier's)")
	budget := fs.Float64("budget", 0, "seconds (0: the tier's)")
	fs.Parse(args)
	d.exe, _ = os.Executable()
	d.title = propTitle(d.verif, d.prop)
	pl, ok := plans[d.prop]
	if !ok {
		d.fail("unknown property %q", d.prop)
	}
	n, limit := pl.quick, 420.0
	if d.tier == "thorough" {
		n, limit = pl.thorough, 3000
	}
	if *runs > 0 {
		n = *runs
	}
	if *budget > 0 {
		limit = *budget
	}
	os.MkdirAll(filepath.Join(d.verif, ".build", "race"), 0o755)
	base := d.seed * 1_000_000_000
	type job struct {
		from uint64
		n    int
		race bool
		kind string // "" or "again" (determinism sample)
	}
	jobs := make(chan job)
	var mu sync.Mutex
	total := newStats()
	distinct := map[uint64]struct{}{}
	hashes := map[uint64]uint64{}
	other := map[string]int{}
	var fails []failure
	var harness string
	raceRuns, again, skipped, nontrivial := 0, 0, 0, 0
	stop := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return len(fails) > 0 || harness != ""
	}
	const sampleEvery = 16
	var wg sync.WaitGroup
	for w := 0; w < d.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if stop() {
					continue
				}
				if time.Since(d.t0).Seconds() > limit {
					mu.Lock()
					skipped += j.n
					mu.Unlock()
					continue
				}
			again:
				he := sampleEvery
				patience := 200 * time.Second
				if d.tier != "quick" {
					patience = 400 * time.Second
				}
				o := d.run(j.race, patience, "work", "-prop", d.prop, "-from", fmt.Sprint(j.from), "-n", fmt.Sprint(j.n), "-hash", fmt.Sprint(he), "-stop")
				// the rest of the batch in a fresh process
				rest := uint64(0)
				mu.Lock()
				f := failure{from: j.from, race: j.race}
				switch {
				case len(o.viols) > 0:
					f.seed, f.viols = o.viols[0].Seed, o.viols[0].Viols
					fails = append(fails, f)
				case o.done:
					if o.more > 0 {
						rest = o.more
					}
				case o.timeout && o.last > j.from:
					rest = o.last
				case o.crash() != "" && o.begun:
					f.seed, f.crash = o.last, o.crash()
					fails = append(fails, f)
				default:
					harness = fmt.Sprintf("worker for seeds from %d (at %d) ended without a result: %v timeout=%v\n%s", j.from, o.last, o.err, o.timeout, tail(o.stderr, 3000))
				}
				if o.sum != nil && j.kind == "" {
					total.add(&o.sum.Stats)
					nontrivial += len(o.sum.Hashes)
					for _, h := range o.sum.Hashes {
						distinct[h] = struct{}{}
					}
					for k, v := range o.sum.Other {
						other[k] += v
					}
					if j.race {
						raceRuns += o.sum.Stats.Runs
					}
				}
				if !j.race { // the race detector changes nothing but is a different binary
					for s, h := range o.hashes {
						if g, ok := hashes[s]; ok {
							again++
							if g != h {
								harness = fmt.Sprintf("seed %d is not repeatable: event hash %x, then %x", s, g, h)
							}
						}
						hashes[s] = h
					}
				}
				mu.Unlock()
				if end := j.from + uint64(j.n); rest > j.from && rest < end && !stop() && time.Since(d.t0).Seconds() <= limit {
					j.from, j.n = rest, int(end-rest)
					goto again
				}
			}
		}()
	}
	for i, b := 0, 0; i < n; i, b = i+pl.batch, b+1 {
		k := pl.batch
		if n-i < k {
			k = n - i
		}
		jobs <- job{from: base + uint64(i), n: k, race: pl.raceShare > 0 && d.race != "" && b%pl.raceShare == pl.raceShare-1}
		if b%16 == 0 {
			// the same seeds in another process, starting elsewhere
			jobs <- job{from: base + uint64(i+k/2), n: k/2 + 1, kind: "again"}
		}
	}
	close(jobs)
	wg.Wait()
	if len(fails) == 0 && harness != "" {
		d.fail("%s", harness)
	}
	searched := time.Since(d.t0).Seconds()
	code, viols := 0, 0
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].seed < fails[j].seed })
		viols = len(fails)
		f := fails[0]
		fmt.Printf("seed %d: %s%s\n", f.seed, f.crash, violText(f.viols))
		r := d.reproduce(&f)
		if r == nil {
			for i := 1; i < len(fails) && r == nil && i < 4; i++ {
				f = fails[i]
				r = d.reproduce(&f)
			}
		}
		if r == nil {
			d.fail("the failure of seed %d does not reproduce", fails[0].seed)
		}
		r = d.minimise(r, f.race)
		path := filepath.Join(d.verif, ".build", "replays", fmt.Sprintf("%s-%d.json", d.prop, f.seed))
		d.save(path, r)
		fmt.Println(describe(r))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
		code = 1
	}
	known := d.probes(&code)
	d.evidence(evid{total: total, distinct: len(distinct), nontrivial: nontrivial, viols: viols, again: again, raceRuns: raceRuns, other: other,
		searched: searched, planned: n, skipped: skipped, base: base, known: known, batch: pl.batch})
	fmt.Printf("%s %s: %d runs (%d executions, %d distinct non-trivial), %.1f virtual s, %d repeated runs agreed, %.1f s\n", d.prop, d.tier,
		total.Runs, total.Execs, len(distinct), float64(total.VirtualNS)/1e9, again, time.Since(d.t0).Seconds())
	os.Exit(code)
}

func violText(vs []Viol) string {
	var b strings.Builder
	for i, v := range vs {
		if i == 3 {
			fmt.Fprintf(&b, " (+%d)", len(vs)-3)
			break
		}
		fmt.Fprintf(&b, " [%s] thread %d op %d: %s;", v.Kind, v.Thread, v.Op, v.Detail)
	}
	return b.String()
}

func describe(r *Replay) (text string) {
	defer func() {
		if p := recover(); p != nil {
			text = fmt.Sprint("no description: ", p)
		}
	}()
	c := r.Cases[len(r.Cases)-1]
	var b strings.Builder
	fmt.Fprintf(&b, "minimised: %s%s; %d case(s), last one:", r.Crash, violText(r.Kinds), len(r.Cases))
	if c.CLI != nil {
		fmt.Fprintf(&b, " %s", c.CLI)
		return b.String()
	}
	for ti, t := range c.Threads {
		fmt.Fprintf(&b, " thread %d:", ti)
		for i := range t.Ops {
			op := &t.Ops[i]
			fmt.Fprintf(&b, " %s", op.K)
			if op.Path != nil {
				fmt.Fprintf(&b, " %s", op.Path.String())
			}
			if op.Doc.V != nil && (op.K == "eval" || op.K == "load" || op.K == "loadmap" || op.K == "runmap") {
				fmt.Fprintf(&b, " %s", tail(string(encode(op.Doc.V, nil)), 300))
			}
			b.WriteString(";")
		}
	}
	if c.Cfg.Replay {
		fmt.Fprintf(&b, " schedule: %d decisions", len(c.Cfg.Sched))
	}
	if c.Cfg.FaultList {
		fmt.Fprintf(&b, ", %d timing faults", len(c.Cfg.Faults))
	}
	fmt.Fprintf(&b, ", %d writer faults", len(c.WFaults))
	return b.String()
}

func propTitle(verif, id string) string {
	b, _ := os.ReadFile(filepath.Join(verif, "properties.jsonl"))
	for _, l := range strings.Split(string(b), "\n") {
		var p struct{ ID, Title string }
		if json.Unmarshal([]byte(l), &p) == nil && p.ID == id {
			return p.Title
		}
	}
	return ""
}

func (d *driver) save(path string, r *Replay) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, err := json.MarshalIndent(r, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		d.fail("%v", err)
	}
}

var tryN int
var tryMu sync.Mutex

// try executes a candidate replay in a fresh process. It returns the verdict's
// violations or the crash, and the recorded schedule.
func (d *driver) try(r *Replay, race bool) (viols []Viol, crash string, sched []byte) {
	tryMu.Lock()
	tryN++
	f := filepath.Join(d.verif, ".build", "replays", fmt.Sprintf("try-%s-%d-%d.json", d.prop, os.Getpid(), tryN))
	tryMu.Unlock()
	d.save(f, r)
	defer os.Remove(f)
	o := d.run(race, 120*time.Second, "try", f)
	if o.verdict != nil {
		return o.verdict.Viols, "", o.sched
	}
	if o.atLast {
		return nil, o.crash(), nil
	}
	return nil, "", nil
}

// same tells whether a candidate shows one of the violations of the original.
func same(want *Replay, viols []Viol, crash string) bool {
	if want.Crash != "" {
		return crash != ""
	}
	for _, v := range viols {
		for _, w := range want.Kinds {
			if v.Kind == w.Kind {
				return true
			}
		}
	}
	return false
}

// reproduce finds the shortest history of the worker process in which the
// failing run fails again.
func (d *driver) reproduce(f *failure) *Replay {
	mk := func(from uint64) *Replay {
		r := &Replay{Property: d.prop, Title: d.title, Seed: f.seed, Race: f.race, Kinds: f.viols, Crash: f.crash}
		for s := from; s <= f.seed; s++ {
			r.Cases = append(r.Cases, genCase(d.prop, s))
		}
		return r
	}
	tries := 1
	if f.race {
		tries = 3
	}
	starts := []uint64{f.seed}
	for k := uint64(4); f.seed-f.from > k; k *= 8 {
		starts = append(starts, f.seed-k)
	}
	if f.seed != f.from {
		starts = append(starts, f.from)
	}
	for _, from := range starts {
		r := mk(from)
		for i := 0; i < tries; i++ {
			v, c, _ := d.try(r, f.race)
			if same(r, v, c) {
				r.Kinds, r.Crash = v, c
				return r
			}
		}
	}
	return nil
}

func (r *Replay) copy() *Replay {
	b, err := json.Marshal(r)
	if err != nil {
		fatal("%v", err)
	}
	n := &Replay{}
	if err := json.Unmarshal(b, n); err != nil {
		fatal("%v", err)
	}
	return n
}

func (r *Replay) lastCase() *Case { return r.Cases[len(r.Cases)-1] }

// minimise shrinks a failing replay while it keeps failing in the same way.
func (d *driver) minimise(r *Replay, race bool) *Replay {
	t0 := time.Now()
	over := func() bool { return time.Since(t0) > 45*time.Second }
	// first of a list of candidates that still fails
	attempt := func(cands []*Replay) int {
		for i := 0; i < len(cands) && !over(); i += d.workers {
			j := i + d.workers
			if j > len(cands) {
				j = len(cands)
			}
			ok := make([]bool, j-i)
			res := make([]struct {
				v []Viol
				c string
			}, j-i)
			var wg sync.WaitGroup
			for k := i; k < j; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					v, c, _ := d.try(cands[k], race)
					ok[k-i] = same(r, v, c)
					res[k-i].v, res[k-i].c = v, c
				}(k)
			}
			wg.Wait()
			for k := range ok {
				if ok[k] {
					cands[i+k].Kinds, cands[i+k].Crash = res[k].v, res[k].c
					return i + k
				}
			}
		}
		return -1
	}
	for round := 0; round < 60 && !over(); round++ {
		cands := shrinks(r)
		i := attempt(cands)
		if i < 0 {
			break
		}
		r = cands[i]
	}
	// the schedule and the timing faults
	c := r.lastCase()
	if c.CLI == nil && c.Cfg2 == nil {
		_, _, sb := d.try(r, race)
		var s struct {
			Sched []uint16
			Flt   []simFault
		}
		if sb != nil && json.Unmarshal(sb, &s) == nil {
			rec := r.copy()
			cf := &rec.lastCase().Cfg
			cf.Replay, cf.Sched, cf.FaultList, cf.Faults = true, s.Sched, true, s.Flt
			trim(cf)
			if attempt([]*Replay{rec}) == 0 {
				r = d.minSched(rec, attempt, over)
			}
		}
	}
	// the result must fail again
	for i := 0; i < 3; i++ {
		v, cr, _ := d.try(r, race)
		if same(r, v, cr) {
			r.Kinds, r.Crash = v, cr
			return r
		}
	}
	d.fail("the minimised replay of seed %d does not reproduce", r.Seed)
	return nil
}

func trim(cf *Cfg) {
	n := len(cf.Sched)
	for n > 0 && cf.Sched[n-1] == 0 {
		n--
	}
	cf.Sched = cf.Sched[:n]
}

func (d *driver) minSched(r *Replay, attempt func([]*Replay) int, over func() bool) *Replay {
	edit := func(f func(cf *Cfg) bool) *Replay {
		n := r.copy()
		cf := &n.lastCase().Cfg
		if !f(cf) {
			return nil
		}
		trim(cf)
		return n
	}
	try := func(cs []*Replay) bool {
		var l []*Replay
		for _, c := range cs {
			if c != nil {
				l = append(l, c)
			}
		}
		if i := attempt(l); i >= 0 {
			r = l[i]
			return true
		}
		return false
	}
	try([]*Replay{edit(func(cf *Cfg) bool { cf.Faults = nil; return true })})
	for len(r.lastCase().Cfg.Faults) > 0 && !over() {
		n := len(r.lastCase().Cfg.Faults)
		var cs []*Replay
		for parts := 2; parts <= 16 && parts/2 <= n; parts *= 2 {
			for p := 0; p < parts; p++ {
				lo, hi := n*p/parts, n*(p+1)/parts
				if lo == hi {
					continue
				}
				cs = append(cs, edit(func(cf *Cfg) bool {
					cf.Faults = append(append([]simFault(nil), cf.Faults[:lo]...), cf.Faults[hi:]...)
					return true
				}))
			}
		}
		if !try(cs) {
			break
		}
	}
	if try([]*Replay{edit(func(cf *Cfg) bool { cf.Sched = nil; return true })}) {
		return r
	}
	for parts := 2; parts <= 4096 && !over(); parts *= 2 {
		again := true
		for again && !over() {
			again = false
			s := r.lastCase().Cfg.Sched
			n := len(s)
			var cs []*Replay
			for p := parts - 1; p >= 0; p-- {
				lo, hi := n*p/parts, n*(p+1)/parts
				nz := false
				for _, v := range s[lo:hi] {
					nz = nz || v != 0
				}
				if !nz {
					continue
				}
				cs = append(cs, edit(func(cf *Cfg) bool {
					cf.Sched = append([]uint16(nil), cf.Sched...)
					for i := lo; i < hi; i++ {
						cf.Sched[i] = 0
					}
					return true
				}))
			}
			again = try(cs)
		}
	}
	return r
}

// shrinks lists simpler variants of a replay, boldest first.
func shrinks(r *Replay) (out []*Replay) {
	add := func(f func(n *Replay, c *Case) bool) {
		n := r.copy()
		if f(n, n.lastCase()) {
			out = append(out, n)
		}
	}
	if k := len(r.Cases); k > 1 {
		for parts := 1; parts <= 8; parts *= 2 {
			for p := 0; p < parts; p++ {
				lo, hi := (k-1)*p/parts, (k-1)*(p+1)/parts
				if lo < hi {
					add(func(n *Replay, _ *Case) bool {
						n.Cases = append(append([]*Case(nil), n.Cases[:lo]...), n.Cases[hi:]...)
						return true
					})
				}
			}
		}
	}
	c := r.lastCase()
	if c.CLI != nil {
		for i := 0; i < c.CLI.shrinks(); i++ {
			add(func(n *Replay, m *Case) bool { return m.CLI.shrink(i) })
		}
		return
	}
	if len(c.Threads) > 1 {
		for i := range c.Threads {
			add(func(_ *Replay, m *Case) bool {
				m.Threads = append(m.Threads[:i], m.Threads[i+1:]...)
				return true
			})
		}
	}
	for ti := range c.Threads {
		ops := c.Threads[ti].Ops
		for oi := len(ops) - 1; oi >= 0; oi-- {
			if len(ops) == 1 || ops[oi].K == "delay" {
				continue
			}
			add(func(_ *Replay, m *Case) bool {
				var keep []Op
				isLoad := func(o *Op) bool { return o.K == "load" || o.K == "loadmap" }
				gone := false
				for i, op := range m.Threads[ti].Ops {
					// a document goes together with everything done to it
					if i == oi {
						gone = isLoad(&op)
						continue
					}
					if i > oi && op.Slot == ops[oi].Slot && isLoad(&op) {
						gone = false
					}
					if gone && i > oi && op.Slot == ops[oi].Slot {
						continue
					}
					keep = append(keep, op)
				}
				m.Threads[ti].Ops = keep
				return len(keep) > 0
			})
		}
	}
	if len(c.WFaults) > 0 {
		for i := range c.WFaults {
			add(func(_ *Replay, m *Case) bool {
				m.WFaults = append(m.WFaults[:i], m.WFaults[i+1:]...)
				return true
			})
		}
	}
	cfgs := func(f func(cf *Cfg) bool) {
		add(func(_ *Replay, m *Case) bool { return f(&m.Cfg) })
	}
	cfgs(func(cf *Cfg) bool {
		ch := cf.StallRate+cf.TimerRate+cf.ClockRate > 0
		cf.StallRate, cf.TimerRate, cf.ClockRate = 0, 0, 0
		return ch
	})
	cfgs(func(cf *Cfg) bool { ch := cf.YieldDen > 0; cf.YieldDen = 0; return ch })
	cfgs(func(cf *Cfg) bool { ch := cf.Policy > 0; cf.Policy = 0; return ch })
	cfgs(func(cf *Cfg) bool { ch := cf.MapSeed > 0; cf.MapSeed = 0; return ch })
	// values and statements of the documents
	for ti := range c.Threads {
		for oi := range c.Threads[ti].Ops {
			op := &c.Threads[ti].Ops[oi]
			if op.Doc.V == nil {
				continue
			}
			for k := 0; k < countCuts(op.Doc.V); k++ {
				add(func(_ *Replay, m *Case) bool {
					k := k
					o := &m.Threads[ti].Ops[oi]
					var ok bool
					o.Doc.V, ok = cut(o.Doc.V, &k, true)
					return ok
				})
			}
		}
	}
	return
}

// cut removes the k-th removable part (an object's key, an array's element, a
// script's statement) of a tree.
func cut(v interface{}, k *int, top bool) (interface{}, bool) {
	switch v := v.(type) {
	case M:
		for _, key := range sortedKeys(v) {
			if *k == 0 {
				delete(v, key)
				return v, true
			}
			*k--
			n, ok := cut(v[key], k, false)
			if ok {
				v[key] = n
				return v, true
			}
		}
	case A:
		for i := range v {
			if *k == 0 {
				return append(append(A{}, v[:i]...), v[i+1:]...), true
			}
			*k--
			n, ok := cut(v[i], k, false)
			if ok {
				v[i] = n
				return v, true
			}
		}
	case *Prog:
		for i := range v.Stmts {
			if *k == 0 {
				v.Stmts = append(v.Stmts[:i], v.Stmts[i+1:]...)
				return v, true
			}
			*k--
		}
	}
	return v, false
}

func countCuts(v interface{}) (n int) {
	switch v := v.(type) {
	case M:
		for _, e := range v {
			n += 1 + countCuts(e)
		}
	case A:
		for _, e := range v {
			n += 1 + countCuts(e)
		}
	case *Prog:
		n = len(v.Stmts)
	}
	return
}

// replay executes a replay file in a fresh process and reports the violation.
func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	d := &driver{t0: time.Now(), workers: 1}
	fs.StringVar(&d.verif, "verif", "/verif", "")
	fs.StringVar(&d.race, "race", "", "")
	fs.Parse(args)
	d.exe, _ = os.Executable()
	file, _ := filepath.Abs(fs.Arg(0))
	r := loadReplay(file)
	d.prop = r.Property
	os.MkdirAll(filepath.Join(d.verif, ".build", "race"), 0o755)
	v, c, _ := d.try(r, r.Race)
	if len(v) > 0 || c != "" {
		fmt.Printf("seed %d: %s%s\nVIOLATION property=%s replay=%s\n", r.Seed, c, violText(v), r.Property, file)
		os.Exit(1)
	}
	fmt.Printf("%s: the replay does not fail on this tree\n", r.Property)
}
