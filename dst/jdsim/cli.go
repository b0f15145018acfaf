package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/hjson/hjson-go"
)

// CLICase is a command line of the real tool, executed in several simulated
// processes. The first run is free of system call faults; it is judged by the
// reference model and the others are judged against it.
type CLICase struct {
	Cmd     string    `json:"cmd"`
	Verbose bool      `json:"verbose,omitempty"`
	Eval    bool      `json:"eval,omitempty"`
	Strip   bool      `json:"strip,omitempty"`
	Lang    string    `json:"lang,omitempty"`
	Files   []CLIFile `json:"files,omitempty"`
	Input   *CLIFile  `json:"input,omitempty"`
	Pairs   []CLIPair `json:"pairs,omitempty"`
	Extra   []string  `json:"extra,omitempty"` // further arguments, which make it fail
	Runs    []CLIRun  `json:"runs"`
}

type CLIFile struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // json, hjson, raw (invalid), missing, dir
	Doc  Tree   `json:"doc"`
	Raw  string `json:"raw,omitempty"`
	Pad  int    `json:"pad,omitempty"` // bytes of a string added to the document
	Perm uint64 `json:"perm,omitempty"`
}

type CLIPair struct {
	Path Path  `json:"path"`
	Prog *Prog `json:"prog,omitempty"` // nil: no script is given
}

type CLIRun struct {
	Cfg    Cfg        `json:"cfg"`
	Faults []CLIFault `json:"faults,omitempty"`
}

// CLIFault is a fault of the N-th system call of a class (modulo how many the
// fault-free run makes).
type CLIFault struct {
	Class string `json:"class"`
	N     int    `json:"n"`
	Count int    `json:"count"` // 0: all from N on
	Act   int    `json:"act"`
	Val   int    `json:"val"`
	Delay int64  `json:"delay,omitempty"`
}

// ---- generator ----

const (
	actErrno = 1
	actShort = 2
	actSize  = 3
	actKill  = 4
)

func (g *gen) benign() CLIFault {
	f := CLIFault{N: g.r.Intn(1000), Count: g.r.Range(1, 3)}
	switch g.r.Intn(9) {
	case 0, 1:
		f.Class, f.Act, f.Val = g.r.Str("R", "W", "W", "O", "S", "E"), actErrno, int(syscall.EINTR)
	case 2, 3:
		f.Class, f.Act, f.Val = "R", actShort, g.r.Int(1, 2, 7, 100, 511)
		f.Count = g.r.Int(1, 5, 300)
	case 4, 5:
		f.Class, f.Act, f.Val = "W", actShort, g.r.Int(1, 1, 3, 20, 4096)
		f.Count = g.r.Int(1, 4, 200)
	case 6:
		f.Class, f.Act, f.Val = g.r.Str("F", "S"), actSize, g.r.Int(0, 1, 5, 100000)
	case 7:
		f.Class, f.Act, f.Val = "E", actShort, g.r.Int(1, 3)
	default:
		f.Class, f.Delay = g.r.Str("R", "W", "W", "O", "E"), int64(g.r.Int(1, 40, 250))*1e6
	}
	return f
}

func (g *gen) hard() []CLIFault {
	f := CLIFault{N: g.r.Intn(1000), Count: g.r.Int(0, 1, 1, 2), Act: actErrno}
	e := func(xs ...syscall.Errno) int { return int(xs[g.r.Intn(len(xs))]) }
	switch g.r.Intn(12) {
	case 0, 1:
		f.Class, f.Val = "R", e(syscall.EIO, syscall.ENOMEM, syscall.EISDIR, syscall.EBADF, syscall.ESTALE)
	case 2:
		f.Class, f.Val = "O", e(syscall.EMFILE, syscall.ENFILE, syscall.EACCES, syscall.EIO, syscall.ENOENT, syscall.ENOMEM)
	case 3:
		f.Class, f.Val = g.r.Str("S", "F"), e(syscall.EIO, syscall.EACCES, syscall.ENOMEM, syscall.ELOOP)
	case 4, 5, 6:
		f.Class, f.Val = "W", e(syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG, syscall.EBADF, syscall.EAGAIN, syscall.EPIPE)
	case 7, 8: // a disk that fills up in the middle of a write
		g2 := f
		f.Class, f.Act, f.Val, f.Count = "W", actShort, g.r.Int(1, 2, 10, 1000), 1
		g2.Class, g2.Val, g2.N, g2.Count = "W", int(syscall.ENOSPC), f.N+1, 0
		return []CLIFault{f, g2}
	case 9: // the whole output
		f.Class, f.Val, f.N, f.Count = "W", e(syscall.ENOSPC, syscall.EIO), 0, 0
	case 10:
		f.Class, f.Val = "E", e(syscall.EIO, syscall.ENOSPC, syscall.EBADF)
	default:
		f.Class, f.Act, f.Val, f.Count = g.r.Str("R", "W", "W", "O", "S", "F", "E"), actKill, g.r.Int(0, 1, 10, 100000), 1
	}
	return []CLIFault{f}
}

var cliNames = []string{"a.json", "b.json", "0.json", "z.json", "sub dir/c.hjson", "noext", "\u00e9.json", "-dash.json", "UPPER.JSON", "x10.json", "x9.json"}

// cliProg is a script without the separators of the flag (, and :).
func (g *gen) cliProg() *Prog {
	p := &Prog{ID: g.id()}
	for i, n := 0, g.r.Range(0, 3); i < n; i++ {
		switch g.r.Intn(8) {
		case 5, 6:
			p.Stmts = append(p.Stmts, Stmt{Op: "set", K: g.key(), V: Tree{g.num()}})
		case 7:
			p.Stmts = append(p.Stmts, Stmt{Op: "copy", K: g.key(), K2: g.key()})
		case 0, 1:
			p.Stmts = append(p.Stmts, Stmt{Op: "del", K: g.key()})
		case 2, 3:
			p.Stmts = append(p.Stmts, Stmt{Op: "setp", Path: Path{{K: "key", Key: g.r.Str("a", "b", "c", "added")}}, V: Tree{float64(g.r.Intn(50))}})
		default:
			p.Stmts = append(p.Stmts, Stmt{Op: "print", Err: g.r.P(1, 3)})
		}
	}
	if g.r.P(1, 20) {
		p.Stmts = append(p.Stmts, Stmt{Op: "throw", S: "boom" + p.ID, N: float64(g.r.Intn(3))})
	}
	if strings.ContainsAny(p.Body(), ",:") {
		panic("harness: separator in " + p.Body())
	}
	return p
}

// cliPairs picks places for scripts in the objects of a document.
func (g *gen) cliPairs(doc M, n int) (out []CLIPair) {
	var ps []Path
	var walkM func(m M, at Path)
	walkM = func(m M, at Path) {
		ps = append(ps, at)
		for _, k := range sortedKeys(m) {
			if !pathKey(k) {
				continue
			}
			at := append(append(Path{}, at...), Step{K: "key", Key: k})
			switch v := m[k].(type) {
			case M:
				walkM(v, at)
			case A:
				all := len(v) > 0
				for i, e := range v {
					if em, ok := e.(M); ok {
						walkM(em, append(append(Path{}, at...), Step{K: "idx", Idx: []int{i}}))
					} else {
						all = false
					}
				}
				if all {
					ps = append(ps, append(append(Path{}, at...), Step{K: "wildb"}))
				}
			}
		}
	}
	walkM(doc, nil)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		if len(out) > 0 && g.r.P(1, 8) { // the later script counts
			out = append(out, CLIPair{Path: out[g.r.Intn(len(out))].Path, Prog: g.cliProg()})
			continue
		}
		at := ps[g.r.Intn(len(ps))]
		k := g.r.Str("S", "s1", "s2", "s10", "zs", "As", "_s", "s-1")
		p := append(append(Path{}, at...), Step{K: "key", Key: k})
		if used[p.String()] {
			continue
		}
		used[p.String()] = true
		pair := CLIPair{Path: p}
		if !g.r.P(1, 10) {
			pair.Prog = g.cliProg()
		}
		out = append(out, pair)
	}
	return
}

func genCLI(prop string, seed uint64) *Case {
	g := newGen(prop, seed)
	c := g.c
	c.Delay = 4
	g.noFilt = g.r.P(1, 2)
	l := &CLICase{Cmd: "eval", Verbose: g.r.P(1, 4)}
	c.CLI = l
	if g.r.P(2, 5) {
		l.Cmd = "markup"
		l.Eval, l.Strip = g.r.P(2, 3), g.r.P(1, 5)
		l.Lang = g.r.Str("", "", "js")
	}
	errs := g.r.P(1, 6)
	n := g.r.Range(1, 4)
	if prop == "C15" {
		n = g.r.Range(1, 6)
	}
	if g.r.P(1, 6) {
		n = 0
	}
	names := g.r.Perm(len(cliNames))
	mk := func(i int, name string) CLIFile {
		g.oi, g.np = i, 0
		f := CLIFile{Name: name, Kind: "json", Perm: g.perm()}
		o := docOpt{scripts: g.r.Range(0, 4), stmts: g.r.Range(0, 4), array: l.Cmd == "eval", gets: g.r.P(1, 3), noRepl: l.Cmd == "markup"}
		switch {
		case g.r.P(1, 12):
			o.scripts = 0
			f.Kind = "hjson"
		case errs && g.r.P(1, 3) && o.scripts > 0:
			o.fail = []Stmt{{Op: "throw", S: "boom", N: float64(g.r.Intn(throwVariants))}}
			if g.r.P(1, 4) {
				o.fail = []Stmt{{Op: "forever", N: float64(g.r.Intn(foreverVariants))}}
			}
		}
		f.Doc = Tree{g.scriptDoc(o)}
		if g.r.P(1, 12) {
			f.Pad = g.r.Int(600, 5000, 70000, 300000)
		}
		return f
	}
	var first interface{}
	for i := 0; i < n; i++ {
		f := mk(i, cliNames[names[i]])
		if first == nil {
			first = f.Doc.V
		}
		if errs {
			switch g.r.Intn(12) {
			case 0:
				f = CLIFile{Name: f.Name, Kind: "missing"}
			case 1:
				f = CLIFile{Name: f.Name, Kind: "raw", Raw: g.r.Str("]", "{", "[1,", "{\"a\":[1,2", "{\"a\":--1,}", "{\"a\" 1}")}
			case 2:
				f = CLIFile{Name: f.Name, Kind: "dir"}
			}
		}
		l.Files = append(l.Files, f)
	}
	if n == 0 {
		var f CLIFile
		for ok := false; !ok; ok = len(f.content()) < 100000 { // the limit of one argument is 128 KB
			f = mk(0, "stdin")
			f.Pad = 0
		}
		first = f.Doc.V
		l.Input = &f
		if errs && g.r.P(1, 4) {
			l.Input = nil
		}
	}
	if l.Cmd == "markup" {
		m, ok := first.(M)
		if !ok {
			m = M{}
		}
		g.oi = 90
		k := g.r.Range(1, 4)
		if n > 1 {
			m = M{} // the same paths in every file
		}
		l.Pairs = g.cliPairs(m, k)
		if errs {
			switch g.r.Intn(6) {
			case 0:
				l.Pairs = nil
			case 1:
				l.Pairs = append(l.Pairs, CLIPair{Path: Path{{K: "key", Key: "nope"}, {K: "key", Key: "deep"}, {K: "key", Key: "s"}}})
			case 2:
				l.Lang = "cobol"
			}
		}
	}
	if errs && g.r.P(1, 8) {
		switch g.r.Intn(3) {
		case 0:
			l.Cmd = g.r.Str("evil", "Eval", "")
		case 1:
			l.Extra = []string{"-nosuch"}
		default:
			l.Extra = []string{"-verbose=maybe"}
		}
	}
	// runs
	ref := CLIRun{Cfg: g.cfg()}
	ref.Cfg.StallRate, ref.Cfg.TimerRate, ref.Cfg.ClockRate, ref.Cfg.Policy, ref.Cfg.YieldDen = 0, 0, 0, 0, 0
	l.Runs = append(l.Runs, ref)
	k := g.r.Range(3, 5)
	for i := 0; i < k; i++ {
		r := CLIRun{Cfg: g.cfg()}
		r.Cfg.CostSteps, r.Cfg.CostTick = ref.Cfg.CostSteps, ref.Cfg.CostTick
		if prop == "C12" || g.r.P(1, 3) {
			if prop == "C15" || g.r.P(2, 5) {
				for j, m := 0, g.r.Range(1, 3); j < m; j++ {
					r.Faults = append(r.Faults, g.benign())
				}
			} else {
				r.Faults = g.hard()
				if g.r.P(1, 4) {
					r.Faults = append(r.Faults, g.benign())
				}
			}
		}
		l.Runs = append(l.Runs, r)
	}
	c.Cfg = ref.Cfg
	return c
}

func (f *CLIFile) content() []byte {
	if f.Kind == "raw" {
		return []byte(f.Raw)
	}
	if f.Kind == "hjson" {
		b, err := hjson.Marshal(plainTree(f.tree()))
		if err != nil {
			panic("harness: " + err.Error())
		}
		var v interface{}
		if hjson.Unmarshal(b, &v) == nil && canon(v) == canon(plainTree(f.tree())) {
			return b // not for strings that the package itself loses, such as a no-break space
		}
	}
	var perm *Rng
	if f.Perm != 0 {
		perm = &Rng{f.Perm}
	}
	return encode(f.tree(), perm)
}

func (f *CLIFile) tree() interface{} {
	v := clone(f.Doc.V)
	if f.Pad > 0 {
		s := strings.Repeat("0123456789abcdef", f.Pad/16+1)[:f.Pad]
		switch t := v.(type) {
		case M:
			t["pad"] = s
		case A:
			v = append(t, s)
		}
	}
	return v
}

func (l *CLICase) args() []string {
	var a []string
	if l.Cmd != "" {
		a = append(a, l.Cmd)
	}
	if l.Verbose {
		a = append(a, "-verbose")
	}
	if l.Eval {
		a = append(a, "-eval")
	}
	if l.Strip {
		a = append(a, "-strip")
	}
	if l.Lang != "" {
		a = append(a, "-language", l.Lang)
	}
	if len(l.Files) > 0 {
		var n []string
		for i := range l.Files {
			n = append(n, l.Files[i].Name)
		}
		a = append(a, "-files", strings.Join(n, ","))
	}
	if l.Input != nil {
		a = append(a, "-input", string(l.Input.content()))
	}
	if len(l.Pairs) > 0 {
		var n []string
		for _, p := range l.Pairs {
			s := p.Path.String()
			if p.Prog != nil {
				s += ":" + p.Prog.Body()
			}
			n = append(n, s)
		}
		a = append(a, "-path-scripts", strings.Join(n, ","))
	}
	return append(a, l.Extra...)
}

// ---- reference model ----

type cliOut struct {
	json bool
	text string // canonical value or exact text
}

type cliWant struct {
	fail  bool
	outs  []cliOut
	evals []*evalModel // of the inputs before the one that fails
	part  *evalModel   // of the input that fails
	calls bool         // failed before anything was evaluated
}

func (l *CLICase) model() (w cliWant) {
	if l.Cmd != "eval" && l.Cmd != "markup" || len(l.Extra) > 0 || len(l.Files) == 0 && l.Input == nil {
		w.fail = true
		return
	}
	if l.Cmd == "eval" && (l.Eval || l.Strip || l.Lang != "" || len(l.Pairs) > 0) {
		w.fail = true
		return
	}
	var in []*CLIFile
	for i := range l.Files {
		f := &l.Files[i]
		if f.Kind == "missing" || f.Kind == "dir" {
			w.fail = true
			return
		}
		in = append(in, f)
	}
	if l.Input != nil && len(l.Files) == 0 {
		if len(l.Input.content()) == 0 {
			w.fail = true
			return
		}
		in = append(in, l.Input)
	}
	for _, f := range in {
		if f.Kind == "raw" {
			w.fail = true
			return
		}
		t := f.tree()
		if l.Cmd == "markup" {
			root, arr := asRoot(t)
			if len(l.Pairs) == 0 || l.Lang != "" && l.Lang != "js" {
				w.fail = true
				return
			}
			if l.Strip {
				stripModel(root)
			}
			ps := append([]CLIPair(nil), l.Pairs...)
			sort.SliceStable(ps, func(i, j int) bool { return ps[i].Path.String() < ps[j].Path.String() })
			for _, p := range ps {
				prog := p.Prog
				if prog == nil {
					prog = &Prog{Bare: "// No script specified", Nop: true}
				}
				var ms float64
				if err := setPath(root, p.Path, prog, &ms); err != nil {
					w.fail = true
					return
				}
			}
			t = root
			if arr {
				t = root["array"]
			}
			if !l.Eval {
				b, err := hjson.Marshal(unroot(root, arr))
				if err != nil {
					panic("harness: " + err.Error())
				}
				w.outs = append(w.outs, cliOut{text: string(b)})
				continue
			}
		}
		m := evalDoc(t, 4000)
		if len(m.Stops) > 0 {
			w.fail, w.part = true, m
			return
		}
		w.evals = append(w.evals, m)
		w.outs = append(w.outs, cliOut{json: true, text: canon(m.Tree)})
	}
	return
}

// ---- execution ----

type cliRes struct {
	exit     int
	out, err string
	rep      cliReport
	hasRep   bool
	timeout  bool
	changed  string // an input that was modified
}

type cliReport struct {
	Exit   int
	End    string
	Stats  runtime.SimStats
	Calls  []string
	Fired  []string
	Counts map[string]int
	Failed []string
}

// setup writes the input files below dir.
func (l *CLICase) setup(dir string) error {
	for i := range l.Files {
		f := &l.Files[i]
		p := filepath.Join(dir, f.Name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		var err error
		switch f.Kind {
		case "missing":
		case "dir":
			err = os.Mkdir(p, 0o755)
		default:
			err = os.WriteFile(p, f.content(), 0o644)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func cliExe() string {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return filepath.Join(filepath.Dir(exe), "jdcli")
}

type cliConf struct {
	Sim    runtime.SimConfig
	Faults []CLIFault
}

func (l *CLICase) run(base string, cfg *Cfg, faults []CLIFault) *cliRes {
	work := filepath.Join(base, "w")
	if err := os.MkdirAll(work, 0o755); err != nil {
		fatal("%v", err)
	}
	if err := l.setup(work); err != nil {
		fatal("%v", err)
	}
	conf, _ := json.Marshal(cliConf{Sim: runtime.SimConfig{MapSeed: cfg.MapSeed, SchedSeed: cfg.SchedSeed, FaultSeed: cfg.FaultSeed, Policy: cfg.Policy, Arg: cfg.Arg,
		YieldDen: cfg.YieldDen, CostSteps: cfg.CostSteps, CostTick: cfg.CostTick, StallRate: cfg.StallRate, StallMax: cfg.StallMax,
		TimerRate: cfg.TimerRate, TimerMax: cfg.TimerMax, ClockRate: cfg.ClockRate, ClockMax: cfg.ClockMax, MaxDecisions: 1 << 20}, Faults: faults})
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, cliExe(), l.args()...)
	c.Dir = work
	c.Env = []string{"JDSIM_CLI=" + string(conf), "TZ=UTC", "GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=single", "HOME=" + base, "LANG=C"}
	var fs [3]*os.File
	for i, n := range []string{"out", "err", "rep"} {
		f, err := os.OpenFile(filepath.Join(base, n), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
		if err != nil {
			fatal("%v", err)
		}
		defer f.Close()
		fs[i] = f
	}
	c.Stdout, c.Stderr, c.ExtraFiles = fs[0], fs[1], fs[2:]
	err := c.Run()
	r := &cliRes{timeout: ctx.Err() != nil}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		fatal("running the tool: %v", err)
	}
	r.exit = c.ProcessState.ExitCode()
	get := func(i int) []byte {
		fs[i].Seek(0, 0)
		b, err := io.ReadAll(fs[i])
		if err != nil {
			fatal("%v", err)
		}
		return b
	}
	r.out, r.err = string(get(0)), string(get(1))
	b := get(2)
	if len(b) > 0 {
		if err := json.Unmarshal(b, &r.rep); err != nil {
			fatal("report of the tool: %v: %s", err, b)
		}
		r.hasRep = true
	}
	if strings.Contains(r.err, "harness:") {
		fatal("simulated tool: %s", r.err)
	}
	for i := range l.Files {
		f := &l.Files[i]
		if f.Kind == "missing" || f.Kind == "dir" {
			continue
		}
		p := filepath.Join(work, f.Name)
		if b, err := os.ReadFile(p); err != nil {
			r.changed = fmt.Sprintf("%s: %v", f.Name, err)
		} else if !bytes.Equal(b, f.content()) {
			r.changed = f.Name
		}
	}
	if err := os.RemoveAll(work); err != nil {
		fatal("%v", err)
	}
	return r
}

func runCLI(c *Case, o *Outcome) {
	l := c.CLI
	runtime.GC()
	base, err := os.MkdirTemp("", "jdcli-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(base)
	add := func(run int, f string, a ...interface{}) {
		o.Viols = append(o.Viols, Viol{"cli", -1, run, short(fmt.Sprintf(f, a...))})
	}
	var ref *cliRes
	for i := range l.Runs {
		run := &l.Runs[i]
		fs := append([]CLIFault(nil), run.Faults...)
		if ref != nil {
			for j := range fs {
				if n := ref.rep.Counts[fs[j].Class]; n > 0 {
					fs[j].N %= n
				} else {
					fs[j].N = 0
				}
				// a disk that is full stays full from the next write on
				if j > 0 && fs[j].Class == "W" && fs[j].Count == 0 && fs[j-1].Class == "W" && fs[j-1].Act == actShort && run.Faults[j].N == run.Faults[j-1].N+1 {
					fs[j].N = fs[j-1].N + 1
				}
			}
		}
		r := l.run(base, &run.Cfg, fs)
		o.noteCLI(c, &run.Cfg, r)
		if r.changed != "" {
			add(i, "input file %s was modified", r.changed)
		}
		if r.timeout || r.hasRep && (r.rep.End == "deadlock" || r.rep.End == "runaway") {
			o.Viols = append(o.Viols, Viol{"hang", -1, i, "the tool did not come to an end: " + r.rep.End})
			if i == 0 {
				return
			}
			continue
		}
		if i == 0 {
			ref = r
			l.judgeRef(c, r, add)
			continue
		}
		soft := true
		for _, f := range fs {
			soft = soft && (f.Act == 0 || f.Act == actShort || f.Act == actSize || f.Act == actErrno && f.Val == int(syscall.EINTR))
		}
		what := strings.Join(r.rep.Fired, ", ")
		if what == "" {
			what = "no fault"
		}
		if soft {
			d := ""
			switch {
			case r.exit != ref.exit:
				d = fmt.Sprintf("exit status %d, was %d", r.exit, ref.exit)
			case normErr(r.out) != normErr(ref.out):
				d = fmt.Sprintf("output %s, was %s", diffAt(r.out, ref.out), diffAt(ref.out, r.out))
			case normErr(r.err) != normErr(ref.err):
				d = fmt.Sprintf("error output %s, was %s", diffAt(r.err, ref.err), diffAt(ref.err, r.err))
			}
			if d != "" && !l.excused(r, ref) {
				add(i, "%s (%s)", d, what)
			}
			continue
		}
		if r.exit != 0 {
			continue
		}
		switch {
		case ref.exit != 0:
			add(i, "exit status 0 with faults (%s), %d without", what, ref.exit)
		case normErr(r.out) != normErr(ref.out) && !l.excused(r, ref):
			add(i, "exit status 0 although the output is not complete: %s, must be %s (%s)", diffAt(r.out, ref.out), diffAt(ref.out, r.out), what)
		case len(r.rep.Failed) > 0:
			add(i, "exit status 0 although %s could not be read (%s)", strings.Join(r.rep.Failed, ", "), what)
		}
	}
}

// excused: injected delays may have used up a script's halting limit.
func (l *CLICase) excused(r, ref *cliRes) bool {
	if strings.Contains(r.out, "Infinite loop") == strings.Contains(ref.out, "Infinite loop") {
		return false
	}
	var d int64
	for _, f := range r.rep.Stats.Faults {
		if f.Kind != runtime.SimFaultClock {
			d += f.Val
		}
	}
	return d > 5e8 || r.rep.Stats.Stalls > 0
}

var cliMsg = regexp.MustCompile(`(?m)^(Print|Error) call from: [^\n]*\n(?:\t[^\n]*\n)+`)

func cliMsgs(s string, ch int) (out []parsed, rest string) {
	for i, m := range cliMsg.FindAllString(s, -1) {
		out = append(out, parseMsg(i, &Msg{Data: m, Ch: ch}))
	}
	return out, cliMsg.ReplaceAllString(s, "")
}

// judgeRef compares a run without faults with the reference model.
func (l *CLICase) judgeRef(c *Case, r *cliRes, add func(int, string, ...interface{})) {
	w := l.model()
	if w.fail && r.exit == 0 {
		add(0, "exit status 0 although it must fail; output %s", short(r.out))
		return
	}
	if !w.fail && r.exit != 0 {
		add(0, "exit status %d: %s %s", r.exit, tail(r.out, 200), tail(r.err, 100))
		return
	}
	msgs, rest := cliMsgs(r.out, 0)
	emsgs, _ := cliMsgs(r.err, 1)
	for i, o := range w.outs {
		ok := false
		if o.json {
			for rest != "" && !ok {
				line := rest
				if j := strings.IndexByte(rest, '\n'); j >= 0 {
					line, rest = rest[:j], rest[j+1:]
				} else {
					break // not a whole line
				}
				var v interface{}
				ok = json.Unmarshal([]byte(line), &v) == nil && canon(v) == o.text
				if !ok && !l.Verbose {
					add(0, "result %d: got %s, want %s", i, diffAt(line, o.text), diffAt(o.text, line))
					return
				}
			}
		} else {
			want := o.text + "\n"
			j := strings.Index(rest, want)
			if ok = j == 0 || j > 0 && l.Verbose; ok {
				rest = rest[j+len(want):]
			}
		}
		if !ok {
			add(0, "result %d is missing: want %s, in %s", i, short(o.text), short(r.out))
			return
		}
	}
	if !w.fail && rest != "" {
		add(0, "output after the last result: %q", short(rest))
	}
	if w.fail {
		return
	}
	// console messages: those of one script in its order
	want := map[string][]string{}
	for _, m := range w.evals {
		for i := range m.Runs {
			for _, e := range m.Runs[i].out {
				k := fmt.Sprintf("%s %v", e.Prog, e.Err)
				want[k] = append(want[k], e.Text()+" in <"+e.Scope+">")
			}
		}
	}
	got := map[string][]string{}
	for _, m := range append(msgs, emsgs...) {
		k := fmt.Sprintf("%s %v", m.prog, m.err)
		s := m.scopes
		if i := strings.LastIndex(s, "<$"); i >= 0 { // other parts of the location may be in angle brackets too
			if j := strings.IndexByte(s[i:], '>'); j > 0 {
				s = s[i : i+j+1]
			}
		}
		got[k] = append(got[k], m.text+" in "+s)
	}
	multi := len(l.Pairs) > 0 // one script may have been added in several places
	for _, k := range sortedKeys2(want, got) {
		a, b := append([]string(nil), got[k]...), append([]string(nil), want[k]...)
		if multi {
			sort.Strings(a)
			sort.Strings(b)
		}
		if x, y := strings.Join(a, "\n"), strings.Join(b, "\n"); x != y {
			add(0, "messages of %q: got %s, want %s", k, diffAt(x, y), diffAt(y, x))
			return
		}
	}
}

func sortedKeys2(a, b map[string][]string) (ks []string) {
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return
}

func (o *Outcome) noteCLI(c *Case, cfg *Cfg, r *cliRes) {
	o.Runs++
	h := o.Hash
	mixin := func(v uint64) { h = mix(h ^ v) }
	st := &r.rep.Stats
	mixin(st.Hash)
	mixin(uint64(r.exit))
	mixin(hashStr(normPtr(r.out)))
	mixin(hashStr(normPtr(r.err)))
	mixin(hashStr(strings.Join(r.rep.Calls, "\n")))
	mixin(uint64(st.VirtualNS))
	o.Hash = h
	s := &o.St
	s.Execs++
	s.VirtualNS += st.VirtualNS
	s.Decisions += uint64(st.Decisions)
	s.NonDefault += uint64(st.NonDefault)
	s.Switches += uint64(st.Switches)
	s.Yields += uint64(st.Yields)
	s.Steps += st.Steps
	s.Goroutines += uint64(st.Goroutines)
	if uint64(st.MaxRunnable) > s.MaxRunnable {
		s.MaxRunnable = uint64(st.MaxRunnable)
	}
	s.Stalls += uint64(st.Stalls)
	s.LateTimers += uint64(st.TimerLates)
	s.ClockJumps += uint64(st.ClockJumps)
	s.Policies[[]string{"fifo", "uniform", "lifo", "pct", "sticky", "starve"}[cfg.Policy%6]]++
	for _, f := range r.rep.Fired {
		s.Fired["system call "+f]++
	}
	k := "success"
	if r.exit != 0 {
		k = "failure"
	}
	s.Ops["cli "+c.CLI.Cmd+" "+k]++
	if strings.Contains(r.out, "Infinite loop") {
		s.Halts++
	}
	s.Msg += len(cliMsg.FindAllString(r.out, -1)) + len(cliMsg.FindAllString(r.err, -1))
}

func normPtr(s string) string { return ptrRe.ReplaceAllString(s, "<ptr>") }

// ---- minimisation ----

func (c *CLICase) edits() (out []func(*CLICase) bool) {
	add := func(f func(*CLICase) bool) { out = append(out, f) }
	for i := len(c.Runs) - 1; i > 0; i-- {
		add(func(n *CLICase) bool {
			n.Runs = append(n.Runs[:i], n.Runs[i+1:]...)
			return true
		})
	}
	for i := range c.Files {
		add(func(n *CLICase) bool {
			n.Files = append(n.Files[:i], n.Files[i+1:]...)
			return true
		})
		add(func(n *CLICase) bool { ch := n.Files[i].Pad > 0; n.Files[i].Pad = 0; return ch })
	}
	for i := range c.Pairs {
		add(func(n *CLICase) bool {
			n.Pairs = append(n.Pairs[:i], n.Pairs[i+1:]...)
			return true
		})
	}
	for i := range c.Runs {
		for j := range c.Runs[i].Faults {
			add(func(n *CLICase) bool {
				n.Runs[i].Faults = append(n.Runs[i].Faults[:j], n.Runs[i].Faults[j+1:]...)
				return true
			})
		}
		add(func(n *CLICase) bool {
			cf := &n.Runs[i].Cfg
			ch := cf.StallRate+cf.TimerRate+cf.ClockRate > 0
			cf.StallRate, cf.TimerRate, cf.ClockRate = 0, 0, 0
			return ch
		})
		add(func(n *CLICase) bool {
			cf := &n.Runs[i].Cfg
			ch := cf.YieldDen > 0 || cf.Policy > 0
			cf.YieldDen, cf.Policy = 0, 0
			return ch
		})
		add(func(n *CLICase) bool { cf := &n.Runs[i].Cfg; ch := cf.MapSeed > 0; cf.MapSeed = 0; return ch })
	}
	add(func(n *CLICase) bool { ch := n.Verbose; n.Verbose = false; return ch })
	add(func(n *CLICase) bool { ch := n.Strip; n.Strip = false; return ch })
	doc := func(v interface{}, at func(*CLICase) *Tree) {
		for k := 0; k < countCuts(v); k++ {
			add(func(n *CLICase) bool {
				k := k
				t := at(n)
				var ok bool
				t.V, ok = cut(t.V, &k, true)
				return ok
			})
		}
	}
	for i := range c.Files {
		doc(c.Files[i].Doc.V, func(n *CLICase) *Tree { return &n.Files[i].Doc })
	}
	if c.Input != nil {
		doc(c.Input.Doc.V, func(n *CLICase) *Tree { return &n.Input.Doc })
	}
	return
}

func (c *CLICase) shrinks() int      { return len(c.edits()) }
func (c *CLICase) shrink(i int) bool { return c.edits()[i](c) }
func (c *CLICase) String() string {
	var b strings.Builder
	b.WriteString("json-dom")
	for _, a := range c.args() {
		fmt.Fprintf(&b, " %q", tail(a, 300))
	}
	for i := range c.Files {
		f := &c.Files[i]
		fmt.Fprintf(&b, "; file %q (%s)", f.Name, f.Kind)
		if f.Kind != "missing" && f.Kind != "dir" {
			fmt.Fprintf(&b, " %s", short(string(f.content())))
		}
	}
	fmt.Fprintf(&b, "; %d runs", len(c.Runs))
	for i, r := range c.Runs {
		for _, f := range r.Faults {
			fmt.Fprintf(&b, "; run %d fault %+v", i, f)
		}
	}
	return b.String()
}
