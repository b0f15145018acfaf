package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"regexp"
	"runtime"
	"strings"
	"time"

	_ "github.com/andygello555/json-dom/code/go"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
)

// Cfg is the simulator configuration of one run (see runtime.SimConfig).
type Cfg struct {
	MapSeed   uint64             `json:"map"`
	SchedSeed uint64             `json:"sched"`
	FaultSeed uint64             `json:"fault"`
	Policy    uint8              `json:"policy"`
	Arg       uint32             `json:"arg"`
	YieldDen  uint32             `json:"yield"`
	CostSteps uint32             `json:"cost_steps"`
	CostTick  int64              `json:"cost_tick"`
	StallRate uint32             `json:"stall_rate,omitempty"`
	StallMax  int64              `json:"stall_max,omitempty"`
	TimerRate uint32             `json:"timer_rate,omitempty"`
	TimerMax  int64              `json:"timer_max,omitempty"`
	ClockRate uint32             `json:"clock_rate,omitempty"`
	ClockMax  int64              `json:"clock_max,omitempty"`
	Replay    bool               `json:"replay,omitempty"`
	Sched     []uint16           `json:"decisions,omitempty"`
	FaultList bool               `json:"fault_list,omitempty"`
	Faults    []runtime.SimFault `json:"faults,omitempty"`
}

// WFault is a fault of a console writer: its N-th write misbehaves.
type WFault struct {
	Ch   int    `json:"ch"` // 0 stdout, 1 stderr
	N    int    `json:"n"`
	Kind string `json:"kind"` // err, short, delay, lag, dead
	Val  int64  `json:"val,omitempty"`
}

type Op struct {
	K    string  `json:"k"`
	Slot string  `json:"slot,omitempty"`
	Doc  Tree    `json:"doc"`
	Path Path    `json:"path,omitempty"`
	V    Tree    `json:"v"`
	Idx  []int   `json:"idx,omitempty"`
	N    float64 `json:"n,omitempty"`
	S    string  `json:"s,omitempty"`
	Go   bool    `json:"go,omitempty"` // scripts run as native callbacks
	Perm uint64  `json:"perm,omitempty"`
	Prog *Prog   `json:"prog,omitempty"`
	Note string  `json:"note,omitempty"` // generator's hint for the oracle
	Back bool    `json:"back,omitempty"` // look the absolute paths of the values up again
}

type Thread struct {
	Ops []Op `json:"ops"`
}

type Case struct {
	Prop    string          `json:"prop"`
	Seed    uint64          `json:"seed"`
	Delay   int             `json:"delay"` // globals.HaltingDelay, seconds
	Cfg     Cfg             `json:"cfg"`
	Shared  map[string]Tree `json:"shared,omitempty"`
	Threads []Thread        `json:"threads"`
	WFaults []WFault        `json:"wfaults,omitempty"`
	Cfg2    *Cfg            `json:"cfg2,omitempty"` // second execution (paired properties)
	CLI     *CLICase        `json:"cli,omitempty"`
}

type OpResult struct {
	Start, End int64
	Done       bool
	M0, M1     int // console messages recorded before and after
	Out        string
	Vals       []string
	Err        string
	IsErr      bool
	Panic      string
	Panicked   bool
	RTPanic    bool // the panic was a Go runtime error
	State      string
	Back       []string // absolute paths that do not lead back to their values
}

// lookup follows the absolute path of a node and returns what is wrong with
// what it finds there.
func lookup(m *jom.JsonMap, n *json_map.JsonPathNode) string {
	want := []string{canon(n.Value)}
	if a, ok := n.Value.(A); ok {
		want = canons(a) // arrays are always unwrapped
	}
	ns, errs := m.GetAbsolutePaths(&json_map.AbsolutePaths{n.Absolute})
	if errs != nil {
		return fmt.Sprintf("%v: %v", n.Absolute, errs[0])
	}
	got := []string{}
	for _, n := range ns {
		got = append(got, canon(n.Value))
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("%v leads to %v instead of %v", n.Absolute, got, want)
	}
	return ""
}

type Msg struct {
	T    int64
	Ch   int
	Data string
	Ret  int // bytes the writer accepted
	Flt  string
	Dly  int64 // ns the writer took
	Go   bool  // event of a native callback
	Prog string
	Scp  string
}

type Result struct {
	Stats   runtime.SimStats
	Ops     [][]OpResult
	Msgs    []Msg
	Late    bool // the run did not finish within its virtual time bound
	Stuck   [][2]int
	Live    int // goroutines alive after the grace period
	LiveEnd int // ... after blocked callbacks were released
	Shared  map[string]string
	Races   int
	Bound   int64
	MsgOver bool
}

const maxMsgs = 1 << 13

type executor struct {
	c       *Case
	res     *Result
	msgs    [maxMsgs]Msg
	nmsg    int
	nw      [2]int
	dead    [2]bool
	release chan struct{}
	shared  map[string]*jom.JsonMap
	bytes   [][][]byte
}

type simWriter struct {
	x  *executor
	ch int
}

var errWriter = errors.New("injected write error")

//go:norace
func (w *simWriter) Write(p []byte) (n int, err error) {
	x := w.x
	i := x.nw[w.ch]
	x.nw[w.ch]++
	n = len(p)
	var delay, lag int64
	flt := ""
	if x.dead[w.ch] {
		n, err, flt = 0, errWriter, "dead"
	}
	for j := range x.c.WFaults {
		f := &x.c.WFaults[j]
		if f.Ch != w.ch || f.N != i || flt != "" {
			continue
		}
		flt = f.Kind
		switch f.Kind {
		case "err":
			n, err = 0, errWriter
		case "short":
			n, err = int(f.Val)%(len(p)+1), io.ErrShortWrite
		case "shortnil": // a writer that breaks the io.Writer contract
			n = int(f.Val) % (len(p) + 1)
		case "dead":
			x.dead[w.ch] = true
			n, err = 0, errWriter
		case "delay":
			delay = f.Val
		case "lag": // arrives late
			lag = f.Val
			time.Sleep(time.Duration(lag))
		}
	}
	k := x.nmsg
	x.nmsg++
	if k < maxMsgs {
		x.msgs[k] = Msg{T: runtime.SimNow(), Ch: w.ch, Data: string(p), Ret: n, Flt: flt, Dly: delay + lag}
	}
	if delay > 0 {
		time.Sleep(time.Duration(delay))
	}
	return n, err
}

//go:norace
func (x *executor) seen() int { return x.nmsg }

//go:norace
func (x *executor) event(prog, scope, text string, isErr bool) {
	k := x.nmsg
	x.nmsg++
	if k < maxMsgs {
		ch := 0
		if isErr {
			ch = 1
		}
		x.msgs[k] = Msg{T: runtime.SimNow(), Ch: ch, Data: text, Go: true, Prog: prog, Scp: scope}
	}
}

// limit is the script limit in ns.
func (c *Case) limit() int64 { return int64(c.Delay) * int64(time.Second) }

// Execute runs a case under the simulator.
func Execute(c *Case, cfg *Cfg, bound int64) *Result {
	res := &Result{Bound: bound}
	x := &executor{c: c, res: res}
	for _, th := range c.Threads {
		var bs [][]byte
		for i := range th.Ops {
			op := &th.Ops[i]
			var b []byte
			switch op.K {
			case "eval", "load":
				var perm *Rng
				if op.Perm != 0 {
					perm = &Rng{op.Perm}
				}
				b = encode(op.Doc.V, perm)
			case "raw":
				b = []byte(op.S)
			}
			bs = append(bs, b)
		}
		x.bytes = append(x.bytes, bs)
		res.Ops = append(res.Ops, make([]OpResult, len(th.Ops)))
	}
	sc := runtime.SimConfig{MapSeed: cfg.MapSeed, SchedSeed: cfg.SchedSeed, FaultSeed: cfg.FaultSeed, Policy: cfg.Policy, Arg: cfg.Arg,
		YieldDen: cfg.YieldDen, Replay: cfg.Replay, Sched: cfg.Sched, CostSteps: cfg.CostSteps, CostTick: cfg.CostTick,
		StallRate: cfg.StallRate, StallMax: cfg.StallMax, TimerRate: cfg.TimerRate, TimerMax: cfg.TimerMax, ClockRate: cfg.ClockRate, ClockMax: cfg.ClockMax,
		FaultList: cfg.FaultList, Faults: cfg.Faults, MaxDecisions: 1 << 20, RecordMax: 1 << 20}
	if os.Getenv("HDEBUG") != "" {
		sc.Trace = 1 << 20
	}
	r0 := raceErrors()
	runtime.GC()
	runtime.GC() // empties the victim caches of pools too
	res.Stats = runtime.SimRun(&sc, func() {
		runtime.SimBegin()
		x.main(cfg)
	})
	res.Races = raceErrors() - r0
	n := x.nmsg
	if n > maxMsgs {
		n, res.MsgOver = maxMsgs, true
	}
	res.Msgs = append([]Msg(nil), x.msgs[:n]...)
	js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = io.Discard, io.Discard
	return res
}

func (x *executor) main(cfg *Cfg) {
	c, res := x.c, x.res
	globals.HaltingDelay = c.Delay
	js.ExternalConsoleLogStdout = &simWriter{x, 0}
	js.ExternalConsoleLogStderr = &simWriter{x, 1}
	x.release = make(chan struct{})
	x.shared = map[string]*jom.JsonMap{}
	for _, k := range sharedKeys(c) {
		m := jom.New()
		if err := m.Unmarshal(encode(c.Shared[k].V, nil)); err != nil {
			panic("harness: shared document: " + err.Error())
		}
		x.shared[k] = m
	}
	done := make(chan int, len(c.Threads))
	for i := range c.Threads {
		go x.thread(i, done)
	}
	tm := time.NewTimer(time.Duration(res.Bound))
	finished := make([]bool, len(c.Threads))
wait:
	for n := 0; n < len(c.Threads); n++ {
		select {
		case i := <-done:
			finished[i] = true
		case <-tm.C:
			res.Late = true
			break wait
		}
	}
	tm.Stop()
	if res.Late {
		for i, f := range finished {
			if !f {
				for j := range res.Ops[i] {
					if !res.Ops[i][j].Done {
						res.Stuck = append(res.Stuck, [2]int{i, j})
						break
					}
				}
			}
		}
		runtime.SimAbort()
		return
	}
	res.Shared = map[string]string{}
	for k, m := range x.shared {
		res.Shared[k] = canon(*m.GetInsides())
	}
	lim := time.Duration(c.limit())
	if lim < time.Second {
		lim = time.Second // filter limit
	}
	time.Sleep(lim + time.Second + time.Duration(cfg.TimerMax+10*cfg.StallMax))
	runtime.SimQuiesce()
	res.Live = runtime.SimLive()
	close(x.release)
	time.Sleep(2*lim + time.Second + time.Duration(cfg.TimerMax+10*cfg.StallMax))
	runtime.SimQuiesce()
	res.LiveEnd = runtime.SimLive()
	if res.LiveEnd > 0 {
		runtime.SimAbort()
	}
}

func sharedKeys(c *Case) []string {
	m := M{}
	for k := range c.Shared {
		m[k] = nil
	}
	return sortedKeys(m)
}

func (x *executor) thread(i int, done chan<- int) {
	slots := map[string]*jom.JsonMap{}
	th := &x.c.Threads[i]
	for j := range th.Ops {
		r := &x.res.Ops[i][j]
		r.Start, r.M0 = runtime.SimNow(), x.seen()
		x.op(&th.Ops[j], x.bytes[i][j], slots, r)
		r.End, r.M1 = runtime.SimNow(), x.seen()
		r.Done = true
	}
	done <- i
}

func (x *executor) op(op *Op, data []byte, slots map[string]*jom.JsonMap, r *OpResult) {
	slot := func() *jom.JsonMap {
		m, ok := x.shared[op.Slot]
		if !ok {
			m = slots[op.Slot]
		}
		if op.Note == "clone" { // a clone is read instead
			m = m.Clone(false).(*jom.JsonMap)
		}
		return m
	}
	fail := func(err error) {
		if err != nil {
			r.IsErr, r.Err = true, err.Error()
		}
	}
	vals := func(vs []interface{}) {
		r.Vals = []string{}
		for _, v := range vs {
			r.Vals = append(r.Vals, canon(v))
		}
	}
	state := func() {
		if m := slot(); m != nil {
			r.State = canon(*m.GetInsides())
		}
	}
	defer func() {
		if p := recover(); p != nil {
			r.Panicked = true
			_, r.RTPanic = p.(runtime.Error)
			if e, ok := p.(error); ok {
				r.Panic = e.Error()
			} else {
				r.Panic = fmt.Sprint(p)
			}
			switch op.K {
			case "mustset", "mustdel", "push", "pop", "runslot":
				state()
			}
		}
	}()
	switch op.K {
	case "eval", "raw":
		out, err := jom.Eval(data, false)
		r.Out = string(out)
		fail(err)
	case "runmap":
		m := jom.NewFromMap(x.goDoc(op.Doc.V, op.Go).(M))
		m.Run()
		out, err := m.Marshal()
		r.Out = string(out)
		fail(err)
	case "load":
		m := slots[op.Slot]
		if m == nil || op.Note != "into" { // else the document of the slot is read anew
			m = jom.New()
			slots[op.Slot] = m
		}
		fail(m.Unmarshal(data))
		state()
	case "badload": // leaves the document of the slot alone
		r.Out = "rejected"
		if slot().Unmarshal([]byte(op.S)) == nil {
			r.Out = "accepted"
		}
		state()
	case "loadmap":
		slots[op.Slot] = jom.NewFromMap(x.goDoc(op.Doc.V, op.Go).(M))
		state()
	case "get":
		ns, err := slot().JsonPathSelector(op.Path.String())
		fail(err)
		if ns != nil {
			r.Vals = []string{}
		}
		for _, n := range ns {
			r.Vals = append(r.Vals, canon(n.Value))
		}
	case "rawget":
		ns, err := slot().JsonPathSelector(op.S)
		fail(err)
		for _, n := range ns {
			r.Vals = append(r.Vals, canon(n.Value))
		}
	case "rawset":
		fail(slot().JsonPathSetter(op.S, clone(op.V.V)))
		state()
	case "abs":
		ps, err := json_map.ParseJsonPath(op.Path.String())
		if err != nil {
			fail(err)
			return
		}
		ns, errs := slot().GetAbsolutePaths(&ps)
		if errs != nil {
			var t []string
			for _, e := range errs {
				t = append(t, e.Error())
			}
			r.IsErr, r.Err = true, strings.Join(t, " & ")
		}
		if ns != nil {
			r.Vals = []string{}
		}
		for i, n := range ns {
			r.Vals = append(r.Vals, canon(n.Value))
			if op.Back && i < 3 {
				// the absolute path of a value leads back to it
				if t := lookup(slot(), n); t != "" {
					r.Back = append(r.Back, t)
				}
			}
		}
	case "mustget":
		vals(slot().MustGet(op.Path.String()))
	case "set", "del":
		fail(slot().JsonPathSetter(op.Path.String(), clone(op.V.V)))
		state()
	case "mustset":
		slot().MustSet(op.Path.String(), clone(op.V.V))
		state()
	case "mustdel":
		slot().MustDelete(op.Path.String())
		state()
	case "push":
		slot().MustPush(op.Path.String(), clone(op.V.V), append([]int(nil), op.Idx...)...)
		state()
	case "pop":
		vals(slot().MustPop(op.Path.String(), append([]int(nil), op.Idx...)...))
		state()
	case "markup":
		if op.Go {
			fail(slot().JsonPathSetter(op.Path.String(), x.callback(op.Prog)))
			state()
			break
		}
		fail(slot().MarkupCode(op.Path.String(), "js", op.Prog.Body()))
		state()
	case "strip":
		slot().Strip()
		state()
	case "runslot":
		slot().Run()
		state()
	case "marshal":
		b, err := slot().Marshal()
		r.Out = string(b)
		fail(err)
	case "string":
		r.Out = slot().String()
	case "scope":
		r.Out = slot().GetCurrentScopePath()
	case "isarray":
		r.Out = fmt.Sprint(slot().IsArray())
	case "sleep":
		time.Sleep(time.Duration(op.N * float64(time.Millisecond)))
	case "delay":
		globals.HaltingDelay = int(op.N)
	default:
		panic("op " + op.K)
	}
}

// goDoc builds a document as Go values; scripts become native callbacks.
func (x *executor) goDoc(v interface{}, native bool) interface{} {
	switch v := v.(type) {
	case M:
		m := make(M, len(v))
		for _, k := range sortedKeys(v) { // v was not made under the simulator
			m[k] = x.goDoc(v[k], native)
		}
		return m
	case A:
		a := make(A, len(v))
		for i, e := range v {
			a[i] = x.goDoc(e, native)
		}
		return a
	case *Prog:
		if native && !v.JS {
			return x.callback(v)
		}
		return v.Source()
	}
	return v
}

func (x *executor) callback(p *Prog) func(json json_map.JsonMapInt) {
	return func(json json_map.JsonMapInt) { x.native(p, json) }
}

func (x *executor) added(p *Prog) interface{} {
	if p.JS {
		return p.Source()
	}
	return x.callback(p)
}

type customPanic struct{ msg string }

// native executes a program as a Go callback.
func (x *executor) native(p *Prog, json json_map.JsonMapInt) {
	scope := json.GetCurrentScopePath()
	emit := func(isErr bool, args ...string) { x.event(p.ID, scope, strings.Join(args, " "), isErr) }
	pay := "P|" + p.ID
	if !p.Mute {
		emit(false, "B|"+p.ID)
	}
	for i := range p.Stmts {
		s := &p.Stmts[i]
		runtime.SimYield()
		m := *json.GetInsides()
		cur, has := m[s.K]
		switch s.Op {
		case "set":
			m[s.K] = clone(s.V.V)
		case "del":
			delete(m, s.K)
		case "add":
			f, _ := cur.(float64)
			m[s.K] = f + s.N
		case "app":
			t, _ := cur.(string)
			m[s.K] = t + s.S
		case "copy":
			switch cur.(type) {
			case M, A:
			default:
				if has {
					m[s.K2] = cur
				}
			}
		case "nset":
			switch c := cur.(type) {
			case M:
				c[s.K2] = clone(s.V.V)
			case A:
				m[s.K] = append(append(A{}, c...), clone(s.V.V))
			}
		case "wrap":
			if has {
				m[s.K] = M{s.K2: cur}
			}
		case "print":
			a := []string{pay}
			for _, e := range s.Args {
				a = append(a, argText(e))
			}
			emit(s.Err, a...)
		case "fprint":
			emit(s.Err, pay, s.S)
		case "loop":
			for j := 0; j < int(s.N); j++ {
				emit(s.Err, pay, s.S)
			}
		case "legacy":
			emit(false, pay, s.S)
		case "sp":
			emit(s.Err, pay, scope)
		case "circ":
			emit(s.Err, append([]string{pay}, s.circ()...)...)
		case "peek":
			switch cur.(type) {
			case M, A, nil:
			default:
				emit(s.Err, pay, argText(cur))
			}
		case "dump":
			emit(s.Err, pay, dump(m))
		case "child":
			emit(s.Err, pay, dump(cur))
		case "get", "getspin", "getx", "getthrow":
			ns, err := json.JsonPathSelector(s.Path.String())
			vs := A{}
			for _, n := range ns {
				vs = append(vs, n.Value)
			}
			if err == nil && len(vs) == 1 {
				if a, ok := vs[0].(A); ok {
					vs = a
				}
			}
			switch {
			case s.Op == "getthrow" && err != nil:
				panic(err)
			case s.Op == "getthrow":
			case err != nil:
				emit(s.Err, pay, "caught")
			case s.Op == "getx":
				emit(s.Err, pay, "got")
			default:
				emit(s.Err, pay, dump(vs))
			}
		case "again":
			for i := 0; i < 2; i++ {
				ns, err := json.JsonPathSelector(s.Path.String())
				vs := A{}
				for _, n := range ns {
					vs = append(vs, n.Value)
				}
				if err == nil && len(vs) == 1 {
					if a, ok := vs[0].(A); ok {
						vs = a
					}
				}
				if err != nil {
					emit(s.Err, pay, "caught")
				} else {
					emit(s.Err, pay, dump(vs))
				}
				if i > 0 {
					break
				}
				if s.N == 1 {
					json.JsonPathSetter(s.Path.String(), clone(s.V.V))
				} else {
					m[s.K] = clone(s.V.V)
				}
			}
		case "setp":
			if err := json.JsonPathSetter(s.Path.String(), clone(s.V.V)); err != nil {
				panic(err)
			}
		case "setpx":
			if err := json.JsonPathSetter(s.Path.String(), clone(s.V.V)); err != nil {
				emit(s.Err, pay, "caught")
			}
		case "replace":
			for k := range m {
				delete(m, k)
			}
			for k, v := range clone(s.V.V).(M) {
				m[k] = v
			}
		case "addscript":
			switch c := cur.(type) {
			case M:
				c[s.K2] = x.added(s.Prog)
			case A:
				if len(c) > 0 {
					if e, ok := c[0].(M); ok {
						e[s.K2] = x.added(s.Prog)
					}
				}
			}
		case "keys":
		case "leak", "noleak":
			if s.Op == "noleak" {
				emit(s.Err, pay, "undefined", "undefined", "undefined", "x", "4", "undefined")
			}
		case "sleep":
			time.Sleep(time.Duration(s.N * float64(time.Millisecond)))
		case "spin":
			end := time.Now().Add(time.Duration(s.N * float64(time.Millisecond)))
			for time.Now().Before(end) {
				runtime.SimStep()
			}
		case "block":
			<-x.release
			return
		case "forever":
			for {
				select {
				case <-x.release:
					return
				default:
				}
				runtime.SimYield()
			}
		case "throw":
			switch int(s.N) % 4 {
			case 0:
				panic(errors.New(s.S))
			case 1:
				panic(s.S)
			case 2:
				panic(customPanic{s.S})
			case 3:
				panic(fmt.Errorf("wrapped: %w", errors.New(s.S)))
			}
		case "rtpanic":
			switch int(s.N) {
			case 1: // neither returns nor panics
				runtime.Goexit()
			case 2:
				panic(nil)
			}
			var mm map[string]int
			mm[s.S] = 1
		case "catch":
			emit(s.Err, pay, "caught")
		default:
			panic("native stmt " + s.Op)
		}
	}
	if !p.Mute {
		emit(false, "E|"+p.ID)
	}
}

var durRe = regexp.MustCompile(`\b\d+(\.\d+)?(ns|µs|ms|s|m|h)(\d+(\.\d+)?(ns|µs|ms|s|m))*\b`)

// normErr removes measured durations and pointer values from an error text.
func normErr(s string) string {
	s = durRe.ReplaceAllString(s, "<dur>")
	return ptrRe.ReplaceAllString(s, "<ptr>")
}

var ptrRe = regexp.MustCompile(`0x[0-9a-f]{5,}`)
