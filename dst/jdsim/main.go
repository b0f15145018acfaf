package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

var dbgRands uint64
var dbgTrace []uint64

type simFault = runtime.SimFault

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

func simInit() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(400 << 20)
	runtime.MemProfileRate = 0
	os.Setenv("FULL", "")
	// the first run in a process does work that later ones need not do
	for _, f := range []*Filter{nil, {K: "gt", Key: "age", N: 3}} {
		g := newGen("C08", 1)
		g.c.Cfg.StallRate, g.c.Cfg.TimerRate, g.c.Cfg.ClockRate = 0, 0, 0
		g.add(Op{K: "eval", Doc: Tree{M{"a": A{1.0, M{"b": "x"}}, "s": &Prog{ID: "w", Stmts: []Stmt{{Op: "dump"}, {Op: "throw", S: "x"}}}}}})
		g.add(Op{K: "load", Slot: "s", Doc: Tree{M{"a": A{M{"age": 4.0}, M{"age": 1.0, "b": "y"}}}}})
		g.add(Op{K: "get", Slot: "s", Path: Path{{K: "key", Key: "a"}, {K: "idx", Idx: []int{1}}, {K: "key", Key: "b"}}})
		if f != nil {
			g.add(Op{K: "get", Slot: "s", Path: Path{{K: "key", Key: "a"}, {K: "filter", F: f}}})
		}
		Execute(g.c, &g.c.Cfg, 1<<62)
	}
}

// Replay is the content of a replay file: the cases to execute in one process,
// of which the last one violates the property.
type Replay struct {
	Property string  `json:"property"`
	Title    string  `json:"title,omitempty"`
	Seed     uint64  `json:"seed"`
	Race     bool    `json:"race,omitempty"`
	Kinds    []Viol  `json:"violations"`
	Crash    string  `json:"crash,omitempty"`
	Cases    []*Case `json:"cases"`
}

type Verdict struct {
	Seed  uint64
	Viols []Viol
	Other []Viol `json:",omitempty"`
	Hash  uint64
}

type batchLine struct {
	Stats  Stats
	Hashes []uint64 // of the runs with injected faults or non-default decisions
	Other  map[string]int
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: jdsim work|try|check|replay|show ...")
	}
	switch os.Args[1] {
	case "work":
		work(os.Args[2:])
	case "try":
		try(os.Args[2])
	case "check":
		check(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "probe":
		runProbe(os.Args[2])
	case "show":
		fs := flag.NewFlagSet("show", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		seed := fs.Uint64("seed", 0, "")
		fs.Parse(os.Args[2:])
		simInit()
		c := genCase(*prop, *seed)
		b, _ := json.MarshalIndent(c, "", " ")
		fmt.Println(string(b))
		os.Setenv("FULL", "1")
		o := runCase(c)
		for _, v := range o.Viols {
			fmt.Printf("VIOL %+v\n", v)
		}
		for _, v := range o.Other {
			fmt.Printf("OTHER %+v\n", v)
		}
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

// work executes a range of seeds.
func work(args []string) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	from := fs.Uint64("from", 0, "first seed")
	n := fs.Int("n", 1, "how many")
	hash := fs.Int("hash", 0, "print the hash of every n-th run")
	budget := fs.Float64("budget", 1e9, "seconds")
	stop := fs.Bool("stop", false, "stop at the first violation")
	fs.Parse(args)
	fmt.Printf("B %d\n", *from) // dying before the first run counts as failing it
	simInit()
	out := bufio.NewWriter(os.Stdout)
	t0 := time.Now()
	bl := batchLine{Stats: newStats(), Other: map[string]int{}}
	for i := 0; i < *n; i++ {
		if time.Since(t0).Seconds() > *budget {
			break
		}
		seed := *from + uint64(i)
		fmt.Fprintf(out, "B %d\n", seed)
		out.Flush()
		c := genCase(*prop, seed)
		o := runCase(c)
		o.St.Runs = 1
		bl.Stats.add(&o.St)
		for _, v := range o.Other {
			bl.Other[v.Kind]++
			if os.Getenv("OTHER") != "" {
				fmt.Fprintf(out, "O %d %s %s\n", seed, v.Kind, v.Detail)
			}
		}
		if o.St.NonDefault > 0 || o.St.Stalls+o.St.LateTimers+o.St.ClockJumps > 0 || len(o.St.WFaults) > 0 || len(o.St.Fired) > 0 {
			bl.Hashes = append(bl.Hashes, o.Hash)
		}
		if *hash > 0 && seed%uint64(*hash) == 0 {
			fmt.Fprintf(out, "H %d %d\n", seed, o.Hash)
			if os.Getenv("HDEBUG") != "" {
				fmt.Fprintf(out, "D %d rands=%d %+v\n", seed, dbgRands, o.St)
				for _, t := range dbgTrace {
					if t>>63 != 0 {
						fn := runtime.FuncForPC(uintptr(t & (1<<40 - 1)))
						f, l := fn.FileLine(uintptr(t & (1<<40 - 1)))
						fmt.Fprintf(out, "T %d r=%d %s:%d\n", seed, t<<1>>41, f, l)
						continue
					}
					fmt.Fprintf(out, "T %d g=%d n=%d i=%d r=%d\n", seed, t&0xffff, t>>16&0xff, t>>24&0xff, t>>32)
				}
			}
		}
		if len(o.Viols) > 0 {
			b, _ := json.Marshal(Verdict{Seed: seed, Viols: o.Viols, Hash: o.Hash})
			fmt.Fprintf(out, "V %s\n", b)
			out.Flush()
			if *stop {
				break
			}
		}
		if i+1 < *n && *stop && residentMB() > 3000 {
			fmt.Fprintf(out, "M %d\n", seed+1) // go on in a fresh process
			break
		}
	}
	b, _ := json.Marshal(bl)
	fmt.Fprintf(out, "S %s\nDONE\n", b)
	out.Flush()
}

// residentMB is the memory this process holds. Code under test that keeps
// what earlier runs left behind must not take the search down.
func residentMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, resident int
	fmt.Sscan(string(b), &size, &resident)
	return resident * os.Getpagesize() >> 20
}

// try executes a replay file in this process and prints the verdict on its
// last case.
func try(file string) {
	r := loadReplay(file)
	if len(r.Cases) == 1 {
		fmt.Println("LAST")
	}
	simInit()
	for i, c := range r.Cases {
		if i == len(r.Cases)-1 {
			fmt.Println("LAST")
		}
		o := runCase(c)
		if i == len(r.Cases)-1 {
			b, _ := json.Marshal(Verdict{Seed: c.Seed, Viols: o.Viols, Hash: o.Hash})
			fmt.Printf("V %s\n", b)
			if c.CLI == nil && !c.Cfg.Replay && len(o.Sched) < 1<<20 {
				s, _ := json.Marshal(struct {
					Sched []uint16
					Flt   []simFault
				}{o.Sched, o.Flt})
				fmt.Printf("R %s\n", s)
			}
		}
	}
	fmt.Println("DONE")
}

func loadReplay(file string) *Replay {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fatal("%s: %v", file, err)
	}
	if len(r.Cases) == 0 {
		fatal("%s: no case", file)
	}
	return r
}

func kinds(vs []Viol) string {
	var k []string
	for _, v := range vs {
		k = append(k, v.Kind)
	}
	return strings.Join(k, " ")
}
