// Command mkoverlay writes the build overlay used by the simulator: patched
// copies of a few Go runtime files, two hook lines in the otto interpreter and
// statement-level yield points in the packages of the repository under test.
//
//	mkoverlay -repo /repo -out DIR -src DIR
//
// It reads the repository's current working tree and never writes to it.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", a...)
	os.Exit(3)
}

type repl struct{ old, new string }

func patch(src string, rs []repl, name string) string {
	for _, r := range rs {
		if n := strings.Count(src, r.old); n != 1 {
			fatal("%s: pattern occurs %d times: %q", name, n, r.old)
		}
		src = strings.Replace(src, r.old, r.new, 1)
	}
	return src
}

func main() {
	repo := flag.String("repo", "/repo", "repository under test")
	out := flag.String("out", "", "output directory")
	here := flag.String("src", "", "directory with the overlay sources")
	flag.Parse()
	if *out == "" || *here == "" {
		fatal("-out and -src are required")
	}
	os.MkdirAll(*out, 0o755)
	replace := map[string]string{}
	write := func(target, name, src string) {
		p := filepath.Join(*out, name)
		if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
			fatal("%v", err)
		}
		replace[target] = p
	}
	goroot := goenv("GOROOT")
	rt := filepath.Join(goroot, "src/runtime")
	rd := func(p string) string {
		b, err := os.ReadFile(p)
		if err != nil {
			fatal("%v", err)
		}
		return string(b)
	}
	write(filepath.Join(rt, "zz_sim.go"), "rt_zz_sim.go", rd(filepath.Join(*here, "zz_sim.go.txt")))
	write(filepath.Join(rt, "proc.go"), "rt_proc.go", patch(rd(filepath.Join(rt, "proc.go")), []repl{
		// scheduler: every bubble goroutine goes through the simulated run queue
		{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif simOn && gp.bubble != nil && simPut(gp) {\n\t\treturn\n\t}\n"},
		{"	if preempted && sched.gcwaiting.Load() {\n", "	if simOn && gp.bubble != nil {\n\t\tif preempted {\n\t\t\tsim.next.set(gp)\n\t\t} else {\n\t\t\tsimPut(gp)\n\t\t}\n\t} else if preempted && sched.gcwaiting.Load() {\n"},
		{"	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n", "	if simOn {\n\t\tif gp := simGet(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n"},
		{"func runqempty(pp *p) bool {\n", "func runqempty(pp *p) bool {\n\tif simOn && (sim.n > 0 || sim.next != 0) {\n\t\treturn false\n\t}\n"},
		{"const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
		{"		newg.bubble = callergp.bubble\n", "		newg.bubble = callergp.bubble\n\t\tif simOn && newg.bubble != nil {\n\t\t\tsimNewG(newg)\n\t\t}\n"},
		// no time slices: only the simulated scheduler preempts
		{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif simOn {\n\t\treturn 0\n\t}\n"},
	}, "proc.go"))
	write(filepath.Join(rt, "runtime2.go"), "rt_runtime2.go", patch(rd(filepath.Join(rt, "runtime2.go")), []repl{
		{"	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n\tsimID    uint64\n\tsimPrio  uint64\n\tsimSteps uint32\n\tsimQuiet bool\n"},
		// everything the code under test can block on counts as blocked
		{"	waitReasonSyncCondWait:          true,\n	waitReasonSynctestWaitGroupWait: true,\n", "	waitReasonSyncCondWait:          true,\n	waitReasonSynctestWaitGroupWait: true,\n\twaitReasonSyncMutexLock:         true,\n\twaitReasonSyncRWMutexRLock:      true,\n\twaitReasonSyncRWMutexLock:       true,\n\twaitReasonSyncWaitGroupWait:     true,\n\twaitReasonSemacquire:            true,\n\twaitReasonChanReceive:           true,\n\twaitReasonChanSend:              true,\n\twaitReasonSelect:                true,\n"},
	}, "runtime2.go"))
	write(filepath.Join(rt, "rand.go"), "rt_rand.go", patch(rd(filepath.Join(rt, "rand.go")), []repl{
		{"func rand() uint64 {\n", "func rand() uint64 {\n\tif simIn() {\n\t\treturn simRand()\n\t}\n"},
		// fixed process-start randomness (hash keys)
		{"	globalRand.state.Init(*seed)\n	clear(seed[:])\n", "	for i := range seed {\n\t\tseed[i] = byte(i + 1)\n\t}\n	globalRand.state.Init(*seed)\n	clear(seed[:])\n"},
	}, "rand.go"))
	write(filepath.Join(rt, "select.go"), "rt_select.go", patch(rd(filepath.Join(rt, "select.go")), []repl{
		{"cheaprandn(uint32(norder + 1))", "simSelectRandn(uint32(norder + 1))"},
	}, "select.go"))
	write(filepath.Join(rt, "sema.go"), "rt_sema.go", patch(rd(filepath.Join(rt, "sema.go")), []repl{
		{"func internal_sync_nanotime() int64 {\n\treturn nanotime()", "func internal_sync_nanotime() int64 {\n\tif simIn() {\n\t\treturn getg().bubble.now\n\t}\n\treturn nanotime()"},
	}, "sema.go"))
	write(filepath.Join(rt, "time.go"), "rt_time.go", patch(rd(filepath.Join(rt, "time.go")), []repl{
		{"	when := now + ns\n	if when < 0 { // check for overflow.\n		when = maxWhen\n	}\n	gp.sleepWhen = when\n", "	when := now + simTimer(ns)\n	if when < 0 { // check for overflow.\n		when = maxWhen\n	}\n	gp.sleepWhen = when\n"},
		// a wall clock that can be set, next to a monotonic one that cannot
		{"		sec = bubble.now / (1000 * 1000 * 1000)\n		nsec = int32(bubble.now % (1000 * 1000 * 1000))\n", "		wall := simWallNow()\n		sec = wall / (1000 * 1000 * 1000)\n		nsec = int32(wall % (1000 * 1000 * 1000))\n"},
		{"		return sec, nsec, 0\n", "		return sec, nsec, bubble.now\n"},
		// ties between timers
		{"			t.rand = cheaprand()\n", "			t.rand = cheaprand()\n\t\t\tif simOn {\n\t\t\t\tt.rand = uint32(simRand() >> 32)\n\t\t\t}\n"},
	}, "time.go"))

	// system calls of the command line tool, and its exit
	sc := filepath.Join(goroot, "src/syscall")
	write(filepath.Join(sc, "zsyscall_linux_amd64.go"), "sys_zsyscall.go", patch(rd(filepath.Join(sc, "zsyscall_linux_amd64.go")), []repl{
		{"func read(fd int, p []byte) (n int, err error) {\n", "func simRead(fd int, p []byte) (n int, err error) {\n"},
		{"func write(fd int, p []byte) (n int, err error) {\n", "func simWrite(fd int, p []byte) (n int, err error) {\n"},
		{"func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n", "func simOpenat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n"},
		{"func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n", "func simFstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n"},
		{"func Fstat(fd int, stat *Stat_t) (err error) {\n", "func simFstat(fd int, stat *Stat_t) (err error) {\n"},
	}, "zsyscall_linux_amd64.go"))
	write(filepath.Join(sc, "zz_sim.go"), "sys_zz_sim.go", rd(filepath.Join(*here, "zz_syscall.go.txt")))
	write(filepath.Join(goroot, "src/os/proc.go"), "os_proc.go", patch(rd(filepath.Join(goroot, "src/os/proc.go")), []repl{
		{"	runtime_beforeExit(code)\n", "	if SimExit != nil {\n\t\tSimExit(code)\n\t}\n	runtime_beforeExit(code)\n"},
		{"func Exit(code int) {\n", "var SimExit func(code int)\n\nfunc Exit(code int) {\n"},
	}, "os/proc.go"))

	// otto: a copy (the module cache cannot be overlaid) with one hook per
	// interpreted node
	orig := modDir(*repo, "github.com/robertkrimen/otto")
	otto := filepath.Join(*out, "otto")
	copyModule(orig, otto, "github.com/robertkrimen/otto")
	for _, k := range []string{"expression", "statement"} {
		f := filepath.Join(otto, "cmpl_evaluate_"+k+".go")
		K := strings.ToUpper(k[:1]) + k[1:]
		sig := "func (self *_runtime) cmpl_evaluate_node" + K + "(node _node" + K + ") Value {\n"
		src := patch(rd(f), []repl{{sig, sig + "\truntime.SimStep()\n"}}, f)
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			fatal("%v", err)
		}
	}

	// the for loop itself: an empty body evaluates no node at all
	{
		f := filepath.Join(otto, "cmpl_evaluate_statement.go")
		src := patch(rd(f), []repl{{"resultBreak:\n	for {\n		if test != nil {\n", "resultBreak:\n	for {\n		runtime.SimStep()\n		if test != nil {\n"}}, f)
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			fatal("%v", err)
		}
	}

	// reading the clock takes longer than a step, which makes busy waiting cheap
	// to simulate
	{
		f := filepath.Join(otto, "builtin_date.go")
		sig := "func builtinDate_now(call FunctionCall) Value {\n"
		src := patch(rd(f), []repl{{sig, sig + "\truntime.SimSteps(40)\n"}}, f)
		src = strings.Replace(src, "import (\n", "import (\n\t\"runtime\"\n", 1)
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			fatal("%v", err)
		}
	}

	// scripts measure their busy waiting with this clock, which is therefore
	// not set
	{
		f := filepath.Join(otto, "type_date.go")
		src := patch(rd(f), []repl{{"time := Time.Now().UTC()", "time := Time.Unix(0, simrt.SimWall()).UTC()"}}, f)
		src = strings.Replace(src, "import (\n", "import (\n	simrt \"runtime\"\n", 1)
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			fatal("%v", err)
		}
	}

	// repository: statement-level yield points in the library packages
	n, mains := 0, 0
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != *repo || fi.Name() == "tests" || fi.Name() == "assets" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, ok := instrument(p)
		if !ok {
			src = rd(p)
		}
		if filepath.Dir(p) == filepath.Clean(*repo) {
			// the simulated process's main calls the tool's
			old := src
			src = mainRe.ReplaceAllString(src, "func simRealMain()")
			if old != src {
				ok = true
				mains++
			}
		}
		if ok {
			rel, _ := filepath.Rel(*repo, p)
			write(p, "repo_"+strings.ReplaceAll(rel, "/", "__"), src)
			n++
		}
		return nil
	})
	if err != nil {
		fatal("%v", err)
	}
	if mains != 1 {
		fatal("the tool has %d main functions", mains)
	}
	write(filepath.Join(*repo, "zz_sim_main.go"), "repo_zz_sim_main.go", rd(filepath.Join(*here, "zz_main.go.txt")))
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("overlay: %d files of the repository instrumented\n", n)
}

// copyModule copies the Go files of a module (tests left out).
func copyModule(from, to, path string) {
	os.RemoveAll(to)
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || !strings.HasSuffix(p, ".go") && fi.Name() != "go.mod" {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0o644)
	})
	if err != nil {
		fatal("%v", err)
	}
	gm := filepath.Join(to, "go.mod")
	if _, err := os.Stat(gm); err != nil {
		if err := os.WriteFile(gm, []byte("module "+path+"\n"), 0o644); err != nil {
			fatal("%v", err)
		}
	}
}

func goenv(k string) string {
	b, err := exec.Command("go", "env", k).Output()
	if err != nil {
		fatal("go env: %v", err)
	}
	return strings.TrimSpace(string(b))
}

func modDir(repo, mod string) string {
	c := exec.Command("go", "list", "-mod=mod", "-m", "-f", "{{.Dir}}", mod)
	c.Dir = repo
	c.Env = append(os.Environ(), "GOFLAGS=", "GOWORK=off")
	b, err := c.CombinedOutput()
	if err != nil {
		fatal("go list %s: %v %s", mod, err, b)
	}
	return strings.TrimSpace(string(b))
}

const hookPkg = "zzsimrt"

var mainRe = regexp.MustCompile(`(?m)^func main\(\)`)

// instrument inserts a yield before every statement of every function body.
func instrument(p string) (string, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, p, nil, 0)
	if err != nil {
		fatal("%v", err)
	}
	if b, err := os.ReadFile(p); err != nil || bytes.Contains(b, []byte("//go:")) || bytes.Contains(b, []byte("// +build")) {
		return "", false // directives live in comments, which printing the tree would lose
	}
	done := 0
	hook := func() ast.Stmt {
		done++
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(hookPkg), Sel: ast.NewIdent("SimYield")}}}
	}
	var list func(in []ast.Stmt) []ast.Stmt
	list = func(in []ast.Stmt) []ast.Stmt {
		var outl []ast.Stmt
		for _, s := range in {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				outl = append(outl, s)
			default:
				outl = append(outl, hook(), s)
			}
		}
		return outl
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && (fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil) {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ForStmt: // an empty loop yields too
				if len(n.Body.List) == 0 {
					n.Body.List = []ast.Stmt{hook()}
				}
			case *ast.BlockStmt:
				// switch bodies hold clauses only
				n.List = list(n.List)
			case *ast.CaseClause:
				n.Body = list(n.Body)
			case *ast.CommClause:
				n.Body = list(n.Body)
			}
			return true
		})
	}
	if done == 0 {
		return "", false
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(hookPkg), Path: &ast.BasicLit{Kind: token.STRING, Value: `"runtime"`}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	f.Comments = nil
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		fatal("%s: %v", p, err)
	}
	return buf.String(), true
}
