package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simctl: "+f+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

var replace = map[string]string{}

func put(target string, data []byte) {
	name := strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "__")
	p := filepath.Join(*outDir, "src", name)
	old, err := os.ReadFile(p)
	if err != nil || !bytes.Equal(old, data) { // keep the mtime when unchanged
		must(os.WriteFile(p, data, 0o644))
	}
	replace[target] = p
}

type edit struct{ old, new string }

func patch(file string, edits ...edit) {
	b, err := os.ReadFile(file)
	must(err)
	put(file, patchBytes(file, b, edits))
}

func patchBytes(file string, b []byte, edits []edit) []byte {
	s := string(b)
	for _, e := range edits {
		if n := strings.Count(s, e.old); n != 1 {
			die("%s: %d matches for %q", file, n, e.old)
		}
		s = strings.Replace(s, e.old, e.new, 1)
	}
	return []byte(s)
}

const tags = "verif"

// build makes the simulation worker from the working tree of /repo.
//
// It writes patched copies of a few standard-library and dependency files
// (simulated scheduler, kernel and signals), copies of the repository's own
// source files with a preemption point before every statement, and an overlay
// file that puts those copies and the harness in place, and then runs
// go build. Nothing is written to /repo or GOROOT.
//
// It returns the path of the worker.
func build() string {
	must(os.MkdirAll(filepath.Join(*outDir, "src"), 0o755))
	std()
	deps()
	instrument()
	harness()

	ov, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(err)
	ovf := filepath.Join(*outDir, "overlay.json")
	must(os.WriteFile(ovf, ov, 0o644))

	bin := filepath.Join(*outDir, "worker")
	cmd := exec.Command("go", "build", "-buildvcs=false", "-mod=readonly", "-modfile="+filepath.Join(*outDir, "go.mod"), "-tags", tags, "-overlay", ovf, "-o", bin, "./zzverifsim")
	cmd.Dir = *repo
	cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
	if err := cmd.Run(); err != nil {
		die("go build: %v", err)
	}
	return bin
}

func std() {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	root := filepath.Join(strings.TrimSpace(string(out)), "src")
	rt := filepath.Join(root, "runtime")
	add := func(target, src string) {
		b, err := os.ReadFile(filepath.Join(*verif, "sim/patch", src))
		must(err)
		put(target, b)
	}
	add(filepath.Join(rt, "zsim.go"), "runtime_zsim.go")
	patch(filepath.Join(rt, "runtime2.go"),
		edit{"\tbubble  *synctestBubble\n", "\tbubble  *synctestBubble\n\tsimid   uint64\n\tsimprio uint64\n\tsimsite uint32\n"},
		edit{"var isIdleInSynctest = [len(waitReasonStrings)]bool{\n", `var isIdleInSynctest = [len(waitReasonStrings)]bool{
	waitReasonChanReceive:           true,
	waitReasonChanSend:              true,
	waitReasonSelect:                true,
	waitReasonSemacquire:            true,
	waitReasonSyncMutexLock:         true,
	waitReasonSyncRWMutexRLock:      true,
	waitReasonSyncRWMutexLock:       true,
	waitReasonSyncWaitGroupWait:     true,
`})
	patch(filepath.Join(rt, "proc.go"),
		edit{"\tif pp.runSafePointFn != 0 {\n\t\trunSafePointFn()\n\t}\n\n\t// now and pollUntil are saved for work stealing later,",
			"\tif pp.runSafePointFn != 0 {\n\t\trunSafePointFn()\n\t}\n\n\tif sim.on {\n\t\tif gp := simGet(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// now and pollUntil are saved for work stealing later,"},
		edit{"\tassertLockHeld(&sched.lock)\n\n\tsched.runq.pushBack(gp)\n", "\tassertLockHeld(&sched.lock)\n\n\tif simMine(gp) {\n\t\tsimPut(gp)\n\t\treturn\n\t}\n\tsched.runq.pushBack(gp)\n"},
		edit{"\tassertLockHeld(&sched.lock)\n\n\tsched.runq.push(gp)\n", "\tassertLockHeld(&sched.lock)\n\n\tif simMine(gp) {\n\t\tsimPut(gp)\n\t\treturn\n\t}\n\tsched.runq.push(gp)\n"},
		edit{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif simMine(gp) {\n\t\tsimPut(gp)\n\t\treturn\n\t}\n"},
		edit{"\t\tnewg.bubble = callergp.bubble\n", "\t\tnewg.bubble = callergp.bubble\n\t\tsimNewG(newg)\n"},
		edit{"\t\tif retake(now) != 0 {\n", "\t\tif !sim.on && retake(now) != 0 {\n"},
	)
	patch(filepath.Join(rt, "select.go"),
		edit{"\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tvar j uint32\n\t\tif simMine(gp) {\n\t\t\tj = simSelect(norder)\n\t\t} else {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n"})
	patch(filepath.Join(rt, "time.go"),
		edit{"\t\t\tt.rand = cheaprand()\n", "\t\t\tif sim.on {\n\t\t\t\tt.rand = simTimer()\n\t\t\t} else {\n\t\t\t\tt.rand = cheaprand()\n\t\t\t}\n"})
	patch(filepath.Join(rt, "rand.go"),
		edit{"func rand() uint64 {\n", "func rand() uint64 {\n\tif sim.on && getg().bubble != nil {\n\t\treturn simRand()\n\t}\n"},
		edit{"\tif len(startupRand) >= 16 &&\n", "\tfor i := range startupRand {\n\t\tstartupRand[i] = byte(i + 1)\n\t}\n\tif len(startupRand) >= 16 &&\n"})
	patch(filepath.Join(rt, "sema.go"),
		edit{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif b := getg().bubble; b != nil {\n\t\treturn b.now\n\t}\n"})
	add(filepath.Join(root, "syscall/zsim.go"), "syscall_zsim.go")
	patch(filepath.Join(root, "syscall/syscall_unix.go"),
		edit{"func Read(fd int, p []byte) (n int, err error) {\n", "func Read(fd int, p []byte) (n int, err error) {\n\tif SimFd(fd) {\n\t\treturn SimKernel.Read(fd, p)\n\t}\n"},
		edit{"func Write(fd int, p []byte) (n int, err error) {\n", "func Write(fd int, p []byte) (n int, err error) {\n\tif SimFd(fd) {\n\t\treturn SimKernel.Write(fd, p)\n\t}\n"})
	patch(filepath.Join(root, "syscall/zsyscall_linux_amd64.go"),
		edit{"func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n\tif SimFd(fd) {\n\t\treturn SimKernel.Close(fd)\n\t}\n"})
	patch(filepath.Join(root, "syscall/syscall_linux.go"),
		edit{"func Open(path string, mode int, perm uint32) (fd int, err error) {\n", "func Open(path string, mode int, perm uint32) (fd int, err error) {\n\tif SimKernel != nil {\n\t\tif fd, err, ok := SimKernel.Open(path, mode); ok {\n\t\t\treturn fd, err\n\t\t}\n\t}\n"},
		edit{"func Pipe2(p []int, flags int) error {\n", "func Pipe2(p []int, flags int) error {\n\tif SimKernel != nil {\n\t\tif err, ok := SimKernel.Pipe(p); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"})
	add(filepath.Join(root, "os/signal/zsim.go"), "signal_zsim.go")
	// Simulated delivery is synchronous under the handlers lock: nothing is in flight.
	patch(filepath.Join(root, "os/signal/signal.go"),
		edit{"\tsignalWaitUntilIdle()\n\n\thandlers.Lock()\n", "\thandlers.Lock()\n"})
	patch(filepath.Join(root, "os/signal/signal_unix.go"),
		edit{"\twatchSignalLoop = loop\n", "\t_ = loop\n"},
		edit{"\tsignal_enable(uint32(sig))\n", "\t_ = sig\n"},
		edit{"\tsignal_disable(uint32(sig))\n", "\t_ = sig\n"})
}

// deps makes a patched copy of golang.org/x/sys (files of the module cache
// cannot be overlaid) and a go.mod that uses it.
func deps() {
	list := exec.Command("go", "list", "-mod=readonly", "-m", "-f", "{{.Dir}}", "golang.org/x/sys")
	list.Dir = *repo
	list.Stderr = os.Stderr
	out, err := list.Output()
	must(err)
	from := strings.TrimSpace(string(out))
	to := filepath.Join(*outDir, "xsys")
	for _, d := range []string{".", "unix", "plan9", "windows", "internal/unsafeheader", "cpu"} {
		ents, err := os.ReadDir(filepath.Join(from, d))
		if err != nil {
			continue
		}
		must(os.MkdirAll(filepath.Join(to, d), 0o755))
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || strings.HasSuffix(n, "_test.go") || !(strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".s") || strings.HasSuffix(n, ".h") || n == "go.mod") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(from, d, n))
			must(err)
			if d == "unix" {
				b = patchBytes(n, b, unixEdits[n])
			}
			dst := filepath.Join(to, d, n)
			if old, err := os.ReadFile(dst); err != nil || !bytes.Equal(old, b) {
				must(os.WriteFile(dst, b, 0o644))
			}
		}
	}
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	must(os.WriteFile(filepath.Join(*outDir, "go.mod"), append(mod, "\nreplace golang.org/x/sys => "+to+"\n"...), 0o644))
	sum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(*outDir, "go.sum"), sum, 0o644))
}

var unixEdits = map[string][]edit{
	"zsyscall_linux.go": {
		{"func ioctlPtr(fd int, req uint, arg unsafe.Pointer) (err error) {\n", "func ioctlPtr(fd int, req uint, arg unsafe.Pointer) (err error) {\n\tif syscall.SimFd(fd) {\n\t\treturn syscall.SimKernel.Ioctl(fd, req, arg)\n\t}\n"},
		{"func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n\tif syscall.SimFd(fd) {\n\t\treturn syscall.SimKernel.Close(fd)\n\t}\n"},
		{"func EpollCreate1(flag int) (fd int, err error) {\n", "func EpollCreate1(flag int) (fd int, err error) {\n\tif syscall.SimKernel != nil {\n\t\tif fd, ok := syscall.SimKernel.EpollCreate(); ok {\n\t\t\treturn fd, nil\n\t\t}\n\t}\n"},
		{"func EpollCtl(epfd int, op int, fd int, event *EpollEvent) (err error) {\n", "func EpollCtl(epfd int, op int, fd int, event *EpollEvent) (err error) {\n\tif syscall.SimFd(epfd) {\n\t\tvar ev uint32\n\t\tif event != nil {\n\t\t\tev = event.Events\n\t\t}\n\t\treturn syscall.SimKernel.EpollCtl(epfd, op, fd, ev)\n\t}\n"},
	},
	"zsyscall_linux_amd64.go": {
		{"func EpollWait(epfd int, events []EpollEvent, msec int) (n int, err error) {\n", "func EpollWait(epfd int, events []EpollEvent, msec int) (n int, err error) {\n\tif syscall.SimFd(epfd) {\n\t\tfds, evs, err := syscall.SimKernel.EpollWait(epfd, len(events), msec)\n\t\tfor i := range fds {\n\t\t\tevents[i] = EpollEvent{Events: evs[i], Fd: fds[i]}\n\t\t}\n\t\treturn len(fds), err\n\t}\n"},
	},
	"syscall_unix.go": {
		{"func Read(fd int, p []byte) (n int, err error) {\n", "func Read(fd int, p []byte) (n int, err error) {\n\tif syscall.SimFd(fd) {\n\t\treturn syscall.SimKernel.Read(fd, p)\n\t}\n"},
		{"func Write(fd int, p []byte) (n int, err error) {\n", "func Write(fd int, p []byte) (n int, err error) {\n\tif syscall.SimFd(fd) {\n\t\treturn syscall.SimKernel.Write(fd, p)\n\t}\n"},
	},
}

type site struct {
	Func string `json:"f"`
	File string `json:"file"`
	Line int    `json:"l"`
}

// instrument puts a preemption point before every statement of the
// repository's non-test packages (examples left out).
func instrument() {
	var files []string
	must(filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != *repo && (n == "examples" || strings.HasPrefix(n, ".") || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.HasSuffix(p, "_windows.go") {
			files = append(files, p)
		}
		return nil
	}))
	sort.Strings(files)
	sites := []site{{}}
	for _, f := range files {
		src, err := os.ReadFile(f)
		must(err)
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments|parser.SkipObjectResolution)
		must(err)
		type ins struct {
			off  int
			text string
		}
		var all []ins
		fn := ""
		n := 0
		var visit func(ast.Node) bool
		call := "SimYC"
		atomics := false
		ast.Inspect(af, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
				call = "SimY"
			case *ast.ImportSpec:
				if strings.HasPrefix(x.Path.Value, `"sync`) || x.Path.Value == `"context"` {
					call = "SimY"
					atomics = atomics || x.Path.Value == `"sync/atomic"`
				}
			}
			return true
		})
		newSite := func(pos token.Position) int {
			rel, _ := filepath.Rel(*repo, f)
			sites = append(sites, site{fn, rel, pos.Line})
			n++
			return len(sites) - 1
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				pos := fset.Position(s.Pos())
				all = append(all, ins{pos.Offset, fmt.Sprintf("simrt.%s(%d);", call, newSite(pos))})
				if d, ok := s.(*ast.DeferStmt); ok { // runs between the return statement and the deferred call
					all = append(all, ins{fset.Position(d.End()).Offset, fmt.Sprintf("; defer simrt.%s(%d)", call, newSite(pos))})
				}
			}
		}
		// a preemption point after an atomic operation whose value is used
		skip := map[ast.Expr]bool{}
		results := []int{0}
		atomic := func(x ast.Node) {
			only := func(l []ast.Expr) {
				if len(l) == 1 {
					skip[l[0]] = true
				}
			}
			switch x := x.(type) {
			case *ast.ExprStmt:
				skip[x.X] = true
			case *ast.GoStmt:
				skip[x.Call] = true
			case *ast.DeferStmt:
				skip[x.Call] = true
			case *ast.AssignStmt:
				if len(x.Lhs) > 1 {
					only(x.Rhs)
				}
			case *ast.ValueSpec:
				if len(x.Names) > 1 {
					only(x.Values)
				}
			case *ast.ReturnStmt:
				if results[0] > 1 {
					only(x.Results)
				}
			case *ast.CallExpr:
				only(x.Args)
				if s, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && (ast.IsExported(s.Name) || strings.HasPrefix(s.Name, "int") || strings.HasPrefix(s.Name, "uint")) { // a conversion
					delete(skip, x.Args[0])
				}
				s, ok := x.Fun.(*ast.SelectorExpr)
				if !ok || skip[x] || fn == "" {
					return
				}
				name := s.Sel.Name
				for _, op := range []string{"Load", "Add", "Swap", "CompareAndSwap"} {
					if id, isID := s.X.(*ast.Ident); name == op || isID && id.Name == "atomic" && strings.HasPrefix(name, op) {
						all = append(all, ins{fset.Position(x.Pos()).Offset, "simrt.SimAfter("},
							ins{fset.Position(x.End()).Offset, fmt.Sprintf(", %d)", newSite(fset.Position(x.Pos())))})
						return
					}
				}
			}
		}
		visit = func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
				results[0] = x.Type.Results.NumFields()
			case *ast.FuncLit: // how many results its return statements have is not tracked
				results[0] = 2
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			}
			if atomics {
				atomic(x)
			}
			return true
		}
		ast.Inspect(af, visit)
		if n == 0 {
			continue
		}
		all = append(all, ins{fset.Position(af.Name.End()).Offset, `; import simrt "runtime"`})
		sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
		var out []byte
		last := 0
		for _, e := range all {
			out = append(out, src[last:e.off]...)
			out = append(out, e.text...)
			last = e.off
		}
		out = append(out, src[last:]...)
		put(f, out)
	}
	b, err := json.Marshal(sites)
	must(err)
	must(os.WriteFile(filepath.Join(*outDir, "sites.json"), b, 0o644))
	if len(sites) >= 1<<15 {
		die("too many sites")
	}
}

func harness() {
	dir := filepath.Join(*verif, "sim/harness")
	ents, err := os.ReadDir(dir)
	must(err)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			replace[filepath.Join(*repo, "zzverifsim", e.Name())] = filepath.Join(dir, e.Name())
		}
	}
}
