// instr produces a `go build -overlay` file that
//   - patches the Go runtime into a deterministic simulator, and
//   - inserts a scheduling point before every statement of the code under test.
//
// usage: instr -out DIR [-pkg DIR]... [-plain DIR]...
package main

import (
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

//go:embed zz_sim.go.txt
var zzSim string

type multi []string

func (m *multi) String() string     { return strings.Join(*m, ",") }
func (m *multi) Set(s string) error { *m = append(*m, s); return nil }

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

type patch struct{ old, new string }

var runtimePatches = map[string][]patch{
	"proc.go": {
		{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif simEnqueue(gp) {\n\t\treturn\n\t}\n"},
		{"func globrunqput(gp *g) {\n", "func globrunqput(gp *g) {\n\tif simEnqueue(gp) {\n\t\treturn\n\t}\n"},
		{"func globrunqputhead(gp *g) {\n", "func globrunqputhead(gp *g) {\n\tif simEnqueue(gp) {\n\t\treturn\n\t}\n"},
		{"\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {\n", "\tif gp := simPick(); gp != nil {\n\t\treturn gp, false, false\n\t}\n\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {\n"},
		{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif sim.on {\n\t\treturn 0\n\t}\n"},
		{"\tpp.goroutinesCreated++\n\treleasem(mp)\n\n\treturn newg\n", "\tpp.goroutinesCreated++\n\tsimNewG(newg)\n\treleasem(mp)\n\n\treturn newg\n"},
	},
	"runtime2.go": {
		{"\tditWanted       bool // set if g wants to be executed with DIT enabled\n", "\tditWanted       bool // set if g wants to be executed with DIT enabled\n\tsimid uint64\n\tsimprio uint64\n"},
		{"\twaitReasonSynctestSelect:        true,\n", "\twaitReasonSynctestSelect:        true,\n\twaitReasonChanReceive: true,\n\twaitReasonChanSend: true,\n\twaitReasonSelect: true,\n\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n\twaitReasonSemacquire: true,\n\twaitReasonSyncWaitGroupWait: true,\n"},
	},
	"select.go": {
		{"\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := cheaprandn(uint32(norder + 1))\n\t\tif simIn() {\n\t\t\tj = uint32(norder)\n\t\t\tif norder > 0 {\n\t\t\t\tw := uint32(0)\n\t\t\t\tif sim.cfg.Sel && !sim.cfg.Replay {\n\t\t\t\t\tw = simRndN(uint32(norder + 1))\n\t\t\t\t}\n\t\t\t\tif norder < 250 {\n\t\t\t\t\tj -= simDecide(uint32(norder+1), w)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n"},
		{"\tgp := getg()\n\tif debugSelect {\n\t\tprint(\"select: cas0=\"", "\tsimOp()\n\tgp := getg()\n\tif debugSelect {\n\t\tprint(\"select: cas0=\""},
	},
	"chan.go": {
		{"func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n\tsimOp()\n"},
		{"func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n\tsimOp()\n"},
		{"func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tsimOp()\n"},
	},
	"sema.go": {
		{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif sim.on {\n\t\tif b := getg().bubble; b != nil {\n\t\t\treturn b.now\n\t\t}\n\t}\n"},
		{"\tif gp != gp.m.curg {\n\t\tthrow(\"semacquire not on the G stack\")\n\t}\n", "\tif gp != gp.m.curg {\n\t\tthrow(\"semacquire not on the G stack\")\n\t}\n\tsimOp()\n"},
	},
	"time.go": {
		{"\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = cheaprand()\n\t\t\tif sim.on {\n\t\t\t\tt.rand = uint32(simRand())\n\t\t\t}\n"},
	},
	"rand.go": {
		{"\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i*37 + 11)\n\t}\n\tglobalRand.state.Init(*seed)\n"},
		{"\tmp := getg().m\n\tc := &mp.chacha8\n", "\tif sim.on && getg().bubble != nil {\n\t\treturn simRand()\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n"},
	},
	"alg.go": {
		{"\tif t.IsDirectIface() {\n\t\treturn trimHash(c1 * typehash(t, unsafe.Pointer(&a.data), h^c0))\n\t} else {\n\t\treturn trimHash(c1 * typehash(t, a.data, h^c0))\n\t}\n}\n\n// nilinterhash should", "\tif simPtrHash(t, a.data) {\n\t\treturn trimHash(simKeyHash(h ^ uintptr(t.Hash), a.data))\n\t}\n\tif t.IsDirectIface() {\n\t\treturn trimHash(c1 * typehash(t, unsafe.Pointer(&a.data), h^c0))\n\t} else {\n\t\treturn trimHash(c1 * typehash(t, a.data, h^c0))\n\t}\n}\n\n// nilinterhash should"},
		{"\tif t.IsDirectIface() {\n\t\treturn trimHash(c1 * typehash(t, unsafe.Pointer(&a.data), h^c0))\n\t} else {\n\t\treturn trimHash(c1 * typehash(t, a.data, h^c0))\n\t}\n}\n\n// typehash computes", "\tif simPtrHash(t, a.data) {\n\t\treturn trimHash(simKeyHash(h ^ uintptr(t.Hash), a.data))\n\t}\n\tif t.IsDirectIface() {\n\t\treturn trimHash(c1 * typehash(t, unsafe.Pointer(&a.data), h^c0))\n\t} else {\n\t\treturn trimHash(c1 * typehash(t, a.data, h^c0))\n\t}\n}\n\n// typehash computes"},
	},
}

type edit struct {
	off  int
	text string
}

// instrument inserts scheduling points into one source file.
func instrument(path string) ([]byte, bool) {
	src, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("parse %s: %v", path, err)
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			edits = append(edits, edit{off(s.Pos()), "simrt__.SimY();"})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			for _, c := range n.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range n.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range n.Body.List {
				stmts(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(n.List)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				edits = append(edits, edit{off(n.Body.Lbrace) + 1, "simrt__.SimY();"})
			}
		}
		return true
	})
	if len(edits) == 0 {
		return nil, false
	}
	edits = append(edits, edit{off(f.Name.End()), "; import simrt__ \"runtime\""})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.off])
		b.WriteString(e.text)
		last = e.off
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}

func main() {
	var pkgs multi
	out := flag.String("out", "", "output directory")
	goroot := flag.String("goroot", runtime.GOROOT(), "GOROOT")
	var copies multi
	flag.Var(&copies, "copy", "SRC=DST: copy a module, instrumented, to DST (repeatable)")
	flag.Var(&pkgs, "pkg", "directory to instrument (repeatable)")
	flag.Parse()
	if *out == "" {
		die("-out required")
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	replace := map[string]string{}
	put := func(orig, name string, data []byte) {
		p := filepath.Join(*out, name)
		if err := os.WriteFile(p, data, 0o644); err != nil {
			die("%v", err)
		}
		replace[orig] = p
	}
	rt := filepath.Join(*goroot, "src", "runtime")
	for file, ps := range runtimePatches {
		b, err := os.ReadFile(filepath.Join(rt, file))
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for _, p := range ps {
			if strings.Count(s, p.old) != 1 {
				die("runtime/%s: anchor found %d times: %q", file, strings.Count(s, p.old), p.old)
			}
			s = strings.Replace(s, p.old, p.new, 1)
		}
		put(filepath.Join(rt, file), "rt_"+file, []byte(s))
	}
	put(filepath.Join(rt, "zz_sim.go"), "rt_zz_sim.go", []byte(zzSim))
	for i, dir := range pkgs {
		ents, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			full := filepath.Join(dir, n)
			if data, ok := instrument(full); ok {
				put(full, fmt.Sprintf("i%d_%s", i, n), data)
			}
		}
	}
	for _, c := range copies {
		src, dst, ok := strings.Cut(c, "=")
		if !ok {
			die("-copy wants SRC=DST")
		}
		if err := os.MkdirAll(dst, 0o755); err != nil {
			die("%v", err)
		}
		ents, err := os.ReadDir(src)
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			data, ok := instrument(filepath.Join(src, n))
			if !ok {
				if data, err = os.ReadFile(filepath.Join(src, n)); err != nil {
					die("%v", err)
				}
			}
			if err := os.WriteFile(filepath.Join(dst, n), data, 0o644); err != nil {
				die("%v", err)
			}
		}
		if mod, err := os.ReadFile(filepath.Join(src, "go.mod")); err == nil {
			os.WriteFile(filepath.Join(dst, "go.mod"), mod, 0o644)
		} else {
			os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module gopkg.in/tomb.v2\n"), 0o644)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
}
