// mkoverlay writes the build overlay of the simulator: patched copies of a few
// Go runtime/sync files (deterministic scheduling, virtual time) and
// yield-instrumented copies of the code under test.
//
//	mkoverlay -goroot DIR -repo /repo -out DIR
package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

//go:embed runtime_verif.go.txt
var runtimeVerif string

//go:embed pool.go.txt
var poolGo string

type patch struct{ file, old, new string }

var patches = []patch{
	{"runtime/runtime2.go", "	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n	verifID, verifSite uint32\n	verifPrio uint64\n"},
	{"runtime/runtime2.go", "	waitReasonSyncCondWait:          true,\n	waitReasonSynctestWaitGroupWait: true,\n",
		"	waitReasonSyncCondWait:          true,\n	waitReasonSynctestWaitGroupWait: true,\n	waitReasonSyncMutexLock: true,\n	waitReasonSyncRWMutexRLock: true,\n	waitReasonSyncRWMutexLock: true,\n	waitReasonSyncWaitGroupWait: true,\n	waitReasonChanReceive: true,\n	waitReasonChanSend: true,\n	waitReasonSelect: true,\n"},
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if verif.on {\n		next = false\n	}\n"},
	{"runtime/proc.go", "func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n	if verif.on && pp.runnext == 0 {\n		return verifRunqget(pp), false\n	}\n"},
	{"runtime/proc.go", "	if pp.schedtick%61 == 0 && !sched.runq.empty() {", "	if !verif.on && pp.schedtick%61 == 0 && !sched.runq.empty() {"},
	{"runtime/proc.go", "		runqput(pp, gp, true)\n	} else {\n		lock(&sched.lock)\n		globrunqput(gp)", "		runqput(pp, gp, true)\n	} else if verif.on {\n		runqput(pp, gp, false)\n	} else {\n		lock(&sched.lock)\n		globrunqput(gp)"},
	{"runtime/proc.go", "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if verif.on {\n		return 0\n	}\n"},
	{"runtime/proc.go", "	newg.goid = pp.goidcache\n", "	verifNewG(newg)\n	newg.goid = pp.goidcache\n"},
	{"runtime/rand.go", "	seed := &globalRand.seed\n", "	seed := &globalRand.seed\n	startupRand = nil\n"},
	{"runtime/rand.go", "		if readRandom(seed[:]) != len(seed) || allZero(seed[:]) {", "		for i := range seed {\n			seed[i] = byte(i*7 + 1)\n		}\n		if false {"},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n	if verif.on && getg().bubble != nil {\n		return verifMisc()\n	}\n"},
	{"runtime/select.go", "		j := cheaprandn(uint32(norder + 1))", "		j := verifRand32n(uint32(norder + 1))"},
	{"runtime/select.go", "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n", "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n	verifFair()\n"},
	{"runtime/sema.go", "	s.ticket = cheaprand() | 1", "	s.ticket = verifRand32() | 1"},
	{"runtime/time.go", "			t.rand = cheaprand()", "			t.rand = verifRand32()"},
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if verif.on {\n		if b := getg().bubble; b != nil {\n			return b.now\n		}\n	}\n"},
	{"internal/runtime/maps/map.go", "m.seed = uintptr(rand())", "m.seed = uintptr(0x5bd1e995b7e15163)"},
	{"net/dial.go", "func Listen(network, address string) (Listener, error) {\n", "var VerifListen func(network, address string) (Listener, error)\n\nfunc Listen(network, address string) (Listener, error) {\n	if VerifListen != nil {\n		return VerifListen(network, address)\n	}\n"},
	{"net/dial.go", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "var VerifDial func(network, address string) (Conn, error)\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if VerifDial != nil {\n		return VerifDial(network, address)\n	}\n"},
	{"crypto/internal/sysrand/rand.go", "	\"os\"\n", "	\"os\"\n	\"runtime\"\n"},
	{"crypto/internal/sysrand/rand.go", "func Read(b []byte) {\n", "func Read(b []byte) {\n	if runtime.VerifRandRead(b) {\n		return\n	}\n"},
	{"context/context.go", "func WithValue(parent Context, key, val any) Context {\n", "func runtime_verifFair()\n\nfunc WithValue(parent Context, key, val any) Context {\n	runtime_verifFair()\n"},
	{"internal/sync/hashtriemap.go", "ht.seed = uintptr(runtime_rand())", "ht.seed = uintptr(0x5bd1e995b7e15163)"},
}

var overlay = map[string]string{}
var outDir string

func put(target, content string) {
	p := filepath.Join(outDir, strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "__"))
	if old, err := os.ReadFile(p); err != nil || string(old) != content {
		check(os.WriteFile(p, []byte(content), 0o644))
	}
	overlay[target] = p
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mkoverlay:", err)
		os.Exit(2)
	}
}

func main() {
	goroot := flag.String("goroot", "", "")
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	outDir = *out
	check(os.MkdirAll(outDir, 0o755))

	src := filepath.Join(*goroot, "src")
	texts := map[string]string{}
	for _, p := range patches {
		t, ok := texts[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(src, p.file))
			check(err)
			t = string(b)
		}
		if !strings.Contains(t, p.old) {
			check(fmt.Errorf("patch of %s does not apply: %q", p.file, p.old))
		}
		if strings.HasPrefix(p.old, "m.seed") {
			t = strings.ReplaceAll(t, p.old, p.new)
		} else {
			if strings.Count(t, p.old) != 1 {
				check(fmt.Errorf("patch of %s is ambiguous: %q", p.file, p.old))
			}
			t = strings.Replace(t, p.old, p.new, 1)
		}
		texts[p.file] = t
	}
	for f, t := range texts {
		put(filepath.Join(src, f), t)
	}
	put(filepath.Join(src, "runtime/verif.go"), runtimeVerif)
	put(filepath.Join(src, "sync/pool.go"), poolGo)
	put(filepath.Join(src, "context/verif.s"), "// lets context.go declare a function without a body\n")

	var files []string
	check(filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != *repo && (n == "examples" || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	}))
	sort.Strings(files)
	var sites bytes.Buffer
	for _, f := range files {
		b, err := os.ReadFile(f)
		check(err)
		rel, _ := filepath.Rel(*repo, f)
		put(f, instrument(rel, b, &sites))
	}
	check(os.WriteFile(filepath.Join(outDir, "sites.txt"), sites.Bytes(), 0o644))
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(os.WriteFile(filepath.Join(outDir, "overlay.json"), j, 0o644))
}

var nsite = 0

type edit struct {
	off, end int
	text     string
}

func instrument(rel string, src []byte, sites *bytes.Buffer) string {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		// let the compiler report it
		return string(src)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	site := func(p token.Pos) int {
		nsite++
		fmt.Fprintf(sites, "%d %s:%d\n", nsite, rel, fset.Position(p).Line)
		return nsite
	}
	used := false
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			used = true
			edits = append(edits, edit{off(s.Pos()), -1, fmt.Sprintf("verifrt_.VerifYield(%d); ", site(s.Pos()))})
			// split unsynchronised read-modify-write statements
			var x ast.Expr
			var op, rhs string
			switch t := s.(type) {
			case *ast.IncDecStmt:
				x, rhs = t.X, "1"
				op = "+"
				if t.Tok == token.DEC {
					op = "-"
				}
			case *ast.AssignStmt:
				if len(t.Lhs) == 1 && len(t.Rhs) == 1 && pure(t.Rhs[0]) {
					switch t.Tok {
					case token.ADD_ASSIGN, token.SUB_ASSIGN, token.OR_ASSIGN, token.AND_ASSIGN, token.XOR_ASSIGN:
						x = t.Lhs[0]
						op = strings.TrimSuffix(t.Tok.String(), "=")
						rhs = "(" + string(src[off(t.Rhs[0].Pos()):off(t.Rhs[0].End())]) + ")"
					}
				}
			}
			if x != nil && pure(x) && nonlocal(x) {
				xs := string(src[off(x.Pos()):off(x.End())])
				if !strings.Contains(xs+rhs, "\n") {
					edits = append(edits, edit{off(s.Pos()), off(s.End()), fmt.Sprintf("{ verift_ := %s; verifrt_.VerifYield(%d); %s = verift_ %s %s }", xs, site(s.Pos()), xs, op, rhs)})
				}
			}
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.BlockStmt:
			// the clauses of switch/select are handled below
			for _, s := range t.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(t.List)
		case *ast.CaseClause:
			list(t.Body)
		case *ast.CommClause:
			list(t.Body)
		}
		return true
	})
	if !used {
		return string(src)
	}
	edits = append(edits, edit{off(file.Name.End()), -1, "; import verifrt_ \"runtime\""})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out bytes.Buffer
	last := 0
	for _, e := range edits {
		if e.off < last {
			check(fmt.Errorf("%s: overlapping edits", rel))
		}
		out.Write(src[last:e.off])
		out.WriteString(e.text)
		last = e.off
		if e.end >= 0 {
			last = e.end
		}
	}
	out.Write(src[last:])
	return out.String()
}

// pure: identifiers, selectors, literals and stars only (no calls).
func pure(e ast.Expr) bool {
	switch t := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(t.X)
	case *ast.StarExpr:
		return pure(t.X)
	case *ast.ParenExpr:
		return pure(t.X)
	case *ast.IndexExpr:
		return pure(t.X) && pure(t.Index)
	}
	return false
}

func nonlocal(e ast.Expr) bool {
	switch t := e.(type) {
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return nonlocal(t.X)
	}
	return false
}
