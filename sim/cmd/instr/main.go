// Command instr prepares the overlay of a simulation build: it inserts yield points before the statements of
// the library under test and puts the map randomness of the Go runtime under the simulator's control.
// Nothing is written outside of the output directory.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

func fail(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) != 3 {
		fail("usage: instr REPO OUTDIR")
	}

	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}

	instrumentRepo(repo, out, replace)
	patchRuntime(out, replace)

	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o600); err != nil {
		fail("%v", err)
	}
}

type ins struct {
	off int
	s   string
}

func instrumentRepo(repo, out string, replace map[string]string) {
	var (
		files []string
		sites []string
	)

	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}

		if fi.IsDir() {
			n := fi.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}

			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil && p != repo {
				return filepath.SkipDir
			}

			return nil
		}

		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}

		return nil
	})
	if err != nil {
		fail("%v", err)
	}

	sort.Strings(files)

	id := 1

	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			fail("%v", err)
		}

		fset := token.NewFileSet()

		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			fail("%v", err)
		}

		if af.Name.Name == "main" {
			continue
		}

		var list []ins

		y := func(pos token.Pos, after bool) {
			o := fset.Position(pos).Offset
			if after {
				o++
			}

			rel, _ := filepath.Rel(repo, f)
			sites = append(sites, fmt.Sprintf("%s:%d", rel, fset.PositionFor(pos, false).Line))
			list = append(list, ins{off: o, s: fmt.Sprintf("_simrt.Y(%d); ", id)})
			id++
		}

		// Offsets must be physical ones, whatever //line directives say.
		base := fset.File(af.Pos())
		off := func(p token.Pos) int { return base.Offset(p) }

		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}

				y(s.Pos(), false)
				list[len(list)-1].off = off(s.Pos())
			}
		}

		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if n.Lbrace.IsValid() && len(n.List) == 0 {
					y(n.Lbrace, true)
					list[len(list)-1].off = off(n.Lbrace) + 1
				}

				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			}

			return true
		})

		// Block statements of switch and select hold clauses, which are not statements of their own.
		clause := map[int]bool{}

		ast.Inspect(af, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CaseClause, *ast.CommClause:
				clause[off(n.Pos())] = true
			case *ast.SwitchStmt:
				if b := n.(*ast.SwitchStmt).Body; len(b.List) == 0 {
					clause[off(b.Lbrace)+1] = true
				}
			case *ast.TypeSwitchStmt:
				if b := n.(*ast.TypeSwitchStmt).Body; len(b.List) == 0 {
					clause[off(b.Lbrace)+1] = true
				}
			case *ast.SelectStmt:
				if b := n.(*ast.SelectStmt).Body; len(b.List) == 0 {
					clause[off(b.Lbrace)+1] = true
				}
			}

			return true
		})

		kept := list[:0]

		for _, i := range list {
			if !clause[i.off] {
				kept = append(kept, i)
			}
		}

		if len(kept) == 0 {
			continue
		}

		kept = append(kept, ins{off: off(af.Name.End()), s: `; import _simrt "verifsim/simrt"`})

		sort.SliceStable(kept, func(i, j int) bool { return kept[i].off < kept[j].off })

		var sb strings.Builder

		last := 0

		for _, i := range kept {
			sb.Write(src[last:i.off])
			sb.WriteString(i.s)

			last = i.off
		}

		sb.Write(src[last:])

		rel, _ := filepath.Rel(repo, f)
		dst := filepath.Join(out, "src", strings.ReplaceAll(rel, string(filepath.Separator), "__"))

		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			fail("%v", err)
		}

		if err := os.WriteFile(dst, []byte(sb.String()), 0o600); err != nil {
			fail("%v", err)
		}

		replace[f] = dst
	}

	if err := os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o600); err != nil {
		fail("%v", err)
	}
}

func patch(goroot, rel, out string, replace map[string]string, edits ...[2]string) {
	p := filepath.Join(goroot, "src", rel)

	b, err := os.ReadFile(p)
	if err != nil {
		fail("%v", err)
	}

	s := string(b)

	for _, e := range edits {
		if strings.Count(s, e[0]) != 1 {
			fail("%s: expected exactly one %q", p, e[0])
		}

		s = strings.Replace(s, e[0], e[1], 1)
	}

	dst := filepath.Join(out, "rt", strings.ReplaceAll(rel, "/", "__"))
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		fail("%v", err)
	}

	if err := os.WriteFile(dst, []byte(s), 0o600); err != nil {
		fail("%v", err)
	}

	replace[p] = dst
}

func patchRuntime(out string, replace map[string]string) {
	goroot := runtime.GOROOT()
	if g := os.Getenv("GOROOT"); g != "" {
		goroot = g
	}

	patch(goroot, "runtime/rand.go", out, replace,
		[2]string{"	mp := getg().m\n	c := &mp.chacha8\n	for {", `	if simN != 0 {
		gp := getg()
		for i := 0; i < simN; i++ {
			if gp.goid == simGoids[i] {
				simState += 0x9e3779b97f4a7c15
				z := simState
				z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
				z = (z ^ (z >> 27)) * 0x94d049bb133111eb
				return z ^ (z >> 31)
			}
		}
	}
	mp := getg().m
	c := &mp.chacha8
	for {`},
		// Maps made or iterated between two yield points share a seed, so that it does not matter how many of them
		// the caches of the process have made unnecessary.
		[2]string{"func maps_rand() uint64 {\n", `func maps_rand() uint64 {
	if simN != 0 {
		gp := getg()
		for i := 0; i < simN; i++ {
			if gp.goid == simGoids[i] {
				z := simBase ^ 0xd6e8feb86659fd93
				z = (z ^ (z >> 32)) * 0xd6e8feb86659fd93
				z = (z ^ (z >> 32)) * 0xd6e8feb86659fd93
				return z ^ (z >> 32)
			}
		}
	}
`},
		[2]string{"	mp.cheaprand = uint32(rand())\n	mp.cheaprand64 = rand()", "	mp.cheaprand = uint32(bootstrapRand())\n	mp.cheaprand64 = bootstrapRand()"},
	)
	patch(goroot, "internal/runtime/maps/runtime_alg.go", out, replace,
		[2]string{"		hashkey[i] = uintptr(bootstrapRand())\n	}\n", "		hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1))\n	}\n\n	return\n"},
	)

	patch(goroot, "sync/pool.go", out, replace,
		[2]string{"	New func() any\n}", `	New func() any

	simMu    Mutex
	simItems [16]simItem
	simN     int
}

type simItem struct {
	gid uint64
	x   any
}

//go:linkname simGoid
func simGoid() uint64

// simPut and simGet make pools deterministic: a goroutine gets back what it put last, sometimes what another one put.
func (p *Pool) simPut(x any) {
	if race.Enabled {
		race.ReleaseMerge(poolRaceAddr(x))
		race.Disable()
	}
	p.simMu.Lock()
	p.simPush(x)
	p.simMu.Unlock()
	if race.Enabled {
		race.Enable()
	}
}

//go:norace
func (p *Pool) simPush(x any) {
	if p.simN < len(p.simItems) {
		p.simItems[p.simN].gid = simGoid()
		p.simItems[p.simN].x = x
		p.simN++
	}
}

//go:norace
func (p *Pool) simPop() (x any) {
	i := p.simN - 1
	for g := simGoid(); i >= 0 && p.simItems[i].gid != g; {
		i--
	}
	if i < 0 && p.simN > 0 && runtime_randn(4) == 0 {
		i = p.simN - 1
	}
	if i >= 0 {
		x = p.simItems[i].x
		p.simN--
		for ; i < p.simN; i++ {
			p.simItems[i].gid = p.simItems[i+1].gid
			p.simItems[i].x = p.simItems[i+1].x
		}
		p.simItems[p.simN].x = nil
	}
	return x
}

func (p *Pool) simGet() (x any) {
	if race.Enabled {
		race.Disable()
	}
	p.simMu.Lock()
	x = p.simPop()
	p.simMu.Unlock()
	if race.Enabled {
		race.Enable()
		if x != nil {
			race.Acquire(poolRaceAddr(x))
		}
	}
	return x
}`},
		[2]string{"	if x == nil {\n		return\n	}\n	if race.Enabled {", "	if x == nil {\n		return\n	}\n	if true {\n		p.simPut(x)\n		return\n	}\n	if race.Enabled {"},
		[2]string{"func (p *Pool) Get() any {\n", `func (p *Pool) Get() any {
	if true {
		x := p.simGet()
		if x == nil && p.New != nil {
			x = p.New()
		}
		return x
	}
`},
	)

	// A task that would block lets others run until it does not have to.
	patch(goroot, "internal/sync/mutex.go", out, replace,
		[2]string{"func (m *Mutex) lockSlow() {\n", `//go:linkname simBlock
func simBlock() bool

func (m *Mutex) lockSlow() {
	for simBlock() {
		if m.TryLock() {
			return
		}
	}
`},
	)
	patch(goroot, "sync/rwmutex.go", out, replace,
		[2]string{"func (rw *RWMutex) RLock() {\n", `func (rw *RWMutex) RLock() {
	for {
		if rw.TryRLock() {
			return
		}
		if !simBlock() {
			break
		}
	}
`},
		[2]string{"func (rw *RWMutex) Lock() {\n", `func (rw *RWMutex) Lock() {
	for {
		if rw.TryLock() {
			return
		}
		if !simBlock() {
			break
		}
	}
`},
		[2]string{"type RWMutex struct {", `//go:linkname simBlock
func simBlock() bool

type RWMutex struct {`},
	)

	sim := filepath.Join(out, "rt", "sim_maps.go")
	if err := os.WriteFile(sim, []byte(`package runtime

import _ "unsafe"

// SimBlocked is called when a simulated goroutine would block, and tells if others ran in the meantime.
var SimBlocked func() bool

//go:linkname isync_simBlock internal/sync.simBlock
func isync_simBlock() bool { return simBlocked() }

//go:linkname sync_simBlock sync.simBlock
func sync_simBlock() bool { return simBlocked() }

func simBlocked() bool { return SimBlocked != nil && SimMember() && SimBlocked() }

// SimMember tells if the current goroutine is simulated.
func SimMember() bool {
	gp := getg()
	for i := 0; i < simN; i++ {
		if gp.goid == simGoids[i] {
			return true
		}
	}
	return false
}

//go:linkname sync_simGoid sync.simGoid
func sync_simGoid() uint64 { return getg().goid }

var (
	simState uint64
	simBase  uint64
	simN     int
	simGoids [32]uint64
)

// SimReset makes the given seed decide the randomness (map hash seeds, map iteration order) of the goroutines
// that join afterwards. Zero ends the simulation.
func SimReset(s uint64) { simN, simState, simBase = 0, s, s }

// SimSet changes the seed in between, so that what was drawn before does not matter.
func SimSet(s uint64) { simState, simBase = s, s }

// SimJoin adds the current goroutine to the simulation.
func SimJoin() {
	if simN < len(simGoids) {
		simGoids[simN] = getg().goid
		simN++
	}
}
`), 0o600); err != nil {
		fail("%v", err)
	}

	replace[filepath.Join(goroot, "src/runtime/sim_maps.go")] = sim
}
