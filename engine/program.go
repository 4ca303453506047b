package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const globalBase = 1 << 40

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	calls  bool // contains calls of functions under contract (filled lazily)
}

// Program is the loaded repository package with the contract files overlaid.
type Program struct {
	prog       *ssa.Program
	pkg        *ssa.Package
	tpkg       *types.Package
	mu         sync.Mutex
	globals    map[*ssa.Global]int
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	ghost      map[*ssa.Function]bool
	contracts  map[*ssa.Function]*ssa.Function
	dropped    []string // contracts whose function is gone or changed its signature
	mutable    map[*ssa.Global]bool
	leType     types.Type
	beType     types.Type
	allocHook  func(x *Exec, fr *Frame, st *State, n *Term, et types.Type)
	byName     map[string]*ssa.Function
	joins      map[*ssa.BasicBlock]*ssa.BasicBlock
	verifyOnly map[*ssa.Function]bool
	assumed    map[*ssa.Function]bool
	pdoms      map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
}

func loadProgram(repo, contractsDir string) (*Program, error) {
	ov, err := overlayFiles(repo, contractsDir)
	if err != nil {
		return nil, err
	}
	var pkgs []*packages.Package
	var removed []string
	for round := 0; ; round++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: append(os.Environ(), "GOSUMDB=off")}
		pkgs, err = packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		var errs []packages.Error
		packages.Visit(pkgs, nil, func(p *packages.Package) { errs = append(errs, p.Errors...) })
		if len(errs) == 0 {
			break
		}
		// a contract that mentions an unexported name which is gone is dropped, not the whole set
		gone := dropBroken(ov, errs)
		if len(gone) == 0 || round > 6 {
			var ms []string
			for _, e := range errs {
				ms = append(ms, e.Error())
			}
			return nil, fmt.Errorf("%s", strings.Join(ms, "\n"))
		}
		removed = append(removed, gone...)
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkg: ps[0], tpkg: pkgs[0].Types, globals: map[*ssa.Global]int{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, ghost: map[*ssa.Function]bool{},
		contracts: map[*ssa.Function]*ssa.Function{}, mutable: map[*ssa.Global]bool{}, byName: map[string]*ssa.Function{}, joins: map[*ssa.BasicBlock]*ssa.BasicBlock{}, verifyOnly: map[*ssa.Function]bool{}, assumed: map[*ssa.Function]bool{}, pdoms: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	if eb := prog.ImportedPackage("encoding/binary"); eb != nil {
		p.leType = eb.Var("LittleEndian").Type().Underlying().(*types.Pointer).Elem()
		p.beType = eb.Var("BigEndian").Type().Underlying().(*types.Pointer).Elem()
	}
	p.findMutable()
	p.bindContracts()
	for _, r := range removed {
		if strings.HasPrefix(r, "contract") {
			p.dropped = append(p.dropped, strings.TrimPrefix(strings.TrimPrefix(r, "contract_"), "contractv_")+" (its contract no longer type-checks)")
		}
	}
	return p, nil
}

// dropBroken removes from the overlay the declarations in which type errors were reported.
func dropBroken(ov map[string][]byte, errs []packages.Error) []string {
	type span struct {
		from, to int
		name     string
	}
	cut := map[string]map[int]span{}
	for _, e := range errs {
		ps := strings.Split(e.Pos, ":")
		if len(ps) < 2 {
			return nil
		}
		src, ok := ov[ps[0]]
		line, err := strconv.Atoi(ps[1])
		if !ok || err != nil {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, ps[0], src, 0)
		if err != nil {
			return nil
		}
		if strings.Contains(e.Msg, "imported and not used") {
			for _, im := range f.Imports {
				if fset.Position(im.Pos()).Line == line && im.Name == nil {
					o := fset.Position(im.Pos()).Offset
					ov[ps[0]] = append(append(append([]byte{}, src[:o]...), "_ "...), src[o:]...)
					return []string{"import"}
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || line < fset.Position(fd.Pos()).Line || line > fset.Position(fd.End()).Line {
				continue
			}
			if cut[ps[0]] == nil {
				cut[ps[0]] = map[int]span{}
			}
			a := fset.Position(fd.Pos()).Offset
			cut[ps[0]][a] = span{a, fset.Position(fd.End()).Offset, fd.Name.Name}
		}
	}
	var gone []string
	for f, m := range cut {
		src := append([]byte{}, ov[f]...)
		for _, sp := range m {
			for i := sp.from; i < sp.to; i++ {
				if src[i] != '\n' {
					src[i] = ' '
				}
			}
			gone = append(gone, sp.name)
		}
		ov[f] = src
	}
	return gone
}

func overlayFiles(repo, dir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, "zz_verif_"+filepath.Base(f))] = b
	}
	acc, err := genAccessors(repo)
	if err != nil {
		return nil, err
	}
	ov[filepath.Join(repo, "zz_verif_accessors.go")] = []byte(acc)
	return ov, nil
}

func rootFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}
func (p *Program) isGhost(fn *ssa.Function) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.isGhostL(fn)
}
func (p *Program) isGhostL(fn *ssa.Function) bool {
	r := rootFn(fn)
	if g, ok := p.ghost[r]; ok {
		return g
	}
	g := false
	if r.Pos().IsValid() {
		g = strings.HasPrefix(filepath.Base(p.prog.Fset.Position(r.Pos()).Filename), "zz_verif_")
	}
	p.ghost[r] = g
	return g
}
func (p *Program) globalID(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	id, ok := p.globals[g]
	if !ok {
		id = globalBase + len(p.globals) + 1
		p.globals[g] = id
	}
	return id
}
func (p *Program) method(T types.Type, m *types.Func) *ssa.Function {
	return p.methodNamed(T, m.Pkg(), m.Name())
}
func (p *Program) methodNamed(T types.Type, pkg *types.Package, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.prog.MethodSets.MethodSet(T).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) loopAt(b *ssa.BasicBlock) *Loop {
	p.mu.Lock()
	defer p.mu.Unlock()
	return findLoopsCached(p, b.Parent())[b]
}
func findLoopsCached(p *Program, fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	m, ok := p.loops[fn]
	if !ok {
		m = findLoops(fn)
		p.loops[fn] = m
	}
	return m
}
func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := m[h]
				if l == nil {
					l = &Loop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					m[h] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, q := range x.Preds {
						add(q)
					}
				}
				add(b)
			}
		}
	}
	return m
}

// findMutable records package variables that are assigned outside their initialisers.
func (p *Program) findMutable() {
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg != p.pkg || fn == p.pkg.Func("init") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					a := s.Addr
					for {
						switch v := a.(type) {
						case *ssa.FieldAddr:
							a = v.X
							continue
						case *ssa.IndexAddr:
							a = v.X
							continue
						}
						break
					}
					if g, ok := a.(*ssa.Global); ok {
						p.mutable[g] = true
					}
				}
			}
		}
	}
}

// bindContracts pairs contract_X ghost functions with the functions they specify.
func (p *Program) bindContracts() {
	var names []string
	for n := range p.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := p.pkg.Members[n].(*ssa.Function)
		if !ok {
			continue
		}
		vo := strings.HasPrefix(n, "contractv_") // verified, but callers inline the function
		as := strings.HasPrefix(n, "contracta_") // assumed at calls, not verified
		if !strings.HasPrefix(n, "contract_") && !vo && !as {
			continue
		}
		target := strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(n, "contract_"), "contractv_"), "contracta_")
		var fn *ssa.Function
		if g := p.pkg.Func(target); g != nil && (!p.isGhost(g) || strings.HasPrefix(target, "lemma")) {
			fn = g
		} else if i := strings.Index(target, "_"); i > 0 {
			if t := p.pkg.Type(target[:i]); t != nil {
				for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if m := p.methodNamed(T, p.tpkg, target[i+1:]); m != nil && m.Synthetic == "" {
						fn = m
						break
					}
				}
			}
		}
		if fn == nil {
			p.dropped = append(p.dropped, target+" (no such function)")
			continue
		}
		if !sameParams(fn, f) {
			p.dropped = append(p.dropped, target+" (signature changed)")
			continue
		}
		p.contracts[fn] = f
		p.verifyOnly[fn] = vo
		if as {
			p.assumed[fn] = true
			continue
		}
		p.byName[shortName(fn)] = fn
	}
}
func sameParams(fn, cf *ssa.Function) bool {
	if len(fn.Params) != len(cf.Params) {
		return false
	}
	for i := range fn.Params {
		if !types.Identical(fn.Params[i].Type(), cf.Params[i].Type()) {
			return false
		}
	}
	rs := cf.Signature.Results()
	if rs.Len() != 1 {
		return false
	}
	post, ok := rs.At(0).Type().Underlying().(*types.Signature)
	if !ok || post.Params().Len() != fn.Signature.Results().Len() {
		return false
	}
	for i := 0; i < post.Params().Len(); i++ {
		if !types.Identical(post.Params().At(i).Type(), fn.Signature.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- per-run executor

func newExec(p *Program, classes []string, timeoutMs int) *Exec {
	c := NewCtx()
	x := &Exec{prog: p, c: c, s: NewSolver(c, "z3-new", timeoutMs), binPath: p.tpkg.Path(), leType: p.leType, beType: p.beType,
		hashes: map[int]func(*SeqVal) []Val{}, sums: map[string]sumDef{}, recs: map[string]*recDef{}, repEqs: map[string]bool{}, contracts: p.contracts, classes: map[string]bool{}, obls: map[string]*Obl{},
		used: map[*ssa.Function]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, inputs: map[string]Val{}, inputT: map[string]types.Type{}, liaCache: map[string]liaRes{}, unfold: map[string]int{}, cover: map[string]bool{}}
	for _, k := range classes {
		x.classes[k] = true
	}
	x.scratch = &State{heap: map[int]Val{}, ghost: map[string]*WState{}, globals: map[*ssa.Global]int{}}
	return x
}

// initState runs the package's variable initialisers; variables assigned elsewhere stay symbolic.
func (x *Exec) initState() *State {
	st := &State{heap: map[int]Val{rheapID: &RWVal{}, ghostIntID: x.c.Fresh("ghost.int", BV(64))}, ghost: map[string]*WState{}, globals: map[*ssa.Global]int{}}
	x.scratch = st
	x.initMode = true
	x.inferring++
	defer func() { x.initMode = false; x.inferring-- }()
	fn := x.prog.pkg.Func("init")
	var outs []Outcome
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, visits: map[*ssa.BasicBlock]int{}, outs: &outs, noSum: map[*ssa.BasicBlock]bool{}}
	bad := map[ssa.Value]bool{}
	saveI, saveT := x.inlined, x.trusted
	x.inlined, x.trusted = map[string]bool{}, map[string]bool{}
	defer func() { x.inlined, x.trusted = saveI, saveT }()
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			skip := false
			for _, op := range in.Operands(nil) {
				if *op != nil && bad[*op] {
					skip = true
				}
			}
			if v, ok := in.(ssa.Value); ok && skip {
				bad[v] = true
			}
			if skip {
				continue
			}
			switch in := in.(type) {
			case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Phi:
				continue
			case *ssa.Call:
				if f := in.Call.StaticCallee(); f != nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
					continue
				}
				if f := in.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() != x.binPath && !initModelled(f.Pkg.Pkg.Path()) {
					bad[in] = true
					continue
				}
			case *ssa.Store:
				if g, ok := in.Addr.(*ssa.Global); ok {
					x.globalID0(st, g)
				}
			}
			ok := x.try(func() {
				bb := &ssa.BasicBlock{}
				_ = bb
				switch in := in.(type) {
				case *ssa.Call:
					os := x.bindCall(fr, st, &in.Call)(st)
					if len(os) != 1 || os[0].kind != ORet {
						unsup("init call")
					}
					switch len(os[0].vals) {
					case 0:
					case 1:
						fr.env[in] = os[0].vals[0]
					default:
						fr.env[in] = TupleVal(os[0].vals)
					}
				case *ssa.Store:
					x.store(st, x.get(fr, st, in.Addr).(*PtrVal), x.get(fr, st, in.Val))
				case *ssa.MapUpdate:
					m := x.get(fr, st, in.Map).(*MapVal)
					st.heap[m.Obj] = x.mapStore(st, st.heap[m.Obj].(*MapC), x.get(fr, st, in.Key), x.get(fr, st, in.Value))
				case ssa.Value:
					r, dead := x.eval(fr, st, in)
					if dead {
						unsup("init")
					}
					fr.env[in] = r
				}
			})
			if !ok {
				if v, ok := in.(ssa.Value); ok {
					bad[v] = true
				}
			}
		}
	}
	for g := range x.prog.mutable {
		if o, ok := st.globals[g]; ok {
			delete(st.heap, o)
			ng := map[*ssa.Global]int{}
			for k, v := range st.globals {
				if k != g {
					ng[k] = v
				}
			}
			st.globals = ng
		}
	}
	return st
}
func initModelled(path string) bool {
	switch path {
	case "errors", "fmt", "reflect", "encoding/binary", "math", "math/big":
		return true
	}
	return false
}
func (x *Exec) globalID0(st *State, g *ssa.Global) {
	o := x.prog.globalID(g)
	if _, ok := st.globals[g]; !ok {
		ng := map[*ssa.Global]int{}
		for k, v := range st.globals {
			ng[k] = v
		}
		ng[g] = o
		st.globals = ng
		x.try(func() { st.heap[o] = x.zero(st, g.Type().Underlying().(*types.Pointer).Elem()) })
	}
}

// try runs f, reporting false if it hits an unsupported construct.
func (x *Exec) try(f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(Unsupported); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	f()
	return true
}

func (p *Program) reflectType(n string) types.Type {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "reflect" {
			return pk.Pkg.Scope().Lookup(n).Type()
		}
	}
	panic("package reflect not loaded")
}

// digestType is the type behind sha256.New.
func (p *Program) digestType() types.Type {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "crypto/internal/fips140/sha256" {
			if o := pk.Pkg.Scope().Lookup("Digest"); o != nil {
				return types.NewPointer(o.Type())
			}
		}
	}
	return nil
}
