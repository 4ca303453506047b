package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func itoa(i int) string { return strconv.Itoa(i) }

type Obl struct {
	Fn, Name string
	Class    string
	N        int // instances
	Fail     int
	Why      string
	Hints    map[string]string
}
type Exec struct {
	prog      *Program
	c         *Ctx
	s         *Solver
	binPath   string
	leType    types.Type
	beType    types.Type
	nobj      int
	scratch   *State
	sums      map[string]sumDef
	recs      map[string]*recDef
	sorts     map[string]*sortDef
	loopEnd   *RWVal // writes at the end of the iteration being generalised
	debugInv  bool
	rtTypes   map[string]types.Type
	rvOfT     map[string]types.Type
	rtKinds   map[string]int
	ghost     int // >0: executing specification code
	repEqs    map[string]bool
	contracts map[*ssa.Function]*ssa.Function
	classes   map[string]bool
	cctx      []*cctx
	root      *ssa.Function // function whose body is being verified
	rootBusy  bool
	depth     int
	obls      map[string]*Obl
	oblOrder  []string
	used      map[*ssa.Function]bool // contracts relied upon
	inlined   map[string]bool        // functions executed from source
	trusted   map[string]bool        // models relied upon
	inputs    map[string]Val         // named inputs for counterexamples
	inputT    map[string]types.Type
	deadline  time.Time
	steps     int
	paths     int
	inferring int // >0: speculative execution, obligations are not recorded
	inSumEq   bool
	keyArgs   *[]*Term
	keyDepth  int
	softMerge bool
	hashes    map[int]func(*SeqVal) []Val
	virt      map[*ssa.BasicBlock]bool // loops to be summarised although they have no counter
	expand    bool // opaque ghost functions that have a definition are unfolded
	sawOpaque bool
	forks     map[string]int
	unfold    map[string]int
	baseState *State
	cover     map[string]bool
	initMode  bool
	loopNo    int
	pendingW  []pendW
	wpend     []string
	effects   int
	nabs      int
	seqTab    map[*Term]*SeqVal
	abstr     map[string]bool // specification functions whose results are left open
	s2        *Solver
	liaCache  map[string]liaRes
}

type cctx struct {
	assume    bool
	pre       bool
	fn        *ssa.Function
	caller    string
	mods      []*PtrVal
	modT      []types.Type
	modOut    []string
	modSl     []*SliceVal
	modRV     []*Term
	newRV     bool // reflection may write to objects made by the function only
	old       *State
	panicsOK  *Term
	mayPanic  bool
	noFrame   bool
	allocLim  *Term
	invs      []*FuncVal
	byDesign  bool // explicit panic statements are allowed
	calleePan bool // panics that the contracts of callees allow are allowed
}

type OutKind int

const (
	ORet OutKind = iota
	OPanic
)

type Outcome struct {
	kind OutKind
	vals []Val
	st   *State
	msg  string
}
type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	defers  []func(*State) []Outcome
	visits  map[*ssa.BasicBlock]int
	outs    *[]Outcome
	stop    map[*ssa.BasicBlock]func(fr *Frame, prev *ssa.BasicBlock, st *State)
	noSum   map[*ssa.BasicBlock]bool
	phiDone *ssa.BasicBlock
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, outs: f.outs, stop: f.stop, noSum: f.noSum, phiDone: f.phiDone, defers: f.defers[:len(f.defers):len(f.defers)]}
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	return n
}

type timeout struct{}

func (x *Exec) tick() {
	x.steps++
	if x.steps%64 == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
		panic(timeout{})
	}
}

// ---------------------------------------------------------------- solver interface

func (x *Exec) feasible(st *State, cond *Term) bool {
	if cond == x.c.F {
		return false
	}
	if cond == x.c.T {
		return true
	}
	nc := x.c.Not(cond)
	for _, p := range st.pc {
		if p == nc {
			return false
		}
		if p == cond {
			return true
		}
	}
	x.tick()
	if c2 := x.simp(st, cond); c2 != cond {
		if c2 == x.c.F || c2 == x.c.T {
			return c2 == x.c.T
		}
		cond = c2
	}
	as := append(x.withLemmas(relevant(st.pc, cond), cond), cond)
	if r, exact := x.lia(as); r == Unsat || r == Sat && exact {
		return r == Sat
	}
	return x.s.Check(as) != Unsat
}

// abstract replaces large conditional values by fresh variables: if the result is unsatisfiable, so is the query.
func (x *Exec) abstract(as []*Term) []*Term {
	c := x.c
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIte && t.sort.w > 0 && t.size() > 40 {
			m[t] = c.Var(fmt.Sprintf("abs.%d", t.id), t.sort)
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range as {
		walk(a)
	}
	if len(m) == 0 {
		return nil
	}
	out := make([]*Term, len(as))
	for i, a := range as {
		out[i] = c.Subst(a, m)
	}
	return out
}

// simp rewrites t under the literals known on the path.
func (x *Exec) simp(st *State, t *Term) *Term {
	c := x.c
	m := make(map[*Term]*Term, 2*len(st.pc))
	for _, p := range st.pc {
		if p.isConst() {
			continue
		}
		m[p] = c.T
		m[c.Not(p)] = c.F
		if p.op == OEq && p.args[0].op == OVar && p.args[1].isConst() {
			m[p.args[0]] = p.args[1]
		} else if p.op == OEq && p.args[1].op == OVar && p.args[0].isConst() {
			m[p.args[1]] = p.args[0]
		}
	}
	return c.Subst(t, m)
}
func (x *Exec) valid(st *State, g *Term) bool {
	if g == x.c.T {
		return true
	}
	for _, p := range st.pc {
		if p == g {
			return true
		}
	}
	if g.op == OAnd {
		for _, a := range g.args {
			if !x.valid(st, a) {
				return false
			}
		}
		return true
	}
	x.tick()
	if g2 := x.simp(st, g); g2 != g {
		if g2 == x.c.T {
			return true
		}
		if g2.op == OAnd {
			return x.valid(st, g2)
		}
		g = g2
	}
	if g2 := x.sumEq(st, g); g2 != g {
		return x.valid(st, g2)
	}
	ng := x.c.Not(g)
	as := x.withLemmas(relevant(st.pc, ng), ng)
	if r, _ := x.lia(append(as[:len(as):len(as)], ng)); r == Unsat {
		return true
	}
	if ab := x.abstract(append(as[:len(as):len(as)], ng)); ab != nil && x.s.Check(ab) == Unsat {
		return true
	}
	if x.s.Check(append(as, ng)) == Unsat {
		return true
	}
	// the path itself may be infeasible for a reason unrelated to the goal
	if len(as) < len(st.pc) {
		all := x.withLemmas(append([]*Term{}, st.pc...), ng)
		return x.s.Check(append(all, ng)) == Unsat
	}
	return false
}

// sumEq identifies sums in g that have the same range and equal terms.
func (x *Exec) sumEq(st *State, g *Term) *Term {
	if len(x.sums) < 2 || x.inSumEq {
		return g
	}
	var apps []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && len(t.args) == 1 && strings.HasPrefix(t.name, "sum:") {
			apps = append(apps, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(g)
	if len(apps) < 2 {
		return g
	}
	x.inSumEq = true
	defer func() { x.inSumEq = false }()
	m := map[*Term]*Term{}
	for i, a := range apps {
		for _, b := range apps[:i] {
			if a.name == b.name || m[b] != nil || a.args[0] != b.args[0] {
				continue
			}
			da, db := x.sums[a.name], x.sums[b.name]
			if da.body == nil || db.body == nil || da.v != db.v || da.body.sort != db.body.sort {
				continue
			}
			s2 := st.clone()
			s2.assume(x.c.Ult(da.v, a.args[0]))
			x.instantiate(s2, da.v)
			if x.valid(s2, x.c.Eq(da.body, db.body)) {
				m[a] = b
				break
			}
		}
	}
	if len(m) == 0 {
		return g
	}
	return x.c.Subst(g, m)
}

// guard splits off a panic outcome for !ok; returns false if the path is dead.
func (x *Exec) guard(fr *Frame, st *State, ok *Term, msg string) bool {
	if ok == x.c.T {
		return true
	}
	nk := x.c.Not(ok)
	if x.feasible(st, nk) {
		s2 := st.clone()
		s2.assume(nk)
		x.emitPanic(fr, s2, msg)
		if !x.feasible(st, ok) {
			return false
		}
	}
	st.assume(ok)
	return true
}
func (x *Exec) emitPanic(fr *Frame, st *State, msg string) {
	*fr.outs = append(*fr.outs, Outcome{kind: OPanic, st: st, msg: msg})
}

// ---------------------------------------------------------------- memory

func (x *Exec) loadPath(st *State, v Val, path []PE) Val {
	for _, p := range path {
		switch w := v.(type) {
		case *StructVal:
			if p.I != nil {
				unsup("index into struct")
			}
			v = w.F[p.F]
		case *ArrayVal:
			x.scratch = st
			v = x.rd(w.A, p.I, w.Elem)
		case *SeqVal:
			x.scratch = st
			v = x.seqAt(w, p.I)
		default:
			unsup("path into %T", v)
		}
	}
	return v
}
func (x *Exec) storePath(st *State, v Val, path []PE, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch w := v.(type) {
	case *StructVal:
		f := make([]Val, len(w.F))
		copy(f, w.F)
		f[path[0].F] = x.storePath(st, w.F[path[0].F], path[1:], nv)
		return &StructVal{w.T, f}
	case *ArrayVal:
		x.scratch = st
		if len(path) > 1 {
			nv = x.storePath(st, x.rd(w.A, path[0].I, w.Elem), path[1:], nv)
		}
		return &ArrayVal{w.Elem, x.wr(w.A, path[0].I, nv)}
	}
	unsup("store into %T", v)
	return nil
}
func (x *Exec) load(st *State, p *PtrVal) Val { return x.loadPath(st, st.heap[p.Obj], p.Path) }
func (x *Exec) store(st *State, p *PtrVal, v Val) {
	st.heap[p.Obj] = x.storePath(st, st.heap[p.Obj], p.Path, v)
}
func (x *Exec) arrOf(st *State, s *SliceVal) Arr {
	if s.Obj == 0 {
		return &AExp{}
	}
	switch v := x.loadPath(st, st.heap[s.Obj], s.Path).(type) {
	case *ArrayVal:
		return v.A
	}
	unsup("slice backing")
	return nil
}
func addPE(p []PE, e PE) []PE { return append(append(make([]PE, 0, len(p)+1), p...), e) }

func (x *Exec) seqOfSlice(st *State, s *SliceVal) *SeqVal {
	x.scratch = st
	return x.seqSlice(x.arrOf(st, s), s.Off, s.Len)
}

// ---------------------------------------------------------------- values of operands

func (x *Exec) get(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Global:
		return &PtrVal{Nil: x.c.F, Obj: x.globalObj(st, v)}
	case *ssa.Function:
		return &FuncVal{Nil: x.c.F, Fn: v}
	case *ssa.Builtin:
		return &BuiltinVal{v.Name()}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}
func (x *Exec) constVal(st *State, k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return x.zero(st, t)
	}
	return x.constOf(t, k.Value)
}
func (x *Exec) constOf(t types.Type, k constant.Value) Val {
	if w, _, ok := x.intInfo(t); ok {
		i := constant.ToInt(k)
		if v, ok := constant.Int64Val(i); ok {
			return x.c.Const(w, uint64(v))
		}
		v, _ := constant.Uint64Val(i)
		return x.c.Const(w, v)
	}
	if w := isFloat(t); w > 0 {
		f, _ := constant.Float64Val(k)
		return x.c.Const(w, floatBits(f, w))
	}
	switch k.Kind() {
	case constant.Bool:
		return x.c.Bool(constant.BoolVal(k))
	case constant.String:
		return x.strLit(constant.StringVal(k))
	}
	unsup("constant %v of type %s", k, t)
	return nil
}

func (x *Exec) globalObj(st *State, g *ssa.Global) int {
	if o, ok := st.globals[g]; ok {
		return o
	}
	// globals are shared by all states descending from the same base; identity by object number
	o := x.prog.globalID(g)
	st2 := map[*ssa.Global]int{}
	for k, v := range st.globals {
		st2[k] = v
	}
	st2[g] = o
	st.globals = st2
	if _, ok := st.heap[o]; !ok {
		et := g.Type().Underlying().(*types.Pointer).Elem()
		if g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" && (g.Name() == "LittleEndian" || g.Name() == "BigEndian") {
			st.heap[o] = x.zero(st, et)
		} else if types.IsInterface(et) && typeName(et) == "error" {
			st.heap[o] = &IfaceVal{[]Alt{{Cond: x.c.T, Op: x.c.Var("glob:"+g.String(), IfS)}}}
		} else {
			st.heap[o] = x.mkSym(st, et, "glob:"+g.String())
			if p, ok := st.heap[o].(*PtrVal); ok {
				st.assume(x.c.Not(p.Nil))
			}
		}
	}
	return o
}

// ---------------------------------------------------------------- calls

func (x *Exec) callFn(fn *ssa.Function, bind []Val, args []Val, st *State) []Outcome {
	x.tick()
	name := fn.String()
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == x.binPath {
		if outs, ok := x.intrinsic(fn, args, st); ok {
			return outs
		}
		if cf := x.contracts[fn]; cf != nil && !x.prog.verifyOnly[fn] && !(x.root == fn && !x.rootBusy) {
			if x.prog.assumed[fn] {
				x.trusted["assumed contract, bounded check only: "+shortName(fn)] = true
			}
			return x.applyContract(fn, cf, args, st)
		}
	}
	if outs, ok := x.model(fn, name, args, st); ok {
		return outs
	}
	if fn.Blocks == nil {
		unsup("call of %s, which has no Go body and no model", name)
	}
	if x.depth > 60 {
		unsup("call depth exceeded at %s", name)
	}
	x.depth++
	defer func() { x.depth-- }()
	if x.abstr[fn.Name()] && x.prog.isGhost(fn) {
		var vs []Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			x.nabs++
			vs = append(vs, x.mkSym(st, fn.Signature.Results().At(i).Type(), fmt.Sprintf("abs!%s!%d", fn.Name(), x.nabs)))
		}
		return ret(st, vs...)
	}
	if x.prog.isGhost(fn) {
		if fn.Signature.Results().Len() > 0 && fn.Parent() == nil && !strings.HasPrefix(fn.Name(), "contract") {
			base := st.clone()
			eff := x.effects
			outs := x.runBody(fn, bind, args, st)
			if x.effects == eff {
				outs = x.mergePure(base, outs)
			}
			return outs
		}
	} else {
		x.inlined[name] = true
	}
	return x.runBody(fn, bind, args, st)
}
func (x *Exec) runBody(fn *ssa.Function, bind []Val, args []Val, st *State) []Outcome {
	var outs []Outcome
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, visits: map[*ssa.BasicBlock]int{}, outs: &outs, noSum: map[*ssa.BasicBlock]bool{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	sv := x.ghost
	if x.prog.isGhost(fn) {
		x.ghost = 1
	} else {
		x.ghost = 0
	}
	defer func() { x.ghost = sv }()
	x.run(fr, fn.Blocks[0], nil, st)
	return outs
}

// run executes from the start of block b, entered from prev.
func (x *Exec) run(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	for {
		x.tick()
		if fr.stop != nil {
			if h := fr.stop[b]; h != nil {
				h(fr, prev, st)
				return
			}
		}
		if lp := x.prog.loopAt(b); lp != nil && prev != nil && !lp.blocks[prev] {
			fr.visits[b] = 0
			if x.enterLoop(fr, lp, prev, st) {
				return
			}
		}
		if lp := x.prog.loopAt(b); lp != nil {
			fr.visits[b]++
			if fr.visits[b] > x.unrollLimit(fr, lp) {
				panic(loopLimit{b})
			}
		}
		i := x.phis(fr, b, prev, st)
		nb, st2, ok := x.exec(fr, b, i, st)
		if !ok {
			return
		}
		st = st2
		prev, b = b, nb
	}
}

type loopLimit struct{ b *ssa.BasicBlock }

func (x *Exec) unrollLimit(fr *Frame, lp *Loop) int {
	if x.ghost > 0 || x.initMode {
		return 400
	}
	if phi, _, _ := x.loopPhi(lp, fr); phi != nil {
		return 400
	}
	return 24
}

func (x *Exec) phis(fr *Frame, b, prev *ssa.BasicBlock, st *State) int {
	i := 0
	if prev == nil {
		return 0
	}
	if fr.phiDone == b {
		fr.phiDone = nil
		for i < len(b.Instrs) {
			if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
				break
			}
			i++
		}
		return i
	}
	idx := -1
	for k, p := range b.Preds {
		if p == prev {
			idx = k
		}
	}
	type asg struct {
		p *ssa.Phi
		v Val
	}
	var as []asg
	for i < len(b.Instrs) {
		p, ok := b.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{p, x.get(fr, st, p.Edges[idx])})
		i++
	}
	for _, a := range as {
		fr.env[a.p] = a.v
	}
	return i
}

// exec runs instructions of b from index i; returns the next block, or false if the path ended or forked.
func (x *Exec) exec(fr *Frame, b *ssa.BasicBlock, i int, st *State) (*ssa.BasicBlock, *State, bool) {
	c := x.c
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			return b.Succs[0], st, true
		case *ssa.If:
			k := x.get(fr, st, in.Cond).(*Term)
			t, f := x.feasible(st, k), true
			if t {
				f = x.feasible(st, c.Not(k))
			}
			switch {
			case t && f:
				if j := x.joinOf(fr, b); j != nil {
					x.mergeIf(fr, b, j, k, st)
					return nil, nil, false
				}
				st2, fr2 := st.clone(), fr.clone()
				st2.assume(c.Not(k))
				st.assume(k)
				x.paths++
				x.forkAt(fr, in)
				x.run(fr, b.Succs[0], b, st)
				x.run(fr2, b.Succs[1], b, st2)
				return nil, nil, false
			case t:
				st.assume(k)
				return b.Succs[0], st, true
			default:
				st.assume(c.Not(k))
				return b.Succs[1], st, true
			}
		case *ssa.Return:
			var vs []Val
			for _, r := range in.Results {
				vs = append(vs, x.get(fr, st, r))
			}
			*fr.outs = append(*fr.outs, Outcome{kind: ORet, vals: vs, st: st})
			return nil, nil, false
		case *ssa.Panic:
			v := x.get(fr, st, in.X)
			msg := "explicit panic"
			if iv, ok := v.(*IfaceVal); ok && len(iv.Alts) == 1 {
				if s, ok := iv.Alts[0].V.(*StrVal); ok && s.Lit != nil {
					msg = "panic: " + *s.Lit
				}
			}
			x.emitPanic(fr, st, msg+" in "+fr.fn.String())
			return nil, nil, false
		case *ssa.RunDefers:
			if len(fr.defers) > 0 {
				sts := []*State{st}
				for k := len(fr.defers) - 1; k >= 0; k-- {
					var n []*State
					for _, s := range sts {
						for _, o := range fr.defers[k](s) {
							if o.kind == OPanic {
								*fr.outs = append(*fr.outs, o)
							} else {
								n = append(n, o.st)
							}
						}
					}
					sts = n
				}
				fr.defers = nil
				for j, s := range sts {
					f2 := fr
					if j < len(sts)-1 {
						f2 = fr.clone()
					}
					if nb, s2, ok := x.exec(f2, b, i+1, s); ok {
						x.run(f2, nb, b, s2)
					}
				}
				return nil, nil, false
			}
		case *ssa.Defer:
			call := in.Call
			fr.defers = append(fr.defers, x.bindCall(fr, st, &call))
		case *ssa.Call:
			outs := x.bindCall(fr, st, &in.Call)(st)
			live := outs[:0:0]
			for _, o := range outs {
				if o.kind == OPanic {
					*fr.outs = append(*fr.outs, o)
				} else {
					live = append(live, o)
				}
			}
			if len(live) == 0 {
				return nil, nil, false
			}
			for j, o := range live {
				f2 := fr
				if j < len(live)-1 {
					f2 = fr.clone()
					x.paths++
					x.forkAt(fr, in)
				}
				switch len(o.vals) {
				case 0:
				case 1:
					f2.env[in] = o.vals[0]
				default:
					f2.env[in] = TupleVal(o.vals)
				}
				if j == len(live)-1 && len(live) == 1 {
					st = o.st
					break
				}
				if nb, s2, ok := x.exec(f2, b, i+1, o.st); ok {
					x.run(f2, nb, b, s2)
				}
			}
			if len(live) > 1 {
				return nil, nil, false
			}
		case *ssa.Store:
			p, ok := x.get(fr, st, in.Addr).(*PtrVal)
			if !ok {
				unsup("store through %T", x.get(fr, st, in.Addr))
			}
			if !x.guard(fr, st, c.Not(p.Nil), "nil pointer dereference in "+fr.fn.String()) {
				return nil, nil, false
			}
			x.store(st, p, x.get(fr, st, in.Val))
		case *ssa.MapUpdate:
			m := x.get(fr, st, in.Map).(*MapVal)
			if !x.guard(fr, st, c.Not(m.Nil), "assignment to entry in nil map in "+fr.fn.String()) {
				return nil, nil, false
			}
			mc := st.heap[m.Obj].(*MapC)
			st.heap[m.Obj] = x.mapStore(st, mc, x.get(fr, st, in.Key), x.get(fr, st, in.Value))
		case ssa.Value:
			r, dead := x.eval(fr, st, in)
			if dead {
				return nil, nil, false
			}
			if fk, ok := r.(*forked); ok {
				for j, br := range fk.brs {
					f2 := fr
					if j < len(fk.brs)-1 {
						f2 = fr.clone()
						x.paths++
					}
					f2.env[in] = br.v
					if len(fk.brs) == 1 {
						st = br.st
						break
					}
					if nb, s2, ok := x.exec(f2, b, i+1, br.st); ok {
						x.run(f2, nb, b, s2)
					}
				}
				if len(fk.brs) != 1 {
					return nil, nil, false
				}
				continue
			}
			fr.env[in] = r
		default:
			unsup("instruction %T in %s", in, fr.fn)
		}
	}
	panic("block without terminator")
}

type branch struct {
	v  Val
	st *State
}
type forked struct{ brs []branch }

func (x *Exec) bindCall(fr *Frame, st *State, call *ssa.CallCommon) func(*State) []Outcome {
	var args []Val
	for _, a := range call.Args {
		args = append(args, x.get(fr, st, a))
	}
	if call.IsInvoke() {
		recv := x.get(fr, st, call.Value)
		return func(s *State) []Outcome { return x.invoke(fr, s, call, recv, args) }
	}
	switch f := call.Value.(type) {
	case *ssa.Builtin:
		return func(s *State) []Outcome { return x.builtin(fr, s, f.Name(), call, args) }
	case *ssa.Function:
		return func(s *State) []Outcome { return x.callFn(f, nil, args, s) }
	}
	v := x.get(fr, st, call.Value)
	return func(s *State) []Outcome { return x.callVal(fr, s, v, args) }
}
func (x *Exec) callVal(fr *Frame, s *State, v Val, args []Val) []Outcome {
	fv, ok := v.(*FuncVal)
	if !ok {
		unsup("call of %T", v)
	}
	if fv.Nil != x.c.F {
		if x.feasible(s, fv.Nil) {
			var outs []Outcome
			s2 := s.clone()
			s2.assume(fv.Nil)
			outs = append(outs, Outcome{kind: OPanic, st: s2, msg: "call of nil function"})
			if !x.feasible(s, x.c.Not(fv.Nil)) {
				return outs
			}
			s.assume(x.c.Not(fv.Nil))
			return append(outs, x.callVal(fr, s, &FuncVal{x.c.F, fv.Fn, fv.Bind}, args)...)
		}
	}
	if fv.Fn == nil {
		unsup("call of unknown function value")
	}
	return x.callFn(fv.Fn, fv.Bind, args, s)
}
func ret(st *State, vs ...Val) []Outcome { return []Outcome{{kind: ORet, vals: vs, st: st}} }

func (x *Exec) invoke(fr *Frame, st *State, call *ssa.CallCommon, recv Val, args []Val) []Outcome {
	c := x.c
	if t, ok := recv.(*Term); ok && t.sort == RTS {
		return x.rtMethod(st, call.Method.Name(), t, args)
	}
	iv, ok := recv.(*IfaceVal)
	if !ok {
		unsup("invoke on %T", recv)
	}
	var outs []Outcome
	live := 0
	for _, a := range iv.Alts {
		if x.feasible(st, a.Cond) {
			live++
		}
	}
	for _, a := range iv.Alts {
		if !x.feasible(st, a.Cond) {
			continue
		}
		s2 := st
		if live > 1 {
			s2 = st.clone()
		}
		s2.assume(a.Cond)
		switch {
		case a.T == nil && a.Op == nil:
			outs = append(outs, Outcome{kind: OPanic, st: s2, msg: "method call on nil interface in " + fr.fn.String()})
		case a.T == nil:
			outs = append(outs, x.invokeOpaque(s2, call, a.Op, args)...)
		default:
			fn := x.prog.method(a.T, call.Method)
			if fn == nil {
				unsup("no method %s on %s", call.Method.Name(), a.T)
			}
			outs = append(outs, x.callFn(fn, nil, append([]Val{a.V}, args...), s2)...)
		}
	}
	_ = c
	return outs
}

// ---------------------------------------------------------------- instructions producing values

func (x *Exec) eval(fr *Frame, st *State, in ssa.Value) (Val, bool) {
	c := x.c
	x.scratch = st
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		o := x.newObj(st, x.zero(st, et))
		return &PtrVal{Nil: c.F, Obj: o}, false
	case *ssa.BinOp:
		return x.binop(fr, st, in)
	case *ssa.UnOp:
		v := x.get(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			p, ok := v.(*PtrVal)
			if !ok {
				unsup("load through %T", v)
			}
			if !x.guard(fr, st, c.Not(p.Nil), "nil pointer dereference in "+fr.fn.String()) {
				return nil, true
			}
			r := x.load(st, p)
			if r == nil {
				unsup("load of unmodelled memory of type %s", in.Type())
			}
			return r, false
		case token.SUB:
			t := v.(*Term)
			if isFloat(in.Type()) > 0 {
				return c.BXor(t, c.Const(t.sort.w, 1<<uint(t.sort.w-1))), false
			}
			return c.Sub(c.Const(t.sort.w, 0), t), false
		case token.NOT:
			return c.Not(v.(*Term)), false
		case token.XOR:
			t := v.(*Term)
			return c.Sub(c.Const(t.sort.w, ^uint64(0)), t), false
		}
		unsup("unary %s", in.Op)
	case *ssa.ChangeType:
		return x.retype(x.get(fr, st, in.X), in.Type()), false
	case *ssa.ChangeInterface:
		return x.toIface(st, x.get(fr, st, in.X), in.X.Type(), in.Type()), false
	case *ssa.MakeInterface:
		return x.makeIface(st, x.get(fr, st, in.X), in.X.Type(), in.Type()), false
	case *ssa.Convert:
		return x.convert(fr, st, x.get(fr, st, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		return x.get(fr, st, in.Tuple).(TupleVal)[in.Index], false
	case *ssa.Field:
		sv, ok := x.get(fr, st, in.X).(*StructVal)
		if !ok {
			unsup("field of %T", x.get(fr, st, in.X))
		}
		return sv.F[in.Field], false
	case *ssa.FieldAddr:
		p := x.get(fr, st, in.X).(*PtrVal)
		if !x.guard(fr, st, c.Not(p.Nil), "nil pointer dereference in "+fr.fn.String()) {
			return nil, true
		}
		return &PtrVal{c.F, p.Obj, addPE(p.Path, PE{F: in.Field})}, false
	case *ssa.Index:
		i := x.toInt64(x.get(fr, st, in.Index).(*Term), in.Index.Type())
		switch v := x.get(fr, st, in.X).(type) {
		case *ArrayVal:
			n := in.X.Type().Underlying().(*types.Array).Len()
			if !x.guard(fr, st, c.Ult(i, c.Const(64, uint64(n))), "index out of range in "+fr.fn.String()) {
				return nil, true
			}
			return x.rd(v.A, i, v.Elem), false
		case *StrVal:
			if !x.guard(fr, st, c.Ult(i, v.Len), "index out of range in "+fr.fn.String()) {
				return nil, true
			}
			return x.rd(v.A, c.Add(v.Off, i), u8T), false
		}
	case *ssa.IndexAddr:
		i := x.toInt64(x.get(fr, st, in.Index).(*Term), in.Index.Type())
		switch v := x.get(fr, st, in.X).(type) {
		case *SliceVal:
			if !x.guard(fr, st, c.Ult(i, v.Len), "index out of range in "+fr.fn.String()) {
				return nil, true
			}
			return &PtrVal{c.F, v.Obj, addPE(v.Path, PE{I: c.Add(v.Off, i)})}, false
		case *PtrVal:
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !x.guard(fr, st, c.Not(v.Nil), "nil pointer dereference in "+fr.fn.String()) || !x.guard(fr, st, c.Ult(i, c.Const(64, uint64(n))), "index out of range in "+fr.fn.String()) {
				return nil, true
			}
			return &PtrVal{c.F, v.Obj, addPE(v.Path, PE{I: i})}, false
		}
	case *ssa.Slice:
		return x.slice(fr, st, in)
	case *ssa.Lookup:
		switch v := x.get(fr, st, in.X).(type) {
		case *StrVal:
			i := x.toInt64(x.get(fr, st, in.Index).(*Term), in.Index.Type())
			if !x.guard(fr, st, c.Ult(i, v.Len), "index out of range in "+fr.fn.String()) {
				return nil, true
			}
			return x.rd(v.A, c.Add(v.Off, i), u8T), false
		case *MapVal:
			val, ok := x.mapLookup(st, v, x.get(fr, st, in.Index), in.X.Type().Underlying().(*types.Map).Elem())
			if in.CommaOk {
				return TupleVal{val, ok}, false
			}
			return val, false
		}
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		o := x.newObj(st, &MapC{T: c.Var("map:empty", MapS), K: mt.Key(), E: mt.Elem()})
		return &MapVal{c.F, o}, false
	case *ssa.MakeSlice:
		n := x.toInt64(x.get(fr, st, in.Len).(*Term), in.Len.Type())
		cp := x.toInt64(x.get(fr, st, in.Cap).(*Term), in.Cap.Type())
		et := in.Type().Underlying().(*types.Slice).Elem()
		lim := c.Const(64, 1<<46)
		if !x.guard(fr, st, c.And(c.Ule(n, cp), c.Ule(cp, lim)), "makeslice: len out of range in "+fr.fn.String()) {
			return nil, true
		}
		x.allocObl(st, cp, "make")
		z := x.zero(st, et)
		var a Arr
		if cp.isConst() && cp.n <= 4096 {
			e := make([]Val, cp.n)
			for i := range e {
				e[i] = z
			}
			a = &AExp{e}
		} else {
			a = &AConst{z}
		}
		o := x.newObj(st, &ArrayVal{et, a})
		return &SliceVal{Nil: c.F, Obj: o, Off: c.Const(64, 0), Len: n, Cap: cp, Elem: et}, false
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range in.Bindings {
			b = append(b, x.get(fr, st, v))
		}
		return &FuncVal{c.F, in.Fn.(*ssa.Function), b}, false
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, in)
	case *ssa.Range:
		v := x.get(fr, st, in.X)
		switch v := v.(type) {
		case *StrVal:
			return &IterVal{x.newObj(st, &IterC{Str: v, I: c.Const(64, 0)})}, false
		case *MapVal:
			mc, _ := st.heap[v.Obj].(*MapC)
			return &IterVal{x.newObj(st, &IterC{Map: mc})}, false
		}
	case *ssa.Next:
		return x.next(fr, st, in)
	case *ssa.SliceToArrayPointer:
		v := x.get(fr, st, in.X).(*SliceVal)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !x.guard(fr, st, c.Ule(c.Const(64, uint64(n)), v.Len), "slice to array conversion in "+fr.fn.String()) {
			return nil, true
		}
		if len(v.Path) == 0 && v.Off.isC(0) {
			if a, ok := x.arrOf(st, v).(*AExp); ok && len(a.E) == int(n) {
				return &PtrVal{c.F, v.Obj, v.Path}, false
			}
		}
		unsup("slice to array pointer conversion")
	case *ssa.Phi:
		panic("phi out of place")
	}
	unsup("instruction %T (%s) in %s", in, in, fr.fn)
	return nil, true
}

// toInt64 widens an index of any integer type to a 64-bit signed value (negative or huge values stay out of range).
func (x *Exec) toInt64(t *Term, ty types.Type) *Term {
	w, sgn, ok := x.intInfo(ty)
	if !ok {
		unsup("index type %s", ty)
	}
	if w == 64 {
		return t
	}
	if sgn {
		return x.c.SExt(t, 64)
	}
	return x.c.ZExt(t, 64)
}
func (x *Exec) retype(v Val, t types.Type) Val {
	switch v := v.(type) {
	case *StructVal:
		return &StructVal{t, v.F}
	case *SliceVal:
		if s, ok := t.Underlying().(*types.Slice); ok {
			return &SliceVal{v.Nil, v.Obj, v.Path, v.Off, v.Len, v.Cap, s.Elem()}
		}
		if typeName(t) == x.binPath+".Seq" {
			return x.seqOfSlice(x.scratch, v)
		}
	}
	return v
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) (Val, bool) {
	c := x.c
	a, b := x.get(fr, st, in.X), x.get(fr, st, in.Y)
	ty := in.X.Type()
	if w := isFloat(ty); w > 0 {
		return x.floatop(in.Op, a.(*Term), b.(*Term), w), false
	}
	switch in.Op {
	case token.EQL:
		return x.eq(st, a, b), false
	case token.NEQ:
		return c.Not(x.eqT(st, a, b, ty)), false
	}
	if s, ok := a.(*StrVal); ok {
		t := b.(*StrVal)
		switch in.Op {
		case token.ADD:
			return x.strCat(st, s, t), false
		case token.LSS:
			return x.strLess(s, t), false
		case token.GTR:
			return x.strLess(t, s), false
		case token.LEQ:
			return c.Not(x.strLess(t, s)), false
		case token.GEQ:
			return c.Not(x.strLess(s, t)), false
		}
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("operator %s on %T and %T", in.Op, a, b)
	}
	if w := isFloat(ty); w > 0 {
		return x.floatop(in.Op, p, q, w), false
	}
	w, sgn, ok := x.intInfo(ty)
	if !ok {
		unsup("operator %s at type %s", in.Op, ty)
	}
	switch in.Op {
	case token.ADD:
		return c.Add(p, q), false
	case token.SUB:
		return c.Sub(p, q), false
	case token.MUL:
		return c.Mul(p, q), false
	case token.QUO, token.REM:
		if !x.guard(fr, st, c.Neq(q, c.Const(w, 0)), "division by zero in "+fr.fn.String()) {
			return nil, true
		}
		switch {
		case in.Op == token.QUO && sgn:
			return c.SDiv(p, q), false
		case in.Op == token.QUO:
			return c.UDiv(p, q), false
		case sgn:
			return c.SRem(p, q), false
		default:
			return c.URem(p, q), false
		}
	case token.AND:
		return c.BAnd(p, q), false
	case token.OR:
		return c.BOr(p, q), false
	case token.XOR:
		return c.BXor(p, q), false
	case token.AND_NOT:
		return c.BAnd(p, c.Sub(c.Const(w, ^uint64(0)), q)), false
	case token.SHL, token.SHR:
		qw, qs, _ := x.intInfo(in.Y.Type())
		if qs {
			if !x.guard(fr, st, c.Sle(c.Const(qw, 0), q), "negative shift in "+fr.fn.String()) {
				return nil, true
			}
		}
		// bring the count to the operand's width, saturating
		var big *Term
		if qw > w {
			big = c.Not(c.Ult(q, c.Const(qw, uint64(w))))
			q = c.Extract(q, w-1, 0)
		} else {
			q = c.ZExt(q, w)
			if w >= 8 {
				big = c.Not(c.Ult(q, c.Const(w, uint64(w))))
			}
		}
		switch {
		case in.Op == token.SHL:
			return c.Ite(big, c.Const(w, 0), c.Shl(p, q)), false
		case sgn:
			return c.Ite(big, c.Ashr(p, c.Const(w, uint64(w-1))), c.Ashr(p, q)), false
		default:
			return c.Ite(big, c.Const(w, 0), c.Lshr(p, q)), false
		}
	case token.LSS:
		if sgn {
			return c.Slt(p, q), false
		}
		return c.Ult(p, q), false
	case token.LEQ:
		if sgn {
			return c.Sle(p, q), false
		}
		return c.Ule(p, q), false
	case token.GTR:
		if sgn {
			return c.Slt(q, p), false
		}
		return c.Ult(q, p), false
	case token.GEQ:
		if sgn {
			return c.Sle(q, p), false
		}
		return c.Ule(q, p), false
	}
	unsup("operator %s", in.Op)
	return nil, true
}
func (x *Exec) eq(st *State, a, b Val) *Term { return x.eqT(st, a, b, nil) }
func (x *Exec) eqT(st *State, a, b Val, ty types.Type) *Term {
	c := x.c
	switch p := a.(type) {
	case *Term:
		if p.sort == RVS && x.ghost == 0 && x.track() {
			return c.Fresh("rveq", BoolS) // identity of reflect.Values is not modelled
		}
		return c.Eq(p, b.(*Term))
	case *StrVal:
		return x.strEq(p, b.(*StrVal))
	case *StructVal:
		q := b.(*StructVal)
		var cs []*Term
		for i := range p.F {
			cs = append(cs, x.eqT(st, p.F[i], q.F[i], nil))
		}
		return c.And(cs...)
	case *ArrayVal:
		q := b.(*ArrayVal)
		pa, ok1 := p.A.(*AExp)
		qa, ok2 := q.A.(*AExp)
		if ok1 && ok2 && len(pa.E) == len(qa.E) {
			var cs []*Term
			for i := range pa.E {
				cs = append(cs, x.eqT(st, pa.E[i], qa.E[i], nil))
			}
			return c.And(cs...)
		}
	case *PtrVal:
		q, ok := b.(*PtrVal)
		if !ok {
			break
		}
		if p.Nil == c.T {
			return q.Nil
		}
		if q.Nil == c.T {
			return p.Nil
		}
		if p.Obj == q.Obj && samePath(p.Path, q.Path) {
			return c.Eq(p.Nil, q.Nil)
		}
		if p.Obj != q.Obj {
			return c.And(p.Nil, q.Nil) // distinct objects
		}
	case *SliceVal:
		q := b.(*SliceVal)
		if p.Nil == c.T {
			return q.Nil
		}
		if q.Nil == c.T {
			return p.Nil
		}
	case *MapVal:
		q := b.(*MapVal)
		if p.Nil == c.T {
			return q.Nil
		}
		if q.Nil == c.T {
			return p.Nil
		}
	case *FuncVal:
		q := b.(*FuncVal)
		if q.Nil == c.T {
			return p.Nil
		}
		if p.Nil == c.T {
			return q.Nil
		}
	case *IfaceVal:
		q, ok := b.(*IfaceVal)
		if !ok {
			break
		}
		var cs []*Term
		for _, m := range p.Alts {
			for _, n := range q.Alts {
				k := c.And(m.Cond, n.Cond)
				if k == c.F {
					continue
				}
				switch {
				case m.T == nil && m.Op == nil || n.T == nil && n.Op == nil:
					if m.T == nil && m.Op == nil && n.T == nil && n.Op == nil {
						cs = append(cs, k)
					}
				case m.T != nil && n.T != nil:
					if types.Identical(m.T, n.T) {
						cs = append(cs, c.And(k, x.eqT(st, m.V, n.V, m.T)))
					}
				case m.Op != nil && n.Op != nil:
					cs = append(cs, c.And(k, c.Eq(m.Op, n.Op)))
				default:
					// opaque against concrete: undetermined
					cs = append(cs, c.And(k, c.Fresh("ifeq", BoolS)))
				}
			}
		}
		return c.Or(cs...)
	}
	unsup("equality of %T and %T", a, b)
	return nil
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) (Val, bool) {
	c := x.c
	g := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.toInt64(x.get(fr, st, v).(*Term), v.Type())
	}
	lo, hi, mx := g(in.Low), g(in.High), g(in.Max)
	if lo == nil {
		lo = c.Const(64, 0)
	}
	msg := "slice bounds out of range in " + fr.fn.String()
	switch v := x.get(fr, st, in.X).(type) {
	case *StrVal:
		if hi == nil {
			hi = v.Len
		}
		if !x.guard(fr, st, c.And(c.Ule(lo, hi), c.Ule(hi, v.Len)), msg) {
			return nil, true
		}
		r := &StrVal{A: v.A, Off: c.Add(v.Off, lo), Len: c.Sub(hi, lo)}
		if v.Lit != nil && lo.isConst() && hi.isConst() {
			return x.strLit((*v.Lit)[lo.n:hi.n]), false
		}
		if lo.isC(0) && hi == v.Len {
			return v, false
		}
		return r, false
	case *SliceVal:
		if hi == nil {
			hi = v.Len
		}
		cp := v.Cap
		if mx == nil {
			mx = cp
		}
		if !x.guard(fr, st, c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, cp)), msg) {
			return nil, true
		}
		return &SliceVal{v.Nil, v.Obj, v.Path, c.Add(v.Off, lo), c.Sub(hi, lo), c.Sub(mx, lo), v.Elem}, false
	case *PtrVal:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := c.Const(64, uint64(at.Len()))
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		if !x.guard(fr, st, c.Not(v.Nil), "nil pointer dereference in "+fr.fn.String()) || !x.guard(fr, st, c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, n)), msg) {
			return nil, true
		}
		return &SliceVal{c.F, v.Obj, v.Path, lo, c.Sub(hi, lo), c.Sub(mx, lo), at.Elem()}, false
	}
	unsup("slice of %T", x.get(fr, st, in.X))
	return nil, true
}

func (x *Exec) makeIface(st *State, v Val, from, to types.Type) Val {
	if t, ok := v.(*Term); ok && t.sort == RTS {
		return t
	}
	return &IfaceVal{[]Alt{{Cond: x.c.T, T: from, V: v}}}
}
func (x *Exec) toIface(st *State, v Val, from, to types.Type) Val {
	if t, ok := v.(*Term); ok && t.sort == RTS && typeName(to) != "reflect.Type" {
		// a reflect.Type stored in another interface type (e.g. as a fmt argument)
		return &IfaceVal{[]Alt{{Cond: x.c.T, Op: x.c.App("iface.ofrt", IfS, t)}}}
	}
	return v
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) (Val, bool) {
	c := x.c
	iv, ok := x.get(fr, st, in.X).(*IfaceVal)
	if !ok {
		unsup("type assertion on %T", x.get(fr, st, in.X))
	}
	to := in.AssertedType
	isI := types.IsInterface(to)
	var alts []Alt
	var oks []*Term
	var val Val
	for _, a := range iv.Alts {
		switch {
		case a.T == nil && a.Op == nil:
		case a.T != nil:
			if isI {
				if types.Implements(a.T, to.Underlying().(*types.Interface)) {
					alts = append(alts, a)
					oks = append(oks, a.Cond)
				}
			} else if types.Identical(a.T, to) {
				oks = append(oks, a.Cond)
				if val == nil {
					val = a.V
				} else {
					val = x.ite(a.Cond, a.V, val)
				}
			}
		default:
			k := x.implements(st, a.Op, to)
			if isI {
				alts = append(alts, Alt{Cond: c.And(a.Cond, k), Op: a.Op})
				oks = append(oks, c.And(a.Cond, k))
			} else {
				v := x.opaqueConcrete(st, a.Op, to)
				oks = append(oks, c.And(a.Cond, k))
				if val == nil {
					val = v
				} else {
					val = x.ite(a.Cond, v, val)
				}
			}
		}
	}
	okT := c.Or(oks...)
	if isI {
		alts = append(alts, Alt{Cond: c.Not(okT)})
		val = x.mkIface(alts)
	} else if val == nil {
		val = x.zero(st, to)
	} else if okT != c.T {
		z := x.zero(st, to)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(Unsupported); !ok {
						panic(e)
					}
				}
			}()
			val = x.ite(okT, val, z)
		}()
	}
	if in.CommaOk {
		return TupleVal{val, okT}, false
	}
	if !x.guard(fr, st, okT, "failed type assertion in "+fr.fn.String()) {
		return nil, true
	}
	return val, false
}
func (x *Exec) implements(st *State, op *Term, to types.Type) *Term {
	return x.c.App("is:"+to.String(), BoolS, op)
}
func (x *Exec) opaqueConcrete(st *State, op *Term, to types.Type) Val {
	return x.mkSym(st, to, "as:"+to.String(), op)
}

func (x *Exec) convert(fr *Frame, st *State, v Val, from, to types.Type) (Val, bool) {
	c := x.c
	if typeName(from) == x.binPath+".Seq" && typeName(to) != x.binPath+".Seq" {
		unsup("conversion from Seq")
	}
	fw, fs, fi := x.intInfo(from)
	tw, _, ti := x.intInfo(to)
	if fi && ti {
		t := v.(*Term)
		switch {
		case tw <= fw:
			return c.Extract(t, tw-1, 0), false
		case fs:
			return c.SExt(t, tw), false
		default:
			return c.ZExt(t, tw), false
		}
	}
	ff, tf := isFloat(from), isFloat(to)
	if ff > 0 && tf > 0 {
		return x.floatConv(v.(*Term), ff, tf), false
	}
	if fi && tf > 0 {
		t := v.(*Term)
		n := "int2f"
		if !fs {
			n = "uint2f"
		}
		return c.App(fmt.Sprintf("%s:%d:%d", n, fw, tf), BV(tf), t), false
	}
	if ff > 0 && ti {
		return c.App(fmt.Sprintf("f2int:%d:%s", ff, to), BV(tw), v.(*Term)), false
	}
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	if isStr(to) {
		switch s := v.(type) {
		case *SliceVal:
			if w, _, ok := x.intInfo(s.Elem); ok && w == 8 {
				r := &StrVal{A: x.arrOf(st, s), Off: s.Off, Len: s.Len}
				if q, ok := r.A.(*ASeq); ok {
					_ = q
				}
				if t := x.atomOf(r); t != nil {
					r.Atom = t
					if isStrLit(t) {
						return x.strLit(strings.TrimPrefix(t.name, "lit:")), false
					}
				}
				if a, ok := r.A.(*AStrAtom); ok && r.Off.isC(0) && r.Len == c.App("str.len", BV(64), a.T) {
					r.Atom = a.T
				}
				return r, false
			}
			return x.strOfRunes(st, s), false
		case *Term:
			return x.strOfRune(st, s), false
		case *StrVal:
			return s, false
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isStr(from) {
		if w, _, ok := x.intInfo(sl.Elem()); ok && w == 32 {
			x.scratch = st
			str := v.(*StrVal)
			a := x.scal(str)
			n := c.App("str.runes.len", BV(64), a)
			st.assume(c.Ule(n, str.Len))
			x.trusted["range over a string yields its runes in order, at most one per byte"] = true
			o := x.newObj(st, &ArrayVal{sl.Elem(), &ABase{"str.rune", []*Term{a}, sl.Elem()}})
			return &SliceVal{Nil: c.F, Obj: o, Off: c.Const(64, 0), Len: n, Cap: n, Elem: sl.Elem()}, false
		}
	}
	if isStr(from) {
		s := v.(*StrVal)
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if w, _, ok := x.intInfo(sl.Elem()); ok && w == 8 {
				a := s.A
				off := s.Off
				if e, ok := a.(*AExp); ok && off.isConst() && s.Len.isConst() {
					a = &AExp{e.E[off.n : off.n+s.Len.n]}
					off = c.Const(64, 0)
				}
				o := x.newObj(st, &ArrayVal{sl.Elem(), a})
				return &SliceVal{Nil: c.F, Obj: o, Off: off, Len: s.Len, Cap: s.Len, Elem: sl.Elem()}, false
			}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x.retype(v, to), false
	}
	if _, ok := v.(*PtrVal); ok {
		unsup("unsafe pointer conversion in %s", fr.fn)
	}
	unsup("conversion %s to %s", from, to)
	return nil, true
}

func (x *Exec) strCat(st *State, a, b *StrVal) Val {
	c := x.c
	if a.Lit != nil && b.Lit != nil {
		return x.strLit(*a.Lit + *b.Lit)
	}
	if a.Len.isC(0) {
		return b
	}
	if b.Len.isC(0) {
		return a
	}
	x.scratch = st
	s := x.cat(x.seqSlice(a.A, a.Off, a.Len), x.seqSlice(b.A, b.Off, b.Len))
	r := &StrVal{A: &ASeq{s}, Off: c.Const(64, 0), Len: c.Add(a.Len, b.Len)}
	if ta, tb := x.atomOf(a), x.atomOf(b); ta != nil && tb != nil {
		r.Atom = c.App("str.cat", StrS, ta, tb)
	}
	return r
}
func (x *Exec) strLess(a, b *StrVal) *Term {
	if a.Lit != nil && b.Lit != nil {
		return x.c.Bool(*a.Lit < *b.Lit)
	}
	ta, tb := x.atomOf(a), x.atomOf(b)
	if ta == nil || tb == nil {
		unsup("ordering of strings")
	}
	return x.c.App("str.less", BoolS, ta, tb)
}

// forkAt counts path splits per place (VERIF_DEBUG=forks).
func (x *Exec) forkAt(fr *Frame, in ssa.Instruction) {
	if x.forks == nil {
		return
	}
	k := fr.fn.Name() + " " + in.String()
	if p := in.Pos(); p.IsValid() {
		k += " " + x.prog.prog.Fset.Position(p).String()
	}
	if i, ok := in.(*ssa.If); ok {
		k += " cond " + i.Cond.String()
	}
	x.forks[k]++
}
