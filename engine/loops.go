package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops with a symbolic trip count are summarised, not unrolled.
//
// For a counted loop (a phi with step 1 compared with a loop-invariant bound) the engine finds the components of the state
// that an iteration changes and describes each of them as a function of the iteration number q: a linear or summed
// recurrence, an array filled up to q, a sequence extended by one body per iteration, or, when no closed form is found, an
// uninterpreted function of q (a "fold", named canonically by its initial value and step so that the same recurrence in
// code and specification is the same function). The body is then executed once from the state of an arbitrary iteration q;
// every description is re-derived from that execution, so a description that is not inductive is discarded. Exits continue
// from the state at q (breaks, returns) or at the trip count (normal exit).

type recDef struct {
	name  string
	init  *Term
	step  *Term // in terms of ps (state) and pq (iteration)
	ps    *Term
	pq    *Term
	trip  *Term
	entry []*Term
}

type lcomp struct {
	id    string
	t     types.Type
	get   func(fr *Frame, st *State) Val
	set   func(fr *Frame, st *State, v Val)
	entry Val
	start Val // representation at iteration q
	kind  int
	delta string // key of the derived step, to detect stability
	next  Val    // representation at q+1 (closed forms)
	tries int
	no    int
}

const (
	lkSym = iota
	lkClosed
	lkFold
	lkHavoc
)

func (x *Exec) loopPhi(lp *Loop, fr *Frame) (*ssa.Phi, *ssa.If, int64) {
	b := lp.head
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, 0
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, 0
	}
	switch cond.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ, token.NEQ, token.EQL:
	default:
		return nil, nil, 0
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		good := true
		var step int64
		for k, e := range p.Edges {
			if !lp.blocks[b.Preds[k]] {
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || !(bo.Op == token.ADD && (bo.X == p || bo.Y == p) || bo.Op == token.SUB && bo.X == p) {
				good = false
				break
			}
			o := bo.Y
			if bo.Y == p {
				o = bo.X
			}
			k, ok := o.(*ssa.Const)
			if !ok || k.Value == nil {
				good = false
				break
			}
			d := k.Int64()
			if bo.Op == token.SUB {
				d = -d
			}
			if d != 1 && d != -1 || step != 0 && step != d {
				good = false
				break
			}
			step = d
		}
		if !good {
			continue
		}
		if step != 0 && (usesPhi(cond.X, p) || usesPhi(cond.Y, p)) {
			return p, iff, step
		}
	}
	return nil, nil, 0
}

// usesPhi: v is the counter, or the counter and something added to it.
func usesPhi(v ssa.Value, p *ssa.Phi) bool {
	if v == p {
		return true
	}
	bo, ok := v.(*ssa.BinOp)
	return ok && (bo.Op == token.ADD && (bo.X == p || bo.Y == p) || bo.Op == token.SUB && bo.X == p)
}

// enterLoop summarises the loop if its trip count is symbolic; it then also runs everything after it and returns true.
func (x *Exec) enterLoop(fr *Frame, lp *Loop, prev *ssa.BasicBlock, st *State) bool {
	c := x.c
	if x.initMode {
		return false
	}
	phi, iff, step := x.loopPhi(lp, fr)
	if x.ghost == 0 && x.virt[lp.head] {
		return x.enterVirtual(fr, lp, prev, st)
	}
	if phi == nil {
		return x.enterIterLoop(fr, lp, prev, st)
	}
	if x.earlyBound(lp, phi) {
		return false
	}
	// entry values
	fe, se := fr.clone(), st.clone()
	x.phis(fe, lp.head, prev, se)
	i0, ok := fe.env[phi].(*Term)
	if !ok {
		return false
	}
	// evaluate the header once
	k0, lhs0, bound0, ok := x.headerCond(fe, se, lp, phi, iff)
	if !ok || k0 == nil {
		return false
	}
	if k := x.simp(st, k0); k == c.F && lp.blocks[lp.head.Succs[0]] || k == c.T && !lp.blocks[lp.head.Succs[0]] {
		return false
	}
	cond := iff.Cond.(*ssa.BinOp)
	// trip count
	var trip *Term
	swap := lhs0 == 1
	op := cond.Op
	if swap {
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if bound0 == nil || bound0.sort.w != 64 {
		return false
	}
	lv0 := x.condLHS(fe, se, lp, phi, iff, swap)
	if !lp.blocks[lp.head.Succs[0]] { // the condition is for leaving the loop
		k0 = c.Not(k0)
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	up, dn := bound0, lv0 // the counter runs from dn to up, or the other way
	if step < 0 {
		up, dn = lv0, bound0
		switch op {
		case token.LSS, token.LEQ:
			return false
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	switch op {
	case token.LSS, token.NEQ:
		trip = c.Sub(up, dn)
	case token.LEQ:
		trip = c.AddC(c.Sub(up, dn), 1)
	default:
		return false
	}
	if x.simp(st, trip).isConst() {
		return false
	}
	if op == token.NEQ && !x.valid(st, c.Sle(dn, up)) {
		return false
	}
	x.loopNo++
	x.summarise(fr, lp, prev, st, fe, phi, i0, trip, step, k0)
	return true
}

// earlyBound: inside the loop the counter is compared with a small constant and the loop left, so unrolling it is finite.
func (x *Exec) earlyBound(lp *Loop, phi *ssa.Phi) bool {
	for b := range lp.blocks {
		if b == lp.head || len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || lp.blocks[b.Succs[0]] && lp.blocks[b.Succs[1]] {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		isL := func(v ssa.Value) bool { return usesPhi(v, phi) }
		k, ok := bo.Y.(*ssa.Const)
		if !ok || !isL(bo.X) || k.Value == nil {
			continue
		}
		if n := k.Int64(); n > 0 && n <= 64 {
			switch bo.Op {
			case token.EQL, token.GEQ, token.GTR, token.NEQ, token.LSS, token.LEQ:
				return true
			}
		}
	}
	return false
}

// headerCond executes the header (after its phis) on a scratch copy and returns its condition, which side holds the
// counter (0 left, 1 right) and the bound.
func (x *Exec) headerCond(fe *Frame, se *State, lp *Loop, phi *ssa.Phi, iff *ssa.If) (*Term, int, *Term, bool) {
	f, s := fe.clone(), se.clone()
	ok := x.straight(f, s, lp.head)
	if !ok {
		return nil, 0, nil, false
	}
	cond := iff.Cond.(*ssa.BinOp)
	k, _ := x.get(f, s, cond).(*Term)
	isL := func(v ssa.Value) bool { return usesPhi(v, phi) }
	if isL(cond.X) {
		b, _ := x.get(f, s, cond.Y).(*Term)
		return k, 0, b, true
	}
	b, _ := x.get(f, s, cond.X).(*Term)
	return k, 1, b, true
}
func (x *Exec) condLHS(fe *Frame, se *State, lp *Loop, phi *ssa.Phi, iff *ssa.If, swap bool) *Term {
	f, s := fe.clone(), se.clone()
	x.straight(f, s, lp.head)
	cond := iff.Cond.(*ssa.BinOp)
	v := cond.X
	if swap {
		v = cond.Y
	}
	return x.get(f, s, v).(*Term)
}

// straight executes the non-phi, non-branching instructions of a block; false if one of them forks or fails.
func (x *Exec) straight(f *Frame, s *State, b *ssa.BasicBlock) bool {
	x.inferring++
	defer func() { x.inferring-- }()
	good := true
	var dummy []Outcome
	f.outs = &dummy
	x.try(func() {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Phi, *ssa.If, *ssa.DebugRef:
			case *ssa.Call:
				outs := x.bindCall(f, s, v.Common())(s)
				if len(outs) != 1 || outs[0].kind != ORet {
					good = false
					return
				}
				if outs[0].st != s {
					*s = *outs[0].st
				}
				switch len(outs[0].vals) {
				case 0:
				case 1:
					f.env[v] = outs[0].vals[0]
				default:
					f.env[v] = TupleVal(outs[0].vals)
				}
			case ssa.Value:
				r, dead := x.eval(f, s, v)
				if dead {
					good = false
					return
				}
				f.env[v] = r
			default:
				good = false
				return
			}
		}
	})
	return good && len(dummy) == 0
}

func (x *Exec) components(lp *Loop, phi *ssa.Phi, fe *Frame, st *State) []*lcomp {
	var cs []*lcomp
	for _, in := range lp.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p == phi {
			continue
		}
		p2 := p
		cs = append(cs, &lcomp{id: "phi:" + p.Name(), t: p.Type(), entry: fe.env[p],
			get: func(fr *Frame, st *State) Val { return fr.env[p2] },
			set: func(fr *Frame, st *State, v Val) { fr.env[p2] = v }})
	}
	var walk func(id int, path []PE, v Val, t types.Type)
	walk = func(id int, path []PE, v Val, t types.Type) {
		if sv, ok := v.(*StructVal); ok && len(sv.F) > 0 {
			if tt, ok := sv.T.Underlying().(*types.Struct); ok {
				for i := range sv.F {
					walk(id, addPE(path, PE{F: i}), sv.F[i], tt.Field(i).Type())
				}
				return
			}
		}
		pp := path
		cs = append(cs, &lcomp{id: fmt.Sprintf("h%d%v", id, pathStr(pp)), t: t, entry: v,
			get: func(fr *Frame, st *State) Val { return x.loadPath(st, st.heap[id], pp) },
			set: func(fr *Frame, st *State, v Val) { st.heap[id] = x.storePath(st, st.heap[id], pp, v) }})
	}
	for _, id := range sortedKeys(st.heap) {
		walk(id, nil, st.heap[id], nil)
	}
	var ks []string
	for k := range st.ghost {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		k := k
		w := st.ghost[k]
		cs = append(cs, &lcomp{id: "w:" + k + ".out", entry: w.Out,
			get: func(fr *Frame, st *State) Val { return st.ghost[k].Out },
			set: func(fr *Frame, st *State, v Val) {
				o := st.ghost[k]
				st.ghost[k] = &WState{v.(*SeqVal), o.Handed, o.Failed}
			}},
			&lcomp{id: "w:" + k + ".handed", entry: w.Handed,
				get: func(fr *Frame, st *State) Val { return st.ghost[k].Handed },
				set: func(fr *Frame, st *State, v Val) {
					o := st.ghost[k]
					st.ghost[k] = &WState{o.Out, v.(*Term), o.Failed}
				}},
			&lcomp{id: "w:" + k + ".failed", entry: w.Failed,
				get: func(fr *Frame, st *State) Val { return st.ghost[k].Failed },
				set: func(fr *Frame, st *State, v Val) {
					o := st.ghost[k]
					st.ghost[k] = &WState{o.Out, o.Handed, v.(*Term)}
				}})
	}
	return cs
}
func pathStr(p []PE) string {
	s := ""
	for _, e := range p {
		if e.I != nil {
			s += fmt.Sprintf("[%d]", e.I.id)
		} else {
			s += fmt.Sprintf(".%d", e.F)
		}
	}
	return s
}

func (x *Exec) summarise(fr *Frame, lp *Loop, prev *ssa.BasicBlock, st *State, fe *Frame, phi *ssa.Phi, i0, trip *Term, step int64, k0 *Term) {
	c := x.c
	no := x.loopNo
	zero := c.Const(64, 0)
	neg := c.F
	// the loop may not run at all because the bound is below the start
	if trip != nil {
		neg = c.Slt(trip, zero)
	}
	if trip != nil && phi != nil && !x.nonneg(trip) && x.feasible(st, neg) {
		s0, f0 := st.clone(), fr.clone()
		s0.assume(neg)
		x.paths++
		// header evaluates to false here; execute it plainly
		x.phis(f0, lp.head, prev, s0)
		f0.visits[lp.head] = 1
		f0.phiDone = lp.head
		i := x.phis(f0, lp.head, prev, s0)
		nb, s1, ok := x.exec(f0, lp.head, i, s0)
		if ok {
			x.run(f0, nb, lp.head, s1)
		}
	}
	st.assume(c.Not(neg))
	if !x.feasible(st, c.T) {
		return
	}
	if trip != nil {
		st.assume(c.Ult(trip, c.Const(64, 1<<48)))
	}
	q := c.Var(fmt.Sprintf("q%d.len", no), BV(64))
	mark := len(c.all)
	ndef := len(fr.defers)
	comps := x.components(lp, phi, fe, st)
	for _, k := range comps {
		k.no = no
	}
	changed := map[string]*lcomp{}
	var order []*lcomp
	var invs []loopInv
	var prevFacts *Term // for loops without a counter: what the iteration before has established
	head := func() (*Frame, *State) {
		f, s := fe.clone(), st.clone()
		if trip != nil {
			if phi != nil {
				f.env[phi] = c.Add(i0, q)
				if step < 0 {
					f.env[phi] = c.Sub(i0, q)
				}
			}
			s.assume(c.Ule(q, trip))
		}
		if prevFacts != nil {
			s.assume(c.Or(c.Eq(q, zero), c.Subst(prevFacts, map[*Term]*Term{q: c.AddC(q, ^uint64(0))})))
		}
		for _, k := range order {
			k.set(f, s, k.start)
		}
		for _, v := range invs {
			if t := v(f, s, q); t != nil {
				s.assume(t)
			}
		}
		return f, s
	}
	invs = x.loopInvs(fr, lp, fe, st)
	ordered, loose := map[string]bool{}, map[string]*lcomp{}
	// one iteration, from the header to the back edge
	type exit struct {
		f    *Frame
		s    *State
		prev *ssa.BasicBlock
		to   *ssa.BasicBlock
	}
	iterate := func(final bool) (arrs []arrival, base *State, basef *Frame) {
		f, s := head()
		base, basef = s.clone(), f.clone()
		orig := fr.stop
		stops := map[*ssa.BasicBlock]func(*Frame, *ssa.BasicBlock, *State){}
		for k, v := range orig {
			if !lp.blocks[k] {
				stops[k] = v
			}
		}
		stops[lp.head] = func(f2 *Frame, p *ssa.BasicBlock, s2 *State) {
			f2.stop = orig
			arrs = append(arrs, arrival{p, s2, f2})
		}
		for b := range lp.blocks {
			for _, sc := range b.Succs {
				if lp.blocks[sc] || stops[sc] != nil && orig[sc] == nil {
					continue
				}
				sc := sc
				stops[sc] = func(f2 *Frame, p *ssa.BasicBlock, s2 *State) {
					if !final {
						return
					}
					f2.stop = orig
					if p == lp.head && trip != nil {
						// normal exit: q is the trip count
						m := map[*Term]*Term{q: trip}
						x.substState(f2, s2, m)
					}
					pd := f2.phiDone
					if pd == sc {
						x.resume(f2, sc, p, s2)
						return
					}
					x.run(f2, sc, p, s2)
				}
			}
		}
		f.stop = stops
		var dummy []Outcome
		if !final {
			f.outs = &dummy
		}
		f.visits[lp.head] = 1
		f.phiDone = lp.head
		i := x.phis(f, lp.head, prev, s)
		nb, s1, ok := x.exec(f, lp.head, i, s)
		if ok {
			x.run(f, nb, lp.head, s1)
		}
		return
	}
	if !x.feasible(st, c.Not(neg)) {
		return
	}
	var facts *Term
	for round := 0; ; round++ {
		if round > 14 {
			unsup("loop in %s: no inductive description found", fr.fn.Name())
		}
		x.inferring++
		arrs, base, basef := func() ([]arrival, *State, *Frame) {
			defer func() { x.inferring-- }()
			return iterate(false)
		}()
		if len(arrs) == 0 {
			break // the body never comes back
		}
		var end *arrival
		// invariants that an iteration does not keep are dropped
		var kept []loopInv
		for _, v := range invs {
			ok := true
			for _, a := range arrs {
				f2, s2 := a.fr.clone(), a.st.clone()
				x.phis(f2, lp.head, a.prev, s2)
				if t := v(f2, s2, c.AddC(q, 1)); t == nil || !x.valid(s2, t) {
					ok = false
					if x.debugInv {
						fmt.Println("INV dropped in", fr.fn.Name(), t)
						for _, p := range s2.pc[len(st.pc):] {
							fmt.Println("     ", p)
						}
					}
					break
				}
			}
			if ok {
				kept = append(kept, v)
			}
		}
		if len(kept) < len(invs) {
			invs = kept
			continue
		}
		facts = x.iterFacts(base, arrs, mark, q)
		if len(arrs) == 1 {
			a := arrs[0]
			x.phis(a.fr, lp.head, a.prev, a.st)
			end = &a
		} else {
			end = x.mergeLoop(base, basef, lp.head, arrs, mark, q)
			if end == nil {
				unsup("loop in %s: iterations cannot be merged", fr.fn.Name())
			}
		}
		if len(end.fr.defers) != ndef {
			unsup("defer inside a loop")
		}
		x.loopEnd = x.rw(end.st)
		again := false
		// newly changed components
		for _, k := range comps {
			if changed[k.id] != nil {
				continue
			}
			e := k.get(end.fr, end.st)
			if e == k.entry || x.valKey(e) == x.valKey(k.entry) {
				continue
			}
			changed[k.id] = k
			order = append(order, k)
			k.kind = lkSym
			k.start = x.symAt(st, k, e, no, q)
			again = true
		}
		if again {
			if phi == nil {
				invs = append(invs, x.orderInvs(fe, st, comps, changed, ordered)...)
			}
			continue
		}
		for _, k := range order {
			if k.kind == lkHavoc {
				continue
			}
			e := k.get(end.fr, end.st)
			rep, next, dk := Val(nil), Val(nil), ""
			if _, ok := k.entry.(*RWVal); ok || trip != nil {
				if !x.try(func() {
					rep, next, dk = x.closedForm(st, k, e, q, mark, trip)
					// inside another loop some forms cannot be expressed; they are noticed here
					switch r := rep.(type) {
					case *SeqVal:
						x.seqLen(r)
					case *BufVal:
						x.seqLen(r.S)
					}
				}) {
					rep, next, dk = nil, nil, ""
				}
			}
			if dk != "" && dk == k.delta && k.kind != lkSym {
				continue // stable
			}
			k.tries++
			if dk == "" || k.tries > 4 {
				if k.kind == lkHavoc {
					continue
				}
				k.kind = lkHavoc
				k.delta = ""
				k.start = x.symAt(st, k, e, no, q)
				again = true
				loose[k.id] = k
				continue
			}
			k.kind, k.delta, k.start, k.next = lkClosed, dk, rep, next
			if strings.HasPrefix(dk, "fold:") {
				loose[k.id] = k
			}
			again = true
		}
		if !again {
			break
		}
		if phi != nil && len(loose) > 0 && trip != nil {
			// integers without a simple closed form, compared with the counter
			cnt := &lcomp{id: "counter", t: phi.Type(), entry: i0, get: func(f *Frame, s *State) Val { return f.env[phi] }}
			loose[cnt.id] = cnt
			invs = append(invs, x.orderInvs(fe, st, append([]*lcomp{cnt}, comps...), loose, ordered)...)
		}
	}
	// the inductive step is established; run the body with obligations, and everything that follows the loop
	if trip != nil && facts != nil && facts != c.T {
		// every completed iteration satisfied these
		st.foralls = append(st.foralls[:len(st.foralls):len(st.foralls)], &Forall{N: q, Var: q, Body: facts})
	}
	if phi == nil && trip != nil && facts != c.T {
		prevFacts = facts
	}
	iterate(true)
}

// enterVirtual summarises a loop that has no counter: the number of iterations is some unknown number.
func (x *Exec) enterVirtual(fr *Frame, lp *Loop, prev *ssa.BasicBlock, st *State) bool {
	fe, se := fr.clone(), st.clone()
	x.phis(fe, lp.head, prev, se)
	x.loopNo++
	x.trusted["termination of the loop without a counter in "+shortName(fr.fn)+" is not proved"] = true
	x.summarise(fr, lp, prev, st, fe, nil, nil, x.c.Fresh("trips.len", BV(64)), 1, nil)
	return true
}

// iterFacts: what an iteration that came back to the loop header has established about the iteration number.
func (x *Exec) iterFacts(base *State, arrs []arrival, mark int, q *Term) *Term {
	n := len(base.pc)
	var ds []*Term
	for _, a := range arrs {
		if len(a.st.pc) < n {
			return nil
		}
		var r []*Term
		for _, t := range a.st.pc[n:] {
			if x.okDelta(t, mark, q) {
				r = append(r, t)
			}
		}
		ds = append(ds, x.c.And(r...))
	}
	return x.c.Or(ds...)
}

// symAt is an unknown value for component k at iteration q.
func (x *Exec) symAt(st *State, k *lcomp, like Val, no int, q *Term) Val {
	c := x.c
	name := fmt.Sprintf("hv%d:%s", no, k.id)
	switch v := k.entry.(type) {
	case *RWVal:
		r, _ := x.widenRW(st, v, like.(*RWVal), no, q, -1)
		return r
	case *Term:
		if l, ok := like.(*Term); ok && v.sort == RVS {
			w := x.loopEnd
			if r := x.oneRoot(w, v); r != nil && x.rootIs(w, l, r) {
				return c.App("rv.reach", RVS, r, c.App(name+":r", BV(64), q))
			}
		}
		return c.App(name, v.sort, q)
	case *SeqVal:
		return x.seqApp(c.App(name, SeqS, q))
	case *StrVal:
		return x.strAtom(st, c.App(name, StrS, q))
	case *ArrayVal:
		return &ArrayVal{v.Elem, &ABase{name, []*Term{q}, v.Elem}}
	case *MapC:
		return &MapC{c.App(name, MapS, q), v.K, v.E}
	case *BufVal:
		return &BufVal{x.seqApp(c.App(name, SeqS, q))}
	case *IfaceVal:
		if be := x.orderTerm(v); be != nil {
			if lv, ok := like.(*IfaceVal); ok && x.orderTerm(lv) != nil {
				return x.orderVal(c.F, c.App(name, BoolS, q))
			}
		}
	}
	if k.t != nil {
		return x.mkSym(st, k.t, name+fmt.Sprintf("~%d", x.c.fresh["hvn"]))
	}
	return x.havoc(st, k.entry, name)
}

// orderTerm is the "is big endian" condition of a byte order known not to be nil.
func (x *Exec) orderTerm(v *IfaceVal) *Term {
	var be []*Term
	for _, a := range v.Alts {
		switch {
		case a.T != nil && a.T == x.beType:
			be = append(be, a.Cond)
		case a.T != nil && a.T == x.leType:
		default:
			return nil
		}
	}
	return x.c.Or(be...)
}

// okDelta: the term only depends on the iteration number and on what existed before the loop.
func (x *Exec) okDelta(v interface{}, mark int, q *Term) bool {
	ok := true
	seen := map[*Term]bool{}
	var chk func(t *Term)
	chk = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if t == q {
			return
		}
		if t.op == OVar && t.id >= mark && !strings.HasPrefix(t.name, "?") {
			if strings.Contains(t.name, "!") { // created by Fresh
				ok = false
				return
			}
		}
		for _, a := range t.args {
			chk(a)
		}
	}
	x.termsOf(v, chk)
	return ok
}

// closedForm describes component k, whose value goes from k.start (at q) to e (at q+1).
func (x *Exec) closedForm(st *State, k *lcomp, e Val, q *Term, mark int, trip *Term) (rep, next Val, key string) {
	c := x.c
	if rw, ok := k.entry.(*RWVal); ok {
		r, key := x.widenRW(st, rw, e.(*RWVal), k.no, q, mark)
		return r, nil, key
	}
	if !x.okDelta(e, mark, q) {
		return nil, nil, ""
	}
	if t, ok := k.entry.(*Term); ok && t.sort == RVS {
		if t == e {
			return t, t, "same"
		}
		return nil, nil, ""
	}
	fold := func(entry, start, end *Term) (*Term, string) {
		// value(q) = F(q), F(0) = entry, F(q+1) = step(F(q), q)
		ps, pq := c.Var("?state:"+sortTag(start.sort), start.sort), c.Var("?iter", BV(64))
		step := c.Subst(end, map[*Term]*Term{start: ps})
		step = c.Subst(step, map[*Term]*Term{q: pq})
		d := x.foldFor(st, entry, step, ps, pq, trip)
		return c.App(d.name, start.sort, q), fmt.Sprintf("fold:%s", d.name)
	}
	switch s := k.start.(type) {
	case *Term:
		et, ok := e.(*Term)
		if !ok {
			return nil, nil, ""
		}
		entry := k.entry.(*Term)
		if et == s {
			return entry, entry, "same"
		}
		if s.sort.w >= 8 {
			d := x.deltaOf(et, s)
			if !d.contains(s) {
				if !d.contains(q) {
					var n *Term
					if s.sort.w == 64 {
						n = q
					} else {
						n = c.Extract(q, s.sort.w-1, 0)
					}
					return c.Add(entry, c.Mul(n, d)), nil, fmt.Sprintf("lin:%d", d.id)
				}
				if s.sort.w == 64 {
					return c.Add(entry, x.sumTerm(d, q, q)), nil, fmt.Sprintf("sum:%d", d.id)
				}
			}
		}
		if k.kind == lkClosed && !strings.HasPrefix(k.delta, "fold:") {
			return nil, nil, ""
		}
		r, key := fold(entry, s, et)
		return r, nil, key
	case *SeqVal:
		es := e.(*SeqVal)
		d, ok := x.seqSuffix(s, es)
		if !ok || x.mentions(d, s) {
			return nil, nil, ""
		}
		return x.cat(k.entry.(*SeqVal), &SeqVal{[]Chunk{&CRep{N: q, Var: q, Body: d}}}), nil, "rep:" + x.valKey(d)
	case *BufVal:
		es := e.(*BufVal)
		d, ok := x.seqSuffix(s.S, es.S)
		if !ok || x.mentions(d, s.S) {
			return nil, nil, ""
		}
		return &BufVal{x.cat(k.entry.(*BufVal).S, &SeqVal{[]Chunk{&CRep{N: q, Var: q, Body: d}}})}, nil, "rep:" + x.valKey(d)
	case *StrVal:
		es, ok := e.(*StrVal)
		if !ok {
			return nil, nil, ""
		}
		x.scratch = st
		a, b, en := x.scal(s), x.scal(es), x.scal(k.entry)
		if a == b {
			return k.entry, nil, "same"
		}
		r, key := fold(en, a, b)
		return x.strAtom(st, r), nil, key
	case *MapC:
		es := e.(*MapC)
		if es.T == s.T {
			return k.entry, nil, "same"
		}
		r, key := fold(k.entry.(*MapC).T, s.T, es.T)
		return &MapC{r, s.K, s.E}, nil, key
	case *IfaceVal:
		ev, ok := e.(*IfaceVal)
		if !ok {
			return nil, nil, ""
		}
		a, b, en := x.orderTerm(s), x.orderTerm(ev), x.orderTerm(k.entry.(*IfaceVal))
		if a == nil || b == nil || en == nil {
			return nil, nil, ""
		}
		if a == b {
			return k.entry, nil, "same"
		}
		r, key := fold(en, a, b)
		return x.orderVal(c.F, r), nil, key
	case *ArrayVal:
		ev := e.(*ArrayVal)
		// stores at consecutive positions affine in q
		type stv struct {
			i *Term
			v Val
		}
		var ss []stv
		a := ev.A
		for {
			sto, ok := a.(*AStore)
			if !ok {
				break
			}
			ss = append(ss, stv{sto.I, sto.V})
			a = sto.P
		}
		if len(ss) == 0 || x.valKey(a) != x.valKey(s.A) {
			return nil, nil, ""
		}
		if k.kind == lkClosed {
			// written on top of the previous description: compare the element writes only
		}
		K := len(ss)
		sort.SliceStable(ss, func(i, j int) bool {
			d := c.Sub(ss[j].i, ss[i].i)
			return d.isConst() && int64(d.n) > 0
		})
		lo := c.Subst(ss[0].i, map[*Term]*Term{q: c.Const(64, 0)})
		var body []Val
		for r, sv := range ss {
			want := c.AddC(c.Add(lo, c.Mul(q, c.Const(64, uint64(K)))), uint64(r))
			if sv.i != want {
				return nil, nil, ""
			}
			if x.mentionsArr(sv.v, s.A) {
				return nil, nil, ""
			}
			body = append(body, sv.v)
		}
		key := "lam:" + x.valKey(&ALam{nil, lo, c.Const(64, 0), K, q, body})
		return &ArrayVal{s.Elem, &ALam{P: k.entry.(*ArrayVal).A, Lo: lo, N: q, K: K, Var: q, Body: body}}, nil, key
	}
	return nil, nil, ""
}

// deltaOf is e - s, taken inside the branches of a conditional.
func (x *Exec) deltaOf(e, s *Term) *Term {
	if e.op == OIte && e.contains(s) && !e.args[0].contains(s) {
		return x.c.Ite(e.args[0], x.deltaOf(e.args[1], s), x.deltaOf(e.args[2], s))
	}
	return x.c.Sub(e, s)
}

// mentions: does the delta depend on the symbol standing for the component's own start value?
func (x *Exec) mentions(d *SeqVal, s *SeqVal) bool {
	own := map[*Term]bool{}
	for _, ch := range s.C {
		if a, ok := ch.(*CApp); ok && strings.HasPrefix(a.T.name, "hv") {
			own[a.T] = true
		}
	}
	r := false
	x.termsOf(d, func(t *Term) {
		for o := range own {
			if t.contains(o) {
				r = true
			}
		}
	})
	return r
}
func (x *Exec) mentionsArr(v Val, a Arr) bool {
	b, ok := a.(*ABase)
	if !ok {
		return false
	}
	r := false
	x.termsOf(v, func(t *Term) {
		if t.symset()[b.Name] {
			r = true
		}
	})
	return r
}

// seqSuffix splits e = s ++ d.
func (x *Exec) seqSuffix(s, e *SeqVal) (*SeqVal, bool) {
	if len(e.C) == len(s.C) && x.valKey(e) == x.valKey(s) {
		return &SeqVal{}, true
	}
	i := 0
	for ; i < len(s.C); i++ {
		if i >= len(e.C) {
			return nil, false
		}
		if x.valKey(s.C[i]) == x.valKey(e.C[i]) {
			continue
		}
		// the last byte chunk of s may have been extended
		sb, ok1 := s.C[i].(*CBytes)
		eb, ok2 := e.C[i].(*CBytes)
		if i == len(s.C)-1 && ok1 && ok2 && len(eb.B) >= len(sb.B) {
			for j := range sb.B {
				if sb.B[j] != eb.B[j] {
					return nil, false
				}
			}
			return x.cat(&SeqVal{[]Chunk{&CBytes{eb.B[len(sb.B):]}}}, &SeqVal{e.C[i+1:]}), true
		}
		// a conditional extension: both branches extend s[i:]
		if it, ok := e.C[i].(*CIte); ok {
			rest := &SeqVal{s.C[i:]}
			tail := &SeqVal{e.C[i+1:]}
			da, ok1 := x.seqSuffix(rest, x.cat(it.A, tail))
			db, ok2 := x.seqSuffix(rest, x.cat(it.B, tail))
			if ok1 && ok2 {
				return x.seqIte(it.C, da, db), true
			}
		}
		return nil, false
	}
	return &SeqVal{e.C[i:]}, true
}

// foldFor names the recurrence F(0)=init, F(q+1)=step(F(q),q); equal recurrences get equal names.
func (x *Exec) foldFor(st *State, init, step, ps, pq, trip *Term) *recDef {
	c := x.c
	x.noLoopVar(init, step)
	var keys []string
	for k := range x.recs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		d := x.recs[k]
		if d.init == init && d.step == step && d.ps == ps {
			return d
		}
	}
	for _, k := range keys {
		d := x.recs[k]
		if d.ps != ps || d.trip != trip || d.init.sort != init.sort {
			continue
		}
		s2 := st.clone()
		s2.assume(c.Ult(pq, trip))
		x.instantiate(s2, pq)
		if x.valid(st, c.Eq(d.init, init)) && x.valid(s2, c.Eq(d.step, step)) {
			return d
		}
	}
	if x.forks != nil {
		fmt.Println("FOLD", len(x.recs), init, "\n   ", step)
	}
	d := &recDef{name: fmt.Sprintf("fold%d", len(x.recs)), init: init, step: step, ps: ps, pq: pq, trip: trip}
	x.recs[d.name] = d
	return d
}

// mergeLoop joins the ways an iteration can reach the back edge.
func (x *Exec) mergeLoop(base *State, basef *Frame, h *ssa.BasicBlock, arrs []arrival, mark int, q *Term) *arrival {
	c := x.c
	for _, a := range arrs {
		x.phis(a.fr, h, a.prev, a.st)
	}
	// conditions restricted to facts about what existed before the iteration, if they still tell the paths apart
	n := len(base.pc)
	var conds []*Term
	count := map[*Term]int{}
	for _, a := range arrs {
		if len(a.st.pc) >= n {
			seen := map[*Term]bool{}
			for _, t := range a.st.pc[n:] {
				if !seen[t] {
					seen[t] = true
					count[t]++
				}
			}
		}
	}
	for _, a := range arrs {
		var r []*Term
		if len(a.st.pc) >= n {
			for _, t := range a.st.pc[n:] {
				// facts shared by every way to continue do not tell them apart
				if x.okDelta(t, mark, q) && count[t] < len(arrs) {
					r = append(r, t)
				}
			}
		}
		conds = append(conds, c.And(r...))
	}
	excl := true
	for i := 0; i < len(conds) && excl; i++ {
		for j := i + 1; j < len(conds) && excl; j++ {
			s2 := base.clone()
			s2.assume(conds[i])
			if x.feasible(s2, conds[j]) {
				// harmless if both paths end in the same state
				excl = false
			}
		}
	}
	var sts []*State
	for _, a := range arrs {
		sts = append(sts, a.st)
	}
	var res *arrival
	x.softMerge = true
	defer func() { x.softMerge = false }()
	x.try(func() {
		cs, ms := x.mergeStates2(base, sts, func() []*Term {
			if excl {
				return conds
			}
			return nil
		}())
		if ms == nil {
			return
		}
		f := basef
		for _, in := range h.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := arrs[len(arrs)-1].fr.env[p]
			for i := len(arrs) - 2; i >= 0; i-- {
				v = x.ite(cs[i], arrs[i].fr.env[p], v)
			}
			f.env[p] = v
		}
		f.defers = arrs[0].fr.defers
		f.phiDone = h
		res = &arrival{arrs[0].prev, ms, f}
	})
	return res
}

// substState rewrites a state and frame (used to replace the iteration number by the trip count on exit).
func (x *Exec) substState(f *Frame, s *State, m map[*Term]*Term) {
	x.scratch = s
	for k, v := range f.env {
		if nv, ok := x.trySubst(v, m); ok {
			f.env[k] = nv
		} else {
			delete(f.env, k)
		}
	}
	for k, v := range s.heap {
		if v == nil {
			continue
		}
		s.heap[k] = x.substVal(v, m)
	}
	for k, w := range s.ghost {
		s.ghost[k] = &WState{x.substSeq(w.Out, m), x.c.Subst(w.Handed, m), x.c.Subst(w.Failed, m)}
	}
	var fa []*Forall
	for _, f := range s.foralls {
		m2 := m
		if m[f.Var] != nil {
			m2 = map[*Term]*Term{}
			for k, v := range m {
				if k != f.Var {
					m2[k] = v
				}
			}
		}
		fa = append(fa, &Forall{N: x.c.Subst(f.N, m), Var: f.Var, Body: x.c.Subst(f.Body, m2), Key: f.Key})
	}
	s.foralls = fa
	pc := s.pc
	s.pc = nil
	for _, t := range pc {
		s.assume(x.c.Subst(t, m))
	}
}
func (x *Exec) trySubst(v Val, m map[*Term]*Term) (r Val, ok bool) {
	ok = x.try(func() { r = x.substVal(v, m) })
	return
}

// enterIterLoop summarises a loop without a counter that walks through reflect.Values: only the invariants are known
// about the state at the start of an iteration.
func (x *Exec) enterIterLoop(fr *Frame, lp *Loop, prev *ssa.BasicBlock, st *State) bool {
	if x.ghost > 0 {
		return false
	}
	has := false
	for _, in := range lp.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok && x.scalarSort(p.Type()) == RVS && x.track() {
			has = true
		}
		if n, ok := in.(*ssa.Next); ok {
			if it, ok := fr.env[n.Iter].(*IterVal); ok {
				if ic, ok := st.heap[it.Obj].(*IterC); ok && ic.Str != nil && ic.Str.Lit != nil {
					continue // a literal is walked through
				}
			}
			has = true
		}
	}
	if !has {
		return false
	}
	fe, se := fr.clone(), st.clone()
	x.phis(fe, lp.head, prev, se)
	x.loopNo++
	x.summarise(fr, lp, prev, st, fe, nil, nil, nil, 1, nil)
	return true
}

// loopInv is a condition on the state at the start of an iteration; nil if it cannot be evaluated.
type loopInv func(f *Frame, s *State, q *Term) *Term

// loopInvs are the candidate invariants that hold when the loop is entered: those of the contract being verified, and
// that the reflect.Values the loop walks through can be decoded into.
func (x *Exec) loopInvs(fr *Frame, lp *Loop, fe *Frame, st *State) []loopInv {
	c := x.c
	if x.ghost > 0 || len(x.cctx) == 0 {
		return nil
	}
	var out []loopInv
	add := func(v loopInv) {
		if t := v(fe, st, c.Const(64, 0)); t != nil && x.valid(st, t) {
			out = append(out, v)
		}
	}
	for _, fv := range x.cctx[0].invs {
		fv := fv
		add(func(f *Frame, s *State, _ *Term) (r *Term) {
			x.try(func() {
				outs := x.runBodyDepth(fv.Fn, fv.Bind, nil, s.clone())
				if len(outs) == 1 && outs[0].kind == ORet {
					r = outs[0].vals[0].(*Term)
				}
			})
			return
		})
	}
	// slices that grow by one element per iteration
	for _, in := range lp.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		sl, ok := fe.env[p].(*SliceVal)
		if !ok {
			continue
		}
		add(func(f *Frame, s *State, q *Term) *Term {
			t, ok := f.env[p].(*SliceVal)
			if !ok {
				return nil
			}
			// (while the slice is still at its entry value this confines q to 0; an iteration that keeps the
			// condition changes the slice, so that ends)
			return c.Eq(t.Len, c.Add(sl.Len, q))
		})
	}
	if !x.track() {
		return out
	}
	var rvs, bools []*ssa.Phi
	for _, in := range lp.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			switch x.scalarSort(p.Type()) {
			case RVS:
				rvs = append(rvs, p)
			case BoolS:
				bools = append(bools, p)
			}
		}
	}
	for _, p := range rvs {
		p := p
		add(func(f *Frame, s *State, _ *Term) *Term {
			t, ok := f.env[p].(*Term)
			if !ok {
				return nil
			}
			return x.rvUsable(s, t)
		})
		if v0, ok := fe.env[p].(*Term); ok {
			t0, k0 := x.rvType(v0), x.rvKind(v0)
			add(func(f *Frame, s *State, _ *Term) *Term {
				t, ok := f.env[p].(*Term)
				if !ok {
					return nil
				}
				return c.And(c.Eq(x.rvType(t), t0), c.Eq(x.rvKind(t), k0), x.rvCanIf(t))
			})
		}
	}
	if len(rvs) > 0 {
		for _, b := range bools {
			for _, pa := range fr.fn.Params {
				b, pa := b, pa
				if v, ok := fr.env[pa].(*Term); ok && v.sort == RVS {
					add(func(f *Frame, s *State, _ *Term) *Term {
						t, ok := f.env[b].(*Term)
						if !ok {
							return nil
						}
						return c.Imp(t, x.rvCanSet(v))
					})
				}
			}
		}
	}
	return out
}

// orderInvs are candidate invariants of a loop without a counter: how the integers it changes compare with their initial
// values, with one another and with the lengths of slices.
func (x *Exec) orderInvs(fe *Frame, st *State, comps []*lcomp, changed map[string]*lcomp, done map[string]bool) []loopInv {
	c := x.c
	if x.ghost > 0 || x.track() {
		return nil
	}
	obj := func(id string) string { return strings.SplitN(id, ".", 2)[0] }
	var ints, slices []*lcomp
	near := map[string]bool{}
	for _, k := range comps {
		if v, ok := k.entry.(*Term); ok && v.sort == BV(64) && changed[k.id] != nil {
			ints = append(ints, k)
			near[obj(k.id)] = true
		}
	}
	for _, k := range comps {
		if _, ok := k.entry.(*SliceVal); ok && (near[obj(k.id)] || strings.HasPrefix(k.id, "phi:")) {
			slices = append(slices, k)
		}
	}
	if len(ints) > 8 || len(slices) > 8 {
		return nil
	}
	var out []loopInv
	add := func(key string, f func(f *Frame, s *State) *Term) {
		if done[key] {
			return
		}
		done[key] = true
		v := func(fr *Frame, s *State, _ *Term) (r *Term) {
			x.try(func() { r = f(fr, s) })
			return
		}
		if t := v(fe, st, nil); t != nil && x.valid(st, t) {
			out = append(out, v)
		}
	}
	at := func(k *lcomp, f *Frame, s *State) *Term { return k.get(f, s).(*Term) }
	for _, a := range ints {
		a := a
		e := a.entry.(*Term)
		add(a.id, func(f *Frame, s *State) *Term { return c.Sle(e, at(a, f, s)) })
		for _, b := range ints {
			if b := b; a != b {
				add(a.id+"<="+b.id, func(f *Frame, s *State) *Term { return c.Sle(at(a, f, s), at(b, f, s)) })
				add(a.id+"<=1+"+b.id, func(f *Frame, s *State) *Term { return c.Sle(at(a, f, s), c.AddC(at(b, f, s), 1)) })
			}
		}
		for _, b := range slices {
			b := b
			add(a.id+"<"+b.id, func(f *Frame, s *State) *Term { return c.Slt(at(a, f, s), b.get(f, s).(*SliceVal).Len) })
		}
	}
	return out
}

// withLemmas adds the defining equations of sums and folds that occur in the query.
func (x *Exec) withLemmas(as []*Term, goal *Term) []*Term {
	as = x.litLemmas(as, goal)
	if len(x.recs) == 0 && len(x.sums) == 0 {
		return as
	}
	c := x.c
	seen := map[*Term]bool{}
	var apps []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && len(t.args) == 1 && (strings.HasPrefix(t.name, "sum:") || strings.HasPrefix(t.name, "fold")) {
			apps = append(apps, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range as {
		walk(a)
	}
	if goal != nil {
		walk(goal)
	}
	if len(apps) == 0 {
		return as
	}
	out := as[:len(as):len(as)]
	for _, a := range apps {
		n := a.args[0]
		if d, ok := x.recs[a.name]; ok {
			if n.isC(0) {
				out = append(out, c.Eq(a, d.init))
			} else {
				out = append(out, c.Imp(c.Eq(n, c.Const(64, 0)), c.Eq(a, d.init)))
			}
			for _, b := range apps {
				if b.name == a.name && b.args[0] == c.AddC(n, 1) {
					out = append(out, c.Eq(b, c.Subst(d.step, map[*Term]*Term{d.ps: a, d.pq: n})))
				}
			}
		} else if d, ok := x.sums[a.name]; ok {
			out = append(out, c.Imp(c.Eq(n, c.Const(64, 0)), c.Eq(a, c.Const(a.sort.w, 0))))
			for _, b := range apps {
				if b.name == a.name && b.args[0] == c.AddC(n, 1) {
					out = append(out, c.Eq(b, c.Add(a, c.Subst(d.body, map[*Term]*Term{d.v: n}))))
				}
			}
		}
	}
	return out
}

// instantiate adds what is known about iteration i of the loops that have run.
func (x *Exec) instantiate(st *State, i *Term) {
	for _, f := range st.foralls {
		st.assume(x.c.Imp(x.c.Ult(i, f.N), x.c.Subst(f.Body, map[*Term]*Term{f.Var: i})))
	}
}

// litLemmas: a string equal to a literal has its length and bytes (for the lengths and bytes the query mentions).
func (x *Exec) litLemmas(as []*Term, goal *Term) []*Term {
	c := x.c
	eqs := map[*Term][]*Term{}
	var reads []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.op == OEq && t.args[0].sort == StrS:
			a, b := t.args[0], t.args[1]
			if isStrLit(a) {
				a, b = b, a
			}
			if isStrLit(b) && !isStrLit(a) {
				eqs[a] = append(eqs[a], b)
			}
		case t.op == OApp && (t.name == "str.at" || t.name == "str.len"):
			reads = append(reads, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range as {
		walk(a)
	}
	if goal != nil {
		walk(goal)
	}
	if len(eqs) == 0 || len(reads) == 0 {
		return as
	}
	out := as[:len(as):len(as)]
	for _, r := range reads {
		for _, l := range eqs[r.args[0]] {
			s := strings.TrimPrefix(l.name, "lit:")
			e := c.Eq(r.args[0], l)
			if r.name == "str.len" {
				out = append(out, c.Imp(e, c.Eq(r, c.Const(64, uint64(len(s))))))
			} else if i := r.args[1]; i.isConst() && i.n < uint64(len(s)) {
				out = append(out, c.Imp(e, c.Eq(r, c.Const(8, uint64(s[i.n])))))
			}
		}
	}
	return out
}
