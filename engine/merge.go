package main

import (
	"golang.org/x/tools/go/ssa"
)

// Path merging. Ghost (specification) functions and small pure diamonds of the code under verification are executed on
// all paths and the results joined with if-then-else, so that `a && b` or a two-way specification does not multiply paths.

type pdom struct {
	ip map[*ssa.BasicBlock]*ssa.BasicBlock
}

func postDoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	full := make([]bool, n+1)
	for i := range full {
		full[i] = true
	}
	pd := make([][]bool, n+1)
	for i := 0; i < n; i++ {
		pd[i] = append([]bool{}, full...)
	}
	pd[n] = make([]bool, n+1)
	pd[n][n] = true
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var s []int
			for _, k := range b.Succs {
				s = append(s, k.Index)
			}
			if len(s) == 0 {
				s = []int{n}
			}
			nw := append([]bool{}, pd[s[0]]...)
			for _, k := range s[1:] {
				for j := range nw {
					nw[j] = nw[j] && pd[k][j]
				}
			}
			nw[i] = true
			for j := range nw {
				if nw[j] != pd[i][j] {
					pd[i], ch = nw, true
					break
				}
			}
		}
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	cnt := func(b []bool) (k int) {
		for _, v := range b {
			if v {
				k++
			}
		}
		return
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if j != i && pd[i][j] && cnt(pd[j]) == cnt(pd[i])-1 {
				out[fn.Blocks[i]] = fn.Blocks[j]
			}
		}
	}
	return out
}

// joinOf returns the join block of the If ending b, if the region in between may be merged.
func (x *Exec) joinOf(fr *Frame, b *ssa.BasicBlock) *ssa.BasicBlock {
	p := x.prog
	p.mu.Lock()
	defer p.mu.Unlock()
	if j, ok := p.joins[b]; ok {
		return j
	}
	fn := b.Parent()
	pds, ok := p.pdoms[fn]
	if !ok {
		pds = postDoms(fn)
		p.pdoms[fn] = pds
	}
	j := pds[b]
	if j != nil {
		ghost := p.isGhostL(fn)
		seen := map[*ssa.BasicBlock]bool{j: true}
		var walk func(k *ssa.BasicBlock) bool
		n := 0
		walk = func(k *ssa.BasicBlock) bool {
			if seen[k] {
				return true
			}
			if k == b {
				return false
			}
			seen[k] = true
			n++
			if n > 12 {
				return false
			}
			for _, in := range k.Instrs {
				switch v := in.(type) {
				case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.DebugRef, *ssa.Field, *ssa.Extract, *ssa.MakeInterface, *ssa.ChangeInterface:
				case *ssa.UnOp:
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Call, *ssa.Slice, *ssa.Alloc, *ssa.Store, *ssa.TypeAssert, *ssa.Lookup:
					_ = v
					if !ghost {
						if _, ok := in.(*ssa.FieldAddr); !ok {
							return false
						}
					}
				default:
					return false
				}
			}
			for _, s := range k.Succs {
				if !walk(s) {
					return false
				}
			}
			return true
		}
		for _, s := range b.Succs {
			if !walk(s) {
				j = nil
				break
			}
		}
		if j != nil && (findLoopsCached(p, fn)[j] != nil) {
			j = nil
		}
	}
	p.joins[b] = j
	return j
}

type arrival struct {
	prev *ssa.BasicBlock
	st   *State
	fr   *Frame
}

// mergeIf executes both branches up to their join and continues there with merged states.
func (x *Exec) mergeIf(fr *Frame, b, j *ssa.BasicBlock, k *Term, st *State) {
	c := x.c
	var arr []arrival
	eff := x.effects
	base := st.clone()
	basef := fr.clone()
	side := func(s *ssa.BasicBlock, cond *Term, st *State, f *Frame) {
		st.assume(cond)
		if s == j {
			arr = append(arr, arrival{b, st, f})
			return
		}
		old := f.stop
		f.stop = map[*ssa.BasicBlock]func(*Frame, *ssa.BasicBlock, *State){}
		for kk, v := range old {
			f.stop[kk] = v
		}
		f.stop[j] = func(f2 *Frame, prev *ssa.BasicBlock, s2 *State) {
			f2.stop = old
			arr = append(arr, arrival{prev, s2, f2})
		}
		x.run(f, s, b, st)
	}
	side(b.Succs[0], k, st.clone(), fr.clone())
	side(b.Succs[1], c.Not(k), st.clone(), fr.clone())
	if len(arr) == 0 {
		return
	}
	if len(arr) == 1 {
		a := arr[0]
		x.phis(a.fr, j, a.prev, a.st)
		x.resume(a.fr, j, a.prev, a.st)
		return
	}
	if x.effects == eff {
		if m := x.mergeArrivals(base, basef, j, arr); m != nil {
			x.resume(m.fr, j, m.prev, m.st)
			return
		}
	}
	x.paths += len(arr) - 1
	for _, a := range arr {
		x.phis(a.fr, j, a.prev, a.st)
		x.resume(a.fr, j, a.prev, a.st)
	}
}

// resume continues in block b after its phis.
func (x *Exec) resume(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	if fr.stop != nil && fr.stop[b] != nil {
		// an enclosing region ends here too: its handler re-evaluates the phis from the recorded values
		fr.phiDone = b
		fr.stop[b](fr, prev, st)
		return
	}
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	nb, s2, ok := x.exec(fr, b, i, st)
	if ok {
		x.run(fr, nb, b, s2)
	}
}
func (x *Exec) mergeArrivals(base *State, basef *Frame, j *ssa.BasicBlock, arr []arrival) *arrival {
	for _, a := range arr {
		x.phis(a.fr, j, a.prev, a.st)
	}
	var sts []*State
	for _, a := range arr {
		sts = append(sts, a.st)
	}
	var res *arrival
	x.try(func() {
		conds, ms := x.mergeStates(base, sts)
		if ms == nil {
			return
		}
		f := basef
		for _, in := range j.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := arr[len(arr)-1].fr.env[p]
			for i := len(arr) - 2; i >= 0; i-- {
				v = x.ite(conds[i], arr[i].fr.env[p], v)
			}
			f.env[p] = v
		}
		// values defined inside the region are not live after the join (SSA dominance)
		f.phiDone = j
		res = &arrival{arr[0].prev, ms, f}
	})
	return res
}

// mergeStates joins states that extend base; nil if their effects differ.
func (x *Exec) mergeStates(base *State, sts []*State) ([]*Term, *State) {
	return x.mergeStates2(base, sts, nil)
}

// mergeStates2: pre, if given, are exclusive conditions that select the state.
// iteSoft is ite, except that parts that cannot be joined become unknown (for the end of a loop iteration: such a part is
// then unknown at every iteration).
func (x *Exec) iteSoft(st *State, k *Term, a, b Val) (r Val) {
	if av, ok := a.(*StructVal); ok {
		if bv, ok := b.(*StructVal); ok && len(av.F) == len(bv.F) {
			f := make([]Val, len(av.F))
			for i := range f {
				f[i] = x.iteSoft(st, k, av.F[i], bv.F[i])
			}
			return &StructVal{av.T, f}
		}
	}
	if x.try(func() { r = x.ite(k, a, b) }) {
		return r
	}
	return x.havoc(st, b, "merge")
}
func (x *Exec) mergeStates2(base *State, sts []*State, pre []*Term) ([]*Term, *State) {
	c := x.c
	n := len(base.pc)
	ms := base.clone()
	// path suffixes
	var sufs [][]*Term
	cnt := map[*Term]int{}
	for _, s := range sts {
		if len(s.pc) < n {
			return nil, nil
		}
		suf := s.pc[n:]
		sufs = append(sufs, suf)
		for _, t := range suf {
			cnt[t]++
		}
	}
	var conds []*Term
	for _, suf := range sufs {
		var r []*Term
		for _, t := range suf {
			if cnt[t] < len(sts) {
				r = append(r, t)
			}
		}
		conds = append(conds, c.And(r...))
	}
	ms.assume(c.Or(conds...))
	if pre != nil {
		conds = pre
	}
	for _, t := range sufs[0] {
		if cnt[t] == len(sts) {
			ms.assume(t)
		}
	}
	// heaps
	keys := map[int]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
	}
	for k := range keys {
		bv, inBase := base.heap[k]
		var vals []Val
		var vconds []*Term
		same := true
		for i, s := range sts {
			v, ok := s.heap[k]
			if !ok {
				continue
			}
			if inBase && v != bv {
				same = false
			}
			vals = append(vals, v)
			vconds = append(vconds, conds[i])
		}
		if inBase {
			if same {
				continue
			}
			if len(vals) != len(sts) {
				return nil, nil
			}
		}
		v := vals[len(vals)-1]
		for i := len(vals) - 2; i >= 0; i-- {
			if vals[i] == v {
				continue
			}
			if x.softMerge {
				v = x.iteSoft(ms, vconds[i], vals[i], v)
			} else {
				v = x.ite(vconds[i], vals[i], v)
			}
		}
		ms.heap[k] = v
	}
	for _, s := range sts {
		for g, o := range s.globals {
			if _, ok := ms.globals[g]; !ok {
				n := map[*ssa.Global]int{}
				for a, b := range ms.globals {
					n[a] = b
				}
				n[g] = o
				ms.globals = n
			}
		}
	}
	gk := map[string]bool{}
	for _, s := range sts {
		for k := range s.ghost {
			gk[k] = true
		}
	}
	for k := range gk {
		var w *WState
		for i := len(sts) - 1; i >= 0; i-- {
			v := sts[i].ghost[k]
			if v == nil {
				continue
			}
			if w == nil {
				w = v
				continue
			}
			if v == w {
				continue
			}
			w = &WState{x.seqIte(conds[i], v.Out, w.Out), c.Ite(conds[i], v.Handed, w.Handed), c.Ite(conds[i], v.Failed, w.Failed)}
		}
		ms.ghost[k] = w
	}
	return conds, ms
}

// mergePure joins the normal outcomes of a specification function.
func (x *Exec) mergePure(base *State, outs []Outcome) []Outcome {
	var rets, pans []Outcome
	for _, o := range outs {
		if o.kind == OPanic {
			pans = append(pans, o)
		} else {
			rets = append(rets, o)
		}
	}
	if len(rets) < 2 {
		return outs
	}
	var sts []*State
	for _, o := range rets {
		sts = append(sts, o.st)
	}
	var merged *Outcome
	x.try(func() {
		conds, ms := x.mergeStates(base, sts)
		if ms == nil {
			return
		}
		o := Outcome{kind: ORet, st: ms}
		for j := range rets[0].vals {
			v := rets[len(rets)-1].vals[j]
			for i := len(rets) - 2; i >= 0; i-- {
				v = x.ite(conds[i], rets[i].vals[j], v)
			}
			o.vals = append(o.vals, v)
		}
		merged = &o
	})
	if merged == nil {
		return outs
	}
	return append(pans, *merged)
}
