package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) top() *cctx {
	if len(x.cctx) == 0 {
		return nil
	}
	return x.cctx[len(x.cctx)-1]
}

// ---------------------------------------------------------------- obligations

func (x *Exec) oblRec(fn, class, name string) *Obl {
	k := fn + " / " + name
	o := x.obls[k]
	if o == nil {
		o = &Obl{Fn: fn, Name: name, Class: class}
		x.obls[k] = o
		x.oblOrder = append(x.oblOrder, k)
	}
	return o
}
func (x *Exec) oblige(fn, class, name string, st *State, goal *Term) {
	if x.inferring > 0 {
		return
	}
	o := x.oblRec(fn, class, name)
	o.N++
	if x.valid(st, goal) {
		return
	}
	x.fail(o, st, goal, "")
}
func (x *Exec) fail(o *Obl, st *State, goal *Term, why string) {
	o.Fail++
	if o.Fail > 1 {
		return
	}
	var neg []*Term
	if goal != nil {
		neg = []*Term{x.c.Not(goal)}
		if why == "" {
			why = "not provable: " + goal.String()
		}
	}
	o.Why = why
	if strings.Contains(os.Getenv("VERIF_DEBUG"), "pc") {
		for _, t := range st.pc {
			o.Why += "\n      pc " + t.String()
		}
	}
	o.Hints = x.model_(st, neg)
}

// model_ asks the solver for concrete inputs on this path, preferring small lengths.
func (x *Exec) model_(st *State, extra []*Term) map[string]string {
	c := x.c
	var want []*Term
	names := map[*Term]string{}
	add := func(n string, t *Term) {
		if t.isConst() {
			return
		}
		if _, ok := names[t]; !ok {
			names[t] = n
			want = append(want, t)
		}
	}
	var lens []*Term
	var walk func(n string, v Val)
	walk = func(n string, v Val) {
		switch v := v.(type) {
		case *Term:
			if v.sort.w > 0 && v.sort.w <= 64 || v.sort == BoolS {
				add(n, v)
			}
		case *StructVal:
			st := v.T.Underlying().(*types.Struct)
			for i, f := range v.F {
				walk(n+"."+st.Field(i).Name(), f)
			}
		case *SliceVal:
			add(n+".len", v.Len)
			lens = append(lens, v.Len)
			if w, _, ok := x.intInfo(v.Elem); ok && w == 8 && v.Obj != 0 {
				if av, ok := x.baseState.heap[v.Obj].(*ArrayVal); ok {
					for i := uint64(0); i < 24; i++ {
						x.scratch = st
						add(fmt.Sprintf("%s[%d]", n, i), x.rd(av.A, c.AddC(v.Off, i), v.Elem).(*Term))
					}
				}
			}
		case *StrVal:
			add(n+".len", v.Len)
			lens = append(lens, v.Len)
			for i := uint64(0); i < 16; i++ {
				add(fmt.Sprintf("%s[%d]", n, i), x.rd(v.A, c.AddC(v.Off, i), u8T).(*Term))
			}
		case *PtrVal:
			if v.Obj != 0 && x.baseState != nil {
				if h, ok := x.baseState.heap[v.Obj]; ok && len(n) < 40 {
					walk(n, h)
				}
			}
		case *IfaceVal:
			for i, a := range v.Alts {
				add(fmt.Sprintf("%s?%d", n, i), a.Cond)
			}
		}
	}
	for n, v := range x.inputs {
		walk(n, v)
	}
	if len(want) == 0 {
		return nil
	}
	pc := x.withLemmas(append([]*Term{}, st.pc...), c.T)
	pc = append(pc, extra...)
	for _, lim := range []uint64{24, 300, 70000, 0} {
		q := append([]*Term{}, pc...)
		if lim > 0 {
			for _, l := range lens {
				q = append(q, c.Ule(l, c.Const(64, lim)))
			}
		}
		r, m := x.s.check(q, want)
		if r == Sat {
			out := map[string]string{}
			for t, n := range names {
				out[n] = m[t]
			}
			return out
		}
	}
	return nil
}

// ---------------------------------------------------------------- intrinsics (ghost functions of the contract files)

func (x *Exec) str(v Val) string {
	if s, ok := v.(*StrVal); ok && s.Lit != nil {
		return *s.Lit
	}
	return "?"
}
func (x *Exec) encOutput(st *State, e Val) (Val, *StructVal, *PtrVal) {
	p := e.(*PtrVal)
	sv, ok := x.load(st, p).(*StructVal)
	if !ok {
		unsup("encoder object")
	}
	t := sv.T.Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if typeName(t.Field(i).Type()) == "io.Writer" {
			return sv.F[i], sv, &PtrVal{x.c.F, p.Obj, addPE(p.Path, PE{F: i})}
		}
	}
	unsup("encoder has no io.Writer field")
	return nil, nil, nil
}
func (x *Exec) wkey(st *State, w Val) (string, *PtrVal, types.Type) {
	iv := w.(*IfaceVal)
	var live []Alt
	for _, a := range iv.Alts {
		if x.feasible(st, a.Cond) {
			live = append(live, a)
		}
	}
	if len(live) != 1 {
		unsup("writer with %d possible dynamic types", len(live))
	}
	a := live[0]
	if a.Op != nil {
		return fmt.Sprintf("op%d", a.Op.id), nil, nil
	}
	if p, ok := a.V.(*PtrVal); ok {
		return fmt.Sprintf("obj%d", p.Obj), p, a.T
	}
	unsup("writer of type %v", a.T)
	return "", nil, nil
}
func (x *Exec) wstate(st *State, w Val) (*WState, string) {
	k, p, t := x.wkey(st, w)
	ws := st.ghost[k]
	if ws == nil {
		if p != nil {
			// a writer with known representation: its ghost output starts empty relative to now
			ws = &WState{Out: &SeqVal{}, Handed: x.c.Const(64, 0), Failed: x.c.F}
			if bv, ok := x.load(st, p).(*BufVal); ok {
				ws.Out = bv.S
			}
			_ = t
		} else {
			ws = &WState{Out: x.seqApp(x.c.Var("w."+k+".out.seq", SeqS)), Handed: x.c.Var("w."+k+".handed", BV(64)), Failed: x.c.Var("w."+k+".failed", BoolS)}
		}
		st.ghost[k] = ws
	} else if p != nil {
		if bv, ok := x.load(st, p).(*BufVal); ok {
			ws = &WState{Out: bv.S, Handed: ws.Handed, Failed: ws.Failed}
			st.ghost[k] = ws
		}
	}
	return ws, k
}

// setW updates the ghost state of a writer, and the representation of writers the engine knows.
func (x *Exec) setW(st *State, w Val, ws *WState) {
	k, p, t := x.wkey(st, w)
	old := st.ghost[k]
	st.ghost[k] = ws
	if p == nil {
		return
	}
	switch typeName(t.Underlying().(*types.Pointer).Elem()) {
	case "bytes.Buffer":
		x.store(st, p, &BufVal{ws.Out})
	case x.binPath + ".byteCounter":
		sv := x.load(st, p).(*StructVal)
		f := append([]Val{}, sv.F...)
		f[0] = x.c.Add(f[0].(*Term), x.c.Sub(ws.Handed, old.Handed))
		x.store(st, p, &StructVal{sv.T, f})
		x.trusted["contract of byteCounter.Write (checked separately)"] = true
	default:
		unsup("writer of type %s", t)
	}
}

// doWrite models (io.Writer).Write(b): the bytes are handed over; the writer may fail.
func (x *Exec) doWrite(st *State, w Val, b *SliceVal) []Outcome {
	c := x.c
	ws, _ := x.wstate(st, w)
	_, p, _ := x.wkey(st, w)
	seq := x.seqOfSlice(st, b)
	var outs []Outcome
	if p == nil {
		s2 := st.clone()
		x.setW(s2, w, &WState{Out: x.seqApp(c.Fresh("w.partial.seq", SeqS)), Handed: c.Add(ws.Handed, b.Len), Failed: c.T})
		outs = append(outs, Outcome{kind: ORet, st: s2, vals: []Val{c.Fresh("w.n", BV(64)), x.opaqueIface("w.err")}})
	}
	x.setW(st, w, &WState{Out: x.cat(ws.Out, seq), Handed: c.Add(ws.Handed, b.Len), Failed: ws.Failed})
	x.trusted["io.Writer: Write appends its argument to the output and returns nil, or returns an error"] = true
	return append(outs, Outcome{kind: ORet, st: st, vals: []Val{b.Len, x.nilIface()}})
}

func (x *Exec) classOn(cl string) bool {
	for _, k := range strings.Split(cl, ",") {
		if x.classes[k] {
			return true
		}
	}
	return false
}

func (x *Exec) intrinsic(fn *ssa.Function, args []Val, st *State) ([]Outcome, bool) {
	c := x.c
	if !x.prog.isGhost(fn) {
		return nil, false
	}
	cx := x.top()
	switch fn.Name() {
	case "requires":
		k := args[0].(*Term)
		if cx != nil && cx.assume {
			x.oblige(cx.caller, "pre", "precondition of "+cx.fn.Name(), st, k)
		}
		x.effects++
		if !x.feasible(st, k) {
			return nil, true
		}
		st.assume(k)
		return ret(st), true
	case "assume":
		x.effects++
		if !x.feasible(st, args[0].(*Term)) {
			return nil, true
		}
		st.assume(args[0].(*Term))
		return ret(st), true
	case "ensures", "prove":
		cl, name := x.str(args[0]), x.str(args[1])
		k := args[2].(*Term)
		if !x.classOn(cl) {
			return ret(st), true
		}
		if cx != nil && cx.assume {
			x.effects++
			if k == c.F || !x.feasible(st, k) {
				return nil, true
			}
			st.assume(k)
			return ret(st), true
		}
		fnn := "lemma"
		if cx != nil {
			fnn = cx.fn.Name()
			if cx.fn.Signature.Recv() != nil {
				fnn = shortName(cx.fn)
			}
		}
		x.cover[fnn+" / "+name] = true
		x.oblige(fnn, cl, name, st, k)
		return ret(st), true
	case "ensuresOut": // class, name, e, want: the writer's output is now exactly want
		cl, name := x.str(args[0]), x.str(args[1])
		w, _, _ := x.encOutput(st, args[2])
		want := args[3].(*SeqVal)
		ws, _ := x.wstate(st, w)
		if !x.classOn(cl) {
			return ret(st), true
		}
		if cx.assume {
			x.effects++
			x.setW(st, w, &WState{Out: want, Handed: ws.Handed, Failed: ws.Failed})
			return ret(st), true
		}
		x.proveSeq(shortName(cx.fn), cl, name, st, ws.Out, want)
		return ret(st), true
	case "ensuresSeq":
		cl, name := x.str(args[0]), x.str(args[1])
		if !x.classOn(cl) {
			return ret(st), true
		}
		if cx != nil && cx.assume {
			unsup("ensuresSeq assumed")
		}
		fnn := "lemma"
		if cx != nil {
			fnn = shortName(cx.fn)
		}
		x.proveSeq(fnn, cl, name, st, args[2].(*SeqVal), args[3].(*SeqVal))
		return ret(st), true
	case "ensuresSlice": // class, name, got []byte, want []byte
		cl, name := x.str(args[0]), x.str(args[1])
		if !x.classOn(cl) {
			return ret(st), true
		}
		got, want := args[2].(*SliceVal), args[3].(*SliceVal)
		if cx.assume {
			x.effects++
			st.bindVal(got, want)
			return ret(st), true
		}
		x.proveSeq(shortName(cx.fn), cl, name, st, x.seqOfSlice(st, got), x.seqOfSlice(st, want))
		return ret(st), true
	case "ensuresString": // class, name, got string, want Seq
		cl, name := x.str(args[0]), x.str(args[1])
		if !x.classOn(cl) {
			return ret(st), true
		}
		got, want := args[2].(*StrVal), args[3].(*SeqVal)
		if cx.assume {
			x.effects++
			st.bindVal(got, want)
			return ret(st), true
		}
		x.scratch = st
		x.proveSeq(shortName(cx.fn), cl, name, st, x.seqSlice(got.A, got.Off, got.Len), want)
		return ret(st), true
	case "modifies":
		if cx.pre {
			sl := args[0].(*SliceVal)
			a := x.arrOf(st, sl).(*AExp)
			for _, e := range a.E {
				iv := e.(*IfaceVal)
				cx.mods = append(cx.mods, iv.Alts[0].V.(*PtrVal))
				cx.modT = append(cx.modT, iv.Alts[0].T)
			}
		}
		return ret(st), true
	case "modifiesOut":
		if cx.pre {
			w, _, _ := x.encOutput(st, args[0])
			_, k := x.wstate(st, w)
			cx.modOut = append(cx.modOut, k)
			if cx.assume {
				ws := st.ghost[k]
				_, p, _ := x.wkey(st, w)
				f := c.Fresh("w.failed", BoolS)
				if p != nil {
					f = c.F
				}
				st.assume(c.Imp(ws.Failed, c.Or(f, c.T)))
				x.pendingW = append(x.pendingW, pendW{w, &WState{Out: x.seqApp(c.Fresh("w.out.seq", SeqS)), Handed: c.Fresh("w.handed", BV(64)), Failed: f}})
			}
		}
		return ret(st), true
	case "modifiesSlice":
		if cx.pre {
			cx.modSl = append(cx.modSl, args[0].(*SliceVal))
		}
		return ret(st), true
	case "ensuresContent": // class, name, got []byte, want Seq
		cl, name := x.str(args[0]), x.str(args[1])
		if !x.classOn(cl) {
			return ret(st), true
		}
		got, want := args[2].(*SliceVal), args[3].(*SeqVal)
		if cx.assume {
			x.effects++
			x.fillSlice(st, got, &ASeq{want})
			return ret(st), true
		}
		x.proveSeq(shortName(cx.fn), cl, name, st, x.seqOfSlice(st, got), want)
		return ret(st), true
	case "readerRest":
		iv := args[0].(*IfaceVal)
		var op *Term
		for _, a := range iv.Alts {
			if a.Op != nil && op == nil {
				op = a.Op
			} else if x.feasible(st, a.Cond) {
				unsup("reader with several possible dynamic types")
			}
		}
		n := c.App("reader.len", BV(64), op)
		st.assume(c.Ult(n, c.Const(64, 1<<48)))
		off := c.Const(64, 0)
		if ws := st.ghost[fmt.Sprintf("rd%d", op.id)]; ws != nil {
			off = ws.Handed
		}
		o := x.newObj(st, &ArrayVal{Elem: u8T, A: &ABase{"reader.at", []*Term{op}, u8T}})
		l := c.Sub(n, off)
		return ret(st, &SliceVal{Nil: c.F, Obj: o, Off: off, Len: l, Cap: l, Elem: u8T}), true
	case "panicsWhen":
		if cx.pre {
			cx.panicsOK = args[0].(*Term)
		}
		return ret(st), true
	case "noFrame":
		cx.noFrame = true
		return ret(st), true
	case "outOf":
		w, _, _ := x.encOutput(st, args[0])
		ws, _ := x.wstate(st, w)
		return ret(st, ws.Out), true
	case "handed":
		w, _, _ := x.encOutput(st, args[0])
		ws, _ := x.wstate(st, w)
		return ret(st, ws.Handed), true
	case "wfailed":
		w, _, _ := x.encOutput(st, args[0])
		ws, _ := x.wstate(st, w)
		return ret(st, ws.Failed), true
	case "seqB":
		sl := args[0].(*SliceVal)
		return ret(st, x.seqOfSlice(st, sl)), true
	case "seqOf":
		return ret(st, x.seqOfSlice(st, args[0].(*SliceVal))), true
	case "seqStr":
		s := args[0].(*StrVal)
		x.scratch = st
		return ret(st, x.seqSlice(s.A, s.Off, s.Len)), true
	case "cat":
		sl := args[0].(*SliceVal)
		a := x.arrOf(st, sl)
		var ss []*SeqVal
		for i := uint64(0); i < sl.Len.n; i++ {
			ss = append(ss, x.rd(a, c.AddC(sl.Off, i), sl.Elem).(*SeqVal))
		}
		return ret(st, x.cat(ss...)), true
	case "seqLen":
		return ret(st, x.seqLen(args[0].(*SeqVal))), true
	case "seqAt":
		return ret(st, x.seqAt(args[0].(*SeqVal), args[1].(*Term))), true
	case "seqSlice":
		s := args[0].(*SeqVal)
		o := x.newObj(st, &ArrayVal{Elem: u8T, A: &ASeq{s}})
		l := x.seqLen(s)
		return ret(st, &SliceVal{Nil: c.F, Obj: o, Off: c.Const(64, 0), Len: l, Cap: l, Elem: u8T}), true
	case "and":
		return ret(st, c.And(x.boolArgs(st, args[0])...)), true
	case "or":
		return ret(st, c.Or(x.boolArgs(st, args[0])...)), true
	case "implies":
		return ret(st, c.Imp(args[0].(*Term), args[1].(*Term))), true
	case "ite64":
		return ret(st, c.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))), true
	}
	if outs, ok := x.rvIntrinsic(fn, args, st); ok {
		return outs, true
	}
	return nil, false
}
func (x *Exec) boolArgs(st *State, v Val) []*Term {
	sl := v.(*SliceVal)
	a := x.arrOf(st, sl)
	var ts []*Term
	for i := uint64(0); i < sl.Len.n; i++ {
		ts = append(ts, x.rd(a, x.c.AddC(sl.Off, i), sl.Elem).(*Term))
	}
	return ts
}
func (x *Exec) proveSeq(fn, cl, name string, st *State, got, want *SeqVal) {
	if x.inferring > 0 {
		return
	}
	x.cover[fn+" / "+name] = true
	o := x.oblRec(fn, cl, name)
	o.N++
	ok, fs, fg := x.proveSeqEq(st, got, want)
	if !ok {
		if fs == nil {
			fs = st
		}
		if x.valid(fs, x.c.F) {
			return
		}
		x.fail(o, fs, fg, "byte sequences differ:\n  got  "+x.seqString(got)+"\n  want "+x.seqString(want))
	}
}
func (x *Exec) seqString(s *SeqVal) string {
	var b strings.Builder
	for i, ch := range s.C {
		if i > 0 {
			b.WriteString(" ++ ")
		}
		if b.Len() > 3000 {
			b.WriteString("...")
			break
		}
		switch v := ch.(type) {
		case *CBytes:
			b.WriteString("[")
			for j, t := range v.B {
				if j > 0 {
					b.WriteString(",")
				}
				if j > 20 {
					b.WriteString("...")
					break
				}
				b.WriteString(t.String())
			}
			b.WriteString("]")
		case *CArr:
			fmt.Fprintf(&b, "arr(%T off=%s len=%s)", v.A, v.Off, v.Len)
		case *CApp:
			b.WriteString(v.T.String())
		case *CRep:
			fmt.Fprintf(&b, "rep(%s of %s: %s)", v.Var, v.N, x.seqString(v.Body))
		case *CIte:
			fmt.Fprintf(&b, "if(%s){%s}else{%s}", v.C, x.seqString(v.A), x.seqString(v.B))
		}
	}
	return b.String()
}

type pendW struct {
	w  Val
	ws *WState
}

// fillSlice overwrites the elements of a slice with those of a.
func (x *Exec) fillSlice(st *State, sl *SliceVal, a Arr) {
	if sl.Obj == 0 {
		return
	}
	p := &PtrVal{x.c.F, sl.Obj, sl.Path}
	av := x.load(st, p).(*ArrayVal)
	x.scratch = st
	x.store(st, p, &ArrayVal{av.Elem, x.copyArr(av.A, sl.Off, a, x.c.Const(64, 0), sl.Len, av.Elem)})
}

// bindVal replaces a fresh result wholesale.
func (s *State) bindVal(got, want Val) {
	n := make(map[Val]Val, len(s.binds)+1)
	for k, v := range s.binds {
		n[k] = v
	}
	n[got] = want
	s.binds = n
}

func shortName(fn *ssa.Function) string {
	r := fn.Signature.Recv()
	if r == nil {
		return fn.Name()
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name() + "." + fn.Name()
	}
	return fn.Name()
}

// ---------------------------------------------------------------- applying a contract at a call site

func (x *Exec) applyContract(fn, cf *ssa.Function, args []Val, st *State) []Outcome {
	c := x.c
	x.used[fn] = true
	caller := "?"
	if x.root != nil {
		caller = shortName(x.root)
	}
	cx := &cctx{assume: true, pre: true, fn: fn, caller: caller}
	x.cctx = append(x.cctx, cx)
	savedP := x.pendingW
	x.pendingW = nil
	defer func() { x.cctx = x.cctx[:len(x.cctx)-1]; x.pendingW = savedP }()
	freshBefore := len(c.all)
	pres := x.runBodyDepth(cf, nil, args, st)
	var outs []Outcome
	for _, p := range pres {
		if p.kind == OPanic {
			if x.inferring == 0 {
				o := x.oblRec(caller, "pre", "precondition of "+fn.Name()+" well-defined")
				o.N++
				if !x.valid(p.st, c.F) {
					x.fail(o, p.st, nil, "contract of "+fn.Name()+" undefined: "+p.msg)
				}
			}
			continue
		}
		st := p.st
		if cx.panicsOK != nil && x.feasible(st, cx.panicsOK) {
			s2 := st.clone()
			s2.assume(cx.panicsOK)
			outs = append(outs, Outcome{kind: OPanic, st: s2, msg: "panic allowed by the contract of " + fn.Name()})
			if !x.feasible(st, c.Not(cx.panicsOK)) {
				continue
			}
			st.assume(c.Not(cx.panicsOK))
		}
		if cx.mayPanic || cx.byDesign || cx.calleePan {
			outs = append(outs, Outcome{kind: OPanic, st: st.clone(), msg: "panic allowed by the contract of " + fn.Name()})
		}
		// havoc
		objBefore := x.nobj
		for i, m := range cx.mods {
			v := x.load(st, m)
			if p, ok := v.(*PtrVal); ok && (p.Obj == 0 || st.heap[p.Obj] == nil) {
				c.fresh[fn.Name()+".mod"]++
				x.store(st, m, x.mkSym(st, cx.modT[i].Underlying().(*types.Pointer).Elem(), fmt.Sprintf("%s.mod!%d", fn.Name(), c.fresh[fn.Name()+".mod"])))
				continue
			}
			nv := x.havoc(st, v, fn.Name()+".mod")
			x.store(st, m, nv)
		}
		for i, m := range cx.modSl {
			c.fresh[fn.Name()+".sl"]++
			x.fillSlice(st, m, &ABase{fmt.Sprintf("%s.sl%d!%d", fn.Name(), i, c.fresh[fn.Name()+".sl"]), nil, m.Elem})
		}
		for _, pw := range x.pendingW {
			x.setWRaw(st, pw.w, pw.ws)
		}
		x.havocRV(st, cx)
		var res []Val
		sig := fn.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			c.fresh["r:"+fn.Name()]++
			res = append(res, x.mkResult(st, sig.At(i).Type(), fmt.Sprintf("r:%s#%d!%d", fn.Name(), i, c.fresh["r:"+fn.Name()])))
		}
		if len(p.vals) != 1 {
			unsup("contract of %s returns no closure", fn.Name())
		}
		post := p.vals[0].(*FuncVal)
		cx2 := *cx
		cx2.pre = false
		x.cctx = append(x.cctx, &cx2)
		pcBefore := len(st.pc)
		posts := []Outcome{{kind: ORet, st: st}}
		if post.Nil != c.T {
			posts = x.runBodyDepth(post.Fn, post.Bind, res, st)
		}
		x.cctx = x.cctx[:len(x.cctx)-1]
		for _, q := range posts {
			if q.kind == OPanic {
				continue // ghost code undefined: no information, but also no outcome; see DESIGN (checked when the contract itself is verified)
			}
			// the last assumptions may make the path infeasible
			if len(q.st.pc) > pcBefore {
				last := q.st.pc[len(q.st.pc)-1]
				if x.s.Check(x.withLemmas(relevant(q.st.pc, last), last)) == Unsat {
					continue
				}
			}
			m := map[*Term]*Term{}
			for _, t := range q.st.pc[pcBefore:] {
				x.solveEq(t, m, freshBefore)
			}
			r := Outcome{kind: ORet, st: q.st}
			for _, v := range res {
				r.vals = append(r.vals, x.substVal(x.bound(q.st, v), m))
			}
			for _, mp := range cx.mods {
				x.store(q.st, mp, x.substVal(x.load(q.st, mp), m))
			}
			for id := objBefore + 1; id <= x.nobj; id++ {
				if v := q.st.heap[id]; v != nil {
					q.st.heap[id] = x.substVal(v, m)
				}
			}
			for _, pw := range x.pendingW {
				if _, p, _ := x.wkey(q.st, pw.w); p != nil && q.st.heap[p.Obj] != nil {
					q.st.heap[p.Obj] = x.substVal(q.st.heap[p.Obj], m)
				}
			}
			for k, ws := range q.st.ghost {
				q.st.ghost[k] = &WState{x.substSeq(ws.Out, m), c.Subst(ws.Handed, m), c.Subst(ws.Failed, m)}
			}
			outs = append(outs, r)
		}
	}
	if len(outs) > 1 {
		x.paths += len(outs) - 1
	}
	return outs
}
func (x *Exec) setWRaw(st *State, w Val, ws *WState) {
	k, p, _ := x.wkey(st, w)
	if p != nil {
		// the representation is updated once the contract has fixed output and count
		x.wpend = append(x.wpend, k)
		x.setW(st, w, ws)
		return
	}
	st.ghost[k] = ws
}

// bound resolves results that a postcondition defined outright.
func (x *Exec) bound(st *State, v Val) Val {
	switch w := v.(type) {
	case *SliceVal:
		if b, ok := st.binds[w]; ok {
			bs := b.(*SliceVal)
			return &SliceVal{w.Nil, bs.Obj, bs.Path, bs.Off, bs.Len, bs.Cap, w.Elem}
		}
	case *StrVal:
		if b, ok := st.binds[w]; ok {
			s := b.(*SeqVal)
			return &StrVal{A: &ASeq{s}, Off: x.c.Const(64, 0), Len: x.seqLen(s)}
		}
	}
	return v
}

// solveEq extracts var := term bindings from an assumed fact, for variables created after id base.
func (x *Exec) solveEq(t *Term, m map[*Term]*Term, base int) {
	c := x.c
	t = c.Subst(t, m)
	isF := func(v *Term) bool { return v.op == OVar && v.id >= base && strings.Contains(v.name, "!") }
	set := func(v, e *Term) {
		if e.contains(v) {
			return
		}
		one := map[*Term]*Term{v: e}
		for k, o := range m {
			m[k] = c.Subst(o, one)
		}
		m[v] = e
	}
	switch {
	case isF(t):
		set(t, c.T)
	case t.op == ONot && isF(t.args[0]):
		set(t.args[0], c.F)
	case t.op == OEq:
		a, b := t.args[0], t.args[1]
		switch {
		case isF(a):
			set(a, b)
		case isF(b):
			set(b, a)
		case a.sort.w > 0 && a.sort.w <= 64:
			// linear: isolate a fresh variable with coefficient +-1
			d := c.Sub(a, b)
			if d.op == OLin {
				for i, v := range d.args {
					if !isF(v) {
						continue
					}
					w := d.sort.w
					if d.coefs[i] == 1 {
						set(v, c.Sub(v, d))
						return
					}
					if d.coefs[i] == mask(w) {
						set(v, c.Add(v, d))
						return
					}
				}
			}
		}
	}
}
func (x *Exec) runBodyDepth(fn *ssa.Function, bind, args []Val, st *State) []Outcome {
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 80 {
		unsup("contract recursion")
	}
	return x.runBody(fn, bind, args, st)
}
func (x *Exec) mkResult(st *State, t types.Type, name string) Val {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return x.mkSym(st, t, name)
	}
	return x.mkSym(st, t, name)
}

// havoc makes an unconstrained value of the same shape.
func (x *Exec) havoc(st *State, v Val, name string) Val {
	c := x.c
	switch v := v.(type) {
	case *Term:
		return c.Fresh(name, v.sort)
	case *StructVal:
		f := make([]Val, len(v.F))
		tt := v.T.Underlying().(*types.Struct)
		for i := range f {
			fn := name + "." + tt.Field(i).Name()
			if p, ok := v.F[i].(*PtrVal); ok && (p.Obj == 0 || st.heap[p.Obj] == nil) {
				c.fresh[fn]++
				f[i] = x.mkSym(st, tt.Field(i).Type(), fmt.Sprintf("%s!%d", fn, c.fresh[fn]))
				continue
			}
			f[i] = x.havoc(st, v.F[i], fn)
		}
		return &StructVal{v.T, f}
	case *ArrayVal:
		if e, ok := v.A.(*AExp); ok {
			o := make([]Val, len(e.E))
			for i := range o {
				o[i] = x.havoc(st, e.E[i], name)
			}
			return &ArrayVal{v.Elem, &AExp{o}}
		}
		c.fresh[name]++
		return &ArrayVal{v.Elem, &ABase{fmt.Sprintf("%s!%d.arr", name, c.fresh[name]), nil, v.Elem}}
	case *PtrVal:
		c.fresh[name]++
		nm := fmt.Sprintf("%s!%d", name, c.fresh[name])
		h, ok := st.heap[v.Obj]
		if !ok || h == nil || v.Obj == 0 {
			unsup("havoc of pointer %s", name)
		}
		o := x.newObj(st, x.havoc(st, x.loadPath(st, h, v.Path), nm))
		return &PtrVal{Nil: c.Var(nm+".nil", BoolS), Obj: o}
	case *IfaceVal:
		c.fresh[name]++
		nm := fmt.Sprintf("%s!%d", name, c.fresh[name])
		order := len(v.Alts) > 0
		for _, a := range v.Alts {
			if a.Op != nil || a.T != nil && a.T != x.leType && a.T != x.beType {
				order = false
			}
		}
		if order {
			return x.orderVal(c.Var(nm+".nil", BoolS), c.Var(nm+".be", BoolS))
		}
		nl := c.Var(nm+".nil", BoolS)
		return &IfaceVal{[]Alt{{Cond: nl}, {Cond: c.Not(nl), Op: c.Var(nm+".dyn", IfS)}}}
	case *SliceVal:
		c.fresh[name]++
		nm := fmt.Sprintf("%s!%d", name, c.fresh[name])
		return x.mkSym(st, types.NewSlice(v.Elem), nm)
	case *StrVal:
		return x.strAtom(st, c.Fresh(name+".str", StrS))
	case *MapC:
		return &MapC{c.Fresh(name, MapS), v.K, v.E}
	case *IterC:
		if v.Map != nil {
			return &IterC{Map: v.Map, I: c.Fresh(name, BV(64)), Pos: v.Pos}
		}
		if v.Str != nil {
			return &IterC{Str: v.Str, I: c.Fresh(name, BV(64))}
		}
	case *BigVal:
		return &BigVal{c.Fresh(name, BV(256))}
	case *BufVal:
		return &BufVal{x.seqApp(c.Fresh(name, SeqS))}
	}
	unsup("havoc of %T", v)
	return nil
}

// ---------------------------------------------------------------- verifying one function against its contract

type FnResult struct {
	Name      string
	Obls      []*Obl
	Used      []string
	Inlined   []string
	Trusted   []string
	Err       string
	Paths     int
	Queries   int
	SolverSec float64
	Sec       float64
	MaxQ      float64
	Covered   map[string]bool
}

func (x *Exec) verify(fn, cf *ssa.Function) {
	c := x.c
	x.root = fn
	st := x.initState()
	var args []Val
	for i, p := range fn.Params {
		v := x.mkSym(st, p.Type(), p.Name())
		args = append(args, v)
		x.inputs[p.Name()] = v
		if i == 0 && fn.Signature.Recv() != nil {
			if pv, ok := v.(*PtrVal); ok {
				st.assume(c.Not(pv.Nil))
				pv.Nil = c.F
			}
		}
	}
	x.baseState = st.clone()
	x.debugInv = strings.Contains(os.Getenv("VERIF_DEBUG"), "inv")
	if strings.Contains(os.Getenv("VERIF_DEBUG"), "forks") {
		x.forks = map[string]int{}
		defer func() {
			var ks []string
			for k := range x.forks {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return x.forks[ks[i]] > x.forks[ks[j]] })
			for i, k := range ks {
				if i < 40 {
					fmt.Println(x.forks[k], k)
				}
			}
		}()
	}
	cx := &cctx{pre: true, fn: fn}
	x.cctx = []*cctx{cx}
	pres := x.runBodyDepth(cf, nil, args, st)
	nfeas := 0
	name := shortName(fn)
	for _, p := range pres {
		if p.kind == OPanic {
			o := x.oblRec(name, "contract", "contract well-defined")
			o.N++
			if !x.valid(p.st, c.F) {
				x.fail(o, p.st, nil, "contract precondition code panics: "+p.msg)
			}
			continue
		}
		nfeas++
		st := p.st
		args := args
		// a parameter that the precondition fixes is replaced by its value
		for _, t := range st.pc {
			if t.op != OEq || t.args[0].sort != RTS {
				continue
			}
			a, b := t.args[0], t.args[1]
			if b.op == OVar {
				a, b = b, a
			}
			if a.op != OVar || b.contains(a) {
				continue
			}
			m := map[*Term]*Term{a: b}
			n := append([]Val{}, args...)
			for i := range n {
				n[i] = x.substVal(n[i], m)
			}
			args = n
			f := &Frame{env: map[ssa.Value]Val{}}
			x.substState(f, st, m)
		}
		pre := st.clone()
		mark := x.nobj
		x.rootBusy = false
		outs := x.callRoot(fn, args, st)
		for _, o := range outs {
			x.paths++
			if o.kind == OPanic && (cx.mayPanic || cx.byDesign && explicitPanic(o.msg) || (cx.byDesign || cx.calleePan) && strings.HasPrefix(o.msg, "panic allowed by")) {
				continue
			}
			if o.kind == OPanic {
				goal := c.F
				if cx.panicsOK != nil {
					goal = cx.panicsOK
				}
				ob := x.oblRec(name, "nopanic", "returns without panicking")
				ob.N++
				if !x.valid(o.st, goal) {
					x.fail(ob, o.st, goal, "may panic: "+o.msg)
				}
				continue
			}
			if !cx.mayPanic {
				x.oblRec(name, "nopanic", "returns without panicking").N++
			}
			if cx.panicsOK != nil {
				x.oblige(name, "nopanic", "panics when the contract says so", o.st, c.Not(cx.panicsOK))
			}
			post := p.vals[0].(*FuncVal)
			if post.Nil != c.T {
				cx2 := *cx
				cx2.pre = false
				cx2.old = pre
				x.cctx = append(x.cctx, &cx2)
				ps := x.runBodyDepth(post.Fn, post.Bind, o.vals, o.st.clone())
				x.cctx = x.cctx[:len(x.cctx)-1]
				for _, q := range ps {
					if q.kind == OPanic {
						ob := x.oblRec(name, "contract", "contract well-defined")
						ob.N++
						if !x.valid(q.st, c.F) {
							x.fail(ob, q.st, nil, "postcondition code panics: "+q.msg)
						}
					}
				}
			}
			if !cx.noFrame {
				x.frameCheck(name, cx, pre, o.st, mark)
			}
		}
	}
	if nfeas == 0 {
		o := x.oblRec(name, "contract", "precondition satisfiable")
		o.N++
		o.Fail++
		o.Why = "no execution satisfies the precondition (vacuous contract)"
	}
}
func (x *Exec) callRoot(fn *ssa.Function, args []Val, st *State) []Outcome {
	x.rootBusy = true
	defer func() { x.rootBusy = false }()
	x.inlined[fn.String()] = true
	return x.runBodyDepth(fn, nil, args, st)
}

// frameCheck proves that only the declared locations of pre-existing objects changed.
func (x *Exec) frameCheck(name string, cx *cctx, pre, post *State, mark int) {
	ob := x.oblRec(name, "frame", "modifies nothing else")
	ob.N++
	ids := sortedKeys(pre.heap)
	if _, ok := pre.heap[rheapID]; !ok && post.heap[rheapID] != nil {
		ids = append(ids, rheapID)
	}
	for _, id := range ids {
		if id > mark && id < globalBase && id != rheapID {
			continue
		}
		a, b := pre.heap[id], post.heap[id]
		if a == b || x.valKey(a) == x.valKey(b) {
			continue
		}
		if id == ghostIntID {
			continue
		}
		if id == rheapID {
			if l, ok := x.rwFrame(cx, pre, post); !ok {
				s := "something unknown"
				if l != nil {
					s = l.String()
				}
				x.fail(ob, post, nil, "writes through reflection outside the target: "+s)
				return
			}
			continue
		}
		for _, m := range cx.mods {
			if m.Obj == id {
				// overwrite the modified path in the pre value
				x.scratch = post
				a = x.storePath(post, a, m.Path, x.loadPath(post, b, m.Path))
			}
		}
		for _, m := range cx.modSl {
			if m.Obj == id {
				x.scratch = post
				aa, ok1 := x.loadPath(post, a, m.Path).(*ArrayVal)
				bb, ok2 := x.loadPath(post, b, m.Path).(*ArrayVal)
				if ok1 && ok2 {
					a = x.storePath(post, a, m.Path, &ArrayVal{aa.Elem, x.copyArr(aa.A, m.Off, bb.A, m.Off, m.Len, aa.Elem)})
				}
			}
		}
		if x.valKey(a) == x.valKey(b) {
			continue
		}
		if _, ok := a.(*IterC); ok {
			continue
		}
		if bad := x.differs(post, a, b); bad != nil {
			if !x.valid(post, bad) {
				x.fail(ob, post, bad, fmt.Sprintf("object %s changed outside the frame", x.objName(id)))
				return
			}
		}
	}
	// ghost outputs
	var ks []string
	for k := range post.ghost {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ok := false
		for _, m := range cx.modOut {
			if m == k {
				ok = true
			}
		}
		if o := pre.ghost[k]; !ok && o != nil && x.valKey(o) != x.valKey(post.ghost[k]) {
			x.fail(ob, post, nil, "writes to an encoder it may not write to")
		}
	}
}
func (x *Exec) objName(id int) string { return fmt.Sprintf("#%d", id) }

// differs returns the condition under which a and b are equal (nil if syntactically equal).
func (x *Exec) differs(st *State, a, b Val) *Term {
	c := x.c
	var r *Term
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(Unsupported); !ok {
					panic(e)
				}
				r = c.F
			}
		}()
		switch av := a.(type) {
		case *ArrayVal:
			bv := b.(*ArrayVal)
			_, ok1 := av.A.(*AExp)
			_, ok2 := bv.A.(*AExp)
			if ok1 && ok2 {
				r = x.eq(st, a, b)
				return
			}
			i := c.Fresh("sk", BV(64))
			x.scratch = st
			r = x.eq(st, x.rd(av.A, i, av.Elem), x.rd(bv.A, i, av.Elem))
		case *StructVal:
			bv := b.(*StructVal)
			var cs []*Term
			for i := range av.F {
				if x.valKey(av.F[i]) == x.valKey(bv.F[i]) {
					continue
				}
				cs = append(cs, x.differs(st, av.F[i], bv.F[i]))
			}
			r = c.And(cs...)
		case *SliceVal:
			bv := b.(*SliceVal)
			if av.Obj == bv.Obj && samePath(av.Path, bv.Path) {
				r = c.And(c.Eq(av.Off, bv.Off), c.Eq(av.Len, bv.Len), c.Eq(av.Nil, bv.Nil))
			} else {
				r = c.F
			}
		case *PtrVal:
			r = x.eq(st, a, b)
		case *MapC:
			r = c.Eq(av.T, b.(*MapC).T)
		default:
			r = x.eq(st, a, b)
		}
	}()
	return r
}
