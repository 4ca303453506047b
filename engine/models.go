package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func floatBits(f float64, w int) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(fr *Frame, st *State, name string, call *ssa.CallCommon, args []Val) []Outcome {
	c := x.c
	x.scratch = st
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case *SliceVal:
			if name == "cap" {
				return ret(st, v.Cap)
			}
			return ret(st, v.Len)
		case *StrVal:
			return ret(st, v.Len)
		case *MapVal:
			if v.Nil == c.T {
				return ret(st, c.Const(64, 0))
			}
			mc := st.heap[v.Obj].(*MapC)
			return ret(st, c.Ite(v.Nil, c.Const(64, 0), x.mapLen(st, mc.T)))
		case *ArrayVal:
			return ret(st, c.Const(64, uint64(call.Args[0].Type().Underlying().(*types.Array).Len())))
		case *SeqVal:
			return ret(st, x.seqLen(v))
		}
	case "append":
		a := args[0].(*SliceVal)
		switch b := args[1].(type) {
		case *SliceVal:
			return ret(st, x.appendTo(st, a, x.arrOf(st, b), b.Off, b.Len))
		case *StrVal:
			return ret(st, x.appendTo(st, a, b.A, b.Off, b.Len))
		}
	case "copy":
		d := args[0].(*SliceVal)
		var sa Arr
		var so, sl *Term
		switch b := args[1].(type) {
		case *SliceVal:
			sa, so, sl = x.arrOf(st, b), b.Off, b.Len
		case *StrVal:
			sa, so, sl = b.A, b.Off, b.Len
		}
		n := c.Ite(c.Ult(sl, d.Len), sl, d.Len)
		if x.valid(st, c.Ule(d.Len, sl)) {
			n = d.Len
		} else if x.valid(st, c.Ule(sl, d.Len)) {
			n = sl
		}
		if d.Obj != 0 {
			na := x.copyArr(x.arrOf(st, d), d.Off, sa, so, n, d.Elem)
			st.heap[d.Obj] = x.storePath(st, st.heap[d.Obj], d.Path, &ArrayVal{d.Elem, na})
		}
		return ret(st, n)
	case "delete":
		unsup("delete from a map")
	case "min", "max":
		w, sgn, ok := x.intInfo(call.Args[0].Type())
		if !ok {
			unsup("%s", name)
		}
		_ = w
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			lt := c.Ult(b, r)
			if sgn {
				lt = c.Slt(b, r)
			}
			if name == "max" {
				lt = c.Not(lt)
			}
			r = c.Ite(lt, b, r)
		}
		return ret(st, r)
	case "panic":
		return []Outcome{{kind: OPanic, st: st, msg: "panic"}}
	case "print", "println":
		return ret(st)
	case "recover":
		return ret(st, x.nilIface())
	case "ssa:wrapnilchk":
		p := args[0].(*PtrVal)
		if x.feasible(st, p.Nil) {
			s2 := st.clone()
			s2.assume(p.Nil)
			o := []Outcome{{kind: OPanic, st: s2, msg: "value method called using nil pointer"}}
			if !x.feasible(st, c.Not(p.Nil)) {
				return o
			}
			st.assume(c.Not(p.Nil))
			return append(o, Outcome{kind: ORet, st: st, vals: []Val{args[0]}})
		}
		return ret(st, args[0])
	}
	unsup("builtin %s", name)
	return nil
}

// appendTo models append as copying: the result is a new array.
func (x *Exec) appendTo(st *State, a *SliceVal, sa Arr, so, sl *Term) *SliceVal {
	c := x.c
	x.trusted["append yields a fresh array (aliasing through spare capacity is not modelled)"] = true
	n := c.Add(a.Len, sl)
	var na Arr
	if a.Len.isConst() && sl.isConst() && n.n <= 4096 {
		e := make([]Val, 0, n.n)
		if a.Len.n > 0 {
			aa := x.arrOf(st, a)
			for i := uint64(0); i < a.Len.n; i++ {
				e = append(e, x.rd(aa, c.AddC(a.Off, i), a.Elem))
			}
		}
		for i := uint64(0); i < sl.n; i++ {
			e = append(e, x.rd(sa, c.AddC(so, i), a.Elem))
		}
		na = &AExp{e}
	} else {
		if sl.isC(0) {
			return a
		}
		var base Arr = &AConst{x.zero(st, a.Elem)}
		if !a.Len.isC(0) {
			base = x.arrOf(st, a)
			if !a.Off.isC(0) {
				base = &ACopy{&AConst{x.zero(st, a.Elem)}, c.Const(64, 0), base, a.Off, a.Len}
			}
		}
		if e, ok := base.(*AExp); ok && (!a.Len.isConst() || a.Len.n+1 > uint64(len(e.E))) {
			base = &ACopy{&AConst{x.zero(st, a.Elem)}, c.Const(64, 0), base, c.Const(64, 0), a.Len}
		}
		if sl.isConst() && sl.n <= 64 {
			na = base
			for i := uint64(0); i < sl.n; i++ {
				na = &AStore{na, c.AddC(a.Len, i), x.rd(sa, c.AddC(so, i), a.Elem)}
			}
		} else {
			na = &ACopy{base, a.Len, sa, so, sl}
		}
		st.assume(c.Ult(n, c.Const(64, 1<<48)))
	}
	o := x.newObj(st, &ArrayVal{a.Elem, na})
	nl := c.F
	if sl.isConst() && sl.n == 0 {
		nl = a.Nil
	} else if !sl.isConst() {
		nl = c.And(a.Nil, c.Eq(sl, c.Const(64, 0)))
	}
	return &SliceVal{Nil: nl, Obj: o, Off: c.Const(64, 0), Len: n, Cap: n, Elem: a.Elem}
}

// ---------------------------------------------------------------- floats (bit patterns)

func (x *Exec) isNaN(t *Term) *Term {
	c := x.c
	if t.op == OApp && t.name == "f32to64" {
		return x.isNaN(t.args[0])
	}
	if t.op == OIte {
		return c.Ite(t.args[0], x.isNaN(t.args[1]), x.isNaN(t.args[2]))
	}
	if t.sort.w == 32 {
		return c.And(c.Eq(c.Extract(t, 30, 23), c.Const(8, 0xff)), c.Neq(c.Extract(t, 22, 0), c.Const(23, 0)))
	}
	return c.And(c.Eq(c.Extract(t, 62, 52), c.Const(11, 0x7ff)), c.Neq(c.Extract(t, 51, 0), c.Const(52, 0)))
}
func (x *Exec) floatEq(a, b *Term) *Term {
	c := x.c
	if a == b {
		return c.Not(x.isNaN(a))
	}
	w := a.sort.w
	z := func(t *Term) *Term { return c.Eq(c.Extract(t, w-2, 0), c.Const(w-1, 0)) }
	return c.And(c.Not(x.isNaN(a)), c.Not(x.isNaN(b)), c.Or(c.Eq(a, b), c.And(z(a), z(b))))
}
func (x *Exec) floatop(op token.Token, a, b *Term, w int) Val {
	c := x.c
	// order of finite floats from their bits
	less := func(a, b *Term, orEq bool) *Term {
		na, nb := c.Eq(c.Extract(a, w-1, w-1), c.Const(1, 1)), c.Eq(c.Extract(b, w-1, w-1), c.Const(1, 1))
		lt := c.Ite(na, c.Ite(nb, c.Ult(b, a), c.T), c.Ite(nb, c.F, c.Ult(a, b)))
		eq := x.floatEq(a, b)
		ok := c.And(c.Not(x.isNaN(a)), c.Not(x.isNaN(b)))
		if orEq {
			return c.And(ok, c.Or(lt, eq))
		}
		return c.And(ok, lt, c.Not(eq))
	}
	switch op {
	case token.EQL:
		return x.floatEq(a, b)
	case token.NEQ:
		return c.Not(x.floatEq(a, b))
	case token.LSS:
		return less(a, b, false)
	case token.LEQ:
		return less(a, b, true)
	case token.GTR:
		return less(b, a, false)
	case token.GEQ:
		return less(b, a, true)
	}
	return c.App(fmt.Sprintf("f%s:%d", op, w), BV(w), a, b)
}
func (x *Exec) floatConv(t *Term, from, to int) *Term {
	c := x.c
	if from == to {
		return t
	}
	if from == 32 {
		return c.App("f32to64", BV(64), t)
	}
	if t.op == OApp && t.name == "f32to64" {
		// exact for every value; signalling NaNs come back quiet (outside the statements)
		x.trusted["float32(float64(f)) has the bits of f"] = true
		return t.args[0]
	}
	return c.App("f64to32", BV(32), t)
}

// ---------------------------------------------------------------- maps

func sortTag(s *Sort) string {
	if s.w > 0 {
		return fmt.Sprint(s.w)
	}
	return s.name
}

// scal packs a map key or value into a single term.
func (x *Exec) scal(v Val) *Term {
	c := x.c
	switch v := v.(type) {
	case *Term:
		return v
	case *StrVal:
		if t := x.atomOf(v); t != nil {
			return t
		}
		x.scratchSeqAtom(v)
		return x.seqStrAtom(v)
	case *ArrayVal:
		if e, ok := v.A.(*AExp); ok && len(e.E) > 0 && len(e.E) <= 8 {
			var ts []*Term
			for _, b := range e.E {
				t, ok := b.(*Term)
				if !ok || t.sort.w != 8 {
					unsup("map key or value")
				}
				ts = append(ts, t)
			}
			return c.Concat(ts...)
		}
	}
	unsup("map key or value of shape %T", v)
	return nil
}
func (x *Exec) scratchSeqAtom(v *StrVal) {}

// seqStrAtom is the identity of a string given by its bytes.
func (x *Exec) seqStrAtom(v *StrVal) *Term {
	s := x.seqSlice(v.A, v.Off, v.Len)
	return x.c.App("str.ofseq", StrS, x.seqTerm(s))
}

// seqTerm is a canonical term for a byte sequence.
func (x *Exec) seqTerm(s *SeqVal) *Term {
	c := x.c
	if len(s.C) == 1 {
		if a, ok := s.C[0].(*CApp); ok {
			return a.T
		}
	}
	r := c.Var("seq:empty", SeqS)
	defer func() {
		if x.seqTab == nil {
			x.seqTab = map[*Term]*SeqVal{}
		}
		x.seqTab[r] = s
	}()
	for _, ch := range s.C {
		switch v := ch.(type) {
		case *CBytes:
			for _, b := range v.B {
				r = c.App("seq.snoc", SeqS, r, b)
			}
		case *CArr:
			if a, ok := v.A.(*AStrAtom); ok && v.Off.isC(0) && v.Len == c.App("str.len", BV(64), a.T) {
				r = c.App("seq.catstr", SeqS, r, a.T)
			} else {
				k, ts := x.shape(v)
				r = c.App("seq.catkey:"+k, SeqS, append([]*Term{r}, ts...)...)
			}
		case *CApp:
			r = c.App("seq.cat", SeqS, r, v.T)
		default:
			k, ts := x.shape(v)
			r = c.App("seq.catkey:"+k, SeqS, append([]*Term{r}, ts...)...)
		}
	}
	return r
}
func (x *Exec) unscal(st *State, t *Term, ty types.Type) Val {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return x.strAtom(st, t)
		}
		return t
	case *types.Array:
		n := int(u.Len())
		e := make([]Val, n)
		for i := range e {
			hi := 8*(n-i) - 1
			e[i] = x.c.Extract(t, hi, hi-7)
		}
		return &ArrayVal{u.Elem(), &AExp{e}}
	}
	return t
}
func (x *Exec) scalSort(ty types.Type) *Sort {
	if typeName(ty) == "reflect.Type" {
		return RTS
	}
	if s := x.scalarSort(ty); s != nil {
		return s
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return StrS
		}
	case *types.Array:
		if w, _, ok := x.intInfo(u.Elem()); ok && w == 8 && u.Len() > 0 && u.Len() <= 8 {
			return BV(8 * int(u.Len()))
		}
	}
	unsup("map key or value type %s", ty)
	return nil
}
func (x *Exec) mapStore(st *State, m *MapC, k, v Val) *MapC {
	x.scratch = st
	kt, vt := x.scal(k), x.scal(v)
	return &MapC{x.c.App("map.put:"+sortTag(kt.sort)+":"+sortTag(vt.sort), MapS, m.T, kt, vt), m.K, m.E}
}
func (x *Exec) mapGet(m, k *Term, vs *Sort) *Term {
	c := x.c
	if m.op == OIte {
		return c.Ite(m.args[0], x.mapGet(m.args[1], k, vs), x.mapGet(m.args[2], k, vs))
	}
	if m.op == OApp && strings.HasPrefix(m.name, "map.put:") {
		e := c.Eq(k, m.args[1])
		if e == c.T {
			return m.args[2]
		}
		return c.Ite(e, m.args[2], x.mapGet(m.args[0], k, vs))
	}
	return c.App("map.get:"+sortTag(k.sort)+":"+sortTag(vs), vs, m, k)
}
func (x *Exec) mapHas(m, k *Term) *Term {
	c := x.c
	if m.op == OVar && m.name == "map:empty" {
		return c.F
	}
	if m.op == OIte {
		return c.Ite(m.args[0], x.mapHas(m.args[1], k), x.mapHas(m.args[2], k))
	}
	if m.op == OApp && strings.HasPrefix(m.name, "map.put:") {
		return c.Or(c.Eq(k, m.args[1]), x.mapHas(m.args[0], k))
	}
	return c.App("map.has:"+sortTag(k.sort), BoolS, m, k)
}
func (x *Exec) mapLen(st *State, m *Term) *Term {
	c := x.c
	if m.op == OVar && m.name == "map:empty" {
		return c.Const(64, 0)
	}
	l := c.App("map.len", BV(64), m)
	st.assume(c.Ult(l, c.Const(64, 1<<40)))
	return l
}
func (x *Exec) mapLookup(st *State, m *MapVal, k Val, et types.Type) (Val, *Term) {
	c := x.c
	x.scratch = st
	z := x.zero(st, et)
	if m.Nil == c.T {
		return z, c.F
	}
	mc := st.heap[m.Obj].(*MapC)
	kt := x.scal(k)
	vs := x.scalSort(et)
	has := c.And(c.Not(m.Nil), x.mapHas(mc.T, kt))
	if vs == RTS && x.ghost == 0 {
		g := x.mapGet(mc.T, kt, vs)
		st.assume(c.Or(c.Eq(g, c.Var("rt:nil", RTS)), c.Not(x.kindIn(x.rtKind(g), kInvalid))))
	}
	v := x.unscal(st, c.Ite(has, x.mapGet(mc.T, kt, vs), x.scal(z)), et)
	return v, has
}

// next models range over strings (concrete only) and maps (not supported generically).
func (x *Exec) next(fr *Frame, st *State, in *ssa.Next) (Val, bool) {
	c := x.c
	it := x.get(fr, st, in.Iter).(*IterVal)
	ic := st.heap[it.Obj].(*IterC)
	if ic.Str != nil && ic.Str.Lit != nil {
		s := *ic.Str.Lit
		if ic.Pos >= len(s) {
			return TupleVal{c.F, c.Const(64, 0), c.Const(32, 0)}, false
		}
		for i, r := range s[ic.Pos:] {
			if i == 0 {
				n := len(string(r))
				if r == 0xfffd && s[ic.Pos] != 0xef {
					n = 1
				}
				st.heap[it.Obj] = &IterC{Str: ic.Str, I: ic.I, Pos: ic.Pos + n}
				return TupleVal{c.T, c.Const(64, uint64(ic.Pos)), c.Const(32, uint64(r))}, false
			}
		}
	}
	if ic.Map != nil {
		// an arbitrary next element; the iteration ends after map.len steps
		n := x.mapLen(st, ic.Map.T)
		p := c.Const(64, uint64(ic.Pos))
		if ic.I != nil {
			p = ic.I
		}
		ok := c.Ult(p, n)
		var kv, vv Val
		if !x.try(func() {
			kt := c.App("map.key:"+sortTag(x.scalSort(ic.Map.K)), x.scalSort(ic.Map.K), ic.Map.T, p)
			kv = x.unscal(st, kt, ic.Map.K)
			vv = x.unscal(st, x.mapGet(ic.Map.T, kt, x.scalSort(ic.Map.E)), ic.Map.E)
		}) {
			unsup("range over map of %s", ic.Map.K)
		}
		st.heap[it.Obj] = &IterC{Map: ic.Map, I: c.AddC(p, 1), Pos: ic.Pos + 1}
		return TupleVal{ok, kv, vv}, false
	}
	if ic.Str != nil {
		// rune number I of the string
		x.scratch = st
		a := x.scal(ic.Str)
		p := ic.I
		if p == nil || ic.Pos > 0 {
			unsup("range over a symbolic string")
		}
		n := c.App("str.runes.len", BV(64), a)
		st.assume(c.Ule(n, ic.Str.Len))
		r := c.App("str.rune@", BV(32), a, p)
		st.assume(c.Ule(r, c.Const(32, 0x10ffff)))
		off := c.App("str.runeoff", BV(64), a, p)
		ok := c.Ult(p, n)
		st.assume(c.Imp(ok, c.Ult(off, ic.Str.Len)))
		st.heap[it.Obj] = &IterC{Str: ic.Str, I: c.AddC(p, 1)}
		x.trusted["range over a string yields its runes in order, at most one per byte"] = true
		return TupleVal{ok, off, r}, false
	}
	unsup("range over a symbolic string")
	return nil, true
}

func (x *Exec) strOfRunes(st *State, s *SliceVal) Val {
	x.trusted["string([]rune) is some string"] = true
	return x.opaqueStr(st, "runestr")
}
func (x *Exec) strOfRune(st *State, t *Term) Val {
	if t.isConst() {
		return x.strLit(string(rune(t.n)))
	}
	r := x.strAtom(st, x.c.App("str.ofrune", StrS, t))
	st.assume(x.c.And(x.c.Ule(x.c.Const(64, 1), r.Len), x.c.Ule(r.Len, x.c.Const(64, 4))))
	return r
}

// ---------------------------------------------------------------- opaque interface methods

func (x *Exec) invokeOpaque(st *State, call *ssa.CallCommon, op *Term, args []Val) []Outcome {
	c := x.c
	it := typeName(call.Value.Type())
	m := call.Method.Name()
	self := &IfaceVal{[]Alt{{Cond: c.T, Op: op}}}
	switch {
	case m == "Write" && len(args) == 1:
		return x.doWrite(st, self, args[0].(*SliceVal))
	case m == "ReadByte" && it == "io.ByteReader":
		k := fmt.Sprintf("rd%d", op.id)
		ws := st.ghost[k]
		if ws == nil {
			ws = &WState{Out: &SeqVal{}, Handed: c.Const(64, 0), Failed: c.F}
		}
		more := c.Ult(ws.Handed, c.App("reader.len", BV(64), op))
		var outs []Outcome
		if x.feasible(st, c.Not(more)) {
			s2 := st.clone()
			s2.assume(c.Not(more))
			s2.ghost[k] = &WState{ws.Out, ws.Handed, c.T}
			outs = append(outs, Outcome{kind: ORet, st: s2, vals: []Val{c.Const(8, 0), x.opaqueIface("rd.err")}})
		}
		if x.feasible(st, more) {
			st.assume(more)
			st.ghost[k] = &WState{ws.Out, c.AddC(ws.Handed, 1), ws.Failed}
			outs = append(outs, Outcome{kind: ORet, st: st, vals: []Val{x.rd(&ABase{"reader.at", []*Term{op}, u8T}, ws.Handed, u8T), x.nilIface()}})
		}
		x.trusted["io.ByteReader: ReadByte returns the next byte of a fixed stream, or an error at its end"] = true
		return outs
	case m == "Error" && call.Signature().Results().Len() == 1, m == "String" && call.Signature().Results().Len() == 1:
		return ret(st, x.strAtom(st, c.Fresh("errstr", StrS)))
	}
	if outs, ok := x.invokeUser(st, call, op, args); ok {
		return outs
	}
	unsup("method %s of an unknown %s", m, call.Value.Type())
	return nil
}

// ---------------------------------------------------------------- models of library functions

func (x *Exec) opaqueStr(st *State, n string) Val { return x.strAtom(st, x.c.Fresh(n, StrS)) }

func (x *Exec) model(fn *ssa.Function, name string, args []Val, st *State) ([]Outcome, bool) {
	c := x.c
	if fn.Pkg == nil {
		if fn.Object() == nil || fn.Object().Pkg() == nil {
			return nil, false
		}
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	x.scratch = st
	trust := func(s string) { x.trusted[s] = true }
	switch path {
	case x.binPath:
		return nil, false
	case "fmt":
		switch fn.Name() {
		case "Errorf":
			trust("fmt.Errorf returns a non-nil error and has no other effect")
			return ret(st, x.opaqueIface("err")), true
		case "Sprintf", "Sprint", "Sprintln":
			trust("fmt.Sprintf returns some string and has no other effect")
			if s := x.sprintf(fn.Name(), args, st); s != nil {
				return ret(st, s), true
			}
			return ret(st, x.opaqueStr(st, "fmt")), true
		case "Println", "Printf", "Print":
			return ret(st, c.Fresh("n", BV(64)), x.nilIface()), true
		}
	case "errors":
		if fn.Name() == "New" {
			trust("errors.New returns a non-nil error")
			return ret(st, x.opaqueIface("err")), true
		}
	case "go.uber.org/zap", "go.uber.org/zap/zapcore", "github.com/streamingfast/logging":
		trust("zap logging calls return and do not touch encoder, decoder or data")
		rs := fn.Signature.Results()
		var vs []Val
		for i := 0; i < rs.Len(); i++ {
			c.fresh["zap"]++
			vs = append(vs, x.mkSym(st, rs.At(i).Type(), fmt.Sprintf("zap!%d", c.fresh["zap"])))
		}
		return ret(st, vs...), true
	case "encoding/hex":
		switch fn.Name() {
		case "EncodeToString":
			trust("hex.EncodeToString is a function of its argument's bytes")
			t := c.App("hex.enc", StrS, x.seqTerm(x.seqOfSlice(st, args[0].(*SliceVal))))
			return ret(st, x.textAtom(st, t)), true
		case "DecodeString":
			return x.hexDecode(st, args[0].(*StrVal)), true
		}
	case "math":
		switch fn.Name() {
		case "Float32bits", "Float64bits", "Float32frombits", "Float64frombits":
			trust("math.Float{32,64}{bits,frombits} preserve bit patterns")
			return ret(st, args[0]), true
		}
	case "math/bits":
		return nil, false
	case "bytes":
		if fn.Name() == "HasPrefix" && fn.Signature.Recv() == nil {
			a, p := args[0].(*SliceVal), args[1].(*SliceVal)
			if p.Len.isConst() && p.Len.n <= 16 {
				cs := []*Term{c.Ule(p.Len, a.Len)}
				aa, pa := x.arrOf(st, a), x.arrOf(st, p)
				for i := uint64(0); i < p.Len.n; i++ {
					cs = append(cs, c.Eq(x.rd(aa, c.AddC(a.Off, i), u8T).(*Term), x.rd(pa, c.AddC(p.Off, i), u8T).(*Term)))
				}
				return ret(st, c.And(cs...)), true
			}
		}
		if fn.Name() == "Equal" && fn.Signature.Recv() == nil {
			a, b := args[0].(*SliceVal), args[1].(*SliceVal)
			return ret(st, x.bytesEq(st, a, b)), true
		}
		if r, ok := x.bufMethod(fn, args, st); ok {
			trust("bytes.Buffer accumulates what is written to it")
			return r, true
		}
	case "strings":
		if fn.Signature.Recv() != nil {
			if r, ok := x.bufMethod(fn, args, st); ok {
				return r, true
			}
		}
		return x.stringsModel(fn, args, st)
	case "unicode":
		if fn.Signature.Recv() == nil && len(args) == 1 && fn.Signature.Results().Len() == 1 {
			if r, ok := args[0].(*Term); ok {
				trust("package unicode: functions of the rune, without effects")
				switch rs := x.scalarSort(fn.Signature.Results().At(0).Type()); {
				case rs == BoolS:
					return ret(st, c.App("unicode."+fn.Name(), BoolS, r)), true
				case rs != nil && rs.w == 32:
					return ret(st, c.App("unicode."+fn.Name(), BV(32), r)), true
				}
			}
		}
	case "crypto/sha256":
		sum := func(s *SeqVal) []Val {
			trust("sha256 is a function of the bytes hashed")
			t := x.seqTerm(s)
			e := make([]Val, 32)
			for i := range e {
				e[i] = c.App(fmt.Sprintf("sha256#%d", i), BV(8), t)
			}
			return e
		}
		switch fn.Name() {
		case "Sum256":
			return ret(st, &ArrayVal{u8T, &AExp{sum(x.seqOfSlice(st, args[0].(*SliceVal)))}}), true
		case "New":
			// a buffer of what is written; its methods are modelled in hashMethod
			if t := x.prog.digestType(); t != nil {
				o := x.newObj(st, &BufVal{&SeqVal{}})
				x.hashes[o] = sum
				return ret(st, x.mkIface([]Alt{{Cond: c.T, T: t, V: &PtrVal{Nil: c.F, Obj: o}}})), true
			}
		}
	case "crypto/internal/fips140/sha256":
		if r, ok := x.hashMethod(fn, args, st); ok {
			return r, true
		}
	case "math/big":
		return x.bigModel(fn, args, st)
	case "reflect":
		return x.reflectModel(fn, args, st)
	case "encoding/json", "strconv":
		return x.jsonModel(fn, args, st)
	case "sort":
		return x.sortModel(fn, args, st)
	}
	return nil, false
}

func (x *Exec) bytesEq(st *State, a, b *SliceVal) *Term {
	c := x.c
	n := a.Len
	if !n.isConst() {
		n = b.Len
	}
	if n.isConst() && n.n <= 64 {
		cs := []*Term{c.Eq(a.Len, b.Len)}
		aa, ba := x.arrOf(st, a), x.arrOf(st, b)
		for i := uint64(0); i < n.n; i++ {
			cs = append(cs, c.Eq(x.rd(aa, c.AddC(a.Off, i), u8T).(*Term), x.rd(ba, c.AddC(b.Off, i), u8T).(*Term)))
		}
		return c.And(cs...)
	}
	unsup("bytes.Equal of two slices of unknown length")
	return nil
}

func (x *Exec) bufMethod(fn *ssa.Function, args []Val, st *State) ([]Outcome, bool) {
	c := x.c
	if len(args) == 0 || fn.Signature.Recv() == nil {
		return nil, false
	}
	p, ok := args[0].(*PtrVal)
	if !ok || p.Obj == 0 {
		return nil, false
	}
	bv, ok := x.load(st, p).(*BufVal)
	if !ok {
		return nil, false
	}
	add := func(s *SeqVal) {
		x.store(st, p, &BufVal{x.cat(bv.S, s)})
		k := fmt.Sprintf("obj%d", p.Obj)
		if ws := st.ghost[k]; ws != nil {
			st.ghost[k] = &WState{x.cat(bv.S, s), c.Add(ws.Handed, x.seqLen(s)), ws.Failed}
		}
	}
	switch fn.Name() {
	case "Write":
		sl := args[1].(*SliceVal)
		add(x.seqOfSlice(st, sl))
		return ret(st, sl.Len, x.nilIface()), true
	case "WriteString":
		s := args[1].(*StrVal)
		add(x.seqSlice(s.A, s.Off, s.Len))
		return ret(st, s.Len, x.nilIface()), true
	case "WriteRune":
		r := x.strOfRune(st, args[1].(*Term)).(*StrVal)
		add(x.seqSlice(r.A, r.Off, r.Len))
		return ret(st, r.Len, x.nilIface()), true
	case "WriteByte":
		add(&SeqVal{[]Chunk{&CBytes{[]*Term{args[1].(*Term)}}}})
		return ret(st, x.nilIface()), true
	case "Bytes":
		l := x.seqLen(bv.S)
		o := x.newObj(st, &ArrayVal{u8T, &ASeq{bv.S}})
		return ret(st, &SliceVal{Nil: c.Eq(l, c.Const(64, 0)), Obj: o, Off: c.Const(64, 0), Len: l, Cap: l, Elem: u8T}), true
	case "String":
		l := x.seqLen(bv.S)
		if !l.isConst() {
			st.assume(c.Ult(l, c.Const(64, 1<<45))) // like every string
		}
		return ret(st, &StrVal{A: &ASeq{bv.S}, Off: c.Const(64, 0), Len: l}), true
	case "Len":
		return ret(st, x.seqLen(bv.S)), true
	case "Grow":
		return ret(st), true
	case "Reset":
		x.store(st, p, &BufVal{&SeqVal{}})
		return ret(st), true
	}
	return nil, false
}

// hashMethod: a hash is the buffer of what was written to it.
func (x *Exec) hashMethod(fn *ssa.Function, args []Val, st *State) ([]Outcome, bool) {
	c := x.c
	if len(args) == 0 || fn.Signature.Recv() == nil {
		return nil, false
	}
	p, ok := args[0].(*PtrVal)
	if !ok || x.hashes[p.Obj] == nil {
		return nil, false
	}
	switch fn.Name() {
	case "Write":
		return x.bufMethod(fn, args, st)
	case "Reset":
		x.store(st, p, &BufVal{&SeqVal{}})
		return ret(st), true
	case "Size":
		return ret(st, c.Const(64, 32)), true
	case "Sum":
		bv := x.load(st, p).(*BufVal)
		pre := x.seqOfSlice(st, args[1].(*SliceVal))
		var bs []*Term
		for _, v := range x.hashes[p.Obj](bv.S) {
			bs = append(bs, v.(*Term))
		}
		s := x.cat(pre, &SeqVal{[]Chunk{&CBytes{bs}}})
		l := x.seqLen(s)
		o := x.newObj(st, &ArrayVal{u8T, &ASeq{s}})
		return ret(st, &SliceVal{Nil: c.F, Obj: o, Off: c.Const(64, 0), Len: l, Cap: l, Elem: u8T}), true
	}
	return nil, false
}

func (x *Exec) stringsModel(fn *ssa.Function, args []Val, st *State) ([]Outcome, bool) {
	c := x.c
	x.trusted["package strings: functions return without panicking; results are functions of the arguments"] = true
	switch fn.Name() {
	case "HasPrefix":
		s, p := args[0].(*StrVal), args[1].(*StrVal)
		if p.Lit != nil && len(*p.Lit) <= 16 {
			cs := []*Term{c.Ule(p.Len, s.Len)}
			for i := 0; i < len(*p.Lit); i++ {
				cs = append(cs, c.Eq(x.rd(s.A, c.AddC(s.Off, uint64(i)), u8T).(*Term), c.Const(8, uint64((*p.Lit)[i]))))
			}
			return ret(st, c.And(cs...)), true
		}
	case "Map":
		s := args[1].(*StrVal)
		f, ok := args[0].(*FuncVal)
		if ok && f.Fn != nil {
			t := c.App("strings.Map:"+f.Fn.Name(), StrS, x.scal(s))
			return ret(st, x.strAtom(st, t)), true
		}
	}
	// a function handed over is called with runes of the string: it must not panic or change anything
	var panics []Outcome
	for i, a := range args {
		f, ok := a.(*FuncVal)
		if !ok {
			continue
		}
		if f.Fn == nil || f.Fn.Signature.Params().Len() != 1 || !types.Identical(f.Fn.Signature.Params().At(0).Type(), types.Typ[types.Int32]) {
			unsup("function handed to strings.%s", fn.Name())
		}
		s2 := st.clone()
		r := c.Fresh("rune", BV(32))
		s2.assume(c.Ule(r, c.Const(32, 0x10ffff)))
		for _, o := range x.callVal(nil, s2, f, []Val{r}) {
			if o.kind == OPanic {
				panics = append(panics, o)
				continue
			}
			for id, v := range st.heap {
				if x.valKey(o.st.heap[id]) != x.valKey(v) {
					unsup("function handed to strings.%s changes state", fn.Name())
				}
			}
		}
		args = append(append([]Val{}, args[:i]...), args[i+1:]...)
		break
	}
	u64 := func(n int) *Term { return c.Const(64, uint64(n)) }
	switch fn.Name() {
	case "TrimPrefix":
		s, p := args[0].(*StrVal), args[1].(*StrVal)
		if p.Lit != nil && len(*p.Lit) <= 16 {
			outs, _ := x.stringsModel(fn.Pkg.Func("HasPrefix"), args, st)
			k := outs[0].vals[0].(*Term)
			var res []Outcome
			if x.feasible(st, k) {
				s1 := st.clone()
				s1.assume(k)
				res = append(res, ret(s1, &StrVal{A: s.A, Off: c.AddC(s.Off, uint64(len(*p.Lit))), Len: c.Sub(s.Len, p.Len)})...)
			}
			if nk := c.Not(k); x.feasible(st, nk) {
				st.assume(nk)
				res = append(res, ret(st, s)...)
			}
			return res, true
		}
	case "SplitN":
		// the pieces around the first separator
		s, p := args[0].(*StrVal), args[1].(*StrVal)
		if n := args[2].(*Term); p.Lit != nil && len(*p.Lit) == 1 && n.isC(2) {
			ix := c.App("strings.Index:"+*p.Lit, BV(64), x.scal(s))
			neg := c.Eq(ix, c.Const(64, ^uint64(0)))
			st.assume(c.Or(neg, c.Ult(ix, s.Len)))
			sep := c.Const(8, uint64((*p.Lit)[0]))
			at := func(i *Term) *Term { return x.rd(s.A, c.Add(s.Off, i), u8T).(*Term) }
			st.assume(c.Or(neg, c.Eq(at(ix), sep)))
			for j := 0; j < 12; j++ {
				st.assume(c.Imp(c.And(c.Ult(u64(j), s.Len), c.Ult(u64(j), ix)), c.Neq(at(u64(j)), sep)))
			}
			var res []Outcome
			mk := func(st *State, es ...Val) {
				o := x.newObj(st, &ArrayVal{types.Typ[types.String], &AExp{es}})
				res = append(res, ret(st, &SliceVal{Nil: c.F, Obj: o, Off: u64(0), Len: u64(len(es)), Cap: u64(len(es)), Elem: types.Typ[types.String]})...)
			}
			if x.feasible(st, neg) {
				s1 := st.clone()
				s1.assume(neg)
				mk(s1, s)
			}
			if pos := c.Not(neg); x.feasible(st, pos) {
				st.assume(pos)
				i := ix
				for j := 0; j < 12; j++ {
					if x.valid(st, c.Eq(ix, u64(j))) {
						i = u64(j)
						break
					}
				}
				mk(st, &StrVal{A: s.A, Off: s.Off, Len: i}, &StrVal{A: s.A, Off: c.AddC(c.Add(s.Off, i), 1), Len: c.Sub(c.Sub(s.Len, i), u64(1))})
			}
			return res, true
		}
	}
	// anything else: an unknown function of the arguments
	var ts []*Term
	if !x.try(func() {
		for _, a := range args {
			ts = append(ts, x.flat(st, a)...)
		}
	}) {
		c.fresh["strs"]++
		ts = []*Term{c.Fresh("strs", BV(64))}
	}
	rs := fn.Signature.Results()
	var vs []Val
	for i := 0; i < rs.Len(); i++ {
		v := x.mkSym(st, rs.At(i).Type(), fmt.Sprintf("strings.%s.%d", fn.Name(), i), ts...)
		if sl, ok := v.(*SliceVal); ok && fn.Name() == "Split" {
			if p := args[1].(*StrVal); p.Lit != nil && *p.Lit != "" {
				st.assume(c.Ule(u64(1), sl.Len))
			}
			sl.Nil = c.F
		}
		vs = append(vs, v)
	}
	return append(panics, ret(st, vs...)...), true
}

// ---------------------------------------------------------------- math/big as 256-bit two's complement

type ABig struct{ T *Term }

func (x *Exec) bigModel(fn *ssa.Function, args []Val, st *State) ([]Outcome, bool) {
	c := x.c
	if fn.Name() == "NewInt" && fn.Signature.Recv() == nil {
		o := x.newObj(st, &BigVal{c.SExt(args[0].(*Term), 256)})
		return ret(st, &PtrVal{Nil: c.F, Obj: o}), true
	}
	x.trusted["math/big integers as 256-bit two's complement (magnitudes below 2^255)"] = true
	if fn.Signature.Recv() == nil {
		return nil, false
	}
	p, ok := args[0].(*PtrVal)
	if !ok {
		return nil, false
	}
	big := func(v Val) *Term {
		b, ok := x.load(st, v.(*PtrVal)).(*BigVal)
		if !ok {
			unsup("big.Int contents")
		}
		return b.T
	}
	set := func(t *Term) []Outcome {
		x.store(st, p, &BigVal{t})
		return ret(st, p)
	}
	neg := func(t *Term) *Term { return c.Slt(t, c.Const(256, 0)) }
	switch fn.Name() {
	case "SetBytes":
		sl := args[1].(*SliceVal)
		a := x.arrOf(st, sl)
		if b, ok := a.(*ABigArr); ok && sl.Off.isC(0) {
			return set(b.T), true
		}
		if !sl.Len.isConst() || sl.Len.n > 31 {
			unsup("SetBytes of %s bytes", sl.Len)
		}
		if sl.Len.n == 0 {
			return set(c.Const(256, 0)), true
		}
		var ts []*Term
		for i := uint64(0); i < sl.Len.n; i++ {
			ts = append(ts, x.rd(a, c.AddC(sl.Off, i), u8T).(*Term))
		}
		return set(c.ZExt(c.Concat(ts...), 256)), true
	case "SetUint64":
		return set(c.ZExt(args[1].(*Term), 256)), true
	case "SetInt64":
		return set(c.SExt(args[1].(*Term), 256)), true
	case "Set":
		return set(big(args[1])), true
	case "Add":
		return set(c.Add(big(args[1]), big(args[2]))), true
	case "Sub":
		return set(c.Sub(big(args[1]), big(args[2]))), true
	case "Neg":
		return set(c.Sub(c.Const(256, 0), big(args[1]))), true
	case "Or":
		return set(c.BOr(big(args[1]), big(args[2]))), true
	case "And":
		return set(c.BAnd(big(args[1]), big(args[2]))), true
	case "Lsh":
		n := args[2].(*Term)
		if !n.isConst() || n.n > 200 {
			unsup("big.Int.Lsh by a variable")
		}
		t := big(args[1])
		if n.n == 0 {
			return set(t), true
		}
		return set(c.Concat(c.Extract(t, 255-int(n.n), 0), c.Const(int(n.n), 0))), true
	case "Rsh":
		n := args[2].(*Term)
		if !n.isConst() || n.n > 255 {
			unsup("big.Int.Rsh by a variable")
		}
		return set(c.SExt(c.Extract(big(args[1]), 255, int(n.n)), 256)), true
	case "Sign":
		t := big(args[0])
		return ret(st, c.Ite(neg(t), c.Const(64, ^uint64(0)), c.Ite(c.Eq(t, c.Const(256, 0)), c.Const(64, 0), c.Const(64, 1)))), true
	case "Cmp":
		a, b := big(args[0]), big(args[1])
		return ret(st, c.Ite(c.Slt(a, b), c.Const(64, ^uint64(0)), c.Ite(c.Eq(a, b), c.Const(64, 0), c.Const(64, 1)))), true
	case "BitLen":
		t := big(args[0])
		abs := c.Ite(neg(t), c.Sub(c.Const(256, 0), t), t)
		bl := c.App("big.bitlen", BV(64), abs)
		st.assume(c.Ule(bl, c.Const(64, 256)))
		for _, k := range []int{0, 63, 64, 120, 127, 128, 129} {
			st.assume(c.Eq(c.Ule(bl, c.Const(64, uint64(k))), c.Eq(c.Extract(abs, 255, k), c.Const(256-k, 0))))
		}
		return ret(st, bl), true
	case "IsUint64":
		return ret(st, c.Eq(c.Extract(big(args[0]), 255, 64), c.Const(192, 0))), true
	case "Uint64":
		return ret(st, c.Extract(big(args[0]), 63, 0)), true
	case "Int64":
		return ret(st, c.Extract(big(args[0]), 63, 0)), true
	case "Bytes":
		t := big(args[0])
		abs := c.Ite(neg(t), c.Sub(c.Const(256, 0), t), t)
		ln := c.App("big.bytelen", BV(64), abs)
		st.assume(c.Ule(ln, c.Const(64, 32)))
		o := x.newObj(st, &ArrayVal{u8T, &ABigArr{abs, ln}})
		return ret(st, &SliceVal{Nil: c.F, Obj: o, Off: c.Const(64, 0), Len: ln, Cap: ln, Elem: u8T}), true
	case "FillBytes":
		t := big(args[0])
		sl := args[1].(*SliceVal)
		if !sl.Len.isConst() || sl.Len.n > 31 || sl.Len.n == 0 {
			unsup("FillBytes of a slice of unknown length")
		}
		w := int(sl.Len.n) * 8
		abs := c.Ite(neg(t), c.Sub(c.Const(256, 0), t), t)
		fit := c.Eq(c.Extract(abs, 255, w), c.Const(256-w, 0))
		var outs []Outcome
		if x.feasible(st, c.Not(fit)) {
			s2 := st.clone()
			s2.assume(c.Not(fit))
			outs = append(outs, Outcome{kind: OPanic, st: s2, msg: "math/big: buffer too small to fit value"})
			if !x.feasible(st, fit) {
				return outs, true
			}
		}
		st.assume(fit)
		a := x.arrOf(st, sl)
		for i := uint64(0); i < sl.Len.n; i++ {
			hi := w - 1 - 8*int(i)
			a = x.wr(a, c.AddC(sl.Off, i), c.Extract(abs, hi, hi-7))
		}
		st.heap[sl.Obj] = x.storePath(st, st.heap[sl.Obj], sl.Path, &ArrayVal{sl.Elem, a})
		return append(outs, Outcome{kind: ORet, st: st, vals: []Val{sl}}), true
	case "String":
		x.trusted["big.Int.String and SetString are inverse on decimal strings"] = true
		return ret(st, x.textAtom(st, c.App("big.dec", StrS, big(args[0])))), true
	case "SetString":
		s := args[1].(*StrVal)
		at := x.scal(s)
		if at.op == OApp && at.name == "big.dec" {
			x.store(st, p, &BigVal{at.args[0]})
			return ret(st, p, c.T), true
		}
		v := c.App("big.parse", BV(256), at)
		okT := c.App("big.parseok", BoolS, at)
		// magnitudes outside the modelled range only have to be recognised as large
		x.store(st, p, &BigVal{v})
		return ret(st, p, okT), true
	}
	return nil, false
}

// ABigArr is the minimal big-endian representation of an abstract magnitude.
type ABigArr struct{ T, Len *Term }

func (x *Exec) hexDecode(st *State, s *StrVal) []Outcome {
	c := x.c
	x.trusted["hex.DecodeString inverts hex.EncodeToString and rejects everything that is not pairs of hex digits"] = true
	at := x.scal(s)
	n := c.Lshr(s.Len, c.Const(64, 1))
	if at.op == OApp && at.name == "hex.enc" {
		sq := x.seqTab[at.args[0]]
		if sq == nil {
			sq = x.seqApp(at.args[0])
		}
		l := x.seqLen(sq)
		o := x.newObj(st, &ArrayVal{u8T, &ASeq{sq}})
		return ret(st, &SliceVal{Nil: c.F, Obj: o, Off: c.Const(64, 0), Len: l, Cap: l, Elem: u8T}, x.nilIface())
	}
	okT := c.App("hex.ok", BoolS, at)
	var outs []Outcome
	if x.feasible(st, c.Not(okT)) {
		s2 := st.clone()
		s2.assume(c.Not(okT))
		c.fresh["hexbad"]++
		outs = append(outs, Outcome{kind: ORet, st: s2, vals: []Val{x.mkSym(s2, types.NewSlice(u8T), fmt.Sprintf("hexbad!%d", c.fresh["hexbad"])), x.opaqueIface("hexerr")}})
	}
	st.assume(okT)
	st.assume(c.Eq(c.BAnd(s.Len, c.Const(64, 1)), c.Const(64, 0)))
	o := x.newObj(st, &ArrayVal{u8T, &ABase{"hex.dec", []*Term{at}, u8T}})
	return append(outs, Outcome{kind: ORet, st: st, vals: []Val{&SliceVal{Nil: c.F, Obj: o, Off: c.Const(64, 0), Len: n, Cap: n, Elem: u8T}, x.nilIface()}})
}

func (x *Exec) sortModel(fn *ssa.Function, args []Val, st *State) ([]Outcome, bool) {
	if fn.Name() == "Slice" || fn.Name() == "SliceStable" {
		return x.sortSlice(args, st)
	}
	return nil, false
}
