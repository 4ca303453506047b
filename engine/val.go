package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values
//
// A Val is the symbolic value of a Go expression. Scalars are *Term; everything else is one of the structs below.
// All Vals are immutable.

type Val interface{}

type StructVal struct {
	T types.Type
	F []Val
}

// ArrayVal is the content of a Go array or of the backing store of a slice.
type ArrayVal struct {
	Elem types.Type
	A    Arr
}
type PE struct {
	F int
	I *Term // index if non-nil
}
type PtrVal struct {
	Nil  *Term
	Obj  int
	Path []PE
}
type SliceVal struct {
	Nil           *Term
	Obj           int
	Path          []PE
	Off, Len, Cap *Term
	Elem          types.Type
}
type StrVal struct {
	A        Arr
	Off, Len *Term
	Atom     *Term   // identity as a term of sort Str, if known
	Lit      *string // constant strings
}

// IfaceVal is a guarded choice of dynamic values; guards are exhaustive and exclusive.
type Alt struct {
	Cond *Term
	T    types.Type // dynamic type; nil with Op==nil means the nil interface
	V    Val
	Op   *Term // opaque non-nil dynamic value
}
type IfaceVal struct{ Alts []Alt }
type MapVal struct {
	Nil *Term
	Obj int
}
type MapC struct { // contents of a map object
	T *Term // term of sort Map
	K types.Type
	E types.Type
}
type FuncVal struct {
	Nil  *Term
	Fn   *ssa.Function
	Bind []Val
}
type BuiltinVal struct{ Name string }
type TupleVal []Val
type BufVal struct{ S *SeqVal } // contents of a bytes.Buffer / strings.Builder
type BigVal struct{ T *Term }   // contents of a big.Int: two's complement, 256 bits
type IterVal struct{ Obj int }  // range iterator cell
type IterC struct {
	Str *StrVal
	I   *Term
	Map *MapC
	Pos int
}

// ---------------------------------------------------------------- arrays

type Arr interface{}
type AExp struct{ E []Val }
type ABase struct {
	Name string
	Args []*Term
	T    types.Type
}
type AConst struct{ V Val }
type AStore struct {
	P Arr
	I *Term
	V Val
}
type ACopy struct {
	P  Arr
	D  *Term
	S  Arr
	SO *Term
	N  *Term
}
type AIte struct {
	C    *Term
	A, B Arr
}

// ALam: for q in [0,N), r in [0,K): element Lo+q*K+r is Body[r] with Var:=q; elsewhere P.
type ALam struct {
	P    Arr
	Lo   *Term
	N    *Term
	K    int
	Var  *Term
	Body []Val
}
type ASeq struct{ S *SeqVal }
type AStrAtom struct{ T *Term }

// ---------------------------------------------------------------- sequences of bytes

type Chunk interface{}
type CBytes struct{ B []*Term }
type CArr struct {
	A        Arr
	Off, Len *Term
}
type CApp struct { // opaque sequence-valued function application
	T   *Term // term of sort Seq identifying it
	Len *Term
}
type CRep struct { // concatenation over i in [0,N) of Body[Var:=i]
	N    *Term
	Var  *Term
	Body *SeqVal
	Pre  *Term // length of the concatenation of the first i bodies, with Var:=i (a term in Var)
}
type CIte struct {
	C    *Term
	A, B *SeqVal
}
type SeqVal struct{ C []Chunk }

// ---------------------------------------------------------------- state

type Forall struct {
	N    *Term
	Var  *Term
	Body *Term
	Key  string
}
type WState struct {
	Out    *SeqVal
	Handed *Term
	Failed *Term
}
type State struct {
	pc      []*Term
	heap    map[int]Val
	ghost   map[string]*WState
	foralls []*Forall
	globals map[*ssa.Global]int
	binds   map[Val]Val // results defined outright by an assumed postcondition
	alloc   *allocMark  // objects allocated since a mark
}
type allocMark struct{ base int }

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], foralls: s.foralls[:len(s.foralls):len(s.foralls)], binds: s.binds, alloc: s.alloc}
	n.heap = make(map[int]Val, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.globals = s.globals
	n.ghost = make(map[string]*WState, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}
func (s *State) assume(t *Term) {
	if t.op == OConst && t.n == 1 {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.pc {
		if p == t {
			return
		}
	}
	s.pc = append(s.pc, t)
}

// ---------------------------------------------------------------- unsupported constructs

type Unsupported struct{ Msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

// ---------------------------------------------------------------- types

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}
func (x *Exec) intInfo(t types.Type) (w int, sgn bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}
func isFloat(t types.Type) int {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0
	}
	switch b.Kind() {
	case types.Float32:
		return 32
	case types.Float64, types.UntypedFloat:
		return 64
	}
	return 0
}
func (x *Exec) scalarSort(t types.Type) *Sort {
	switch typeName(t) {
	case "reflect.Value":
		return RVS
	case "reflect.Type":
		return RTS
	}
	if w, _, ok := x.intInfo(t); ok {
		return BV(w)
	}
	if w := isFloat(t); w > 0 {
		return BV(w)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Bool || b.Kind() == types.UntypedBool) {
		return BoolS
	}
	return nil
}

// mkSym makes a symbolic value of type t whose leaves are named name(args...).
func (x *Exec) mkSym(st *State, t types.Type, name string, args ...*Term) Val {
	c := x.c
	if s := x.scalarSort(t); s != nil {
		return c.App(name, s, args...)
	}
	switch typeName(t) {
	case "encoding/binary.ByteOrder":
		be := c.App(name+".be", BoolS, args...)
		nl := c.App(name+".nil", BoolS, args...)
		return x.orderVal(nl, be)
	case "math/big.Int":
		return &BigVal{c.App(name+".big", BV(256), args...)}
	case x.binPath + ".Seq":
		return x.seqApp(c.App(name+".seq", SeqS, args...))
	case "bytes.Buffer", "strings.Builder":
		return &BufVal{x.seqApp(c.App(name+".buf", SeqS, args...))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return x.strAtom(st, c.App(name+".str", StrS, args...))
		}
		if u.Kind() == types.UnsafePointer {
			return &PtrVal{Nil: c.T}
		}
	case *types.Struct:
		sv := &StructVal{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.mkSym(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), args...))
		}
		return sv
	case *types.Array:
		n := int(u.Len())
		if n <= 64 {
			e := make([]Val, n)
			for i := range e {
				e[i] = x.mkSym(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i), args...)
			}
			return &ArrayVal{Elem: u.Elem(), A: &AExp{e}}
		}
		return &ArrayVal{Elem: u.Elem(), A: &ABase{name + ".arr", args, u.Elem()}}
	case *types.Slice:
		o := x.newObj(st, &ArrayVal{Elem: u.Elem(), A: &ABase{name + ".arr", args, u.Elem()}})
		nl := c.App(name+".nil", BoolS, args...)
		ln := c.App(name+".len", BV(64), args...)
		cp := c.App(name+".cap", BV(64), args...)
		st.assume(c.Ule(ln, cp))
		st.assume(c.Ult(cp, c.Const(64, 1<<45)))
		st.assume(c.Imp(nl, c.Eq(cp, c.Const(64, 0))))
		return &SliceVal{Nil: nl, Obj: o, Off: c.Const(64, 0), Len: ln, Cap: cp, Elem: u.Elem()}
	case *types.Pointer:
		if len(args) > 0 {
			unsup("symbolic pointer under an index: %s", name)
		}
		nl := c.App(name+".nil", BoolS, args...)
		o := x.newObj(st, nil)
		st.heap[o] = x.mkSym(st, u.Elem(), name+".*", args...)
		return &PtrVal{Nil: nl, Obj: o}
	case *types.Interface:
		nl := c.App(name+".nil", BoolS, args...)
		op := c.App(name+".dyn", IfS, args...)
		return &IfaceVal{[]Alt{{Cond: nl}, {Cond: c.Not(nl), Op: op}}}
	case *types.Map:
		nl := c.App(name+".nil", BoolS, args...)
		o := x.newObj(st, &MapC{T: c.App(name+".map", MapS, args...), K: u.Key(), E: u.Elem()})
		st.assume(c.Imp(nl, c.Eq(c.App("map.len", BV(64), c.App(name+".map", MapS, args...)), c.Const(64, 0))))
		return &MapVal{Nil: nl, Obj: o}
	case *types.Signature:
		return &FuncVal{Nil: c.F}
	case *types.Tuple:
		tv := TupleVal{}
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.mkSym(st, u.At(i).Type(), fmt.Sprintf("%s#%d", name, i), args...))
		}
		return tv
	}
	unsup("symbolic value of type %s", t)
	return nil
}
func (x *Exec) orderVal(nl, be *Term) *IfaceVal {
	c := x.c
	return x.mkIface([]Alt{{Cond: nl}, {Cond: c.And(c.Not(nl), c.Not(be)), T: x.leType, V: &StructVal{T: x.leType}}, {Cond: c.And(c.Not(nl), be), T: x.beType, V: &StructVal{T: x.beType}}})
}
func (x *Exec) mkIface(alts []Alt) *IfaceVal {
	var out []Alt
	for _, a := range alts {
		if a.Cond != x.c.F {
			out = append(out, a)
		}
	}
	return &IfaceVal{out}
}
func (x *Exec) nilIface() *IfaceVal { return &IfaceVal{[]Alt{{Cond: x.c.T}}} }
func (x *Exec) opaqueIface(name string) *IfaceVal {
	return &IfaceVal{[]Alt{{Cond: x.c.T, Op: x.c.Fresh(name, IfS)}}}
}
func (x *Exec) ifaceNil(v Val) *Term {
	iv := v.(*IfaceVal)
	var cs []*Term
	for _, a := range iv.Alts {
		if a.T == nil && a.Op == nil {
			cs = append(cs, a.Cond)
		}
	}
	return x.c.Or(cs...)
}

func (x *Exec) newObj(st *State, v Val) int {
	x.nobj++
	st.heap[x.nobj] = v
	return x.nobj
}

// zero value
func (x *Exec) zero(st *State, t types.Type) Val {
	c := x.c
	switch typeName(t) {
	case "reflect.Value":
		return c.Var("rv:zero", RVS)
	case "reflect.Type":
		return c.Var("rt:nil", RTS)
	case "bytes.Buffer", "strings.Builder":
		return &BufVal{&SeqVal{}}
	case "math/big.Int":
		return &BigVal{c.Const(256, 0)}
	case x.binPath + ".Seq":
		return &SeqVal{}
	}
	if s := x.scalarSort(t); s != nil {
		if s == BoolS {
			return c.F
		}
		return c.Const(s.w, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return x.strLit("")
		}
		if u.Kind() == types.UnsafePointer {
			return &PtrVal{Nil: c.T}
		}
	case *types.Struct:
		sv := &StructVal{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.zero(st, u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		z := x.zero(st, u.Elem())
		if u.Len() <= 4096 {
			e := make([]Val, u.Len())
			for i := range e {
				e[i] = z
			}
			return &ArrayVal{u.Elem(), &AExp{e}}
		}
		return &ArrayVal{u.Elem(), &AConst{z}}
	case *types.Slice:
		z := c.Const(64, 0)
		return &SliceVal{Nil: c.T, Off: z, Len: z, Cap: z, Elem: u.Elem()}
	case *types.Pointer:
		return &PtrVal{Nil: c.T}
	case *types.Interface:
		return x.nilIface()
	case *types.Map:
		return &MapVal{Nil: c.T}
	case *types.Signature:
		return &FuncVal{Nil: c.T}
	case *types.Chan:
		return &PtrVal{Nil: c.T}
	case *types.Tuple:
		tv := TupleVal{}
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(st, u.At(i).Type()))
		}
		return tv
	}
	unsup("zero value of %s", t)
	return nil
}

// ---------------------------------------------------------------- strings

func (x *Exec) strLit(s string) *StrVal {
	c := x.c
	e := make([]Val, len(s))
	for i := range e {
		e[i] = c.Const(8, uint64(s[i]))
	}
	return &StrVal{A: &AExp{e}, Off: c.Const(64, 0), Len: c.Const(64, uint64(len(s))), Lit: &s, Atom: c.Var("lit:"+s, StrS)}
}
func (x *Exec) strAtom(st *State, t *Term) *StrVal {
	c := x.c
	if isStrLit(t) {
		return x.strLit(strings.TrimPrefix(t.name, "lit:"))
	}
	ln := c.App("str.len", BV(64), t)
	st.assume(c.Ult(ln, c.Const(64, 1<<45)))
	st.assume(c.Eq(c.Eq(ln, c.Const(64, 0)), c.Eq(t, c.Var("lit:", StrS))))
	return &StrVal{A: &AStrAtom{t}, Off: c.Const(64, 0), Len: ln, Atom: t}
}

// atom gives a string an identity term; strings that are concrete become literals, others get a term derived from content.
func (x *Exec) atomOf(s *StrVal) *Term {
	if s.Atom != nil {
		return s.Atom
	}
	if s.Len.isConst() && s.Len.n <= 256 {
		var b []byte
		ok := true
		for i := uint64(0); i < s.Len.n; i++ {
			t := x.rd(s.A, x.c.AddC(s.Off, i), types.Typ[types.Uint8]).(*Term)
			if !t.isConst() {
				ok = false
				break
			}
			b = append(b, byte(t.n))
		}
		if ok {
			return x.c.Var("lit:"+string(b), StrS)
		}
	}
	return nil
}
func (x *Exec) strEq(a, b *StrVal) *Term {
	c := x.c
	if a.Lit != nil && b.Lit != nil {
		return c.Bool(*a.Lit == *b.Lit)
	}
	ta, tb := x.atomOf(a), x.atomOf(b)
	if ta != nil && tb != nil {
		return c.Eq(ta, tb)
	}
	if a.Len.isConst() || b.Len.isConst() {
		n := a.Len
		if !n.isConst() {
			n = b.Len
		}
		if n.n <= 128 {
			cs := []*Term{c.Eq(a.Len, b.Len)}
			for i := uint64(0); i < n.n; i++ {
				cs = append(cs, c.Eq(x.rd(a.A, c.AddC(a.Off, i), types.Typ[types.Uint8]).(*Term), x.rd(b.A, c.AddC(b.Off, i), types.Typ[types.Uint8]).(*Term)))
			}
			return c.And(cs...)
		}
	}
	if x.sameArr(a.A, b.A) && a.Off == b.Off {
		return c.Eq(a.Len, b.Len)
	}
	unsup("equality of two strings of unknown length")
	return nil
}

// ---------------------------------------------------------------- array reads

func (x *Exec) sameArr(a, b Arr) bool {
	if a == b {
		return true
	}
	return x.valKey(a) == x.valKey(b)
}

func (x *Exec) rd(a Arr, i *Term, et types.Type) Val {
	c := x.c
	switch a := a.(type) {
	case *AExp:
		if i.isConst() {
			if i.n < uint64(len(a.E)) {
				return a.E[i.n]
			}
			return x.mkSymNS(et, "oob", i)
		}
		if len(a.E) == 0 {
			return x.mkSymNS(et, "oob", i)
		}
		r := a.E[len(a.E)-1]
		for k := len(a.E) - 2; k >= 0; k-- {
			r = x.ite(c.Eq(i, c.Const(64, uint64(k))), a.E[k], r)
		}
		return r
	case *ABase:
		return x.mkSymNS(a.T, a.Name+"@", append(append([]*Term{}, a.Args...), i)...)
	case *AStrAtom:
		return c.App("str.at", BV(8), a.T, i)
	case *AConst:
		return a.V
	case *AStore:
		d := c.Sub(i, a.I)
		if d.isConst() {
			if d.n == 0 {
				return a.V
			}
			return x.rd(a.P, i, et)
		}
		return x.ite(c.Eq(i, a.I), a.V, x.rd(a.P, i, et))
	case *ACopy:
		d := c.Sub(i, a.D)
		in := c.Ult(d, a.N)
		if in == c.T {
			return x.rd(a.S, c.Add(d, a.SO), et)
		}
		if in == c.F {
			return x.rd(a.P, i, et)
		}
		return x.ite(in, x.rd(a.S, c.Add(d, a.SO), et), x.rd(a.P, i, et))
	case *AIte:
		return x.ite(a.C, x.rd(a.A, i, et), x.rd(a.B, i, et))
	case *ALam:
		d := c.Sub(i, a.Lo)
		var q, r *Term
		sh := -1
		for s := 0; s < 8; s++ {
			if 1<<uint(s) == a.K {
				sh = s
			}
		}
		if sh < 0 {
			q, r = c.UDiv(d, c.Const(64, uint64(a.K))), c.URem(d, c.Const(64, uint64(a.K)))
		} else {
			q, r = c.Lshr(d, c.Const(64, uint64(sh))), c.BAnd(d, c.Const(64, uint64(a.K-1)))
		}
		m := map[*Term]*Term{a.Var: q}
		v := x.substVal(a.Body[a.K-1], m)
		for k := a.K - 2; k >= 0; k-- {
			v = x.ite(c.Eq(r, c.Const(64, uint64(k))), x.substVal(a.Body[k], m), v)
		}
		in := c.Ult(q, a.N)
		return x.ite(in, v, x.rd(a.P, i, et))
	case *ASeq:
		return x.seqAt(a.S, i)
	case *ABigArr:
		return c.App("big.byteat", BV(8), a.T, i)
	}
	unsup("read of array %T", a)
	return nil
}

// mkSymNS makes a symbolic leaf value without needing a state (only scalars and structs of scalars and strings).
func (x *Exec) mkSymNS(t types.Type, name string, args ...*Term) Val {
	return x.mkSym(x.scratch, t, name, args...)
}

func (x *Exec) wr(a Arr, i *Term, v Val) Arr {
	if e, ok := a.(*AExp); ok {
		if i.isConst() && i.n < uint64(len(e.E)) {
			n := make([]Val, len(e.E))
			copy(n, e.E)
			n[i.n] = v
			return &AExp{n}
		}
		if !i.isConst() && len(e.E) <= 32 {
			n := make([]Val, len(e.E))
			for k := range n {
				n[k] = x.ite(x.c.Eq(i, x.c.Const(64, uint64(k))), v, e.E[k])
			}
			return &AExp{n}
		}
	}
	if s, ok := a.(*AStore); ok && s.I == i {
		return &AStore{s.P, i, v}
	}
	return &AStore{a, i, v}
}

// copyArr writes n elements of src (from so) to dst at d.
func (x *Exec) copyArr(dst Arr, d *Term, src Arr, so, n *Term, et types.Type) Arr {
	if n.isC(0) {
		return dst
	}
	if n.isConst() && n.n <= 64 {
		if e, ok := dst.(*AExp); ok && d.isConst() && d.n+n.n <= uint64(len(e.E)) {
			o := make([]Val, len(e.E))
			copy(o, e.E)
			for k := uint64(0); k < n.n; k++ {
				o[d.n+k] = x.rd(src, x.c.AddC(so, k), et)
			}
			return &AExp{o}
		}
	}
	if e, ok := dst.(*AExp); ok && d.isConst() && len(e.E) <= 64 {
		// symbolic count into a small array
		o := make([]Val, len(e.E))
		copy(o, e.E)
		for k := d.n; k < uint64(len(e.E)); k++ {
			kk := x.c.Const(64, k-d.n)
			o[k] = x.ite(x.c.Ult(kk, n), x.rd(src, x.c.Add(so, kk), et), e.E[k])
		}
		return &AExp{o}
	}
	return &ACopy{dst, d, src, so, n}
}

// ---------------------------------------------------------------- merging

func (x *Exec) ite(k *Term, a, b Val) Val {
	c := x.c
	if k == c.T {
		return a
	}
	if k == c.F {
		return b
	}
	if a == b {
		return a
	}
	switch av := a.(type) {
	case *Term:
		return c.Ite(k, av, b.(*Term))
	case *StructVal:
		bv := b.(*StructVal)
		f := make([]Val, len(av.F))
		for i := range f {
			f[i] = x.ite(k, av.F[i], bv.F[i])
		}
		return &StructVal{av.T, f}
	case *RWVal:
		return x.joinRW(av, b.(*RWVal))
	case *ArrayVal:
		bv := b.(*ArrayVal)
		return &ArrayVal{av.Elem, x.iteArr(k, av.A, bv.A)}
	case *IfaceVal:
		bv := b.(*IfaceVal)
		var out []Alt
		add := func(al Alt, cond *Term) {
			cond = c.And(cond, al.Cond)
			if cond == c.F {
				return
			}
			for i := range out {
				o := &out[i]
				if o.Op == al.Op && ((o.T == nil) == (al.T == nil)) && (o.T == nil || types.Identical(o.T, al.T) && x.valKey(o.V) == x.valKey(al.V)) {
					o.Cond = c.Or(o.Cond, cond)
					return
				}
			}
			al.Cond = cond
			out = append(out, al)
		}
		for _, al := range av.Alts {
			add(al, k)
		}
		for _, al := range bv.Alts {
			add(al, c.Not(k))
		}
		return &IfaceVal{out}
	case *StrVal:
		bv := b.(*StrVal)
		if av.Lit != nil && bv.Lit != nil && *av.Lit == *bv.Lit {
			return a
		}
		ta, tb := x.atomOf(av), x.atomOf(bv)
		if ta != nil && tb != nil {
			t := c.Ite(k, ta, tb)
			return &StrVal{A: &AStrAtom{t}, Off: c.Const(64, 0), Len: c.Ite(k, av.Len, bv.Len), Atom: t}
		}
		if av.Off == bv.Off {
			return &StrVal{A: x.iteArr(k, av.A, bv.A), Off: av.Off, Len: c.Ite(k, av.Len, bv.Len)}
		}
		t := c.Ite(k, x.scal(av), x.scal(bv))
		return &StrVal{A: &AStrAtom{t}, Off: c.Const(64, 0), Len: c.Ite(k, av.Len, bv.Len), Atom: t}
	case *PtrVal:
		bv := b.(*PtrVal)
		if av.Nil == c.T {
			return &PtrVal{c.Or(k, bv.Nil), bv.Obj, bv.Path}
		}
		if bv.Nil == c.T {
			return &PtrVal{c.Or(c.Not(k), av.Nil), av.Obj, av.Path}
		}
		if av.Obj == bv.Obj && samePath(av.Path, bv.Path) {
			return &PtrVal{c.Ite(k, av.Nil, bv.Nil), av.Obj, av.Path}
		}
	case *SliceVal:
		bv := b.(*SliceVal)
		if av.Len.isC(0) && av.Cap.isC(0) && av.Nil == c.T {
			return &SliceVal{c.Or(k, bv.Nil), bv.Obj, bv.Path, bv.Off, c.Ite(k, av.Len, bv.Len), c.Ite(k, av.Cap, bv.Cap), bv.Elem}
		}
		if bv.Len.isC(0) && bv.Cap.isC(0) && bv.Nil == c.T {
			return &SliceVal{c.Or(c.Not(k), av.Nil), av.Obj, av.Path, av.Off, c.Ite(k, av.Len, bv.Len), c.Ite(k, av.Cap, bv.Cap), av.Elem}
		}
		if av.Obj == bv.Obj && samePath(av.Path, bv.Path) {
			return &SliceVal{c.Ite(k, av.Nil, bv.Nil), av.Obj, av.Path, c.Ite(k, av.Off, bv.Off), c.Ite(k, av.Len, bv.Len), c.Ite(k, av.Cap, bv.Cap), av.Elem}
		}
	case *MapVal:
		bv := b.(*MapVal)
		if av.Obj == bv.Obj {
			return &MapVal{c.Ite(k, av.Nil, bv.Nil), av.Obj}
		}
	case *MapC:
		bv := b.(*MapC)
		return &MapC{c.Ite(k, av.T, bv.T), av.K, av.E}
	case *SeqVal:
		bv := b.(*SeqVal)
		return x.seqIte(k, av, bv)
	case *BufVal:
		return &BufVal{x.seqIte(k, av.S, b.(*BufVal).S)}
	case *BigVal:
		return &BigVal{c.Ite(k, av.T, b.(*BigVal).T)}
	case TupleVal:
		bv := b.(TupleVal)
		o := make(TupleVal, len(av))
		for i := range o {
			o[i] = x.ite(k, av[i], bv[i])
		}
		return o
	case *FuncVal:
		bv := b.(*FuncVal)
		if av.Fn == bv.Fn && len(av.Bind) == 0 && len(bv.Bind) == 0 {
			return &FuncVal{Nil: c.Ite(k, av.Nil, bv.Nil), Fn: av.Fn}
		}
	case nil:
		if b == nil {
			return nil
		}
	}
	if x.valKey(a) == x.valKey(b) {
		return a
	}
	unsup("cannot merge %T and %T", a, b)
	return nil
}
func (x *Exec) iteArr(k *Term, a, b Arr) Arr {
	if x.sameArr(a, b) {
		return a
	}
	ea, ok1 := a.(*AExp)
	eb, ok2 := b.(*AExp)
	if ok1 && ok2 && len(ea.E) == len(eb.E) {
		o := make([]Val, len(ea.E))
		for i := range o {
			o[i] = x.ite(k, ea.E[i], eb.E[i])
		}
		return &AExp{o}
	}
	// the same positions written on top of the same array
	ma, pa := x.storeChain(a)
	mb, pb := x.storeChain(b)
	if len(ma) > 0 && len(ma) == len(mb) && x.sameArr(pa, pb) {
		idx := make([]*Term, 0, len(ma))
		for i := range ma {
			if mb[i] == nil {
				return &AIte{k, a, b}
			}
			idx = append(idx, i)
		}
		sort.Slice(idx, func(i, j int) bool { return idx[i].id < idx[j].id })
		for _, i := range idx {
			for _, j := range idx {
				if d := x.c.Sub(i, j); i != j && !d.isConst() {
					return &AIte{k, a, b}
				}
			}
		}
		r := pa
		for _, i := range idx {
			r = &AStore{r, i, x.ite(k, ma[i], mb[i])}
		}
		return r
	}
	return &AIte{k, a, b}
}
func (x *Exec) storeChain(a Arr) (map[*Term]Val, Arr) {
	m := map[*Term]Val{}
	for {
		s, ok := a.(*AStore)
		if !ok {
			return m, a
		}
		if m[s.I] == nil {
			m[s.I] = s.V
		}
		a = s.P
	}
}
func samePath(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- structural keys and substitution

func (x *Exec) valKey(v interface{}) string {
	var b strings.Builder
	x.key(&b, v)
	return b.String()
}

// shape is valKey with the terms left out, and the terms.
func (x *Exec) shape(v interface{}) (string, []*Term) {
	var ts []*Term
	x.keyArgs = &ts
	defer func() { x.keyArgs = nil }()
	return x.valKey(v), ts
}
func (x *Exec) key(b *strings.Builder, v interface{}) {
	t := func(ts ...*Term) {
		for _, t := range ts {
			if t == nil {
				b.WriteString("_;")
			} else if x.keyArgs != nil {
				b.WriteString("#;")
				*x.keyArgs = append(*x.keyArgs, t)
			} else {
				fmt.Fprintf(b, "%d;", t.id)
			}
		}
	}
	bound := func(what string, v *Term) *Term {
		return x.c.Var(fmt.Sprintf("?%s%d", what, x.keyDepth), v.sort)
	}
	path := func(p []PE) {
		for _, e := range p {
			fmt.Fprintf(b, ".%d", e.F)
			t(e.I)
		}
	}
	switch v := v.(type) {
	case nil:
		b.WriteString("nil")
	case *Term:
		b.WriteString("t")
		t(v)
	case *StructVal:
		b.WriteString("S{")
		for _, f := range v.F {
			x.key(b, f)
			b.WriteString(",")
		}
		b.WriteString("}")
	case *ArrayVal:
		b.WriteString("A")
		x.key(b, v.A)
	case *AExp:
		b.WriteString("[")
		for _, f := range v.E {
			x.key(b, f)
			b.WriteString(",")
		}
		b.WriteString("]")
	case *ABase:
		b.WriteString("base:" + v.Name)
		t(v.Args...)
	case *ABigArr:
		b.WriteString("bigarr:")
		t(v.T, v.Len)
	case *AStrAtom:
		b.WriteString("stra:")
		t(v.T)
	case *AConst:
		b.WriteString("const:")
		x.key(b, v.V)
	case *AStore:
		b.WriteString("st(")
		x.key(b, v.P)
		t(v.I)
		x.key(b, v.V)
		b.WriteString(")")
	case *ACopy:
		b.WriteString("cp(")
		x.key(b, v.P)
		t(v.D)
		x.key(b, v.S)
		t(v.SO, v.N)
		b.WriteString(")")
	case *AIte:
		b.WriteString("aite(")
		t(v.C)
		x.key(b, v.A)
		x.key(b, v.B)
		b.WriteString(")")
	case *ALam:
		b.WriteString("lam(")
		x.key(b, v.P)
		t(v.Lo, v.N)
		fmt.Fprintf(b, "%d", v.K)
		m := map[*Term]*Term{v.Var: bound("lam", v.Var)}
		x.keyDepth++
		for _, e := range v.Body {
			x.key(b, x.substVal(e, m))
		}
		x.keyDepth--
		b.WriteString(")")
	case *ASeq:
		b.WriteString("aseq")
		x.key(b, v.S)
	case *SeqVal:
		b.WriteString("<")
		for _, ch := range v.C {
			x.key(b, ch)
			b.WriteString("+")
		}
		b.WriteString(">")
	case *CBytes:
		b.WriteString("b")
		t(v.B...)
	case *CArr:
		b.WriteString("a")
		x.key(b, v.A)
		t(v.Off, v.Len)
	case *CApp:
		b.WriteString("f")
		t(v.T)
	case *CRep:
		b.WriteString("rep(")
		t(v.N)
		m := map[*Term]*Term{v.Var: bound("rep", v.Var)}
		x.keyDepth++
		x.key(b, x.substVal(v.Body, m))
		x.keyDepth--
		b.WriteString(")")
	case *CIte:
		b.WriteString("ite(")
		t(v.C)
		x.key(b, v.A)
		x.key(b, v.B)
		b.WriteString(")")
	case *PtrVal:
		b.WriteString("p")
		t(v.Nil)
		fmt.Fprintf(b, "%d", v.Obj)
		path(v.Path)
	case *SliceVal:
		b.WriteString("s")
		t(v.Nil, v.Off, v.Len, v.Cap)
		fmt.Fprintf(b, "%d", v.Obj)
		path(v.Path)
	case *StrVal:
		b.WriteString("str")
		if v.Atom != nil {
			t(v.Atom)
		} else {
			x.key(b, v.A)
			t(v.Off, v.Len)
		}
	case *IfaceVal:
		b.WriteString("i(")
		for _, a := range v.Alts {
			t(a.Cond, a.Op)
			if a.T != nil {
				b.WriteString(a.T.String())
				x.key(b, a.V)
			}
		}
		b.WriteString(")")
	case *MapVal:
		fmt.Fprintf(b, "m%d", v.Obj)
		t(v.Nil)
	case *MapC:
		b.WriteString("mc")
		t(v.T)
	case *FuncVal:
		b.WriteString("fn")
		t(v.Nil)
		if v.Fn != nil {
			b.WriteString(v.Fn.String())
		}
		for _, f := range v.Bind {
			x.key(b, f)
		}
	case *BuiltinVal:
		b.WriteString("bi" + v.Name)
	case TupleVal:
		for _, f := range v {
			x.key(b, f)
			b.WriteString("|")
		}
	case *BufVal:
		b.WriteString("buf")
		x.key(b, v.S)
	case *BigVal:
		b.WriteString("big")
		t(v.T)
	case *IterVal:
		fmt.Fprintf(b, "it%d", v.Obj)
	case *IterC:
		fmt.Fprintf(b, "itc%d", v.Pos)
		if v.I != nil {
			t(v.I)
		}
	case *RWVal:
		b.WriteString("rw")
		for _, w := range v.W {
			t(w.Loc, w.Val, w.Ep)
		}
	case *WState:
		x.key(b, v.Out)
		t(v.Handed, v.Failed)
	default:
		panic(fmt.Sprintf("key of %T", v))
	}
}

// substVal applies a simultaneous term substitution.
func (x *Exec) substVal(v Val, m map[*Term]*Term) Val {
	if len(m) == 0 {
		return v
	}
	s := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return x.c.Subst(t, m)
	}
	path := func(p []PE) []PE {
		if len(p) == 0 {
			return p
		}
		o := make([]PE, len(p))
		for i, e := range p {
			o[i] = PE{e.F, s(e.I)}
		}
		return o
	}
	switch v := v.(type) {
	case nil:
		return nil
	case *Term:
		return s(v)
	case *StructVal:
		f := make([]Val, len(v.F))
		for i := range f {
			f[i] = x.substVal(v.F[i], m)
		}
		return &StructVal{v.T, f}
	case *ArrayVal:
		return &ArrayVal{v.Elem, x.substArr(v.A, m)}
	case *PtrVal:
		return &PtrVal{s(v.Nil), v.Obj, path(v.Path)}
	case *SliceVal:
		return &SliceVal{s(v.Nil), v.Obj, path(v.Path), s(v.Off), s(v.Len), s(v.Cap), v.Elem}
	case *StrVal:
		a := s(v.Atom)
		n := &StrVal{A: x.substArr(v.A, m), Off: s(v.Off), Len: s(v.Len), Atom: a, Lit: v.Lit}
		return n
	case *IfaceVal:
		var out []Alt
		for _, a := range v.Alts {
			k := s(a.Cond)
			if k == x.c.F {
				continue
			}
			na := Alt{Cond: k, T: a.T, Op: s(a.Op)}
			if a.T != nil {
				na.V = x.substVal(a.V, m)
			}
			out = append(out, na)
		}
		return &IfaceVal{out}
	case *MapVal:
		return &MapVal{s(v.Nil), v.Obj}
	case *MapC:
		return &MapC{s(v.T), v.K, v.E}
	case *FuncVal:
		b := make([]Val, len(v.Bind))
		for i := range b {
			b[i] = x.substVal(v.Bind[i], m)
		}
		return &FuncVal{s(v.Nil), v.Fn, b}
	case TupleVal:
		o := make(TupleVal, len(v))
		for i := range o {
			o[i] = x.substVal(v[i], m)
		}
		return o
	case *SeqVal:
		return x.substSeq(v, m)
	case *BufVal:
		return &BufVal{x.substSeq(v.S, m)}
	case *BigVal:
		return &BigVal{s(v.T)}
	case *BuiltinVal, *IterVal, *IterC:
		return v
	case *RWVal:
		return x.substRW(v, s)
	}
	panic(fmt.Sprintf("subst of %T", v))
}
func (x *Exec) substArr(a Arr, m map[*Term]*Term) Arr {
	s := func(t *Term) *Term { return x.c.Subst(t, m) }
	switch a := a.(type) {
	case *AExp:
		o := make([]Val, len(a.E))
		ch := false
		for i := range o {
			o[i] = x.substVal(a.E[i], m)
			if o[i] != a.E[i] {
				ch = true
			}
		}
		if !ch {
			return a
		}
		return &AExp{o}
	case *ABase:
		if len(a.Args) == 0 {
			return a
		}
		o := make([]*Term, len(a.Args))
		for i := range o {
			o[i] = s(a.Args[i])
		}
		return &ABase{a.Name, o, a.T}
	case *AStrAtom:
		return &AStrAtom{s(a.T)}
	case *ABigArr:
		return &ABigArr{s(a.T), s(a.Len)}
	case *AConst:
		return &AConst{x.substVal(a.V, m)}
	case *AStore:
		return &AStore{x.substArr(a.P, m), s(a.I), x.substVal(a.V, m)}
	case *ACopy:
		return &ACopy{x.substArr(a.P, m), s(a.D), x.substArr(a.S, m), s(a.SO), s(a.N)}
	case *AIte:
		k := s(a.C)
		if k == x.c.T {
			return x.substArr(a.A, m)
		}
		if k == x.c.F {
			return x.substArr(a.B, m)
		}
		return &AIte{k, x.substArr(a.A, m), x.substArr(a.B, m)}
	case *ALam:
		m2 := without(m, a.Var)
		o := make([]Val, len(a.Body))
		for i := range o {
			o[i] = x.substVal(a.Body[i], m2)
		}
		return &ALam{x.substArr(a.P, m), s(a.Lo), s(a.N), a.K, a.Var, o}
	case *ASeq:
		return &ASeq{x.substSeq(a.S, m)}
	case nil:
		return nil
	}
	panic(fmt.Sprintf("subst of array %T", a))
}
func without(m map[*Term]*Term, v *Term) map[*Term]*Term {
	if _, ok := m[v]; !ok {
		return m
	}
	n := map[*Term]*Term{}
	for k, e := range m {
		if k != v {
			n[k] = e
		}
	}
	return n
}

// terms lists all terms occurring in a value (for symbol collection).
func (x *Exec) termsOf(v interface{}, f func(*Term)) {
	g := func(ts ...*Term) {
		for _, t := range ts {
			if t != nil {
				f(t)
			}
		}
	}
	switch v := v.(type) {
	case nil:
	case *Term:
		f(v)
	case *StructVal:
		for _, e := range v.F {
			x.termsOf(e, f)
		}
	case *ArrayVal:
		x.termsOf(v.A, f)
	case *AExp:
		for _, e := range v.E {
			x.termsOf(e, f)
		}
	case *ABase:
		g(v.Args...)
	case *AStrAtom:
		f(v.T)
	case *ABigArr:
		g(v.T, v.Len)
	case *AConst:
		x.termsOf(v.V, f)
	case *AStore:
		x.termsOf(v.P, f)
		g(v.I)
		x.termsOf(v.V, f)
	case *ACopy:
		x.termsOf(v.P, f)
		x.termsOf(v.S, f)
		g(v.D, v.SO, v.N)
	case *AIte:
		g(v.C)
		x.termsOf(v.A, f)
		x.termsOf(v.B, f)
	case *ALam:
		x.termsOf(v.P, f)
		g(v.Lo, v.N)
		for _, e := range v.Body {
			x.termsOf(e, f)
		}
	case *ASeq:
		x.termsOf(v.S, f)
	case *SeqVal:
		for _, e := range v.C {
			x.termsOf(e, f)
		}
	case *CBytes:
		g(v.B...)
	case *CArr:
		x.termsOf(v.A, f)
		g(v.Off, v.Len)
	case *CApp:
		g(v.T, v.Len)
	case *CRep:
		g(v.N)
		x.termsOf(v.Body, f)
	case *CIte:
		g(v.C)
		x.termsOf(v.A, f)
		x.termsOf(v.B, f)
	case *PtrVal:
		g(v.Nil)
	case *SliceVal:
		g(v.Nil, v.Off, v.Len, v.Cap)
	case *StrVal:
		x.termsOf(v.A, f)
		g(v.Off, v.Len, v.Atom)
	case *IfaceVal:
		for _, a := range v.Alts {
			g(a.Cond, a.Op)
			if a.T != nil {
				x.termsOf(a.V, f)
			}
		}
	case *MapVal:
		g(v.Nil)
	case *MapC:
		g(v.T)
	case *FuncVal:
		for _, b := range v.Bind {
			x.termsOf(b, f)
		}
	case TupleVal:
		for _, b := range v {
			x.termsOf(b, f)
		}
	case *BufVal:
		x.termsOf(v.S, f)
	case *BigVal:
		g(v.T)
	case *RWVal:
		for _, w := range v.W {
			g(w.Loc, w.Val, w.Ep)
		}
	}
}
func sortedKeys(m map[int]Val) []int {
	var o []int
	for k := range m {
		o = append(o, k)
	}
	sort.Ints(o)
	return o
}
