package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The model of package reflect: a reflect.Value is a term of sort RVS, a reflect.Type a term of sort RTS, and the
// observers of the package are uninterpreted functions of them (a value is not changed while it is being encoded).
// Methods that panic outside their domain do so here as well.

const (
	kInvalid = iota
	kBool
	kInt
	kInt8
	kInt16
	kInt32
	kInt64
	kUint
	kUint8
	kUint16
	kUint32
	kUint64
	kUintptr
	kFloat32
	kFloat64
	kComplex64
	kComplex128
	kArray
	kChan
	kFunc
	kInterface
	kMap
	kPtr
	kSlice
	kString
	kStruct
	kUnsafePointer
)

const trReflect = "package reflect: observers of a value or type are functions of it, with the documented panics"

func (x *Exec) rvType(rv *Term) *Term {
	c := x.c
	if rv.op == OIte {
		return c.Ite(rv.args[0], x.rvType(rv.args[1]), x.rvType(rv.args[2]))
	}
	if rv.op == OApp {
		switch rv.name {
		case "rv.index":
			return x.rtElem(x.rvType(rv.args[0]))
		case "rv.field":
			return c.App("rt.ftype", RTS, x.rvType(rv.args[0]), rv.args[1])
		case "rv.zeroof", "rv.makeslice", "rv.makemap":
			return rv.args[0]
		case "rv.at", "rv.conv", "rv.nonnil":
			if rv.name == "rv.conv" {
				return rv.args[1]
			}
			return x.rvType(rv.args[1])
		case "rv.addr":
			return x.rtPtrTo(x.rvType(rv.args[0]))
		case "rv.append", "rv.mapset", "rv.copy":
			return x.rvType(rv.args[0])
		case "rv.new":
			return c.App("rt.ptrto", RTS, rv.args[0])
		case "rv.elem":
			if n := rv.args[0]; n.op == OApp && (n.name == "rv.new" || n.name == "rv.addr") {
				return x.rtElem(x.rvType(n))
			}
		}
		if strings.HasPrefix(rv.name, "rv.mk:") {
			return rv.args[0]
		}
		if t := x.rvOfT[rv.name]; t != nil {
			return x.rtConst(t)
		}
	}
	return c.App("rv.type", RTS, rv)
}
func (x *Exec) rtPtrTo(t *Term) *Term { return x.c.App("rt.ptrto", RTS, t) }
func (x *Exec) rtElem(rt *Term) *Term {
	if t := x.rtTypes[rt.name]; rt.op == OVar && t != nil {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return x.rtConst(u.Elem())
		case *types.Array:
			return x.rtConst(u.Elem())
		case *types.Pointer:
			return x.rtConst(u.Elem())
		}
	}
	if rt.op == OIte {
		return x.c.Ite(rt.args[0], x.rtElem(rt.args[1]), x.rtElem(rt.args[2]))
	}
	if rt.op == OApp && rt.name == "rt.ptrto" {
		return rt.args[0]
	}
	return x.c.App("rt.elem", RTS, rt)
}
func (x *Exec) rtKind(rt *Term) *Term {
	c := x.c
	if rt.op == OApp && rt.name == "rv.type" {
		return x.rvKind(rt.args[0])
	}
	if rt.op == OApp && rt.name == "rt.ptrto" {
		return c.Const(64, kPtr)
	}
	if rt.op == OIte {
		return c.Ite(rt.args[0], x.rtKind(rt.args[1]), x.rtKind(rt.args[2]))
	}
	if k, ok := x.rtKinds[rt.name]; ok && rt.op == OVar {
		return c.Const(64, uint64(k))
	}
	return c.ZExt(c.App("rt.kind", BV(8), rt), 64)
}
func (x *Exec) rvKind(rv *Term) *Term {
	c := x.c
	if rv.op == OVar && rv.name == "rv:zero" {
		return c.Const(64, kInvalid)
	}
	if rv.op == OIte {
		return c.Ite(rv.args[0], x.rvKind(rv.args[1]), x.rvKind(rv.args[2]))
	}
	if t := x.rvType(rv); !(t.op == OApp && t.name == "rv.type" && t.args[0] == rv) {
		return x.rtKind(t)
	}
	return c.ZExt(c.App("rv.kind", BV(8), rv), 64)
}
func (x *Exec) kindIn(k *Term, ks ...int) *Term {
	var o []*Term
	for _, i := range ks {
		o = append(o, x.c.Eq(k, x.c.Const(64, uint64(i))))
	}
	return x.c.Or(o...)
}

// rguard is the panic condition of a reflect operation; specification code treats the operations as total.
func (x *Exec) rguard(st *State, ok *Term, msg string, outs *[]Outcome) bool {
	if x.ghost > 0 || ok == x.c.T {
		return true
	}
	nk := x.c.Not(ok)
	if x.feasible(st, nk) {
		s2 := st.clone()
		s2.assume(nk)
		*outs = append(*outs, Outcome{kind: OPanic, st: s2, msg: msg})
		if !x.feasible(st, ok) {
			return false
		}
	}
	st.assume(ok)
	return true
}

// rtNonNil: a type obtained from a value or another type is not nil; a parameter or reflect.TypeOf(nil) may be.
func (x *Exec) rtNonNil(t *Term) *Term {
	c := x.c
	switch {
	case t.op == OIte:
		return c.Ite(t.args[0], x.rtNonNil(t.args[1]), x.rtNonNil(t.args[2]))
	case t.op == OApp, t.op == OVar && x.rtTypes[t.name] != nil:
		return c.T
	}
	return c.Neq(t, c.Var("rt:nil", RTS))
}
func (x *Exec) rtMethod(st *State, m string, t *Term, args []Val) []Outcome {
	c := x.c
	x.trusted[trReflect] = true
	var outs []Outcome
	if !x.rguard(st, x.rtNonNil(t), "method call on a nil reflect.Type", &outs) {
		return outs
	}
	r := func(v Val) []Outcome { return append(outs, Outcome{kind: ORet, st: st, vals: []Val{v}}) }
	k := x.rtKind(t)
	switch m {
	case "Kind":
		return r(k)
	case "Elem":
		if !x.rguard(st, x.kindIn(k, kArray, kChan, kMap, kPtr, kSlice), "reflect: Elem of this type", &outs) {
			return outs
		}
		return r(x.rtValid(st, x.rtElem(t)))
	case "Key":
		if !x.rguard(st, x.kindIn(k, kMap), "reflect: Key of non-map type", &outs) {
			return outs
		}
		return r(x.rtValid(st, c.App("rt.key", RTS, t)))
	case "Len":
		if !x.rguard(st, x.kindIn(k, kArray), "reflect: Len of non-array type", &outs) {
			return outs
		}
		return r(x.rtLen(st, t))
	case "NumField":
		if !x.rguard(st, x.kindIn(k, kStruct), "reflect: NumField of non-struct type", &outs) {
			return outs
		}
		return r(x.rtNumField(st, t))
	case "Field":
		i := args[0].(*Term)
		if !x.rguard(st, c.And(x.kindIn(k, kStruct), c.Ult(i, x.rtNumField(st, t))), "reflect: Field index out of range", &outs) {
			return outs
		}
		return r(x.structField(st, t, i))
	case "Name", "String", "PkgPath":
		return r(x.strAtom(st, c.App("rt.str."+m, StrS, t)))
	case "Size":
		n := c.App("rt.size.len", BV(64), t)
		return r(n)
	case "Implements":
		return r(c.App("rt.implements", BoolS, t, args[0].(*Term)))
	case "NumMethod":
		n := c.App("rt.nmeth.len", BV(64), t)
		st.assume(c.Ult(n, c.Const(64, 1<<31)))
		return r(n)
	case "Comparable":
		return r(c.App("rt.comparable", BoolS, t))
	}
	unsup("reflect.Type.%s", m)
	return nil
}
func (x *Exec) rtLen(st *State, t *Term) *Term {
	n := x.c.App("rt.len", BV(64), t)
	st.assume(x.c.Ult(n, x.c.Const(64, 1<<45)))
	return n
}
func (x *Exec) rtNumField(st *State, t *Term) *Term {
	n := x.c.App("rt.nf.len", BV(64), t)
	st.assume(x.c.Ult(n, x.c.Const(64, 1<<31)))
	return n
}
func (x *Exec) structField(st *State, t, i *Term) Val {
	c := x.c
	sf := x.prog.reflectType("StructField")
	u := sf.Underlying().(*types.Struct)
	sv := &StructVal{T: sf}
	for k := 0; k < u.NumFields(); k++ {
		switch f := u.Field(k); f.Name() {
		case "Type":
			sv.F = append(sv.F, c.App("rt.ftype", RTS, t, i))
		case "Name", "PkgPath", "Tag":
			sv.F = append(sv.F, x.strAtom(st, c.App("sf."+f.Name(), StrS, t, i)))
		case "Index":
			sv.F = append(sv.F, x.zero(st, f.Type()))
		default:
			sv.F = append(sv.F, x.mkSym(st, f.Type(), "sf."+f.Name(), t, i))
		}
	}
	return sv
}

// types and values that exist have a kind
func (x *Exec) rtValid(st *State, t *Term) *Term {
	if x.ghost == 0 && x.track() {
		if k := x.rtKind(t); !k.isConst() {
			st.assume(x.c.Neq(k, x.c.Const(64, kInvalid)))
		}
	}
	return t
}
func (x *Exec) rvValid(st *State, v *Term) *Term {
	x.rtValid(st, x.rvType(v))
	return v
}

// rvElem is what a pointer or interface holds.
func (x *Exec) rvElem(st *State, rv *Term) *Term {
	c := x.c
	v := x.cont(st, rv)
	if v.op == OApp && v.name == "rv.addr" {
		return v.args[0]
	}
	e := c.App("rv.elem", RVS, v)
	if x.ghost == 0 && x.track() && !isNewObj(v) {
		// what a non-nil pointer points to has the pointer's element type; a nil one gives the zero Value
		isp := x.kindIn(x.rvKind(v), kPtr)
		ke := x.rvKind(e)
		nl := x.rvIsNil(v)
		et := x.rtElem(x.rvType(v))
		st.assume(c.Imp(c.And(isp, c.Not(nl)), c.And(c.Eq(x.rvType(e), et), c.Eq(ke, x.rtKind(et)), c.Neq(ke, c.Const(64, kInvalid)))))
		st.assume(c.Imp(nl, c.Eq(ke, c.Const(64, kInvalid))))
		st.assume(c.Imp(c.Not(nl), c.Neq(ke, c.Const(64, kInvalid))))
	}
	return e
}

// rvNum is the number, bool or string a value holds.
func (x *Exec) rvNum(what string, s *Sort, v *Term) *Term {
	if v.op == OApp && v.name == "rv.mk:"+what {
		return v.args[1]
	}
	return x.c.App("rv."+what, s, v)
}
func (x *Exec) rvLen(st *State, rv *Term) *Term {
	c := x.c
	k := x.rvKind(rv)
	n := c.App("rv.len", BV(64), rv)
	if rv.op == OApp && rv.name == "rv.makeslice" {
		return rv.args[1]
	}
	st.assume(c.Ult(n, c.Const(64, 1<<45)))
	arr := x.kindIn(k, kArray)
	if arr == c.F || !x.feasible(st, arr) {
		return n
	}
	l := x.rtLen(st, x.rvType(rv))
	if x.valid(st, arr) {
		return l
	}
	return c.Ite(arr, l, n)
}

func (x *Exec) reflectModel(fn *ssa.Function, args []Val, st *State) (outs []Outcome, done bool) {
	c := x.c
	name := fn.Name()
	r := func(v Val) ([]Outcome, bool) {
		x.trusted[trReflect] = true
		return append(outs, Outcome{kind: ORet, st: st, vals: []Val{v}}), true
	}
	if fn.Signature.Recv() == nil {
		switch name {
		case "Indirect":
			rv := args[0].(*Term)
			isp := x.kindIn(x.rvKind(rv), kPtr)
			if !x.feasible(st, isp) {
				return r(rv)
			}
			if !x.feasible(st, c.Not(isp)) {
				return r(x.rvElem(st, rv))
			}
			s2 := st.clone()
			s2.assume(isp)
			outs = append(outs, Outcome{kind: ORet, st: s2, vals: []Val{x.rvElem(s2, rv)}})
			st.assume(c.Not(isp))
			return r(rv)
		case "ValueOf":
			return r(x.valueOf(st, args[0]))
		case "TypeOf":
			return r(x.typeOf(st, args[0]))
		case "Zero":
			return r(c.App("rv.zeroof", RVS, args[0].(*Term)))
		}
		return x.reflectFunc(name, args, st)
	}
	if typeName(fn.Signature.Recv().Type()) == "reflect.Kind" && name == "String" {
		return r(x.strAtom(st, c.App("kind.str", StrS, args[0].(*Term))))
	}
	if typeName(fn.Signature.Recv().Type()) == "reflect.StructTag" {
		s := x.scal(args[0])
		k := x.str(args[1])
		v := x.strAtom(st, c.App("tag.get:"+k, StrS, s))
		switch name {
		case "Get":
			return r(v)
		case "Lookup":
			x.trusted[trReflect] = true
			return ret(st, v, c.App("tag.has:"+k, BoolS, s)), true
		}
		return nil, false
	}
	if typeName(fn.Signature.Recv().Type()) != "reflect.Value" {
		return nil, false
	}
	rv, ok := args[0].(*Term)
	if !ok {
		return nil, false
	}
	k := x.rvKind(rv)
	g := func(cond *Term, msg string) bool {
		return x.rguard(st, cond, "reflect.Value."+name+": "+msg, &outs)
	}
	valid := c.Neq(k, c.Const(64, kInvalid))
	switch name {
	case "Kind":
		return r(k)
	case "IsValid":
		return r(valid)
	case "Type":
		if !g(valid, "zero Value") {
			return outs, true
		}
		return r(x.rvType(rv))
	case "IsZero":
		if !g(valid, "zero Value") {
			return outs, true
		}
		return r(c.App("rv.iszero", BoolS, x.cont(st, rv)))
	case "IsNil":
		if !g(x.kindIn(k, kChan, kFunc, kInterface, kMap, kPtr, kSlice, kUnsafePointer), "kind") {
			return outs, true
		}
		return r(x.rvIsNil(x.cont(st, rv)))
	case "Elem":
		if !g(x.kindIn(k, kPtr, kInterface), "kind") {
			return outs, true
		}
		return r(x.rvElem(st, rv))
	case "CanInterface":
		if !g(valid, "zero Value") {
			return outs, true
		}
		return r(x.rvCanIf(rv))
	case "Interface":
		if !g(c.And(valid, x.rvCanIf(rv)), "unexported or zero Value") {
			return outs, true
		}
		rv = x.cont(st, rv)
		nl := c.And(x.kindIn(k, kInterface), x.rvIsNil(rv))
		return r(x.mkIface([]Alt{{Cond: nl}, {Cond: c.Not(nl), Op: c.App("rv.iface", IfS, rv)}}))
	case "Int":
		if !g(x.kindIn(k, kInt, kInt8, kInt16, kInt32, kInt64), "kind") {
			return outs, true
		}
		return r(x.rvNum("int", BV(64), x.cont(st, rv)))
	case "Uint":
		if !g(x.kindIn(k, kUint, kUint8, kUint16, kUint32, kUint64, kUintptr), "kind") {
			return outs, true
		}
		return r(x.rvNum("uint", BV(64), x.cont(st, rv)))
	case "Float":
		if !g(x.kindIn(k, kFloat32, kFloat64), "kind") {
			return outs, true
		}
		return r(x.rvNum("float", BV(64), x.cont(st, rv)))
	case "Bool":
		if !g(x.kindIn(k, kBool), "kind") {
			return outs, true
		}
		return r(x.rvNum("bool", BoolS, x.cont(st, rv)))
	case "String":
		return r(x.strAtom(st, x.rvNum("string", StrS, x.cont(st, rv))))
	case "Len":
		if !g(x.kindIn(k, kArray, kChan, kMap, kSlice, kString), "kind") {
			return outs, true
		}
		return r(x.rvLen(st, x.cont(st, rv)))
	case "Index":
		i := args[1].(*Term)
		if x.ghost == 0 && x.feasible(st, x.kindIn(k, kString)) && !x.feasible(st, x.kindIn(k, kArray, kSlice)) {
			unsup("reflect indexing of a string")
		}
		if cv := x.cont(st, rv); cv != rv && x.feasible(st, x.kindIn(k, kSlice)) {
			if x.feasible(st, x.kindIn(k, kArray)) {
				unsup("indexing of a changed array or slice")
			}
			rv = cv
		}
		if !g(c.And(x.kindIn(k, kArray, kSlice), c.Ult(i, x.rvLen(st, rv))), "kind or index out of range") {
			return outs, true
		}
		return r(x.rvValid(st, c.App("rv.index", RVS, rv, i)))
	case "NumField":
		if !g(x.kindIn(k, kStruct), "kind") {
			return outs, true
		}
		return r(x.rtNumField(st, x.rvType(rv)))
	case "Field":
		i := args[1].(*Term)
		if !g(c.And(x.kindIn(k, kStruct), c.Ult(i, x.rtNumField(st, x.rvType(rv)))), "kind or index out of range") {
			return outs, true
		}
		return r(x.rvValid(st, c.App("rv.field", RVS, rv, i)))
	case "MapKeys":
		if !g(x.kindIn(k, kMap), "kind") {
			return outs, true
		}
		rv = x.cont(st, rv)
		n := x.rvLen(st, rv)
		et := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		o := x.newObj(st, &ArrayVal{Elem: et, A: &ABase{"rv.mapkeys", []*Term{rv}, et}})
		x.trusted["reflect: MapKeys enumerates the keys once each, in some order that is a function of the map (two calls agree)"] = true
		return r(&SliceVal{Nil: c.F, Obj: o, Off: c.Const(64, 0), Len: n, Cap: n, Elem: et})
	case "MapIndex":
		if !g(x.kindIn(k, kMap), "kind") {
			return outs, true
		}
		return r(c.App("rv.mapindex", RVS, x.cont(st, rv), x.cont(st, args[1].(*Term))))
	}
	return x.reflectSet(fn, name, rv, k, args, st)
}

func (x *Exec) valueOf(st *State, v Val) *Term {
	c := x.c
	iv, ok := v.(*IfaceVal)
	if !ok {
		unsup("reflect.ValueOf of %T", v)
	}
	var res *Term
	for i := len(iv.Alts) - 1; i >= 0; i-- {
		a := iv.Alts[i]
		var t *Term
		switch {
		case a.T == nil && a.Op == nil:
			t = c.Var("rv:zero", RVS)
		case a.Op != nil:
			t = c.App("rv.valueof", RVS, a.Op)
		default:
			t = x.rvOf(st, a.T, a.V)
		}
		if res == nil {
			res = t
		} else {
			res = c.Ite(a.Cond, t, res)
		}
	}
	return res
}

// rvOf is the reflect.Value of a value of a known type.
func (x *Exec) rvOf(st *State, t types.Type, v Val) *Term {
	c := x.c
	n := "rv.of:" + t.String()
	if x.rvOfT == nil {
		x.rvOfT = map[string]types.Type{}
	}
	x.rvOfT[n] = t
	if s, ok := v.(*Term); ok {
		return c.App(n, RVS, s)
	}
	r := c.App(n, RVS, c.Fresh("rvof", BV(64)))
	if sl, ok := v.(*SliceVal); ok {
		st.assume(c.Eq(c.App("rv.len", BV(64), r), sl.Len))
		st.assume(c.Eq(c.App("rv.isnil", BoolS, r), sl.Nil))
	}
	return r
}
func (x *Exec) typeOf(st *State, v Val) *Term {
	c := x.c
	iv, ok := v.(*IfaceVal)
	if !ok {
		unsup("reflect.TypeOf of %T", v)
	}
	if len(iv.Alts) == 1 && iv.Alts[0].T != nil {
		return x.rtConst(iv.Alts[0].T)
	}
	nl := x.ifaceNil(v)
	return c.Ite(nl, c.Var("rt:nil", RTS), x.dynType(x.valueOf(st, v)))
}

// dynType is the type of a reflect.Value got from an interface; what was put into it by Value.Interface keeps its type.
func (x *Exec) dynType(rv *Term) *Term {
	c := x.c
	if rv.op == OIte {
		return c.Ite(rv.args[0], x.dynType(rv.args[1]), x.dynType(rv.args[2]))
	}
	if rv.op == OApp && rv.name == "rv.valueof" {
		if f := rv.args[0]; f.op == OApp && f.name == "rv.iface" {
			w := f.args[0]
			t := x.rvType(w)
			if t.op == OApp && t.name == "rt.ptrto" {
				t = x.rtPtrOf(t.args[0])
			}
			return c.Ite(x.kindIn(x.rvKind(w), kInterface), x.rvType(rv), t)
		}
	}
	return x.rvType(rv)
}

// rtPtrOf is the pointer type to t; the pointer type to the element of a pointer type is that type.
func (x *Exec) rtPtrOf(t *Term) *Term {
	c := x.c
	if t.op == OIte {
		return c.Ite(t.args[0], x.rtPtrOf(t.args[1]), x.rtPtrOf(t.args[2]))
	}
	if t.op == OApp && t.name == "rt.elem" {
		return c.Ite(x.kindIn(x.rtKind(t.args[0]), kPtr), t.args[0], x.rtPtrTo(t))
	}
	return x.rtPtrTo(t)
}
func rtName(t types.Type) string {
	switch u := t.(type) {
	case *types.Basic:
		return types.Typ[u.Kind()].String()
	case *types.Slice:
		return "[]" + rtName(u.Elem())
	case *types.Pointer:
		return "*" + rtName(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), rtName(u.Elem()))
	}
	return t.String()
}
func (x *Exec) rtConst(t types.Type) *Term {
	n := "rt:" + rtName(t)
	if x.rtKinds == nil {
		x.rtKinds = map[string]int{}
		x.rtTypes = map[string]types.Type{}
	}
	x.rtTypes[n] = t
	k := kInvalid
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k = map[types.BasicKind]int{types.Bool: kBool, types.Int: kInt, types.Int8: kInt8, types.Int16: kInt16, types.Int32: kInt32, types.Int64: kInt64,
			types.Uint: kUint, types.Uint8: kUint8, types.Uint16: kUint16, types.Uint32: kUint32, types.Uint64: kUint64, types.Uintptr: kUintptr,
			types.Float32: kFloat32, types.Float64: kFloat64, types.Complex64: kComplex64, types.Complex128: kComplex128, types.String: kString, types.UnsafePointer: kUnsafePointer}[u.Kind()]
	case *types.Struct:
		k = kStruct
	case *types.Pointer:
		k = kPtr
	case *types.Slice:
		k = kSlice
	case *types.Array:
		k = kArray
	case *types.Map:
		k = kMap
	case *types.Interface:
		k = kInterface
	case *types.Signature:
		k = kFunc
	case *types.Chan:
		k = kChan
	}
	if k != kInvalid {
		x.rtKinds[n] = k
	}
	return x.c.Var(n, RTS)
}

// sortModel: sort.Slice leaves the elements in the order of the comparator, which is executed symbolically; sorting the same
// enumeration with an equivalent comparator gives the same result.
type sortDef struct {
	name string
	less *Term
	a, b *Term
	dom  *Term // where the comparator does not panic
}

func (x *Exec) sortSlice(args []Val, st *State) ([]Outcome, bool) {
	c := x.c
	iv := args[0].(*IfaceVal)
	if len(iv.Alts) != 1 {
		return nil, false
	}
	sl, ok := iv.Alts[0].V.(*SliceVal)
	if !ok {
		return nil, false
	}
	less := args[1].(*FuncVal)
	base, ok := x.arrOf(st, sl).(*ABase)
	if !ok || x.scalarSort(sl.Elem) != RVS {
		unsup("sort.Slice of this slice")
	}
	i, j := c.Fresh("sort.i", BV(64)), c.Fresh("sort.j", BV(64))
	s2 := st.clone()
	s2.assume(c.Ult(i, sl.Len))
	s2.assume(c.Ult(j, sl.Len))
	sv := x.inferring
	x.inferring++
	mark := s2.clone()
	los := x.callVal(nil, s2, less, []Val{i, j})
	x.inferring = sv
	var outs []Outcome
	var live []Outcome
	for _, o := range los {
		if o.kind == ORet {
			live = append(live, o)
		} else if x.ghost == 0 {
			p := st.clone()
			outs = append(outs, Outcome{kind: OPanic, st: p, msg: "sort.Slice: the comparator panics"})
		}
	}
	if len(live) == 0 {
		// the comparator is not called for fewer than two elements
		if x.feasible(st, c.Ult(sl.Len, c.Const(64, 2))) {
			st.assume(c.Ult(sl.Len, c.Const(64, 2)))
			outs = append(outs, Outcome{kind: ORet, st: st})
		}
		return outs, true
	}
	val := live[len(live)-1].vals[0].(*Term)
	n := len(mark.pc)
	for k := len(live) - 2; k >= 0; k-- {
		var cs []*Term
		cs = append(cs, live[k].st.pc[n:]...)
		val = c.Ite(c.And(cs...), live[k].vals[0].(*Term), val)
	}
	// in terms of the two elements
	pa, pb := c.Var("?sort.a", RVS), c.Var("?sort.b", RVS)
	x.scratch = st
	ea := x.rd(base, c.Add(sl.Off, i), sl.Elem).(*Term)
	eb := x.rd(base, c.Add(sl.Off, j), sl.Elem).(*Term)
	val = c.Subst(val, map[*Term]*Term{ea: pa, eb: pb})
	// the comparator does not panic on pairs it is asked about
	var okc []*Term
	for _, o := range live {
		okc = append(okc, c.And(o.st.pc[n:]...))
	}
	dom := c.Subst(c.Or(okc...), map[*Term]*Term{ea: pa, eb: pb})
	if val.contains(i) || val.contains(j) {
		unsup("sort comparator depends on the positions")
	}
	var d *sortDef
	var ks []string
	for k := range x.sorts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		e := x.sorts[k]
		s3 := st.clone()
		s3.assume(dom)
		s3.assume(e.dom)
		if e.less == val || x.valid(s3, c.Eq(e.less, val)) {
			d = e
			break
		}
	}
	if d == nil {
		if x.sorts == nil {
			x.sorts = map[string]*sortDef{}
		}
		d = &sortDef{name: fmt.Sprintf("sorted%d", len(x.sorts)), less: val, a: pa, b: pb, dom: dom}
		x.sorts[d.name] = d
	}
	if strings.HasPrefix(base.Name, "sorted") {
		unsup("sorting twice")
	}
	p := &PtrVal{c.F, sl.Obj, sl.Path}
	x.store(st, p, &ArrayVal{sl.Elem, &ABase{d.name + "." + base.Name, base.Args, sl.Elem}})
	x.trusted["sort.Slice permutes the slice into an order sorted by the comparator, the same for equivalent comparators"] = true
	return append(outs, Outcome{kind: ORet, st: st}), true
}

// opaque ghost functions: opaque_f(args) is an uninterpreted function of its arguments.
func (x *Exec) rvIntrinsic(fn *ssa.Function, args []Val, st *State) ([]Outcome, bool) {
	c := x.c
	cx := x.top()
	switch {
	case strings.HasPrefix(fn.Name(), "opaque_"):
		var ts []*Term
		for _, a := range args {
			ts = append(ts, x.flat(st, a)...)
		}
		n := strings.TrimPrefix(fn.Name(), "opaque_")
		if uf := x.prog.pkg.Func("unfold_" + n); uf != nil {
			x.sawOpaque = true
			if x.expand {
				return x.runBody(uf, nil, args, st), true
			}
		}
		var vs []Val
		sig := fn.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			nm := n
			if sig.Len() > 1 {
				nm = fmt.Sprintf("%s#%d", n, i)
			}
			vs = append(vs, x.mkSym(st, sig.At(i).Type(), nm, ts...))
		}
		return ret(st, vs...), true
	case fn.Name() == "verifying":
		return ret(st, c.Bool(cx == nil || !cx.assume)), true
	case fn.Name() == "mayPanic":
		cx.mayPanic = true
		return ret(st), true
	case fn.Name() == "byDesignPanics":
		cx.byDesign = true
		return ret(st), true
	case fn.Name() == "calleePanics":
		cx.calleePan = true
		return ret(st), true
	case fn.Name() == "abstractly":
		if cx.pre && !cx.assume {
			if l := args[0].(*StrVal).Lit; l != nil {
				if x.abstr == nil {
					x.abstr = map[string]bool{}
				}
				x.abstr[*l] = true
			}
		}
		return ret(st), true
	case fn.Name() == "modifiesNewOnly":
		cx.newRV = true
		return ret(st), true
	case fn.Name() == "modifiesTarget":
		if cx.pre {
			cx.modRV = append(cx.modRV, args[0].(*Term))
		}
		return ret(st), true
	case fn.Name() == "allocLimit":
		if cx.pre {
			cx.allocLim = args[0].(*Term)
		}
		return ret(st), true
	case fn.Name() == "invariant":
		if cx.pre && !cx.assume {
			cx.invs = append(cx.invs, args[0].(*FuncVal))
		}
		return ret(st), true
	case fn.Name() == "ensuresMap":
		got, want := args[2].(*IfaceVal).Alts[0].V.(*MapVal), args[3].(*IfaceVal).Alts[0].V.(*MapVal)
		eq := c.Eq(st.heap[got.Obj].(*MapC).T, st.heap[want.Obj].(*MapC).T)
		if cx.assume {
			st.assume(c.Not(got.Nil))
			st.assume(eq)
		} else {
			x.oblige(shortName(cx.fn), *args[0].(*StrVal).Lit, *args[1].(*StrVal).Lit, st, c.And(c.Not(got.Nil), eq))
		}
		return ret(st), true
	case fn.Name() == "setGhostInt":
		if cx.assume {
			x.effects++
			st.heap[ghostIntID] = args[1]
		}
		return ret(st), true
	case fn.Name() == "ghostInt":
		if t := st.heap[ghostIntID]; t != nil {
			return ret(st, t), true
		}
		return ret(st, c.Fresh("ghost.int", BV(64))), true
	case fn.Name() == "rvUsable":
		return ret(st, x.rvUsable(st, args[0].(*Term))), true
	case fn.Name() == "rvCanSet":
		return ret(st, x.rvCanSet(args[0].(*Term))), true
	case fn.Name() == "ensuresReach": // u and r are reached from v
		return x.ensuresReach(st, cx, args)
	case fn.Name() == "isBE":
		iv := args[0].(*IfaceVal)
		var be []*Term
		for _, a := range iv.Alts {
			if a.T != nil && a.T == x.beType {
				be = append(be, a.Cond)
			}
		}
		return ret(st, c.Or(be...)), true
	case fn.Name() == "iteRV":
		return ret(st, c.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))), true
	case fn.Name() == "marshalerOf": // (BinaryMarshaler, bool) of a reflect value, as the term of its dynamic value
		return nil, false
	}
	return nil, false
}

// flat lists the scalar leaves of an argument of an opaque function.
func (x *Exec) flat(st *State, v Val) []*Term {
	c := x.c
	switch v := v.(type) {
	case *Term:
		if v.sort == RVS {
			return []*Term{x.cont(st, v)}
		}
		return []*Term{v}
	case *StrVal:
		return []*Term{x.scal(v)}
	case *IfaceVal:
		if be := x.orderTerm(x.liveAlts(st, v)); be != nil {
			return []*Term{be}
		}
		var op *Term
		for i := len(v.Alts) - 1; i >= 0; i-- {
			a := v.Alts[i]
			var t *Term
			switch {
			case a.Op != nil:
				t = a.Op
			case a.T == nil:
				t = c.Var("iface:nil", IfS)
			default:
				unsup("opaque function of a concrete interface value")
			}
			if op == nil {
				op = t
			} else {
				op = c.Ite(a.Cond, t, op)
			}
		}
		return []*Term{op}
	case *StructVal:
		var out []*Term
		for _, f := range v.F {
			out = append(out, x.flat(st, f)...)
		}
		return out
	case *SeqVal:
		return []*Term{x.seqTerm(v)}
	}
	unsup("opaque function of %T", v)
	return nil
}

func (x *Exec) havocRV(st *State, cx *cctx) {
	for _, t := range cx.modRV {
		x.rwrite(st, t, nil)
	}
}

// invokeUser is the assumed contract of user code reached through BinaryMarshaler and the like.
func (x *Exec) invokeUser(st *State, call *ssa.CallCommon, op *Term, args []Val) ([]Outcome, bool) {
	c := x.c
	switch call.Method.Name() {
	case "MarshalWithEncoder":
		e, ok := args[0].(*PtrVal)
		if !ok {
			return nil, false
		}
		x.trusted["user MarshalWithEncoder: on success appends bytes that are a function of the value, the encoding and the field's byte order, through the encoder's own methods (so the count is kept and a writer error is reported)"] = true
		w, sv, _ := x.encOutput(st, e)
		ws, _ := x.wstate(st, w)
		tt := sv.T.Underlying().(*types.Struct)
		var optF, cntF = -1, -1
		be := c.Fresh("user.be", BoolS)
		enc := c.Fresh("user.enc", BV(64))
		for i := 0; i < tt.NumFields(); i++ {
			switch f := tt.Field(i); {
			case typeName(f.Type()) == x.binPath+".Encoding":
				enc = sv.F[i].(*Term)
			case typeName(f.Type()) == "int" || f.Type().String() == "int":
				cntF = i
			default:
				if p, ok := f.Type().(*types.Pointer); ok {
					if _, ok := p.Elem().Underlying().(*types.Struct); ok {
						optF = i
						pv := sv.F[i].(*PtrVal)
						if pv.Obj != 0 && x.valid(st, c.Not(pv.Nil)) {
							if os, ok := x.load(st, pv).(*StructVal); ok {
								for _, fv := range os.F {
									if iv, ok := fv.(*IfaceVal); ok {
										if b := x.orderTerm(x.liveAlts(st, iv)); b != nil {
											be = b
										}
									}
								}
							}
						}
					}
				}
			}
		}
		if optF < 0 || cntF < 0 {
			unsup("encoder fields")
		}
		set := func(s *State, out *SeqVal, n *Term, failed *Term) {
			s2 := x.load(s, e).(*StructVal)
			f := append([]Val{}, s2.F...)
			f[cntF] = c.Add(f[cntF].(*Term), n)
			f[optF] = x.havocOpt(s, tt.Field(optF).Type())
			x.store(s, e, &StructVal{s2.T, f})
			x.setW(s, w, &WState{Out: out, Handed: c.Add(ws.Handed, n), Failed: failed})
		}
		who := c.App("rv.valueof", RVS, op)
		if op.op == OApp && op.name == "rv.iface" {
			who = op.args[0]
		}
		m := c.App("marsh.seq", SeqS, who, enc, be)
		ms := x.seqApp(m)
		s2 := st.clone()
		n2 := c.Fresh("user.n.len", BV(64))
		s2.assume(c.Ult(n2, c.Const(64, 1<<48)))
		var outs []Outcome
		if _, p, _ := x.wkey(st, w); p == nil {
			set(s2, x.seqApp(c.Fresh("user.out.seq", SeqS)), n2, c.Fresh("user.failed", BoolS))
		} else {
			fs := x.seqApp(c.Fresh("user.out.seq", SeqS))
			set(s2, x.cat(ws.Out, fs), x.seqLen(fs), c.F)
		}
		outs = append(outs, Outcome{kind: ORet, st: s2, vals: []Val{x.opaqueIface("user.err")}})
		set(st, x.cat(ws.Out, ms), x.seqLen(ms), ws.Failed)
		outs = append(outs, Outcome{kind: ORet, st: st, vals: []Val{x.nilIface()}})
		return outs, true
	case "UnmarshalWithDecoder":
		d, ok := args[0].(*PtrVal)
		if !ok {
			return nil, false
		}
		x.trusted["user UnmarshalWithDecoder: reads through the decoder's own methods (so the cursor stays inside the input, which is not replaced), writes only to its receiver, and does not panic"] = true
		sv, ok := x.load(st, d).(*StructVal)
		if !ok {
			unsup("decoder object")
		}
		tt := sv.T.Underlying().(*types.Struct)
		f := append([]Val{}, sv.F...)
		var data *SliceVal
		for i := range f {
			if s, ok := f[i].(*SliceVal); ok {
				data = s
			}
		}
		for i := range f {
			if typeName(tt.Field(i).Type()) == "int" || tt.Field(i).Type().String() == "int" {
				p := c.Fresh("user.pos.len", BV(64))
				st.assume(c.And(c.Sle(c.Const(64, 0), p), c.Sle(p, data.Len)))
				f[i] = p
			}
			if p, ok := tt.Field(i).Type().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Struct); ok {
					f[i] = x.havocOpt(st, tt.Field(i).Type())
				}
			}
		}
		x.store(st, d, &StructVal{sv.T, f})
		who := (*Term)(nil)
		if op.op == OApp && op.name == "rv.iface" {
			who = op.args[0]
		}
		x.rwrite(st, who, nil)
		nl := c.Fresh("user.err.nil", BoolS)
		return ret(st, &IfaceVal{[]Alt{{Cond: nl}, {Cond: c.Not(nl), Op: c.Fresh("user.err", IfS)}}}), true
	}
	return nil, false
}
func (x *Exec) havocOpt(st *State, t types.Type) Val {
	x.c.fresh["user.opt"]++
	return x.mkSym(st, t, fmt.Sprintf("user.opt!%d", x.c.fresh["user.opt"]))
}

// liveAlts drops alternatives that the path excludes.
func (x *Exec) liveAlts(st *State, iv *IfaceVal) *IfaceVal {
	var o []Alt
	for _, a := range iv.Alts {
		if x.feasible(st, a.Cond) {
			o = append(o, a)
		}
	}
	return &IfaceVal{o}
}
