package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The reflective heap. A reflect.Value term is a handle: a value (ValueOf, New, MakeSlice, ...) or a location reached
// from one (a field, an element, what a pointer points to). Writes through handles are kept as a list; the content of a
// location is found by walking it backwards. A write affects its location and everything reachable from it; locations
// below an object made by reflect.New that has not been stored anywhere are separate from all others.

type rwrite struct {
	Loc *Term // nil: anything may have changed
	Val *Term // the new content of Loc, nil if unknown
	Ep  *Term // names the state after the write
}
type RWVal struct {
	W   []rwrite
	Esc map[*Term]*Term // rv.new objects stored somewhere, and where
}

const rheapID = globalBase - 1

// ghostIntID holds the ghost integer a callee's contract may set.
const ghostIntID = globalBase - 2

func (x *Exec) rw(st *State) *RWVal {
	if v, ok := st.heap[rheapID].(*RWVal); ok {
		return v
	}
	return &RWVal{}
}
func (x *Exec) rwrite(st *State, loc, val *Term) {
	o := x.rw(st)
	n := &RWVal{W: append(o.W[:len(o.W):len(o.W)], rwrite{loc, val, x.c.Fresh("ep", BV(64))}), Esc: o.Esc}
	if val != nil {
		lr := x.rroot(o, loc)
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if isNewObj(t) && t != lr && o.Esc[t] == nil {
				if n.Esc == nil || len(n.Esc) == len(o.Esc) {
					m := map[*Term]*Term{}
					for k, v := range o.Esc {
						m[k] = v
					}
					n.Esc = m
				}
				n.Esc[t] = loc
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(val)
	}
	st.heap[rheapID] = n
}

// rroot is the object a handle is part of or reached from.
func (x *Exec) rroot(w *RWVal, h *Term) *Term {
	for i := 0; i < 200; i++ {
		if h.op != OApp {
			return h
		}
		switch h.name {
		case "rv.field", "rv.index", "rv.elem", "rv.addr", "rv.reach":
			h = h.args[0]
		case "rv.at":
			h = h.args[1]
		case "rv.valueof":
			if a := h.args[0]; a.op == OApp && a.name == "rv.iface" {
				h = a.args[0]
				continue
			}
			return h
		case "rv.new":
			if o := w.Esc[h]; o != nil {
				h = o
				continue
			}
			return h
		default:
			return h
		}
	}
	return h
}
func isNewObj(t *Term) bool { return t.op == OApp && t.name == "rv.new" && len(t.args) == 2 }

// isRVal: the handle is a value, not a location.
func isRVal(h *Term) bool {
	if h.op == OVar && h.name == "rv:zero" {
		return true
	}
	if h.op != OApp {
		return false
	}
	switch h.name {
	case "rv.makeslice", "rv.makemap", "rv.zeroof", "rv.nonnil", "rv.new", "rv.valueof", "rv.conv", "rv.append", "rv.at", "rv.addr", "rv.mapset", "rv.copy":
		return true
	}
	return strings.HasPrefix(h.name, "rv.of") || strings.HasPrefix(h.name, "rv.mk:")
}

// rpath: if h is a part (field or element of an array) of loc, rebuild that part from val.
func (x *Exec) rpath(h, loc, val *Term) *Term {
	if h == loc {
		return val
	}
	if h.op != OApp || h.name != "rv.field" && h.name != "rv.index" {
		return nil
	}
	p := x.rpath(h.args[0], loc, val)
	if p == nil {
		return nil
	}
	return x.c.App(h.name, RVS, p, h.args[1])
}

// rdisjoint: a write at loc cannot change h.
func (x *Exec) rdisjoint(st *State, w *RWVal, loc, h *Term) bool {
	if loc == nil {
		return false
	}
	a, b := x.rroot(w, loc), x.rroot(w, h)
	if a != b && (isNewObj(a) || isNewObj(b)) {
		return true
	}
	// different fields or elements of the same thing
	for l := loc; l.op == OApp && (l.name == "rv.field" || l.name == "rv.index"); l = l.args[0] {
		for g := h; g.op == OApp && (g.name == "rv.field" || g.name == "rv.index"); g = g.args[0] {
			if l != g && l.name == g.name && l.args[0] == g.args[0] {
				if ne := x.c.Neq(l.args[1], g.args[1]); ne == x.c.T || x.valid(st, ne) {
					return true
				}
			}
		}
	}
	return false
}

// cont is the content of a handle now, as a value.
func (x *Exec) cont(st *State, h *Term) *Term {
	if isRVal(h) {
		return h
	}
	if h.op == OIte {
		return x.c.Ite(h.args[0], x.cont(st, h.args[1]), x.cont(st, h.args[2]))
	}
	w := x.rw(st)
	for i := len(w.W) - 1; i >= 0; i-- {
		e := w.W[i]
		if e.Loc == h && e.Val != nil {
			return e.Val
		}
		if x.rdisjoint(st, w, e.Loc, h) {
			continue
		}
		if e.Loc != nil {
			v := e.Val
			if v == nil {
				v = x.c.App("rv.at", RVS, e.Ep, e.Loc)
			}
			if p := x.rpath(h, e.Loc, v); p != nil {
				return p
			}
		}
		return x.c.App("rv.at", RVS, e.Ep, h)
	}
	// untouched since the function started; a new variable is zero
	if n := h; n.op == OApp && n.name == "rv.elem" && isNewObj(n.args[0]) {
		return x.c.App("rv.zeroof", RVS, n.args[0].args[0])
	}
	if n := x.rroot(w, h); isNewObj(n) {
		return x.c.App("rv.at", RVS, x.c.Const(64, 0), h)
	}
	return h
}

func (x *Exec) rvCanIf(rv *Term) *Term {
	c := x.c
	if rv.op == OIte {
		return c.Ite(rv.args[0], x.rvCanIf(rv.args[1]), x.rvCanIf(rv.args[2]))
	}
	if rv.op == OApp {
		switch rv.name {
		case "rv.index", "rv.elem", "rv.addr", "rv.append":
			return x.rvCanIf(rv.args[0])
		case "rv.at":
			return x.rvCanIf(rv.args[1])
		case "rv.field":
			return c.And(x.rvCanIf(rv.args[0]), c.App("rt.fexp", BoolS, x.rvType(rv.args[0]), rv.args[1]))
		}
		if isRVal(rv) {
			return c.T
		}
	}
	return c.App("rv.canif", BoolS, rv)
}
func (x *Exec) rvCanAddr(rv *Term) *Term {
	c := x.c
	if rv.op == OIte {
		return c.Ite(rv.args[0], x.rvCanAddr(rv.args[1]), x.rvCanAddr(rv.args[2]))
	}
	if isRVal(rv) {
		return c.F
	}
	if rv.op == OApp {
		switch rv.name {
		case "rv.elem":
			return x.kindIn(x.rvKind(rv.args[0]), kPtr)
		case "rv.field":
			return x.rvCanAddr(rv.args[0])
		case "rv.index":
			return c.Or(x.kindIn(x.rvKind(rv.args[0]), kSlice), x.rvCanAddr(rv.args[0]))
		}
	}
	return c.App("rv.canaddr", BoolS, rv)
}
func (x *Exec) rvCanSet(rv *Term) *Term { return x.c.And(x.rvCanAddr(rv), x.rvCanIf(rv)) }

// rvIsNil is for a content term.
func (x *Exec) rvIsNil(v *Term) *Term {
	c := x.c
	if v.op == OIte {
		return c.Ite(v.args[0], x.rvIsNil(v.args[1]), x.rvIsNil(v.args[2]))
	}
	if v.op == OApp {
		switch v.name {
		case "rv.new", "rv.nonnil", "rv.makeslice", "rv.makemap", "rv.addr", "rv.append", "rv.mapset":
			return c.F
		case "rv.zeroof":
			return c.T
		}
	}
	return c.App("rv.isnil", BoolS, v)
}

// rassignable: a value of type from may be stored in a location of type to.
func (x *Exec) rassignable(from, to *Term) *Term {
	c := x.c
	if from == to {
		return c.T
	}
	ok := c.Eq(from, to)
	kt := x.rtKind(to)
	if from.op == OApp && from.name == "rt.ptrto" {
		ok = c.Or(ok, c.And(x.kindIn(kt, kPtr), c.Eq(from.args[0], x.rtElem(to))))
	}
	if t := x.rtTypes[from.name]; from.op == OVar && t != nil {
		if s, isS := t.(*types.Slice); isS { // an unnamed slice type
			ok = c.Or(ok, c.And(x.kindIn(kt, kSlice), c.Eq(x.rtConst(s.Elem()), x.rtElem(to))))
		}
	}
	return ok
}

var kNums = []int{kInt, kInt8, kInt16, kInt32, kInt64, kUint, kUint8, kUint16, kUint32, kUint64, kUintptr, kFloat32, kFloat64}

// reflectSet: the operations that write, and the predicates about writing.
func (x *Exec) reflectSet(fn *ssa.Function, name string, rv, k *Term, args []Val, st *State) (outs []Outcome, done bool) {
	c := x.c
	r := func(vs ...Val) ([]Outcome, bool) {
		x.trusted[trReflect] = true
		x.trusted[trReflectSet] = true
		return append(outs, Outcome{kind: ORet, st: st, vals: vs}), true
	}
	g := func(cond *Term, msg string) bool {
		return x.rguard(st, cond, "reflect.Value."+name+": "+msg, &outs)
	}
	valid := c.Neq(k, c.Const(64, kInvalid))
	set := func(ks []int, f func(a *Term) *Term) ([]Outcome, bool) {
		if !g(x.kindIn(k, ks...), "kind") || !g(x.rvCanSet(rv), "not settable") {
			return outs, true
		}
		var a *Term
		if t, ok := args[1].(*Term); ok {
			a = t
		} else {
			x.scratch = st
			a = x.scal(args[1])
		}
		x.rwrite(st, rv, f(a))
		return r()
	}
	mk := func(what string) func(a *Term) *Term {
		return func(a *Term) *Term { return c.App("rv.mk:"+what, RVS, x.rvType(rv), a) }
	}
	switch name {
	case "CanSet":
		return r(x.rvCanSet(rv))
	case "CanAddr":
		return r(x.rvCanAddr(rv))
	case "Addr":
		if !g(x.rvCanAddr(rv), "unaddressable value") {
			return outs, true
		}
		if rv.op == OApp && rv.name == "rv.elem" {
			// &*p is p, without p's own address
			return r(c.App("rv.addr", RVS, rv))
		}
		return r(c.App("rv.addr", RVS, rv))
	case "SetInt":
		return set([]int{kInt, kInt8, kInt16, kInt32, kInt64}, mk("int"))
	case "SetUint":
		return set([]int{kUint, kUint8, kUint16, kUint32, kUint64, kUintptr}, mk("uint"))
	case "SetFloat":
		return set([]int{kFloat32, kFloat64}, mk("float"))
	case "SetBool":
		return set([]int{kBool}, mk("bool"))
	case "SetString":
		return set([]int{kString}, mk("string"))
	case "Set":
		v := args[1].(*Term)
		if !g(x.rvCanSet(rv), "not settable") || !g(c.And(c.Neq(x.rvKind(v), c.Const(64, kInvalid)), x.rvCanIf(v)), "zero or unexported operand") ||
			!g(x.rassignable(x.rvType(v), x.rvType(rv)), "value not assignable to this type") {
			return outs, true
		}
		x.rwrite(st, rv, x.cont(st, v))
		return r()
	case "SetLen":
		unsup("reflect SetLen")
	case "SetMapIndex":
		kv, ev := args[1].(*Term), args[2].(*Term)
		m := x.cont(st, rv)
		if !g(x.kindIn(k, kMap), "kind") || !g(x.rvCanIf(rv), "unexported") || !g(c.Not(x.rvIsNil(m)), "assignment to entry in nil map") ||
			!g(c.And(x.rassignable(x.rvType(kv), c.App("rt.key", RTS, x.rvType(rv))), x.rassignable(x.rvType(ev), x.rtElem(x.rvType(rv)))), "key or element not assignable") {
			return outs, true
		}
		x.trusted["reflect SetMapIndex: map keys are hashable (a key holding an uncomparable dynamic value is not considered)"] = true
		x.rwrite(st, rv, c.App("rv.mapset", RVS, m, x.cont(st, kv), x.cont(st, ev)))
		return r()
	case "Convert":
		t := args[1].(*Term)
		if !g(c.Or(c.Eq(x.rvType(rv), t), c.And(x.kindIn(k, kNums...), x.kindIn(x.rtKind(t), kNums...))), "not convertible") || !g(valid, "zero Value") {
			return outs, true
		}
		return r(c.App("rv.conv", RVS, x.cont(st, rv), t))
	case "NumMethod":
		return r(c.App("rv.nmeth.len", BV(64), rv))
	}
	return nil, false
}

const trReflectSet = "package reflect: a write through a Value changes its location and what is reachable from it; objects made by New are separate until stored"

// reflectFunc: package-level functions that make values.
func (x *Exec) reflectFunc(name string, args []Val, st *State) (outs []Outcome, done bool) {
	c := x.c
	r := func(vs ...Val) ([]Outcome, bool) {
		x.trusted[trReflect] = true
		return append(outs, Outcome{kind: ORet, st: st, vals: vs}), true
	}
	g := func(cond *Term, msg string) bool { return x.rguard(st, cond, "reflect."+name+": "+msg, &outs) }
	switch name {
	case "New":
		t := args[0].(*Term)
		if x.track() {
			return r(c.App("rv.new", RVS, t, c.Fresh("new", BV(64))))
		}
		return r(c.App("rv.new", RVS, t))
	case "MakeSlice":
		t, n, cp := args[0].(*Term), args[1].(*Term), args[2].(*Term)
		if !g(x.kindIn(x.rtKind(t), kSlice), "kind") || !g(c.And(c.Sle(c.Const(64, 0), n), c.Sle(n, cp)), "length out of range") {
			return outs, true
		}
		x.allocObl(st, cp, "reflect.MakeSlice")
		return r(c.App("rv.makeslice", RVS, t, n, c.Fresh("mks", BV(64))))
	case "MakeMap", "MakeMapWithSize":
		t := args[0].(*Term)
		if !g(x.kindIn(x.rtKind(t), kMap), "kind") {
			return outs, true
		}
		if len(args) > 1 {
			x.allocObl(st, args[1].(*Term), "reflect.MakeMapWithSize")
		}
		return r(c.App("rv.makemap", RVS, t, c.Fresh("mkm", BV(64))))
	case "Append":
		s := args[0].(*Term)
		sl := args[1].(*SliceVal)
		a, ok := x.arrOf(st, sl).(*AExp)
		if !ok || len(a.E) != 1 {
			unsup("reflect.Append of other than one element")
		}
		e := a.E[0].(*Term)
		if !g(x.kindIn(x.rvKind(s), kSlice), "kind") || !g(c.And(x.rvCanIf(s), x.rvCanIf(e)), "unexported") || !g(x.rassignable(x.rvType(e), x.rtElem(x.rvType(s))), "element not assignable") {
			return outs, true
		}
		return r(c.App("rv.append", RVS, x.cont(st, s), x.cont(st, e)))
	case "Copy":
		d, s := args[0].(*Term), args[1].(*Term)
		kd, ks := x.rvKind(d), x.rvKind(s)
		if !g(x.kindIn(kd, kArray, kSlice), "kind") || !g(c.Imp(x.kindIn(kd, kArray), x.rvCanAddr(d)), "unaddressable array") || !g(c.And(x.rvCanIf(d), x.rvCanIf(s)), "unexported") ||
			!g(x.kindIn(ks, kArray, kSlice), "source kind") || !g(c.Eq(x.rtElem(x.rvType(d)), x.rtElem(x.rvType(s))), "element types differ") {
			return outs, true
		}
		x.rwrite(st, d, c.App("rv.copy", RVS, x.cont(st, d), x.cont(st, s)))
		n := c.Fresh("copied.len", BV(64))
		return r(n)
	}
	return nil, false
}

// track: the function being verified may write through reflection.
func (x *Exec) track() bool { return x.ghost == 0 && len(x.cctx) > 0 && (len(x.cctx[0].modRV) > 0 || x.cctx[0].newRV) }

// allocObl: allocations are bounded by the limit of the contract being verified.
func (x *Exec) allocObl(st *State, n *Term, what string) {
	if x.ghost > 0 || len(x.cctx) == 0 || x.cctx[0].allocLim == nil || n.isConst() {
		return
	}
	x.oblige(shortName(x.cctx[0].fn), "alloc", "allocates no more elements than there are bytes left", st, x.c.And(x.c.Sle(x.c.Const(64, 0), n), x.c.Sle(n, x.cctx[0].allocLim)))
	_ = what
}

// joinRW joins two write lists that share a prefix: locations written in either become unknown.
func (x *Exec) joinRW(a, b *RWVal) *RWVal {
	if a == b {
		return a
	}
	i := 0
	for i < len(a.W) && i < len(b.W) && a.W[i] == b.W[i] {
		i++
	}
	if i == len(a.W) && i == len(b.W) {
		return &RWVal{W: a.W, Esc: joinEsc(a.Esc, b.Esc)}
	}
	if !x.softMerge {
		unsup("join of different writes through reflection")
	}
	out := &RWVal{W: a.W[:i:i], Esc: joinEsc(a.Esc, b.Esc)}
	seen := map[*Term]bool{}
	for _, l := range [][]rwrite{a.W[i:], b.W[i:]} {
		for _, w := range l {
			if seen[w.Loc] {
				continue
			}
			seen[w.Loc] = true
			out.W = append(out.W, rwrite{w.Loc, nil, x.c.Fresh("ep", BV(64))})
		}
	}
	return out
}
func joinEsc(a, b map[*Term]*Term) map[*Term]*Term {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	n := map[*Term]*Term{}
	for k, v := range a {
		n[k] = v
	}
	for k, v := range b {
		n[k] = v
	}
	return n
}

// widenRW describes the writes of an arbitrary number of iterations, given those of one.
func (x *Exec) widenRW(st *State, entry, end *RWVal, no int, q *Term, mark int) (*RWVal, string) {
	c := x.c
	out := &RWVal{W: entry.W[:len(entry.W):len(entry.W)], Esc: entry.Esc}
	seen := map[*Term]bool{}
	key := ""
	if mark < 0 {
		mark = q.id
	}
	fresh := func(t *Term) bool { return !x.okDelta(t, mark, nil) || t.contains(q) }
	i := len(entry.W)
	if len(end.W) < i {
		i = 0
	}
	s2 := st.clone()
	s2.heap[rheapID] = end
	for _, w := range end.W[i:] {
		l := w.Loc
		if l != nil {
			root := x.rroot(end, l)
			if isNewObj(root) && fresh(root) {
				continue // an object of this iteration only
			}
			for l != nil && fresh(l) {
				if l.op == OApp && (l.name == "rv.field" || l.name == "rv.index" || l.name == "rv.elem" || l.name == "rv.reach" || l.name == "rv.addr") {
					l = l.args[0]
				} else if l.op == OApp && l.name == "rv.at" {
					l = l.args[1]
				} else if isNewObj(l) && end.Esc[l] != nil {
					l = end.Esc[l]
				} else {
					l = nil
				}
			}
		}
		if seen[l] {
			continue
		}
		seen[l] = true
		id := -1
		n := rwrite{Loc: l, Ep: c.App(fmt.Sprintf("hv%d:ep%d", no, len(seen)), BV(64), q)}
		if l != nil {
			id = l.id
			if x.rvIsNil(x.cont(st, l)) == c.F && x.rvIsNil(x.cont(s2, l)) == c.F {
				n.Val = c.App("rv.nonnil", RVS, n.Ep, l)
				id = -2 - id
			}
		}
		key += fmt.Sprintf("%d,", id)
		out.W = append(out.W, n)
	}
	return out, "rw:" + key
}

// rootIs: t is r or reached from it.
func (x *Exec) rootIs(w *RWVal, t, r *Term) bool {
	if t.op == OIte {
		return x.rootIs(w, t.args[1], r) && x.rootIs(w, t.args[2], r)
	}
	o := x.rroot(w, t)
	if o.op == OIte && o != t {
		return x.rootIs(w, o, r)
	}
	return o == r
}

func (x *Exec) substRW(v *RWVal, s func(*Term) *Term) *RWVal {
	if len(v.W) == 0 {
		return v
	}
	n := &RWVal{W: make([]rwrite, len(v.W))}
	ch := false
	for i, w := range v.W {
		n.W[i] = rwrite{s(w.Loc), s(w.Val), s(w.Ep)}
		if n.W[i] != w {
			ch = true
		}
	}
	if len(v.Esc) > 0 {
		n.Esc = map[*Term]*Term{}
		for k, l := range v.Esc {
			n.Esc[s(k)] = s(l)
		}
	}
	if !ch {
		return v
	}
	return n
}

func explicitPanic(msg string) bool {
	return strings.HasPrefix(msg, "explicit panic") || strings.HasPrefix(msg, "panic: ")
}

// rvUsable: decoding into the value can work: it is a non-nil pointer, or it can be set.
func (x *Exec) rvUsable(st *State, v *Term) *Term {
	c := x.c
	k := x.rvKind(v)
	return c.And(c.Neq(k, c.Const(64, kInvalid)), x.rvCanIf(v), c.Or(c.And(x.kindIn(k, kPtr), c.Not(x.rvIsNil(x.cont(st, v)))), x.rvCanSet(v)))
}

// rwFrame: every write since pre is to the declared targets, to what is reached from them, or to objects made since.
func (x *Exec) rwFrame(cx *cctx, pre, post *State) (*Term, bool) {
	a, b := x.rw(pre), x.rw(post)
	if len(b.W) < len(a.W) {
		return nil, false
	}
	roots := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		r := x.rroot(a, t)
		if r.op == OIte {
			add(r.args[1])
			add(r.args[2])
			return
		}
		roots[r] = true
	}
	for _, t := range cx.modRV {
		add(t)
	}
	for _, w := range b.W[len(a.W):] {
		if w.Loc == nil {
			return nil, false
		}
		if !x.rootIn(b, w.Loc, roots) {
			return w.Loc, false
		}
	}
	return nil, true
}
func (x *Exec) rootIn(w *RWVal, t *Term, roots map[*Term]bool) bool {
	if t.op == OIte {
		return x.rootIn(w, t.args[1], roots) && x.rootIn(w, t.args[2], roots)
	}
	r := x.rroot(w, t)
	if r.op == OIte && r != t {
		return x.rootIn(w, r, roots)
	}
	if r.op == OVar && r.name == "rv:zero" {
		return true // nothing can be written through the zero Value
	}
	return roots[r] || isNewObj(r) || r.op == OApp && (r.name == "rv.makeslice" || r.name == "rv.makemap")
}

func (x *Exec) ensuresReach(st *State, cx *cctx, args []Val) ([]Outcome, bool) {
	c := x.c
	u, _ := args[0].(*IfaceVal)
	r, v := args[1].(*Term), args[2].(*Term)
	if cx.assume {
		x.effects++
		re := func() *Term { return c.App("rv.reach", RVS, v, c.Fresh("reach", BV(64))) }
		st.assume(c.Eq(r, re())) // or the zero Value, through which nothing can be written
		for _, a := range u.Alts {
			if a.Op != nil {
				st.assume(c.Eq(a.Op, c.App("rv.iface", IfS, re())))
			}
		}
		return ret(st), true
	}
	w := x.rw(st)
	roots := map[*Term]bool{x.rroot(w, v): true}
	ok := c.T
	zero := c.Var("rv:zero", RVS)
	if r != zero && !x.rootIn(w, r, roots) {
		ok = c.F
	}
	for _, a := range u.Alts {
		if a.Op != nil && x.feasible(st, a.Cond) && !(a.Op.op == OApp && a.Op.name == "rv.iface" && x.rootIn(w, a.Op.args[0], roots)) {
			ok = c.F
		}
	}
	x.cover[shortName(cx.fn)+" / what is returned belongs to the target"] = true
	x.oblige(shortName(cx.fn), "out", "what is returned belongs to the target", st, ok)
	return ret(st), true
}

// oneRoot is the root all alternatives of t share.
func (x *Exec) oneRoot(w *RWVal, t *Term) *Term {
	if t.op == OIte {
		a, b := x.oneRoot(w, t.args[1]), x.oneRoot(w, t.args[2])
		if a == b {
			return a
		}
		return nil
	}
	o := x.rroot(w, t)
	if o.op == OIte && o != t {
		return x.oneRoot(w, o)
	}
	return o
}
