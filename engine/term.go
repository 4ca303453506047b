package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

type Sort struct {
	w    int    // bit-vector width; 0 otherwise
	name string // "Bool" or an uninterpreted sort name; "" for bit-vectors
}

var (
	BoolS  = &Sort{name: "Bool"}
	bvS    = map[int]*Sort{}
	uninS  = map[string]*Sort{}
	StrS   = USort("Str")
	RVS    = USort("RV")    // reflect.Value contents (abstract Go values)
	RTS    = USort("RT")    // reflect.Type
	IfS    = USort("Iface") // opaque interface values
	SeqS   = USort("Seq")   // opaque byte sequences
	MapS   = USort("Map")   // maps
	IntS   = &Sort{name: "Int"}
	sortMu chan struct{}
)

func init() {
	for w := 1; w <= 512; w++ {
		bvS[w] = &Sort{w: w}
	}
}

func BV(w int) *Sort {
	s := bvS[w]
	if s == nil {
		panic(fmt.Sprintf("no bit-vector sort of width %d", w))
	}
	return s
}
func USort(n string) *Sort {
	s := uninS[n]
	if s == nil {
		s = &Sort{name: n}
		uninS[n] = s
	}
	return s
}
func (s *Sort) smt() string {
	if s.w > 0 {
		return fmt.Sprintf("(_ BitVec %d)", s.w)
	}
	if s == BoolS {
		return "Bool"
	}
	return "U" + s.name
}

// ---------------------------------------------------------------- terms

type Op uint8

const (
	OVar Op = iota
	OConst
	OApp
	ONot
	OAnd
	OOr
	OEq
	OIte
	OLin // n + sum coefs[i]*args[i]
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OExtract // n = hi<<16|lo
	OConcat
	OSExt
	OUlt
	OUle
	OSlt
	OSle
)

type Term struct {
	id    int
	op    Op
	sort  *Sort
	args  []*Term
	n     uint64
	coefs []uint64
	name  string
	syms  map[*Term]bool // lazily computed set of variables / applications' symbols
	symN  map[string]bool
}

// Ctx owns a hash-consed universe of terms. Not safe for concurrent use.
type Ctx struct {
	tab   map[string]*Term
	all   []*Term
	T, F  *Term
	fresh map[string]int
	// user-declared function signatures: name -> (arg sorts, result)
	funs map[string]*FunSig
}
type FunSig struct {
	args []*Sort
	res  *Sort
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, funs: map[string]*FunSig{}}
	c.T = c.mk(&Term{op: OConst, sort: BoolS, n: 1})
	c.F = c.mk(&Term{op: OConst, sort: BoolS, n: 0})
	return c
}

func (c *Ctx) key(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%d|%s|%d|%s", t.op, t.sort.w, t.sort.name, t.n, t.name)
	for i, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
		if t.coefs != nil {
			fmt.Fprintf(&b, "*%d", t.coefs[i])
		}
	}
	return b.String()
}
func (c *Ctx) mk(t *Term) *Term {
	k := c.key(t)
	if o := c.tab[k]; o != nil {
		return o
	}
	t.id = len(c.all)
	c.all = append(c.all, t)
	c.tab[k] = t
	return t
}

func (c *Ctx) Var(name string, s *Sort) *Term { return c.mk(&Term{op: OVar, sort: s, name: name}) }
func (c *Ctx) Fresh(name string, s *Sort) *Term {
	c.fresh[name]++
	return c.Var(fmt.Sprintf("%s!%d", name, c.fresh[name]), s)
}
func (c *Ctx) App(name string, res *Sort, args ...*Term) *Term {
	if f := c.funs[name]; f == nil {
		sg := &FunSig{res: res}
		for _, a := range args {
			sg.args = append(sg.args, a.sort)
		}
		c.funs[name] = sg
	} else {
		if f.res != res || len(f.args) != len(args) {
			panic("function " + name + " used at two signatures")
		}
		for i := range args {
			if f.args[i] != args[i].sort {
				panic(fmt.Sprintf("function %s used at two signatures (arg %d: %s vs %s)", name, i, f.args[i].smt(), args[i].sort.smt()))
			}
		}
	}
	if len(args) == 0 {
		return c.Var(name, res)
	}
	return c.mk(&Term{op: OApp, sort: res, name: name, args: args})
}
func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}
func (c *Ctx) Const(w int, v uint64) *Term {
	if w > 64 {
		if w > 64 {
			// wide constants are concatenations of a zero part and a 64-bit part
			if v == 0 {
				return c.mk(&Term{op: OConst, sort: BV(w), n: 0})
			}
			return c.Concat(c.Const(w-64, 0), c.Const(64, v))
		}
	}
	return c.mk(&Term{op: OConst, sort: BV(w), n: v & mask(w)})
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isC(v uint64) bool {
	return t.op == OConst && t.n == v
}
func signed(v uint64, w int) int64 {
	if w == 64 {
		return int64(v)
	}
	if v>>(uint(w)-1)&1 == 1 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.T:
		return c.F
	case a == c.F:
		return c.T
	case a.op == ONot:
		return a.args[0]
	case a.op == OUlt:
		return c.Ule(a.args[1], a.args[0])
	case a.op == OUle:
		return c.Ult(a.args[1], a.args[0])
	case a.op == OSlt:
		return c.Sle(a.args[1], a.args[0])
	case a.op == OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(&Term{op: ONot, sort: BoolS, args: []*Term{a}})
}
func (c *Ctx) And(ts ...*Term) *Term { return c.andor(OAnd, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.andor(OOr, ts) }
func (c *Ctx) Imp(a, b *Term) *Term  { return c.Or(c.Not(a), b) }
func (c *Ctx) andor(op Op, ts []*Term) *Term {
	unit, zero := c.T, c.F
	if op == OOr {
		unit, zero = c.F, c.T
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero || seen[c.Not(t)] {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if t.sort != BoolS {
			panic("andor on non-bool")
		}
		if !add(t) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return c.mk(&Term{op: op, sort: BoolS, args: out})
}
func (c *Ctx) Ite(k, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort.smt(), b.sort.smt()))
	}
	switch {
	case k == c.T:
		return a
	case k == c.F:
		return b
	case a == b:
		return a
	}
	if a.sort == BoolS {
		switch {
		case a == c.T && b == c.F:
			return k
		case a == c.F && b == c.T:
			return c.Not(k)
		case a == c.T:
			return c.Or(k, b)
		case a == c.F:
			return c.And(c.Not(k), b)
		case b == c.T:
			return c.Or(c.Not(k), a)
		case b == c.F:
			return c.And(k, a)
		}
	}
	if k.op == ONot {
		return c.Ite(k.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == k {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == k {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{k, a, b}})
}
func (c *Ctx) Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s", a.sort.smt(), b.sort.smt()))
	}
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.n == b.n)
	}
	if a.sort == BoolS {
		switch {
		case a == c.T:
			return b
		case b == c.T:
			return a
		case a == c.F:
			return c.Not(b)
		case b == c.F:
			return c.Not(a)
		case a == c.Not(b):
			return c.F
		}
	}
	if a.sort.name == "Str" && isStrLit(a) && isStrLit(b) {
		return c.F
	}
	if a.sort.w > 0 {
		// constants to the right
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && a.sort.w <= 64 {
			switch a.op {
			case OLin:
				if len(a.args) == 1 && a.coefs[0] == 1 {
					return c.Eq(a.args[0], c.Const(a.sort.w, b.n-a.n))
				}
				if len(a.args) == 1 && a.coefs[0] == mask(a.sort.w) {
					return c.Eq(a.args[0], c.Const(a.sort.w, a.n-b.n))
				}
			case OConcat:
				var cs []*Term
				pos := a.sort.w
				for _, p := range a.args {
					lo := pos - p.sort.w
					cs = append(cs, c.Eq(p, c.Extract(b, pos-1, lo)))
					pos = lo
				}
				return c.And(cs...)
			case OSExt:
				x := a.args[0]
				xw := x.sort.w
				lo := c.Extract(b, xw-1, 0)
				if c.SExt(lo, a.sort.w) == b {
					return c.Eq(x, lo)
				}
				return c.F
			case OIte:
				if a.args[1].isConst() && a.args[2].isConst() {
					return c.Or(c.And(a.args[0], c.Eq(a.args[1], b)), c.And(c.Not(a.args[0]), c.Eq(a.args[2], b)))
				}
			}
		}
		if a.op == OLin || b.op == OLin {
			// move everything to one side; canonical difference
			d := c.Sub(a, b)
			if d.isConst() {
				return c.Bool(d.n == 0)
			}
			if d.op == OLin {
				// pick: lhs = positive single-term if simple
				if len(d.args) == 1 && d.coefs[0] == 1 {
					return c.eqRaw(d.args[0], c.Const(a.sort.w, -d.n))
				}
				if len(d.args) == 1 && d.coefs[0] == mask(a.sort.w) {
					return c.eqRaw(d.args[0], c.Const(a.sort.w, d.n))
				}
				if a.op != OLin || b.op != OLin {
					return c.eqRaw(a, b)
				}
				// cancel common parts
				l := &Term{op: OLin, sort: a.sort}
				r := &Term{op: OLin, sort: a.sort}
				for i, t := range d.args {
					if signed(d.coefs[i], a.sort.w) > 0 {
						l.args = append(l.args, t)
						l.coefs = append(l.coefs, d.coefs[i])
					} else {
						r.args = append(r.args, t)
						r.coefs = append(r.coefs, (-d.coefs[i])&mask(a.sort.w))
					}
				}
				r.n = (-d.n) & mask(a.sort.w)
				return c.eqRaw(c.linNorm(l), c.linNorm(r))
			}
			if d.sort.w <= 64 {
				return c.eqRaw(d, c.Const(d.sort.w, 0))
			}
		}
		if a.op == OConcat && b.op == OConcat && len(a.args) == len(b.args) {
			ok := true
			for i := range a.args {
				if a.args[i].sort != b.args[i].sort {
					ok = false
				}
			}
			if ok {
				var cs []*Term
				for i := range a.args {
					cs = append(cs, c.Eq(a.args[i], b.args[i]))
				}
				return c.And(cs...)
			}
		}
		if a.op == OConcat && b.op == OConcat {
			// split on common zero prefixes
			if a.args[0].isC(0) && b.args[0].isC(0) && a.args[0].sort.w < a.sort.w {
				z := a.args[0].sort.w
				if b.args[0].sort.w < z {
					z = b.args[0].sort.w
				}
				w := a.sort.w - z
				return c.Eq(c.Extract(a, w-1, 0), c.Extract(b, w-1, 0))
			}
		}
	}
	return c.eqRaw(a, b)
}
func (c *Ctx) eqRaw(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.n == b.n)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: BoolS, args: []*Term{a, b}})
}
func (c *Ctx) Neq(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// ---- bit-vectors

func (c *Ctx) linNorm(t *Term) *Term {
	w := t.sort.w
	t.n &= mask(w)
	type tc struct {
		t *Term
		k uint64
	}
	acc := map[*Term]uint64{}
	var order []*Term
	var add func(x *Term, k uint64)
	add = func(x *Term, k uint64) {
		k &= mask(w)
		if k == 0 {
			return
		}
		if x.isConst() {
			t.n = (t.n + k*x.n) & mask(w)
			return
		}
		if x.op == OLin {
			t.n = (t.n + k*x.n) & mask(w)
			for i, a := range x.args {
				add(a, k*x.coefs[i])
			}
			return
		}
		if _, ok := acc[x]; !ok {
			order = append(order, x)
		}
		acc[x] = (acc[x] + k) & mask(w)
	}
	args, coefs := t.args, t.coefs
	for i, a := range args {
		add(a, coefs[i])
	}
	var out []*Term
	for _, x := range order {
		if acc[x] != 0 {
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) == 0 {
		return c.Const(w, t.n)
	}
	if len(out) == 1 && acc[out[0]] == 1 && t.n == 0 {
		return out[0]
	}
	r := &Term{op: OLin, sort: t.sort, n: t.n}
	for _, x := range out {
		r.args = append(r.args, x)
		r.coefs = append(r.coefs, acc[x])
	}
	return c.mk(r)
}
func (c *Ctx) Add(a, b *Term) *Term {
	w := a.sort.w
	if w > 64 {
		return c.wide("bvadd", a, b)
	}
	if r := c.disjoint(a, b); r != nil {
		return r
	}
	return c.linNorm(&Term{op: OLin, sort: a.sort, args: []*Term{a, b}, coefs: []uint64{1, 1}})
}
func (c *Ctx) AddC(a *Term, k uint64) *Term { return c.Add(a, c.Const(a.sort.w, k)) }
func (c *Ctx) Sub(a, b *Term) *Term {
	w := a.sort.w
	if w > 64 {
		return c.wide("bvsub", a, b)
	}
	return c.linNorm(&Term{op: OLin, sort: a.sort, args: []*Term{a, b}, coefs: []uint64{1, mask(w)}})
}
func (c *Ctx) wide(op string, a, b *Term) *Term {
	return c.mk(&Term{op: OApp, sort: a.sort, name: "@" + op, args: []*Term{a, b}})
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() && a.sort.w <= 64 {
		return c.linNorm(&Term{op: OLin, sort: a.sort, args: []*Term{b}, coefs: []uint64{a.n}})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) bin(op Op, a, b *Term, f func(x, y uint64, w int) (uint64, bool)) *Term {
	if a.isConst() && b.isConst() && a.sort.w <= 64 {
		if v, ok := f(a.n, b.n, a.sort.w); ok {
			return c.Const(a.sort.w, v)
		}
	}
	return c.mk(&Term{op: op, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) UDiv(a, b *Term) *Term {
	return c.bin(OUDiv, a, b, func(x, y uint64, w int) (uint64, bool) {
		if y == 0 {
			return 0, false
		}
		return x / y, true
	})
}
func (c *Ctx) URem(a, b *Term) *Term {
	if b.isConst() && b.n != 0 && b.n&(b.n-1) == 0 && a.sort.w <= 64 {
		return c.BAnd(a, c.Const(a.sort.w, b.n-1))
	}
	return c.bin(OURem, a, b, func(x, y uint64, w int) (uint64, bool) {
		if y == 0 {
			return 0, false
		}
		return x % y, true
	})
}
func (c *Ctx) SDiv(a, b *Term) *Term {
	return c.bin(OSDiv, a, b, func(x, y uint64, w int) (uint64, bool) {
		if y == 0 {
			return 0, false
		}
		sy := signed(y, w)
		if sy == -1 {
			return -x, true
		}
		return uint64(signed(x, w) / sy), true
	})
}
func (c *Ctx) SRem(a, b *Term) *Term {
	return c.bin(OSRem, a, b, func(x, y uint64, w int) (uint64, bool) {
		if y == 0 {
			return 0, false
		}
		sy := signed(y, w)
		if sy == -1 {
			return 0, true
		}
		return uint64(signed(x, w) % sy), true
	})
}

// pieces of a bit-vector from high to low
func pieces(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}
func hasZeroPiece(t *Term) bool {
	if t.op != OConcat {
		return false
	}
	for _, p := range t.args {
		if p.isC(0) {
			return true
		}
	}
	return false
}

// disjoint merges a and b if at each bit at least one of them is syntactically zero (so +, | and ^ agree).
func (c *Ctx) disjoint(a, b *Term) *Term {
	if a.isC(0) {
		return b
	}
	if b.isC(0) {
		return a
	}
	if !hasZeroPiece(a) || !hasZeroPiece(b) {
		return nil
	}
	cuts := map[int]bool{}
	for _, t := range []*Term{a, b} {
		p := t.sort.w
		for _, x := range pieces(t) {
			p -= x.sort.w
			cuts[p] = true
		}
	}
	var cs []int
	for k := range cuts {
		cs = append(cs, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	hi := a.sort.w
	var out []*Term
	for _, lo := range cs {
		ea, eb := c.Extract(a, hi-1, lo), c.Extract(b, hi-1, lo)
		switch {
		case ea.isC(0):
			out = append(out, eb)
		case eb.isC(0):
			out = append(out, ea)
		default:
			return nil
		}
		hi = lo
	}
	return c.Concat(out...)
}

// runs splits constant m (width w) into maximal runs; returns from high to low (bit, width)
func runs(m uint64, w int) (out []struct {
	bit uint64
	n   int
}) {
	i := w - 1
	for i >= 0 {
		b := m >> uint(i) & 1
		j := i
		for j >= 0 && m>>uint(j)&1 == b {
			j--
		}
		out = append(out, struct {
			bit uint64
			n   int
		}{b, i - j})
		i = j
	}
	return
}
func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	w := a.sort.w
	if a == b {
		return a
	}
	if b.isConst() && w <= 64 {
		if a.isConst() {
			return c.Const(w, a.n&b.n)
		}
		rs := runs(b.n, w)
		if len(rs) <= 5 {
			hi := w
			var out []*Term
			for _, r := range rs {
				if r.bit == 1 {
					out = append(out, c.Extract(a, hi-1, hi-r.n))
				} else {
					out = append(out, c.Const(r.n, 0))
				}
				hi -= r.n
			}
			return c.Concat(out...)
		}
	}
	return c.mk(&Term{op: OBAnd, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) BOr(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	w := a.sort.w
	if a == b {
		return a
	}
	if b.isConst() && w <= 64 {
		if a.isConst() {
			return c.Const(w, a.n|b.n)
		}
		rs := runs(b.n, w)
		if len(rs) <= 5 {
			hi := w
			var out []*Term
			for _, r := range rs {
				if r.bit == 0 {
					out = append(out, c.Extract(a, hi-1, hi-r.n))
				} else {
					out = append(out, c.Const(r.n, mask(r.n)))
				}
				hi -= r.n
			}
			return c.Concat(out...)
		}
	}
	if r := c.disjoint(a, b); r != nil {
		return r
	}
	return c.mk(&Term{op: OBOr, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) BXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() && a.sort.w <= 64 {
		return c.Const(a.sort.w, a.n^b.n)
	}
	if a == b {
		return c.Const(a.sort.w, 0)
	}
	if r := c.disjoint(a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OBXor, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) Shl(a, b *Term) *Term {
	w := a.sort.w
	if b.isConst() {
		if b.n >= uint64(w) {
			return c.Const(w, 0)
		}
		k := int(b.n)
		if k == 0 {
			return a
		}
		return c.Concat(c.Extract(a, w-1-k, 0), c.Const(k, 0))
	}
	return c.mk(&Term{op: OShl, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	w := a.sort.w
	if b.isConst() {
		if b.n >= uint64(w) {
			return c.Const(w, 0)
		}
		k := int(b.n)
		if k == 0 {
			return a
		}
		return c.Concat(c.Const(k, 0), c.Extract(a, w-1, k))
	}
	return c.mk(&Term{op: OLshr, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	w := a.sort.w
	if b.isConst() {
		k := int(b.n)
		if b.n >= uint64(w) {
			k = w - 1
		}
		if k == 0 {
			return a
		}
		return c.SExt(c.Extract(a, w-1, k), w)
	}
	return c.mk(&Term{op: OAshr, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := a.sort.w
	if lo == 0 && hi == w-1 {
		return a
	}
	nw := hi - lo + 1
	switch a.op {
	case OConst:
		if w <= 64 {
			return c.Const(nw, a.n>>uint(lo))
		}
		if a.n == 0 {
			return c.Const(nw, 0)
		}
	case OExtract:
		l0 := int(a.n & 0xffff)
		return c.Extract(a.args[0], hi+l0, lo+l0)
	case OConcat:
		var out []*Term
		pos := w
		for _, p := range a.args {
			plo := pos - p.sort.w
			h, l := hi, lo
			if h > pos-1 {
				h = pos - 1
			}
			if l < plo {
				l = plo
			}
			if h >= l {
				out = append(out, c.Extract(p, h-plo, l-plo))
			}
			pos = plo
		}
		return c.Concat(out...)
	case OSExt:
		x := a.args[0]
		xw := x.sort.w
		if hi < xw {
			return c.Extract(x, hi, lo)
		}
		if lo < xw {
			return c.SExt(c.Extract(x, xw-1, lo), nw)
		}
		return c.SExt(c.Extract(x, xw-1, xw-1), nw)
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		x, y := c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo)
		switch a.op {
		case OBAnd:
			return c.BAnd(x, y)
		case OBOr:
			return c.BOr(x, y)
		default:
			return c.BXor(x, y)
		}
	case OLin:
		if lo == 0 && nw <= 64 && w <= 64 { // truncation distributes over ring operations
			t := &Term{op: OLin, sort: BV(nw), n: a.n}
			for i, x := range a.args {
				t.args = append(t.args, c.Extract(x, hi, 0))
				t.coefs = append(t.coefs, a.coefs[i])
			}
			return c.linNorm(t)
		}
	}
	return c.mk(&Term{op: OExtract, sort: BV(nw), n: uint64(hi)<<16 | uint64(lo), args: []*Term{a}})
}
func (c *Ctx) Concat(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OConcat {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.isConst() && t.isConst() && p.sort.w+t.sort.w <= 64 {
				out[len(out)-1] = c.Const(p.sort.w+t.sort.w, p.n<<uint(t.sort.w)|t.n)
				return
			}
			if p.isC(0) && t.isC(0) {
				out[len(out)-1] = c.mk(&Term{op: OConst, sort: BV(p.sort.w + t.sort.w)})
				return
			}
			if p.op == OExtract && t.op == OExtract && p.args[0] == t.args[0] && int(p.n&0xffff) == int(t.n>>16)+1 {
				out[len(out)-1] = c.Extract(p.args[0], int(p.n>>16), int(t.n&0xffff))
				// the merged piece may be the whole term, possibly itself a concat
				if m := out[len(out)-1]; m.op == OConcat {
					out = out[:len(out)-1]
					add(m)
				}
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, t := range out {
		w += t.sort.w
	}
	return c.mk(&Term{op: OConcat, sort: BV(w), args: out})
}
func (c *Ctx) ZExt(a *Term, w int) *Term {
	if a.sort.w == w {
		return a
	}
	return c.Concat(c.mk(&Term{op: OConst, sort: BV(w - a.sort.w)}), a)
}
func (c *Ctx) SExt(a *Term, w int) *Term {
	if a.sort.w == w {
		return a
	}
	if a.isConst() && w <= 64 {
		return c.Const(w, uint64(signed(a.n, a.sort.w)))
	}
	if a.op == OSExt {
		return c.SExt(a.args[0], w)
	}
	if a.op == OConcat && a.args[0].isConst() && a.args[0].sort.w <= 64 && a.args[0].n>>uint(a.args[0].sort.w-1)&1 == 0 {
		return c.ZExt(a, w)
	}
	return c.mk(&Term{op: OSExt, sort: BV(w), args: []*Term{a}})
}
func (c *Ctx) cmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("cmp sorts")
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	w := a.sort.w
	if a.isConst() && b.isConst() && w <= 64 {
		x, y := a.n, b.n
		sx, sy := signed(x, w), signed(y, w)
		switch op {
		case OUlt:
			return c.Bool(x < y)
		case OUle:
			return c.Bool(x <= y)
		case OSlt:
			return c.Bool(sx < sy)
		case OSle:
			return c.Bool(sx <= sy)
		}
	}
	// unsigned trivial bounds
	if op == OUlt && b.isC(0) {
		return c.F
	}
	if op == OUle && a.isC(0) {
		return c.T
	}
	if w <= 64 {
		// ranges of zero-extended values
		if ra, ok := urange(a); ok {
			if b.isConst() {
				neg := (op == OSlt || op == OSle) && signed(b.n, w) < 0
				if ra < 1<<uint(w-1) || op == OUlt || op == OUle {
					if neg {
						return c.F
					}
					if op == OUlt || op == OSlt {
						if ra < b.n {
							return c.T
						}
					} else if ra <= b.n {
						return c.T
					}
				}
			}
		}
		if rb, ok := urange(b); ok && a.isConst() {
			if rb < 1<<uint(w-1) || op == OUlt || op == OUle {
				if (op == OSlt || op == OSle) && signed(a.n, w) < 0 {
					return c.T
				}
				if op == OUlt || op == OSlt {
					if a.n >= rb {
						return c.F
					}
				} else {
					if a.n > rb {
						return c.F
					}
					if a.n == 0 {
						return c.T
					}
				}
			}
		}
	}
	return c.mk(&Term{op: op, sort: BoolS, args: []*Term{a, b}})
}

// urange gives an upper bound of a as an unsigned number if it starts with zero bits
func urange(a *Term) (uint64, bool) {
	if a.op == OConcat && a.args[0].isC(0) && a.sort.w <= 64 {
		return mask(a.sort.w - a.args[0].sort.w), true
	}
	if a.op == OIte {
		x, ok1 := urange(a.args[1])
		y, ok2 := urange(a.args[2])
		if a.args[1].isConst() && a.sort.w <= 64 {
			x, ok1 = a.args[1].n, true
		}
		if a.args[2].isConst() && a.sort.w <= 64 {
			y, ok2 = a.args[2].n, true
		}
		if ok1 && ok2 {
			if x > y {
				return x, true
			}
			return y, true
		}
	}
	return 0, false
}
func (c *Ctx) Ult(a, b *Term) *Term { return c.cmp(OUlt, a, b) }
func (c *Ctx) Ule(a, b *Term) *Term { return c.cmp(OUle, a, b) }
func (c *Ctx) Slt(a, b *Term) *Term { return c.cmp(OSlt, a, b) }
func (c *Ctx) Sle(a, b *Term) *Term { return c.cmp(OSle, a, b) }

// ---------------------------------------------------------------- substitution, symbols, printing

func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OVar, OConst:
		return t
	case OApp:
		if strings.HasPrefix(t.name, "@") {
			return c.mk(&Term{op: OApp, sort: t.sort, name: t.name, args: args})
		}
		return c.App(t.name, t.sort, args...)
	case ONot:
		return c.Not(args[0])
	case OAnd:
		return c.And(args...)
	case OOr:
		return c.Or(args...)
	case OEq:
		return c.Eq(args[0], args[1])
	case OIte:
		return c.Ite(args[0], args[1], args[2])
	case OLin:
		return c.linNorm(&Term{op: OLin, sort: t.sort, n: t.n, args: args, coefs: t.coefs})
	case OMul:
		return c.Mul(args[0], args[1])
	case OUDiv:
		return c.UDiv(args[0], args[1])
	case OURem:
		return c.URem(args[0], args[1])
	case OSDiv:
		return c.SDiv(args[0], args[1])
	case OSRem:
		return c.SRem(args[0], args[1])
	case OBAnd:
		return c.BAnd(args[0], args[1])
	case OBOr:
		return c.BOr(args[0], args[1])
	case OBXor:
		return c.BXor(args[0], args[1])
	case OShl:
		return c.Shl(args[0], args[1])
	case OLshr:
		return c.Lshr(args[0], args[1])
	case OAshr:
		return c.Ashr(args[0], args[1])
	case OExtract:
		return c.Extract(args[0], int(t.n>>16), int(t.n&0xffff))
	case OConcat:
		return c.Concat(args...)
	case OSExt:
		return c.SExt(args[0], t.sort.w)
	case OUlt, OUle, OSlt, OSle:
		return c.cmp(t.op, args[0], args[1])
	}
	panic("rebuild")
}

// Subst replaces terms (usually variables) simultaneously.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// size counts the distinct subterms of t (up to a bound).
func (t *Term) size() int {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if len(seen) > 64 || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return len(seen)
}

// symset returns the free symbols (variable and function names) of t.
func (t *Term) symset() map[string]bool {
	if t.symN != nil {
		return t.symN
	}
	s := map[string]bool{}
	if t.op == OVar {
		s[t.name] = true
	}
	if t.op == OApp && !strings.HasPrefix(t.name, "@") {
		s[t.name] = true
	}
	for _, a := range t.args {
		for k := range a.symset() {
			s[k] = true
		}
	}
	t.symN = s
	return s
}
func (t *Term) contains(x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func sym(n string) string { return "|" + n + "|" }

func isStrLit(t *Term) bool { return t.op == OVar && strings.HasPrefix(t.name, "lit:") }

// expr prints t with its arguments given by f
func (t *Term) expr(f func(*Term) string) string {
	n := func(op string) string {
		var b strings.Builder
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteString(" " + f(a))
		}
		b.WriteString(")")
		return b.String()
	}
	switch t.op {
	case OVar:
		return sym(t.name)
	case OConst:
		if t.sort == BoolS {
			if t.n == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.n, t.sort.w)
	case OApp:
		if strings.HasPrefix(t.name, "@") {
			return n(t.name[1:])
		}
		return n(sym(t.name))
	case ONot:
		return n("not")
	case OAnd:
		return n("and")
	case OOr:
		return n("or")
	case OEq:
		return n("=")
	case OIte:
		return n("ite")
	case OLin:
		w := t.sort.w
		var b strings.Builder
		b.WriteString("(bvadd")
		cnt := 0
		for i, a := range t.args {
			cnt++
			switch t.coefs[i] {
			case 1:
				b.WriteString(" " + f(a))
			case mask(w):
				b.WriteString(" (bvneg " + f(a) + ")")
			default:
				k := t.coefs[i]
				if k&(k-1) == 0 {
					fmt.Fprintf(&b, " (bvshl %s (_ bv%d %d))", f(a), bits.TrailingZeros64(k), w)
				} else {
					fmt.Fprintf(&b, " (bvmul (_ bv%d %d) %s)", k, w, f(a))
				}
			}
		}
		if t.n != 0 || cnt == 1 {
			fmt.Fprintf(&b, " (_ bv%d %d)", t.n, w)
		}
		b.WriteString(")")
		return b.String()
	case OMul:
		return n("bvmul")
	case OUDiv:
		return n("bvudiv")
	case OURem:
		return n("bvurem")
	case OSDiv:
		return n("bvsdiv")
	case OSRem:
		return n("bvsrem")
	case OBAnd:
		return n("bvand")
	case OBOr:
		return n("bvor")
	case OBXor:
		return n("bvxor")
	case OShl:
		return n("bvshl")
	case OLshr:
		return n("bvlshr")
	case OAshr:
		return n("bvashr")
	case OExtract:
		return n(fmt.Sprintf("(_ extract %d %d)", t.n>>16, t.n&0xffff))
	case OConcat:
		// right-nested binary concatenations
		s := f(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(concat " + f(t.args[i]) + " " + s + ")"
		}
		return s
	case OSExt:
		return n(fmt.Sprintf("(_ sign_extend %d)", t.sort.w-t.args[0].sort.w))
	case OUlt:
		return n("bvult")
	case OUle:
		return n("bvule")
	case OSlt:
		return n("bvslt")
	case OSle:
		return n("bvsle")
	}
	panic("expr")
}
func (t *Term) String() string {
	depth := 0
	var f func(t *Term) string
	f = func(t *Term) string {
		depth++
		defer func() { depth-- }()
		if depth > 12 {
			return "..."
		}
		if t.op == OConst && t.sort != BoolS {
			return fmt.Sprint(t.n)
		}
		if t.op == OVar {
			return t.name
		}
		return t.expr(f)
	}
	s := f(t)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}
