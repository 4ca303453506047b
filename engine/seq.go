package main

import (
	"go/types"
	"strings"
)

var u8T = types.Typ[types.Uint8]

func (x *Exec) seqApp(t *Term) *SeqVal {
	if t.op == OVar && t.name == "seq:empty" {
		return &SeqVal{}
	}
	ln := x.c.App("seq.len", BV(64), t)
	return &SeqVal{[]Chunk{&CApp{t, ln}}}
}
func (x *Exec) cat(ss ...*SeqVal) *SeqVal {
	var out []Chunk
	for _, s := range ss {
		for _, ch := range s.C {
			switch v := ch.(type) {
			case *CBytes:
				if len(v.B) == 0 {
					continue
				}
				if len(out) > 0 {
					if p, ok := out[len(out)-1].(*CBytes); ok {
						out[len(out)-1] = &CBytes{append(append([]*Term{}, p.B...), v.B...)}
						continue
					}
				}
			case *CArr:
				if v.Len.isC(0) {
					continue
				}
			case *CRep:
				if v.N.isC(0) || len(v.Body.C) == 0 {
					continue
				}
			}
			out = append(out, ch)
		}
	}
	return &SeqVal{out}
}
func (x *Exec) seqIte(k *Term, a, b *SeqVal) *SeqVal {
	if k == x.c.T {
		return a
	}
	if k == x.c.F {
		return b
	}
	// common prefix
	i := 0
	for i < len(a.C) && i < len(b.C) && x.valKey(a.C[i]) == x.valKey(b.C[i]) {
		i++
	}
	pre := &SeqVal{a.C[:i]}
	ra, rb := &SeqVal{a.C[i:]}, &SeqVal{b.C[i:]}
	if len(ra.C) == 0 && len(rb.C) == 0 {
		return pre
	}
	return &SeqVal{append(append([]Chunk{}, pre.C...), &CIte{k, ra, rb})}
}

// seqSlice is the byte sequence a[off:off+n].
func (x *Exec) seqSlice(a Arr, off, n *Term) *SeqVal {
	c := x.c
	if n.isC(0) {
		return &SeqVal{}
	}
	if n.isConst() && n.n <= 64 {
		var b []*Term
		for i := uint64(0); i < n.n; i++ {
			b = append(b, x.rd(a, c.AddC(off, i), u8T).(*Term))
		}
		return &SeqVal{[]Chunk{&CBytes{b}}}
	}
	switch v := a.(type) {
	case *ALam:
		if v.Lo == off && c.Mul(v.N, c.Const(64, uint64(v.K))) == n {
			var b []*Term
			for _, e := range v.Body {
				b = append(b, e.(*Term))
			}
			return &SeqVal{[]Chunk{&CRep{N: v.N, Var: v.Var, Body: &SeqVal{[]Chunk{&CBytes{b}}}}}}
		}
	case *ASeq:
		if off.isC(0) && n == x.seqLen(v.S) {
			return v.S
		}
		if r := x.seqSub(v.S, off, n); r != nil {
			return r
		}
	case *ACopy:
		// entirely inside the copied region, or appended right after the old content
		if v.D == off && v.N == n {
			return x.seqSlice(v.S, v.SO, n)
		}
		d := c.Sub(v.D, off)
		if c.Add(d, v.N) == n {
			return x.cat(x.seqSlice(v.P, off, d), x.seqSlice(v.S, v.SO, v.N))
		}
	case *AStore:
		d := c.Sub(v.I, off)
		if c.AddC(d, 1) == n {
			return x.cat(x.seqSlice(v.P, off, d), &SeqVal{[]Chunk{&CBytes{[]*Term{v.V.(*Term)}}}})
		}
	}
	return &SeqVal{[]Chunk{&CArr{a, off, n}}}
}

// seqSub finds the sub-sequence of s at [off, off+n) when both ends are chunk boundaries (syntactically).
func (x *Exec) seqSub(s *SeqVal, off, n *Term) *SeqVal {
	c := x.c
	o := c.Const(64, 0)
	for i := 0; i <= len(s.C); i++ {
		if o == off {
			e := c.Const(64, 0)
			for j := i; j <= len(s.C); j++ {
				if e == n {
					return &SeqVal{s.C[i:j]}
				}
				if j < len(s.C) {
					e = c.Add(e, x.chunkLen(s.C[j]))
				}
			}
			return nil
		}
		if i < len(s.C) {
			o = c.Add(o, x.chunkLen(s.C[i]))
		}
	}
	return nil
}
func (x *Exec) chunkLen(ch Chunk) *Term {
	c := x.c
	switch v := ch.(type) {
	case *CBytes:
		return c.Const(64, uint64(len(v.B)))
	case *CArr:
		return v.Len
	case *CApp:
		return v.Len
	case *CIte:
		return c.Ite(v.C, x.seqLen(v.A), x.seqLen(v.B))
	case *CRep:
		return x.repPre(v, v.N)
	}
	panic("chunkLen")
}

// repPre is the total length of the first n bodies.
func (x *Exec) repPre(v *CRep, n *Term) *Term {
	c := x.c
	l := x.seqLen(v.Body)
	if !l.contains(v.Var) {
		return c.Mul(n, l)
	}
	return x.sumTerm(l, v.Var, n)
}

// sumTerm is sum_{i<n} body[v:=i], as a canonical uninterpreted function of n and body's other symbols' identity.
func (x *Exec) sumTerm(body, v, n *Term) *Term {
	k := x.c.Subst(body, map[*Term]*Term{v: x.c.Var("?sum", v.sort)})
	x.noLoopVar(k)
	name := "sum:" + itoa(k.id)
	x.sums[name] = sumDef{k, x.c.Var("?sum", v.sort)}
	return x.c.App(name, body.sort, n)
}

// noLoopVar: sums and recurrences are named by their terms, which must therefore not depend on an enclosing loop's counter.
func (x *Exec) noLoopVar(ts ...*Term) {
	for _, t := range ts {
		for n := range t.symset() {
			if len(n) > 5 && n[0] == 'q' && n[1] >= '0' && n[1] <= '9' && strings.HasSuffix(n, ".len") {
				unsup("a sum or recurrence inside another loop")
			}
		}
	}
}

type sumDef struct{ body, v *Term }

func (x *Exec) seqLen(s *SeqVal) *Term {
	l := x.c.Const(64, 0)
	for _, ch := range s.C {
		l = x.c.Add(l, x.chunkLen(ch))
	}
	return l
}

// lengthish terms are known to be in [0, 2^48).
func lengthish(t *Term) bool {
	if t.op == OApp || t.op == OVar {
		return strings.HasSuffix(t.name, ".len") || strings.HasPrefix(t.name, "sum:") || strings.HasSuffix(t.name, ".cap")
	}
	if t.op == OConcat && t.args[0].isC(0) && t.args[0].sort.w >= 16 {
		return true
	}
	return false
}
func (x *Exec) nonneg(t *Term) bool {
	if t.isConst() {
		return t.n < 1<<50
	}
	if lengthish(t) {
		return true
	}
	if t.op == OLin {
		if t.n >= 1<<50 {
			return false
		}
		for i, a := range t.args {
			if t.coefs[i] > 64 || !lengthish(a) {
				return false
			}
		}
		return true
	}
	return false
}
func (x *Exec) seqAt(s *SeqVal, i *Term) *Term {
	c := x.c
	o := c.Const(64, 0)
	type br struct{ cond, val *Term }
	var bs []br
	for _, ch := range s.C {
		L := x.chunkLen(ch)
		d := c.Sub(i, o)
		o = c.Add(o, L)
		if x.nonneg(c.Sub(d, L)) {
			continue // at or after the end of this chunk
		}
		if x.nonneg(c.Sub(c.AddC(c.Sub(c.Const(64, 0), d), ^uint64(0)), c.Const(64, 0))) {
			continue // before this chunk
		}
		cond := c.Ult(d, L)
		var v *Term
		switch ch := ch.(type) {
		case *CBytes:
			if d.isConst() {
				if d.n >= uint64(len(ch.B)) {
					continue
				}
				v = ch.B[d.n]
			} else {
				v = ch.B[len(ch.B)-1]
				for k := len(ch.B) - 2; k >= 0; k-- {
					v = c.Ite(c.Eq(d, c.Const(64, uint64(k))), ch.B[k], v)
				}
			}
		case *CArr:
			v = x.rd(ch.A, c.Add(ch.Off, d), u8T).(*Term)
		case *CApp:
			v = c.App("seq.at", BV(8), ch.T, d)
		case *CIte:
			v = c.Ite(ch.C, x.seqAt(ch.A, d), x.seqAt(ch.B, d))
		case *CRep:
			bl := x.seqLen(ch.Body)
			if bl.isConst() && bl.n > 0 {
				k := c.Const(64, bl.n)
				q, r := c.UDiv(d, k), c.URem(d, k)
				if bl.n&(bl.n-1) == 0 {
					sh := 0
					for 1<<uint(sh) < int(bl.n) {
						sh++
					}
					q = c.Lshr(d, c.Const(64, uint64(sh)))
				}
				v = x.seqAt(x.substSeq(ch.Body, map[*Term]*Term{ch.Var: q}), r)
			} else {
				// d = pre(i) + k
				v = x.repAt(ch, d)
			}
		}
		if cond == c.T {
			bs = append(bs, br{c.T, v})
			break
		}
		bs = append(bs, br{cond, v})
	}
	if len(bs) == 0 {
		return c.App("seq.oob", BV(8), i)
	}
	v := bs[len(bs)-1].val
	if bs[len(bs)-1].cond != c.T {
		v = c.Ite(bs[len(bs)-1].cond, v, c.App("seq.oob", BV(8), i))
	}
	for k := len(bs) - 2; k >= 0; k-- {
		v = c.Ite(bs[k].cond, bs[k].val, v)
	}
	return v
}
func (x *Exec) repAt(ch *CRep, d *Term) *Term {
	c := x.c
	// look for pre(q) inside d
	var cands []*Term
	pre := x.repPre(ch, ch.Var)
	var look func(t *Term)
	look = func(t *Term) {
		if t.op == OApp && pre.op == OApp && t.name == pre.name {
			cands = append(cands, t.args[0])
		}
		if t.op == OLin {
			for _, a := range t.args {
				look(a)
			}
		}
	}
	look(d)
	if len(cands) > 0 {
		q := cands[0]
		m := map[*Term]*Term{ch.Var: q}
		body := x.substSeq(ch.Body, m)
		return x.seqAt(body, c.Sub(d, x.repPre(ch, q)))
	}
	return c.App("rep.at:"+itoa(x.c.Subst(pre, map[*Term]*Term{ch.Var: c.Var("?rep", ch.Var.sort)}).id), BV(8), d)
}
func (x *Exec) substSeq(s *SeqVal, m map[*Term]*Term) *SeqVal {
	var out []Chunk
	sb := func(t *Term) *Term { return x.c.Subst(t, m) }
	for _, ch := range s.C {
		switch v := ch.(type) {
		case *CBytes:
			o := make([]*Term, len(v.B))
			for i := range o {
				o[i] = sb(v.B[i])
			}
			out = append(out, &CBytes{o})
		case *CArr:
			out = append(out, x.seqSlice(x.substArr(v.A, m), sb(v.Off), sb(v.Len)).C...)
		case *CApp:
			out = append(out, x.seqApp(sb(v.T)).C...)
		case *CRep:
			out = append(out, &CRep{N: sb(v.N), Var: v.Var, Body: x.substSeq(v.Body, without(m, v.Var))})
		case *CIte:
			out = append(out, x.seqIte(sb(v.C), x.substSeq(v.A, m), x.substSeq(v.B, m)).C...)
		}
	}
	return x.cat(&SeqVal{out})
}

// ---------------------------------------------------------------- equality of sequences (as a proof goal)

// proveSeqEq tries to prove a == b in st; on failure it returns false and the failing sub-goal (may be nil).
func (x *Exec) proveSeqEq(st *State, a, b *SeqVal) (bool, *State, *Term) {
	return x.seqEqRec(st, x.cat(a).C, x.cat(b).C, 0)
}
func (x *Exec) seqEqRec(st *State, a, b []Chunk, depth int) (bool, *State, *Term) {
	c := x.c
	if depth > 400 {
		return false, st, nil
	}
	for {
		if len(a) == 0 && len(b) == 0 {
			return true, nil, nil
		}
		if len(a) > 0 && len(b) > 0 && x.valKey(a[0]) == x.valKey(b[0]) {
			a, b = a[1:], b[1:]
			continue
		}
		// case splits
		for side := 0; side < 2; side++ {
			s := a
			if side == 1 {
				s = b
			}
			if len(s) == 0 {
				continue
			}
			if v, ok := s[0].(*CIte); ok {
				for k := 0; k < 2; k++ {
					cond, br := v.C, v.A
					if k == 1 {
						cond, br = c.Not(v.C), v.B
					}
					if !x.feasible(st, cond) {
						continue
					}
					s2 := st.clone()
					s2.assume(cond)
					ns := x.cat(br, &SeqVal{s[1:]}).C
					var ok bool
					var fs *State
					var fg *Term
					if side == 0 {
						ok, fs, fg = x.seqEqRec(s2, ns, b, depth+1)
					} else {
						ok, fs, fg = x.seqEqRec(s2, a, ns, depth+1)
					}
					if !ok {
						return false, fs, fg
					}
				}
				return true, nil, nil
			}
		}
		// drop provably empty chunks
		drop := func(s []Chunk) ([]Chunk, bool) {
			if len(s) == 0 {
				return s, false
			}
			switch s[0].(type) {
			case *CBytes:
				return s, false
			}
			if x.valid(st, c.Eq(x.chunkLen(s[0]), c.Const(64, 0))) {
				return s[1:], true
			}
			if r, ok := s[0].(*CRep); ok {
				if x.valid(st, c.Eq(r.N, c.Const(64, 0))) {
					return s[1:], true
				}
			}
			return s, false
		}
		if n, ok := drop(a); ok {
			a = n
			continue
		}
		if n, ok := drop(b); ok {
			b = n
			continue
		}
		if len(a) == 0 || len(b) == 0 {
			// lengths differ; the failing goal is that the remaining length is zero
			rest := a
			if len(a) == 0 {
				rest = b
			}
			return false, st, c.Eq(x.seqLen(&SeqVal{rest}), c.Const(64, 0))
		}
		switch av := a[0].(type) {
		case *CBytes:
			switch bv := b[0].(type) {
			case *CBytes:
				n := len(av.B)
				if len(bv.B) < n {
					n = len(bv.B)
				}
				var gs []*Term
				for i := 0; i < n; i++ {
					gs = append(gs, c.Eq(av.B[i], bv.B[i]))
				}
				g := c.And(gs...)
				if !x.valid(st, g) {
					return false, st, g
				}
				a, b = dropBytes(a, n), dropBytes(b, n)
				continue
			case *CArr:
				if r := x.expandConst(st, bv, len(av.B)); r != nil {
					b = append(append([]Chunk{}, r...), b[1:]...)
					continue
				}
				return false, st, nil
			case *CRep:
				if r := x.peelRep(st, bv); r != nil {
					b = append(append([]Chunk{}, r...), b[1:]...)
					continue
				}
				return false, st, nil
			}
			return false, st, nil
		case *CArr:
			switch bv := b[0].(type) {
			case *CBytes:
				if r := x.expandConst(st, av, len(bv.B)); r != nil {
					a = append(append([]Chunk{}, r...), a[1:]...)
					continue
				}
				return false, st, nil
			case *CArr:
				g := c.Eq(av.Len, bv.Len)
				if !x.valid(st, g) {
					return false, st, g
				}
				i := c.Fresh("sk", BV(64))
				s2 := st.clone()
				s2.assume(c.Ult(i, av.Len))
				g = c.Eq(x.rd(av.A, c.Add(av.Off, i), u8T).(*Term), x.rd(bv.A, c.Add(bv.Off, i), u8T).(*Term))
				if !x.valid(s2, g) {
					return false, s2, g
				}
				a, b = a[1:], b[1:]
				continue
			case *CRep:
				if ok, fs, fg := x.arrVsRep(st, av, bv); !ok {
					return false, fs, fg
				}
				a, b = a[1:], b[1:]
				continue
			}
			return false, st, nil
		case *CRep:
			switch bv := b[0].(type) {
			case *CRep:
				g := c.Eq(av.N, bv.N)
				if !x.valid(st, g) {
					return false, st, g
				}
				i := c.Fresh("ix", BV(64))
				s2 := st.clone()
				s2.assume(c.Ult(i, av.N))
				x.instantiate(s2, i)
				ok, fs, fg := x.seqEqRec(s2, x.substSeq(av.Body, map[*Term]*Term{av.Var: i}).C, x.substSeq(bv.Body, map[*Term]*Term{bv.Var: i}).C, depth+1)
				if !ok {
					return false, fs, fg
				}
				a, b = a[1:], b[1:]
				continue
			case *CArr:
				if ok, fs, fg := x.arrVsRep(st, bv, av); !ok {
					return false, fs, fg
				}
				a, b = a[1:], b[1:]
				continue
			case *CBytes:
				if r := x.peelRep(st, av); r != nil {
					a = append(append([]Chunk{}, r...), a[1:]...)
					continue
				}
			}
			return false, st, nil
		case *CApp:
			bv, ok := b[0].(*CApp)
			if !ok {
				return false, st, nil
			}
			g := c.Eq(av.T, bv.T)
			if !x.valid(st, g) {
				return false, st, g
			}
			a, b = a[1:], b[1:]
			continue
		}
		return false, st, nil
	}
}
func dropBytes(s []Chunk, n int) []Chunk {
	v := s[0].(*CBytes)
	if n == len(v.B) {
		return s[1:]
	}
	return append([]Chunk{&CBytes{v.B[n:]}}, s[1:]...)
}
func (x *Exec) expandConst(st *State, a *CArr, avail int) []Chunk {
	c := x.c
	try := func(n int) []Chunk {
		if x.valid(st, c.Eq(a.Len, c.Const(64, uint64(n)))) {
			return x.seqSlice(a.A, a.Off, c.Const(64, uint64(n))).C
		}
		return nil
	}
	if r := try(avail); r != nil {
		return r
	}
	for n := 1; n <= 16; n++ {
		if n != avail {
			if r := try(n); r != nil {
				return r
			}
		}
	}
	return nil
}

// peelRep splits off the first body when the count is provably positive.
func (x *Exec) peelRep(st *State, r *CRep) []Chunk {
	c := x.c
	if !x.valid(st, c.Ult(c.Const(64, 0), r.N)) {
		return nil
	}
	first := x.substSeq(r.Body, map[*Term]*Term{r.Var: c.Const(64, 0)})
	v := c.Fresh("rp", BV(64))
	rest := &CRep{N: c.AddC(r.N, ^uint64(0)), Var: v, Body: x.substSeq(r.Body, map[*Term]*Term{r.Var: c.AddC(v, 1)})}
	return append(append([]Chunk{}, first.C...), rest)
}
func (x *Exec) arrVsRep(st *State, a *CArr, r *CRep) (bool, *State, *Term) {
	c := x.c
	bl := x.seqLen(r.Body)
	if !bl.isConst() || bl.n == 0 || bl.n > 64 {
		return false, st, nil
	}
	g := c.Eq(a.Len, c.Mul(r.N, bl))
	if !x.valid(st, g) {
		return false, st, g
	}
	i := c.Fresh("ix", BV(64))
	s2 := st.clone()
	s2.assume(c.Ult(i, r.N))
	s2.assume(c.Ult(r.N, c.Const(64, 1<<48)))
	x.instantiate(s2, i)
	body := x.substSeq(r.Body, map[*Term]*Term{r.Var: i})
	var gs []*Term
	for k := uint64(0); k < bl.n; k++ {
		gs = append(gs, c.Eq(x.rd(a.A, c.AddC(c.Add(a.Off, c.Mul(i, bl)), k), u8T).(*Term), x.seqAt(body, c.Const(64, k))))
	}
	g = c.And(gs...)
	if !x.valid(s2, g) {
		return false, s2, g
	}
	return true, nil, nil
}
