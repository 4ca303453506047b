package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"
)

// A linear-integer view of a bit-vector query. Comparisons and equalities of 64-bit linear terms become integer
// constraints when the known bounds of their atoms exclude wrap-around; everything else becomes an unconstrained
// proposition. The integer query is therefore implied by the bit-vector query: unsat carries over.

type ival struct{ lo, hi *big.Int }

var (
	bmin = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))
	bmax = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
	b64  = new(big.Int).Lsh(big.NewInt(1), 64)
)

type liaCtx struct {
	c     *Ctx
	b     map[*Term]ival
	exact bool
	decl  map[string]string
	extra []string
	done  map[*Term]string
	defd  map[*Term]bool
}

func (l *liaCtx) base(t *Term) ival {
	lo, hi := bmin, bmax
	switch t.op {
	case OConcat, OIte:
		if r, ok := urange(t); ok && r < 1<<63 {
			lo, hi = big.NewInt(0), new(big.Int).SetUint64(r)
		} else if t.op == OIte {
			a, b := l.lin(t.args[1]), l.lin(t.args[2])
			if inS(a) && inS(b) {
				lo, hi = bminOf(a.lo, b.lo), bmaxOf(a.hi, b.hi)
			}
		}
	case OLshr:
		if t.args[1].isConst() && t.args[1].n > 0 && t.args[1].n < 64 {
			lo, hi = big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(64-t.args[1].n)), big.NewInt(1))
		}
	case OURem, OBAnd:
		for i, a := range t.args {
			if a.isConst() && a.n > 0 && a.n < 1<<63 && (t.op == OBAnd || i == 1) {
				m := a.n
				if t.op == OURem {
					m--
				}
				lo, hi = big.NewInt(0), new(big.Int).SetUint64(m)
			}
		}
	}
	return ival{lo, hi}
}
func bminOf(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmaxOf(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func inS(v ival) bool { return v.lo.Cmp(bmin) >= 0 && v.hi.Cmp(bmax) <= 0 }
func (l *liaCtx) atom(t *Term) ival {
	if v, ok := l.b[t]; ok {
		return v
	}
	v := l.base(t)
	l.b[t] = v
	return v
}
func scoef(k uint64) *big.Int { return big.NewInt(int64(k)) }

// lin returns the integer interval of the (unreduced) linear form.
func (l *liaCtx) lin(t *Term) ival {
	if t.isConst() {
		k := big.NewInt(int64(t.n))
		return ival{k, k}
	}
	if t.op != OLin {
		return l.atom(t)
	}
	lo, hi := big.NewInt(int64(t.n)), big.NewInt(int64(t.n))
	for i, a := range t.args {
		v := l.atom(a)
		k := scoef(t.coefs[i])
		x, y := new(big.Int).Mul(k, v.lo), new(big.Int).Mul(k, v.hi)
		if k.Sign() < 0 {
			x, y = y, x
		}
		lo, hi = new(big.Int).Add(lo, x), new(big.Int).Add(hi, y)
	}
	return ival{lo, hi}
}
func (l *liaCtx) narrow(t *Term, lo, hi *big.Int) bool {
	v := l.atom(t)
	ch := false
	if lo != nil && lo.Cmp(v.lo) > 0 {
		v.lo, ch = lo, true
	}
	if hi != nil && hi.Cmp(v.hi) < 0 {
		v.hi, ch = hi, true
	}
	if ch {
		l.b[t] = v
	}
	return ch
}

// leq propagates sum(coef*atom)+n <= 0 over the integers.
func (l *liaCtx) leq(atoms []*Term, coefs []*big.Int, n *big.Int) bool {
	ch := false
	for i, a := range atoms {
		// coef_i*a <= -(n + sum_{j!=i} min(coef_j*a_j))
		s := new(big.Int).Set(n)
		for j, o := range atoms {
			if j == i {
				continue
			}
			v := l.atom(o)
			if coefs[j].Sign() > 0 {
				s.Add(s, new(big.Int).Mul(coefs[j], v.lo))
			} else {
				s.Add(s, new(big.Int).Mul(coefs[j], v.hi))
			}
		}
		s.Neg(s)
		k := coefs[i]
		if k.Sign() > 0 {
			q := new(big.Int).Div(s, k) // floor
			ch = l.narrow(a, nil, q) || ch
		} else {
			nk := new(big.Int).Neg(k)
			q := new(big.Int).Div(s, nk)
			ch = l.narrow(a, new(big.Int).Neg(q), nil) || ch
		}
	}
	return ch
}
func parts(t *Term, sgn int64, at map[*Term]*big.Int, n *big.Int) {
	if t.isConst() {
		n.Add(n, big.NewInt(0).Mul(big.NewInt(sgn), big.NewInt(int64(t.n))))
		return
	}
	add := func(a *Term, k *big.Int) {
		if at[a] == nil {
			at[a] = new(big.Int)
		}
		at[a].Add(at[a], k)
	}
	if t.op != OLin {
		add(t, big.NewInt(sgn))
		return
	}
	n.Add(n, new(big.Int).Mul(big.NewInt(sgn), big.NewInt(int64(t.n))))
	for i, a := range t.args {
		add(a, new(big.Int).Mul(big.NewInt(sgn), scoef(t.coefs[i])))
	}
}
func (l *liaCtx) propLe(a, b *Term, strict bool) bool { // a <= b over integers
	at := map[*Term]*big.Int{}
	n := new(big.Int)
	parts(a, 1, at, n)
	parts(b, -1, at, n)
	if strict {
		n.Add(n, big.NewInt(1))
	}
	var as []*Term
	var ks []*big.Int
	for t, k := range at {
		if k.Sign() != 0 {
			as = append(as, t)
			ks = append(ks, k)
		}
	}
	return l.leq(as, ks, n)
}
func (l *liaCtx) prop(f *Term) bool {
	switch f.op {
	case OSlt, OSle:
		a, b := f.args[0], f.args[1]
		if a.sort.w == 64 && inS(l.lin(a)) && inS(l.lin(b)) {
			return l.propLe(a, b, f.op == OSlt)
		}
	case OUlt, OUle:
		a, b := f.args[0], f.args[1]
		if a.sort.w != 64 {
			return false
		}
		va, vb := l.lin(a), l.lin(b)
		ch := false
		if inS(va) && inS(vb) && vb.lo.Sign() >= 0 {
			ch = l.propLe(l.c.Const(64, 0), a, false) || ch
			ch = l.propLe(a, b, f.op == OUlt) || ch
		}
		return ch
	case OEq:
		a, b := f.args[0], f.args[1]
		if a.sort.w != 64 {
			return false
		}
		if inS(l.lin(a)) && inS(l.lin(b)) {
			x := l.propLe(a, b, false)
			y := l.propLe(b, a, false)
			return x || y
		}
		// isolate an atom with a unit coefficient: if the rest cannot wrap, the atom equals it
		d := l.c.Sub(a, b)
		if d.op == OLin {
			for i, v := range d.args {
				k := d.coefs[i]
				var rest *Term
				if k == 1 {
					rest = l.c.Sub(v, d)
				} else if k == mask(64) {
					rest = l.c.Add(v, d)
				} else {
					continue
				}
				if r := l.lin(rest); inS(r) {
					if l.narrow(v, r.lo, r.hi) {
						return true
					}
				}
			}
		}
	}
	return false
}
func (l *liaCtx) term(t *Term) string {
	if t.isConst() {
		return lit(big.NewInt(int64(t.n)))
	}
	if t.op != OLin {
		return l.atomS(t)
	}
	var b strings.Builder
	b.WriteString("(+ " + lit(big.NewInt(int64(t.n))))
	for i, a := range t.args {
		k := scoef(t.coefs[i])
		if k.IsInt64() && k.Int64() == 1 {
			b.WriteString(" " + l.atomS(a))
		} else {
			b.WriteString(" (* " + lit(k) + " " + l.atomS(a) + ")")
		}
	}
	b.WriteString(")")
	return b.String()
}
func lit(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}
func (l *liaCtx) atomS(t *Term) string {
	n := fmt.Sprintf("a%d", t.id)
	if !l.defd[t] {
		l.defd[t] = true
		l.decl[n] = "Int"
		if t.op != OVar {
			l.exact = false
		}
		v := l.atom(t)
		l.extra = append(l.extra, fmt.Sprintf("(and (<= %s %s) (<= %s %s))", lit(v.lo), n, n, lit(v.hi)))
		if t.op == OIte {
			a, b := l.lin(t.args[1]), l.lin(t.args[2])
			if inS(a) && inS(b) {
				k := l.form(t.args[0])
				l.extra = append(l.extra, fmt.Sprintf("(ite %s (= %s %s) (= %s %s))", k, n, l.term(t.args[1]), n, l.term(t.args[2])))
			}
		}
	}
	return n
}
func (l *liaCtx) form(f *Term) string {
	if s, ok := l.done[f]; ok {
		return s
	}
	s := l.form0(f)
	if len(s) > 60 {
		n := fmt.Sprintf("f%d", f.id)
		l.decl[n] = "Bool"
		l.extra = append(l.extra, fmt.Sprintf("(= %s %s)", n, s))
		s = n
	}
	l.done[f] = s
	return s
}
func (l *liaCtx) form0(f *Term) string {
	switch f.op {
	case OConst:
		if f.n == 1 {
			return "true"
		}
		return "false"
	case ONot:
		return "(not " + l.form(f.args[0]) + ")"
	case OAnd, OOr:
		var b strings.Builder
		if f.op == OAnd {
			b.WriteString("(and")
		} else {
			b.WriteString("(or")
		}
		for _, a := range f.args {
			b.WriteString(" " + l.form(a))
		}
		b.WriteString(")")
		return b.String()
	case OIte:
		return "(ite " + l.form(f.args[0]) + " " + l.form(f.args[1]) + " " + l.form(f.args[2]) + ")"
	case OEq:
		if f.args[0].sort == BoolS {
			return "(= " + l.form(f.args[0]) + " " + l.form(f.args[1]) + ")"
		}
		if f.args[0].sort.w == 64 && inS(l.lin(f.args[0])) && inS(l.lin(f.args[1])) {
			return "(= " + l.term(f.args[0]) + " " + l.term(f.args[1]) + ")"
		}
		if f.args[0].sort.w == 64 {
			d := l.c.Sub(f.args[0], f.args[1])
			if d.op == OLin {
				for i, v := range d.args {
					k := d.coefs[i]
					var rest *Term
					if k == 1 {
						rest = l.c.Sub(v, d)
					} else if k == mask(64) {
						rest = l.c.Add(v, d)
					} else {
						continue
					}
					if inS(l.lin(rest)) {
						return "(= " + l.atomS(v) + " " + l.term(rest) + ")"
					}
				}
			}
		}
	case OSlt, OSle:
		a, b := f.args[0], f.args[1]
		if a.sort.w == 64 && inS(l.lin(a)) && inS(l.lin(b)) {
			op := "<"
			if f.op == OSle {
				op = "<="
			}
			return "(" + op + " " + l.term(a) + " " + l.term(b) + ")"
		}
	case OUlt, OUle:
		a, b := f.args[0], f.args[1]
		if a.sort.w == 64 {
			va, vb := l.lin(a), l.lin(b)
			if inS(va) && inS(vb) {
				op := "<"
				if f.op == OUle {
					op = "<="
				}
				x, y := l.term(a), l.term(b)
				if va.lo.Sign() >= 0 && vb.lo.Sign() >= 0 {
					return "(" + op + " " + x + " " + y + ")"
				}
				return fmt.Sprintf("(or (and (>= %s 0) (< %s 0)) (and (= (>= %s 0) (>= %s 0)) (%s %s %s)))", x, y, x, y, op, x, y)
			}
		}
	}
	if f.op != OVar {
		l.exact = false
	}
	n := fmt.Sprintf("p%d", f.id)
	l.decl[n] = "Bool"
	return n
}

// lia decides the integer view: unsat is sound; sat is conclusive only if exact.
func (x *Exec) lia(as []*Term) (Result, bool) {
	for _, a := range as {
		if a == x.c.F {
			return Unsat, true
		}
	}
	key := make([]byte, 0, len(as)*4)
	for _, a := range as {
		key = append(key, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	if r, ok := x.liaCache[string(key)]; ok {
		return r.r, r.exact
	}
	l := &liaCtx{c: x.c, b: map[*Term]ival{}, exact: true, decl: map[string]string{}, done: map[*Term]string{}, defd: map[*Term]bool{}}
	as = x.units(as)
	for round := 0; round < 8; round++ {
		ch := false
		for _, a := range as {
			if l.prop(a) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	for _, v := range l.b {
		if v.lo.Cmp(v.hi) > 0 {
			x.liaCache[string(key)] = liaRes{Unsat, true}
			return Unsat, true
		}
	}
	var fs []string
	for _, a := range as {
		if a.op == OVar || a.op == ONot && a.args[0].op == OVar {
			fs = append(fs, l.form(a))
			continue
		}
		fs = append(fs, l.form(a))
	}
	if x.s2 == nil {
		x.s2 = NewSolver(x.c, "z3-new", 3000)
	}
	s := x.s2
	t0 := time.Now()
	s.Queries++
	s.send("(push 1)")
	for n, ty := range l.decl {
		s.send("(declare-const " + n + " " + ty + ")")
	}
	for _, e := range l.extra {
		s.send("(assert " + e + ")")
	}
	for _, f := range fs {
		s.send("(assert " + f + ")")
	}
	s.send("(check-sat)")
	s.send("(pop 1)")
	s.in.Flush()
	ln, err := s.readLine()
	s.Time += time.Since(t0)
	r := Unknown
	if err != nil || strings.HasPrefix(ln, "(error") {
		s.Close()
		s.start()
	} else if ln == "unsat" {
		r = Unsat
	} else if ln == "sat" {
		r = Sat
	}
	x.liaCache[string(key)] = liaRes{r, l.exact}
	return r, l.exact
}

type liaRes struct {
	r     Result
	exact bool
}

// units simplifies disjunctions by the literals known from the other assertions (unit propagation).
func (x *Exec) units(as []*Term) []*Term {
	c := x.c
	known := map[*Term]bool{}
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OAnd {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if !known[t] {
			known[t] = true
			out = append(out, t)
		}
	}
	for _, a := range as {
		add(a)
	}
	for i := 0; i < len(out); i++ {
		t := out[i]
		if t.op != OOr {
			continue
		}
		var rest []*Term
		sat := false
		for _, a := range t.args {
			if known[a] {
				sat = true
			}
			if !known[c.Not(a)] {
				rest = append(rest, a)
			}
		}
		if !sat && len(rest) < len(t.args) {
			if len(rest) == 0 {
				return []*Term{c.F}
			}
			add(c.Or(rest...))
		}
	}
	return out
}
