package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of encoding/json, strconv and the text forms of numbers. A decimal is a string atom dec.i64(v), dec.u64(v) or
// big.dec(v); hex text is hex.enc(bytes). These are plain ASCII without quotes, so a JSON string holding one is the
// atom between two quotes. Parsing such an atom gives the number back; parsing anything else is an uninterpreted
// function of the text.

const asciiNote = "encoding/json and strconv: results are functions of the text; decimals and quoted plain ASCII read back as what was written; a failed Unmarshal into a number, string or bool leaves the target alone, null leaves it alone and succeeds"

func plainAtom(t *Term) bool {
	return t.op == OApp && (t.name == "dec.i64" || t.name == "dec.u64" || t.name == "big.dec" || t.name == "hex.enc")
}

// textAtom is the string of a plain ASCII atom, with what is known about its characters.
func (x *Exec) textAtom(st *State, t *Term) *StrVal {
	c := x.c
	s := x.strAtom(st, t)
	at := func(i uint64) *Term { return c.App("str.at", BV(8), t, c.Const(64, i)) }
	ch := func(b byte) *Term { return c.Const(8, uint64(b)) }
	if !plainAtom(t) {
		return s
	}
	if t.name != "hex.enc" {
		st.assume(c.Not(c.Eq(s.Len, c.Const(64, 0))))
		st.assume(c.Ult(s.Len, c.Const(64, 128)))
		d := c.Ule(c.Sub(at(0), ch('0')), ch(9))
		if t.name == "dec.u64" {
			st.assume(d)
		} else {
			st.assume(c.Or(d, c.Eq(at(0), ch('-'))))
		}
		st.assume(c.Ule(c.Sub(at(1), ch('0')), ch(9))) // (beyond the end, any byte may be assumed)
	}
	return s
}
func (x *Exec) atomSeq(s *StrVal) *SeqVal { return x.seqSlice(s.A, s.Off, s.Len) }
func (x *Exec) quoteSeq() *SeqVal {
	return &SeqVal{[]Chunk{&CBytes{[]*Term{x.c.Const(8, '"')}}}}
}
func (x *Exec) bytesOf(st *State, s *SeqVal) *SliceVal {
	c := x.c
	n := x.seqLen(s)
	o := x.newObj(st, &ArrayVal{u8T, &ASeq{s}})
	return &SliceVal{Nil: c.F, Obj: o, Off: c.Const(64, 0), Len: n, Cap: n, Elem: u8T}
}

// chunkAtom: the chunk is exactly the text of an atom.
func (x *Exec) chunkAtom(ch Chunk) *Term {
	v, ok := ch.(*CArr)
	if !ok {
		return nil
	}
	a, ok := v.A.(*AStrAtom)
	if !ok || !v.Off.isC(0) || v.Len != x.c.App("str.len", BV(64), a.T) {
		return nil
	}
	return a.T
}

// jsonText recognises JSON text made of a plain atom, bare or quoted.
func (x *Exec) jsonText(s *SeqVal) (bare, quoted *Term) {
	isq := func(ch Chunk) bool {
		b, ok := ch.(*CBytes)
		return ok && len(b.B) == 1 && b.B[0].isC('"')
	}
	if len(s.C) == 1 {
		if t := x.chunkAtom(s.C[0]); t != nil && plainAtom(t) && t.name != "hex.enc" {
			return t, nil
		}
	}
	if len(s.C) == 3 && isq(s.C[0]) && isq(s.C[2]) {
		if t := x.chunkAtom(s.C[1]); t != nil && plainAtom(t) {
			return nil, t
		}
	}
	return nil, nil
}
func one(iv *IfaceVal) (Alt, bool) {
	if len(iv.Alts) == 1 && iv.Alts[0].T != nil {
		return iv.Alts[0], true
	}
	return Alt{}, false
}

func (x *Exec) errPair(st *State, ok *Term, okVals, badVals func(*State) []Val) []Outcome {
	c := x.c
	var outs []Outcome
	if bad := c.Not(ok); x.feasible(st, bad) {
		s2 := st.clone()
		s2.assume(bad)
		outs = append(outs, Outcome{kind: ORet, st: s2, vals: badVals(s2)})
	}
	if x.feasible(st, ok) {
		st.assume(ok)
		outs = append(outs, Outcome{kind: ORet, st: st, vals: okVals(st)})
	}
	return outs
}

func (x *Exec) jsonModel(fn *ssa.Function, args []Val, st *State) ([]Outcome, bool) {
	c := x.c
	if fn.Signature.Recv() != nil {
		return nil, false
	}
	x.trusted[asciiNote] = true
	dec := func(v *Term, signed bool) *StrVal {
		n := "dec.u64"
		if signed {
			n = "dec.i64"
		}
		return x.textAtom(st, c.App(n, StrS, v))
	}
	c10 := func(v Val) bool { t, ok := v.(*Term); return ok && t.isC(10) }
	parse := func(name string, w int, inv string) ([]Outcome, bool) {
		at := x.scal(args[0])
		if inv != "" && at.op == OApp && at.name == inv {
			return ret(st, at.args[0], x.nilIface()), true
		}
		v := c.App("strconv."+name, BV(w), at)
		return x.errPair(st, c.App("strconv."+name+"?", BoolS, at),
			func(*State) []Val { return []Val{v, x.nilIface()} },
			func(*State) []Val { return []Val{v, x.opaqueIface("parseerr")} }), true
	}
	switch fn.Pkg.Pkg.Path() + "." + fn.Name() {
	case "strconv.FormatInt":
		if c10(args[1]) {
			return ret(st, dec(args[0].(*Term), true)), true
		}
	case "strconv.FormatUint":
		if c10(args[1]) {
			return ret(st, dec(args[0].(*Term), false)), true
		}
	case "strconv.Itoa":
		return ret(st, dec(args[0].(*Term), true)), true
	case "strconv.AppendInt", "strconv.AppendUint":
		if c10(args[2]) {
			s := dec(args[1].(*Term), fn.Name() == "AppendInt")
			return ret(st, x.appendTo(st, args[0].(*SliceVal), s.A, s.Off, s.Len)), true
		}
	case "strconv.Quote":
		if at := x.scal(args[0]); plainAtom(at) {
			s := x.cat(x.quoteSeq(), x.atomSeq(x.textAtom(st, at)), x.quoteSeq())
			return ret(st, &StrVal{A: &ASeq{s}, Off: c.Const(64, 0), Len: x.seqLen(s)}), true
		}
	case "strconv.ParseInt", "strconv.ParseUint":
		b, k := args[1].(*Term), args[2].(*Term)
		if b.isConst() && k.isConst() {
			inv := ""
			if b.n == 10 && k.n == 64 {
				inv = map[string]string{"ParseInt": "dec.i64", "ParseUint": "dec.u64"}[fn.Name()]
			}
			return parse(fmt.Sprintf("%s:%d:%d", fn.Name(), b.n, k.n), 64, inv)
		}
	case "strconv.Atoi":
		return parse("ParseInt:10:64", 64, "dec.i64")
	case "strconv.ParseFloat":
		if k := args[1].(*Term); k.isConst() {
			return parse(fmt.Sprintf("ParseFloat:%d", k.n), 64, "")
		}
	case "encoding/json.Marshal":
		a, ok := one(args[0].(*IfaceVal))
		if !ok || x.prog.methodNamed(a.T, nil, "MarshalJSON") != nil || x.prog.methodNamed(a.T, nil, "MarshalText") != nil {
			return nil, false
		}
		b, ok := a.T.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		switch {
		case b.Info()&types.IsInteger != 0:
			t := a.V.(*Term)
			if b.Info()&types.IsUnsigned != 0 {
				t = c.ZExt(t, 64)
			} else {
				t = c.SExt(t, 64)
			}
			return ret(st, x.bytesOf(st, x.atomSeq(dec(t, b.Info()&types.IsUnsigned == 0))), x.nilIface()), true
		case b.Info()&types.IsString != 0:
			at := x.scal(a.V)
			if plainAtom(at) {
				return ret(st, x.bytesOf(st, x.cat(x.quoteSeq(), x.atomSeq(x.textAtom(st, at)), x.quoteSeq())), x.nilIface()), true
			}
			return ret(st, x.bytesOf(st, x.atomSeq(x.strAtom(st, c.App("json.quote", StrS, at)))), x.nilIface()), true
		}
	case "encoding/json.Unmarshal":
		return x.jsonUnmarshal(args, st)
	}
	return nil, false
}

func (x *Exec) jsonUnmarshal(args []Val, st *State) ([]Outcome, bool) {
	c := x.c
	a, ok := one(args[1].(*IfaceVal))
	if !ok {
		return nil, false
	}
	p, ok := a.V.(*PtrVal)
	if !ok {
		return nil, false
	}
	et := a.T.Underlying().(*types.Pointer).Elem()
	seq := x.seqOfSlice(st, args[0].(*SliceVal))
	bare, quoted := x.jsonText(seq)
	bad := func(*State) []Val { return []Val{x.opaqueIface("jsonerr")} }
	if m := x.prog.methodNamed(a.T, nil, "UnmarshalJSON"); m != nil {
		if bare != nil || quoted != nil {
			return x.callFn(m, nil, []Val{p, x.bytesOf(st, seq)}, st), true
		}
		j := x.seqTerm(seq)
		var outs []Outcome
		ok := c.App("json.valid", BoolS, j)
		if x.feasible(st, c.Not(ok)) {
			s2 := st.clone()
			s2.assume(c.Not(ok))
			outs = append(outs, Outcome{kind: ORet, st: s2, vals: bad(s2)})
		}
		st.assume(ok)
		s := x.strAtom(st, c.App("json.trim", StrS, j))
		st.assume(c.Not(c.Eq(s.Len, c.Const(64, 0))))
		return append(outs, x.callFn(m, nil, []Val{p, x.bytesOf(st, x.atomSeq(s))}, st)...), true
	}
	b, ok := et.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	if b.Info()&types.IsString != 0 && quoted != nil {
		x.store(st, p, x.textAtom(st, quoted))
		return ret(st, x.nilIface()), true
	}
	if bare != nil && (b.Kind() == types.Int64 || b.Kind() == types.Int) && bare.name == "dec.i64" || bare != nil && b.Kind() == types.Uint64 && bare.name == "dec.u64" {
		x.store(st, p, bare.args[0])
		return ret(st, x.nilIface()), true
	}
	if bare != nil && b.Info()&types.IsString != 0 || quoted != nil && b.Info()&types.IsString == 0 {
		return ret(st, x.opaqueIface("jsonerr")), true
	}
	j := x.seqTerm(seq)
	name := b.Name()
	var v Val
	if b.Info()&types.IsString != 0 {
		v = x.strAtom(st, c.App("json.string", StrS, j))
	} else if s := x.scalarSort(et); s != nil {
		v = c.App("json."+name, s, j)
	} else {
		return nil, false
	}
	old := x.load(st, p)
	return x.errPair(st, c.App("json."+name+"?", BoolS, j), func(s *State) []Val {
		x.store(s, p, x.ite(c.App("json.isnull", BoolS, j), old, v))
		return []Val{x.nilIface()}
	}, bad), true
}

// sprintf models formats made of literal text, %s of strings and %d of integers; nil for anything else.
func (x *Exec) sprintf(name string, args []Val, st *State) *StrVal {
	if name != "Sprintf" {
		return nil
	}
	f, ok := args[0].(*StrVal)
	if !ok || f.Lit == nil {
		return nil
	}
	sl, ok := args[1].(*SliceVal)
	if !ok || !sl.Len.isConst() {
		return nil
	}
	var vs []Alt
	if sl.Len.n > 0 {
		e, ok := x.arrOf(st, sl).(*AExp)
		if !ok || !sl.Off.isC(0) || uint64(len(e.E)) < sl.Len.n {
			return nil
		}
		for _, v := range e.E[:sl.Len.n] {
			iv, ok := v.(*IfaceVal)
			if !ok {
				return nil
			}
			a, ok := one(iv)
			if !ok || a.T == nil || x.prog.methodNamed(a.T, nil, "String") != nil || x.prog.methodNamed(a.T, nil, "Error") != nil || x.prog.methodNamed(a.T, nil, "Format") != nil {
				return nil
			}
			vs = append(vs, a)
		}
	}
	c := x.c
	out := &SeqVal{}
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = x.cat(out, &SeqVal{[]Chunk{&CBytes{[]*Term{c.Const(8, uint64(s[i]))}}}})
		}
	}
	s := *f.Lit
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 || i+1 >= len(s) {
			if i >= 0 {
				return nil
			}
			lit(s)
			break
		}
		lit(s[:i])
		verb := s[i+1]
		s = s[i+2:]
		if verb == '%' {
			lit("%")
			continue
		}
		if len(vs) == 0 {
			return nil
		}
		a := vs[0]
		vs = vs[1:]
		b, ok := a.T.Underlying().(*types.Basic)
		if !ok {
			return nil
		}
		switch {
		case verb == 's' && b.Info()&types.IsString != 0:
			out = x.cat(out, x.atomSeq(a.V.(*StrVal)))
		case verb == 'd' && b.Info()&types.IsInteger != 0:
			n, t := "dec.i64", c.SExt(a.V.(*Term), 64)
			if b.Info()&types.IsUnsigned != 0 {
				n, t = "dec.u64", c.ZExt(a.V.(*Term), 64)
			}
			out = x.cat(out, x.atomSeq(x.textAtom(st, c.App(n, StrS, t))))
		default:
			return nil
		}
	}
	if len(vs) > 0 {
		return nil
	}
	r := &StrVal{A: &ASeq{out}, Off: c.Const(64, 0), Len: x.seqLen(out)}
	if len(out.C) == 1 {
		if t := x.chunkAtom(out.C[0]); t != nil {
			r.Atom = t
		}
	}
	return r
}
