package bin

import "reflect"

// Ghost vocabulary of the contract files. The verifier (engine/) interprets these functions symbolically; the bodies
// below are only used when spec functions run concretely in the replay harness.

// Seq is a finite byte sequence.
type Seq []byte

func requires(cond bool)                                      {}
func assume(cond bool)                                        {}
func ensures(class, name string, cond bool)                   {}
func prove(class, name string, cond bool)                     {}
func ensuresOut(class, name string, e *Encoder, want Seq)     {}
func ensuresSeq(class, name string, got, want Seq)            {}
func ensuresSlice(class, name string, got, want []byte)       {}
func ensuresString(class, name string, got string, want Seq)  {}
func modifies(ptrs ...interface{})                            {}
func modifiesOut(e *Encoder)                                  {}
func panicsWhen(cond bool)                                    {}
func noFrame()                                                {}
func outOf(e *Encoder) Seq                                    { return nil }
func handed(e *Encoder) int                                   { return 0 }
func wfailed(e *Encoder) bool                                 { return false }
func readerRest(r interface{}) []byte                         { return nil }
func modifiesSlice(b []byte)                                  {}
func ensuresContent(class, name string, got []byte, want Seq) {}
func seqB(b ...byte) Seq                                      { return Seq(b) }
func seqOf(b []byte) Seq                                      { return append(Seq{}, b...) }
func seqStr(s string) Seq                                     { return Seq(s) }
func seqLen(s Seq) int                                        { return len(s) }
func seqAt(s Seq, i int) byte                                 { return s[i] }
func seqSlice(s Seq) []byte                                   { return []byte(s) }
func implies(a, b bool) bool                                  { return !a || b }
func cat(ss ...Seq) Seq {
	var out Seq
	for _, s := range ss {
		out = append(out, s...)
	}
	return out
}
func and(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}
func or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}
func iteSeq(c bool, a, b Seq) Seq {
	if c {
		return a
	}
	return b
}

// verifying: is this the contract of the function being verified (rather than of one it calls)?
func verifying() bool { return true }

// mayPanic: the contract says nothing about executions that panic.
func mayPanic() {}

// byDesignPanics: explicit panic statements are documented behaviour; calleePanics: so are panics the callees' contracts allow.
func byDesignPanics() {}
func calleePanics()   {}

// abstractly: the named specification function is left open (any result) while this function is verified.
func abstractly(name string) {}

// modifiesTarget: the function writes through v and what is reached from it.
func modifiesTarget(v reflect.Value) {}

// modifiesNewOnly: through reflection the function writes to values it made itself, and to nothing that existed before.
func modifiesNewOnly() {}

// allocLimit: no allocation is for more elements than this.
func allocLimit(n int) {}

// invariant holds whenever a loop of the function starts an iteration (a hint: it is checked, or ignored).
func invariant(f func() bool) {}

// rvUsable: v is a non-nil pointer or can be set, and was not obtained through unexported fields.
func rvUsable(v reflect.Value) bool { return v.CanSet() || v.Kind() == reflect.Ptr && !v.IsNil() }
func rvCanSet(v reflect.Value) bool { return v.CanSet() }

// ensuresMap: two maps have the same entries.
func ensuresMap(class, name string, got, want interface{}) {}

// setGhostInt records a fact about a call in its caller's ghost state; ghostInt reads it.
func setGhostInt(name string, v int) {}
func ghostInt(name string) int       { return 0 }

// ensuresReach: u and r are v, or reached from it.
func ensuresReach(u interface{}, r, v reflect.Value) {}
