package main

// Seq mirrors the ghost sequence type of the contracts; spec_gen.go is the contracts' specification file itself.
type Seq []byte

func seqB(b ...byte) Seq { return Seq(b) }
func cat(ss ...Seq) Seq {
	var out Seq
	for _, s := range ss {
		out = append(out, s...)
	}
	return out
}
