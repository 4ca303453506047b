package bin

import "strings"

// ---------------------------------------------------------------- case conversions: they never panic

func contract_ToRustSnakeCase(s string) func(out string) {
	return func(out string) {
		if !verifying() {
			ensuresString("val", "some function of the string", out, opaque_heckSnake(s))
		}
		ensures("safe", "fits in memory", len(out) < 1<<45)
	}
}
func contract_ToPascalCase(s string) func(out string) {
	return func(out string) {
		if !verifying() {
			ensuresString("val", "some function of the string", out, opaque_heckPascal(s))
		}
		ensures("safe", "fits in memory", len(out) < 1<<45)
	}
}

// what the conversions read a word with: the cursor starts before the first rune and stays inside
func readerOK(r *reader) bool {
	return -1 <= r.index && r.index < len(r.runes) && len(r.runes) < 1<<45
}
func contract_newReader(s string) func(r *reader) {
	return func(r *reader) {
		ensures("val", "starts before the first rune", r.index == -1)
		ensures("safe", "the cursor is inside the word", readerOK(r))
	}
}
func contract_lowercase(s string, f *strings.Builder) func() {
	requires(f != nil)
	modifies(f)
	return func() {}
}
func contract_capitalize(s string, f *strings.Builder) func() {
	requires(f != nil)
	modifies(f)
	return func() {}
}
