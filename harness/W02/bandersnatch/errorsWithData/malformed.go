package errorsWithData

import (
	"strings"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

const zzAlpha = "%$w!{}\\mF>0="

// zzBroken builds an error with interpolation string s; if s is outside of the language, nothing panics, every
// validation says so and the message still shows what went wrong, the wrapped error and the parameters.
func zzBroken(s string) {
	var base error
	switch zz.Choice("base", 3) {
	case 1:
		base = &zzBase{"B0"}
	case 2:
		base = NewErrorWithData_any_params(nil, "B%!m=0{0}", ReplacePreviousData)
	}
	var kv []any
	if zz.Choice("params", 2) == 1 {
		kv = []any{"F", "v0"}
	}
	var e ErrorWithData_any
	p := zz.Panics(func() { e = NewErrorWithData_any_params(base, s, ReplacePreviousData, kv...) })
	zz.Assert(!p, "creating an error does not panic because of its interpolation string")
	params := e.GetData_map()
	r := zzRef{s: s, direct: params, passed: params, base: base}
	r.seq(0, true)
	if !r.perr && !r.serr {
		zz.Reach("fine")
		return
	}
	var out, outp string
	var syn, fin, bas, par error
	p = zz.Panics(func() {
		// the order must not matter: validation and rendering may come first
		if zz.Choice("order", 2) == 0 {
			out = e.Error()
			syn, fin, bas, par = e.ValidateSyntax(), e.ValidateError_Final(), e.ValidateError_Base(), e.ValidateError_Params(nil)
		} else {
			fin, bas, par, syn = e.ValidateError_Final(), e.ValidateError_Base(), e.ValidateError_Params(nil), e.ValidateSyntax()
			out = e.Error()
		}
		outp = e.Error_interpolate(ParamMap{"P": "p0"})
	})
	zz.Assert(!p, "no method panics on a malformed interpolation string")
	zz.Assert(syn != nil && fin != nil && bas != nil && par != nil, "every validation reports the mistake")
	if base != nil {
		zz.Assert(zzContains(out, "\nBase error:\nB0") && zzContains(outp, "\nBase error:\nB0"), "the wrapped error is shown")
	}
	if len(kv) > 0 {
		zz.Assert(zzContains(out, "\nParameters in error:\nmap[F:v0]") && zzContains(outp, "\nParameters in error:\nmap[F:v0]"), "the parameters are shown")
	}
	zz.Assert(zzContains(outp, "\nParameters from parent error:\nmap[P:p0]"), "the passed parameters are shown")
	if r.perr {
		zz.Assert(zzContains(out, "PARSE-ERROR"), "the message tells about the parse error, whatever the conditions")
		zz.Reach("parse")
	} else {
		zz.Reach("syntax")
	}
	zz.Assert(HasParameter(e, "F") == (len(kv) > 0), "parameters are unaffected")
}

//zz:mode=bv bound=every_string_of_at_most_4_bytes_over_the_12_characters_that_matter_to_the_grammar reach=parse
func ZZ_Strings4() {
	n := zz.Choice("n", 5)
	if n == 0 {
		return
	}
	zzBroken(zz.String("s", n, zzAlpha))
}

//zz:mode=bv tier=thorough bound=every_string_of_5_bytes_over_the_12_characters_that_matter_to_the_grammar reach=parse
func ZZ_Strings5() { zzBroken(zz.String("s", 5, zzAlpha)) }

var zzOpen = []string{"%!m>0{", "$!m=0{a", "%!m=0{%!m>0{", "$!m>0{%!m>0{b$!m=0{", "%!q{", "%!m>0{$!q{", "%!q{$!r{%!m=0{", "%v{F", "%!m=0{%{0}", "%!m>0{%!m=0{$!m>0{%!m=0{c"}
var zzClose = []string{"", "}", "}}", "}}}"}

//zz:mode=bv bound=every_string_of_2_bytes_within_10_open_contexts_(conditionals_up_to_4_deep)_and_up_to_3_closing_brackets reach=parse,syntax
func ZZ_Nested2() { zzBroken(zzOpen[zz.Choice("open", len(zzOpen))] + zz.String("s", 2, zzAlpha) + zzClose[zz.Choice("close", 4)]) }

//zz:mode=bv tier=thorough bound=every_string_of_3_bytes_within_10_open_contexts_(conditionals_up_to_4_deep)_and_up_to_3_closing_brackets reach=parse,syntax
func ZZ_Nested3() { zzBroken(zzOpen[zz.Choice("open", len(zzOpen))] + zz.String("s", 3, zzAlpha) + zzClose[zz.Choice("close", 4)]) }

var zzPieces = []string{"%!m>0{", "$!m=0{", "$!q{", "}", "%{F}", "${0}", "%d\\%{F}", "%w", "$w", "{", "%", "$", "x", "\\", "%!m=0", "$!q", "%{", "$x{", "%{F", "!m"}

func zzSeq(n int) (s string) {
	for i := 0; i < n; i++ {
		s += zzPieces[zz.Choice("piece", len(zzPieces))]
	}
	return
}

//zz:mode=bv bound=every_sequence_of_3_out_of_20_language_fragments reach=parse,syntax
func ZZ_Pieces() { zzBroken(zzSeq(3)) }

//zz:mode=bv bound=every_sequence_of_2_out_of_20_language_fragments_within_10_open_contexts_and_0_or_2_closing_brackets reach=parse,syntax
func ZZ_PiecesNested() {
	zzBroken(zzOpen[zz.Choice("open", len(zzOpen))] + zzSeq(2) + zzClose[2*zz.Choice("close", 2)])
}

//zz:mode=bv tier=thorough bound=every_sequence_of_4_out_of_20_language_fragments reach=parse,syntax
func ZZ_Pieces4() { zzBroken(zzSeq(4)) }

//zz:mode=bv bound=long_strings:_text_and_nesting_of_70_bytes/levels_around_every_string_of_2_bytes reach=parse,syntax
func ZZ_Long() {
	text, where := zz.Choice("text", 5), zz.Choice("where", 4)
	if text == 1 && where == 3 {
		return // a non-ASCII format verb
	}
	l := strings.Repeat([]string{"long text ", "ä世", "%!m>0{", "%{F}\\\\", "$!m=0{a"}[text], 70)
	s := zz.String("s", 2, zzAlpha)
	switch where {
	case 0:
		s = l + s
	case 1:
		s = s + l
	case 2:
		s = "%v{" + s + l + "}"
	case 3:
		s = "%!m>0{$" + l + s + "{F}}"
	}
	zzBroken(s)
}
