package errorsWithData

import (
	"strings"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

const zzAlpha = "%$w!{}\\mF>0="

// zzRender builds an error with interpolation string s and compares its message with the reference reading of the documentation.
func zzRender(s string, base error, kv ...any) { zzRenderAs(s, s, base, kv...) }

// zzRenderAs has the interpolation string and the same as valid UTF-8.
func zzRenderAs(s, valid string, base error, kv ...any) {
	e := NewErrorWithData_any_params(base, s, ReplacePreviousData, kv...)
	params := e.GetData_map()
	r := zzRef{s: valid, direct: params, passed: params, base: base}
	r.seq(0, true)
	zz.Assert((e.ValidateSyntax() != nil) == (r.perr || r.serr), "ValidateSyntax reports exactly the strings outside of the language")
	if r.perr || r.serr {
		zz.Reach("outside")
		return
	}
	if r.missing {
		_ = e.Error()
		zz.Reach("missing")
		return
	}
	zz.Assert(e.Error() == r.out, "rendered as documented")
	// all parameters are the error's own, so passing them explicitly changes nothing
	zz.Assert(e.Error_interpolate(params) == r.out, "rendered as documented with passed parameters")
	zz.Reach("ok")
}

//zz:mode=bv bound=every_string_of_at_most_4_bytes_over_the_12_characters_that_matter_to_the_grammar reach=outside,missing,ok
func ZZ_Strings4() {
	n := zz.Choice("n", 5)
	if n == 0 {
		return
	}
	zzRender(zz.String("s", n, zzAlpha), &zzBase{"B"}, "F", "v")
}

//zz:mode=bv bound=every_string_of_5_bytes_over_the_12_characters_that_matter_to_the_grammar reach=outside,missing,ok
func ZZ_Strings5() { zzRender(zz.String("s", 5, zzAlpha), &zzBase{"B"}, "F", "v") }

//zz:mode=bv tier=thorough bound=every_string_of_6_bytes_over_the_12_characters_that_matter_to_the_grammar reach=outside,missing,ok
func ZZ_Strings6() { zzRender(zz.String("s", 6, zzAlpha), &zzBase{"B"}, "F", "v") }

//zz:mode=bv bound=every_string_of_3_bytes_inside_conditionals_nested_up_to_twice,_with_and_without_parameters reach=outside,missing,ok
func ZZ_Conditionals() { zzConditionals(zz.String("s", 3, zzAlpha)) }

//zz:mode=bv tier=thorough bound=every_string_of_4_bytes_inside_conditionals_nested_up_to_twice,_with_and_without_parameters reach=outside,missing,ok
func ZZ_Conditionals4() { zzConditionals(zz.String("s", 4, zzAlpha)) }

func zzConditionals(s string) {
	switch zz.Choice("context", 5) {
	case 0:
		s = "%!m>0{" + s + "}"
	case 1:
		s = "$!m=0{x" + s + "}y"
	case 2:
		s = "%!m>0{a$!m>0{" + s + "}b}c"
	case 3:
		s = "$!m>0{%!m=0{" + s + "}}"
	case 4:
		s = s + "%!m=0{%w}$!m>0{%{F}}"
	}
	if zz.Choice("params", 2) == 0 {
		zzRender(s, &zzBase{"B"})
	} else {
		zzRender(s, &zzBase{"B"}, "F", "v")
	}
}

//zz:mode=bv bound=format_verbs_of_up_to_2_characters,_values_string/integer/nil/bool reach=ok
func ZZ_Verbs() {
	v := zz.String("verb", zz.Choice("n", 3), "vdxqs+#05 ")
	s := "<%" + v + "{F}|$" + v + "{F}>"
	zzRender(s, nil, "F", []any{"aB", -37, nil, true}[zz.Choice("value", 4)])
}

//zz:mode=bv bound=string_values_of_2_arbitrary_bytes_of_the_grammar's_alphabet reach=ok
func ZZ_Values() {
	v := "s"[:zz.Choice("verb", 2)]
	zzRender("<%"+v+"{F}|$"+v+"{F}>", nil, "F", zz.String("value", 2, zzAlpha))
}

//zz:mode=bv bound=variable_names_of_up_to_3_characters reach=outside,missing,ok
func ZZ_Names() {
	n := zz.String("name", 1+zz.Choice("n", 3), "FG!m_0.\\p")
	s := "%s{" + n + "}"
	if zz.Choice("dollar", 2) == 1 {
		s = "${" + n + "}"
	}
	zzRender(s, nil, "F", "v1", "FG", "v2", "G_", "v3", "F0m", "v4")
}

//zz:mode=bv bound=conditions_of_up_to_3_characters reach=outside,ok
func ZZ_Conditions() {
	c := zz.String("cond", 1+zz.Choice("n", 3), "m>=01\\")
	s := "%!" + c + "{T}"
	if zz.Choice("dollar", 2) == 1 {
		s = "a$!" + c + "{T%{F}}"
	}
	zzRender(s, nil, "F", 5)
}

//zz:mode=bv bound=selectors_!m_etc._with_every_last_character reach=outside,ok
func ZZ_Selectors() {
	sel := []string{"!m", "!map", "!parameters", "!params"}[zz.Choice("sel", 4)]
	n := zz.Choice("cut", len(sel))
	s := "%{" + sel[:n] + zz.String("c", 1, "!mapretsF") + sel[n+1:] + "}"
	zzRender(s, nil, "F", 5, "A", "x")
}

//zz:mode=bv bound=long,_non-ASCII_and_invalid_UTF-8_text_around_every_string_of_2_bytes reach=outside,missing,ok
func ZZ_Text() {
	l := []string{strings.Repeat("long text ", 40), "ä世界\U0001f600", "\n\x00\t\"", strings.Repeat("%!m>0{", 20) + strings.Repeat("}", 20), strings.Repeat("%{F}", 50), "a\xff\xfeb\xc3"}[zz.Choice("text", 6)]
	m := strings.ToValidUTF8(l, "\uFFFD")
	s := zz.String("s", 2, zzAlpha)
	switch zz.Choice("where", 3) {
	case 0:
		zzRenderAs(l+s, m+s, &zzBase{"B"}, "F", "v")
	case 1:
		zzRenderAs(s+l, s+m, &zzBase{"B"}, "F", "v")
	case 2:
		zzRenderAs("%!m>0{"+l+s+l+"}"+l, "%!m>0{"+m+s+m+"}"+m, &zzBase{"B"}, "F", "v")
	}
}

// The parameters passed along are those for $, whatever the error's own: none at all, other ones or other values.
//
//zz:mode=bv bound=every_string_of_at_most_4_bytes_over_the_12_characters_that_matter_to_the_grammar_and_8_fragments_with_%_and_$,_3_sets_of_passed_parameters,_with_and_without_own_ones reach=outside,missing,ok
func ZZ_Passed() {
	var s string
	if n := zz.Choice("n", 5); n == 0 {
		s = []string{"%{F}-${F}", "$w%{F}", "$!m>0{a%{F}}b", "$!m=0{a}$!m>0{b${F}}", "%!m>0{${F}}", "${!m}%{!m}", "$!m>0{$!m>0{c}%!m=0{d}}", "%!m=0{%w}$w"}[zz.Choice("fragment", 8)]
	} else {
		s = zz.String("s", n, zzAlpha)
	}
	base := &zzBase{"B"}
	var kv []any
	if zz.Choice("own", 2) == 1 {
		kv = []any{"F", "v"}
	}
	e := NewErrorWithData_any_params(base, s, ReplacePreviousData, kv...)
	passed := []ParamMap{{}, {"F": "w"}, {"G": 1}}[zz.Choice("passed", 3)]
	r := zzRef{s: s, direct: e.GetData_map(), passed: passed, base: base}
	r.seq(0, true)
	fin := e.ValidateError_Params(passed)
	zz.Assert((fin != nil) == (r.perr || r.serr || r.missing), "ValidateError_Params reports exactly what cannot be rendered with these parameters")
	out := e.Error_interpolate(passed)
	if r.perr || r.serr {
		zz.Reach("outside")
		return
	}
	if r.missing {
		zz.Reach("missing")
		return
	}
	zz.Assert(out == r.out, "rendered as documented with the passed parameters")
	zz.Reach("ok")
}
