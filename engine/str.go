package main

import (
	"go/token"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode/utf8"
)

// opaque is a byte of a string whose content the engine did not compute (the
// formatted form of a symbolic number, for example). Looking at it is
// unsupported; carrying it around is fine.
type opaque struct{}

func hasOpaque(b []Value) bool {
	for _, x := range b {
		if _, ok := x.(opaque); ok {
			return true
		}
	}
	return false
}

// opaqueStr is the string standing for an uncomputed text.
func opaqueStr() Value { return &SymStr{[]Value{opaque{}}} }

func concBytes(v []Value) ([]byte, bool) {
	r := make([]byte, len(v))
	for i, x := range v {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		r[i] = byte(u)
	}
	return r, true
}

func bytesOf(v Value) []Value {
	switch x := v.(type) {
	case Slice:
		return x
	default:
		return strBytes(x)
	}
}

// indexBytes returns the first index of c in b, forking on symbolic bytes.
func (in *Interp) indexByte(b []Value, c Value) int {
	for i := range b {
		if in.cond(in.cmp(OEq, 8, b[i], c)) {
			return i
		}
	}
	return -1
}

func (in *Interp) matchAt(b []Value, i int, pat []Value) bool {
	if i+len(pat) > len(b) {
		return false
	}
	for k := range pat {
		if !in.cond(in.cmp(OEq, 8, b[i+k], pat[k])) {
			return false
		}
	}
	return true
}

func (in *Interp) indexSub(b, pat []Value) int {
	for i := 0; i+len(pat) <= len(b); i++ {
		if in.matchAt(b, i, pat) {
			return i
		}
	}
	return -1
}

type replacerV struct{ oldnew []Value }
type regexpV struct {
	re   *regexp.Regexp
	prog *syntax.Prog
}

// reMatch runs a backtracking match of the program at position pos with the
// leftmost-first priorities of package regexp; it returns the end of the match.
func (in *Interp) reMatch(prog *syntax.Prog, b []Value, pos int) int {
	type st struct {
		pc  uint32
		pos int
	}
	seen := map[st]bool{}
	var run func(pc uint32, pos int) int
	run = func(pc uint32, pos int) int {
		k := st{pc, pos}
		if seen[k] {
			return -1
		}
		seen[k] = true
		i := &prog.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			if r := run(i.Out, pos); r >= 0 {
				return r
			}
			return run(i.Arg, pos)
		case syntax.InstCapture, syntax.InstNop:
			return run(i.Out, pos)
		case syntax.InstMatch:
			return pos
		case syntax.InstFail:
			return -1
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(i.Arg)
			if op&syntax.EmptyBeginText != 0 && pos != 0 {
				return -1
			}
			if op&syntax.EmptyEndText != 0 && pos != len(b) {
				return -1
			}
			if op&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				unsup("regexp assertion")
			}
			return run(i.Out, pos)
		}
		if pos >= len(b) {
			return -1
		}
		r, n := in.decodeRune(b[pos:])
		if u, ok := r.(uint64); ok {
			if !i.MatchRune(rune(u)) {
				return -1
			}
			return run(i.Out, pos+n)
		}
		// a symbolic ASCII character
		var c Value = false
		for lo := rune(0); lo < 128; {
			if !i.MatchRune(lo) {
				lo++
				continue
			}
			hi := lo
			for hi+1 < 128 && i.MatchRune(hi+1) {
				hi++
			}
			c = in.orV(c, in.andV(in.cmp(OUle, 32, uint64(lo), r), in.cmp(OUle, 32, r, uint64(hi))))
			lo = hi + 1
		}
		if !in.cond(c) {
			return -1
		}
		return run(i.Out, pos+n)
	}
	return run(uint32(prog.Start), pos)
}

func neg1(i int) Value { return uint64(int64(i)) }

func regStr(reg func(string, intrinsic)) {
	idx := func(in *Interp, fr *frame, a []Value) Value { return neg1(in.indexByte(bytesOf(a[0]), a[1])) }
	reg("internal/bytealg.IndexByteString", idx)
	reg("internal/bytealg.IndexByte", idx)
	lastIdx := func(in *Interp, fr *frame, a []Value) Value {
		b := bytesOf(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if in.cond(in.cmp(OEq, 8, b[i], a[1])) {
				return uint64(i)
			}
		}
		return neg1(-1)
	}
	reg("internal/bytealg.LastIndexByteString", lastIdx)
	reg("internal/bytealg.LastIndexByte", lastIdx)
	cnt := func(in *Interp, fr *frame, a []Value) Value {
		n := 0
		for _, x := range bytesOf(a[0]) {
			if in.cond(in.cmp(OEq, 8, x, a[1])) {
				n++
			}
		}
		return uint64(n)
	}
	reg("internal/bytealg.CountString", cnt)
	reg("internal/bytealg.Count", cnt)
	sub := func(in *Interp, fr *frame, a []Value) Value { return neg1(in.indexSub(bytesOf(a[0]), bytesOf(a[1]))) }
	reg("internal/bytealg.IndexString", sub)
	reg("internal/bytealg.Index", sub)
	reg("strings.Index", sub)
	reg("bytes.Index", sub)
	reg("internal/stringslite.Index", sub)
	eq := func(in *Interp, fr *frame, a []Value) Value { return in.eqBytes(bytesOf(a[0]), bytesOf(a[1])) }
	reg("internal/bytealg.Equal", eq)
	reg("bytes.Equal", eq)
	comp := func(in *Interp, fr *frame, a []Value) Value {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		r := in.strCompare(mkStr(x), mkStr(y))
		if r < 0 {
			return neg1(-1)
		} else if r > 0 {
			return uint64(1)
		}
		return uint64(0)
	}
	reg("internal/bytealg.Compare", comp)
	reg("internal/bytealg.CompareString", comp)
	reg("bytes.Compare", comp)
	reg("strings.Compare", comp)
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fr *frame, a []Value) Value {
		n := int(asInt64(a[0]))
		s := make(Slice, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})

	reg("strings.Clone", func(in *Interp, fr *frame, a []Value) Value { return a[0] })
	reg("strings.ToValidUTF8", func(in *Interp, fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.ToValidUTF8(s, strArg(a[1]))
		}
		b := strBytes(a[0])
		rep := strBytes(a[1])
		var out []Value
		inv := false
		for len(b) > 0 {
			r, n := in.decodeRune(b)
			if ru, ok := r.(uint64); ok && ru == utf8.RuneError && n == 1 {
				if !inv {
					out = append(out, rep...)
				}
				inv = true
				b = b[1:]
				continue
			}
			inv = false
			out = append(out, b[:n]...)
			b = b[n:]
		}
		return mkStr(out)
	})
	valid := func(in *Interp, fr *frame, a []Value) Value {
		b := bytesOf(a[0])
		for len(b) > 0 {
			r, n := in.decodeRune(b)
			if ru, ok := r.(uint64); ok && ru == utf8.RuneError && n == 1 {
				return false
			}
			b = b[n:]
		}
		return true
	}
	reg("unicode/utf8.ValidString", valid)
	reg("unicode/utf8.Valid", valid)
	dec := func(in *Interp, fr *frame, a []Value) Value {
		b := bytesOf(a[0])
		if len(b) == 0 {
			return Tuple{uint64(utf8.RuneError), uint64(0)}
		}
		r, n := in.decodeRune(b)
		return Tuple{r, uint64(n)}
	}
	reg("unicode/utf8.DecodeRuneInString", dec)
	reg("unicode/utf8.DecodeRune", dec)

	reg("strings.NewReplacer", func(in *Interp, fr *frame, a []Value) Value {
		var c Value = replacerV{append([]Value(nil), a[0].(Slice)...)}
		return &c
	})
	reg("(*strings.Replacer).Replace", func(in *Interp, fr *frame, a []Value) Value {
		rv := (*a[0].(*Value)).(replacerV)
		var cs []string
		conc := true
		for _, x := range rv.oldnew {
			s, ok := x.(string)
			if !ok {
				conc = false
			}
			cs = append(cs, s)
		}
		if s, ok := a[1].(string); ok && conc {
			return strings.NewReplacer(cs...).Replace(s)
		}
		b := strBytes(a[1])
		var out []Value
		for i := 0; i < len(b); {
			done := false
			for k := 0; k+1 < len(rv.oldnew); k += 2 {
				o := strBytes(rv.oldnew[k])
				if len(o) == 0 {
					unsup("Replacer with an empty pattern")
				}
				if in.matchAt(b, i, o) {
					out = append(out, strBytes(rv.oldnew[k+1])...)
					i += len(o)
					done = true
					break
				}
			}
			if !done {
				out = append(out, b[i])
				i++
			}
		}
		return mkStr(out)
	})
	reg("regexp.MustCompile", func(in *Interp, fr *frame, a []Value) Value {
		re := regexp.MustCompile(strArg(a[0]))
		ast, err := syntax.Parse(strArg(a[0]), syntax.Perl)
		must(err)
		prog, err := syntax.Compile(ast.Simplify())
		must(err)
		var c Value = regexpV{re, prog}
		return &c
	})
	reg("(*regexp.Regexp).FindAllString", func(in *Interp, fr *frame, a []Value) Value {
		rv := (*a[0].(*Value)).(regexpV)
		n := int(asInt64(a[2]))
		if s, ok := a[1].(string); ok {
			ms := rv.re.FindAllString(s, n)
			if ms == nil {
				return Slice(nil)
			}
			out := Slice{}
			for _, m := range ms {
				out = append(out, m)
			}
			return out
		}
		b := strBytes(a[1])
		var out Slice
		for pos := 0; pos < len(b) && (n < 0 || len(out) < n); {
			e := in.reMatch(rv.prog, b, pos)
			if e < 0 {
				_, w := in.decodeRune(b[pos:])
				pos += w
				continue
			}
			if e == pos {
				unsup("empty regexp match")
			}
			out = append(out, mkStr(b[pos:e]))
			pos = e
		}
		return out
	})

	// strings.Builder
	const SB = "(*strings.Builder)."
	get := func(in *Interp, p Value) (*Value, BuilderV) {
		c := p.(*Value)
		if c == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return c, (*c).(BuilderV)
	}
	appendB := func(in *Interp, p Value, bs []Value) {
		c, b := get(in, p)
		nb := make([]Value, 0, len(b.b)+len(bs))
		nb = append(append(nb, b.b...), bs...)
		in.set(c, BuilderV{nb})
	}
	reg(SB+"WriteString", func(in *Interp, fr *frame, a []Value) Value {
		bs := strBytes(a[1])
		appendB(in, a[0], bs)
		return Tuple{uint64(len(bs)), Iface{}}
	})
	reg(SB+"Write", func(in *Interp, fr *frame, a []Value) Value {
		bs := a[1].(Slice)
		appendB(in, a[0], bs)
		return Tuple{uint64(len(bs)), Iface{}}
	})
	reg(SB+"WriteByte", func(in *Interp, fr *frame, a []Value) Value {
		appendB(in, a[0], []Value{a[1]})
		return Iface{}
	})
	reg(SB+"WriteRune", func(in *Interp, fr *frame, a []Value) Value {
		bs := in.encodeRune(a[1])
		appendB(in, a[0], bs)
		return Tuple{uint64(len(bs)), Iface{}}
	})
	reg(SB+"String", func(in *Interp, fr *frame, a []Value) Value {
		_, b := get(in, a[0])
		return mkStr(b.b)
	})
	reg(SB+"Len", func(in *Interp, fr *frame, a []Value) Value {
		_, b := get(in, a[0])
		if hasOpaque(b.b) {
			unsup("length of an uncomputed string")
		}
		return uint64(len(b.b))
	})
	reg(SB+"Reset", func(in *Interp, fr *frame, a []Value) Value {
		c, _ := get(in, a[0])
		in.set(c, BuilderV{})
		return nil
	})
	reg(SB+"Grow", func(in *Interp, fr *frame, a []Value) Value { return nil })

	reg("go/token.IsExported", func(in *Interp, fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return token.IsExported(s)
		}
		b := strBytes(a[0])
		if len(b) == 0 {
			return false
		}
		r, _ := in.decodeRune(b)
		if u, ok := r.(uint64); ok {
			return token.IsExported(string(rune(u)))
		}
		// ASCII
		return in.andV(in.cmp(OUle, 32, uint64('A'), r), in.cmp(OUle, 32, r, uint64('Z')))
	})
	reg("go/token.IsIdentifier", func(in *Interp, fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return token.IsIdentifier(s)
		}
		b := strBytes(a[0])
		if len(b) == 0 {
			return false
		}
		for kw := token.BREAK; kw <= token.VAR; kw++ {
			if len(kw.String()) == len(b) && in.cond(in.eqBytes(b, strBytes(kw.String()))) {
				return false
			}
		}
		first := true
		for len(b) > 0 {
			r, n := in.decodeRune(b)
			b = b[n:]
			if u, ok := r.(uint64); ok {
				s := string(rune(u))
				if !first {
					s = "_" + s
				}
				if !token.IsIdentifier(s) {
					return false
				}
			} else {
				rng := func(lo, hi rune) Value {
					return in.andV(in.cmp(OUle, 32, uint64(lo), r), in.cmp(OUle, 32, r, uint64(hi)))
				}
				ok := in.cond(in.orV(in.orV(rng('a', 'z'), rng('A', 'Z')), in.cmp(OEq, 32, r, uint64('_'))))
				if !ok && !first {
					ok = in.cond(rng('0', '9'))
				}
				if !ok {
					return false
				}
			}
			first = false
		}
		return true
	})
}

func (in *Interp) orV(a, b Value) Value { return in.notV(in.andV(in.notV(a), in.notV(b))) }
