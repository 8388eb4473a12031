package errorsWithData

import (
	"fmt"
)

// zzRef is an independent reading of the interpolation language as documented in the package comment:
// it recognises the language and renders it in one pass over the bytes.
type zzRef struct {
	s       string
	i       int
	direct  map[string]any // parameters of the error itself, for %
	passed  map[string]any // parameters passed along, for $
	base    error
	spec    *zzSpec // describes base, if that is an error with data
	subsyn  bool    // an error whose message is needed has a syntax error
	perr    bool // not in the language
	serr    bool // in the language except for a name, a format verb or a condition
	missing bool // an active part cannot be rendered
	mdirect bool // ... and this part does not depend on the passed parameters
	dollarW bool // an active $w
	pctW    bool // an active %w
	dcond   bool // a $!cond
	out     string
}

func (r *zzRef) at(k int) byte {
	if r.i+k < len(r.s) {
		return r.s[r.i+k]
	}
	return 0
}

// lit reads one literal unit (an escape or an ordinary character).
func (r *zzRef) lit() (string, bool) {
	if r.i >= len(r.s) {
		return "", false
	}
	c, d := r.at(0), r.at(1)
	switch c {
	case '\\':
		if d == '%' || d == '$' || d == '{' || d == '}' || d == '\\' {
			r.i += 2
			return string([]byte{d}), true
		}
		r.i++
		return "\\", true
	case '%':
		if d == '%' {
			r.i += 2
			return "%", true
		}
		return "", false
	case '$', '{', '}':
		return "", false
	}
	r.i++
	return string([]byte{c}), true
}

func (r *zzRef) word() string {
	w := ""
	for {
		l, ok := r.lit()
		if !ok {
			return w
		}
		w += l
	}
}

func zzHasPercent(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			return true
		}
	}
	return false
}

func zzSelector(s string) bool {
	return s == "!m" || s == "!map" || s == "!parameters" || s == "!params"
}

func zzExported(s string) bool {
	if s == "" || s[0] < 'A' || s[0] > 'Z' {
		return false
	}
	for i := 1; i < len(s); i++ {
		c := s[i]
		if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c >= 0x80) { // the only non-ASCII characters used are letters
			return false
		}
	}
	return true
}

func (r *zzRef) emit(on bool, s string) {
	if on {
		r.out += s
	}
}

// seq reads a sequence; on says whether its output is wanted.
func (r *zzRef) seq(depth int, on bool) {
	for !r.perr {
		if l, ok := r.lit(); ok {
			r.emit(on, l)
			continue
		}
		if r.i >= len(r.s) {
			r.perr = depth > 0
			return
		}
		c, d := r.at(0), r.at(1)
		if c == '{' {
			r.perr = true
			return
		}
		if c == '}' {
			r.i++
			r.perr = depth == 0
			return
		}
		if d == 'w' {
			r.i += 2
			r.parent(c, on)
			continue
		}
		params := r.direct
		if c == '$' {
			params = r.passed
		}
		if d == '!' {
			r.i += 2
			cond := r.word()
			if cond == "" || r.at(0) != '{' {
				r.perr = true
				return
			}
			r.i++
			take := false
			switch cond {
			case "m=0":
				take = len(params) == 0
			case "m>0":
				take = len(params) > 0
			default:
				r.serr = true
			}
			if c == '$' {
				r.dcond = true
			}
			r.seq(depth+1, on && take)
			continue
		}
		r.i++
		verb := r.word()
		if r.at(0) != '{' {
			r.perr = true
			return
		}
		r.i++
		name := r.word()
		if name == "" || r.at(0) != '}' {
			r.perr = true
			return
		}
		r.i++
		if zzHasPercent(verb) || !zzSelector(name) && !zzExported(name) {
			r.serr = true
			continue
		}
		if verb == "" {
			verb = "v"
		}
		if zzSelector(name) {
			r.emit(on, fmt.Sprintf("%"+verb, params))
			continue
		}
		v, ok := params[name]
		if ok {
			r.emit(on, fmt.Sprintf("%"+verb, v))
		} else if on {
			r.missing = true
			if c == '%' {
				r.mdirect = true
			}
		}
	}
}

func (r *zzRef) parent(c byte, on bool) {
	if !on {
		return
	}
	if c == '%' {
		r.pctW = true
	} else {
		r.dollarW = true
	}
	if b := r.spec; b != nil {
		n := zzRef{s: b.s, direct: b.params, passed: r.passed, base: b.base, spec: b.spec}
		if c == '%' {
			n.passed = b.params
		}
		n.seq(0, true)
		r.out += n.out
		if n.perr || n.serr || n.subsyn {
			r.subsyn = true
		}
		r.missing = r.missing || n.missing
		r.mdirect = r.mdirect || n.mdirect || c == '%' && n.missing
		r.dcond = r.dcond || c == '$' && n.dcond
		return
	}
	if r.base == nil {
		r.missing, r.mdirect = true, true
		return
	}
	if c == '$' {
		r.missing, r.mdirect = true, true
		return
	}
	r.out += r.base.Error()
}

// zzSpec is what the reference knows about an error created by this package.
type zzSpec struct {
	s      string
	params map[string]any
	base   error
	spec   *zzSpec // the same for the base, if it is an error with data
}

func zzContains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// zzBase is an error without any data.
type zzBase struct{ msg string }

func (b *zzBase) Error() string { return b.msg }
