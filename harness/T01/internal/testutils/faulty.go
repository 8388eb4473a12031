package testutils

import (
	"errors"
	"io"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

var zzErr = errors.New("designated")

// Reading: exactly the first min(threshold, len) bytes arrive in order, whatever the sizes of the read calls;
// the designated error comes exactly with the call that asks for more than the threshold allows, and with every later one.
//
//zz:mode=bv bound=contents_of_up_to_5_bytes,_thresholds_0..6,_every_sequence_of_4_reads_of_up_to_4_bytes reach=fault,eof,repeat
func ZZ_FaultyRead() {
	n := zz.Choice("len", 6)
	t := zz.Choice("threshold", 7)
	content := zz.Bytes("content", n)
	keep := string(content)
	fb := NewFaultyBuffer(t, zzErr)
	fb.SetContent(content)
	for i := range content {
		content[i]++ // the buffer holds a copy
	}
	read, faulted := 0, false
	for i := 0; i < 4; i++ {
		k := zz.Choice("size", 5)
		p := zz.Bytes("old", 5)
		old := string(p)
		m, err := fb.Read(p[:k])
		zz.Assert(m >= 0 && m <= k, "count in range")
		for j := 0; j < 5; j++ {
			if j < m {
				zz.Assert(p[j] == keep[read+j], "bytes in order")
			} else {
				zz.Assert(p[j] == old[j], "nothing else written")
			}
		}
		switch {
		case k == 0:
			zz.Assert(m == 0 && err == nil, "empty reads succeed")
		case faulted:
			zz.Assert(m == 0 && errors.Is(err, zzErr), "the fault is permanent")
			zz.Reach("repeat")
		case read+k > t && n >= t: // hits the threshold
			zz.Assert(m == t-read, "reads up to the threshold")
			zz.Assert(errors.Is(err, zzErr), "designated error")
			faulted = true
			zz.Reach("fault")
		case read == n:
			zz.Assert(m == 0 && err == io.EOF, "EOF")
			zz.Reach("eof")
		default:
			want := k
			if n-read < want {
				want = n - read
			}
			zz.Assert(err == nil && m == want, "short of the threshold everything is delivered")
		}
		read += m
		zz.Assert(read <= t, "never more than the threshold")
	}
	zz.Assert(string(fb.Bytes()) == keep[read:], "unread rest")
	fb.Reset()
	zz.Assert(len(fb.Bytes()) == 0, "reset clears")
}

//zz:mode=bv bound=thresholds_0..6,_every_sequence_of_4_writes_of_up_to_4_bytes reach=fault,repeat,reset
func ZZ_FaultyWrite() {
	t := zz.Choice("threshold", 7)
	fb := NewFaultyBuffer(t, zzErr)
	var model []byte
	faulted := false
	for i := 0; i < 4; i++ {
		k := zz.Choice("size", 6)
		if k == 5 {
			fb.Reset()
			model, faulted = nil, false
			zz.Reach("reset")
			continue
		}
		p := zz.Bytes("data", k)
		old := string(p)
		m, err := fb.Write(p)
		zz.Assert(string(p) == old, "input unchanged")
		switch {
		case k == 0:
			zz.Assert(m == 0 && err == nil, "empty writes succeed")
		case faulted:
			zz.Assert(m == 0 && errors.Is(err, zzErr), "the fault is permanent")
			zz.Reach("repeat")
		case len(model)+k > t:
			zz.Assert(m == t-len(model) && errors.Is(err, zzErr), "writes up to the threshold, then fails")
			faulted = true
			zz.Reach("fault")
		default:
			zz.Assert(m == k && err == nil, "short of the threshold everything is written")
		}
		model = append(model, p[:m]...)
		for j := range p {
			p[j]++
		}
		zz.Assert(string(fb.Bytes()) == string(model), "contents")
	}
}

//zz:mode=bv bound=all reach=ok
func ZZ_FaultyInvalid() {
	zz.Assert(zz.Panics(func() { NewFaultyBuffer(int(zz.U8("t")), nil) }), "a designated error is required")
	var fb FaultyBuffer
	b := zz.Bytes("b", zz.Choice("n", 2))
	zz.Assert(zz.Panics(func() { fb.Read(b) }) && zz.Panics(func() { fb.Write(b) }) && zz.Panics(func() { fb.Reset() }) &&
		zz.Panics(func() { fb.SetContent(b) }) && zz.Panics(func() { fb.Bytes() }), "the zero value is invalid")
	zz.Reach("ok")
}

//zz:mode=bv bound=all_subslices_of_arrays_of_length_5 reach=alias,none
func ZZ_SliceAlias() {
	var a, b [5]uint32
	pick := func(name string) ([]uint32, int) {
		which := zz.Choice(name, 3)
		lo := zz.Choice(name+"_lo", 6)
		hi := lo + zz.Choice(name+"_n", 6-lo)
		switch which {
		case 0:
			return a[lo:hi], which
		case 1:
			return b[lo:hi], which
		}
		return nil, which
	}
	x, i := pick("x")
	y, j := pick("y")
	r := CheckSliceAlias(x, y)
	zz.Assert(r == (i == j && i != 2 && cap(x) > 0 && cap(y) > 0), "aliasing exactly for slices with the same backing array")
	zz.Assert(r == CheckSliceAlias(y, x), "symmetric")
	if r {
		zz.Reach("alias")
	} else {
		zz.Reach("none")
	}
}

//zz:mode=bv bound=all_arguments reach=panic,ok
func ZZ_CheckPanic() {
	x, lim := zz.U8("x"), zz.U8("lim")
	calls := 0
	f := func(a uint8, e error) uint8 {
		calls++
		zz.Assert(a == x && e == nil, "arguments are passed on")
		if a > lim {
			panic(zzErr)
		}
		return a
	}
	p, v := CheckPanic2(f, x, nil)
	zz.Assert(calls == 1, "called once")
	zz.Assert(p == (x > lim), "reports exactly the panics")
	if p {
		zz.Assert(v == any(zzErr), "the panic value is returned")
		zz.Reach("panic")
	} else {
		zz.Assert(v == nil, "no panic value")
		zz.Reach("ok")
	}
	zz.Assert(CheckPanic(f, x, nil) == p, "variant without panic value")
	zz.Assert(zz.Panics(func() { CheckPanic(f, x) }) && zz.Panics(func() { CheckPanic(x) }), "wrong use panics")
	zz.Assert(zz.Panics(func() { CheckPanic(func() { panic("reflect: " + string(rune('a'+x%26))) }) }), "reflection errors are passed on")
	q := zz.Panics(func() { Assert(x > lim) })
	zz.Assert(q == !(x > lim), "assertion")
	q = zz.Panics(func() { Assert(x > lim, zzErr) })
	zz.Assert(q == !(x > lim), "assertion with value")
	zz.Assert(zz.Panics(func() { Assert(x > lim, 1, 2) }), "too many arguments")
}

type zzCounter struct{ n uint32 }

func (c *zzCounter) Inc(by uint32) (uint32, bool) { c.n += by; return c.n, by == 0 }
func (c zzCounter) Val() uint32                   { return c.n }

//zz:mode=bv bound=all_arguments reach=ok
func ZZ_CallMethod() {
	c := zzCounter{zz.U32("n")}
	n := c.n
	by := zz.U32("by")
	out := CallMethodByName(&c, "Inc", by)
	zz.Assert(len(out) == 2 && out[0] == any(n+by) && out[1] == any(by == 0), "results")
	zz.Assert(c.n == n+by, "acts on the receiver")
	out = CallMethodByName(c, "Val")
	zz.Assert(len(out) == 1 && out[0] == any(n+by), "value receiver")
	zz.Reach("ok")
}
