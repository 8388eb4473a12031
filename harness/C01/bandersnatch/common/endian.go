package common

import (
	"encoding/binary"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

var zzDefault = DefaultEndian // as initialized

// zzEndian is one of the byte orders; the package's default, which users may change, is one of them, too.
func zzEndian(name string) FieldElementEndianness {
	if zz.Bool("default") {
		DefaultEndian = BigEndian
	} else {
		DefaultEndian = LittleEndian
	}
	if zz.Bool(name) {
		return BigEndian
	}
	return LittleEndian
}

// zzByte is byte number i of the 256-bit value in the given order.
func zzByte(e FieldElementEndianness, w [4]uint64, i int, n int) byte {
	if e.StartsWithMSB() {
		i = n - 1 - i
	}
	return byte(w[i/8] >> (8 * uint(i%8)))
}

func zzWords(name string) (w [4]uint64) {
	for i := range w {
		w[i] = zz.U64(name)
	}
	return
}

// Writing 256 bits: exactly the first 32 bytes are set, to the bytes of the value in the chosen order; shorter slices panic, even with capacity.
//
//zz:mode=bv bound=slice_length<=36,capacity<=40,all_values reach=ok,short
func ZZ_Put256() {
	e := zzEndian("e")
	w := zzWords("w")
	w0 := w
	n := zz.Choice("len", 37)
	extra := 4 * zz.Choice("extracap", 2)
	all := zz.Bytes("old", n+extra)
	old := append([]byte(nil), all...)
	out := all[:n]
	variant := zz.Choice("variant", 2)
	p := zz.Panics(func() {
		if variant == 0 {
			e.PutUint256(out, w)
		} else {
			e.PutUint256_ptr(out, &w)
		}
	})
	zz.Assert(p == (n < 32), "panics exactly for slices shorter than 32 bytes")
	zz.Assert(w == w0, "input unchanged")
	if p {
		for i := range all {
			zz.Assert(all[i] == old[i], "nothing written before the panic")
		}
		zz.Reach("short")
		return
	}
	for i := range all {
		if i < 32 {
			zz.Assert(all[i] == zzByte(e, w0, i, 32), "byte order of the output")
		} else {
			zz.Assert(all[i] == old[i], "bytes after the first 32 untouched")
		}
	}
	zz.Observe("out", all)
	zz.Reach("ok")
}

// The array variant writes the same bytes.
//
//zz:mode=bv bound=all_values
func ZZ_Put256Array() {
	e := zzEndian("e")
	w := zzWords("w")
	w0 := w
	var out [32]byte
	copy(out[:], zz.Bytes("old", 32))
	e.PutUint256_array(&out, &w)
	for i := range out {
		zz.Assert(out[i] == zzByte(e, w0, i, 32), "byte order of the output")
	}
	zz.Assert(w == w0, "input unchanged")
}

// Reading 256 bits inverts writing; only the first 32 bytes matter; shorter slices panic.
//
//zz:mode=bv bound=slice_length<=36,all_values reach=ok,short
func ZZ_Get256() {
	e := zzEndian("e")
	n := zz.Choice("len", 37)
	extra := 4 * zz.Choice("extracap", 2)
	all := zz.Bytes("in", n+extra)
	old := append([]byte(nil), all...)
	in := all[:n]
	r := zzWords("oldresult")
	variant := zz.Choice("variant", 2)
	p := zz.Panics(func() {
		if variant == 0 {
			r = e.Uint256(in)
		} else {
			e.Uint256_indirect(in, &r)
		}
	})
	zz.Assert(p == (n < 32), "panics exactly for slices shorter than 32 bytes")
	for i := range all {
		zz.Assert(all[i] == old[i], "input unchanged")
	}
	if p {
		zz.Reach("short")
		return
	}
	for i := 0; i < 32; i++ {
		zz.Assert(old[i] == zzByte(e, r, i, 32), "byte order of the input")
	}
	zz.Observe("r", r[0], r[1], r[2], r[3])
	zz.Reach("ok")
}

//zz:mode=bv bound=all_values
func ZZ_Get256Array() {
	e := zzEndian("e")
	var in [32]byte
	copy(in[:], zz.Bytes("in", 32))
	old := in
	r := zzWords("oldresult")
	e.Uint256_array(&in, &r)
	for i := 0; i < 32; i++ {
		zz.Assert(old[i] == zzByte(e, r, i, 32), "byte order of the input")
	}
	zz.Assert(in == old, "input unchanged")
	var back [32]byte
	e.PutUint256_array(&back, &r)
	zz.Assert(back == old, "write after read restores the bytes")
}

// 16, 32 and 64 bit values.
//
//zz:mode=bv bound=slice_length<=10,all_values reach=ok
func ZZ_Small() {
	e := zzEndian("e")
	k := 1 << (1 + zz.Choice("size", 3)) // 2,4,8 bytes
	n := zz.Choice("len", 11)
	buf := zz.Bytes("buf", n)
	old := append([]byte(nil), buf...)
	v := zz.U64("v")
	var r uint64
	p := zz.Panics(func() {
		switch k {
		case 2:
			r = uint64(e.Uint16(buf))
		case 4:
			r = uint64(e.Uint32(buf))
		default:
			r = e.Uint64(buf)
		}
	})
	zz.Assert(p == (n < k), "reading panics exactly for too short slices")
	if !p {
		for i := 0; i < k; i++ {
			zz.Assert(old[i] == zzByte(e, [4]uint64{r}, i, k), "byte order of the input")
		}
		if k < 8 {
			zz.Assert(r>>(8*uint(k)) == 0, "value in range")
		}
	}
	p = zz.Panics(func() {
		switch k {
		case 2:
			e.PutUint16(buf, uint16(v))
		case 4:
			e.PutUint32(buf, uint32(v))
		default:
			e.PutUint64(buf, v)
		}
	})
	zz.Assert(p == (n < k), "writing panics exactly for too short slices")
	if p {
		return
	}
	for i := range buf {
		if i < k {
			zz.Assert(buf[i] == zzByte(e, [4]uint64{v}, i, k), "byte order of the output")
		} else {
			zz.Assert(buf[i] == old[i], "rest untouched")
		}
	}
	zz.Reach("ok")
}

type zzOtherOrder struct{ binary.ByteOrder }

// Choosing the order: exactly the two standard orders and values of the type itself are accepted.
//
//zz:mode=bv bound=4_kinds_of_argument reach=panic
func ZZ_SetEndianness() {
	e := zzEndian("e")
	before := e
	k := zz.Choice("arg", 5)
	f := zzEndian("f")
	p := zz.Panics(func() {
		switch k {
		case 0:
			e.SetEndianness(binary.LittleEndian)
		case 1:
			e.SetEndianness(binary.BigEndian)
		case 2:
			e.SetEndianness(f)
		case 3:
			e.SetEndianness(zzOtherOrder{binary.BigEndian})
		case 4:
			e.SetEndianness(nil)
		}
	})
	zz.Assert(p == (k >= 3), "only the two standard orders are accepted")
	switch k {
	case 0:
		zz.Assert(!e.StartsWithMSB() && e == LittleEndian && e.String() == "LittleEndian", "little endian chosen")
	case 1:
		zz.Assert(e.StartsWithMSB() && e == BigEndian && e.String() == "BigEndian", "big endian chosen")
	case 2:
		zz.Assert(e == f && e.StartsWithMSB() == f.StartsWithMSB(), "copied")
	default:
		zz.Assert(e == before, "unchanged after a panic")
		zz.Reach("panic")
	}
	zz.Assert(e.GetEndianness() == e, "getter is the identity")
	var zero FieldElementEndianness
	zz.Assert(!zzDefault.StartsWithMSB() && zero == zzDefault, "default is little endian")
}
