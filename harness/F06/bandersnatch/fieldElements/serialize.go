package fieldElements

import (
	"bytes"
	"errors"
	"io"
	"math/bits"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

var zzIOErr = errors.New("designated io error")

// zzReader delivers content[:limit] in chunks, then fails (with EOF if limit is the length of the content).
type zzReader struct {
	content []byte
	pos     int
	limit   int
	chunk   int  // size of the first chunk
	join    bool // the error comes along with the last bytes
	reads   int
}

func (r *zzReader) Read(p []byte) (n int, err error) {
	r.reads++
	if len(p) == 0 {
		return 0, nil
	}
	fail := io.EOF
	if r.limit < len(r.content) {
		fail = zzIOErr
	}
	n = r.limit - r.pos
	if n > len(p) {
		n = len(p)
	}
	if r.pos < r.chunk && n > r.chunk-r.pos {
		n = r.chunk - r.pos
	}
	for i := 0; i < n; i++ {
		p[i] = r.content[r.pos+i]
	}
	r.pos += n
	if n == 0 || r.join && r.pos == r.limit {
		return n, fail
	}
	return n, nil
}

// zzWriter accepts limit bytes.
type zzWriter struct {
	got    []byte
	limit  int
	writes int
}

func (w *zzWriter) Write(p []byte) (n int, err error) {
	w.writes++
	n = len(p)
	if len(w.got)+n > w.limit {
		n = w.limit - len(w.got)
		err = zzIOErr
	}
	w.got = append(w.got, p[:n]...)
	for i := range p { // a writer must not keep p; make sure nobody else does
		p[i] = 0xEE
	}
	return
}

func zzEndian(name string) FieldElementEndianness {
	if zz.Bool(name) {
		return BigEndian
	}
	return LittleEndian
}

// zzAt is byte number i of the encoding of w in the given order.
func zzAt(big bool, w *Uint256, i int) byte {
	if big {
		i = 31 - i
	}
	return byte(w[i/8] >> (8 * uint(i%8)))
}

func zzEnc(big bool, w *Uint256) []byte {
	r := make([]byte, 32)
	for i := range r {
		r[i] = zzAt(big, w, i)
	}
	return r
}

// zzEqBytes compares without branching.
func zzEqBytes(x, y []byte) bool {
	if len(x) != len(y) {
		return false
	}
	var d byte
	for i := range x {
		d |= x[i] ^ y[i]
	}
	return d == 0
}

func zzHeader(name string) (BitHeader, uint8, uint8) {
	l := zz.U8(name)
	zz.Assume(l <= 8)
	b := zz.U8(name)
	zz.Assume(uint16(b) < 1<<l)
	return common.MakeBitHeader(common.PrefixBits(b), l), b, l
}

// zzLess and zzRed do not branch, to keep the number of paths small
func zzLess(x, y *Uint256) bool {
	var b uint64
	for i := range x {
		_, b = bits.Sub64(x[i], y[i], b)
	}
	return b == 1
}

// the modulus, and 2^256 minus it, written out independently
var (
	zzQW = Uint256{0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48}
	zzCW = Uint256{0x00000000ffffffff, 0xac425bfd0001a401, 0xccc627f7f65e27fa, 0x8c1258acd66282b7}
)

// zzRed is x modulo the modulus.
func zzRed(x Uint256) Uint256 {
	for k := 0; k < 2; k++ {
		var s Uint256
		var b uint64
		for i := range s {
			s[i], b = bits.Sub64(x[i], zzQW[i], b)
		}
		for i := range s {
			x[i] = x[i]&-b | s[i]&(b-1)
		}
	}
	return x
}

// ---- the representation of field elements as an abstract bijection (the real one is verified by F03)

var zzTabCan, zzTabRep Uint256

func zzTabTo(z, x *Uint256) {
	zz.Assert(zzLess(x, &zzCW), "x in range")
	zzTabCan = zzRed(*x)
	for i := range z {
		z[i] = zz.Ghost("rep")
	}
	zz.Assume(zzLess(z, &zzCW))
	zzTabRep = *z
}

func zzTabFrom(z, x *Uint256) {
	zz.Assert(*x == zzTabRep, "the representation is used as it was stored")
	*z = zzTabCan
}

func zzStored(n Uint256) (z FieldElement) {
	z.words.ConvertToMontgomeryRepresentation_c(&n)
	return
}

func zzCanonical(z *FieldElement) (n Uint256) {
	n.FromMontgomeryRepresentation_fc(&z.words)
	return
}

func zzBelowQ(name string) Uint256 {
	n := zzU(name)
	zz.Assume(zzLess(&n, &zzQW))
	return n
}

// ---- writing

func zzWriteSpec(n Uint256, write func(w io.Writer, h BitHeader, e FieldElementEndianness) (int, errorconsts.SerializationError), withPrefix bool, read func() Uint256) {
	big := zz.Bool("big")
	e := LittleEndian
	if big {
		e = BigEndian
	}
	var h BitHeader
	var hb, hl uint8
	if withPrefix {
		h, hb, hl = zzHeader("prefix")
	}
	w := &zzWriter{limit: []int{0, 1, 31, 32, 33}[zz.Choice("limit", 5)]}
	written, err := write(w, h, e)
	zz.Assert(read() == n, "the value is not changed")
	zz.Assert(written == len(w.got), "count")
	if n[3]>>(64-hl) != 0 {
		zz.Assert(errors.Is(err, ErrPrefixDoesNotFit), "prefix does not fit")
		zz.Assert(written == 0 && w.writes == 0, "nothing is written")
		d := err.GetData_struct()
		zz.Assert(!d.PartialWrite && d.BytesWritten == 0, "error data")
		zz.Reach("unfit")
		return
	}
	want := n
	want[3] |= uint64(hb) << (64 - hl)
	zz.Assert(zzEqBytes(w.got, zzEnc(big, &want)[:len(w.got)]), "bytes")
	if w.limit < 32 {
		zz.Assert(written == w.limit && errors.Is(err, zzIOErr) && !errors.Is(err, ErrPrefixDoesNotFit), "io error")
		d := err.GetData_struct()
		zz.Assert(d.BytesWritten == written && d.PartialWrite == (written != 0), "error data")
		zz.Reach("io")
		return
	}
	zz.Assert(written == 32 && err == nil, "all is written")
	zz.Reach("ok")
}

//zz:mode=bv bound=all_values,_all_prefixes,_writers_failing_after_0,1,31,32_bytes reach=ok,io,unfit
func ZZ_U256_Serialize() {
	u := zzU("u")
	switch zz.Choice("variant", 2) {
	case 0:
		zzWriteSpec(u, func(w io.Writer, h BitHeader, e FieldElementEndianness) (int, errorconsts.SerializationError) {
			return u.Serialize(w, e)
		}, false, func() Uint256 { return u })
	case 1:
		zzWriteSpec(u, func(w io.Writer, h BitHeader, e FieldElementEndianness) (int, errorconsts.SerializationError) {
			return u.SerializeWithPrefix(w, h, e)
		}, true, func() Uint256 { return u })
	}
}

//zz:mode=bv replace=(*Uint256).FromMontgomeryRepresentation_fc:zzTabFrom,(*Uint256).ConvertToMontgomeryRepresentation_c:zzTabTo bound=all_values,_all_prefixes,_writers_failing_after_0,1,31,32_bytes reach=ok,io,unfit
func ZZ_FE_Serialize() {
	n := zzBelowQ("n")
	x := zzStored(n)
	read := func() Uint256 { return zzCanonical(&x) }
	switch zz.Choice("variant", 4) {
	case 0:
		zzWriteSpec(n, func(w io.Writer, h BitHeader, e FieldElementEndianness) (int, errorconsts.SerializationError) {
			return x.Serialize(w, e)
		}, false, read)
	case 1:
		zzWriteSpec(n, func(w io.Writer, h BitHeader, e FieldElementEndianness) (int, errorconsts.SerializationError) {
			return x.SerializeWithPrefix(w, h, e)
		}, true, read)
	case 2:
		zzWriteSpec(n, func(w io.Writer, h BitHeader, e FieldElementEndianness) (int, errorconsts.SerializationError) {
			return SerializeFieldElement(&x, w, e)
		}, false, read)
	case 3:
		zzWriteSpec(n, func(w io.Writer, h BitHeader, e FieldElementEndianness) (int, errorconsts.SerializationError) {
			return SerializeFieldElementWithPrefix(&x, w, h, e)
		}, true, read)
	}
}

// The variants for buffers and byte slices write the same 32 bytes.
//
//zz:mode=bv bound=all_values,_all_prefixes,_slices_of_up_to_36_bytes reach=buffer,bytes,short,unfit
func ZZ_U256_SerializeSpecial() {
	u := zzU("u")
	u0 := u
	big := zz.Bool("big")
	e := LittleEndian
	if big {
		e = BigEndian
	}
	var h BitHeader
	var hb, hl uint8
	withPrefix := zz.Bool("withPrefix")
	if withPrefix {
		h, hb, hl = zzHeader("prefix")
	}
	unfit := u[3]>>(64-hl) != 0
	want := u
	want[3] |= uint64(hb) << (64 - hl)
	if zz.Bool("buffer") {
		pre := zz.Bytes("pre", 2)
		buf := bytes.NewBuffer(append([]byte(nil), pre...))
		var n int
		var err error
		if withPrefix {
			n, err = zzPlain(u.SerializeWithPrefix_Buffer(buf, h, e))
		} else {
			n, err = zzPlain(u.Serialize_Buffer(buf, e))
		}
		zz.Assert(u == u0, "value unchanged")
		zz.Assert(buf.Len() == 2+n && buf.Bytes()[0] == pre[0] && buf.Bytes()[1] == pre[1], "appends")
		if unfit {
			zz.Assert(n == 0 && errors.Is(err, ErrPrefixDoesNotFit), "prefix does not fit")
			zz.Reach("unfit")
			return
		}
		zz.Assert(n == 32 && err == nil, "all is written")
		for i := 0; i < 32; i++ {
			zz.Assert(buf.Bytes()[2+i] == zzAt(big, &want, i), "bytes")
		}
		zz.Reach("buffer")
		return
	}
	k := []int{0, 1, 8, 31, 32, 36}[zz.Choice("len", 6)]
	out := zz.Bytes("out", 36)
	old := append([]byte(nil), out...)
	var n int
	var err error
	if withPrefix {
		n, err = zzPlain(u.SerializeWithPrefix_Bytes(out[:k], h, e))
	} else {
		n, err = zzPlain(u.Serialize_Bytes(out[:k], e))
	}
	zz.Assert(u == u0, "value unchanged")
	switch {
	case unfit:
		zz.Assert(n == 0 && errors.Is(err, ErrPrefixDoesNotFit), "prefix does not fit")
		zz.Reach("unfit")
	case k < 32:
		zz.Assert(n == 0, "nothing written")
		zz.Assert(errors.Is(err, io.EOF) == (k == 0) && errors.Is(err, io.ErrUnexpectedEOF) == (k != 0), "error for short slices")
		zz.Assert(errors.Is(err, ErrEmptyByteSlice) == (k == 0) && errors.Is(err, ErrTooSmallByteSlice) == (k != 0), "error for short slices")
		zz.Reach("short")
	default:
		zz.Assert(n == 32 && err == nil, "all is written")
		zz.Reach("bytes")
	}
	for i := range out {
		if i < n {
			zz.Assert(out[i] == zzAt(big, &want, i), "bytes")
		} else {
			zz.Assert(out[i] == old[i], "the rest is untouched")
		}
	}
}

func zzPlain(n int, err errorconsts.SerializationError) (int, error) {
	if err == nil {
		return n, nil
	}
	d := err.GetData_struct()
	zz.Assert(d.BytesWritten == n && !d.PartialWrite, "error data")
	return n, err
}

// ---- reading

const (
	zzNoPrefix = iota
	zzGetPrefix
	zzExpectPrefix
)

// zzReadSpec checks a reading function; normalize tells whether the value has to be below the modulus.
// put stores a value to be overwritten, read gets it.
func zzReadSpec(full bool, kind int, field bool, old Uint256, put func(Uint256), get func() Uint256,
	do func(r io.Reader, e FieldElementEndianness, l uint8, h BitHeader) (int, common.PrefixBits, errorconsts.DeserializationError)) {
	big := zz.Bool("big")
	e := LittleEndian
	if big {
		e = BigEndian
	}
	n := zzU("n") // the number that is encoded in the input, with prefix
	content := zz.Bytes("rest", 34)
	for i := 0; i < 32; i++ {
		content[i] = zzAt(big, &n, i)
	}
	r := &zzReader{}
	var eof bool
	if full {
		// end of file after 0, 1, 31, 32 or 34 bytes; or an error after this many
		r.limit = []int{0, 1, 31, 32, 34}[zz.Choice("limit", 5)]
		chunk := zz.Choice("chunk", 3)
		r.chunk, r.join = []int{0, 1, 20}[chunk], chunk == 1
		eof = zz.Bool("eof")
		zz.Assume(eof || r.limit < 34)
	} else {
		c := [...]struct {
			limit, chunk int
			eof, join    bool
		}{{0, 0, true, false}, {0, 0, false, false}, {1, 0, true, false}, {1, 1, false, true}, {31, 20, false, false},
			{31, 1, true, true}, {32, 20, true, true}, {32, 0, false, false}, {34, 1, true, false}}[zz.Choice("scenario", 9)]
		r.limit, r.chunk, r.join, eof = c.limit, c.chunk, c.join, c.eof
	}
	r.content = content
	if eof {
		r.content = content[:r.limit]
	}
	var h BitHeader
	var hb, l uint8
	switch kind {
	case zzGetPrefix:
		l = zz.U8("prefixlen")
	case zzExpectPrefix:
		h, hb, l = zzHeader("prefix")
	}
	put(old)
	k, prefix, err := do(r, e, l, h)
	now := get()
	data := func(k int) {
		d := err.GetData_struct()
		zz.Assert(d.BytesRead == k && d.PartialRead == (k != 0 && k != 32) && len(d.ActuallyRead) == k, "error data")
		zz.Assert(zzEqBytes(d.ActuallyRead, content[:k]), "data actually read")
		m := errorsWithData.GetData_map(err)
		zz.Assert(m["BytesRead"] == k && m["PartialRead"] == d.PartialRead, "error data by name")
	}
	if l > 8 {
		zz.Assert(errors.Is(err, ErrPrefixLengthInvalid) && k == 0 && r.reads == 0 && now == old, "prefix length")
		d := err.GetData_struct()
		zz.Assert(d.BytesRead == 0 && !d.PartialRead && d.ActuallyRead == nil, "error data")
		zz.Reach("length")
		return
	}
	zz.Assert(k == r.pos, "count")
	rest := n
	top := uint8(n[3] >> (64 - l))
	rest[3] &= 1<<(64-l) - 1
	if kind == zzExpectPrefix && top != hb && (r.limit >= 32 || big && r.limit > 0 && k == 1) {
		zz.Assert(now == old, "untouched on mismatch")
		zz.Assert(errors.Is(err, ErrPrefixMismatch) && !errors.Is(err, ErrNonNormalizedDeserialization), "mismatch")
		zz.Assert(k == 32 || big && k >= 1, "read the prefix")
		data(k)
		zz.Reach("mismatch")
		return
	}
	if r.limit < 32 {
		zz.Assert(now == old, "untouched on io errors")
		zz.Assert(k == r.limit, "everything available is read")
		zz.Assert(errors.Is(err, io.EOF) == (eof && k == 0) && errors.Is(err, io.ErrUnexpectedEOF) == (eof && k != 0) && errors.Is(err, zzIOErr) == !eof, "io error")
		zz.Assert(!errors.Is(err, ErrPrefixMismatch) && !errors.Is(err, ErrNonNormalizedDeserialization), "only the io error")
		data(k)
		zz.Reach("io")
		return
	}
	zz.Assert(k == 32, "32 bytes are read")
	if kind == zzGetPrefix {
		zz.Assert(prefix == common.PrefixBits(top), "prefix")
	}
	if field {
		zz.Assert(now == zzRed(rest), "value modulo the modulus")
		if !zzLess(&rest, &zzQW) {
			zz.Assert(errors.Is(err, ErrNonNormalizedDeserialization), "not the smallest representative")
			data(32)
			zz.Reach("nonnormal")
			return
		}
	} else {
		zz.Assert(now == rest, "value")
	}
	zz.Assert(err == nil, "no error")
	zz.Reach("ok")
}

//zz:mode=bv bound=all_contents,_all_prefixes_and_prefix_lengths,_readers_failing_after_0,1,31,32_bytes_with_chunks reach=ok,io
func ZZ_U256_Deserialize() {
	var z Uint256
	zzReadSpec(true, zzNoPrefix, false, zzU("old"), func(u Uint256) { z = u }, func() Uint256 { return z },
		func(r io.Reader, e FieldElementEndianness, l uint8, h BitHeader) (int, common.PrefixBits, errorconsts.DeserializationError) {
			k, err := z.Deserialize(r, e)
			return k, 0, err
		})
}

//zz:mode=bv bound=all_contents,_all_prefixes_and_prefix_lengths,_readers_failing_after_0,1,31,32_bytes_with_chunks reach=ok,io,length
func ZZ_U256_DeserializeGetPrefix() {
	var z Uint256
	zzReadSpec(true, zzGetPrefix, false, zzU("old"), func(u Uint256) { z = u }, func() Uint256 { return z },
		func(r io.Reader, e FieldElementEndianness, l uint8, h BitHeader) (int, common.PrefixBits, errorconsts.DeserializationError) {
			return z.DeserializeAndGetPrefix(r, l, e)
		})
}

//zz:mode=bv bound=all_contents,_all_prefixes_and_prefix_lengths,_readers_failing_after_0,1,31,32_bytes_with_chunks reach=ok,io,mismatch
func ZZ_U256_DeserializeExpectPrefix() {
	var z Uint256
	zzReadSpec(true, zzExpectPrefix, false, zzU("old"), func(u Uint256) { z = u }, func() Uint256 { return z },
		func(r io.Reader, e FieldElementEndianness, l uint8, h BitHeader) (int, common.PrefixBits, errorconsts.DeserializationError) {
			k, err := z.DeserializeWithExpectedPrefix(r, h, e)
			return k, 0, err
		})
}

func zzReadFE(full bool, kind int, do func(z *FieldElement, r io.Reader, e FieldElementEndianness, l uint8, h BitHeader) (int, common.PrefixBits, errorconsts.DeserializationError)) {
	var z FieldElement
	zzReadSpec(full, kind, true, zzBelowQ("old"), func(u Uint256) { z = zzStored(u) }, func() Uint256 { return zzCanonical(&z) },
		func(r io.Reader, e FieldElementEndianness, l uint8, h BitHeader) (int, common.PrefixBits, errorconsts.DeserializationError) {
			return do(&z, r, e, l, h)
		})
}

func zzFE_Deserialize(full bool) {
	zzReadFE(full, zzNoPrefix, func(z *FieldElement, r io.Reader, e FieldElementEndianness, l uint8, h BitHeader) (int, common.PrefixBits, errorconsts.DeserializationError) {
		if zz.Bool("method") {
			k, err := z.Deserialize(r, e)
			return k, 0, err
		}
		k, err := DeserializeFieldElement(z, r, e)
		return k, 0, err
	})
}

//zz:mode=bv replace=(*Uint256).FromMontgomeryRepresentation_fc:zzTabFrom,(*Uint256).ConvertToMontgomeryRepresentation_c:zzTabTo bound=all_contents,_readers_failing_after_0,1,31,32_bytes,_9_kinds_of_readers reach=ok,io,nonnormal
func ZZ_FE_Deserialize() { zzFE_Deserialize(false) }

//zz:mode=bv tier=thorough replace=(*Uint256).FromMontgomeryRepresentation_fc:zzTabFrom,(*Uint256).ConvertToMontgomeryRepresentation_c:zzTabTo bound=all_contents,_readers_failing_after_0,1,31,32_bytes_with_chunks reach=ok,io,nonnormal
func ZZ_FE_DeserializeFull() { zzFE_Deserialize(true) }

func zzFE_DeserializeGetPrefix(full bool) {
	zzReadFE(full, zzGetPrefix, func(z *FieldElement, r io.Reader, e FieldElementEndianness, l uint8, h BitHeader) (int, common.PrefixBits, errorconsts.DeserializationError) {
		if zz.Bool("method") {
			return z.DeserializeAndGetPrefix(r, l, e)
		}
		return DeserializeFieldElementAndGetPrefix(z, r, l, e)
	})
}

//zz:mode=bv replace=(*Uint256).FromMontgomeryRepresentation_fc:zzTabFrom,(*Uint256).ConvertToMontgomeryRepresentation_c:zzTabTo bound=all_contents,_all_prefix_lengths,_readers_failing_after_0,1,31,32_bytes,_9_kinds_of_readers reach=ok,io,nonnormal,length
func ZZ_FE_DeserializeGetPrefix() { zzFE_DeserializeGetPrefix(false) }

//zz:mode=bv tier=thorough replace=(*Uint256).FromMontgomeryRepresentation_fc:zzTabFrom,(*Uint256).ConvertToMontgomeryRepresentation_c:zzTabTo bound=all_contents,_all_prefix_lengths,_readers_failing_after_0,1,31,32_bytes_with_chunks reach=ok,io,nonnormal,length
func ZZ_FE_DeserializeGetPrefixFull() { zzFE_DeserializeGetPrefix(true) }

func zzFE_DeserializeExpectPrefix(full bool) {
	zzReadFE(full, zzExpectPrefix, func(z *FieldElement, r io.Reader, e FieldElementEndianness, l uint8, h BitHeader) (int, common.PrefixBits, errorconsts.DeserializationError) {
		if zz.Bool("method") {
			k, err := z.DeserializeWithExpectedPrefix(r, h, e)
			return k, 0, err
		}
		k, err := DeserializeFieldElementWithExpectedPrefix(z, r, h, e)
		return k, 0, err
	})
}

//zz:mode=bv replace=(*Uint256).FromMontgomeryRepresentation_fc:zzTabFrom,(*Uint256).ConvertToMontgomeryRepresentation_c:zzTabTo bound=all_contents,_all_prefixes,_readers_failing_after_0,1,31,32_bytes,_9_kinds_of_readers reach=ok,io,nonnormal,mismatch
func ZZ_FE_DeserializeExpectPrefix() { zzFE_DeserializeExpectPrefix(false) }

//zz:mode=bv tier=thorough replace=(*Uint256).FromMontgomeryRepresentation_fc:zzTabFrom,(*Uint256).ConvertToMontgomeryRepresentation_c:zzTabTo bound=all_contents,_all_prefixes,_readers_failing_after_0,1,31,32_bytes_with_chunks reach=ok,io,nonnormal,mismatch
func ZZ_FE_DeserializeExpectPrefixFull() { zzFE_DeserializeExpectPrefix(true) }

// The variants for buffers and byte slices read the same value; buffers are advanced, slices are not changed.
//
//zz:mode=bv bound=all_contents,_inputs_of_up_to_34_bytes,_all_prefix_lengths reach=buffer,bytes,short,length
func ZZ_U256_DeserializeSpecial() {
	big := zz.Bool("big")
	e := LittleEndian
	if big {
		e = BigEndian
	}
	n := zzU("n")
	content := zz.Bytes("rest", 34)
	for i := 0; i < 32; i++ {
		content[i] = zzAt(big, &n, i)
	}
	k := []int{0, 1, 31, 32, 34}[zz.Choice("len", 5)]
	in := append([]byte(nil), content[:k]...)
	old := zzU("old")
	z := old
	withPrefix := zz.Bool("withPrefix")
	var l uint8
	if withPrefix {
		l = zz.U8("prefixlen")
	}
	var read int
	var prefix common.PrefixBits
	var err errorconsts.DeserializationError
	buf := bytes.NewBuffer(in)
	useBuf := zz.Bool("buffer")
	call := func() {
		switch {
		case useBuf && withPrefix:
			read, prefix, err = z.DeserializeAndGetPrefix_Buffer(buf, l, e)
		case useBuf:
			read, err = z.Deserialize_Buffer(buf, e)
		case withPrefix:
			read, prefix, err = z.DeserializeAndGetPrefix_Bytes(in, l, e)
		default:
			read, err = z.Deserialize_Bytes(in, e)
		}
	}
	if !useBuf && k < 32 && l <= 8 {
		// too short slices are an error or panic, but the value stays
		p := zz.Panics(call)
		zz.Assert(p || err != nil, "too short slice")
		zz.Assert(z == old, "untouched")
		zz.Reach("short")
		return
	}
	call()
	for i := range in {
		zz.Assert(in[i] == content[i], "input unchanged")
	}
	if l > 8 {
		zz.Assert(errors.Is(err, ErrPrefixLengthInvalid) && read == 0 && z == old && buf.Len() == k, "prefix length")
		zz.Reach("length")
		return
	}
	if k < 32 {
		zz.Assert(z == old && read == k && buf.Len() == 0, "short buffer")
		zz.Assert(errors.Is(err, io.EOF) == (k == 0) && errors.Is(err, io.ErrUnexpectedEOF) == (k != 0), "short buffer")
		zz.Assert(err.GetData_struct().BytesRead == k, "error data")
		zz.Reach("short")
		return
	}
	rest := n
	top := uint8(n[3] >> (64 - l))
	rest[3] &= 1<<(64-l) - 1
	zz.Assert(err == nil && z == rest && prefix == common.PrefixBits(top), "value and prefix")
	zz.Assert(read == 32, "count")
	if useBuf {
		zz.Assert(buf.Len() == k-32, "the buffer is advanced")
		zz.Reach("buffer")
	} else {
		zz.Reach("bytes")
	}
}
