package errorTransform

import (
	"errors"
	"fmt"
	"io"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

var zzOtherErr = errors.New("other")

// zzBoth is two errors at once.
type zzBoth struct{}

func (zzBoth) Error() string   { return "both" }
func (zzBoth) Unwrap() []error { return []error{zzOtherErr, io.EOF} }

func zzRoot() (err error, eof bool) {
	switch zz.Choice("root", 5) {
	case 0:
		return io.EOF, true
	case 1:
		return io.ErrUnexpectedEOF, false
	case 2:
		return zzOtherErr, false
	case 3:
		return zzBoth{}, true
	default:
		return io.ErrShortWrite, false
	}
}

// zzWrap adds up to two layers to err and the data of these to data.
func zzWrap(err error, data map[string]any, layers int) error {
	for i := 0; i < layers; i++ {
		switch zz.Choice("layer", 5) {
		case 0:
			return err
		case 1:
			err = fmt.Errorf("wrapped: %w", err)
		case 2:
			v := zz.U64("v")
			err = errorsWithData.NewErrorWithData_any_params(err, "", errorsWithData.ReplacePreviousData, "X", v)
			data["X"] = v
		case 3:
			v, w := zz.U64("v"), zz.Bool("w")
			err = errorsWithData.NewErrorWithData_any_params(err, "", errorsWithData.ReplacePreviousData, "BytesRead", int(v>>1), "X", w)
			data["BytesRead"], data["X"] = int(v>>1), w
		case 4:
			err = errorsWithData.NewErrorWithData_any_params(err, "a message", errorsWithData.ReplacePreviousData, "Y", nil)
			data["Y"] = nil
		}
	}
	return err
}

func zzSameData(err error, data map[string]any) {
	m := errorsWithData.GetData_map(err)
	zz.Assert(len(m) == len(data), "no data is added or lost")
	for k, v := range data {
		w, ok := m[k]
		zz.Assert(ok && w == v, "the data are kept")
	}
}

func zzOutcome(old, err error, eof bool, data map[string]any) {
	if !eof {
		zz.Assert(err == old, "other errors are left alone")
		zzSameData(err, data)
		zz.Reach("other")
		return
	}
	zz.Assert(errors.Is(err, io.ErrUnexpectedEOF), "the end of file becomes unexpected")
	zz.Assert(!errors.Is(err, io.EOF), "it is no longer an expected end of file")
	zzSameData(err, data)
	zz.Assert(errors.Is(old, io.EOF), "the old error is left alone")
	zzSameData(old, data)
	zz.Assert(err.Error() != "", "there is a message")
	zz.Reach("eof")
}

// UnexpectEOF turns io.EOF, wrapped or not, into io.ErrUnexpectedEOF and keeps the data.
//
//zz:mode=bv bound=5_kinds_of_errors_(nil_besides),_up_to_3_layers_with_and_without_data reach=nil,other,eof
func ZZ_UnexpectEOF() {
	if zz.Bool("nil") {
		var err error
		UnexpectEOF(&err)
		zz.Assert(err == nil, "no error stays none")
		zz.Reach("nil")
		return
	}
	err, eof := zzRoot()
	data := map[string]any{}
	err = zzWrap(err, data, 3)
	old := err
	UnexpectEOF(&err)
	zzOutcome(old, err, eof, data)
}

// The same for errors with data of a given type.
//
//zz:mode=bv bound=5_kinds_of_errors_(nil_besides),_up_to_2_layers_with_and_without_data_and_the_typed_one reach=nil,other,eof
func ZZ_UnexpectEOF2() {
	if zz.Bool("nil") {
		var err errorsWithData.ErrorWithData[ReadErrorData]
		UnexpectEOF2(&err)
		zz.Assert(err == nil, "no error stays none")
		zz.Reach("nil")
		return
	}
	base, eof := zzRoot()
	data := map[string]any{}
	base = zzWrap(base, data, 2)
	n, p := int(zz.U64("n")>>1), zz.Bool("p")
	typed := errorsWithData.NewErrorWithData_struct[WriteErrorData](base, "", &WriteErrorData{PartialWrite: p, BytesWritten: n}, errorsWithData.ReplacePreviousData)
	data["PartialWrite"], data["BytesWritten"] = p, n
	err := typed
	UnexpectEOF2(&err)
	zzOutcome(typed, err, eof, data)
	s := err.GetData_struct()
	zz.Assert(s.PartialWrite == p && s.BytesWritten == n, "the typed data are kept")
}
