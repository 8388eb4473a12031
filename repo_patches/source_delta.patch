From 66a013ae99a202811eac28b479a0aa22f105a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 01/20] fix: adapt callers to the current errorsWithData
 constructor signatures so that fieldElements and curvePoints compile

---
 .../bandersnatchErrors/serializer_errors.go         |  2 +-
 bandersnatch/curvePoints/serializer_curve_field.go  | 12 ++++++------
 bandersnatch/errorsWithData/plainErrorWithParams.go | 13 +++++++++++++
 bandersnatch/fieldElements/errors.go                |  4 ++--
 bandersnatch/fieldElements/field_element_bigInt.go  |  4 ++--
 .../fieldElements/field_element_montgomery.go       |  4 ++--
 internal/errorTransform/error_transform.go          |  4 ++--
 internal/errorTransform/serializer_errors.go        |  2 +-
 8 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/bandersnatch/bandersnatchErrors/serializer_errors.go b/bandersnatch/bandersnatchErrors/serializer_errors.go
index 59b0aa6..79ddbc9 100644
--- a/bandersnatch/bandersnatchErrors/serializer_errors.go
+++ b/bandersnatch/bandersnatchErrors/serializer_errors.go
@@ -94,5 +94,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 9046265..2c13aca 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -95,10 +95,10 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 			// The type of error depends on whether denom is a square or not.
 			num.DivideEq(&denom)
 			if y.SquareRoot(&num) {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 
 			} else {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 				y.SetZero() // not needed, but we like being explicit.
 			}
 			return
@@ -107,7 +107,7 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 	}
 	num.DivideEq(&denom) // (1-ax^2)/(1-dx^2). Note that 1-dx^2 cannot be 0, as d is a non-square.
 	if !y.SquareRoot(&num) {
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 		return
 	}
 	err = nil // err is nil at this point anyway, but we prefer to be explicit.
@@ -270,7 +270,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	point.y, errWithX = recoverYFromXAffine(x, false)
 
 	if errWithX != nil {
-		err = errorsWithData.AddDataToError_params[retData](errWithX, "%w", "SignY", signY)
+		err = errorsWithData.AddDataToError_params[retData](errWithX, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignY", signY)
 		// On trusted input, we panic on error.
 		if trustLevel.Bool() {
 			panic(fmt.Errorf(ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full encountered error on trusted input. Error was %w", err))
@@ -429,7 +429,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	point.x, errFromRecoverX = recoverXFromYAffine(y)
 	if errFromRecoverX != nil {
 		err = errorsWithData.NewErrorWithData_params[errData](errFromRecoverX, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromYAndSignX_full: %w, signX = %v{SignX}",
-			"SignX", signX)
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignX", signX)
 		if trustLevel.Bool() {
 			panic(err)
 		}
@@ -514,7 +514,7 @@ func CurvePointFromXTimesSignY_subgroup(xSignY *FieldElement, trustLevel IsInput
 	point.y, err = recoverYFromXAffine(xSignY, !trustLevel.Bool())
 	if err != nil {
 		// update error message.
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|")
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 		point = Point_axtw_subgroup{}
 		if trustLevel.Bool() {
 			panic(err)
diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index b8bf691..00b59c7 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -86,6 +86,19 @@ func (e *errorWithParameters_common) Unwrap() error {
 	return e.wrapped_error
 }
 
+// Is allows errors.Is to compare against the boxed (incomparable) version of e.
+func (e *errorWithParameters_common) Is(target error) bool {
+	return error(e) == UnboxError(target)
+}
+
+// Is allows errors.Is to compare against the boxed (incomparable) version of e.
+func (e *errorWithParameters_T[StructType]) Is(target error) bool {
+	return error(e) == UnboxError(target)
+}
+
+// CanMakeIncomparable marks e as usable with [MakeErrorIncomparable].
+func (e *errorWithParameters_common) CanMakeIncomparable() {}
+
 // GetData_struct is provided to satisfy ErrorWithParameters[StructType].
 //
 // It constructs a value of type StructType from the provided parameters.
diff --git a/bandersnatch/fieldElements/errors.go b/bandersnatch/fieldElements/errors.go
index 6f9ac01..47427f0 100644
--- a/bandersnatch/fieldElements/errors.go
+++ b/bandersnatch/fieldElements/errors.go
@@ -39,9 +39,9 @@ var ErrDivisionByZero = errors.New(ErrorPrefix + "division by zero")
 // These are the errors that can occur during (de)serialization.
 var (
 	errPrefixDoesNotFit                   = errorsWithData.NewErrorWithData_struct(nil, ErrorPrefix+"while trying to serialize a field element with a prefix, the prefix did not fit, because the number was too large", &errorconsts.NoWriteAttempt)
-	ErrPrefixDoesNotFit                   = errorsWithData.MakeErrorIncomparable(errPrefixDoesNotFit)
+	ErrPrefixDoesNotFit                   = errorsWithData.MakeErrorIncomparable(errPrefixDoesNotFit.(errorsWithData.IncomparableMaker))
 	errPrefixLengthInvalid                = errorsWithData.NewErrorWithData_struct(nil, ErrorPrefix+"in FieldElement deserializitation, an invalid prefix length > 8 was requested", &errorconsts.NoWriteAttempt)
-	ErrPrefixLengthInvalid                = errorsWithData.MakeErrorIncomparable(errPrefixLengthInvalid)
+	ErrPrefixLengthInvalid                = errorsWithData.MakeErrorIncomparable(errPrefixLengthInvalid.(errorsWithData.IncomparableMaker))
 	ErrPrefixMismatch               error = errors.New(ErrorPrefix + "during deserialization, the read prefix did not match the expected one")
 	ErrNonNormalizedDeserialization error = errors.New(ErrorPrefix + "during FieldElement deserialization, the read number was not the minimal representative modulo BaseFieldSize")
 )
diff --git a/bandersnatch/fieldElements/field_element_bigInt.go b/bandersnatch/fieldElements/field_element_bigInt.go
index 303fabe..aa763de 100644
--- a/bandersnatch/fieldElements/field_element_bigInt.go
+++ b/bandersnatch/fieldElements/field_element_bigInt.go
@@ -136,7 +136,7 @@ func (z *bsFieldElement_BigInt) SetInt64(x int64) {
 func (z *bsFieldElement_BigInt) ToUint64() (uint64, error) {
 	zInt := z.ToBigInt()
 	if !zInt.IsUint64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	}
 	return zInt.Uint64(), nil
 }
@@ -153,7 +153,7 @@ func (z *bsFieldElement_BigInt) ToInt64() (int64, error) {
 		zInt.Neg(zInt)
 	}
 	if !zInt.IsInt64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	} else {
 		return zInt.Int64(), nil
 	}
diff --git a/bandersnatch/fieldElements/field_element_montgomery.go b/bandersnatch/fieldElements/field_element_montgomery.go
index b2cdc67..117511e 100644
--- a/bandersnatch/fieldElements/field_element_montgomery.go
+++ b/bandersnatch/fieldElements/field_element_montgomery.go
@@ -254,7 +254,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToUint64() (result uint64, err erro
 	result = temp[0]
 	if (temp[1] | temp[2] | temp[3]) != 0 {
 		// err = ErrCannotRepresentAsUint64
-		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", "FieldElement", *z)
+		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 		result = 0
 	}
 	return
@@ -317,7 +317,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToInt64() (result int64, err error)
 		return
 	}
 	zCopy := *z // to avoid z escaping to the heap. Now only zCopy escapes, but this is only allocated conditionally in the first place.
-	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", zCopy)
+	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", zCopy)
 
 	result = 0 // no-op, but stated for clarity.
 	return
diff --git a/internal/errorTransform/error_transform.go b/internal/errorTransform/error_transform.go
index b37f565..39a8b64 100644
--- a/internal/errorTransform/error_transform.go
+++ b/internal/errorTransform/error_transform.go
@@ -23,7 +23,7 @@ func UnexpectEOF(errPtr *error) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
 		if len(m) > 0 {
-			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", m)
+			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, m)
 		} else {
 			*errPtr = io.ErrUnexpectedEOF
 		}
@@ -34,6 +34,6 @@ func UnexpectEOF(errPtr *error) {
 func UnexpectEOF2[StructType any](errPtr *errorsWithData.ErrorWithData[StructType]) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
-		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", m)
+		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, m)
 	}
 }
diff --git a/internal/errorTransform/serializer_errors.go b/internal/errorTransform/serializer_errors.go
index 23d260b..f10016f 100644
--- a/internal/errorTransform/serializer_errors.go
+++ b/internal/errorTransform/serializer_errors.go
@@ -83,5 +83,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
-- 
2.43.0


From b9905e01d1fffc09206ce7212a4f3db2e0b330d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 02/20] fix: Exponent.Neg must negate its argument, not the
 receiver

---
 bandersnatch/exponents/exponents.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index d6ddcbc..8f68c71 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -227,10 +227,10 @@ func (z *Exponent) Neg(x *Exponent) {
 		return
 	}
 	var borrow uint64
-	z.value[0], borrow = bits.Sub64(curveExponent_0, z.value[0], 0)
-	z.value[1], borrow = bits.Sub64(curveExponent_1, z.value[1], borrow)
-	z.value[2], borrow = bits.Sub64(curveExponent_2, z.value[2], borrow)
-	z.value[3], _ = bits.Sub64(curveExponent_3, z.value[3], borrow)
+	z.value[0], borrow = bits.Sub64(curveExponent_0, x.value[0], 0)
+	z.value[1], borrow = bits.Sub64(curveExponent_1, x.value[1], borrow)
+	z.value[2], borrow = bits.Sub64(curveExponent_2, x.value[2], borrow)
+	z.value[3], _ = bits.Sub64(curveExponent_3, x.value[3], borrow)
 }
 
 // SetZero sets the exponent value to 0
-- 
2.43.0


From 11ab4dca4d0d43be1d1ad40cf570c4f176d7d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 03/20] fix: Exponent.ModuloP253 must subtract p253 from the
 exponent, not the exponent from p253

---
 bandersnatch/exponents/exponents.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index 8f68c71..f22d3fd 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -55,7 +55,7 @@ func (z *Exponent) ModuloP253() (ret Exponent) {
 	if z.isNormalized_Subgroup() {
 		ret = *z
 	} else {
-		ret.Sub(&p253Exponent, z)
+		ret.Sub(z, &p253Exponent)
 	}
 	return
 }
-- 
2.43.0


From 43497514be000d3d3d95a11671dcd96de02c2b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 04/20] fix: FaultyBuffer.Read must not report the designated
 error before the threshold is reached

---
 internal/testutils/failingIO.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/testutils/failingIO.go b/internal/testutils/failingIO.go
index 085d897..aa440eb 100644
--- a/internal/testutils/failingIO.go
+++ b/internal/testutils/failingIO.go
@@ -49,7 +49,7 @@ func (fb *FaultyBuffer) Read(p []byte) (n int, err error) {
 	if err != nil {
 		return
 	}
-	if fault {
+	if fault && fb.alreadyRead == fb.faultThreshold {
 		err = fb.designatedErr
 		fb.alreadyRead += 1 // to differentiate repeated calls
 	}
-- 
2.43.0


From d27f31680576a63ee69a0644d32dd0fa84943213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 05/20] fix: callcounters Id.Get on an unknown id reports
 ok=false instead of dereferencing nil

---
 internal/callcounters/callcounters.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index a050604..a845bb5 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -499,6 +499,9 @@ func (id Id) Get() (ret int, ok bool) {
 	}
 	correctDependencies()
 	cc, ok := callCounters[id]
+	if !ok {
+		return 0, false
+	}
 	ret = cc.count_modified
 	return
 }
-- 
2.43.0


From 0588d21c6d17b58a31c368098a58958f44a10d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 06/20] fix: errorsWithData: unwind all open conditionals on a
 parse error

The loop bound was re-evaluated while the stack shrank, so only half of the
open %!cond{ / $!cond{ pairs were popped and a parse error inside two or more
nested conditionals panicked instead of being reported.
---
 bandersnatch/errorsWithData/formatting_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_parse.go b/bandersnatch/errorsWithData/formatting_parse.go
index d5fe6c7..a79913e 100644
--- a/bandersnatch/errorsWithData/formatting_parse.go
+++ b/bandersnatch/errorsWithData/formatting_parse.go
@@ -777,7 +777,7 @@ func make_ast(tokens tokenList) (ret ast_root, err error) {
 		// nodes of types ast_condPercent and ast_condDollar and causes
 		// the condition to be ignored, so the conditional interpolation is always evaluated.
 		// This is mostly to ensure that diagnostic is not hidden.
-		for i := 0; i < (stack.Len()/2)-1; i++ {
+		for stack.Len() > 2 {
 			_ = stack.Pop().(ast_list)
 			condNode := stack.Pop().(ast_cond)
 			condition := condNode.get_condition()
-- 
2.43.0


From 4fdad88b6c4dd5cff4683041981dda033b2404b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 07/20] fix: errorsWithData: check syntax inside conditionals

handleSyntaxConditions did not descend into the body of %!cond{...} and
$!cond{...}. Invalid names, format verbs or conditions in there went
unreported, and a nested invalid condition made Error() panic.
---
 bandersnatch/errorsWithData/formatting_interpolate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index d4fcbfc..62aadf1 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -203,13 +203,15 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 // and ensures that errors are handled correctly later.
 //
 // For ast_cond, we just flag the conditional as invalid on failure.
+// The sub-tree is processed in either case; an error with the condition itself comes first.
 func (abase *base_ast_condition) handleSyntaxConditions() error {
+	childError := abase.child.handleSyntaxConditions()
 	if !validConditionString(abase.condition) {
 		// make_invalid(3) causes Interpolate to display children unconditionally && display an error message containing the condition.
 		abase.make_invalid(3)
 		return fmt.Errorf(ErrorPrefix+"invalid condition string: %s", abase.condition)
 	} else {
-		return nil
+		return childError
 	}
 }
 
-- 
2.43.0


From 68bea254f8d8d60b36d4c5d628b9a646d58068b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 08/20] fix: errorsWithData: message for a format verb
 containing %

The format verb was appended to the format string rather than passed as an
argument.
---
 bandersnatch/errorsWithData/formatting_interpolate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 62aadf1..8298816 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -178,7 +178,7 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 	}
 
 	if strings.ContainsRune(abase.formatString, '%') {
-		abase.errorString = fmt.Errorf(`<!Format Verb %s for %s contains %%>`+abase.formatString, abase.variableName)
+		abase.errorString = fmt.Errorf(`<!Format Verb %s for %s contains %%>`, abase.formatString, abase.variableName)
 		return fmt.Errorf(ErrorPrefix+`Interpolation string contains a format string verb %s, which contains  '%%'. This will not work with the fmt package`, abase.formatString)
 	}
 
-- 
2.43.0


From a747f526b02df212ef175b8e217cb515e740b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 09/20] fix: errorsWithData: validation accepts the map
 selectors

ValidateError_Final, _Base and _Params reported %{!m} etc. as a missing
parameter although Error() prints the parameter map as documented.
---
 .../errorsWithData/formatting_interpolate.go   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 8298816..0f33c42 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -346,11 +346,19 @@ func (a ast_string) VerifyParameters_passed(ParamMap, ParamMap, error) error {
 	return nil
 }
 
+// is_present reports whether the variable can be looked up in the given parameters. The map selectors such as !m denote the map itself, so they always can.
+func (a *base_ast_fmt) is_present(parameters_relevant ParamMap) bool {
+	if utils.ElementInList(a.variableName, validMapSelectors[:]) {
+		return true
+	}
+	_, ok := parameters_relevant[a.variableName]
+	return ok
+}
+
 // VerifyParameters_direct for %fmtVerb{variableName} checks whether the paramter is present.
 func (a ast_fmtPercent) VerifyParameters_direct(parameters_direct ParamMap, _ error) (err error) {
 
-	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !a.is_present(parameters_direct) {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -360,8 +368,7 @@ func (a ast_fmtPercent) VerifyParameters_direct(parameters_direct ParamMap, _ er
 func (a ast_fmtPercent) VerifyParameters_passed(parameters_direct ParamMap, _ ParamMap, _ error) (err error) {
 
 	// same as VerifyParameters_direct. We ignore the parameters_passed map
-	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !a.is_present(parameters_direct) {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -377,8 +384,7 @@ func (a ast_fmtDollar) VerifyParameters_direct(_ ParamMap, _ error) error {
 // NOTE: we assume that parameters_passed is not nil. This is checked/handled at the root node.
 func (a ast_fmtDollar) VerifyParameters_passed(_ ParamMap, parameters_passed ParamMap, _ error) (err error) {
 
-	_, ok := parameters_passed[a.variableName]
-	if !ok {
+	if !a.is_present(parameters_passed) {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
-- 
2.43.0


From 01f2ff3fdf126ebf40383da7698513bfe3cb0803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 10/20] fix: errorsWithData: ValidateError_Params(nil) uses the
 error's own parameters

It passed nil on, which panicked. This also made ValidateError_Final and
ValidateError_Base panic for every error whose interpolation string contains
%w and which wraps an error with data.
---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index 00b59c7..237d30f 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -264,5 +264,8 @@ func (e *errorWithParameters_common) ValidateError_Base() error {
 //
 // This method is required for [ValidateError_Base] or [ValidateError_Final] to recurse and part of the [ErrorInterpolater] interface.
 func (e *errorWithParameters_common) ValidateError_Params(params_passed ParamMap) error {
+	if params_passed == nil {
+		params_passed = e.params
+	}
 	return e.parsedInterpolationString.VerifyParameters_passed(e.params, params_passed, e.wrapped_error)
 }
-- 
2.43.0


From 0cdd54cbf959ec5fecfb8cee2cc3d38dbc6b12ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:16 +0000
Subject: [PATCH 11/20] fix: Uint256 deserialization from buffers and byte
 slices reports and consumes the bytes read

---
 bandersnatch/fieldElements/uint256_serialize.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index 10f7a31..dd9f6b7 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -210,7 +210,8 @@ func (z *Uint256) Deserialize_Buffer(input *bytes.Buffer, byteOrder FieldElement
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z)) // input.Next advances the buffer, as the general method does
+	bytesRead = 32
 	return
 }
 
@@ -222,6 +223,7 @@ func (z *Uint256) Deserialize_Bytes(input []byte, byteOrder FieldElementEndianne
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	return
 }
 
@@ -285,7 +287,7 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 		return
 	}
 
-	// Optimization: Instead of copying the data into buf, we check for the correct size and then read directly from the underlying wrapped []byte via input.Bytes()
+	// Optimization: Instead of copying the data into buf, we check for the correct size and then read directly from the underlying wrapped []byte via input.Next()
 
 	// check that the input has sufficient size
 	if inputSize := input.Len(); inputSize < 32 {
@@ -295,7 +297,8 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z)) // input.Next advances the buffer, as the general method does
+	bytesRead = 32
 
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
@@ -324,6 +327,7 @@ func (z *Uint256) DeserializeAndGetPrefix_Bytes(input []byte, prefixLength uint8
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
 
-- 
2.43.0


From 7594d4c04597c4d0c56a4e02427502537bf6041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:11 +0000
Subject: [PATCH 12/20] fix: SetFromSubgroupPoint keeps the receiver of type
 xtw unchanged on failure for NaP input

---
 bandersnatch/curvePoints/curve_point_xtw.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index f1aaa40..1730a07 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -1064,7 +1064,6 @@ func (p *point_xtw_base) NegEq() {
 func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP to xtw via SetFromSubgroupPoint", false, input)
-		*p = Point_xtw_subgroup{}
 		return false
 	}
 	if input.CanOnlyRepresentSubgroup() {
@@ -1106,7 +1105,6 @@ func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRe
 func (p *Point_xtw_full) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP point to xtw subgroup point", false, input)
-		*p = Point_xtw_full{}
 		return false
 	}
 	if !trusted.Bool() {
-- 
2.43.0


From 24521faf2fa48a5fc927b3b1a4cca984211d8e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 13/20] fix: error message for invalid sign of Y refers to the
 parameter by its name

---
 bandersnatch/curvePoints/serializer_curve_field.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 2c13aca..626bb20 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -253,7 +253,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
@@ -314,7 +314,7 @@ func CurvePointFromXAndSignY_subgroup(x *FieldElement, signY int, trustLevel IsI
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
-- 
2.43.0


From ac2948646a1486867f3b85635ea43cd3036e3976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 14/20] fix: CurvePointFromYAndSignX_subgroup reports the
 actual inputs in its error data

---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 626bb20..8bb2c95 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -483,7 +483,7 @@ func CurvePointFromYAndSignX_subgroup(y *FieldElement, signX int, trustLevel IsI
 			&struct {
 				Y     FieldElement
 				SignX int
-			}{})
+			}{Y: *y, SignX: signX})
 		point = Point_axtw_subgroup{} // just for clarity. This is the case anyway.
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 88271f83243abad96735ca5b523346e418a6357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:53 +0000
Subject: [PATCH 15/20] fix: escape braces in the error message of
 CurvePointFromYAndSignX_full for invalid signs

---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 8bb2c95..afdaf14 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -413,7 +413,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	}
 	if signX != +1 && signX != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from {-1,0,+1}. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from \\{-1,0,+1\\}. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
 			&errData{Y: *y, SignX: signX})
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 3123f4ecc078878b78e9498e24c263e22a4b888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 16/20] fix: Point_efgh_full.IsInSubgroup checks for NaPs

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index d00e343..acb1bf2 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1112,6 +1112,9 @@ func (p *Point_efgh_full) SetFrom(input CurvePointPtrInterfaceRead) {
 
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_efgh_full) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
 	return legendreCheckA_EG(p.e, p.g) && legendreCheckE1_FH(p.f, p.h)
 }
 
-- 
2.43.0


From c81958cc61335b52e10c8d7e47b0b37e265788ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:10 +0000
Subject: [PATCH 17/20] fix: IsInSubgroup of the subgroup point types checks
 for NaPs

---
 bandersnatch/curvePoints/curve_point.go            | 1 -
 bandersnatch/curvePoints/curve_point_axtw.go       | 8 ++++++++
 bandersnatch/curvePoints/curve_point_doubleproj.go | 8 ++++++++
 bandersnatch/curvePoints/curve_point_xtw.go        | 8 ++++++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/curve_point.go b/bandersnatch/curvePoints/curve_point.go
index f1cb5e6..44d36ec 100644
--- a/bandersnatch/curvePoints/curve_point.go
+++ b/bandersnatch/curvePoints/curve_point.go
@@ -262,7 +262,6 @@ type thisCurvePointCanRepresentFullCurve struct{}
 func (thisCurvePointCanRepresentInfinity) CanRepresentInfinity() bool         { return true }
 func (thisCurvePointCannotRepresentInfinity) CanRepresentInfinity() bool      { return false }
 func (thisCurvePointCanOnlyRepresentSubgroup) CanOnlyRepresentSubgroup() bool { return true }
-func (thisCurvePointCanOnlyRepresentSubgroup) IsInSubgroup() bool             { return true }
 func (thisCurvePointCanRepresentFullCurve) CanOnlyRepresentSubgroup() bool    { return false }
 func (thisCurvePointCanRepresentFullCurve) HasDecaf() bool                    { return false }
 
diff --git a/bandersnatch/curvePoints/curve_point_axtw.go b/bandersnatch/curvePoints/curve_point_axtw.go
index 9380b7f..026001a 100644
--- a/bandersnatch/curvePoints/curve_point_axtw.go
+++ b/bandersnatch/curvePoints/curve_point_axtw.go
@@ -429,6 +429,14 @@ func (p *point_axtw_base) toDecaf_axtw() (ret point_axtw_base) {
 }
 */
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup. This always holds for points of this type, except for NaPs.
+func (p *Point_axtw_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_axtw_full) IsInSubgroup() bool {
 	if p.IsNaP() {
diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index acb1bf2..b497682 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1110,6 +1110,14 @@ func (p *Point_efgh_full) SetFrom(input CurvePointPtrInterfaceRead) {
 	}
 }
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup. This always holds for points of this type, except for NaPs.
+func (p *Point_efgh_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_efgh_full) IsInSubgroup() bool {
 	if p.IsNaP() {
diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index 1730a07..745700c 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -585,6 +585,14 @@ func (p *point_xtw_base) T_decaf_affine() FieldElement {
 	return p.t
 }
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup. This always holds for points of this type, except for NaPs.
+func (p *Point_xtw_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_xtw_full) IsInSubgroup() bool {
 	if p.IsNaP() {
-- 
2.43.0


From 403651a38d2eaf5b0e8057c5573533d957737b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:18 +0000
Subject: [PATCH 18/20] fix: NewErrorWithData_struct with PreferPreviousData
 returned an ErrorWithData[StructType] without data of the right type

---
 bandersnatch/errorsWithData/modify_errors.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/errorsWithData/modify_errors.go b/bandersnatch/errorsWithData/modify_errors.go
index 04c6bad..f3a125f 100644
--- a/bandersnatch/errorsWithData/modify_errors.go
+++ b/bandersnatch/errorsWithData/modify_errors.go
@@ -28,7 +28,8 @@ import (
 //
 // For baseError == nil, interpolationString == "", this function panics.
 // For baseError == nil, interpolationString != "", creates a new error that does not wrap an error.
-// The function also panics if StructType is unsuited (e.g. contains unexported fields)
+// The function also panics if StructType is unsuited (e.g. contains unexported fields) or
+// if mode requires to keep parameters from baseError, but those have the wrong type for StructType.
 func NewErrorWithData_struct[StructType any](baseError error, interpolationString string, data *StructType, mode ...PreviousDataTreatment) ErrorWithData[StructType] {
 	if len(mode) > 1 {
 		panic(ErrorPrefix + "called NewErrorWithData_struct with more than 1 mode")
@@ -62,7 +63,14 @@ func NewErrorWithData_struct[StructType any](baseError error, interpolationStrin
 	// Note: baseError may be nil. This is actually fine.
 
 	// TODO: Validation?
-	return newErrorWithData_struct(baseError, interpolationString, data, realMode)
+	ret := newErrorWithData_struct(baseError, interpolationString, data, realMode)
+
+	// For mode == PreferPreviousData, parameters from baseError take precedence over data. These might have the wrong type.
+	err = ensureCanMakeStructFromParameters[StructType](&ret.params, EnsureDataIsPresent)
+	if err != nil {
+		panic(err)
+	}
+	return ret
 }
 
 // Note: We could pass mode and/or missingData as optional arguments as part of params.
-- 
2.43.0


From 7a34318c9d067c0d81a57a834a09f3052969ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:18 +0000
Subject: [PATCH 19/20] fix: errors made incomparable did not unwrap to the
 errors wrapped by the original

---
 .../errorsWithData/incomparableWrapper.go     | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/incomparableWrapper.go b/bandersnatch/errorsWithData/incomparableWrapper.go
index 11568b8..e8affca 100644
--- a/bandersnatch/errorsWithData/incomparableWrapper.go
+++ b/bandersnatch/errorsWithData/incomparableWrapper.go
@@ -1,6 +1,10 @@
 package errorsWithData
 
-import "github.com/GottfriedHerold/Bandersnatch/internal/utils"
+import (
+	"errors"
+
+	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
+)
 
 // TODO: Needs some cleanup (mostly removing parts of the API)
 
@@ -191,6 +195,21 @@ func (e incomparableError[StructType]) AsComparable() IncomparableMaker {
 	return e.ewd_MakeIncomparable_struct
 }
 
+// Unwrap returns what the boxed error wraps (NOT the boxed error itself), so errors.Is and errors.As find the same wrapped errors.
+func (e incomparableError_plain) Unwrap() error {
+	return errors.Unwrap(e.IncomparableMaker)
+}
+
+// Unwrap returns what the boxed error wraps (NOT the boxed error itself), so errors.Is and errors.As find the same wrapped errors.
+func (e incomparableError_any) Unwrap() error {
+	return errors.Unwrap(e.ewd_MakeIncomparable_any)
+}
+
+// Unwrap returns what the boxed error wraps (NOT the boxed error itself), so errors.Is and errors.As find the same wrapped errors.
+func (e incomparableError[StructType]) Unwrap() error {
+	return errors.Unwrap(e.ewd_MakeIncomparable_struct)
+}
+
 // Do we even need those 2?
 
 // AsComparable_typed is similar to [AsComparable], but preserves the [ErrorWithData_any] extension of the error interface.
-- 
2.43.0


From 626026679f621d333d22b83ad27d8a91e673923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:18 +0000
Subject: [PATCH 20/20] fix: the data of an error made incomparable by
 MakeErrorIncomparable was not found by GetParameter, HasParameter and
 GetData_map

---
 bandersnatch/errorsWithData/errorsWithData.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/errorsWithData/errorsWithData.go b/bandersnatch/errorsWithData/errorsWithData.go
index dedb740..a35a40f 100644
--- a/bandersnatch/errorsWithData/errorsWithData.go
+++ b/bandersnatch/errorsWithData/errorsWithData.go
@@ -359,7 +359,7 @@ func isExportedIdentifier(s string) bool {
 //
 // The implementations simply follows err's error chain until we find some error that we can work with.
 func GetData_map(err error) map[string]any {
-	for errorChain := err; errorChain != nil; errorChain = errors.Unwrap(errorChain) {
+	for errorChain := UnboxError(err); errorChain != nil; errorChain = UnboxError(errors.Unwrap(errorChain)) {
 		if errChainGood, ok := errorChain.(ErrorWithData_any); ok {
 			return errChainGood.GetData_map()
 		}
@@ -378,7 +378,7 @@ func HasParameter(err error, parameterName string) bool {
 			}
 		}
 	*/
-	for errorChain := err; errorChain != nil; errorChain = errors.Unwrap(errorChain) {
+	for errorChain := UnboxError(err); errorChain != nil; errorChain = UnboxError(errors.Unwrap(errorChain)) {
 		if errChainGood, ok := errorChain.(ErrorWithData_any); ok {
 			return errChainGood.HasParameter(parameterName)
 		}
@@ -408,7 +408,7 @@ func GetParameter(err error, parameterName string) (value any, wasPresent bool)
 		}
 	*/
 
-	for errorChain := err; errorChain != nil; errorChain = errors.Unwrap(errorChain) {
+	for errorChain := UnboxError(err); errorChain != nil; errorChain = UnboxError(errors.Unwrap(errorChain)) {
 		if errChainGood, ok := errorChain.(ErrorWithData_any); ok {
 			return errChainGood.GetParameter(parameterName)
 		}
-- 
2.43.0

