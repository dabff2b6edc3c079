From a52eb68462b2bc9c68463bc1456b67913dd2cb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:29 +0000
Subject: [PATCH 001/104] fix: reject non-finite and out-of-range exponents
 when encoding a decimal

---
 expr/decimal_util.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/expr/decimal_util.go b/expr/decimal_util.go
index 53886a1..2198070 100644
--- a/expr/decimal_util.go
+++ b/expr/decimal_util.go
@@ -43,6 +43,13 @@ func DecimalToBytes(dec *apd.Decimal) ([16]byte, int32, int32, error) {
 		scale     int32
 	)
 
+	if dec.Form != apd.Finite {
+		return result, 0, 0, fmt.Errorf("number %s is not finite", dec.String())
+	}
+	if dec.Exponent > 38 || dec.Exponent < -38 {
+		// Also keeps the precision arithmetic below from overflowing.
+		return result, 0, 0, fmt.Errorf("number with exponent %d exceeds maximum precision of 38", dec.Exponent)
+	}
 	if dec.Exponent > 0 {
 		precision = int32(apd.NumDigits(&dec.Coeff)) + dec.Exponent
 		scale = 0
-- 
2.43.0


From b71a1ef8572fb2006926fc0a5f471c157e95cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:48 +0000
Subject: [PATCH 002/104] fix: IntervalDayType.WithNullability must not modify
 its receiver

---
 types/interval_day_type.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/interval_day_type.go b/types/interval_day_type.go
index 0d0369b..3bf0401 100644
--- a/types/interval_day_type.go
+++ b/types/interval_day_type.go
@@ -19,8 +19,9 @@ func (m *IntervalDayType) GetPrecisionProtoVal() int32 {
 
 func (*IntervalDayType) isRootRef() {}
 func (m *IntervalDayType) WithNullability(n Nullability) Type {
-	m.Nullability = n
-	return m
+	out := *m
+	out.Nullability = n
+	return &out
 }
 
 func (m *IntervalDayType) GetType() Type                     { return m }
-- 
2.43.0


From f89cd2cd45a3d3d34ffff987adb0aed0330a9c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:48 +0000
Subject: [PATCH 003/104] fix: IntervalCompoundType.WithPrecision keeps the
 type variation

---
 types/interval_compound_type.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/interval_compound_type.go b/types/interval_compound_type.go
index 0ff09d6..24f2660 100644
--- a/types/interval_compound_type.go
+++ b/types/interval_compound_type.go
@@ -38,8 +38,9 @@ func (m IntervalCompoundType) WithNullability(n Nullability) Type {
 
 func (m IntervalCompoundType) WithPrecision(precision TimePrecision) IntervalCompoundType {
 	return IntervalCompoundType{
-		precision:   precision,
-		nullability: m.nullability,
+		precision:        precision,
+		typeVariationRef: m.typeVariationRef,
+		nullability:      m.nullability,
 	}
 }
 
-- 
2.43.0


From d57d4604b365aa926cbf2cd52c5195d7ab0079f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:48 +0000
Subject: [PATCH 004/104] fix: TypeToProto accepts the interval types the
 library itself produces

---
 types/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/types.go b/types/types.go
index 3407436..2927885 100644
--- a/types/types.go
+++ b/types/types.go
@@ -745,6 +745,10 @@ func TypeToProto(t Type) *proto.Type {
 				Precision:              precision,
 				Nullability:            proto.Type_Nullability(t.nullability),
 				TypeVariationReference: t.typeVariationRef}}}
+	case *IntervalCompoundType:
+		return t.ToProto()
+	case IntervalYearToMonthType:
+		return t.ToProto()
 	case *UUIDType:
 		return &proto.Type{Kind: &proto.Type_Uuid{
 			Uuid: &proto.Type_UUID{
-- 
2.43.0


From aafc183ac4d4aa5f28f49c50df0c8b52ef73d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:10 +0000
Subject: [PATCH 005/104] fix: RecordType.Concat must not write into the left
 operand's backing array

---
 types/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/types.go b/types/types.go
index 2927885..6bf64d5 100644
--- a/types/types.go
+++ b/types/types.go
@@ -7,6 +7,7 @@ package types
 import (
 	"fmt"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 	"time"
@@ -1817,7 +1818,7 @@ func (r RecordType) Types() []Type {
 }
 
 func (r RecordType) Concat(other RecordType) RecordType {
-	return RecordType{types: append(r.Types(), other.Types()...)}
+	return RecordType{types: slices.Concat(r.Types(), other.Types())}
 }
 
 func (d Date) ToTimeString() string {
-- 
2.43.0


From f65e687624e09973b75dcb243cb0505db9e68fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 006/104] fix: ParseType rejects characters that belong to no
 token

---
 types/parser/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/types/parser/parse.go b/types/parser/parse.go
index a6418af..cb5b891 100644
--- a/types/parser/parse.go
+++ b/types/parser/parse.go
@@ -41,13 +41,15 @@ func (t *TypeExpression) UnmarshalYAML(fn func(interface{}) error) error {
 func ParseType(input string) (types.FuncDefArgType, error) {
 	is := antlr.NewInputStream(input)
 	lexer := baseparser2.NewSubstraitTypeLexer(is)
+	errorListener := util.NewSimpleErrorListener()
+	// a character that belongs to no token is an error too
+	lexer.AddErrorListener(errorListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := baseparser2.NewSubstraitTypeParser(stream)
-	errorListener := util.NewSimpleErrorListener()
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-	visitor := &TypeVisitor{}
+	visitor := &TypeVisitor{ErrorListener: errorListener}
 	ret, err := parseType(input, p, errorListener, visitor)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f582247d47f8ef584a2783f86071ae71cfd954ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 007/104] fix: ParseType rejects integer parameters that do not
 fit in 32 bits

---
 types/parser/visitor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/types/parser/visitor.go b/types/parser/visitor.go
index 13c66ae..93bef42 100644
--- a/types/parser/visitor.go
+++ b/types/parser/visitor.go
@@ -43,10 +43,10 @@ func (v *TypeVisitor) VisitTypeLiteral(ctx *baseparser2.TypeLiteralContext) inte
 }
 
 func (v *TypeVisitor) VisitLiteralNumber(ctx *baseparser2.LiteralNumberContext) interface{} {
-	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 0)
+	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 64)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("error parsing number: %s", err))
-		return 0
+		return &types.LiteralNumber{}
 	}
 	return &types.LiteralNumber{Value: num}
 }
@@ -197,6 +197,10 @@ func (v *TypeVisitor) VisitUserDefined(ctx *baseparser2.UserDefinedContext) inte
 		case types.FuncDefArgType:
 			params = append(params, &types.DataTypeUDTParam{Type: param})
 		case *types.LiteralNumber:
+			if param.Value != int64(int32(param.Value)) {
+				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf(
+					"user defined type parameter %d is out of range", param.Value))
+			}
 			params = append(params, &types.IntegerUDTParam{Integer: int32(param.Value)})
 		case types.StringParameter:
 			params = append(params, &types.StringUDTParam{StringVal: string(param)})
@@ -375,7 +379,7 @@ func (v *TypeVisitor) VisitParameterName(ctx *baseparser2.ParameterNameContext)
 }
 
 func (v *TypeVisitor) VisitNumericLiteral(ctx *baseparser2.NumericLiteralContext) interface{} {
-	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 0)
+	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 32)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("error parsing type parameter as number: %s", err))
 		return integer_parameters.NewConcreteIntParam(0)
-- 
2.43.0


From 1b9c0d9afb535467026209f90eaaa63405c2d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:46 +0000
Subject: [PATCH 008/104] fix: parameterized function types with several
 parameters print text that parses

---
 types/parameterized_func_type.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/types/parameterized_func_type.go b/types/parameterized_func_type.go
index ce9fe8f..eaa962b 100644
--- a/types/parameterized_func_type.go
+++ b/types/parameterized_func_type.go
@@ -27,12 +27,19 @@ func (f *ParameterizedFuncType) String() string {
 	b.WriteString("func")
 	b.WriteString(strFromNullability(f.Nullability))
 	b.WriteByte('<')
+	// the type grammar only allows a bare parameter when there is one
+	if len(f.Parameters) != 1 {
+		b.WriteByte('(')
+	}
 	for i, p := range f.Parameters {
 		if i != 0 {
 			b.WriteString(", ")
 		}
 		b.WriteString(p.String())
 	}
+	if len(f.Parameters) != 1 {
+		b.WriteByte(')')
+	}
 	b.WriteString(" -> ")
 	b.WriteString(f.Return.String())
 	b.WriteByte('>')
-- 
2.43.0


From ce5d34a688cab48a3619892b60e10319e3a15e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 009/104] fix: timestamps before 1970 round down at every
 precision

---
 types/types.go | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/types/types.go b/types/types.go
index 6bf64d5..6e9b89b 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1907,28 +1907,14 @@ func (t TimestampTz) ToIsoTimeString() string {
 }
 
 func GetTimeValueByPrecision(tm time.Time, precision TimePrecision) int64 {
-	switch precision {
-	case PrecisionSeconds:
-		return tm.Unix()
-	case PrecisionDeciSeconds:
-		return tm.UnixMilli() / 100
-	case PrecisionCentiSeconds:
-		return tm.UnixMilli() / 10
-	case PrecisionMilliSeconds:
-		return tm.UnixMilli()
-	case PrecisionEMinus4Seconds:
-		return tm.UnixMicro() / 100
-	case PrecisionEMinus5Seconds:
-		return tm.UnixMicro() / 10
-	case PrecisionMicroSeconds:
-		return tm.UnixMicro()
-	case PrecisionEMinus7Seconds:
-		return tm.UnixNano() / 100
-	case PrecisionEMinus8Seconds:
-		return tm.UnixNano() / 10
-	case PrecisionNanoSeconds:
-		return tm.UnixNano()
-	default:
+	if precision < PrecisionSeconds || precision > PrecisionNanoSeconds {
 		panic(fmt.Sprintf("unknown TimePrecision %v", precision))
 	}
+	// Combine whole seconds and the (never negative) nanosecond offset, so that
+	// instants before the epoch round down as those after it do.
+	perSecond := int64(1)
+	for range int(precision) {
+		perSecond *= 10
+	}
+	return tm.Unix()*perSecond + int64(tm.Nanosecond())/(int64(time.Second)/perSecond)
 }
-- 
2.43.0


From e65d5e388a121d2a2b1686f44515811cbf38f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:02 +0000
Subject: [PATCH 010/104] fix: temporal literal constructors report values that
 do not fit

---
 literal/utils.go | 52 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/literal/utils.go b/literal/utils.go
index 01041fe..13a87c9 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -48,6 +48,9 @@ func NewString(value string, nullable bool) expr.Literal {
 }
 
 func NewDate(days int, nullable bool) (expr.Literal, error) {
+	if int64(days) != int64(int32(days)) {
+		return nil, fmt.Errorf("invalid date value %d", days)
+	}
 	return expr.NewLiteral(types.Date(days), nullable)
 }
 
@@ -62,12 +65,11 @@ func NewDateFromString(value string, nullable bool) (expr.Literal, error) {
 // NewTime creates a new Time literal from the given hours, minutes, seconds and microseconds.
 // The total microseconds should be in the range [0, 86400_000_000) to represent a valid time within a day.
 func NewTime(hours, minutes, seconds, microseconds int32, nullable bool) (expr.Literal, error) {
-	duration := time.Duration(hours)*time.Hour + time.Duration(minutes)*time.Minute + time.Duration(seconds)*time.Second + time.Duration(microseconds)*time.Microsecond
-	micros := duration.Microseconds()
+	micros := ((int64(hours)*60+int64(minutes))*60+int64(seconds))*1e6 + int64(microseconds)
 	if micros < 0 || micros >= (24*time.Hour).Microseconds() {
 		return nil, fmt.Errorf("invalid time value %d:%d:%d.%d", hours, minutes, seconds, microseconds)
 	}
-	return expr.NewLiteral(types.Time(duration.Microseconds()), nullable)
+	return expr.NewLiteral(types.Time(micros), nullable)
 }
 
 // NewTimeFromMicros creates a new Time literal from the given microseconds.
@@ -105,10 +107,28 @@ func parseTimeFromString(value string) (time.Time, error) {
 	return time.Parse(timeOnlyInMillis, value)
 }
 
+// timeValue returns the number of units of the given precision elapsed since
+// January 1, 1970 00:00:00 UTC, or an error if there is no such precision or the
+// number does not fit in 64 bits.
+func timeValue(precision types.TimePrecision, tm time.Time) (int64, error) {
+	if _, err := types.ProtoToTimePrecision(precision.ToProtoVal()); err != nil {
+		return 0, err
+	}
+	value := types.GetTimeValueByPrecision(tm, precision)
+	if types.Timestamp(value).ToPrecisionTime(precision).Unix() != tm.Unix() {
+		return 0, fmt.Errorf("time %s is out of range for precision %d", tm, precision)
+	}
+	return value, nil
+}
+
 // NewTimestamp creates a new Timestamp literal from a time.Time timestamp value.
 // This uses the number of microseconds elapsed since January 1, 1970 00:00:00 UTC
 func NewTimestamp(timestamp time.Time, nullable bool) (expr.Literal, error) {
-	return expr.NewLiteral(types.Timestamp(timestamp.UnixMicro()), nullable)
+	micros, err := timeValue(types.PrecisionMicroSeconds, timestamp)
+	if err != nil {
+		return nil, err
+	}
+	return expr.NewLiteral(types.Timestamp(micros), nullable)
 }
 
 func NewTimestampFromString(value string, nullable bool) (expr.Literal, error) {
@@ -126,7 +146,11 @@ func NewTimestampFromMicros(micros int64, nullable bool) (expr.Literal, error) {
 // NewTimestampTZ creates a new TimestampTz literal from a time.Time timestamp value.
 // This uses the number of microseconds elapsed since January 1, 1970 00:00:00 UTC
 func NewTimestampTZ(timestamp time.Time, nullable bool) (expr.Literal, error) {
-	return expr.NewLiteral(types.TimestampTz(timestamp.UnixMicro()), nullable)
+	micros, err := timeValue(types.PrecisionMicroSeconds, timestamp)
+	if err != nil {
+		return nil, err
+	}
+	return expr.NewLiteral(types.TimestampTz(micros), nullable)
 }
 
 func NewTimestampTZFromString(value string, nullable bool) (expr.Literal, error) {
@@ -343,7 +367,11 @@ var epochTM = time.Unix(0, 0).UTC()
 func NewPrecisionTimeFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
 	// truncate the date so that we only keep the duration since midnight
 	tm = epochTM.Add(tm.Sub(tm.Truncate(24 * time.Hour)))
-	return NewPrecisionTime(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := timeValue(precision, tm)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTime(precision, value, nullable)
 }
 
 func NewPrecisionTimeFromString(precision types.TimePrecision, value string, nullable bool) (expr.Literal, error) {
@@ -356,7 +384,11 @@ func NewPrecisionTimeFromString(precision types.TimePrecision, value string, nul
 
 // NewPrecisionTimestampFromTime creates a new PrecisionTimestamp literal from a time.Time timestamp value with given precision.
 func NewPrecisionTimestampFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
-	return NewPrecisionTimestamp(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := timeValue(precision, tm)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTimestamp(precision, value, nullable)
 }
 
 // NewPrecisionTimestamp creates a new PrecisionTimestamp literal with given precision and value.
@@ -379,7 +411,11 @@ func NewPrecisionTimestampFromString(precision types.TimePrecision, value string
 
 // NewPrecisionTimestampTzFromTime creates a new PrecisionTimestampTz literal from a time.Time timestamp value with given precision.
 func NewPrecisionTimestampTzFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
-	return NewPrecisionTimestampTz(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := timeValue(precision, tm)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTimestampTz(precision, value, nullable)
 }
 
 // NewPrecisionTimestampTz creates a new PrecisionTimestampTz literal with given precision and value.
-- 
2.43.0


From 07eca82be174fdd572919ff2b5daf5ff82158ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:06 +0000
Subject: [PATCH 011/104] fix: years-to-month interval text is parsed whole and
 range checked

---
 literal/utils.go | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/literal/utils.go b/literal/utils.go
index 13a87c9..cb49b05 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -173,37 +173,25 @@ func NewIntervalYearsToMonthFromString(yearsToMonth string, nullable bool) (expr
 	return NewIntervalYearsToMonth(years, months, nullable)
 }
 
+var yearsToMonthRegex = regexp.MustCompile(`^P(?:([+-]?\d+)Y)?(?:([+-]?\d+)M)?$`)
+
 func parseIntervalYearsToMonth(interval string) (int32, int32, error) {
-	if len(interval) < 3 || interval[0] != 'P' {
-		return 0, 0, fmt.Errorf("invalid interval format: %s", interval)
-	}
-	interval = interval[1:]
-	yIndex := -1
-	mIndex := -1
-	for i, c := range interval {
-		if c == 'Y' {
-			yIndex = i
-		} else if c == 'M' {
-			mIndex = i
-		}
-	}
-	if yIndex == -1 && mIndex == -1 {
+	matches := yearsToMonthRegex.FindStringSubmatch(interval)
+	if matches == nil || (matches[1] == "" && matches[2] == "") {
 		return 0, 0, fmt.Errorf("invalid interval format: %s", interval)
 	}
-	var months, years int
+	var months, years int64
 	var err error
-	if yIndex != -1 {
-		years, err = strconv.Atoi(interval[:yIndex])
+	if matches[1] != "" {
+		years, err = strconv.ParseInt(matches[1], 10, 32)
 		if err != nil {
-			return 0, 0, err
+			return 0, 0, fmt.Errorf("invalid year value: %w", err)
 		}
-		interval = interval[yIndex+1:]
-		mIndex -= yIndex + 1
 	}
-	if mIndex > 0 {
-		months, err = strconv.Atoi(interval[:mIndex])
+	if matches[2] != "" {
+		months, err = strconv.ParseInt(matches[2], 10, 32)
 		if err != nil {
-			return 0, 0, err
+			return 0, 0, fmt.Errorf("invalid month value: %w", err)
 		}
 	}
 	return int32(years), int32(months), nil
-- 
2.43.0


From 70cb5ebbc697029351438c005911baa238e5ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 012/104] fix: days-to-second interval text is parsed exactly
 and range checked

---
 literal/utils.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/literal/utils.go b/literal/utils.go
index cb49b05..31595b1 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -2,8 +2,10 @@ package literal
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/cockroachdb/apd/v3"
@@ -223,20 +225,18 @@ func parseIntervalDaysToSecond(interval string) (int32, int32, int64, int32, err
 
 	// Parse interval of format P[n]DT[n]H[n]M[n]S
 	// Ex: 3DT4H5M6.789S
-	regex := `^P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d*(\.\d+)?)S)?)?$`
+	regex := `^P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d+)?|\.\d+)S)?)?$`
 	r := regexp.MustCompile(regex)
 
 	// Find matches
 	matches := r.FindStringSubmatch(interval)
-	if matches == nil {
+	if matches == nil || strings.HasSuffix(interval, "T") {
 		return 0, 0, 0, 0, fmt.Errorf("invalid interval format: %s", interval)
 	}
 
 	// Parse each component
 	var err error
 	var days, hours, minutes, seconds int
-	var secFloat float64
-	var subSeconds int64
 	if matches[1] != "" {
 		days, err = strconv.Atoi(matches[1])
 		if err != nil {
@@ -255,24 +255,35 @@ func parseIntervalDaysToSecond(interval string) (int32, int32, int64, int32, err
 			return 0, 0, 0, 0, fmt.Errorf("invalid minute value: %v", err)
 		}
 	}
-	if matches[4] != "" {
-		secFloat, err = strconv.ParseFloat(matches[4], 64)
+	wholeSeconds, fraction, _ := strings.Cut(matches[4], ".")
+	if wholeSeconds != "" {
+		seconds, err = strconv.Atoi(wholeSeconds)
 		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid fractional second value: %v", err)
+			return 0, 0, 0, 0, fmt.Errorf("invalid second value: %v", err)
 		}
 	}
+	for _, v := range []int{days, hours, minutes, seconds} {
+		if v > math.MaxInt32 {
+			return 0, 0, 0, 0, fmt.Errorf("interval out of range: %s", interval)
+		}
+	}
+	totalSeconds := int64(hours)*3600 + int64(minutes)*60 + int64(seconds)
+	if totalSeconds > math.MaxInt32 {
+		return 0, 0, 0, 0, fmt.Errorf("interval out of range: %s", interval)
+	}
 
-	seconds = int(secFloat)
-	secFloat -= float64(seconds)
-	seconds += hours*3600 + minutes*60
-	nanoSeconds := int64(secFloat * 1e9)
-	subSeconds = int64(secFloat * 1e6)
+	// Take the digits as they are: a float cannot hold most decimal fractions.
+	nanoSeconds, err := strconv.ParseInt((fraction + "000000000")[:9], 10, 64)
+	if err != nil {
+		return 0, 0, 0, 0, fmt.Errorf("invalid fractional second value: %v", err)
+	}
+	subSeconds := nanoSeconds / 1e3
 	precision := int32(types.PrecisionMicroSeconds)
 	if nanoSeconds > subSeconds*1e3 {
 		subSeconds = nanoSeconds
 		precision = int32(types.PrecisionNanoSeconds)
 	}
-	return int32(days), int32(seconds), subSeconds, precision, nil
+	return int32(days), int32(totalSeconds), subSeconds, precision, nil
 }
 
 func NewIntervalDaysToSecond(days, seconds int32, micros int64, nullable bool) (expr.Literal, error) {
-- 
2.43.0


From 352c0c18ca02a14c2a1505ecda2ce167ffa04800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:59 +0000
Subject: [PATCH 013/104] fix: ISO text of day intervals is valid for negative,
 zero and sub-second values

---
 expr/literals.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index f43e5cc..f8b62e5 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -570,14 +570,27 @@ func (t *ProtoLiteral) IsoValueString() string {
 		// Validity is required by construction.
 		sb := strings.Builder{}
 		sb.WriteString("P")
-		if x.GetDays() > 0 {
+		if x.GetDays() != 0 {
 			sb.WriteString(fmt.Sprintf("%dD", x.GetDays()))
 		}
-		if x.GetSeconds() > 0 || x.GetSubseconds() > 0 {
+		duration := time.Duration(x.GetSeconds()) * time.Second
+		duration += types.SubSecondsToDuration(x.GetSubseconds(), literalType.Precision)
+		if duration != 0 || x.GetDays() == 0 {
 			sb.WriteString("T")
-			duration := time.Duration(x.GetSeconds()) * time.Second
-			duration += types.SubSecondsToDuration(x.GetSubseconds(), literalType.Precision)
-			sb.WriteString(strings.ToUpper(duration.String()))
+			if hours := duration / time.Hour; hours != 0 {
+				sb.WriteString(fmt.Sprintf("%dH", hours))
+			}
+			if minutes := duration % time.Hour / time.Minute; minutes != 0 {
+				sb.WriteString(fmt.Sprintf("%dM", minutes))
+			}
+			if seconds := duration % time.Minute; seconds != 0 || duration == 0 {
+				if seconds < 0 {
+					sb.WriteString("-")
+					seconds = -seconds
+				}
+				text := fmt.Sprintf("%d.%09d", seconds/time.Second, seconds%time.Second)
+				sb.WriteString(strings.TrimRight(strings.TrimRight(text, "0"), ".") + "S")
+			}
 		}
 		return sb.String()
 	}
-- 
2.43.0


From b2a6c125f6b3530154d58a73aa80da0b740afc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:06 +0000
Subject: [PATCH 014/104] fix: text of times keeps the sub-second digits

---
 types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/types.go b/types/types.go
index 6e9b89b..a1d1966 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1858,7 +1858,7 @@ func timeFromPrecisionUnits(units int64, precision TimePrecision) time.Time {
 
 func (t Time) ToTimeString() string {
 	tm := time.UnixMicro(int64(t))
-	return tm.UTC().Format(time.TimeOnly)
+	return tm.UTC().Format("15:04:05.999999999")
 }
 
 func (t Time) ToIsoTimeString() string {
-- 
2.43.0


From 936fb6e88d745a73aa5ff3cac105e8e99b1ead3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:14 +0000
Subject: [PATCH 015/104] fix: retyping a time literal reports values that do
 not fit the new precision

---
 expr/literals.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index f8b62e5..f680517 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -733,9 +733,23 @@ func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Li
 	return &ProtoLiteral{Value: literal.Value, Type: vcharType}, nil
 }
 
+// convertTimeUnits expresses a number of time units of one precision in units of
+// another, rounding down. It is an error if the result does not fit in 64 bits.
+func convertTimeUnits(units int64, from, to types.TimePrecision) (int64, error) {
+	tm := types.Timestamp(units).ToPrecisionTime(from)
+	value := types.GetTimeValueByPrecision(tm, to)
+	if types.Timestamp(value).ToPrecisionTime(to).Unix() != tm.Unix() {
+		return 0, fmt.Errorf("time value %d of precision %d is out of range for precision %d", units, from, to)
+	}
+	return value, nil
+}
+
 func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTimeType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimeType); ok {
-		value := types.GetTimeValueByPrecision(types.Time(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptType.Precision)
+		value, err := convertTimeUnits(literal.Value.(int64), litType.Precision, ptType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision time")
@@ -743,7 +757,10 @@ func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTime
 
 func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.PrecisionTimestampType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptsType.Precision)
+		value, err := convertTimeUnits(literal.Value.(int64), litType.Precision, ptsType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptsType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp")
@@ -751,7 +768,10 @@ func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.Precisi
 
 func newPrecisionTimestampTzWithType(literal *ProtoLiteral, ptstzType *types.PrecisionTimestampTzType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampTzType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptstzType.Precision)
+		value, err := convertTimeUnits(literal.Value.(int64), litType.Precision, ptstzType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptstzType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp tz")
-- 
2.43.0


From a9e589b52f4e03af66be3bd4172ab3269cc91a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:16 +0000
Subject: [PATCH 016/104] fix: precision timestamp literals before 1970 can be
 read from protobuf

---
 expr/literals.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index f680517..917d17f 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1278,9 +1278,6 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
-		}
 		return NewPrecisionTimestampLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_PrecisionTimestampTz:
 		precTimeStamp := lit.PrecisionTimestampTz
@@ -1288,9 +1285,6 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
-		}
 		return NewPrecisionTimestampTzLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_IntervalYearToMonth_:
 		return intervalYearToMonthLiteralFromProto(l)
-- 
2.43.0


From 8592feeb61b5cb2cb7e7ebbfcb64a38c625d4393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 017/104] fix: temporal and compound interval literals keep
 their type variation

---
 expr/interval_compound_literal.go |  9 +++++++--
 expr/literals.go                  | 29 ++++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/expr/interval_compound_literal.go b/expr/interval_compound_literal.go
index ec9790b..39aec31 100644
--- a/expr/interval_compound_literal.go
+++ b/expr/interval_compound_literal.go
@@ -17,10 +17,12 @@ type IntervalCompoundLiteral struct {
 	SubSeconds         int64
 	SubSecondPrecision types.TimePrecision
 	Nullability        types.Nullability
+	TypeVariationRef   uint32
 }
 
 func (m IntervalCompoundLiteral) getType() types.Type {
-	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).WithNullability(m.Nullability)
+	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).
+		WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
 }
 
 func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -59,7 +61,10 @@ func (m IntervalCompoundLiteral) ToProto() *proto.Expression {
 }
 
 func intervalCompoundLiteralFromProto(l *proto.Expression_Literal) Literal {
-	icLiteral := IntervalCompoundLiteral{Nullability: getNullability(l.Nullable)}
+	icLiteral := IntervalCompoundLiteral{
+		Nullability:      getNullability(l.Nullable),
+		TypeVariationRef: l.TypeVariationReference,
+	}
 	yearToMonth := l.GetIntervalCompound().GetIntervalYearToMonth()
 	if yearToMonth != nil {
 		icLiteral.Years = yearToMonth.Years
diff --git a/expr/literals.go b/expr/literals.go
index 917d17f..8ce4637 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1271,21 +1271,44 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if precTime.Value < 0 {
 			return nil
 		}
-		return NewPrecisionTimeLiteral(precTime.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTime.Value,
+			Type: &types.PrecisionTimeType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
+		}
 	case *proto.Expression_Literal_PrecisionTimestamp_:
 		precTimeStamp := lit.PrecisionTimestamp
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		return NewPrecisionTimestampLiteral(precTimeStamp.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
+		}
 	case *proto.Expression_Literal_PrecisionTimestampTz:
 		precTimeStamp := lit.PrecisionTimestampTz
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		return NewPrecisionTimestampTzLiteral(precTimeStamp.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampTzType{
+				PrecisionTimestampType: types.PrecisionTimestampType{
+					Precision:        precision,
+					Nullability:      nullability,
+					TypeVariationRef: l.TypeVariationReference,
+				},
+			},
+		}
 	case *proto.Expression_Literal_IntervalYearToMonth_:
 		return intervalYearToMonthLiteralFromProto(l)
 	case *proto.Expression_Literal_IntervalCompound_:
-- 
2.43.0


From 143d24d9c83f7914a2bacfeb715dc734b7faec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 018/104] fix: interval year literals read from protobuf have
 the interval_year type and their variation

---
 expr/interval_year_to_month.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/expr/interval_year_to_month.go b/expr/interval_year_to_month.go
index 8006aa5..40053fa 100644
--- a/expr/interval_year_to_month.go
+++ b/expr/interval_year_to_month.go
@@ -9,13 +9,14 @@ import (
 
 // IntervalYearToMonthLiteral implements Literal interface for interval year to month type
 type IntervalYearToMonthLiteral struct {
-	Years       int32
-	Months      int32
-	Nullability types.Nullability
+	Years            int32
+	Months           int32
+	Nullability      types.Nullability
+	TypeVariationRef uint32
 }
 
 func (m IntervalYearToMonthLiteral) getType() types.Type {
-	return types.NewIntervalYearToMonthType().WithNullability(m.Nullability)
+	return &types.IntervalYearType{Nullability: m.Nullability, TypeVariationRef: m.TypeVariationRef}
 }
 
 func (m IntervalYearToMonthLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -40,9 +41,10 @@ func (m IntervalYearToMonthLiteral) ToProto() *proto.Expression {
 
 func intervalYearToMonthLiteralFromProto(l *proto.Expression_Literal) Literal {
 	return IntervalYearToMonthLiteral{
-		Years:       l.GetIntervalYearToMonth().Years,
-		Months:      l.GetIntervalYearToMonth().Months,
-		Nullability: getNullability(l.Nullable),
+		Years:            l.GetIntervalYearToMonth().GetYears(),
+		Months:           l.GetIntervalYearToMonth().GetMonths(),
+		Nullability:      getNullability(l.Nullable),
+		TypeVariationRef: l.TypeVariationReference,
 	}
 }
 
-- 
2.43.0


From 1028a19a1fae038d08ae59382a91a30b2294ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:14 +0000
Subject: [PATCH 019/104] fix: literal equality is reflexive for NaN,
 independent of message state and of how a year interval was made

---
 expr/interval_year_to_month.go |  5 +++++
 expr/literals.go               | 18 ++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/expr/interval_year_to_month.go b/expr/interval_year_to_month.go
index 40053fa..013412c 100644
--- a/expr/interval_year_to_month.go
+++ b/expr/interval_year_to_month.go
@@ -60,6 +60,11 @@ func (m IntervalYearToMonthLiteral) Equals(rhs Expression) bool {
 	if other, ok := rhs.(IntervalYearToMonthLiteral); ok {
 		return m.getType().Equals(other.GetType()) && (m == other)
 	}
+	// NewLiteral represents the same values as a ProtoLiteral.
+	if other, ok := rhs.(*ProtoLiteral); ok && m.getType().Equals(other.GetType()) {
+		v, ok := other.Value.(*types.IntervalYearToMonth)
+		return ok && m.Years == v.GetYears() && m.Months == v.GetMonths()
+	}
 	return false
 }
 
diff --git a/expr/literals.go b/expr/literals.go
index 8ce4637..04909c9 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -18,6 +18,7 @@ import (
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	pb "google.golang.org/protobuf/proto"
 )
 
 // PrimitiveLiteralValue is a type constraint that represents
@@ -224,7 +225,9 @@ func (t *PrimitiveLiteral[T]) ToProto() *proto.Expression {
 
 func (t *PrimitiveLiteral[T]) Equals(rhs Expression) bool {
 	if other, ok := rhs.(*PrimitiveLiteral[T]); ok {
-		return t.Type.Equals(other.Type) && t.Value == other.Value
+		// NaN is the only value that differs from itself.
+		bothNaN := t.Value != t.Value && other.Value != other.Value
+		return t.Type.Equals(other.Type) && (t.Value == other.Value || bothNaN)
 	}
 	return false
 }
@@ -694,9 +697,16 @@ func (t *ProtoLiteral) ToProto() *proto.Expression {
 }
 
 func (t *ProtoLiteral) Equals(rhs Expression) bool {
-	if other, ok := rhs.(*ProtoLiteral); ok {
-		return t.Type.Equals(other.Type) &&
-			reflect.DeepEqual(t.Value, other.Value)
+	switch other := rhs.(type) {
+	case *ProtoLiteral:
+		if !t.Type.Equals(other.Type) {
+			return false
+		}
+		// Values may be protobuf messages, whose internal state changes with use.
+		return reflect.DeepEqual(t.Value, other.Value) ||
+			pb.Equal(t.ToProtoLiteral(), other.ToProtoLiteral())
+	case IntervalYearToMonthLiteral:
+		return other.Equals(t)
 	}
 	return false
 }
-- 
2.43.0


From 6cecb61dc1d00798bfe2e34d532845895a94487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:30 +0000
Subject: [PATCH 020/104] fix: malformed types, literals and reference segments
 in messages are reported instead of causing panics or other values

---
 expr/expression.go      | 66 ++++++++++++++++++++++++++++-----------
 expr/field_reference.go | 29 +++++++++++++++---
 expr/functions.go       |  9 ++++--
 expr/literals.go        | 68 ++++++++++++++++++++++++++++++++++-------
 plan/internal/helper.go | 13 ++++++--
 plan/plan.go            | 13 ++++++--
 types/types.go          | 56 ++++++++++++++++++++++-----------
 7 files changed, 198 insertions(+), 56 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 0ea24aa..155b2d5 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -40,12 +40,30 @@ func MustExpr(e Expression, err error) Expression {
 	return e
 }
 
+// typeFromProto is types.TypeFromProto with an error for a malformed type.
+func typeFromProto(t *proto.Type) (types.Type, error) {
+	typ := types.TypeFromProto(t)
+	if typ == nil {
+		return nil, fmt.Errorf("%w: missing or invalid type", substraitgo.ErrInvalidExpr)
+	}
+	return typ, nil
+}
+
+// literalFromProto is LiteralFromProto with an error for a malformed literal.
+func literalFromProto(l *proto.Expression_Literal) (Literal, error) {
+	lit := LiteralFromProto(l)
+	if lit == nil {
+		return nil, fmt.Errorf("%w: missing or invalid literal", substraitgo.ErrInvalidExpr)
+	}
+	return lit, nil
+}
+
 func FuncArgFromProto(e *proto.FunctionArgument, baseSchema *types.RecordType, reg ExtensionRegistry) (types.FuncArg, error) {
-	switch et := e.ArgType.(type) {
+	switch et := e.GetArgType().(type) {
 	case *proto.FunctionArgument_Enum:
 		return types.Enum(et.Enum), nil
 	case *proto.FunctionArgument_Type:
-		return types.TypeFromProto(et.Type), nil
+		return typeFromProto(et.Type)
 	case *proto.FunctionArgument_Value:
 		return ExprFromProto(et.Value, baseSchema, reg)
 	}
@@ -59,7 +77,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 	switch et := e.RexType.(type) {
 	case *proto.Expression_Literal_:
-		return LiteralFromProto(et.Literal), nil
+		return literalFromProto(et.Literal)
 	case *proto.Expression_Selection:
 		return FieldReferenceFromProto(et.Selection, baseSchema, reg)
 	case *proto.Expression_ScalarFunction_:
@@ -71,8 +89,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			}
 		}
 
-		if et.ScalarFunction.OutputType == nil {
-			return nil, fmt.Errorf("%w: scalar function missing output type", substraitgo.ErrInvalidExpr)
+		outputType, err := typeFromProto(et.ScalarFunction.OutputType)
+		if err != nil {
+			return nil, fmt.Errorf("scalar function output type: %w", err)
 		}
 
 		id, ok := reg.DecodeFunc(et.ScalarFunction.FunctionReference)
@@ -82,7 +101,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 		decl, ok := reg.LookupScalarFunction(et.ScalarFunction.FunctionReference)
 		if !ok {
-			return NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), types.TypeFromProto(et.ScalarFunction.OutputType), et.ScalarFunction.Options, args...)
+			return NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), outputType, et.ScalarFunction.Options, args...)
 		}
 
 		return &ScalarFunction{
@@ -90,7 +109,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			declaration: decl,
 			args:        args,
 			options:     et.ScalarFunction.Options,
-			outputType:  types.TypeFromProto(et.ScalarFunction.OutputType),
+			outputType:  outputType,
 		}, nil
 	case *proto.Expression_WindowFunction_:
 		var err error
@@ -115,8 +134,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			}
 		}
 
-		if et.WindowFunction.OutputType == nil {
-			return nil, fmt.Errorf("%w: window function missing output type", substraitgo.ErrInvalidExpr)
+		outputType, err := typeFromProto(et.WindowFunction.OutputType)
+		if err != nil {
+			return nil, fmt.Errorf("window function output type: %w", err)
 		}
 
 		id, ok := reg.DecodeFunc(et.WindowFunction.FunctionReference)
@@ -125,7 +145,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}
 		decl, ok := reg.LookupWindowFunction(et.WindowFunction.FunctionReference)
 		if !ok {
-			fn, err := NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), types.TypeFromProto(et.WindowFunction.OutputType),
+			fn, err := NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), outputType,
 				et.WindowFunction.Options, et.WindowFunction.Invocation, et.WindowFunction.Phase, args...)
 			if err != nil {
 				return nil, err
@@ -144,7 +164,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			declaration: decl,
 			args:        args,
 			options:     et.WindowFunction.Options,
-			outputType:  types.TypeFromProto(et.WindowFunction.OutputType),
+			outputType:  outputType,
 			phase:       et.WindowFunction.Phase,
 			invocation:  et.WindowFunction.Invocation,
 			Partitions:  parts,
@@ -192,7 +212,10 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			Then Expression
 		}, len(et.SwitchExpression.Ifs))
 		for i, clause := range et.SwitchExpression.Ifs {
-			ifs[i].If = LiteralFromProto(clause.If)
+			ifs[i].If, err = literalFromProto(clause.If)
+			if err != nil {
+				return nil, err
+			}
 			ifs[i].Then, err = ExprFromProto(clause.Then, baseSchema, reg)
 			if err != nil {
 				return nil, err
@@ -248,8 +271,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			Options: options,
 		}, nil
 	case *proto.Expression_Cast_:
-		if et.Cast.Type == nil {
-			return nil, fmt.Errorf("%w: cast expression missing type", substraitgo.ErrInvalidExpr)
+		castType, err := typeFromProto(et.Cast.Type)
+		if err != nil {
+			return nil, fmt.Errorf("cast expression: %w", err)
 		}
 
 		input, err := ExprFromProto(et.Cast.Input, baseSchema, reg)
@@ -258,7 +282,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}
 
 		return &Cast{
-			Type:            types.TypeFromProto(et.Cast.Type),
+			Type:            castType,
 			Input:           input,
 			FailureBehavior: et.Cast.FailureBehavior,
 		}, nil
@@ -332,8 +356,12 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		if et.DynamicParameter == nil {
 			return nil, fmt.Errorf("%w: dynamic parameter is nil", substraitgo.ErrInvalidExpr)
 		}
+		outputType, err := typeFromProto(et.DynamicParameter.Type)
+		if err != nil {
+			return nil, fmt.Errorf("dynamic parameter: %w", err)
+		}
 		return &DynamicParameter{
-			OutputType:         types.TypeFromProto(et.DynamicParameter.Type),
+			OutputType:         outputType,
 			ParameterReference: et.DynamicParameter.ParameterReference,
 		}, nil
 	case *proto.Expression_Enum_:
@@ -353,7 +381,11 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 		paramTypes := make([]types.Type, len(et.Lambda.Parameters.Types))
 		for i, pt := range et.Lambda.Parameters.Types {
-			paramTypes[i] = types.TypeFromProto(pt)
+			paramType, err := typeFromProto(pt)
+			if err != nil {
+				return nil, fmt.Errorf("lambda parameter: %w", err)
+			}
+			paramTypes[i] = paramType
 		}
 		params := &types.StructType{
 			Types:            paramTypes,
diff --git a/expr/field_reference.go b/expr/field_reference.go
index 362d7bd..a04787e 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -53,21 +53,39 @@ func RefSegmentFromProto(p *proto.Expression_ReferenceSegment) ReferenceSegment
 		return nil
 	}
 
+	var childProto *proto.Expression_ReferenceSegment
 	switch seg := p.ReferenceType.(type) {
 	case *proto.Expression_ReferenceSegment_MapKey_:
+		childProto = seg.MapKey.Child
+	case *proto.Expression_ReferenceSegment_StructField_:
+		childProto = seg.StructField.Child
+	case *proto.Expression_ReferenceSegment_ListElement_:
+		childProto = seg.ListElement.Child
+	}
+	child := RefSegmentFromProto(childProto)
+	if childProto != nil && child == nil {
+		return nil
+	}
+
+	switch seg := p.ReferenceType.(type) {
+	case *proto.Expression_ReferenceSegment_MapKey_:
+		key := LiteralFromProto(seg.MapKey.MapKey)
+		if key == nil {
+			return nil
+		}
 		return &MapKeyRef{
-			MapKey: LiteralFromProto(seg.MapKey.MapKey),
-			Child:  RefSegmentFromProto(seg.MapKey.Child),
+			MapKey: key,
+			Child:  child,
 		}
 	case *proto.Expression_ReferenceSegment_StructField_:
 		return &StructFieldRef{
 			Field: seg.StructField.Field,
-			Child: RefSegmentFromProto(seg.StructField.Child),
+			Child: child,
 		}
 	case *proto.Expression_ReferenceSegment_ListElement_:
 		return &ListElementRef{
 			Offset: seg.ListElement.Offset,
-			Child:  RefSegmentFromProto(seg.ListElement.Child),
+			Child:  child,
 		}
 	}
 
@@ -783,6 +801,9 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 	switch rt := p.ReferenceType.(type) {
 	case *proto.Expression_FieldReference_DirectReference:
 		refseg := RefSegmentFromProto(rt.DirectReference)
+		if refseg == nil {
+			return nil, fmt.Errorf("%w: missing or invalid reference segment", substraitgo.ErrInvalidExpr)
+		}
 		if root == RootReference && baseSchema != nil {
 			baseType := baseSchema.AsStructType()
 			knownType, err = refseg.GetType(baseType)
diff --git a/expr/functions.go b/expr/functions.go
index cd16c14..baae32a 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -847,13 +847,18 @@ func NewAggregateFunctionFromProto(
 		}
 	}
 
+	outputType, err := typeFromProto(agg.OutputType)
+	if err != nil {
+		return nil, fmt.Errorf("aggregate function output type: %w", err)
+	}
+
 	id, ok := reg.DecodeFunc(agg.FunctionReference)
 	if !ok {
 		return nil, substraitgo.ErrNotFound
 	}
 	decl, ok := reg.LookupAggregateFunction(agg.FunctionReference)
 	if !ok {
-		return NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), types.TypeFromProto(agg.OutputType), agg.Options, agg.Invocation, agg.Phase, sorts, args...)
+		return NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), outputType, agg.Options, agg.Invocation, agg.Phase, sorts, args...)
 	}
 
 	return &AggregateFunction{
@@ -861,7 +866,7 @@ func NewAggregateFunctionFromProto(
 		declaration: decl,
 		args:        args,
 		options:     agg.Options,
-		outputType:  types.TypeFromProto(agg.OutputType),
+		outputType:  outputType,
 		phase:       agg.Phase,
 		invocation:  agg.Invocation,
 		Sorts:       sorts,
diff --git a/expr/literals.go b/expr/literals.go
index 04909c9..0a72855 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1041,11 +1041,12 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 }
 
 // LiteralFromProto constructs the appropriate Literal struct from
-// a protobuf message.
+// a protobuf message, or returns nil if the message does not describe
+// a literal.
 func LiteralFromProto(l *proto.Expression_Literal) Literal {
-	nullability := getNullability(l.Nullable)
+	nullability := getNullability(l.GetNullable())
 
-	switch lit := l.LiteralType.(type) {
+	switch lit := l.GetLiteralType().(type) {
 	case *proto.Expression_Literal_Boolean:
 		return &PrimitiveLiteral[bool]{
 			Value: lit.Boolean,
@@ -1054,6 +1055,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_I8:
+		if int32(int8(lit.I8)) != lit.I8 {
+			return nil
+		}
 		return &PrimitiveLiteral[int8]{
 			Value: int8(lit.I8),
 			Type: &types.Int8Type{
@@ -1061,6 +1065,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_I16:
+		if int32(int16(lit.I16)) != lit.I16 {
+			return nil
+		}
 		return &PrimitiveLiteral[int16]{
 			Value: int16(lit.I16),
 			Type: &types.Int16Type{
@@ -1174,6 +1181,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_Decimal_:
+		if len(lit.Decimal.Value) != 16 {
+			return nil
+		}
 		return &ProtoLiteral{
 			Value: lit.Decimal.Value,
 			Type: &types.DecimalType{
@@ -1198,12 +1208,18 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_Null:
-		return &NullLiteral{Type: types.TypeFromProto(lit.Null)}
+		nullType := types.TypeFromProto(lit.Null)
+		if nullType == nil {
+			return nil
+		}
+		return &NullLiteral{Type: nullType}
 	case *proto.Expression_Literal_Struct_:
 		typeList := make([]types.Type, len(lit.Struct.Fields))
 		fields := make([]Literal, len(lit.Struct.Fields))
 		for i, f := range lit.Struct.Fields {
-			fields[i] = LiteralFromProto(f)
+			if fields[i] = LiteralFromProto(f); fields[i] == nil {
+				return nil
+			}
 			typeList[i] = fields[i].GetType()
 		}
 
@@ -1215,10 +1231,17 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Types:            typeList,
 			}}
 	case *proto.Expression_Literal_Map_:
+		// The type of an empty map is only known to an EmptyMap literal.
+		if len(lit.Map.KeyValues) == 0 {
+			return nil
+		}
 		ret := make(MapLiteralValue, len(lit.Map.KeyValues))
 		for i, kv := range lit.Map.KeyValues {
 			ret[i].Key = LiteralFromProto(kv.Key)
 			ret[i].Value = LiteralFromProto(kv.Value)
+			if ret[i].Key == nil || ret[i].Value == nil {
+				return nil
+			}
 		}
 		return &MapLiteral{
 			Value: ret,
@@ -1229,9 +1252,15 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Value:            ret[0].Value.GetType(),
 			}}
 	case *proto.Expression_Literal_List_:
+		// The type of an empty list is only known to an EmptyList literal.
+		if len(lit.List.Values) == 0 {
+			return nil
+		}
 		ret := make(ListLiteralValue, len(lit.List.Values))
 		for i, v := range lit.List.Values {
-			ret[i] = LiteralFromProto(v)
+			if ret[i] = LiteralFromProto(v); ret[i] == nil {
+				return nil
+			}
 		}
 		return &NestedLiteral[ListLiteralValue]{
 			Value: ListLiteralValue(ret),
@@ -1241,26 +1270,43 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Type:             ret[0].GetType(),
 			}}
 	case *proto.Expression_Literal_EmptyList:
+		elementType := types.TypeFromProto(lit.EmptyList.Type)
+		if elementType == nil {
+			return nil
+		}
 		return &NestedLiteral[ListLiteralValue]{
 			Value: nil,
 			Type: &types.ListType{
 				Nullability:      nullability,
 				TypeVariationRef: l.TypeVariationReference,
-				Type:             types.TypeFromProto(lit.EmptyList.Type),
+				Type:             elementType,
 			}}
 	case *proto.Expression_Literal_EmptyMap:
+		keyType, valueType := types.TypeFromProto(lit.EmptyMap.Key), types.TypeFromProto(lit.EmptyMap.Value)
+		if keyType == nil || valueType == nil {
+			return nil
+		}
 		return &MapLiteral{
 			Value: nil,
 			Type: &types.MapType{
 				Nullability:      nullability,
 				TypeVariationRef: l.TypeVariationReference,
-				Key:              types.TypeFromProto(lit.EmptyMap.Key),
-				Value:            types.TypeFromProto(lit.EmptyMap.Value),
+				Key:              keyType,
+				Value:            valueType,
 			}}
 	case *proto.Expression_Literal_UserDefined_:
 		params := make([]types.TypeParam, len(lit.UserDefined.TypeParameters))
 		for i, p := range lit.UserDefined.TypeParameters {
-			params[i] = types.TypeParamFromProto(p)
+			if params[i] = types.TypeParamFromProto(p); params[i] == nil {
+				return nil
+			}
+		}
+		// Only types declared by an extension are supported, not type aliases.
+		if _, ok := lit.UserDefined.TypeAnchorType.(*proto.Expression_Literal_UserDefined_TypeReference); !ok {
+			return nil
+		}
+		if lit.UserDefined.Val == nil {
+			return nil
 		}
 
 		return &ProtoLiteral{
@@ -1324,7 +1370,7 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 	case *proto.Expression_Literal_IntervalCompound_:
 		return intervalCompoundLiteralFromProto(l)
 	}
-	panic("unimplemented literal type")
+	return nil
 }
 
 // NewPrecisionTimeLiteral creates a new PrecisionTime from an integer value, representing time since
diff --git a/plan/internal/helper.go b/plan/internal/helper.go
index aa0424b..02b244d 100644
--- a/plan/internal/helper.go
+++ b/plan/internal/helper.go
@@ -1,6 +1,9 @@
 package internal
 
 import (
+	"fmt"
+
+	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/expr"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
 )
@@ -17,10 +20,14 @@ func VirtualTableExpressionFromProto(s *proto.Expression_Nested_Struct, reg expr
 	return fields, nil
 }
 
-func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) expr.VirtualTableExpressionValue {
+func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) (expr.VirtualTableExpressionValue, error) {
 	fields := make(expr.VirtualTableExpressionValue, len(s.Fields))
 	for i, f := range s.Fields {
-		fields[i] = expr.LiteralFromProto(f)
+		value := expr.LiteralFromProto(f)
+		if value == nil {
+			return nil, fmt.Errorf("%w: missing or invalid literal in virtual table row", substraitgo.ErrInvalidExpr)
+		}
+		fields[i] = value
 	}
-	return fields
+	return fields, nil
 }
diff --git a/plan/plan.go b/plan/plan.go
index 43fbb1b..9926f64 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -261,9 +261,14 @@ func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders m
 	if len(plan.ParameterBindings) > 0 {
 		ret.parameterBindings = make([]DynamicParameterBinding, len(plan.ParameterBindings))
 		for i, pb := range plan.ParameterBindings {
+			value := expr.LiteralFromProto(pb.Value)
+			if value == nil {
+				return nil, fmt.Errorf("%w: parameter binding %d has a missing or invalid value",
+					substraitgo.ErrInvalidExpr, pb.ParameterAnchor)
+			}
 			ret.parameterBindings[i] = DynamicParameterBinding{
 				ParameterAnchor: pb.ParameterAnchor,
-				Value:           expr.LiteralFromProto(pb.Value),
+				Value:           value,
 			}
 		}
 	}
@@ -473,7 +478,11 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			}
 			var values []expr.VirtualTableExpressionValue
 			for _, v := range readType.VirtualTable.Values {
-				values = append(values, internal.VirtualTableExprFromLiteralProto(v))
+				row, err := internal.VirtualTableExprFromLiteralProto(v)
+				if err != nil {
+					return nil, err
+				}
+				values = append(values, row)
 			}
 			for _, v := range readType.VirtualTable.Expressions {
 				row, err := internal.VirtualTableExpressionFromProto(v, reg)
diff --git a/types/types.go b/types/types.go
index a1d1966..2387092 100644
--- a/types/types.go
+++ b/types/types.go
@@ -222,9 +222,9 @@ type (
 )
 
 // TypeFromProto returns the appropriate Type object from a protobuf
-// type message.
+// type message, or nil if the message does not describe a type.
 func TypeFromProto(t *proto.Type) Type {
-	switch t := t.Kind.(type) {
+	switch t := t.GetKind().(type) {
 	case *proto.Type_Bool:
 		return &BooleanType{
 			Nullability:      Nullability(t.Bool.Nullability),
@@ -296,7 +296,7 @@ func TypeFromProto(t *proto.Type) Type {
 			var err error
 			precision, err = ProtoToTimePrecision(*t.IntervalDay.Precision)
 			if err != nil {
-				panic(fmt.Sprintf("Invalid precision %v", err))
+				return nil
 			}
 		}
 		return &IntervalDayType{
@@ -307,7 +307,7 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_IntervalCompound_:
 		precision, err := ProtoToTimePrecision(t.IntervalCompound.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil
 		}
 		return &IntervalCompoundType{
 			nullability:      Nullability(t.IntervalCompound.Nullability),
@@ -352,7 +352,7 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_PrecisionTime_:
 		precision, err := ProtoToTimePrecision(t.PrecisionTime.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil
 		}
 		return &PrecisionTimeType{
 			Nullability:      Nullability(t.PrecisionTime.Nullability),
@@ -362,7 +362,7 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_PrecisionTimestamp_:
 		precision, err := ProtoToTimePrecision(t.PrecisionTimestamp.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil
 		}
 		return &PrecisionTimestampType{
 			Nullability:      Nullability(t.PrecisionTimestamp.Nullability),
@@ -372,7 +372,7 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_PrecisionTimestampTz:
 		precision, err := ProtoToTimePrecision(t.PrecisionTimestampTz.Precision)
 		if err != nil {
-			panic(fmt.Sprintf("Invalid precision %v", err))
+			return nil
 		}
 		return &PrecisionTimestampTzType{PrecisionTimestampType{
 			Nullability:      Nullability(t.PrecisionTimestampTz.Nullability),
@@ -382,7 +382,9 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_Struct_:
 		fields := make([]Type, len(t.Struct.Types))
 		for i, f := range t.Struct.Types {
-			fields[i] = TypeFromProto(f)
+			if fields[i] = TypeFromProto(f); fields[i] == nil {
+				return nil
+			}
 		}
 		return &StructType{
 			Nullability:      Nullability(t.Struct.Nullability),
@@ -392,30 +394,46 @@ func TypeFromProto(t *proto.Type) Type {
 	case *proto.Type_Func_:
 		params := make([]Type, len(t.Func.ParameterTypes))
 		for i, p := range t.Func.ParameterTypes {
-			params[i] = TypeFromProto(p)
+			if params[i] = TypeFromProto(p); params[i] == nil {
+				return nil
+			}
+		}
+		returnType := TypeFromProto(t.Func.ReturnType)
+		if returnType == nil {
+			return nil
 		}
 		return &FuncType{
 			Nullability:    Nullability(t.Func.Nullability),
 			ParameterTypes: params,
-			ReturnType:     TypeFromProto(t.Func.ReturnType),
+			ReturnType:     returnType,
 		}
 	case *proto.Type_List_:
+		elementType := TypeFromProto(t.List.Type)
+		if elementType == nil {
+			return nil
+		}
 		return &ListType{
 			Nullability:      Nullability(t.List.Nullability),
 			TypeVariationRef: t.List.TypeVariationReference,
-			Type:             TypeFromProto(t.List.Type),
+			Type:             elementType,
 		}
 	case *proto.Type_Map_:
+		keyType, valueType := TypeFromProto(t.Map.Key), TypeFromProto(t.Map.Value)
+		if keyType == nil || valueType == nil {
+			return nil
+		}
 		return &MapType{
 			Nullability:      Nullability(t.Map.Nullability),
 			TypeVariationRef: t.Map.TypeVariationReference,
-			Key:              TypeFromProto(t.Map.Key),
-			Value:            TypeFromProto(t.Map.Value),
+			Key:              keyType,
+			Value:            valueType,
 		}
 	case *proto.Type_UserDefined_:
 		params := make([]TypeParam, len(t.UserDefined.TypeParameters))
 		for i, p := range t.UserDefined.TypeParameters {
-			params[i] = TypeParamFromProto(p)
+			if params[i] = TypeParamFromProto(p); params[i] == nil {
+				return nil
+			}
 		}
 		return &UserDefinedType{
 			Nullability:      Nullability(t.UserDefined.Nullability),
@@ -424,7 +442,7 @@ func TypeFromProto(t *proto.Type) Type {
 			TypeParameters:   params,
 		}
 	}
-	panic("unimplemented type from proto")
+	return nil
 }
 
 type (
@@ -1587,13 +1605,17 @@ func (p StringParameter) Evaluate(symbolTable map[string]any) (any, error) {
 // TypeParamFromProto converts a protobuf Type_Parameter message to
 // a TypeParam object for processing.
 func TypeParamFromProto(p *proto.Type_Parameter) TypeParam {
-	switch p := p.Parameter.(type) {
+	switch p := p.GetParameter().(type) {
 	case *proto.Type_Parameter_Null:
 		return NullParameter{}
 	case *proto.Type_Parameter_Boolean:
 		return BooleanParameter(p.Boolean)
 	case *proto.Type_Parameter_DataType:
-		return &DataTypeParameter{TypeFromProto(p.DataType)}
+		dataType := TypeFromProto(p.DataType)
+		if dataType == nil {
+			return nil
+		}
+		return &DataTypeParameter{dataType}
 	case *proto.Type_Parameter_Integer:
 		return IntegerParameter(p.Integer)
 	case *proto.Type_Parameter_Enum:
-- 
2.43.0


From 8725a233d5d35ebd6cb3731992e7d443a4488959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 021/104] fix: literals with an invalid precision, type
 reference or value are rejected; deprecated day intervals keep their
 microseconds

---
 expr/literals.go | 69 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 17 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 0a72855..c93b41a 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -547,7 +547,8 @@ func (t *ProtoLiteral) ValueString() string {
 	case *types.IntervalDayType:
 		x, _ := t.Value.(*proto.Expression_Literal_IntervalDayToSecond)
 		// Validity is required by construction.
-		return fmt.Sprintf("%d days, %d seconds, %d subseconds", x.GetDays(), x.GetSeconds(), x.GetSubseconds())
+		_, subSeconds, _ := intervalDayPrecisionSubSeconds(x)
+		return fmt.Sprintf("%d days, %d seconds, %d subseconds", x.GetDays(), x.GetSeconds(), subSeconds)
 	}
 	return fmt.Sprintf("%s", t.Value)
 }
@@ -571,13 +572,14 @@ func (t *ProtoLiteral) IsoValueString() string {
 	case *types.IntervalDayType:
 		x, _ := t.Value.(*proto.Expression_Literal_IntervalDayToSecond)
 		// Validity is required by construction.
+		_, subSeconds, _ := intervalDayPrecisionSubSeconds(x)
 		sb := strings.Builder{}
 		sb.WriteString("P")
 		if x.GetDays() != 0 {
 			sb.WriteString(fmt.Sprintf("%dD", x.GetDays()))
 		}
 		duration := time.Duration(x.GetSeconds()) * time.Second
-		duration += types.SubSecondsToDuration(x.GetSubseconds(), literalType.Precision)
+		duration += types.SubSecondsToDuration(subSeconds, literalType.Precision)
 		if duration != 0 || x.GetDays() == 0 {
 			sb.WriteString("T")
 			if hours := duration / time.Hour; hours != 0 {
@@ -787,11 +789,25 @@ func newPrecisionTimestampTzWithType(literal *ProtoLiteral, ptstzType *types.Pre
 	return nil, fmt.Errorf("literal type is not precision timestamp tz")
 }
 
+// intervalDayPrecisionSubSeconds returns the precision of a day-to-second
+// interval and its sub-seconds in that precision. Intervals in the deprecated
+// form count microseconds instead.
+func intervalDayPrecisionSubSeconds(v *types.IntervalDayToSecond) (types.TimePrecision, int64, error) {
+	if mode, ok := v.GetPrecisionMode().(*proto.Expression_Literal_IntervalDayToSecond_Precision); ok {
+		precision, err := types.ProtoToTimePrecision(mode.Precision)
+		return precision, v.GetSubseconds(), err
+	}
+	return types.PrecisionMicroSeconds, v.GetSubseconds() + int64(v.GetMicroseconds()), nil
+}
+
 func newIntervalDayWithType(literal *ProtoLiteral, intervalDayType *types.IntervalDayType) (Literal, error) {
 	if _, ok := literal.GetType().(*types.IntervalDayType); ok {
 		intervalValue := literal.Value.(*proto.Expression_Literal_IntervalDayToSecond)
-		precisionDiff := intervalValue.GetPrecision() - intervalDayType.Precision.ToProtoVal()
-		ss := intervalValue.GetSubseconds()
+		precision, ss, err := intervalDayPrecisionSubSeconds(intervalValue)
+		if err != nil {
+			return nil, err
+		}
+		precisionDiff := precision - intervalDayType.Precision
 		if precisionDiff != 0 {
 			factor := int64(math.Pow10(int(math.Abs(float64(precisionDiff)))))
 			if precisionDiff > 0 {
@@ -988,11 +1004,15 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.IntervalDayToSecond:
+		precision, _, err := intervalDayPrecisionSubSeconds(v)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{
 			Value: v,
 			Type: &types.IntervalDayType{
 				Nullability: getNullability(nullable),
-				Precision:   types.TimePrecision(v.GetPrecision()),
+				Precision:   precision,
 			},
 		}, nil
 	case *types.Decimal:
@@ -1008,9 +1028,17 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.UserDefinedLiteral:
+		if _, ok := v.TypeAnchorType.(*proto.Expression_Literal_UserDefined_TypeReference); !ok {
+			return nil, fmt.Errorf("%w: user-defined literal needs a type reference", substraitgo.ErrInvalidExpr)
+		}
+		if v.Val == nil {
+			return nil, fmt.Errorf("%w: user-defined literal has no value", substraitgo.ErrInvalidExpr)
+		}
 		params := make([]types.TypeParam, len(v.TypeParameters))
 		for i, p := range v.TypeParameters {
-			params[i] = types.TypeParamFromProto(p)
+			if params[i] = types.TypeParamFromProto(p); params[i] == nil {
+				return nil, fmt.Errorf("%w: invalid type parameter %d of user-defined literal", substraitgo.ErrInvalidExpr, i)
+			}
 		}
 
 		return &ProtoLiteral{
@@ -1030,11 +1058,23 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.PrecisionTime:
-		return NewPrecisionTimeLiteral(v.Value, types.TimePrecision(v.Precision), getNullability(nullable)), nil
+		precision, err := types.ProtoToTimePrecision(v.GetPrecision())
+		if err != nil {
+			return nil, err
+		}
+		return NewPrecisionTimeLiteral(v.GetValue(), precision, getNullability(nullable)), nil
 	case *types.PrecisionTimestamp:
-		return NewPrecisionTimestampLiteral(v.PrecisionTimestamp.Value, types.TimePrecision(v.PrecisionTimestamp.Precision), getNullability(nullable)), nil
+		precision, err := types.ProtoToTimePrecision(v.PrecisionTimestamp.GetPrecision())
+		if err != nil {
+			return nil, err
+		}
+		return NewPrecisionTimestampLiteral(v.PrecisionTimestamp.GetValue(), precision, getNullability(nullable)), nil
 	case *types.PrecisionTimestampTz:
-		return NewPrecisionTimestampTzLiteral(v.PrecisionTimestampTz.Value, types.TimePrecision(v.PrecisionTimestampTz.Precision), getNullability(nullable)), nil
+		precision, err := types.ProtoToTimePrecision(v.PrecisionTimestampTz.GetPrecision())
+		if err != nil {
+			return nil, err
+		}
+		return NewPrecisionTimestampTzLiteral(v.PrecisionTimestampTz.GetValue(), precision, getNullability(nullable)), nil
 	}
 
 	return nil, substraitgo.ErrNotImplemented
@@ -1138,14 +1178,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_IntervalDayToSecond_:
-		precision := types.PrecisionMicroSeconds
-		switch lit.IntervalDayToSecond.PrecisionMode.(type) {
-		case *proto.Expression_Literal_IntervalDayToSecond_Precision:
-			var err error
-			precision, err = types.ProtoToTimePrecision(lit.IntervalDayToSecond.GetPrecision())
-			if err != nil {
-				return nil
-			}
+		precision, _, err := intervalDayPrecisionSubSeconds(lit.IntervalDayToSecond)
+		if err != nil {
+			return nil
 		}
 		return &ProtoLiteral{
 			Value: lit.IntervalDayToSecond,
-- 
2.43.0


From 77dfddafa964172e8ff5e002da80f517df571a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:31 +0000
Subject: [PATCH 022/104] fix: compound interval literals keep their precision
 when the day part is zero

---
 expr/interval_compound_literal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/interval_compound_literal.go b/expr/interval_compound_literal.go
index 39aec31..1f60137 100644
--- a/expr/interval_compound_literal.go
+++ b/expr/interval_compound_literal.go
@@ -37,7 +37,7 @@ func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
 		intrCompPB.IntervalYearToMonth = yearToMonthProto
 	}
 
-	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 {
+	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 || m.SubSecondPrecision != types.PrecisionSeconds {
 		dayToSecondProto := &proto.Expression_Literal_IntervalDayToSecond{
 			Days:          m.Days,
 			Seconds:       m.Seconds,
-- 
2.43.0


From 487cc33f175758fa1bdeffc827af7d293f8815b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:39 +0000
Subject: [PATCH 023/104] fix: PrecisionTimestampTzType.GetType returns the
 zoned type

---
 types/precison_timestamp_types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types/precison_timestamp_types.go b/types/precison_timestamp_types.go
index ae650bf..232c8ca 100644
--- a/types/precison_timestamp_types.go
+++ b/types/precison_timestamp_types.go
@@ -199,6 +199,8 @@ func (m *PrecisionTimestampTzType) GetParameters() []interface{} {
 	return []interface{}{m.Precision}
 }
 
+func (m *PrecisionTimestampTzType) GetType() Type { return m }
+
 func (m *PrecisionTimestampTzType) Equals(rhs Type) bool {
 	if o, ok := rhs.(*PrecisionTimestampTzType); ok {
 		return *o == *m
-- 
2.43.0


From 6bab22cb61c62b01f76497f5f038df7695b6dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:50 +0000
Subject: [PATCH 024/104] fix: rewriting an option of a MultiOrList no longer
 panics

---
 expr/expression.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 155b2d5..f99085c 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1253,9 +1253,7 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 					out.Options[k] = slices.Clone(ex.Options[k])
 				}
 
-				for k := 0; k < j; k++ {
-					out.Options[i][k] = ex.Options[i][k]
-				}
+				out.Options[i] = slices.Clone(ex.Options[i])
 			}
 
 			if out != nil {
-- 
2.43.0


From 2b2f6748b30e4d0fc025269d2b8a28ee994f6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:01 +0000
Subject: [PATCH 025/104] fix: a switch expression without else can be read
 from protobuf and visited

---
 expr/expression.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index f99085c..58f2484 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -202,9 +202,17 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, err
 		}
 
-		elseExpr, err := ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
-		if err != nil {
-			return nil, err
+		if len(et.SwitchExpression.Ifs) == 0 {
+			return nil, fmt.Errorf("%w: must have at least one switch case", substraitgo.ErrInvalidExpr)
+		}
+
+		// the else clause is optional
+		var elseExpr Expression
+		if et.SwitchExpression.Else != nil {
+			elseExpr, err = ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
+			if err != nil {
+				return nil, err
+			}
 		}
 
 		ifs := make([]struct {
@@ -995,12 +1003,19 @@ func (ex *SwitchExpr) Visit(visit VisitFunc) Expression {
 		}
 	}
 
+	if ex.elseClause == nil {
+		if out == nil {
+			return ex
+		}
+		return out
+	}
+
 	afterElse := visit(ex.elseClause)
+
 	if out == nil {
 		if afterElse == ex.elseClause {
 			return ex
 		}
-
 		out = &SwitchExpr{
 			match: ex.match,
 			ifs:   slices.Clone(ex.ifs),
-- 
2.43.0


From f889d2a82335284a4737e76894f1e35d69ba3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 026/104] fix: visiting an expression reaches window
 partitions, window sorts and field reference roots

---
 expr/field_reference.go | 18 +++++++++++++++++-
 expr/functions.go       | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index a04787e..299086b 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -772,7 +772,23 @@ func (f *FieldReference) GetType() types.Type {
 }
 
 func (f *FieldReference) Visit(v VisitFunc) Expression {
-	return f
+	rootExpr, ok := f.Root.(Expression)
+	if !ok {
+		return f
+	}
+	if _, ok := f.Root.(Literal); ok {
+		// a constant root is a part of the reference itself
+		return f
+	}
+
+	after := v(rootExpr)
+	if after == rootExpr {
+		return f
+	}
+
+	out := *f
+	out.Root = after
+	return &out
 }
 
 func (*FieldReference) IsScalar() bool { return true }
diff --git a/expr/functions.go b/expr/functions.go
index baae32a..ae52a2e 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -758,12 +758,40 @@ func (w *WindowFunction) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	if args == nil {
+	var parts []Expression
+	for i, part := range w.Partitions {
+		if after := visit(part); after != part {
+			if parts == nil {
+				parts = slices.Clone(w.Partitions)
+			}
+			parts[i] = after
+		}
+	}
+
+	var sorts []SortField
+	for i, sort := range w.Sorts {
+		if after := visit(sort.Expr); after != sort.Expr {
+			if sorts == nil {
+				sorts = slices.Clone(w.Sorts)
+			}
+			sorts[i].Expr = after
+		}
+	}
+
+	if args == nil && parts == nil && sorts == nil {
 		return w
 	}
 
 	out := *w
-	out.args = args
+	if args != nil {
+		out.args = args
+	}
+	if parts != nil {
+		out.Partitions = parts
+	}
+	if sorts != nil {
+		out.Sorts = sorts
+	}
 	return &out
 }
 
-- 
2.43.0


From 33bb99395a9e07e19a56fbee658e2dbfa2203b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:01 +0000
Subject: [PATCH 027/104] fix: function equality compares argument counts and
 bounds types, and masks compare by content

---
 expr/field_reference.go | 3 ++-
 expr/functions.go       | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 299086b..cb312d8 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -10,6 +10,7 @@ import (
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	pb "google.golang.org/protobuf/proto"
 )
 
 // RootRefType is a marker interface for types that can be used as a Root
@@ -760,7 +761,7 @@ func (f *FieldReference) Equals(rhs Expression) bool {
 				return false
 			}
 
-			return ref == rhs
+			return pb.Equal(ref.ToProto(), rhs.ToProto())
 		}
 	}
 
diff --git a/expr/functions.go b/expr/functions.go
index ae52a2e..e2297d8 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -423,10 +423,8 @@ func (s *ScalarFunction) Equals(rhs Expression) bool {
 		return false
 	}
 
-	for i := range s.args {
-		if !FuncArgsEqual(s.args[i], other.args[i]) {
-			return false
-		}
+	if !slices.EqualFunc(s.args, other.args, FuncArgsEqual) {
+		return false
 	}
 
 	return slices.EqualFunc(s.options, other.options, func(a, b *types.FunctionOption) bool {
@@ -651,6 +649,8 @@ func (w *WindowFunction) Equals(other Expression) bool {
 		return false
 	case w.phase != rhs.phase || w.invocation != rhs.invocation:
 		return false
+	case w.BoundsType != rhs.BoundsType:
+		return false
 	case w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound:
 		return false
 	case !slices.EqualFunc(w.options, rhs.options, func(l, r *types.FunctionOption) bool {
-- 
2.43.0


From ca7f0dcefc6e59200f608dd075f7eb497a156c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:52 +0000
Subject: [PATCH 028/104] fix: malformed masks are errors, masks without child
 and masked references can be written and printed

---
 expr/field_reference.go | 93 +++++++++++++++++++++++++++++------------
 plan/relations.go       |  3 ++
 2 files changed, 70 insertions(+), 26 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index cb312d8..b9dd4f7 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -360,28 +360,43 @@ func (e *MaskExpression) Select() MaskStructSelect {
 	return slices.Clone(e.sel)
 }
 
+// MaskExpressionFromProto returns nil if the mask is missing or malformed.
 func MaskExpressionFromProto(p *proto.Expression_MaskExpression) *MaskExpression {
-	sel := make(MaskStructSelect, len(p.Select.StructItems))
-	for i, item := range p.Select.StructItems {
-		sel[i].field = item.Field
-		if item.Child != nil {
-			sel[i].child = maskSelectFromProto(item.Child)
-		}
+	if p.GetSelect() == nil {
+		return nil
+	}
+	sel, ok := maskStructItemsFromProto(p.Select.StructItems)
+	if !ok {
+		return nil
 	}
 	return &MaskExpression{sel: sel, maintainSingular: p.MaintainSingularStruct}
 }
 
-func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
+func maskStructItemsFromProto(items []*proto.Expression_MaskExpression_StructItem) (MaskStructSelect, bool) {
+	sel := make(MaskStructSelect, len(items))
+	for i, item := range items {
+		child, ok := maskSelectFromProto(item.Child)
+		if !ok {
+			return nil, false
+		}
+		sel[i] = MaskStructItem{field: item.Field, child: child}
+	}
+	return sel, true
+}
+
+// maskSelectFromProto returns false if the selection is malformed, the
+// selection of a missing message is nil.
+func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) (MaskSelect, bool) {
+	if p == nil {
+		return nil, true
+	}
 	switch s := p.Type.(type) {
 	case *proto.Expression_MaskExpression_Select_Struct:
-		items := make(MaskStructSelect, len(s.Struct.StructItems))
-		for i, item := range s.Struct.StructItems {
-			items[i].field = item.Field
-			if item.Child != nil {
-				items[i].child = maskSelectFromProto(item.Child)
-			}
+		items, ok := maskStructItemsFromProto(s.Struct.StructItems)
+		if !ok {
+			return nil, false
 		}
-		return items
+		return items, true
 	case *proto.Expression_MaskExpression_Select_List:
 		selection := make([]MaskListSelectItem, len(s.List.Selection))
 		for i, sel := range s.List.Selection {
@@ -390,17 +405,21 @@ func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
 				selection[i] = (*MaskListElement)(s.Item)
 			case *proto.Expression_MaskExpression_ListSelect_ListSelectItem_Slice:
 				selection[i] = (*MaskListSlice)(s.Slice)
+			default:
+				return nil, false
 			}
 		}
-		return &MaskListSelect{
-			selection: selection,
-			child:     maskSelectFromProto(s.List.Child),
+		child, ok := maskSelectFromProto(s.List.Child)
+		if !ok {
+			return nil, false
 		}
+		return &MaskListSelect{selection: selection, child: child}, true
 	case *proto.Expression_MaskExpression_Select_Map:
-		var ret MaskMapSelect
-		if s.Map.Child != nil {
-			ret.child = maskSelectFromProto(s.Map.Child)
+		child, ok := maskSelectFromProto(s.Map.Child)
+		if !ok {
+			return nil, false
 		}
+		ret := MaskMapSelect{child: child}
 
 		switch sk := s.Map.Select.(type) {
 		case *proto.Expression_MaskExpression_MapSelect_Expression:
@@ -409,16 +428,25 @@ func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
 		case *proto.Expression_MaskExpression_MapSelect_Key:
 			ret.key = sk.Key.MapKey
 			ret.kind = MapSelectKey
+		default:
+			return nil, false
 		}
-		return &ret
+		return &ret, true
 	}
-	panic("unimplemented mask select type")
+	return nil, false
 }
 
 type MaskSelect interface {
 	ToProto() *proto.Expression_MaskExpression_Select
 }
 
+func maskChildToProto(child MaskSelect) *proto.Expression_MaskExpression_Select {
+	if child == nil {
+		return nil
+	}
+	return child.ToProto()
+}
+
 type MaskStructSelect []MaskStructItem
 
 func (m MaskStructSelect) toProtoStructSelect() *proto.Expression_MaskExpression_StructSelect {
@@ -473,7 +501,7 @@ func (m *MaskListSelect) ToProto() *proto.Expression_MaskExpression_Select {
 		Type: &proto.Expression_MaskExpression_Select_List{
 			List: &proto.Expression_MaskExpression_ListSelect{
 				Selection: selection,
-				Child:     m.child.ToProto(),
+				Child:     maskChildToProto(m.child),
 			},
 		},
 	}
@@ -539,7 +567,7 @@ func (m *MaskMapSelect) Child() MaskSelect {
 func (m *MaskMapSelect) ToProto() *proto.Expression_MaskExpression_Select {
 	ret := &proto.Expression_MaskExpression_Select_Map{
 		Map: &proto.Expression_MaskExpression_MapSelect{
-			Child: m.child.ToProto(),
+			Child: maskChildToProto(m.child),
 		},
 	}
 
@@ -656,7 +684,14 @@ func (f *FieldReference) String() string {
 	if f.knownType != nil {
 		typ = " => " + f.knownType.String()
 	}
-	return b.String() + f.Reference.(ReferenceSegment).String() + typ
+	var ref string
+	switch r := f.Reference.(type) {
+	case ReferenceSegment:
+		ref = r.String()
+	case *MaskExpression:
+		ref = ".mask(" + r.ToProto().String() + ")"
+	}
+	return b.String() + ref + typ
 }
 
 func (f *FieldReference) ToProtoFuncArg() *proto.FunctionArgument {
@@ -837,7 +872,13 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		ref = refseg
 
 	case *proto.Expression_FieldReference_MaskedReference:
-		ref = MaskExpressionFromProto(rt.MaskedReference)
+		mask := MaskExpressionFromProto(rt.MaskedReference)
+		if mask == nil {
+			return nil, fmt.Errorf("%w: missing or invalid mask", substraitgo.ErrInvalidExpr)
+		}
+		ref = mask
+	default:
+		return nil, fmt.Errorf("%w: field reference without a reference type", substraitgo.ErrInvalidExpr)
 	}
 
 	return &FieldReference{Root: root, Reference: ref, knownType: knownType}, nil
diff --git a/plan/relations.go b/plan/relations.go
index 4f501c6..ce76384 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -85,6 +85,9 @@ func (b *baseReadRel) fromProtoReadRel(rel *proto.ReadRel, reg expr.ExtensionReg
 
 	if rel.Projection != nil {
 		b.projection = expr.MaskExpressionFromProto(rel.Projection)
+		if b.projection == nil {
+			return fmt.Errorf("%w: invalid projection mask", substraitgo.ErrInvalidRel)
+		}
 	}
 
 	b.advExtension = rel.AdvancedExtension
-- 
2.43.0


From 60ac3b3628022dfb04bac8f88fec363db199669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:59 +0000
Subject: [PATCH 029/104] fix: a custom aggregate function keeps its
 declaration

---
 expr/functions.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index e2297d8..0936a55 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -843,13 +843,14 @@ func NewCustomAggregateFunc(
 	}
 
 	return &AggregateFunction{
-		funcRef:    reg.GetFuncAnchor(v.ID()),
-		outputType: outputType,
-		options:    opts,
-		args:       args,
-		invocation: invoke,
-		phase:      phase,
-		Sorts:      sorts,
+		funcRef:     reg.GetFuncAnchor(v.ID()),
+		declaration: v,
+		outputType:  outputType,
+		options:     opts,
+		args:        args,
+		invocation:  invoke,
+		phase:       phase,
+		Sorts:       sorts,
 	}, nil
 }
 
-- 
2.43.0


From dbe293a8d51d1a54e42cc380df006af8c46f65f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:27 +0000
Subject: [PATCH 030/104] fix: subqueries read from protobuf name their
 operation, and a scalar subquery has one column

---
 plan/builders.go | 15 ++++++++-------
 plan/subquery.go | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index b63af38..de70913 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -980,8 +980,8 @@ func (b *builder) SetPredicateSubquery(input Rel, predicateOp SetPredicateOp) (*
 		return nil, errNilInputRel
 	}
 
-	if predicateOp == SetPredicateOpUnspecified {
-		return nil, fmt.Errorf("predicateOp must be specified")
+	if err := validateSetPredicateOp(predicateOp); err != nil {
+		return nil, err
 	}
 
 	return NewSetPredicateSubquery(
@@ -995,6 +995,10 @@ func (b *builder) ScalarSubquery(input Rel) (*ScalarSubquery, error) {
 		return nil, errNilInputRel
 	}
 
+	if err := validateScalarSubquery(input); err != nil {
+		return nil, err
+	}
+
 	return NewScalarSubquery(input), nil
 }
 
@@ -1008,11 +1012,8 @@ func (b *builder) SetComparisonSubquery(
 	reductionOp SetComparisonReductionOp,
 	comparisonOp SetComparisonComparisonOp,
 ) (*SetComparisonSubquery, error) {
-	if reductionOp == SetComparisonReductionOpUnspecified {
-		return nil, fmt.Errorf("reductionOp must be specified")
-	}
-	if comparisonOp == SetComparisonComparisonOpUnspecified {
-		return nil, fmt.Errorf("comparisonOp must be specified")
+	if err := validateSetComparisonOps(reductionOp, comparisonOp); err != nil {
+		return nil, err
 	}
 
 	if left == nil {
diff --git a/plan/subquery.go b/plan/subquery.go
index 02516ec..0b68e65 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -27,6 +27,9 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		if err != nil {
 			return nil, err
 		}
+		if err := validateScalarSubquery(rel); err != nil {
+			return nil, err
+		}
 		return NewScalarSubquery(rel), nil
 
 	case *proto.Expression_Subquery_InPredicate_:
@@ -51,6 +54,9 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		if err != nil {
 			return nil, fmt.Errorf("error parsing tuples in set predicate: %w", err)
 		}
+		if err := validateSetPredicateOp(subType.SetPredicate.PredicateOp); err != nil {
+			return nil, err
+		}
 		return NewSetPredicateSubquery(subType.SetPredicate.PredicateOp, tuples), nil
 	case *proto.Expression_Subquery_SetComparison_:
 		left, err := expr.ExprFromProto(subType.SetComparison.Left, baseSchema, reg)
@@ -62,6 +68,9 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		if err != nil {
 			return nil, fmt.Errorf("error parsing right relation in set comparison: %w", err)
 		}
+		if err := validateSetComparisonOps(subType.SetComparison.ReductionOp, subType.SetComparison.ComparisonOp); err != nil {
+			return nil, err
+		}
 
 		return NewSetComparisonSubquery(
 			subType.SetComparison.ReductionOp,
@@ -75,6 +84,34 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 	}
 }
 
+// validateScalarSubquery checks that the relation of a scalar subquery has the one
+// column whose value the subquery denotes.
+func validateScalarSubquery(input Rel) error {
+	schema := input.RecordType()
+	if n := schema.FieldCount(); n != 1 {
+		return fmt.Errorf("%w: scalar subquery must return exactly one column, got %d",
+			substraitgo.ErrInvalidExpr, n)
+	}
+	return nil
+}
+
+func validateSetPredicateOp(op SetPredicateOp) error {
+	if op == SetPredicateOpUnspecified {
+		return fmt.Errorf("%w: predicateOp must be specified", substraitgo.ErrInvalidExpr)
+	}
+	return nil
+}
+
+func validateSetComparisonOps(reductionOp SetComparisonReductionOp, comparisonOp SetComparisonComparisonOp) error {
+	if reductionOp == SetComparisonReductionOpUnspecified {
+		return fmt.Errorf("%w: reductionOp must be specified", substraitgo.ErrInvalidExpr)
+	}
+	if comparisonOp == SetComparisonComparisonOpUnspecified {
+		return fmt.Errorf("%w: comparisonOp must be specified", substraitgo.ErrInvalidExpr)
+	}
+	return nil
+}
+
 // ScalarSubquery is a subquery that returns one row and one column
 type ScalarSubquery struct {
 	Input Rel
-- 
2.43.0


From e3e0a408d5dd2d1cebde2bff3a5d4c7ca9aac9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:57 +0000
Subject: [PATCH 031/104] fix: expressions over a reference of unknown type are
 reported or have no type instead of panicking

---
 expr/builder.go    |  7 +++++++
 expr/expression.go | 18 +++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/expr/builder.go b/expr/builder.go
index 14b515e..f11ec60 100644
--- a/expr/builder.go
+++ b/expr/builder.go
@@ -291,6 +291,13 @@ type castBuilder struct {
 func (cb *castBuilder) BuildExpr() (Expression, error)       { return cb.Build() }
 func (cb *castBuilder) BuildFuncArg() (types.FuncArg, error) { return cb.Build() }
 func (cb *castBuilder) Build() (*Cast, error) {
+	if cb.toType == nil {
+		return nil, fmt.Errorf("%w: cast must have an output type", substraitgo.ErrInvalidExpr)
+	}
+	if cb.input == nil {
+		return nil, fmt.Errorf("%w: cast must have an input", substraitgo.ErrInvalidExpr)
+	}
+
 	in, err := cb.input.BuildExpr()
 	if err != nil {
 		return nil, err
diff --git a/expr/expression.go b/expr/expression.go
index 58f2484..dac4b2d 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -505,6 +505,9 @@ func NewIfThen(firstIf IfThenPair, elseClause Expression, elsifs ...IfThenPair)
 	}
 
 	outputType := elseClause.GetType()
+	if outputType == nil {
+		return nil, fmt.Errorf("%w: the type of the else expression is unknown", substraitgo.ErrInvalidExpr)
+	}
 	if firstIf.If == nil {
 		return nil, fmt.Errorf("%w: cannot have nil If expression", substraitgo.ErrInvalidExpr)
 	}
@@ -789,6 +792,10 @@ func NewSwitch(match Expression, elseClause Expression, switchCases ...struct {
 		return nil, fmt.Errorf("%w: cannot construct Switch with nil match", substraitgo.ErrInvalidExpr)
 	}
 
+	if match.GetType() == nil {
+		return nil, fmt.Errorf("%w: the type of the match expression is unknown", substraitgo.ErrInvalidExpr)
+	}
+
 	// we don't care about the nullability for this comparison
 	matchType := match.GetType().WithNullability(types.NullabilityUnspecified)
 	if len(switchCases) == 0 {
@@ -801,8 +808,11 @@ func NewSwitch(match Expression, elseClause Expression, switchCases ...struct {
 	// nullability for the purposes of validity comparison here.
 	var outputType types.Type
 	if elseClause != nil {
+		if elseClause.GetType() == nil {
+			return nil, fmt.Errorf("%w: the type of the else expression is unknown", substraitgo.ErrInvalidExpr)
+		}
 		outputType = elseClause.GetType().WithNullability(types.NullabilityUnspecified)
-	} else if switchCases[0].Then != nil {
+	} else if switchCases[0].Then != nil && switchCases[0].Then.GetType() != nil {
 		outputType = switchCases[0].Then.GetType().WithNullability(types.NullabilityUnspecified)
 	}
 
@@ -812,6 +822,8 @@ func NewSwitch(match Expression, elseClause Expression, switchCases ...struct {
 			return nil, fmt.Errorf("%w: switch case must have a non-nil literal for If", substraitgo.ErrInvalidExpr)
 		case c.Then == nil:
 			return nil, fmt.Errorf("%w: switch case must have non-nil Then expression", substraitgo.ErrInvalidExpr)
+		case c.Then.GetType() == nil:
+			return nil, fmt.Errorf("%w: the type of the Then expression is unknown", substraitgo.ErrInvalidExpr)
 		case !matchType.Equals(c.If.GetType().WithNullability(types.NullabilityUnspecified)):
 			return nil, fmt.Errorf("%w: switch case If literal doesn't match type of match expression. expected %s, got %s",
 				substraitgo.ErrInvalidExpr, matchType, c.If.GetType())
@@ -896,6 +908,10 @@ func (ex *SwitchExpr) GetType() types.Type {
 	var t types.Type
 	for _, cond := range ex.ifs {
 		t = cond.Then.GetType()
+		if t == nil {
+			// the type of a reference to an outer query is not known
+			return nil
+		}
 		// check if any of the branches return a nullable type
 		// only return a non-nullable if *all* branches return
 		// non-nullable
-- 
2.43.0


From ed0ffe713bc31fc8d8d81a8ab23559e5a1b4591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:10 +0000
Subject: [PATCH 032/104] fix: function arguments in the deprecated args field
 are read instead of dropped

---
 expr/expression.go | 28 ++++++++++++++++++++++++----
 expr/functions.go  |  5 +++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index dac4b2d..8f3bf9c 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -58,6 +58,24 @@ func literalFromProto(l *proto.Expression_Literal) (Literal, error) {
 	return lit, nil
 }
 
+// functionArguments returns the arguments of a function message. Messages of old
+// producers have their arguments in the deprecated args field.
+func functionArguments(fn interface {
+	GetArguments() []*proto.FunctionArgument
+	GetArgs() []*proto.Expression
+}) []*proto.FunctionArgument {
+	if arguments := fn.GetArguments(); len(arguments) > 0 {
+		return arguments
+	}
+
+	args := fn.GetArgs()
+	out := make([]*proto.FunctionArgument, len(args))
+	for i, a := range args {
+		out[i] = &proto.FunctionArgument{ArgType: &proto.FunctionArgument_Value{Value: a}}
+	}
+	return out
+}
+
 func FuncArgFromProto(e *proto.FunctionArgument, baseSchema *types.RecordType, reg ExtensionRegistry) (types.FuncArg, error) {
 	switch et := e.GetArgType().(type) {
 	case *proto.FunctionArgument_Enum:
@@ -82,8 +100,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		return FieldReferenceFromProto(et.Selection, baseSchema, reg)
 	case *proto.Expression_ScalarFunction_:
 		var err error
-		args := make([]types.FuncArg, len(et.ScalarFunction.Arguments))
-		for i, a := range et.ScalarFunction.Arguments {
+		fnArgs := functionArguments(et.ScalarFunction)
+		args := make([]types.FuncArg, len(fnArgs))
+		for i, a := range fnArgs {
 			if args[i], err = FuncArgFromProto(a, baseSchema, reg); err != nil {
 				return nil, err
 			}
@@ -113,8 +132,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}, nil
 	case *proto.Expression_WindowFunction_:
 		var err error
-		args := make([]types.FuncArg, len(et.WindowFunction.Arguments))
-		for i, a := range et.WindowFunction.Arguments {
+		fnArgs := functionArguments(et.WindowFunction)
+		args := make([]types.FuncArg, len(fnArgs))
+		for i, a := range fnArgs {
 			if args[i], err = FuncArgFromProto(a, baseSchema, reg); err != nil {
 				return nil, err
 			}
diff --git a/expr/functions.go b/expr/functions.go
index 0936a55..cd2f3b9 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -862,8 +862,9 @@ func NewAggregateFunctionFromProto(
 	}
 
 	var err error
-	args := make([]types.FuncArg, len(agg.Arguments))
-	for i, a := range agg.Arguments {
+	fnArgs := functionArguments(agg)
+	args := make([]types.FuncArg, len(fnArgs))
+	for i, a := range fnArgs {
 		if args[i], err = FuncArgFromProto(a, baseSchema, reg); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b21434bd8e3b6d9015899611cf5261fd558ce7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:28 +0000
Subject: [PATCH 033/104] fix: malformed relation messages are errors instead
 of panics or silent losses

---
 plan/common.go    |  4 +--
 plan/plan.go      | 79 ++++++++++++++++++++++++++++++++++++++++++++---
 plan/relations.go | 20 +++++++++---
 types/types.go    |  8 ++---
 4 files changed, 97 insertions(+), 14 deletions(-)

diff --git a/plan/common.go b/plan/common.go
index 6890c0d..8b925c6 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -132,8 +132,8 @@ type RelCommon struct {
 }
 
 func (rc *RelCommon) fromProtoCommon(c *proto.RelCommon) {
-	rc.hint = c.Hint
-	rc.advExtension = c.AdvancedExtension
+	rc.hint = c.GetHint()
+	rc.advExtension = c.GetAdvancedExtension()
 
 	if emit, ok := c.GetEmitKind().(*proto.RelCommon_Emit_); ok {
 		rc.mapping = emit.Emit.OutputMapping
diff --git a/plan/plan.go b/plan/plan.go
index 9926f64..122fe57 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -452,7 +452,54 @@ func decodeExtensionDef(reg expr.ExtensionRegistry, detail *anypb.Any) (Extensio
 }
 
 func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
-	switch rel := rel.RelType.(type) {
+	out, err := relFromProto(rel, reg)
+	if err != nil {
+		return nil, err
+	}
+	// the columns of an extension that was not decoded are not known
+	if mapping := out.OutputMapping(); len(mapping) > 0 && hasKnownOutput(out) {
+		nOutput := out.directOutputSchema().FieldCount()
+		for _, idx := range mapping {
+			if idx < 0 || idx >= nOutput {
+				return nil, errOutputMappingOutOfRange
+			}
+		}
+	}
+	return out, nil
+}
+
+// tableSchemaFromProto reads the names and types of the columns of a table.
+func tableSchemaFromProto(schema *proto.NamedStruct) (types.NamedStruct, error) {
+	if schema != nil && schema.Struct == nil {
+		return types.NamedStruct{}, fmt.Errorf("%w: table schema without column types", substraitgo.ErrInvalidRel)
+	}
+	out := types.NewNamedStructFromProto(schema)
+	for i, t := range out.Struct.Types {
+		if t == nil {
+			return types.NamedStruct{}, fmt.Errorf("%w: missing or invalid type for column %d of table schema",
+				substraitgo.ErrInvalidRel, i)
+		}
+	}
+	return out, nil
+}
+
+// hasKnownOutput reports whether the columns of the relation are known.
+func hasKnownOutput(rel Rel) bool {
+	var definition ExtensionRelDefinition
+	switch r := rel.(type) {
+	case *ExtensionSingleRel:
+		definition = r.Definition()
+	case *ExtensionLeafRel:
+		definition = r.Definition()
+	case *ExtensionMultiRel:
+		definition = r.Definition()
+	}
+	_, undecoded := definition.(*UndecodedExtension)
+	return !undecoded
+}
+
+func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
+	switch rel := rel.GetRelType().(type) {
 	case *proto.Rel_Read:
 		var out ReadRel
 		switch readType := rel.Read.ReadType.(type) {
@@ -461,7 +508,9 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		case *proto.ReadRel_LocalFiles_:
 			items := make([]FileOrFiles, len(readType.LocalFiles.Items))
 			for i, item := range readType.LocalFiles.Items {
-				items[i].fromProto(item)
+				if err := items[i].fromProto(item); err != nil {
+					return nil, err
+				}
 			}
 			out = &LocalFileReadRel{
 				items:        items,
@@ -595,12 +644,20 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 				}
 				groupingExpressions = append(groupingExpressions, expr)
 			}
-			for _, g := range rel.Aggregate.Groupings {
+			for i, g := range rel.Aggregate.Groupings {
+				if len(g.GroupingExpressions) > 0 {
+					return nil, fmt.Errorf("%w: AggregateRel grouping %d has its own grouping expressions besides those of the relation",
+						substraitgo.ErrInvalidRel, i)
+				}
 				groupingReferences = append(groupingReferences, g.ExpressionReferences)
 			}
 		} else { // support old style grouping for backward compatibility
 			groups := make([][]expr.Expression, len(rel.Aggregate.Groupings))
 			for i, g := range rel.Aggregate.Groupings {
+				if len(g.ExpressionReferences) > 0 {
+					return nil, fmt.Errorf("%w: AggregateRel grouping %d references expressions, but the relation has none",
+						substraitgo.ErrInvalidRel, i)
+				}
 				groups[i] = make([]expr.Expression, len(g.GroupingExpressions))
 				for j, e := range g.GroupingExpressions {
 					groups[i][j], err = expr.ExprFromProto(e, &base, reg)
@@ -613,6 +670,15 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			groupingExpressions, groupingReferences = groupingExprs(groups)
 		}
 
+		for i, refs := range groupingReferences {
+			for _, ref := range refs {
+				if int64(ref) >= int64(len(groupingExpressions)) {
+					return nil, fmt.Errorf("%w: AggregateRel grouping %d references expression %d of %d",
+						substraitgo.ErrInvalidRel, i, ref, len(groupingExpressions))
+				}
+			}
+		}
+
 		measures := make([]AggRelMeasure, len(rel.Aggregate.Measures))
 		for i, m := range rel.Aggregate.Measures {
 			measures[i].measure, err = expr.NewAggregateFunctionFromProto(m.Measure, &base, reg)
@@ -911,7 +977,10 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to WriteRel: %w", err)
 		}
-		tableSchema := types.NewNamedStructFromProto(rel.Write.TableSchema)
+		tableSchema, err := tableSchemaFromProto(rel.Write.TableSchema)
+		if err != nil {
+			return nil, err
+		}
 		out := &NamedTableWriteRel{
 			tableSchema: tableSchema,
 			op:          rel.Write.Op,
@@ -929,6 +998,8 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 				out.advExtension = writeType.NamedTable.AdvancedExtension
 			case *proto.WriteRel_ExtensionTable:
 				return nil, fmt.Errorf("%w: ExtensionTable not supported for WriteRel", substraitgo.ErrInvalidRel)
+			default:
+				return nil, fmt.Errorf("%w: WriteRel has no table to write to", substraitgo.ErrInvalidRel)
 			}
 		default:
 			return nil, fmt.Errorf("%w: WriteRel not supported for optype %v", substraitgo.ErrInvalidRel, rel.Write.Op)
diff --git a/plan/relations.go b/plan/relations.go
index ce76384..bec8cbf 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -67,8 +67,10 @@ func (b *baseReadRel) fromProtoReadRel(rel *proto.ReadRel, reg expr.ExtensionReg
 		b.RelCommon.fromProtoCommon(rel.Common)
 	}
 
-	b.baseSchema = types.NewNamedStructFromProto(rel.BaseSchema)
 	var err error
+	if b.baseSchema, err = tableSchemaFromProto(rel.BaseSchema); err != nil {
+		return err
+	}
 	if rel.Filter != nil {
 		b.filter, err = expr.ExprFromProto(rel.Filter, types.NewRecordTypeFromStruct(b.baseSchema.Struct), reg)
 		if err != nil {
@@ -523,6 +525,7 @@ type (
 	ArrowReadOptions     proto.ReadRel_LocalFiles_FileOrFiles_ArrowReadOptions
 	OrcReadOptions       proto.ReadRel_LocalFiles_FileOrFiles_OrcReadOptions
 	DwrfReadOptions      proto.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions
+	TextReadOptions      proto.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions
 	ExtensionReadOptions anypb.Any
 
 	FileFormat interface {
@@ -534,6 +537,7 @@ func (*ParquetReadOptions) isFileFormat()   {}
 func (*ArrowReadOptions) isFileFormat()     {}
 func (*OrcReadOptions) isFileFormat()       {}
 func (*DwrfReadOptions) isFileFormat()      {}
+func (*TextReadOptions) isFileFormat()      {}
 func (*ExtensionReadOptions) isFileFormat() {}
 
 // FileOrFiles represents the contents of a LocalFiles table. Many files
@@ -553,7 +557,7 @@ type FileOrFiles struct {
 	Format FileFormat
 }
 
-func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
+func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) error {
 	f.PartIndex = p.PartitionIndex
 	f.Start, f.Len = p.Start, p.Length
 
@@ -566,6 +570,8 @@ func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
 		f.PathType, f.Path = URIPath, path.UriPath
 	case *proto.ReadRel_LocalFiles_FileOrFiles_UriPathGlob:
 		f.PathType, f.Path = URIPathGlob, path.UriPathGlob
+	default:
+		return fmt.Errorf("%w: local file without a path", substraitgo.ErrInvalidRel)
 	}
 
 	switch format := p.FileFormat.(type) {
@@ -579,7 +585,10 @@ func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
 		f.Format = (*OrcReadOptions)(format.Orc)
 	case *proto.ReadRel_LocalFiles_FileOrFiles_Parquet:
 		f.Format = (*ParquetReadOptions)(format.Parquet)
+	case *proto.ReadRel_LocalFiles_FileOrFiles_Text:
+		f.Format = (*TextReadOptions)(format.Text)
 	}
+	return nil
 }
 
 func (f *FileOrFiles) ToProto() *proto.ReadRel_LocalFiles_FileOrFiles {
@@ -616,6 +625,10 @@ func (f *FileOrFiles) ToProto() *proto.ReadRel_LocalFiles_FileOrFiles {
 		ret.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Dwrf{
 			Dwrf: (*proto.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions)(fm),
 		}
+	case *TextReadOptions:
+		ret.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Text{
+			Text: (*proto.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions)(fm),
+		}
 	case *ExtensionReadOptions:
 		ret.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Extension{
 			Extension: (*anypb.Any)(fm),
@@ -2289,9 +2302,8 @@ func (wr *NamedTableWriteRel) directOutputSchema() types.RecordType {
 		return types.RecordType{}
 	case OutputModeModifiedRecords:
 		return *types.NewRecordTypeFromStruct(wr.tableSchema.Struct)
-	case OutputModeUnspecified:
-		panic("output mode not specified")
 	}
+	// what is returned when no output mode is specified is not known
 	return types.RecordType{}
 }
 
diff --git a/types/types.go b/types/types.go
index 2387092..da12169 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1724,16 +1724,16 @@ func NewNamedStructFromProto(n *proto.NamedStruct) NamedStruct {
 		return NamedStruct{}
 	}
 
-	fields := make([]Type, len(n.Struct.Types))
-	for i, f := range n.Struct.Types {
+	fields := make([]Type, len(n.Struct.GetTypes()))
+	for i, f := range n.Struct.GetTypes() {
 		fields[i] = TypeFromProto(f)
 	}
 
 	return NamedStruct{
 		Names: n.Names,
 		Struct: StructType{
-			Nullability:      Nullability(n.Struct.Nullability),
-			TypeVariationRef: n.Struct.TypeVariationReference,
+			Nullability:      Nullability(n.Struct.GetNullability()),
+			TypeVariationRef: n.Struct.GetTypeVariationReference(),
 			Types:            fields,
 		},
 	}
-- 
2.43.0


From aa5c6e446d8e9a9b187f346c5fa9a53dcd420023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:01 +0000
Subject: [PATCH 034/104] fix: an emit without columns, the build input of a
 hash join, and the create mode and extension of a write are kept

---
 plan/common.go    |  5 ++++-
 plan/plan.go      |  7 +++++++
 plan/relations.go | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/plan/common.go b/plan/common.go
index 8b925c6..37f071a 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -136,7 +136,10 @@ func (rc *RelCommon) fromProtoCommon(c *proto.RelCommon) {
 	rc.advExtension = c.GetAdvancedExtension()
 
 	if emit, ok := c.GetEmitKind().(*proto.RelCommon_Emit_); ok {
-		rc.mapping = emit.Emit.OutputMapping
+		// an emit without columns is not the same as no emit
+		if rc.mapping = emit.Emit.GetOutputMapping(); rc.mapping == nil {
+			rc.mapping = []int32{}
+		}
 	} else {
 		rc.mapping = nil
 	}
diff --git a/plan/plan.go b/plan/plan.go
index 122fe57..234d627 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -233,6 +233,9 @@ func FromProto(plan *proto.Plan, c *extensions.Collection) (*Plan, error) {
 // on the registry before parsing relations, allowing extension rels to be
 // decoded into typed ExtensionRelDefinitions rather than UndecodedExtension.
 func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders map[string]expr.ExtensionRelDecoder) (*Plan, error) {
+	if len(plan.GetTypeAliases()) > 0 {
+		return nil, fmt.Errorf("%w: type aliases of a plan", substraitgo.ErrNotImplemented)
+	}
 	extSet, err := extensions.GetExtensionSet(plan, c)
 	if err != nil {
 		return nil, err
@@ -922,6 +925,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			right:        right,
 			keys:         keys,
 			joinType:     HashMergeJoinType(rel.HashJoin.Type),
+			buildInput:   rel.HashJoin.BuildInput,
 			advExtension: rel.HashJoin.AdvancedExtension,
 		}
 		out.fromProtoCommon(rel.HashJoin.Common)
@@ -986,6 +990,9 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			op:          rel.Write.Op,
 			input:       input,
 			outputMode:  rel.Write.Output,
+			createMode:  rel.Write.CreateMode,
+
+			writeAdvExtension: rel.Write.AdvancedExtension,
 		}
 		if rel.Write.Common != nil {
 			out.fromProtoCommon(rel.Write.Common)
diff --git a/plan/relations.go b/plan/relations.go
index bec8cbf..d8af747 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -2028,6 +2028,15 @@ func comparisonJoinKeysFromProto(
 	return out, nil
 }
 
+// HashJoinBuildInput tells which input a hash join builds its table from.
+type HashJoinBuildInput = proto.HashJoinRel_BuildInput
+
+const (
+	HashJoinBuildInputUnspecified = proto.HashJoinRel_BUILD_INPUT_UNSPECIFIED
+	HashJoinBuildInputLeft        = proto.HashJoinRel_BUILD_INPUT_LEFT
+	HashJoinBuildInputRight       = proto.HashJoinRel_BUILD_INPUT_RIGHT
+)
+
 // HashJoinRel represents a relational operator to build a hash table out
 // of the right input based on a set of join keys. It will then probe
 // the hash table for incoming inputs, finding matches.
@@ -2038,6 +2047,7 @@ type HashJoinRel struct {
 	keys           []*ComparisonJoinKey
 	postJoinFilter expr.Expression
 	joinType       HashMergeJoinType
+	buildInput     HashJoinBuildInput
 	advExtension   *extensions.AdvancedExtension
 }
 
@@ -2069,6 +2079,9 @@ func (hr *HashJoinRel) PostJoinFilter() expr.Expression {
 	return hr.postJoinFilter
 }
 func (hr *HashJoinRel) Type() HashMergeJoinType { return hr.joinType }
+
+// BuildInput returns the input the hash table is built from.
+func (hr *HashJoinRel) BuildInput() HashJoinBuildInput { return hr.buildInput }
 func (hr *HashJoinRel) GetAdvancedExtension() *extensions.AdvancedExtension {
 	return hr.advExtension
 }
@@ -2086,6 +2099,7 @@ func (hr *HashJoinRel) ToProto() *proto.Rel {
 			Right:             hr.right.ToProto(),
 			Keys:              comparisonJoinKeysToProto(hr.keys),
 			Type:              proto.HashJoinRel_JoinType(hr.joinType),
+			BuildInput:        hr.buildInput,
 			AdvancedExtension: hr.advExtension,
 		},
 	}
@@ -2280,6 +2294,16 @@ const (
 	OutputModeModifiedRecords = proto.WriteRel_OUTPUT_MODE_MODIFIED_RECORDS
 )
 
+type CreateMode = proto.WriteRel_CreateMode
+
+const (
+	CreateModeUnspecified     = proto.WriteRel_CREATE_MODE_UNSPECIFIED
+	CreateModeAppendIfExists  = proto.WriteRel_CREATE_MODE_APPEND_IF_EXISTS
+	CreateModeReplaceIfExists = proto.WriteRel_CREATE_MODE_REPLACE_IF_EXISTS
+	CreateModeIgnoreIfExists  = proto.WriteRel_CREATE_MODE_IGNORE_IF_EXISTS
+	CreateModeErrorIfExists   = proto.WriteRel_CREATE_MODE_ERROR_IF_EXISTS
+)
+
 // NamedTableWriteRel is a relational operator that writes data to a table. The list of strings
 // that make up the names are to represent namespacing (e.g. mydb.mytable).
 // This assumes a shared catalog between systems exchanging a message.
@@ -2294,6 +2318,10 @@ type NamedTableWriteRel struct {
 	op          WriteOp
 	input       Rel
 	outputMode  OutputMode
+	createMode  CreateMode
+	// writeAdvExtension is the extension of the write itself, while
+	// advExtension is the one of the table.
+	writeAdvExtension *extensions.AdvancedExtension
 }
 
 func (wr *NamedTableWriteRel) directOutputSchema() types.RecordType {
@@ -2324,6 +2352,7 @@ func (wr *NamedTableWriteRel) Input() Rel  { return wr.input }
 func (wr *NamedTableWriteRel) OutputMode() OutputMode {
 	return wr.outputMode
 }
+func (wr *NamedTableWriteRel) CreateMode() CreateMode { return wr.createMode }
 
 func (wr *NamedTableWriteRel) ToProto() *proto.Rel {
 	return &proto.Rel{
@@ -2339,6 +2368,9 @@ func (wr *NamedTableWriteRel) ToProto() *proto.Rel {
 				TableSchema: wr.tableSchema.ToProto(),
 				Op:          wr.op,
 				Input:       wr.input.ToProto(),
+				CreateMode:  wr.createMode,
+
+				AdvancedExtension: wr.writeAdvExtension,
 			},
 		},
 	}
-- 
2.43.0


From 92762ae95238571d70f4eee17e725ba3dc0fd0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:13 +0000
Subject: [PATCH 035/104] fix: the further relations of a built plan do not
 overwrite its root

---
 plan/builders.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plan/builders.go b/plan/builders.go
index de70913..dcb694c 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -781,7 +781,10 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 	}
 
 	for i, o := range others {
-		relations[i].rel = o
+		if o == nil {
+			return nil, errNilInputRel
+		}
+		relations[i+1].rel = o
 	}
 
 	reg := b.reg
-- 
2.43.0


From 0ac0dd47af985433f63192bfbf673543f9124768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:43 +0000
Subject: [PATCH 036/104] fix: builder calls with missing, untyped or unknown
 parts or wrong output columns are errors instead of panics

---
 plan/builders.go | 110 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 85 insertions(+), 25 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index dcb694c..21356e1 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -10,6 +10,7 @@ import (
 	"github.com/substrait-io/substrait-go/v8/expr"
 	"github.com/substrait-io/substrait-go/v8/extensions"
 	"github.com/substrait-io/substrait-go/v8/types"
+	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
 	"google.golang.org/protobuf/types/known/anypb"
 )
 
@@ -213,6 +214,25 @@ var (
 	errNilDefinition           = fmt.Errorf("%w: definition must not be nil", substraitgo.ErrInvalidArg)
 )
 
+// checkExprs checks that none of the expressions is missing and that all have a type.
+func checkExprs(where string, exprs ...expr.Expression) error {
+	for i, e := range exprs {
+		if e == nil {
+			return fmt.Errorf("%w: expression %d of %s must not be nil", substraitgo.ErrInvalidRel, i, where)
+		}
+		if e.GetType() == nil {
+			return fmt.Errorf("%w: expression %d of %s has no known type", substraitgo.ErrInvalidRel, i, where)
+		}
+	}
+	return nil
+}
+
+// isBoolean reports whether the type of an expression is known to be boolean.
+func isBoolean(e expr.Expression) bool {
+	t := e.GetType()
+	return t != nil && t.WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{})
+}
+
 type builder struct {
 	ext    *extensions.Collection
 	extSet extensions.Set
@@ -241,8 +261,12 @@ func (b *builder) UserDefinedType(nameSpace, typeName string, params ...types.Ty
 }
 
 func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.FieldReference, error) {
-	baseTypes := append(left.RecordType().Types(), right.RecordType().Types()...)
-	if index < 0 || index > int32(len(baseTypes)) {
+	if left == nil || right == nil {
+		return nil, errNilInputRel
+	}
+
+	baseTypes := slices.Concat(left.RecordType().Types(), right.RecordType().Types())
+	if index < 0 || index >= int32(len(baseTypes)) {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields to reference",
 			substraitgo.ErrInvalidArg, index, len(baseTypes))
 	}
@@ -251,8 +275,12 @@ func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.Fiel
 }
 
 func (b *builder) RootFieldRef(input Rel, index int32) (*expr.FieldReference, error) {
+	if input == nil {
+		return nil, errNilInputRel
+	}
+
 	base := input.RecordType()
-	if index < 0 || index > base.FieldCount() {
+	if index < 0 || index >= base.FieldCount() {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields in rel",
 			substraitgo.ErrInvalidArg, index, base.FieldCount())
 	}
@@ -284,6 +312,10 @@ func (b *builder) ProjectRemap(input Rel, remap []int32, exprs ...expr.Expressio
 		return nil, fmt.Errorf("%w: must provide at least one expression for project relation", substraitgo.ErrInvalidRel)
 	}
 
+	if err := checkExprs("project relation", exprs...); err != nil {
+		return nil, err
+	}
+
 	noutput := input.RecordType().FieldCount() + int32(len(exprs))
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
@@ -340,21 +372,25 @@ func (b *builder) CreateTableAsSelectRemap(input Rel, remap []int32, tableName [
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
-	}
-
-	return &NamedTableWriteRel{
+	return newNamedTableWrite(remap, NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          WriteOpCTAS,
 		input:       input,
 		outputMode:  OutputModeModifiedRecords,
-	}, nil
+	})
+}
+
+// newNamedTableWrite checks that the mapping selects columns of the output of the write.
+func newNamedTableWrite(remap []int32, out NamedTableWriteRel) (*NamedTableWriteRel, error) {
+	nOutput := out.directOutputSchema().FieldCount()
+	for _, idx := range remap {
+		if idx < 0 || idx >= nOutput {
+			return nil, errOutputMappingOutOfRange
+		}
+	}
+	return &out, nil
 }
 
 func (b *builder) CreateTableAsSelect(input Rel, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
@@ -416,12 +452,12 @@ func (b *builder) FilterRemap(input Rel, condition expr.Expression, remap []int3
 			substraitgo.ErrInvalidRel)
 	}
 
-	if !condition.GetType().WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{}) {
+	if !isBoolean(condition) {
 		return nil, fmt.Errorf("%w: condition for Filter Relation must yield boolean, not %s",
 			substraitgo.ErrInvalidArg, condition.GetType())
 	}
 
-	noutput := input.directOutputSchema().FieldCount()
+	noutput := input.RecordType().FieldCount()
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
 			return nil, errOutputMappingOutOfRange
@@ -451,7 +487,7 @@ func (b *builder) JoinAndFilterRemap(left, right Rel, condition, postJoinFilter
 			substraitgo.ErrInvalidRel)
 	}
 
-	if !condition.GetType().WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{}) {
+	if !isBoolean(condition) {
 		return nil, fmt.Errorf("%w: condition for Join Relation must yield boolean, not %s",
 			substraitgo.ErrInvalidArg, condition.GetType())
 	}
@@ -460,9 +496,13 @@ func (b *builder) JoinAndFilterRemap(left, right Rel, condition, postJoinFilter
 		return nil, fmt.Errorf("%w: join type must not be unspecified for Join relations",
 			substraitgo.ErrInvalidArg)
 	}
+	if _, ok := proto.JoinRel_JoinType_name[int32(joinType)]; !ok {
+		return nil, fmt.Errorf("%w: unknown join type %d for Join relations",
+			substraitgo.ErrInvalidArg, joinType)
+	}
 
 	if postJoinFilter != nil {
-		if !postJoinFilter.GetType().WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{}) {
+		if !isBoolean(postJoinFilter) {
 			return nil, fmt.Errorf("%w: post join filter must be either nil or yield a boolean, not %s",
 				substraitgo.ErrInvalidArg, postJoinFilter.GetType())
 		}
@@ -502,21 +542,14 @@ func (b *builder) NamedWriteRemap(input Rel, op WriteOp, tableName []string, sch
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
-	}
-
-	return &NamedTableWriteRel{
+	return newNamedTableWrite(remap, NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          op,
 		input:       input,
 		outputMode:  OutputModeNoOutput,
-	}, nil
+	})
 }
 
 func (b *builder) NamedWrite(input Rel, op WriteOp, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
@@ -562,6 +595,9 @@ func (b *builder) VirtualTableRemap(fieldNames []string, remap []int32, values .
 	for _, row := range values {
 		rowExpr := make(expr.VirtualTableExpressionValue, 0)
 		for _, col := range row {
+			if col == nil {
+				return nil, fmt.Errorf("%w: virtual table value must not be nil", substraitgo.ErrInvalidRel)
+			}
 			rowExpr = append(rowExpr, col)
 		}
 		exprs = append(exprs, rowExpr)
@@ -591,6 +627,16 @@ func (b *builder) VirtualTableFromExprRemap(fieldNames []string, remap []int32,
 		}
 	}
 
+	for i, row := range values {
+		if len(row) != nfields {
+			return nil, fmt.Errorf("%w: row %d of virtual table has %d values for %d fields",
+				substraitgo.ErrInvalidRel, i, len(row), nfields)
+		}
+		if err := checkExprs("virtual table", row...); err != nil {
+			return nil, err
+		}
+	}
+
 	typeList := make([]types.Type, nfields)
 	for i, v := range values[0] {
 		typeList[i] = v.GetType()
@@ -685,6 +731,11 @@ func (b *builder) SortRemap(input Rel, remap []int32, sorts ...expr.SortField) (
 	if len(sorts) == 0 {
 		return nil, fmt.Errorf("%w: must provide at least one SortField for sort relation", substraitgo.ErrInvalidRel)
 	}
+	for i, s := range sorts {
+		if s.Expr == nil || s.Kind == nil {
+			return nil, fmt.Errorf("%w: sort field %d needs an expression and a kind", substraitgo.ErrInvalidRel, i)
+		}
+	}
 
 	return &SortRel{
 		RelCommon: RelCommon{mapping: remap},
@@ -713,6 +764,9 @@ func (b *builder) SetRemap(op SetOp, remap []int32, inputs ...Rel) (*SetRel, err
 	if op == SetOpUnspecified {
 		return nil, fmt.Errorf("%w: operation for set relation must not be unspecified", substraitgo.ErrInvalidArg)
 	}
+	if _, ok := proto.SetRel_SetOp_name[int32(op)]; !ok {
+		return nil, fmt.Errorf("%w: unknown operation %d for set relation", substraitgo.ErrInvalidArg, op)
+	}
 
 	if len(inputs) < 2 {
 		return nil, fmt.Errorf("%w: must have at least 2 relations for a set relation, got %d",
@@ -938,6 +992,12 @@ func (arb *AggregateRelBuilder) validate() error {
 		return errNoGroupingExpression
 	}
 
+	for i, m := range arb.measures {
+		if m.measure == nil {
+			return fmt.Errorf("%w: measure %d of AggregateRel must not be nil", substraitgo.ErrInvalidRel, i)
+		}
+	}
+
 	for _, refList := range arb.groupingReferences {
 		for _, ref := range refList {
 			if ref >= uint32(len(arb.groupingExpressions)) {
-- 
2.43.0


From 71c3eea12b17aa36ae53e00954ff65f084587282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:16 +0000
Subject: [PATCH 037/104] fix: remapping a read or leaf extension relation
 leaves the original alone

---
 plan/relations.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index d8af747..69e8dbe 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -248,7 +248,8 @@ func (n *NamedTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *NamedTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	out := *n
+	return &out, nil
 }
 
 func (n *NamedTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -307,7 +308,8 @@ func (v *VirtualTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (v *VirtualTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return v, nil
+	out := *v
+	return &out, nil
 }
 
 func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -378,7 +380,8 @@ func (e *ExtensionTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (e *ExtensionTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return e, nil
+	out := *e
+	return &out, nil
 }
 
 func (e *ExtensionTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -484,7 +487,8 @@ func (n *IcebergTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *IcebergTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	out := *n
+	return &out, nil
 }
 
 func (n *IcebergTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -688,7 +692,8 @@ func (lf *LocalFileReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (lf *LocalFileReadRel) Copy(_ ...Rel) (Rel, error) {
-	return lf, nil
+	out := *lf
+	return &out, nil
 }
 
 func (lf *LocalFileReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -1742,7 +1747,8 @@ func (el *ExtensionLeafRel) GetInputs() []Rel {
 }
 
 func (el *ExtensionLeafRel) Copy(_ ...Rel) (Rel, error) {
-	return el, nil
+	out := *el
+	return &out, nil
 }
 
 func (el *ExtensionLeafRel) CopyWithExpressionRewrite(_ RewriteFunc, _ ...Rel) (Rel, error) {
-- 
2.43.0


From d4b8940214fce063ca005817a0885d962b957ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:37 +0000
Subject: [PATCH 038/104] fix: rewriting a relation reaches virtual table rows,
 join keys and the sorts of measures

---
 plan/relations.go | 70 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 62 insertions(+), 8 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 69e8dbe..6c0172b 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -317,11 +317,7 @@ func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc,
 	if err != nil {
 		return nil, err
 	}
-	if slices.Equal(newExprs, v.getExpressions()) {
-		return v, nil
-	}
-	vtr := *v
-	vtr.updateFilters(newExprs)
+	filtersUnchanged := slices.Equal(newExprs, v.getExpressions())
 	valuesUnchanged := true
 	newValues := make([]expr.VirtualTableExpressionValue, len(v.values))
 	for i, val := range v.values {
@@ -331,11 +327,16 @@ func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc,
 			if err != nil {
 				return nil, err
 			}
-			valuesUnchanged = valuesUnchanged && newExpr.Equals(e)
+			valuesUnchanged = valuesUnchanged && newExpr == e
 			newExprs[j] = newExpr
 		}
 		newValues[i] = newExprs
 	}
+	if filtersUnchanged && valuesUnchanged {
+		return v, nil
+	}
+	vtr := *v
+	vtr.updateFilters(newExprs)
 	if !valuesUnchanged {
 		vtr.values = newValues
 	}
@@ -1263,6 +1264,16 @@ func (ar *AggregateRel) rewriteAggregateFunc(rewriteFunc RewriteFunc, f *expr.Ag
 	}
 	newF := f.Clone()
 	argsAreEqual := true
+	sorts := slices.Clone(f.Sorts)
+	for i, s := range f.Sorts {
+		newExp, err := rewriteFunc(s.Expr)
+		if err != nil {
+			return nil, err
+		}
+		argsAreEqual = argsAreEqual && s.Expr == newExp
+		sorts[i].Expr = newExp
+	}
+	newF.Sorts = sorts
 	for i := 0; i < f.NArgs(); i++ {
 		arg := f.Arg(i)
 		if exp, ok := arg.(expr.Expression); ok {
@@ -1974,6 +1985,39 @@ func rightJoinKeys(keys []*ComparisonJoinKey) []*expr.FieldReference {
 	return out
 }
 
+// rewriteJoinKeys rewrites both sides of the given join keys, which have to
+// remain field references. A key which does not change is kept.
+func rewriteJoinKeys(rewriteFunc RewriteFunc, keys []*ComparisonJoinKey) ([]*ComparisonJoinKey, error) {
+	rewrite := func(ref *expr.FieldReference) (*expr.FieldReference, error) {
+		newExpr, err := rewriteFunc(ref)
+		if err != nil {
+			return nil, err
+		}
+		newRef, ok := newExpr.(*expr.FieldReference)
+		if !ok {
+			return nil, fmt.Errorf("%w: join key must be a field reference, not %T", substraitgo.ErrInvalidRel, newExpr)
+		}
+		return newRef, nil
+	}
+
+	out := make([]*ComparisonJoinKey, len(keys))
+	for i, k := range keys {
+		left, err := rewrite(k.left)
+		if err != nil {
+			return nil, err
+		}
+		right, err := rewrite(k.right)
+		if err != nil {
+			return nil, err
+		}
+		out[i] = k
+		if left != k.left || right != k.right {
+			out[i] = NewComparisonJoinKey(left, right, k.comparison)
+		}
+	}
+	return out, nil
+}
+
 // joinKeyComparisonFromProto converts a proto comparison into its model form.
 func joinKeyComparisonFromProto(c *proto.ComparisonJoinKey_ComparisonType) (JoinKeyComparison, error) {
 	switch it := c.GetInnerType().(type) {
@@ -2152,11 +2196,16 @@ func (hr *HashJoinRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, newInp
 	if err != nil {
 		return nil, err
 	}
-	if newExpr == hr.postJoinFilter && slices.Equal(newInputs, hr.GetInputs()) {
+	keys, err := rewriteJoinKeys(rewriteFunc, hr.keys)
+	if err != nil {
+		return nil, err
+	}
+	if newExpr == hr.postJoinFilter && slices.Equal(keys, hr.keys) && slices.Equal(newInputs, hr.GetInputs()) {
 		return hr, nil
 	}
 	join := *hr
 	join.left, join.right = newInputs[0], newInputs[1]
+	join.keys = keys
 	join.postJoinFilter = newExpr
 	return &join, nil
 }
@@ -2269,11 +2318,16 @@ func (mr *MergeJoinRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, newIn
 	if err != nil {
 		return nil, err
 	}
-	if newExpr == mr.postJoinFilter && slices.Equal(newInputs, mr.GetInputs()) {
+	keys, err := rewriteJoinKeys(rewriteFunc, mr.keys)
+	if err != nil {
+		return nil, err
+	}
+	if newExpr == mr.postJoinFilter && slices.Equal(keys, mr.keys) && slices.Equal(newInputs, mr.GetInputs()) {
 		return mr, nil
 	}
 	merge := *mr
 	merge.left, merge.right = newInputs[0], newInputs[1]
+	merge.keys = keys
 	merge.postJoinFilter = newExpr
 	return &merge, nil
 }
-- 
2.43.0


From d9c0c90a623042b5d70713b94b81443a038ebc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:25 +0000
Subject: [PATCH 039/104] fix: hash, merge and mark joins have the columns of
 their join type, and unknown join and set operations are errors

---
 plan/plan.go      | 18 ++++++++++++++++--
 plan/relations.go | 42 ++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/plan/plan.go b/plan/plan.go
index 234d627..8b5ff9e 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -736,6 +736,9 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		if rel.Join.Type == JoinTypeUnspecified {
 			return nil, fmt.Errorf("%w: JoinRel must not have unspecified join type", substraitgo.ErrInvalidRel)
 		}
+		if _, ok := proto.JoinRel_JoinType_name[int32(rel.Join.Type)]; !ok {
+			return nil, fmt.Errorf("%w: unknown join type %d for JoinRel", substraitgo.ErrInvalidRel, rel.Join.Type)
+		}
 
 		left, err := RelFromProto(rel.Join.Left, reg)
 		if err != nil {
@@ -816,6 +819,9 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		if rel.Set.Op == SetOpUnspecified {
 			return nil, fmt.Errorf("%w: set operation must not be unspecified", substraitgo.ErrInvalidRel)
 		}
+		if _, ok := proto.SetRel_SetOp_name[int32(rel.Set.Op)]; !ok {
+			return nil, fmt.Errorf("%w: unknown set operation %d", substraitgo.ErrInvalidRel, rel.Set.Op)
+		}
 
 		primary := inputs[0].RecordType()
 		for i, in := range inputs[1:] {
@@ -902,6 +908,10 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.Cross.Common)
 		return out, nil
 	case *proto.Rel_HashJoin:
+		if _, ok := proto.HashJoinRel_JoinType_name[int32(rel.HashJoin.Type)]; !ok {
+			return nil, fmt.Errorf("%w: unknown join type %d for HashJoinRel", substraitgo.ErrInvalidRel, rel.HashJoin.Type)
+		}
+
 		left, err := RelFromProto(rel.HashJoin.Left, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to HashJoinRel: %w", err)
@@ -931,7 +941,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.HashJoin.Common)
 
 		if rel.HashJoin.PostJoinFilter != nil {
-			base := out.RecordType()
+			base := leftBase.Concat(rightBase)
 			out.postJoinFilter, err = expr.ExprFromProto(rel.HashJoin.PostJoinFilter, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for HashJoinRel: %w", err)
@@ -940,6 +950,10 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_MergeJoin:
+		if _, ok := proto.MergeJoinRel_JoinType_name[int32(rel.MergeJoin.Type)]; !ok {
+			return nil, fmt.Errorf("%w: unknown join type %d for MergeJoinRel", substraitgo.ErrInvalidRel, rel.MergeJoin.Type)
+		}
+
 		left, err := RelFromProto(rel.MergeJoin.Left, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to MergeJoinRel: %w", err)
@@ -968,7 +982,7 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.MergeJoin.Common)
 
 		if rel.MergeJoin.PostJoinFilter != nil {
-			base := out.RecordType()
+			base := leftBase.Concat(rightBase)
 			out.postJoinFilter, err = expr.ExprFromProto(rel.MergeJoin.PostJoinFilter, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for MergeJoin: %w", err)
diff --git a/plan/relations.go b/plan/relations.go
index 6c0172b..a4bd55d 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -828,6 +828,8 @@ const (
 	JoinTypeRightSemi   = proto.JoinRel_JOIN_TYPE_RIGHT_SEMI
 	JoinTypeRightAnti   = proto.JoinRel_JOIN_TYPE_RIGHT_ANTI
 	JoinTypeRightSingle = proto.JoinRel_JOIN_TYPE_RIGHT_SINGLE
+	JoinTypeLeftMark    = proto.JoinRel_JOIN_TYPE_LEFT_MARK
+	JoinTypeRightMark   = proto.JoinRel_JOIN_TYPE_RIGHT_MARK
 )
 
 // JoinRel is a binary Join relational operator representing left-join-right,
@@ -874,11 +876,18 @@ func (j *JoinRel) directOutputSchema() types.RecordType {
 		typeList = j.left.RecordType().Types()
 	case JoinTypeRightSemi, JoinTypeRightAnti:
 		return j.right.RecordType()
+	case JoinTypeLeftMark:
+		typeList = append(slices.Clone(j.left.RecordType().Types()), markType)
+	case JoinTypeRightMark:
+		typeList = append(slices.Clone(j.right.RecordType().Types()), markType)
 	}
 
 	return *types.NewRecordTypeFromTypes(typeList)
 }
 
+// markType is the type of the column a mark join adds.
+var markType = &types.BooleanType{Nullability: types.NullabilityNullable}
+
 func (j *JoinRel) RecordType() types.RecordType {
 	return j.remap(j.directOutputSchema())
 }
@@ -1851,8 +1860,37 @@ const (
 	HashMergeRightSemi
 	HashMergeLeftAnti
 	HashMergeRightAnti
+	HashMergeLeftSingle
+	HashMergeRightSingle
+	HashMergeLeftMark
+	HashMergeRightMark
 )
 
+var hashMergeJoinTypes = map[HashMergeJoinType]JoinType{
+	HashMergeInner:       JoinTypeInner,
+	HashMergeOuter:       JoinTypeOuter,
+	HashMergeLeft:        JoinTypeLeft,
+	HashMergeRight:       JoinTypeRight,
+	HashMergeLeftSemi:    JoinTypeLeftSemi,
+	HashMergeRightSemi:   JoinTypeRightSemi,
+	HashMergeLeftAnti:    JoinTypeLeftAnti,
+	HashMergeRightAnti:   JoinTypeRightAnti,
+	HashMergeLeftSingle:  JoinTypeLeftSingle,
+	HashMergeRightSingle: JoinTypeRightSingle,
+	HashMergeLeftMark:    JoinTypeLeftMark,
+	HashMergeRightMark:   JoinTypeRightMark,
+}
+
+// outputSchema returns the columns of a join of this type, which are those of
+// a JoinRel of the same type.
+func (t HashMergeJoinType) outputSchema(left, right Rel) types.RecordType {
+	joinType, ok := hashMergeJoinTypes[t]
+	if !ok {
+		joinType = JoinTypeInner
+	}
+	return (&JoinRel{left: left, right: right, joinType: joinType}).directOutputSchema()
+}
+
 // SimpleComparisonType describes one of the predefined comparison behaviors
 // used by a ComparisonJoinKey.
 type SimpleComparisonType = proto.ComparisonJoinKey_SimpleComparisonType
@@ -2102,7 +2140,7 @@ type HashJoinRel struct {
 }
 
 func (hr *HashJoinRel) directOutputSchema() types.RecordType {
-	return hr.left.RecordType().Concat(hr.right.RecordType())
+	return hr.joinType.outputSchema(hr.left, hr.right)
 }
 
 func (hr *HashJoinRel) RecordType() types.RecordType {
@@ -2228,7 +2266,7 @@ type MergeJoinRel struct {
 }
 
 func (mr *MergeJoinRel) directOutputSchema() types.RecordType {
-	return mr.left.RecordType().Concat(mr.right.RecordType())
+	return mr.joinType.outputSchema(mr.left, mr.right)
 }
 
 func (mr *MergeJoinRel) RecordType() types.RecordType {
-- 
2.43.0


From e2d2d5c771df21a6752708051430d5044a4c51c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:48 +0000
Subject: [PATCH 040/104] fix: an aggregation has one column per grouping
 expression, nullable if not in all sets, and the grouping set id

---
 plan/relations.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index a4bd55d..db6634a 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1166,11 +1166,28 @@ type AggregateRel struct {
 }
 
 func (ar *AggregateRel) directOutputSchema() types.RecordType {
-	groupTypes := make([]types.Type, 0, len(ar.groupingReferences)+len(ar.measures))
+	groupTypes := make([]types.Type, 0, len(ar.groupingExpressions)+len(ar.measures)+1)
+	// the distinct grouping expressions come first, in order of appearance
+	column := make(map[uint32]int)
+	sets := make([]int, 0, len(ar.groupingExpressions))
 	for _, g := range ar.groupingReferences {
+		inSet := make(map[uint32]bool)
 		for _, e := range g {
-			expression := ar.groupingExpressions[e]
-			groupTypes = append(groupTypes, expression.GetType())
+			if _, ok := column[e]; !ok {
+				column[e] = len(groupTypes)
+				groupTypes = append(groupTypes, ar.groupingExpressions[e].GetType())
+				sets = append(sets, 0)
+			}
+			if !inSet[e] {
+				inSet[e] = true
+				sets[column[e]]++
+			}
+		}
+	}
+	// and are null in the records of a grouping set without them
+	for i, n := range sets {
+		if n < len(ar.groupingReferences) && groupTypes[i] != nil {
+			groupTypes[i] = groupTypes[i].WithNullability(types.NullabilityNullable)
 		}
 	}
 
@@ -1178,6 +1195,11 @@ func (ar *AggregateRel) directOutputSchema() types.RecordType {
 		groupTypes = append(groupTypes, m.measure.GetType())
 	}
 
+	// the grouping set of the record, where there are several
+	if len(ar.groupingReferences) > 1 {
+		groupTypes = append(groupTypes, &types.Int32Type{Nullability: types.NullabilityRequired})
+	}
+
 	return *types.NewRecordTypeFromTypes(groupTypes)
 }
 
-- 
2.43.0


From 7652865af3ca6c296862fd422aed45a0635dd9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 041/104] fix: dynamic parameters are found wherever they occur
 in a plan, and all uses agree with the binding

---
 plan/builders.go |   2 +-
 plan/common.go   | 101 +++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 90 insertions(+), 13 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 21356e1..aa57112 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -825,7 +825,7 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 		return nil, err
 	}
 
-	if err := ValidateParameterBindings(root, bindings); err != nil {
+	if err := validateParameterBindings(append([]Rel{root}, others...), bindings); err != nil {
 		return nil, err
 	}
 
diff --git a/plan/common.go b/plan/common.go
index 37f071a..eaea908 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -33,29 +33,43 @@ type DynamicParameterBinding struct {
 //   - A binding whose value type does not match the parameter's declared type
 //     (ignoring nullability).
 func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) error {
+	return validateParameterBindings([]Rel{root}, bindings)
+}
+
+// validateParameterBindings checks the bindings against all relation trees of a plan.
+func validateParameterBindings(rels []Rel, bindings []DynamicParameterBinding) error {
 	if len(bindings) == 0 {
 		return nil
 	}
 
 	// Collect all DynamicParameter output types keyed by anchor.
-	paramTypes := make(map[uint32]types.Type)
-	collectDynamicParams(root, paramTypes)
+	paramTypes := make(map[uint32][]types.Type)
+	for _, rel := range rels {
+		collectDynamicParams(rel, paramTypes)
+	}
 
 	for _, b := range bindings {
-		declaredType, ok := paramTypes[b.ParameterAnchor]
+		declaredTypes, ok := paramTypes[b.ParameterAnchor]
 		if !ok {
 			return fmt.Errorf("%w: parameter binding references anchor %d, "+
 				"but no DynamicParameter with that reference exists in the plan",
 				substraitgo.ErrInvalidPlan, b.ParameterAnchor)
 		}
 
+		if b.Value == nil {
+			return fmt.Errorf("%w: parameter binding for anchor %d has no value",
+				substraitgo.ErrInvalidPlan, b.ParameterAnchor)
+		}
+
 		// Compare ignoring nullability.
 		bindingType := b.Value.GetType().WithNullability(types.NullabilityUnspecified)
-		expectedType := declaredType.WithNullability(types.NullabilityUnspecified)
-		if !bindingType.Equals(expectedType) {
-			return fmt.Errorf("%w: parameter binding for anchor %d has type %s, "+
-				"but DynamicParameter declares type %s",
-				substraitgo.ErrInvalidPlan, b.ParameterAnchor, b.Value.GetType(), declaredType)
+		for _, declaredType := range declaredTypes {
+			expectedType := declaredType.WithNullability(types.NullabilityUnspecified)
+			if !bindingType.Equals(expectedType) {
+				return fmt.Errorf("%w: parameter binding for anchor %d has type %s, "+
+					"but DynamicParameter declares type %s",
+					substraitgo.ErrInvalidPlan, b.ParameterAnchor, b.Value.GetType(), declaredType)
+			}
 		}
 	}
 
@@ -63,8 +77,9 @@ func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) err
 }
 
 // collectDynamicParams walks a relation tree and records the OutputType
-// of every DynamicParameter expression it encounters.
-func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
+// of every DynamicParameter expression it encounters, including those in
+// the relations of subqueries.
+func collectDynamicParams(rel Rel, out map[uint32][]types.Type) {
 	if rel == nil {
 		return
 	}
@@ -77,8 +92,17 @@ func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
 	// Walk expressions owned by this relation.
 	walkRelExprs(rel, func(e expr.Expression) {
 		walkExpr(e, func(inner expr.Expression) {
-			if dp, ok := inner.(*expr.DynamicParameter); ok {
-				out[dp.ParameterReference] = dp.OutputType
+			switch inner := inner.(type) {
+			case *expr.DynamicParameter:
+				out[inner.ParameterReference] = append(out[inner.ParameterReference], inner.OutputType)
+			case *ScalarSubquery:
+				collectDynamicParams(inner.Input, out)
+			case *InPredicateSubquery:
+				collectDynamicParams(inner.Haystack, out)
+			case *SetPredicateSubquery:
+				collectDynamicParams(inner.Tuples, out)
+			case *SetComparisonSubquery:
+				collectDynamicParams(inner.Right, out)
 			}
 		})
 	})
@@ -102,6 +126,59 @@ func walkRelExprs(rel Rel, fn func(expr.Expression)) {
 		for _, sf := range r.Sorts() {
 			fn(sf.Expr)
 		}
+	case *VirtualTableReadRel:
+		fn(r.Filter())
+		fn(r.BestEffortFilter())
+		for _, row := range r.Values() {
+			for _, e := range row {
+				fn(e)
+			}
+		}
+	case ReadRel:
+		fn(r.Filter())
+		fn(r.BestEffortFilter())
+	case *AggregateRel:
+		for _, e := range r.GroupingExpressions() {
+			fn(e)
+		}
+		for _, m := range r.Measures() {
+			fn(m.Filter())
+			for i := 0; i < m.Measure().NArgs(); i++ {
+				if e, ok := m.Measure().Arg(i).(expr.Expression); ok {
+					fn(e)
+				}
+			}
+			for _, sf := range m.Measure().Sorts {
+				fn(sf.Expr)
+			}
+		}
+	case *HashJoinRel:
+		walkJoinKeys(r.Keys(), fn)
+		fn(r.PostJoinFilter())
+	case *MergeJoinRel:
+		walkJoinKeys(r.Keys(), fn)
+		fn(r.PostJoinFilter())
+	case *ExtensionSingleRel:
+		walkExtensionExprs(r.Definition(), r.GetInputs(), fn)
+	case *ExtensionLeafRel:
+		walkExtensionExprs(r.Definition(), r.GetInputs(), fn)
+	case *ExtensionMultiRel:
+		walkExtensionExprs(r.Definition(), r.GetInputs(), fn)
+	}
+}
+
+// walkJoinKeys invokes fn for both sides of all join keys.
+func walkJoinKeys(keys []*ComparisonJoinKey, fn func(expr.Expression)) {
+	for _, k := range keys {
+		fn(k.Left())
+		fn(k.Right())
+	}
+}
+
+// walkExtensionExprs invokes fn for the expressions of an extension relation.
+func walkExtensionExprs(definition ExtensionRelDefinition, inputs []Rel, fn func(expr.Expression)) {
+	for _, e := range definition.Expressions(inputs) {
+		fn(e)
 	}
 }
 
-- 
2.43.0


From 32046b1b99c11bb28d061d856ed27aff594fd315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:37 +0000
Subject: [PATCH 042/104] fix: grouping sets do not share the slices given to
 the aggregation builder

---
 plan/builders.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index aa57112..952da1d 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -934,14 +934,14 @@ func extractGroup(expressionReferences []uint32, combinationIndex int) []uint32
 // AddRollup constructs the rollup grouping strategy from the provided grouping references.
 func (arb *AggregateRelBuilder) AddRollup(groupingReferences []uint32) {
 	for i := len(groupingReferences); i > 0; i-- {
-		rollupSet := groupingReferences[:i]
+		rollupSet := slices.Clone(groupingReferences[:i])
 		arb.groupingReferences = append(arb.groupingReferences, rollupSet)
 	}
 }
 
 // AddGroupingSet adds a new grouping set based on the provided grouping references.
 func (arb *AggregateRelBuilder) AddGroupingSet(groupingReferences []uint32) {
-	arb.groupingReferences = append(arb.groupingReferences, groupingReferences)
+	arb.groupingReferences = append(arb.groupingReferences, slices.Clone(groupingReferences))
 }
 
 func (arb *AggregateRelBuilder) ReplaceInput(rel *Rel) {
@@ -966,9 +966,9 @@ func (arb *AggregateRelBuilder) Build() (*AggregateRel, error) {
 		RelCommon: RelCommon{},
 	}
 	aggregateRel.SetInput(arb.input)
-	aggregateRel.SetMeasures(arb.measures)
-	aggregateRel.SetGroupingExpressions(arb.groupingExpressions)
-	aggregateRel.SetGroupingReferences(arb.groupingReferences)
+	aggregateRel.SetMeasures(slices.Clone(arb.measures))
+	aggregateRel.SetGroupingExpressions(slices.Clone(arb.groupingExpressions))
+	aggregateRel.SetGroupingReferences(slices.Clone(arb.groupingReferences))
 
 	return aggregateRel, nil
 }
-- 
2.43.0


From 668b4d33eea04eedd24ddc2592c39d405d6462a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:09 +0000
Subject: [PATCH 043/104] fix: reject an iceberg read with an empty snapshot
 instead of reading the latest one

---
 plan/plan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plan/plan.go b/plan/plan.go
index 8b5ff9e..16f47f2 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -564,6 +564,9 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 				} else if snapshotTimestamp, ok := direct.Direct.Snapshot.(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp); ok {
 					tableType.SnapshotTimestamp = SnapshotTimestamp(snapshotTimestamp.SnapshotTimestamp)
 				}
+				if direct.Direct.Snapshot != nil && tableType.SnapshotId == "" && tableType.SnapshotTimestamp == 0 {
+					return nil, fmt.Errorf("%w: IcebergTableReadRel with an empty snapshot", substraitgo.ErrInvalidRel)
+				}
 				out = &IcebergTableReadRel{
 					tableType: tableType,
 				}
-- 
2.43.0


From 34d17b2d5e3666a06ebf497a591df3bb269875de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:10 +0000
Subject: [PATCH 044/104] fix: an aggregate measure without a function is an
 error, not a panic

---
 expr/functions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/functions.go b/expr/functions.go
index cd2f3b9..e7a1bb2 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -857,7 +857,7 @@ func NewCustomAggregateFunc(
 func NewAggregateFunctionFromProto(
 	agg *proto.AggregateFunction, baseSchema *types.RecordType, reg ExtensionRegistry,
 ) (*AggregateFunction, error) {
-	if agg.OutputType == nil {
+	if agg.GetOutputType() == nil {
 		return nil, fmt.Errorf("%w: missing output type", substraitgo.ErrInvalidExpr)
 	}
 
-- 
2.43.0


From 90f8e289ec6e701b0e961b43a7084b85b95ad5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:48 +0000
Subject: [PATCH 045/104] fix: a join key without a field reference is an
 error, not a panic

---
 expr/field_reference.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index b9dd4f7..f7f847a 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -837,7 +837,7 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		err       error
 	)
 
-	switch rt := p.RootType.(type) {
+	switch rt := p.GetRootType().(type) {
 	case *proto.Expression_FieldReference_Expression:
 		if root, err = ExprFromProto(rt.Expression, baseSchema, reg); err != nil {
 			return nil, err
@@ -850,7 +850,7 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		root = LambdaParameterReference{StepsOut: rt.LambdaParameterReference.StepsOut}
 	}
 
-	switch rt := p.ReferenceType.(type) {
+	switch rt := p.GetReferenceType().(type) {
 	case *proto.Expression_FieldReference_DirectReference:
 		refseg := RefSegmentFromProto(rt.DirectReference)
 		if refseg == nil {
-- 
2.43.0


From 485a8d54870a073f2348300e35275dfc3828a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:50 +0000
Subject: [PATCH 046/104] fix: a table creation keeps its output columns when
 it is written and read again

---
 plan/relations.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plan/relations.go b/plan/relations.go
index db6634a..a51659b 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -2451,7 +2451,10 @@ func (wr *NamedTableWriteRel) directOutputSchema() types.RecordType {
 	case OutputModeModifiedRecords:
 		return *types.NewRecordTypeFromStruct(wr.tableSchema.Struct)
 	}
-	// what is returned when no output mode is specified is not known
+	// the output mode is not written, only creating a table has an output by default
+	if wr.op == WriteOpCTAS {
+		return *types.NewRecordTypeFromStruct(wr.tableSchema.Struct)
+	}
 	return types.RecordType{}
 }
 
-- 
2.43.0


From dfdff97b309434c963e9939222aab32aff5403b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:07 +0000
Subject: [PATCH 047/104] fix: an extension set is written in anchor order with
 every anchor it has

---
 extensions/extension_mgr.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 7eaa25a..84082f8 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -380,7 +380,10 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	urns := make([]*extensions.SimpleExtensionURN, 0, len(e.urns))
 	for anchor, urn := range e.urns {
-		urnBackRef[urn] = anchor
+		// a URN may have several anchors, use the lowest for consistent output
+		if prev, ok := urnBackRef[urn]; !ok || anchor < prev {
+			urnBackRef[urn] = anchor
+		}
 		urns = append(urns, &extensions.SimpleExtensionURN{
 			ExtensionUrnAnchor: anchor,
 			Urn:                urn,
@@ -390,8 +393,8 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 	// Sort URN extensions by the anchor for consistent output
 	sort.Slice(urns, func(i, j int) bool { return urns[i].ExtensionUrnAnchor < urns[j].ExtensionUrnAnchor })
 
-	decls := make([]*extensions.SimpleExtensionDeclaration, 0, len(e.types)+len(e.typeVariations)+len(e.funcs))
-	for id, anchor := range e.types {
+	decls := make([]*extensions.SimpleExtensionDeclaration, 0, len(e.typesMap)+len(e.typeVariationMap)+len(e.funcMap))
+	for anchor, id := range e.typesMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionType_{
 				ExtensionType: &extensions.SimpleExtensionDeclaration_ExtensionType{
@@ -408,7 +411,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 	})
 	typesCount := len(decls)
 
-	for id, anchor := range e.typeVariations {
+	for anchor, id := range e.typeVariationMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionTypeVariation_{
 				ExtensionTypeVariation: &extensions.SimpleExtensionDeclaration_ExtensionTypeVariation{
@@ -422,11 +425,11 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	typeDecls := decls[typesCount:]
 	sort.Slice(typeDecls, func(i, j int) bool {
-		return decls[i].GetExtensionTypeVariation().TypeVariationAnchor < decls[j].GetExtensionTypeVariation().TypeVariationAnchor
+		return typeDecls[i].GetExtensionTypeVariation().TypeVariationAnchor < typeDecls[j].GetExtensionTypeVariation().TypeVariationAnchor
 	})
 
 	typeVarCount := len(decls)
-	for id, anchor := range e.funcs {
+	for anchor, id := range e.funcMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionFunction_{
 				ExtensionFunction: &extensions.SimpleExtensionDeclaration_ExtensionFunction{
@@ -440,7 +443,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	typeVarDecls := decls[typeVarCount:]
 	sort.Slice(typeVarDecls, func(i, j int) bool {
-		return decls[i].GetExtensionFunction().GetFunctionAnchor() < decls[j].GetExtensionFunction().GetFunctionAnchor()
+		return typeVarDecls[i].GetExtensionFunction().GetFunctionAnchor() < typeVarDecls[j].GetExtensionFunction().GetFunctionAnchor()
 	})
 
 	return urns, decls
-- 
2.43.0


From b69dfc6428682c84825efe6ad3575843f315616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:13 +0000
Subject: [PATCH 048/104] fix: new extension anchors do not collide with those
 read from a plan

---
 extensions/extension_mgr.go | 41 ++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 84082f8..bdd4580 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -518,7 +518,7 @@ func (e *set) GetTypeAnchor(id TypeID) uint32 {
 		if err != nil {
 			panic(err)
 		}
-		a = uint32(len(e.types)) + 1
+		a = freeAnchor(e.typesMap, len(e.types))
 		e.encodeType(a, id)
 	}
 	return a
@@ -531,7 +531,7 @@ func (e *set) GetFuncAnchor(id FunctionID) uint32 {
 		if err != nil {
 			panic(err)
 		}
-		a = uint32(len(e.funcs)) + 1
+		a = freeAnchor(e.funcMap, len(e.funcs))
 		e.encodeFunc(a, id)
 	}
 	return a
@@ -547,12 +547,24 @@ func (e *set) GetTypeVariationAnchor(id TypeVariationID) uint32 {
 		// add 1 to the length to avoid an anchor of 0
 		// so that it's easier to tell when there is no
 		// type variation.
-		a = uint32(len(e.typeVariations)) + 1
+		a = freeAnchor(e.typeVariationMap, len(e.typeVariations))
 		e.encodeTypeVariation(a, id)
 	}
 	return a
 }
 
+// freeAnchor returns the next anchor that is not in use. The anchors of a set
+// which was read from a plan may be any numbers.
+func freeAnchor[T any](used map[uint32]T, n int) uint32 {
+	anchor := uint32(n) + 1
+	for {
+		if _, ok := used[anchor]; !ok {
+			return anchor
+		}
+		anchor++
+	}
+}
+
 func (e *set) encodeType(anchor uint32, id TypeID) {
 	e.typesMap[anchor] = id
 	e.types[id] = anchor
@@ -569,27 +581,22 @@ func (e *set) encodeFunc(anchor uint32, id FunctionID) {
 }
 
 func (e *set) FindURN(urn string) (uint32, bool) {
+	anchor, found := uint32(0), false
 	for k, v := range e.urns {
-		if v == urn {
-			return k, true
+		if v == urn && (!found || k < anchor) {
+			anchor, found = k, true
 		}
 	}
-	return 0, false
+	return anchor, found
 }
 
 func (e *set) addOrGetURN(urn string) (uint32, error) {
-	for k, v := range e.urns {
-		if v == urn {
-			return k, nil
-		}
+	if anchor, ok := e.FindURN(urn); ok {
+		return anchor, nil
 	}
-	sz := uint32(len(e.urns)) + 1
-	if _, ok := e.urns[sz]; ok {
-		return 0, fmt.Errorf("%w: URN anchor %d already exists", substraitgo.ErrKeyExists, sz)
-	}
-
-	e.urns[sz] = urn
-	return sz, nil
+	anchor := freeAnchor(e.urns, len(e.urns))
+	e.urns[anchor] = urn
+	return anchor, nil
 }
 
 type TopLevel interface {
-- 
2.43.0


From 7f5e0fc3ed5a3e560d7ec8c2ce13109302034e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:10 +0000
Subject: [PATCH 049/104] fix: conflicting or empty extension declarations of a
 plan are errors

---
 extensions/extension_mgr.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index bdd4580..2034882 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -607,6 +607,10 @@ type TopLevel interface {
 func GetExtensionSet(plan TopLevel, c *Collection) (Set, error) {
 	urns := make(map[uint32]string)
 	for _, urn := range plan.GetExtensionUrns() {
+		if prev, ok := urns[urn.ExtensionUrnAnchor]; ok && prev != urn.Urn {
+			return nil, fmt.Errorf("%w: URN anchor %d is declared for both '%s' and '%s'",
+				substraitgo.ErrKeyExists, urn.ExtensionUrnAnchor, prev, urn.Urn)
+		}
 		urns[urn.ExtensionUrnAnchor] = urn.Urn
 	}
 
@@ -640,30 +644,47 @@ func GetExtensionSet(plan TopLevel, c *Collection) (Set, error) {
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeTypeVariation(etv.TypeVariationAnchor, TypeVariationID{
+			id := TypeVariationID{
 				URN:  urn,
 				Name: etv.Name,
-			})
+			}
+			if prev, ok := ret.typeVariationMap[etv.TypeVariationAnchor]; ok && prev != id {
+				return nil, fmt.Errorf("%w: type variation anchor %d is declared for both %v and %v",
+					substraitgo.ErrKeyExists, etv.TypeVariationAnchor, prev, id)
+			}
+			ret.encodeTypeVariation(etv.TypeVariationAnchor, id)
 		case *extensions.SimpleExtensionDeclaration_ExtensionType_:
 			et := e.ExtensionType
 			urn, err := resolveRefToURN(et.ExtensionUrnReference)
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeType(et.TypeAnchor, TypeID{
+			id := TypeID{
 				URN:  urn,
 				Name: et.Name,
-			})
+			}
+			if prev, ok := ret.typesMap[et.TypeAnchor]; ok && prev != id {
+				return nil, fmt.Errorf("%w: type anchor %d is declared for both %v and %v",
+					substraitgo.ErrKeyExists, et.TypeAnchor, prev, id)
+			}
+			ret.encodeType(et.TypeAnchor, id)
 		case *extensions.SimpleExtensionDeclaration_ExtensionFunction_:
 			ef := e.ExtensionFunction
 			urn, err := resolveRefToURN(ef.ExtensionUrnReference)
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeFunc(ef.FunctionAnchor, FunctionID{
+			id := FunctionID{
 				URN:  urn,
 				Name: ef.Name,
-			})
+			}
+			if prev, ok := ret.funcMap[ef.FunctionAnchor]; ok && prev != id {
+				return nil, fmt.Errorf("%w: function anchor %d is declared for both %v and %v",
+					substraitgo.ErrKeyExists, ef.FunctionAnchor, prev, id)
+			}
+			ret.encodeFunc(ef.FunctionAnchor, id)
+		default:
+			return nil, fmt.Errorf("%w: extension declaration declares nothing", substraitgo.ErrInvalidSimpleExtention)
 		}
 	}
 
-- 
2.43.0


From 5c33ec6beccf744c7edf2921f6667091602540ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:24 +0000
Subject: [PATCH 050/104] fix: a function variant made from a name keeps that
 name, and a name with unknown argument types is no panic

---
 extensions/variants.go | 80 +++++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index e8cb077..180c7f8 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -279,7 +279,8 @@ func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	for _, argStr := range splitArgs {
 		parsed, err := parser.ParseType(argStr)
 		if err != nil {
-			panic(err)
+			// the name does not say what the arguments are
+			return name, nil
 		}
 		exp := ValueArg{Name: name, Value: &parser.TypeExpression{ValueType: parsed}}
 		args = append(args, exp)
@@ -311,9 +312,10 @@ func maxArgumentCount(paramTypeList FuncParameterList, variadicBehavior *Variadi
 func NewScalarFuncVariant(id FunctionID) *ScalarFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &ScalarFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
-		impl: ScalarFunctionImpl{Args: args},
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
+		impl:         ScalarFunctionImpl{Args: args},
 	}
 }
 
@@ -323,8 +325,9 @@ func NewScalarFuncVariant(id FunctionID) *ScalarFunctionVariant {
 func NewScalarFuncVariantWithProps(id FunctionID, variadic *VariadicBehavior, sessionDependant, deterministic bool) *ScalarFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &ScalarFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: ScalarFunctionImpl{
 			Args:             args,
 			Variadic:         variadic,
@@ -335,11 +338,13 @@ func NewScalarFuncVariantWithProps(id FunctionID, variadic *VariadicBehavior, se
 }
 
 type ScalarFunctionVariant struct {
-	name        string
-	description string
-	urn         string
-	impl        ScalarFunctionImpl
-	metadata    map[string]any
+	name string
+	// compoundName is set if the variant was made from its name alone
+	compoundName string
+	description  string
+	urn          string
+	impl         ScalarFunctionImpl
+	metadata     map[string]any
 }
 
 func (s *ScalarFunctionVariant) Name() string                     { return s.name }
@@ -356,6 +361,9 @@ func (s *ScalarFunctionVariant) ResolveType(argumentTypes []types.Type, registry
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *ScalarFunctionVariant) CompoundName() string {
+	if s.compoundName != "" {
+		return s.compoundName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *ScalarFunctionVariant) ID() FunctionID {
@@ -387,8 +395,9 @@ func (s *ScalarFunctionVariant) MaxArgumentCount() int {
 func NewAggFuncVariant(id FunctionID) *AggregateFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &AggregateFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: AggregateFunctionImpl{
 			ScalarFunctionImpl: ScalarFunctionImpl{
 				Args: args,
@@ -431,8 +440,9 @@ func NewAggFuncVariantOpts(id FunctionID, opts AggVariantOptions) *AggregateFunc
 
 	simpleName, args := parseFuncName(id.Name)
 	return &AggregateFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: AggregateFunctionImpl{
 			ScalarFunctionImpl: ScalarFunctionImpl{
 				Args:             args,
@@ -449,11 +459,13 @@ func NewAggFuncVariantOpts(id FunctionID, opts AggVariantOptions) *AggregateFunc
 }
 
 type AggregateFunctionVariant struct {
-	name        string
-	description string
-	urn         string
-	impl        AggregateFunctionImpl
-	metadata    map[string]any
+	name string
+	// compoundName is set if the variant was made from its name alone
+	compoundName string
+	description  string
+	urn          string
+	impl         AggregateFunctionImpl
+	metadata     map[string]any
 }
 
 func (s *AggregateFunctionVariant) Name() string                     { return s.name }
@@ -470,6 +482,9 @@ func (s *AggregateFunctionVariant) ResolveType(argumentTypes []types.Type, regis
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *AggregateFunctionVariant) CompoundName() string {
+	if s.compoundName != "" {
+		return s.compoundName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *AggregateFunctionVariant) ID() FunctionID {
@@ -499,18 +514,21 @@ func (s *AggregateFunctionVariant) MaxArgumentCount() int {
 }
 
 type WindowFunctionVariant struct {
-	name        string
-	description string
-	urn         string
-	impl        WindowFunctionImpl
-	metadata    map[string]any
+	name string
+	// compoundName is set if the variant was made from its name alone
+	compoundName string
+	description  string
+	urn          string
+	impl         WindowFunctionImpl
+	metadata     map[string]any
 }
 
 func NewWindowFuncVariant(id FunctionID) *WindowFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &WindowFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: WindowFunctionImpl{
 			AggregateFunctionImpl: AggregateFunctionImpl{
 				ScalarFunctionImpl: ScalarFunctionImpl{Args: args},
@@ -558,8 +576,9 @@ func NewWindowFuncVariantOpts(id FunctionID, opts WindowVariantOpts) *WindowFunc
 
 	simpleName, args := parseFuncName(id.Name)
 	return &WindowFunctionVariant{
-		name: simpleName,
-		urn:  id.URN,
+		name:         simpleName,
+		compoundName: id.Name,
+		urn:          id.URN,
 		impl: WindowFunctionImpl{
 			AggregateFunctionImpl: AggregateFunctionImpl{
 				ScalarFunctionImpl: ScalarFunctionImpl{
@@ -592,6 +611,9 @@ func (s *WindowFunctionVariant) ResolveType(argumentTypes []types.Type, registry
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *WindowFunctionVariant) CompoundName() string {
+	if s.compoundName != "" {
+		return s.compoundName
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *WindowFunctionVariant) ID() FunctionID {
-- 
2.43.0


From 03a34042052c0a787943c95383cdd9b2a54774fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:19 +0000
Subject: [PATCH 051/104] fix: a function read from a plan keeps its reference
 when its declaration is not in the collection

---
 expr/expression.go | 15 ++-------------
 expr/functions.go  |  2 +-
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 8f3bf9c..9dd71df 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -120,7 +120,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 		decl, ok := reg.LookupScalarFunction(et.ScalarFunction.FunctionReference)
 		if !ok {
-			return NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), outputType, et.ScalarFunction.Options, args...)
+			decl = extensions.NewScalarFuncVariant(id)
 		}
 
 		return &ScalarFunction{
@@ -165,18 +165,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}
 		decl, ok := reg.LookupWindowFunction(et.WindowFunction.FunctionReference)
 		if !ok {
-			fn, err := NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), outputType,
-				et.WindowFunction.Options, et.WindowFunction.Invocation, et.WindowFunction.Phase, args...)
-			if err != nil {
-				return nil, err
-			}
-
-			fn.Partitions = parts
-			fn.Sorts = sorts
-			fn.LowerBound = BoundFromProto(et.WindowFunction.LowerBound)
-			fn.BoundsType = et.WindowFunction.BoundsType
-			fn.UpperBound = BoundFromProto(et.WindowFunction.UpperBound)
-			return fn, nil
+			decl = extensions.NewWindowFuncVariant(id)
 		}
 
 		return &WindowFunction{
diff --git a/expr/functions.go b/expr/functions.go
index e7a1bb2..15a413a 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -888,7 +888,7 @@ func NewAggregateFunctionFromProto(
 	}
 	decl, ok := reg.LookupAggregateFunction(agg.FunctionReference)
 	if !ok {
-		return NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), outputType, agg.Options, agg.Invocation, agg.Phase, sorts, args...)
+		decl = extensions.NewAggFuncVariant(id)
 	}
 
 	return &AggregateFunction{
-- 
2.43.0


From 9582ca95e4ceb686353ed14f42bbbd6ba458031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:32 +0000
Subject: [PATCH 052/104] fix: malformed function arguments in extension files
 are errors, not panics

---
 extensions/simple_extension.go | 54 +++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index 5a4a259..4eba5fe 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -122,21 +122,25 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 
 	*a = make(FuncParameterList, len(args))
 	for i, arg := range args {
-		var (
-			name, desc string
-		)
-		if n, ok := arg["name"]; ok {
-			name = n.(string)
+		name, err := argField[string](arg, "name")
+		if err != nil {
+			return err
 		}
-		if d, ok := arg["description"]; ok {
-			desc = d.(string)
+		desc, err := argField[string](arg, "description")
+		if err != nil {
+			return err
 		}
 
-		if opt, ok := arg["options"]; ok {
-			vals := opt.([]any)
+		if _, ok := arg["options"]; ok {
+			vals, err := argField[[]any](arg, "options")
+			if err != nil {
+				return err
+			}
 			values := make([]string, len(vals))
 			for j, v := range vals {
-				values[j] = v.(string)
+				if values[j], ok = v.(string); !ok {
+					return fmt.Errorf("%w: enumeration option %v is not a string", substraitgo.ErrInvalidSimpleExtention, v)
+				}
 			}
 			(*a)[i] = EnumArg{
 				Name:        name,
@@ -144,9 +148,9 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 				Options:     values,
 			}
 		} else if val, ok := arg["value"]; ok {
-			var constant bool
-			if c, ok := arg["constant"]; ok {
-				constant = c.(bool)
+			constant, err := argField[bool](arg, "constant")
+			if err != nil {
+				return err
 			}
 
 			arg := ValueArg{
@@ -155,11 +159,14 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 				Value:       new(parser.TypeExpression),
 				Constant:    constant,
 			}
-			err := arg.Value.UnmarshalYAML(func(v any) error {
+			err = arg.Value.UnmarshalYAML(func(v any) error {
 				rv := reflect.ValueOf(v)
 				if rv.Type().Kind() != reflect.Ptr {
 					return substraitgo.ErrInvalidType
 				}
+				if val == nil {
+					return nil
+				}
 				rv.Elem().Set(reflect.ValueOf(val))
 				return nil
 			})
@@ -180,6 +187,9 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 				if rv.Type().Kind() != reflect.Ptr {
 					return substraitgo.ErrInvalidType
 				}
+				if typ == nil {
+					return nil
+				}
 				rv.Elem().Set(reflect.ValueOf(typ))
 				return nil
 			})
@@ -188,12 +198,28 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 			}
 
 			(*a)[i] = arg
+		} else {
+			return fmt.Errorf("%w: function argument %d has neither options nor a value nor a type",
+				substraitgo.ErrInvalidSimpleExtention, i)
 		}
 	}
 
 	return nil
 }
 
+// argField returns an optional field of a function argument
+func argField[T any](arg map[string]any, field string) (v T, err error) {
+	val, ok := arg[field]
+	if !ok {
+		return v, nil
+	}
+	if v, ok = val.(T); !ok {
+		return v, fmt.Errorf("%w: unexpected %s of function argument: %v",
+			substraitgo.ErrInvalidSimpleExtention, field, val)
+	}
+	return v, nil
+}
+
 type Option struct {
 	Description string `yaml:",omitempty"`
 	Values      []string
-- 
2.43.0


From 8d981d617de21cabedaaae4cd296f3a7bfe2d7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:47 +0000
Subject: [PATCH 053/104] fix: a function with one implementation is found by
 its simple name, also aggregates

---
 extensions/extension_mgr.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 2034882..1149caa 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -159,14 +159,12 @@ func addToMaps[T variants](id FunctionID, fn extFn[T], m map[FunctionID]T, simpl
 	for _, v := range variants {
 		id.Name = v.CompoundName()
 		m[id] = v
-	}
 
-	if len(variants) == 1 {
-		v := variants[0]
-		if _, ok := simpleMap[v.Name()]; ok {
-			delete(simpleMap, v.Name())
-		} else {
-			simpleMap[v.Name()] = v.CompoundName()
+		if compound, ok := simpleMap[v.Name()]; !ok {
+			simpleMap[v.Name()] = id.Name
+		} else if compound != id.Name {
+			// several implementations have this name
+			simpleMap[v.Name()] = ""
 		}
 	}
 }
@@ -300,6 +298,9 @@ func (c *Collection) Load(r io.Reader) error {
 
 	// add simple name aliases
 	for k, v := range simpleNames {
+		if v == "" {
+			continue
+		}
 		id.Name = k
 		c.simpleNameMap[id] = v
 	}
-- 
2.43.0


From b37e92b8265d2c1c3d21cfb289ffa9585f4c5c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 054/104] fix: ill-typed operands, division by zero and wrong
 argument counts in return type programs are errors

---
 types/type_derivation.go | 90 ++++++++++++++++++++++++++++++----------
 1 file changed, 67 insertions(+), 23 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 3799ec1..41df018 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/substrait-io/substrait-go/v8/types/integer_parameters"
@@ -120,36 +121,60 @@ func (b BinaryExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	if err != nil {
 		return nil, err
 	}
+	if b.Op == And || b.Op == Or {
+		l, r, err := operands[bool](b, left, right)
+		if err != nil {
+			return nil, err
+		}
+		if b.Op == And {
+			return l && r, nil
+		}
+		return l || r, nil
+	}
+
+	l, r, err := operands[int64](b, left, right)
+	if err != nil {
+		return nil, err
+	}
 	switch b.Op {
 	case Plus:
-		return left.(int64) + right.(int64), nil
+		return l + r, nil
 	case Minus:
-		return left.(int64) - right.(int64), nil
+		return l - r, nil
 	case Multiply:
-		return left.(int64) * right.(int64), nil
+		return l * r, nil
 	case Divide:
-		return left.(int64) / right.(int64), nil
+		if r == 0 {
+			return nil, fmt.Errorf("division by zero in %s", b)
+		}
+		return l / r, nil
 	case LT:
-		return left.(int64) < right.(int64), nil
+		return l < r, nil
 	case LTE:
-		return left.(int64) <= right.(int64), nil
+		return l <= r, nil
 	case GT:
-		return left.(int64) > right.(int64), nil
+		return l > r, nil
 	case GTE:
-		return left.(int64) >= right.(int64), nil
+		return l >= r, nil
 	case EQ:
-		return left.(int64) == right.(int64), nil
+		return l == r, nil
 	case NEQ:
-		return left.(int64) != right.(int64), nil
-	case And:
-		return left.(bool) && right.(bool), nil
-	case Or:
-		return left.(bool) || right.(bool), nil
+		return l != r, nil
 	default:
 		panic("Invalid binary operator")
 	}
 }
 
+// operands returns the operands of an operator that expects values of type T
+func operands[T bool | int64](op fmt.Stringer, left, right any) (l, r T, err error) {
+	l, lok := left.(T)
+	r, rok := right.(T)
+	if !lok || !rok {
+		return l, r, fmt.Errorf("operands of %s must be of type %T, got %v and %v", op, l, left, right)
+	}
+	return l, r, nil
+}
+
 func (b BinaryExpr) String() string {
 	return fmt.Sprintf("(%s %s %s)", b.Left, b.Op, b.Right)
 }
@@ -173,7 +198,11 @@ func (i IfExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	if condition.(bool) {
+	isTrue, ok := condition.(bool)
+	if !ok {
+		return nil, fmt.Errorf("condition of %s must be a boolean, got %v", i, condition)
+	}
+	if isTrue {
 		return i.Then.Evaluate(symbolTable)
 	}
 	return i.Else.Evaluate(symbolTable)
@@ -192,7 +221,11 @@ func (n NotExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	return !result.(bool), nil
+	value, ok := result.(bool)
+	if !ok {
+		return nil, fmt.Errorf("operand of %s must be a boolean, got %v", n, result)
+	}
+	return !value, nil
 }
 
 type FunctionCallExpr struct {
@@ -215,24 +248,35 @@ func (f FunctionCallExpr) String() string {
 }
 
 func (f FunctionCallExpr) Evaluate(symbolTable map[string]any) (any, error) {
-	args := make([]any, len(f.Args))
+	args := make([]int64, len(f.Args))
 	for i, arg := range f.Args {
 		result, err := arg.Evaluate(symbolTable)
 		if err != nil {
 			return nil, err
 		}
-		args[i] = result
+		value, ok := result.(int64)
+		if !ok {
+			return nil, fmt.Errorf("arguments of %s must be integers, got %v", f, result)
+		}
+		args[i] = value
+	}
+
+	if len(args) == 0 {
+		return nil, fmt.Errorf("function %s needs arguments", f.Name)
 	}
 	switch f.Name {
 	case "abs":
-		if args[0].(int64) < 0 {
-			return -args[0].(int64), nil
+		if len(args) != 1 {
+			return nil, fmt.Errorf("function abs expects 1 argument, got %d", len(args))
+		}
+		if args[0] < 0 {
+			return -args[0], nil
 		}
-		return args[0].(int64), nil
+		return args[0], nil
 	case "max":
-		return max(args[0].(int64), args[1].(int64)), nil
+		return slices.Max(args), nil
 	case "min":
-		return min(args[0].(int64), args[1].(int64)), nil
+		return slices.Min(args), nil
 	default:
 		return nil, fmt.Errorf("unknown function %s", f.Name)
 	}
-- 
2.43.0


From 0736243e014fcadfff8494f855169dbe68580899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 055/104] fix: integer parameters of nested types take part in
 matching and in return types

---
 extensions/variants.go                   |   3 +
 types/parameterized_user_defined_type.go |   4 +-
 types/type_derivation.go                 | 150 +++++++++++++++++++----
 3 files changed, 134 insertions(+), 23 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 180c7f8..9fe4c82 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -684,6 +684,9 @@ func getLeafParameterizedParams(abstractTypes interface{}) []string {
 	if leaf, ok := abstractTypes.(integer_parameters.IntegerParameter); ok {
 		return []string{leaf.String()}
 	}
+	if dataParam, ok := abstractTypes.(*types.DataTypeUDTParam); ok {
+		abstractTypes = dataParam.Type
+	}
 	// if it is not a leaf type recurse
 	if pat, ok := abstractTypes.(types.FuncDefArgType); ok {
 		var outLeafParams []string
diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 1c68a20..91aecfc 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -134,8 +134,8 @@ func (m *ParameterizedUserDefinedType) String() string {
 
 func (m *ParameterizedUserDefinedType) HasParameterizedParam() bool {
 	for _, typ := range m.TypeParameters {
-		if param, ok := typ.(*DataTypeUDTParam); ok {
-			return param.Type.HasParameterizedParam()
+		if param, ok := typ.(*DataTypeUDTParam); ok && param.Type.HasParameterizedParam() {
+			return true
 		}
 	}
 	return false
diff --git a/types/type_derivation.go b/types/type_derivation.go
index 41df018..74cb67b 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -353,26 +353,83 @@ type SymbolInfo struct {
 
 func buildTypeParametersNameValueMap(funcParameters []FuncDefArgType, argumentTypes []Type) (map[string]any, error) {
 	symbolTable := make(map[string]any)
-	for i, p := range funcParameters {
-		paramNames := p.GetParameterizedParams()
-		if len(paramNames) > 0 {
-			paramValues := argumentTypes[i].GetParameters()
-			if len(paramNames) != len(paramValues) {
-				return nil, fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(paramNames), len(paramValues))
+	// the last parameter has no argument if it is variadic and no value is given for it
+	for i := range min(len(funcParameters), len(argumentTypes)) {
+		if err := bindTypeParameters(funcParameters[i], argumentTypes[i], symbolTable); err != nil {
+			return nil, err
+		}
+	}
+	return symbolTable, nil
+}
+
+// bindTypeParameters adds the values which the argument type has for the integer
+// parameters of p, also those of nested types, to the symbol table.
+func bindTypeParameters(p FuncDefArgType, argType Type, symbolTable map[string]any) error {
+	if !p.HasParameterizedParam() {
+		return nil
+	}
+
+	if nested := nestedDefinitions(p); nested != nil {
+		nestedArgs := argType.GetParameters()
+		if len(nested) != len(nestedArgs) {
+			return fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(nested), len(nestedArgs))
+		}
+		for i, arg := range nestedArgs {
+			if dataParam, ok := arg.(*DataTypeParameter); ok {
+				arg = dataParam.Type
 			}
-			for j, param := range paramNames {
-				if intParam, ok := param.(*integer_parameters.VariableIntParam); ok {
-					name := string(*intParam)
-					if existingValue, ok := symbolTable[name]; ok && existingValue != paramValues[j] {
-						return nil, fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, paramValues[j])
-					}
-					symbolTable[name] = paramValues[j]
-					continue
+			if typ, ok := arg.(Type); ok && nested[i] != nil {
+				if err := bindTypeParameters(nested[i], typ, symbolTable); err != nil {
+					return err
 				}
 			}
 		}
+		return nil
 	}
-	return symbolTable, nil
+
+	paramNames := p.GetParameterizedParams()
+	paramValues := argType.GetParameters()
+	if len(paramNames) != len(paramValues) {
+		return fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(paramNames), len(paramValues))
+	}
+	for j, param := range paramNames {
+		if intParam, ok := param.(*integer_parameters.VariableIntParam); ok {
+			name, value := string(*intParam), paramValues[j]
+			if precision, ok := value.(TimePrecision); ok {
+				value = int64(precision.ToProtoVal())
+			}
+			if existingValue, ok := symbolTable[name]; ok && existingValue != value {
+				return fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, value)
+			}
+			symbolTable[name] = value
+		}
+	}
+	return nil
+}
+
+// nestedDefinitions returns the types within a composite type in the order in which
+// GetParameters of the concrete type lists them, with nil for what is not a type.
+// It returns nil for other types.
+func nestedDefinitions(p FuncDefArgType) []FuncDefArgType {
+	switch p := p.(type) {
+	case *ParameterizedListType:
+		return []FuncDefArgType{p.Type}
+	case *ParameterizedMapType:
+		return []FuncDefArgType{p.Key, p.Value}
+	case *ParameterizedStructType:
+		return p.Types
+	case *ParameterizedFuncType:
+		return append(slices.Clone(p.Parameters), p.Return)
+	case *ParameterizedUserDefinedType:
+		nested := make([]FuncDefArgType, len(p.TypeParameters))
+		for i, param := range p.TypeParameters {
+			if dataParam, ok := param.(*DataTypeUDTParam); ok {
+				nested[i] = dataParam.Type
+			}
+		}
+		return nested
+	}
+	return nil
 }
 
 func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentTypes []Type) (Type, error) {
@@ -390,17 +447,68 @@ func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentT
 		}
 	}
 
-	// make slice of parameters for final type
-	parametrizedParams := m.FinalType.GetParameterizedParams()
+	return resolveTypeParameters(m.FinalType, symbolTable, funcParameters, argumentTypes)
+}
+
+// resolveTypeParameters returns the type whose integer parameters, also those of nested
+// types, have the values of the symbol table.
+func resolveTypeParameters(t FuncDefArgType, symbolTable map[string]any, funcParameters []FuncDefArgType, argumentTypes []Type) (Type, error) {
+	if !t.HasParameterizedParam() {
+		return t.ReturnType(funcParameters, argumentTypes)
+	}
+
+	if nested := nestedDefinitions(t); nested != nil {
+		resolved := make([]Type, len(nested))
+		for i, n := range nested {
+			if n == nil {
+				continue
+			}
+			var err error
+			if resolved[i], err = resolveTypeParameters(n, symbolTable, funcParameters, argumentTypes); err != nil {
+				return nil, err
+			}
+		}
+
+		switch t := t.(type) {
+		case *ParameterizedListType:
+			return &ListType{Nullability: t.Nullability, Type: resolved[0]}, nil
+		case *ParameterizedMapType:
+			return &MapType{Nullability: t.Nullability, Key: resolved[0], Value: resolved[1]}, nil
+		case *ParameterizedStructType:
+			return &StructType{Nullability: t.Nullability, Types: resolved}, nil
+		case *ParameterizedFuncType:
+			n := len(t.Parameters)
+			return &FuncType{Nullability: t.Nullability, ParameterTypes: resolved[:n], ReturnType: resolved[n]}, nil
+		case *ParameterizedUserDefinedType:
+			params := make([]TypeParam, len(t.TypeParameters))
+			for i, p := range t.TypeParameters {
+				if resolved[i] != nil {
+					params[i] = &DataTypeParameter{Type: resolved[i]}
+					continue
+				}
+				var err error
+				if params[i], err = p.toTypeParam(); err != nil {
+					return nil, err
+				}
+			}
+			return &UserDefinedType{Nullability: t.Nullability, TypeParameters: params}, nil
+		}
+	}
+
+	// make slice of parameters for the type
+	parametrizedParams := t.GetParameterizedParams()
 	params := make([]interface{}, 0, len(parametrizedParams))
 	for _, p := range parametrizedParams {
 		switch param := p.(type) {
 		case *integer_parameters.VariableIntParam:
-			if paramValue, ok := symbolTable[string(*param)]; ok {
-				params = append(params, paramValue)
-			} else {
+			paramValue, ok := symbolTable[string(*param)]
+			if !ok {
 				return nil, fmt.Errorf("parameter %s is not defined", param)
 			}
+			if n, ok := paramValue.(int64); ok && int64(int32(n)) != n {
+				return nil, fmt.Errorf("value %d of parameter %s is out of range", n, param)
+			}
+			params = append(params, paramValue)
 		case *integer_parameters.ConcreteIntParam:
 			params = append(params, int64(*param))
 		default:
@@ -408,7 +516,7 @@ func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentT
 		}
 	}
 
-	return m.FinalType.WithParameters(params)
+	return t.WithParameters(params)
 }
 
 func (m *OutputDerivation) WithParameters([]interface{}) (Type, error) {
-- 
2.43.0


From 3bf48c8f1584bb1bea56a3ae30946fe187f1d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:16 +0000
Subject: [PATCH 056/104] fix: too few or no arguments for a variadic signature
 do not panic, and positions count from the variadic parameter

---
 extensions/simple_extension.go |  2 +-
 extensions/variants.go         | 28 +++++++++++++++++++---------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index 4eba5fe..68a9b09 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -251,7 +251,7 @@ func (v *VariadicBehavior) IsValidArgumentCount(count int) bool {
 }
 
 func (v *VariadicBehavior) IsValidArgumentPosition(index int) bool {
-	return v != nil && index >= 0 && (index <= v.Max || v.Max == 0)
+	return v != nil && index >= 0 && (index < v.Max || v.Max == 0)
 }
 
 type Function interface {
diff --git a/extensions/variants.go b/extensions/variants.go
index 9fe4c82..cde7e2a 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -84,7 +84,10 @@ func validateType(funcParameter FuncParameter, actual types.Type, idx int, nullH
 //	registry: the Set of extensions to look up/add user defined types to
 func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, returnTypeExpr types.FuncDefArgType,
 	funcParameters FuncParameterList, variadic *VariadicBehavior, argumentTypes []types.Type, registry Set) (types.Type, error) {
-	if variadic != nil {
+	if returnTypeExpr == nil {
+		return nil, fmt.Errorf("%w: function has no return type", substraitgo.ErrInvalidExpr)
+	}
+	if variadic != nil && len(funcParameters) > 0 {
 		numVariadicArgs := len(argumentTypes) - (len(funcParameters) - 1)
 		if numVariadicArgs < 0 {
 			return nil, fmt.Errorf("%w: mismatch in number of arguments provided. got %d, expected at least %d",
@@ -163,11 +166,14 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 }
 
 func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameterList, variadicBehavior *VariadicBehavior, actualTypes []types.Type) (bool, error) {
-	if variadicBehavior == nil && len(actualTypes) != len(paramTypeList) {
-		return false, nil
-	} else if variadicBehavior != nil {
+	if variadicBehavior == nil || len(paramTypeList) == 0 {
+		if len(actualTypes) != len(paramTypeList) {
+			return false, nil
+		}
+	} else {
 		numNonVariadicArgs := len(paramTypeList) - 1
-		if !validateVariadicBehaviorForMatch(variadicBehavior, actualTypes[numNonVariadicArgs:]) {
+		if len(actualTypes) < numNonVariadicArgs ||
+			!validateVariadicBehaviorForMatch(variadicBehavior, actualTypes[numNonVariadicArgs:]) {
 			return false, nil
 		}
 	}
@@ -209,10 +215,14 @@ func matchArgumentAt(actualType types.Type, argPos int, nullability NullabilityH
 
 func matchArgumentAtCommon(actualType types.Type, argPos int, nullability NullabilityHandling, funcDefArgList []types.FuncDefArgType, variadicBehavior *VariadicBehavior) (bool, error) {
 	// check if argument out of range
-	if variadicBehavior == nil && argPos >= len(funcDefArgList) {
-		return false, nil
-	} else if variadicBehavior != nil && !variadicBehavior.IsValidArgumentPosition(argPos) {
-		// this argument position can't be more than the max allowed by the variadic behavior
+	if argPos >= len(funcDefArgList) {
+		// the last parameter is the variadic one, an argument position
+		// can't be more than the max allowed by the variadic behavior
+		if len(funcDefArgList) == 0 || !variadicBehavior.IsValidArgumentPosition(argPos-(len(funcDefArgList)-1)) {
+			return false, nil
+		}
+	}
+	if actualType == nil {
 		return false, nil
 	}
 
-- 
2.43.0


From 0a760bbb46363a5b539c19ce98fc3d0b1886738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 057/104] fix: parameter names and type placeholders are both
 checked when a signature has both

---
 extensions/variants.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index cde7e2a..0684810 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -192,8 +192,8 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 			return false, nil
 		}
 	}
-	if HasSyncParams(funcDefArgList) {
-		return types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes), nil
+	if !types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes) {
+		return false, nil
 	}
 
 	if err := ValidateConstrainedAnyTypeConsistency(funcDefArgList, actualTypes, variadicBehavior); err != nil {
-- 
2.43.0


From 7592e6bd83d5ae54516a01bf7ea3771aaa1ba62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 058/104] fix: a function without nullability handling matches
 as mirror, as its return type does

---
 extensions/variants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 0684810..6176996 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -237,7 +237,7 @@ func matchArgumentAtCommon(actualType types.Type, argPos int, nullability Nullab
 	switch nullability {
 	case DiscreteNullability:
 		return funcDefArg.MatchWithNullability(actualType), nil
-	case MirrorNullability, DeclaredOutputNullability:
+	case MirrorNullability, DeclaredOutputNullability, "":
 		return funcDefArg.MatchWithoutNullability(actualType), nil
 	}
 	// unreachable case
-- 
2.43.0


From 5b547cbfba2c75c868941211597e11e32cefe6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 059/104] fix: consistent variadic arguments are consistent
 from the first one

---
 extensions/variants.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 6176996..06fa7a8 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -253,8 +253,10 @@ func validateVariadicBehaviorForMatch(variadicBehavior *VariadicBehavior, actual
 	// verify consistency of variadic behavior
 	if variadicBehavior.ParameterConsistency == ConsistentParams {
 		// all concrete types must be equal for all variable arguments
-		firstVariadicArgIdx := max(variadicBehavior.Min-1, 0)
-		for i := firstVariadicArgIdx; i < len(actualTypes)-1; i++ {
+		for i := 0; i < len(actualTypes)-1; i++ {
+			if actualTypes[i] == nil || actualTypes[i+1] == nil {
+				return false
+			}
 			if !actualTypes[i].Equals(actualTypes[i+1].WithNullability(actualTypes[i].GetNullability())) {
 				return false
 			}
-- 
2.43.0


From 81876859147188322458a5c99329381ea80dea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 060/104] fix: the nullability of all variadic arguments counts
 for the return type

---
 extensions/variants.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 06fa7a8..1f03957 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -114,8 +114,8 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 		allNonNull = allNonNull && nonNull
 	}
 
-	// validate variadic argument consistency
-	if variadic != nil && len(argumentTypes) > len(funcParameters) && variadic.ParameterConsistency == ConsistentParams {
+	// validate the remaining variadic arguments
+	if variadic != nil && len(argumentTypes) > len(funcParameters) {
 		nparams := len(funcParameters)
 		lastParam := funcParameters[nparams-1]
 		for i, actual := range argumentTypes[nparams:] {
-- 
2.43.0


From 43acdf8d6b30ebf8f6eac661f278bd9f341567d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 061/104] fix: type placeholders within function types and
 user-defined types are checked and resolved

---
 extensions/variants.go | 21 +++++++++++++++++++++
 types/any_type.go      | 22 +++++++++++++++++++++-
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 1f03957..c6ef717 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -786,6 +786,27 @@ func validateAnyTypeBinding(paramType types.FuncDefArgType, argType types.Type,
 				}
 			}
 		}
+	case *types.ParameterizedFuncType:
+		if funcType, ok := argType.(*types.FuncType); ok && len(funcType.ParameterTypes) == len(p.Parameters) {
+			for i, param := range p.Parameters {
+				if err := validateAnyTypeBinding(param, funcType.ParameterTypes[i], bindings); err != nil {
+					return err
+				}
+			}
+			return validateAnyTypeBinding(p.Return, funcType.ReturnType, bindings)
+		}
+	case *types.ParameterizedUserDefinedType:
+		if udt, ok := argType.(*types.UserDefinedType); ok && len(udt.TypeParameters) == len(p.TypeParameters) {
+			for i, param := range p.TypeParameters {
+				paramType, isType := param.(*types.DataTypeUDTParam)
+				argParam, isArgType := udt.TypeParameters[i].(*types.DataTypeParameter)
+				if isType && isArgType {
+					if err := validateAnyTypeBinding(paramType.Type, argParam.Type, bindings); err != nil {
+						return err
+					}
+				}
+			}
+		}
 	}
 	return nil
 }
diff --git a/types/any_type.go b/types/any_type.go
index 4b065b7..f7b77d3 100644
--- a/types/any_type.go
+++ b/types/any_type.go
@@ -99,7 +99,7 @@ func unwrapAnyTypeWithName(name string, p FuncDefArgType, argType Type) (Type, e
 	case *ParameterizedFuncType:
 		// FuncType.GetParameters() returns [paramTypes..., returnType]
 		// ParameterizedFuncType has Parameters (inputs) + Return (output), so append here
-		allDefTypes := append(arg.Parameters, arg.Return)
+		allDefTypes := append(slices.Clone(arg.Parameters), arg.Return)
 		argParams := argType.GetParameters()
 		if len(argParams) != len(allDefTypes) || slices.Contains(argParams, nil) {
 			return nil, fmt.Errorf("expected FuncType to have %d non-nil parameters, found %v",
@@ -114,6 +114,26 @@ func unwrapAnyTypeWithName(name string, p FuncDefArgType, argType Type) (Type, e
 				return pt, nil
 			}
 		}
+	case *ParameterizedUserDefinedType:
+		argParams := argType.GetParameters()
+		if len(argParams) != len(arg.TypeParameters) {
+			return nil, fmt.Errorf("expected user defined type to have %d parameters, found %v",
+				len(arg.TypeParameters), argParams)
+		}
+		for i, param := range argParams {
+			defParam, isType := arg.TypeParameters[i].(*DataTypeUDTParam)
+			argParam, isArgType := param.(*DataTypeParameter)
+			if !isType || !isArgType {
+				continue
+			}
+			pt, err := unwrapAnyTypeWithName(name, defParam.Type, argParam.Type)
+			if err != nil {
+				return nil, err
+			}
+			if pt != nil {
+				return pt, nil
+			}
+		}
 	}
 	// Didn't find matching AnyType.
 	return nil, nil
-- 
2.43.0


From 267849981848bfccd2a7fb16a4b48654ec23edde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 062/104] fix: user-defined types within a return type refer to
 their declaration

---
 extensions/variants.go | 58 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index c6ef717..aa082f6 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -145,15 +145,7 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 		return nil, err
 	}
 
-	// If the return type expression is a ParameterizedUserDefinedType, we need to
-	// fill in the TypeReference since ParameterizedUserDefinedType.ReturnType()
-	// doesn't have access to the registry to set it itself.
-	// For other types like AnyType, the TypeReference is already correctly set.
-	if udt, ok := outType.(*types.UserDefinedType); ok {
-		if paramUDT, ok := returnTypeExpr.(*types.ParameterizedUserDefinedType); ok {
-			udt.TypeReference = registry.GetTypeAnchor(TypeID{Name: paramUDT.Name, URN: urn})
-		}
-	}
+	setTypeReferences(urn, returnTypeExpr, outType, registry)
 
 	if nullHandling == MirrorNullability || nullHandling == "" {
 		if allNonNull {
@@ -165,6 +157,54 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 	return outType, nil
 }
 
+// setTypeReferences fills in the TypeReference of the types that are defined by a
+// ParameterizedUserDefinedType, also those within other types, since its ReturnType()
+// doesn't have access to the registry to set it itself.
+// For other types like AnyType, the TypeReference is already correctly set.
+func setTypeReferences(urn string, typeExpr types.FuncDefArgType, outType types.Type, registry Set) {
+	switch expr := typeExpr.(type) {
+	case *types.OutputDerivation:
+		setTypeReferences(urn, expr.FinalType, outType, registry)
+	case *types.ParameterizedUserDefinedType:
+		udt, ok := outType.(*types.UserDefinedType)
+		if !ok {
+			return
+		}
+		udt.TypeReference = registry.GetTypeAnchor(TypeID{Name: expr.Name, URN: urn})
+		for i, param := range udt.TypeParameters {
+			dataParam, ok := param.(*types.DataTypeParameter)
+			if !ok || i >= len(expr.TypeParameters) {
+				continue
+			}
+			if defParam, ok := expr.TypeParameters[i].(*types.DataTypeUDTParam); ok {
+				setTypeReferences(urn, defParam.Type, dataParam.Type, registry)
+			}
+		}
+	case *types.ParameterizedListType:
+		if list, ok := outType.(*types.ListType); ok {
+			setTypeReferences(urn, expr.Type, list.Type, registry)
+		}
+	case *types.ParameterizedMapType:
+		if m, ok := outType.(*types.MapType); ok {
+			setTypeReferences(urn, expr.Key, m.Key, registry)
+			setTypeReferences(urn, expr.Value, m.Value, registry)
+		}
+	case *types.ParameterizedStructType:
+		if st, ok := outType.(*types.StructType); ok {
+			for i, field := range st.Types {
+				setTypeReferences(urn, expr.Types[i], field, registry)
+			}
+		}
+	case *types.ParameterizedFuncType:
+		if fn, ok := outType.(*types.FuncType); ok {
+			for i, param := range fn.ParameterTypes {
+				setTypeReferences(urn, expr.Parameters[i], param, registry)
+			}
+			setTypeReferences(urn, expr.Return, fn.ReturnType, registry)
+		}
+	}
+}
+
 func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameterList, variadicBehavior *VariadicBehavior, actualTypes []types.Type) (bool, error) {
 	if variadicBehavior == nil || len(paramTypeList) == 0 {
 		if len(actualTypes) != len(paramTypeList) {
-- 
2.43.0


From b839d296d070df7a54b288bbdd4d8336c4999f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:32 +0000
Subject: [PATCH 063/104] fix: resolving the type of a function without return
 type is an error, not a panic

---
 extensions/simple_extension.go | 8 ++++++++
 extensions/variants.go         | 6 +++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index 68a9b09..6fda2a9 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -269,6 +269,14 @@ type ScalarFunctionImpl struct {
 	Implementation   map[string]string      `yaml:",omitempty"`
 }
 
+// returnType returns the declared return type, nil if there is none
+func (s *ScalarFunctionImpl) returnType() types.FuncDefArgType {
+	if s.Return == nil {
+		return nil
+	}
+	return s.Return.ValueType
+}
+
 func (s *ScalarFunctionImpl) signatureKey() string {
 	var b strings.Builder
 	for i, a := range s.Args {
diff --git a/extensions/variants.go b/extensions/variants.go
index aa082f6..a774ae5 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -410,7 +410,7 @@ func (s *ScalarFunctionVariant) Nullability() NullabilityHandling { return s.imp
 func (s *ScalarFunctionVariant) URN() string                      { return s.urn }
 func (s *ScalarFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *ScalarFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *ScalarFunctionVariant) CompoundName() string {
 	if s.compoundName != "" {
@@ -531,7 +531,7 @@ func (s *AggregateFunctionVariant) Nullability() NullabilityHandling { return s.
 func (s *AggregateFunctionVariant) URN() string                      { return s.urn }
 func (s *AggregateFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *AggregateFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *AggregateFunctionVariant) CompoundName() string {
 	if s.compoundName != "" {
@@ -660,7 +660,7 @@ func (s *WindowFunctionVariant) Nullability() NullabilityHandling { return s.imp
 func (s *WindowFunctionVariant) URN() string                      { return s.urn }
 func (s *WindowFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *WindowFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *WindowFunctionVariant) CompoundName() string {
 	if s.compoundName != "" {
-- 
2.43.0


From 79a301bd771b91a34e6d057d885403799592fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:02 +0000
Subject: [PATCH 064/104] fix: a value of an unexpected kind in an extension
 file is an error, not a panic

---
 extensions/extension_mgr.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 1149caa..4701aa7 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -194,12 +194,23 @@ func (c *Collection) init() {
 	}
 }
 
+func decodeExtensionFile(r io.Reader) (file SimpleExtensionFile, err error) {
+	// the decoder panics on some values of an unexpected kind,
+	// e.g. on a number in place of a nullability handling
+	defer func() {
+		if p := recover(); p != nil {
+			err = fmt.Errorf("%w: %v", substraitgo.ErrInvalidSimpleExtention, p)
+		}
+	}()
+	err = yaml.NewDecoder(r).Decode(&file)
+	return file, err
+}
+
 func (c *Collection) Load(r io.Reader) error {
 	c.init()
 
-	var file SimpleExtensionFile
-	dec := yaml.NewDecoder(r)
-	if err := dec.Decode(&file); err != nil {
+	file, err := decodeExtensionFile(r)
+	if err != nil {
 		return err
 	}
 
-- 
2.43.0


From e1a721f12d78729b4c7ad4efa9be87ac1c7935ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:55 +0000
Subject: [PATCH 065/104] fix: compare integer type parameters of user-defined
 types without truncation

---
 types/parameterized_user_defined_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 91aecfc..420dd75 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -69,7 +69,7 @@ func (i *IntegerUDTParam) toTypeParam() (TypeParam, error) {
 
 func (i *IntegerUDTParam) MatchWithoutNullability(param TypeParam) bool {
 	if intParam, ok := param.(IntegerParameter); ok {
-		return i.Integer == int32(intParam)
+		return int64(i.Integer) == int64(intParam)
 	}
 	return false
 }
-- 
2.43.0


From 6411553ab3039bdd3effa95891d9a5d317fa4f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 066/104] fix: count the arguments of variadic functions with
 preceding parameters

---
 functions/functions.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/functions/functions.go b/functions/functions.go
index 77b5d77..7b725ac 100644
--- a/functions/functions.go
+++ b/functions/functions.go
@@ -81,7 +81,10 @@ func (f *functionRegistryImpl) GetWindowFunctions(name string, numArgs int) []*e
 func getFunctionVariantsByCount[T extensions.FunctionVariant](functions []T, numArgs int) []T {
 	ret := make([]T, 0)
 	for _, f := range functions {
-		if len(f.Args()) == numArgs || f.Variadic().IsValidArgumentCount(numArgs) {
+		// the last parameter of a variadic function takes all arguments from its position on
+		numVariadicArgs := numArgs - (len(f.Args()) - 1)
+		if len(f.Args()) == numArgs ||
+			len(f.Args()) > 0 && numVariadicArgs >= 0 && f.Variadic().IsValidArgumentCount(numVariadicArgs) {
 			ret = append(ret, f)
 		}
 	}
-- 
2.43.0


From 1e0594f7aee17116d2220c574f9f0c369c22b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 067/104] fix: do not confuse local and Substrait function
 names of a dialect

---
 functions/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 3efba63..9c2ed35 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -110,7 +110,7 @@ func makeLocalFunctionVariantMapAndSlice[T withID, V localFunctionVariant](
 	variantsMap := make(map[FunctionName][]V)
 	variantsSlice := make([]V, 0)
 	for _, dfi := range dialectFunctionInfos {
-		if _, nameAlreadyProcessed := variantsMap[LocalFunctionName(dfi.Name)]; nameAlreadyProcessed {
+		if _, nameAlreadyProcessed := variantsMap[SubstraitFunctionName(dfi.Name)]; nameAlreadyProcessed {
 			if _, ok := processedFunctions[dfi.ID]; !ok {
 				var invocationType V
 				return nil, fmt.Errorf("%w: no %s function variant found for '%s'", substraitgo.ErrInvalidDialect, invocationType.InvocationTypeName(), dfi.ID)
-- 
2.43.0


From b4a7060d2f9c675cec2b321b08da29dd3f327d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 068/104] fix: resolve local type names of a dialect
 independently of map order

---
 functions/dialect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 9c2ed35..cc2b1a4 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -5,6 +5,8 @@ package functions
 import (
 	"fmt"
 	"io"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/creasty/defaults"
@@ -166,7 +168,9 @@ func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, err
 		return d.localTypeRegistry, nil
 	}
 	typeInfos := make([]typeInfo, 0, len(d.toLocalTypeMap))
-	for name, info := range d.toLocalTypeMap {
+	// types may share a local name, their order decides which one it stands for
+	for _, name := range slices.Sorted(maps.Keys(d.toLocalTypeMap)) {
+		info := d.toLocalTypeMap[name]
 		// TODO use registry.GetTypeClasses
 		typ, err := getTypeFromBaseTypeName(name)
 		if err != nil {
-- 
2.43.0


From 6715a5ebc88e51af3ef7cc89164c9cd748d6bf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 069/104] fix: keep functions of different kinds apart in the
 invocation lookup of a dialect

---
 functions/local_functions.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/functions/local_functions.go b/functions/local_functions.go
index 5213d43..bd6c1df 100644
--- a/functions/local_functions.go
+++ b/functions/local_functions.go
@@ -17,21 +17,28 @@ type localFunctionRegistryImpl struct {
 
 	allFunctions []extensions.FunctionVariant
 
-	idToLocalFunctionMap map[extensions.FunctionID]localFunctionVariant
+	idToLocalFunctionMap map[localFunctionKey]localFunctionVariant
 	localTypeRegistry    LocalTypeRegistry
 	funcRegistry         FunctionRegistry
 }
 
-func makeLocalFunctionVariantsMap(functions []extensions.FunctionVariant) map[extensions.FunctionID]localFunctionVariant {
-	localFunctionVariants := make(map[extensions.FunctionID]localFunctionVariant)
+// localFunctionKey identifies a local function variant, functions of
+// different kinds may have the same ID.
+type localFunctionKey struct {
+	invocationType string
+	id             extensions.FunctionID
+}
+
+func makeLocalFunctionVariantsMap(functions []extensions.FunctionVariant) map[localFunctionKey]localFunctionVariant {
+	localFunctionVariants := make(map[localFunctionKey]localFunctionVariant)
 	for _, f := range functions {
 		switch variant := f.(type) {
 		case *LocalScalarFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
+			localFunctionVariants[localFunctionKey{variant.InvocationTypeName(), variant.ID()}] = variant
 		case *LocalAggregateFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
+			localFunctionVariants[localFunctionKey{variant.InvocationTypeName(), variant.ID()}] = variant
 		case *LocalWindowFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
+			localFunctionVariants[localFunctionKey{variant.InvocationTypeName(), variant.ID()}] = variant
 		}
 	}
 	return localFunctionVariants
@@ -75,7 +82,7 @@ func (l *localFunctionRegistryImpl) GetWindowFunctionByInvocation(windowFuncInvo
 
 func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.FunctionInvocation, registry *localFunctionRegistryImpl) (V, error) {
 	var zeroV V
-	f, ok := registry.idToLocalFunctionMap[invocation.ID()]
+	f, ok := registry.idToLocalFunctionMap[localFunctionKey{zeroV.InvocationTypeName(), invocation.ID()}]
 	if !ok {
 		return zeroV, fmt.Errorf("function variant not found for function: %s", invocation.ID())
 	}
-- 
2.43.0


From 570d9aa569e3948afe4865b429e109962e05b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 070/104] fix: read back the precision of local time and
 interval types

---
 functions/types.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/functions/types.go b/functions/types.go
index 1231556..d6ff686 100644
--- a/functions/types.go
+++ b/functions/types.go
@@ -98,6 +98,27 @@ func getTypeWithParameters(typ types.Type, parameters []int32) (types.Type, erro
 		case *types.VarCharType:
 			return &types.VarCharType{Length: parameters[0]}, nil
 		}
+	case *types.PrecisionTimeType, *types.PrecisionTimestampType, *types.PrecisionTimestampTzType, *types.IntervalDayType:
+		if len(parameters) == 0 {
+			return typ, nil
+		}
+		if len(parameters) != 1 {
+			return nil, substraitgo.ErrInvalidType
+		}
+		precision, err := types.ProtoToTimePrecision(parameters[0])
+		if err != nil {
+			return nil, err
+		}
+		switch typ.(type) {
+		case *types.PrecisionTimeType:
+			return &types.PrecisionTimeType{Precision: precision}, nil
+		case *types.PrecisionTimestampType:
+			return types.NewPrecisionTimestampType(precision), nil
+		case *types.PrecisionTimestampTzType:
+			return types.NewPrecisionTimestampTzType(precision), nil
+		case *types.IntervalDayType:
+			return &types.IntervalDayType{Precision: precision}, nil
+		}
 	default:
 		if len(parameters) != 0 {
 			return nil, substraitgo.ErrInvalidType
-- 
2.43.0


From 0e363413c230a33d43bea2936a5d94dde54491ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 071/104] fix: read local type names that contain parentheses

---
 functions/types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/functions/types.go b/functions/types.go
index d6ff686..e292aba 100644
--- a/functions/types.go
+++ b/functions/types.go
@@ -60,6 +60,14 @@ func (t *typeRegistryImpl) GetTypeFromTypeString(typeString string) (types.Type,
 }
 
 func getTypeFromTypeString(typeString string, typeMap map[string]types.Type, enclosure typeEnclosure) (types.Type, error) {
+	if typ, ok := typeMap[typeString]; ok {
+		// the name itself may look like a name with parameters
+		typ, err := getTypeWithParameters(typ, nil)
+		if err != nil {
+			return nil, err
+		}
+		return typ.WithNullability(types.NullabilityRequired), nil
+	}
 	baseType, parameters, err := extractTypeAndParameters(typeString, enclosure)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 58d5044bd8f38009455f1b7a5add07ad8de4ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 072/104] fix: reject function arguments that no signature can
 match

---
 expr/functions.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/expr/functions.go b/expr/functions.go
index 15a413a..4c2659f 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -214,12 +214,15 @@ func resolveVariant[T variant](
 	args []types.FuncArg,
 ) (T, types.Type, error) {
 	argTypes := make([]types.Type, 0, len(args))
-	for _, arg := range args {
+	for i, arg := range args {
 		switch a := arg.(type) {
 		case types.Enum:
 			argTypes = append(argTypes, types.CommonEnumType)
 		case Expression:
 			argTypes = append(argTypes, a.GetType())
+		default:
+			return nil, nil, fmt.Errorf("%w: arg #%d of function %s is neither an expression nor an enum",
+				substraitgo.ErrInvalidExpr, i, id)
 		}
 	}
 
@@ -228,6 +231,10 @@ func resolveVariant[T variant](
 		if strings.IndexByte(id.Name, ':') == -1 {
 			sigs := make([]string, len(argTypes))
 			for i, t := range argTypes {
+				if t == nil {
+					return nil, nil, fmt.Errorf("%w: type of arg #%d of function %s is not known",
+						substraitgo.ErrInvalidExpr, i, id)
+				}
 				if t == types.CommonEnumType {
 					// enum value
 					sigs[i] = extensions.EnumTypeString
-- 
2.43.0


From fe32b7243b84e87dde44111270eb2ca27cfc212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:38 +0000
Subject: [PATCH 073/104] fix: report unrecognized characters in function test
 files

---
 testcases/parser/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/testcases/parser/parse.go b/testcases/parser/parse.go
index 42e0e2b..14544cf 100644
--- a/testcases/parser/parse.go
+++ b/testcases/parser/parse.go
@@ -35,9 +35,10 @@ func ParseTestCasesFromString(input string) (*TestFile, error) {
 
 func parseTestCasesFromStream(is *antlr.InputStream, debugStr string) (*TestFile, error) {
 	lexer := baseparser.NewFuncTestCaseLexer(is)
+	errorListener := util.NewSimpleErrorListener()
+	lexer.AddErrorListener(errorListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := baseparser.NewFuncTestCaseParser(stream)
-	errorListener := util.NewSimpleErrorListener()
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-- 
2.43.0


From e2f0ef7797cef166350ccc78e011efedb527d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 074/104] fix: reject numbers of function test files that are
 out of range of their type

---
 testcases/parser/visitor.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index d2b07e1..0dcce34 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -537,7 +537,11 @@ func (v *TestCaseVisitor) getLiteralFromString(ctx antlr.ParserRuleContext, valu
 }
 
 func getFloatLiteral(floatStr string, floatType types.Type) (expr.Literal, error) {
-	value, err := strconv.ParseFloat(floatStr, 64)
+	bitSize := 64
+	if _, ok := floatType.(*types.Float32Type); ok {
+		bitSize = 32
+	}
+	value, err := strconv.ParseFloat(floatStr, bitSize)
 	if err != nil {
 		return nil, err
 	}
@@ -553,7 +557,16 @@ func getFloatLiteral(floatStr string, floatType types.Type) (expr.Literal, error
 }
 
 func getIntLiteral(integerStr string, intType types.Type) (expr.Literal, error) {
-	value, err := strconv.ParseInt(integerStr, 10, 64)
+	bitSize := 64
+	switch intType.(type) {
+	case *types.Int8Type:
+		bitSize = 8
+	case *types.Int16Type:
+		bitSize = 16
+	case *types.Int32Type:
+		bitSize = 32
+	}
+	value, err := strconv.ParseInt(integerStr, 10, bitSize)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 55374811c02821b439e63c7316150146a292eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:56 +0000
Subject: [PATCH 075/104] fix: strip only the enclosing quotes of string
 literals in function test files

---
 testcases/parser/visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 0dcce34..3754fdd 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -647,7 +647,7 @@ func (v *TestCaseVisitor) VisitTimestampArg(ctx *baseparser.TimestampArgContext)
 }
 
 func getRawStringFromStringLiteral(text string) string {
-	return strings.Trim(text, "'")
+	return strings.TrimSuffix(strings.TrimPrefix(text, "'"), "'")
 }
 
 func (v *TestCaseVisitor) VisitTimestampTzArg(ctx *baseparser.TimestampTzArgContext) interface{} {
-- 
2.43.0


From 4dc02f28808374fe3e3752e09a3e561946831a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:02 +0000
Subject: [PATCH 076/104] fix: accept function test groups without a
 description

---
 testcases/parser/visitor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 3754fdd..d56f84c 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -96,8 +96,16 @@ func (v *TestCaseVisitor) VisitInclude(ctx *baseparser.IncludeContext) interface
 	return getRawStringFromStringLiteral(ctx.StringLiteral(0).GetText())
 }
 
+// getGroupDescription returns the description of a test group, which is optional.
+func (v *TestCaseVisitor) getGroupDescription(ctx baseparser.ITestGroupDescriptionContext) string {
+	if ctx == nil {
+		return ""
+	}
+	return v.Visit(ctx).(string)
+}
+
 func (v *TestCaseVisitor) VisitScalarFuncTestGroup(ctx *baseparser.ScalarFuncTestGroupContext) interface{} {
-	groupDesc := v.Visit(ctx.TestGroupDescription()).(string)
+	groupDesc := v.getGroupDescription(ctx.TestGroupDescription())
 	groupTestCases := make([]*TestCase, 0, len(ctx.AllTestCase()))
 	if v.testFuncType != ScalarFuncType {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("expected %v testcase based on test file header, but got scalar function testcase", v.testFuncType))
@@ -113,7 +121,7 @@ func (v *TestCaseVisitor) VisitScalarFuncTestGroup(ctx *baseparser.ScalarFuncTes
 }
 
 func (v *TestCaseVisitor) VisitAggregateFuncTestGroup(ctx *baseparser.AggregateFuncTestGroupContext) interface{} {
-	groupDesc := v.Visit(ctx.TestGroupDescription()).(string)
+	groupDesc := v.getGroupDescription(ctx.TestGroupDescription())
 	groupTestCases := make([]*TestCase, 0, len(ctx.AllAggFuncTestCase()))
 	if v.testFuncType != AggregateFuncType {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("expected %v testcase based on test file header, but got aggregate function testcase", v.testFuncType))
-- 
2.43.0


From 650057336ea7ac987451f2cd540fedbad6bb431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 077/104] fix: accept empty nested lists in function test files

---
 testcases/parser/visitor.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index d56f84c..f868d3a 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -791,25 +791,23 @@ func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) i
 		// has the element type set to list<i32>. We need to unwrap one level so
 		// that inner literals resolve against i32 instead of list<i32>.
 		parentType := v.getLiteralTypeInContext()
-		if lt, ok := parentType.(*types.ListType); ok {
-			v.setLiteralTypeInContext(lt.Type)
-			defer v.setLiteralTypeInContext(parentType)
+		listType, ok := parentType.(*types.ListType)
+		if !ok {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("unexpected nested list %s for element type %v", ctx.GetText(), parentType))
+			return nil
 		}
+		v.setLiteralTypeInContext(listType.Type)
+		defer v.setLiteralTypeInContext(parentType)
 
 		values := v.Visit(ctx.LiteralList()).([]expr.Literal)
+		nullable := listType.GetNullability() == types.NullabilityNullable
 		if len(values) == 0 {
-			// For empty nested lists, use the element type from the parent list context
-			if elemType := v.getLiteralTypeInContext(); elemType != nil {
-				if lt, ok := elemType.(*types.ListType); ok {
-					return expr.NewEmptyListLiteral(lt.Type, false)
-				}
-			}
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("cannot determine element type for empty nested list"))
-			return nil
+			return expr.NewEmptyListLiteral(listType.Type, nullable)
 		}
-		value, err := literal.NewList(values, false)
+		value, err := literal.NewList(values, nullable)
 		if err != nil {
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid nested list %v", err))
+			return nil
 		}
 		return value
 	}
-- 
2.43.0


From af51ee3b81e94bbbd5eb5047ba86b9fe60656aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:48 +0000
Subject: [PATCH 078/104] fix: reject values of lists and columns that are not
 of the declared type in function test files

---
 testcases/parser/visitor.go | 54 +++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index f868d3a..4206dc5 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"reflect"
 	"strconv"
 	"strings"
 
@@ -49,6 +50,43 @@ func (v *TestCaseVisitor) validateNullLiteralType(ctx antlr.ParserRuleContext, n
 	}
 }
 
+// validateLiteralType reports an error if the value of a list or of a column is not of the declared type.
+// Parameters and nullability are not compared: null literals and values without a parameterized type are allowed.
+func (v *TestCaseVisitor) validateLiteralType(ctx antlr.ParserRuleContext, value expr.Literal, declared types.Type) {
+	if declared == nil {
+		return
+	}
+	if _, ok := value.(*expr.NullLiteral); ok {
+		return
+	}
+	if !isLiteralOfType(value.GetType(), declared) {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("value %s is not of type %s", value, declared))
+	}
+}
+
+func isLiteralOfType(actual, declared types.Type) bool {
+	switch declared.(type) {
+	case *types.PrecisionTimeType:
+		if _, ok := actual.(*types.TimeType); ok {
+			return true
+		}
+	case *types.PrecisionTimestampType:
+		if _, ok := actual.(*types.TimestampType); ok {
+			return true
+		}
+	case *types.PrecisionTimestampTzType:
+		if _, ok := actual.(*types.TimestampTzType); ok {
+			return true
+		}
+	case *types.UUIDType:
+		// there is no literal syntax for UUIDs other than strings
+		if _, ok := actual.(*types.StringType); ok {
+			return true
+		}
+	}
+	return reflect.TypeOf(actual) == reflect.TypeOf(declared)
+}
+
 var _ baseparser.FuncTestCaseParserVisitor = &TestCaseVisitor{}
 
 func (v *TestCaseVisitor) Visit(tree antlr.ParseTree) interface{} {
@@ -247,6 +285,7 @@ func (v *TestCaseVisitor) getColumnsFromRows(ctx antlr.ParserRuleContext, rows [
 		column := make([]expr.Literal, 0, len(rows))
 		for _, row := range rows {
 			cell := v.getLiteral(ctx, row[i], columnType)
+			v.validateLiteralType(ctx, cell, columnType)
 			if _, ok := cell.(*expr.NullLiteral); ok {
 				newColumnType = columnType.WithNullability(types.NullabilityNullable)
 				cell = expr.NewNullLiteral(newColumnType)
@@ -300,8 +339,9 @@ func (v *TestCaseVisitor) VisitTableRows(ctx *baseparser.TableRowsContext) inter
 func (v *TestCaseVisitor) VisitColumnValues(ctx *baseparser.ColumnValuesContext) interface{} {
 	values := make([]expr.Literal, 0, len(ctx.AllLiteral()))
 	for _, literalValue := range ctx.AllLiteral() {
-		if result := v.Visit(literalValue); result != nil {
-			values = append(values, result.(expr.Literal))
+		if result, ok := v.Visit(literalValue).(expr.Literal); ok {
+			v.validateLiteralType(ctx, result, v.getLiteralTypeInContext())
+			values = append(values, result)
 		}
 	}
 	return values
@@ -772,12 +812,13 @@ func (v *TestCaseVisitor) VisitLiteralList(ctx *baseparser.LiteralListContext) i
 	elements := ctx.AllListElement()
 	literals := make([]expr.Literal, 0, len(elements))
 	for _, elemCtx := range elements {
-		result := v.Visit(elemCtx)
-		if result == nil {
+		result, ok := v.Visit(elemCtx).(expr.Literal)
+		if !ok {
 			// Child visitor already reported the error via ErrorListener.
 			continue
 		}
-		literals = append(literals, result.(expr.Literal))
+		v.validateLiteralType(elemCtx.(antlr.ParserRuleContext), result, v.getLiteralTypeInContext())
+		literals = append(literals, result)
 	}
 	return literals
 }
@@ -886,6 +927,9 @@ func (v *TestCaseVisitor) VisitLiteral(ctx *baseparser.LiteralContext) interface
 			return literal.NewString(ctx.NumericLiteral().GetText(), false)
 		}
 		value := v.getLiteralFromString(ctx, ctx.NumericLiteral().GetText(), v.getLiteralTypeInContext())
+		if value == nil {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid value %s for type %v", ctx.GetText(), v.getLiteralTypeInContext()))
+		}
 		return value
 	}
 
-- 
2.43.0


From b9693812f2032c3349b2eaa463109d4a59e44959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:43 +0000
Subject: [PATCH 079/104] fix: handle empty tables and reject ragged tables in
 function test files

---
 testcases/parser/nodes.go   |  4 ++--
 testcases/parser/visitor.go | 26 +++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 6dfaae9..8170d71 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -203,7 +203,7 @@ func (tc *TestCase) needCompactAggregateFuncCall() bool {
 func (tc *TestCase) getAggregateFuncTableString() string {
 	var b strings.Builder
 	if len(tc.Columns) == 0 {
-		return ""
+		return "()"
 	}
 	b.WriteByte('(')
 	numRows := len(tc.Columns[0])
@@ -473,7 +473,7 @@ func (a *AggregateArgument) GetType() types.Type {
 }
 
 func newAggregateArgument(tableName string, columnName string, columnType types.Type) (*AggregateArgument, error) {
-	index, err := strconv.ParseInt(columnName[3:], 10, 64)
+	index, err := strconv.ParseInt(columnName[3:], 10, 32)
 	if err != nil {
 		return nil, err
 	}
diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 4206dc5..0af5082 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -25,6 +25,10 @@ func getNullability(ctx isNull) types.Nullability {
 	return types.NullabilityRequired
 }
 
+// maxEmptyTableColumns limits the number of columns of tables without rows,
+// which is only given by the columns the arguments refer to.
+const maxEmptyTableColumns = 1024
+
 type TestCaseVisitor struct {
 	baseparser.FuncTestCaseParserVisitor
 	ErrorListener        util.VisitErrorListener
@@ -198,10 +202,20 @@ func (v *TestCaseVisitor) VisitCompactAggregateFuncCall(ctx *baseparser.CompactA
 		args = v.Visit(ctx.AggregateFuncArgs()).([]*AggregateArgument)
 	}
 
-	numberOfColumns := int32(len(rows[0]))
+	var numberOfColumns int32
+	if len(rows) > 0 {
+		numberOfColumns = int32(len(rows[0]))
+	} else {
+		// a table without rows has the columns its arguments refer to
+		for _, arg := range args {
+			if !arg.IsScalar && arg.ColumnIndex < maxEmptyTableColumns {
+				numberOfColumns = max(numberOfColumns, arg.ColumnIndex+1)
+			}
+		}
+	}
 	columnTypes := make([]types.Type, numberOfColumns)
 	for _, arg := range args {
-		if arg.ColumnIndex >= numberOfColumns {
+		if !arg.IsScalar && arg.ColumnIndex >= numberOfColumns {
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid column index %d, expected less than %d", arg.ColumnIndex, len(columnTypes)))
 			continue
 		}
@@ -280,13 +294,19 @@ func (v *TestCaseVisitor) VisitTableData(ctx *baseparser.TableDataContext) inter
 func (v *TestCaseVisitor) getColumnsFromRows(ctx antlr.ParserRuleContext, rows [][]expr.Literal, columnTypes []types.Type) ([][]expr.Literal, []types.Type) {
 	columns := make([][]expr.Literal, 0, len(columnTypes))
 	retColumnTypes := make([]types.Type, 0, len(columnTypes))
+	for _, row := range rows {
+		if len(row) != len(columnTypes) {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid table row of %d values, expected %d", len(row), len(columnTypes)))
+			return nil, nil
+		}
+	}
 	for i, columnType := range columnTypes {
 		newColumnType := columnType
 		column := make([]expr.Literal, 0, len(rows))
 		for _, row := range rows {
 			cell := v.getLiteral(ctx, row[i], columnType)
 			v.validateLiteralType(ctx, cell, columnType)
-			if _, ok := cell.(*expr.NullLiteral); ok {
+			if _, ok := cell.(*expr.NullLiteral); ok && columnType != nil {
 				newColumnType = columnType.WithNullability(types.NullabilityNullable)
 				cell = expr.NewNullLiteral(newColumnType)
 			}
-- 
2.43.0


From 93b20a030b77765c6078ee623a6fb9dc60a3d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 080/104] fix: keep the order of function test options stable

---
 testcases/parser/nodes.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 8170d71..952459c 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -2,6 +2,8 @@ package parser
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -224,15 +226,20 @@ func (tc *TestCase) getAggregateFuncTableString() string {
 	return b.String()
 }
 
+// sortedOptionNames returns the option names in an order that doesn't change from call to call.
+func (tc *TestCase) sortedOptionNames() []string {
+	return slices.Sorted(maps.Keys(tc.Options))
+}
+
 func (tc *TestCase) getOptionString() string {
 	if len(tc.Options) == 0 {
 		return ""
 	}
 	var b strings.Builder
 	b.WriteString(" [")
-	var options []string
-	for k, v := range tc.Options {
-		options = append(options, fmt.Sprintf("%s:%s", k, v))
+	options := make([]string, 0, len(tc.Options))
+	for _, k := range tc.sortedOptionNames() {
+		options = append(options, fmt.Sprintf("%s:%s", k, tc.Options[k]))
 	}
 	b.WriteString(strings.Join(options, ","))
 	b.WriteByte(']')
@@ -244,10 +251,10 @@ func (tc *TestCase) GetFunctionOptions() []*types.FunctionOption {
 		return nil
 	}
 	funcOptions := make([]*types.FunctionOption, 0)
-	for key, value := range tc.Options {
+	for _, key := range tc.sortedOptionNames() {
 		funcOptions = append(funcOptions, &types.FunctionOption{
 			Name:       key,
-			Preference: []string{value},
+			Preference: []string{tc.Options[key]},
 		})
 	}
 	return funcOptions
-- 
2.43.0


From 5642a627126a3552d8de643d3975da190108cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 081/104] fix: give scalar arguments of aggregate function
 tests their declared type

---
 testcases/parser/visitor.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 0af5082..4568a88 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -262,12 +262,17 @@ func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArgs(ctx *baseparser.Qualif
 	return args
 }
 
+func (v *TestCaseVisitor) getScalarAggregateArgument(ctx baseparser.IArgumentContext) *AggregateArgument {
+	arg := v.Visit(ctx).(*CaseLiteral)
+	if err := arg.updateLiteralType(); err != nil {
+		v.ErrorListener.ReportVisitError(ctx.(antlr.ParserRuleContext), fmt.Errorf("invalid argument %v", err))
+	}
+	return &AggregateArgument{Argument: arg, IsScalar: true}
+}
+
 func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArg(ctx *baseparser.QualifiedAggregateFuncArgContext) interface{} {
 	if ctx.Argument() != nil {
-		return &AggregateArgument{
-			Argument: v.Visit(ctx.Argument()).(*CaseLiteral),
-			IsScalar: true,
-		}
+		return v.getScalarAggregateArgument(ctx.Argument())
 	}
 	arg, err := newAggregateArgument(ctx.Identifier().GetText(), ctx.ColumnName().GetText(), nil)
 	if err != nil {
@@ -377,10 +382,7 @@ func (v *TestCaseVisitor) VisitAggregateFuncArgs(ctx *baseparser.AggregateFuncAr
 
 func (v *TestCaseVisitor) VisitAggregateFuncArg(ctx *baseparser.AggregateFuncArgContext) interface{} {
 	if ctx.Argument() != nil {
-		return &AggregateArgument{
-			Argument: v.Visit(ctx.Argument()).(*CaseLiteral),
-			IsScalar: true,
-		}
+		return v.getScalarAggregateArgument(ctx.Argument())
 	}
 	argType := v.Visit(ctx.DataType()).(types.Type)
 	arg, err := newAggregateArgument("", ctx.ColumnName().GetText(), argType)
-- 
2.43.0


From c153ad13578576eeb250c8c4ceacd24be9d7e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 082/104] fix: reject type parameters of function test files
 that are out of range

---
 testcases/parser/visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 4568a88..6e4e4f1 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -1142,7 +1142,7 @@ func (v *TestCaseVisitor) VisitDecimalType(ctx *baseparser.DecimalTypeContext) i
 }
 
 func (v *TestCaseVisitor) VisitIntegerLiteral(ctx *baseparser.IntegerLiteralContext) interface{} {
-	value, err := strconv.Atoi(ctx.GetText())
+	value, err := strconv.ParseInt(ctx.GetText(), 10, 32)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid int arg %v", err))
 	}
-- 
2.43.0


From 8d4e91ac97e60c3666e629fde32f1e3523b15c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 083/104] fix: quote the elements of printed lists of function
 test cases

---
 testcases/parser/nodes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 952459c..463da2a 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -62,6 +62,12 @@ func literalToString(literal expr.Literal) string {
 	switch lit := literal.(type) {
 	case *expr.NullLiteral:
 		return literal.ValueString()
+	case *expr.ListLiteral:
+		elements := make([]string, len(lit.Value))
+		for i, element := range lit.Value {
+			elements[i] = literalToString(element)
+		}
+		return "[" + strings.Join(elements, ", ") + "]"
 	case types.IsoValuePrinter:
 		switch literal.GetType().(type) {
 		// for these types enclose in single quotes
-- 
2.43.0


From 2042c5ffc96bbeac650d5b15d08ff0c76e7647ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 084/104] fix: resolve columns of aggregate function tests by
 their index

---
 testcases/parser/nodes.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 463da2a..e5efa11 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -287,10 +287,18 @@ func (tc *TestCase) getAggregateFuncArgTypes() []types.Type {
 }
 
 func (tc *TestCase) getAggregateFuncTableSchema() []types.Type {
-	schemaTypes := make([]types.Type, len(tc.AggregateArgs))
-	for i, arg := range tc.AggregateArgs {
+	// arguments refer to columns by index, which neither need to be in order nor complete
+	numColumns := len(tc.ColumnTypes)
+	for _, arg := range tc.AggregateArgs {
+		if !arg.IsScalar {
+			numColumns = max(numColumns, int(arg.ColumnIndex)+1)
+		}
+	}
+	schemaTypes := make([]types.Type, numColumns)
+	copy(schemaTypes, tc.ColumnTypes)
+	for _, arg := range tc.AggregateArgs {
 		if !arg.IsScalar {
-			schemaTypes[i] = arg.ColumnType
+			schemaTypes[arg.ColumnIndex] = arg.ColumnType
 		}
 	}
 	return schemaTypes
-- 
2.43.0


From 134378cd7e678b3a69d63047b37560812d1325d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 085/104] fix: accept decimals with 38 fractional digits

---
 expr/decimal_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expr/decimal_util.go b/expr/decimal_util.go
index 2198070..e7e3f9c 100644
--- a/expr/decimal_util.go
+++ b/expr/decimal_util.go
@@ -55,7 +55,8 @@ func DecimalToBytes(dec *apd.Decimal) ([16]byte, int32, int32, error) {
 		scale = 0
 	} else {
 		scale = -dec.Exponent
-		precision = max(int32(apd.NumDigits(&dec.Coeff)), scale+1)
+		// The zero before the decimal point counts, unless all 38 digits are behind it.
+		precision = max(int32(apd.NumDigits(&dec.Coeff)), min(scale+1, 38))
 	}
 	if precision > 38 {
 		return result, precision, scale, fmt.Errorf("number %s exceeds maximum precision of 38 (%d)", dec.String(), precision)
-- 
2.43.0


From 4237a77ec2703f1e663a9b45693a283c2a896a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 086/104] fix: allow zero as a decimal without integer digits

---
 expr/decimal_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr/decimal_util.go b/expr/decimal_util.go
index e7e3f9c..b205fc0 100644
--- a/expr/decimal_util.go
+++ b/expr/decimal_util.go
@@ -203,5 +203,9 @@ func getMinimumPrecisionAndScale(dec *apd.Decimal) (precision int32, scale int32
 		scale = -dec.Exponent
 		precision = max(int32(apd.NumDigits(&dec.Coeff)), scale)
 	}
+	if dec.IsZero() {
+		// Zero has no integer digits.
+		precision = scale
+	}
 	return precision, scale
 }
-- 
2.43.0


From b40590172c7a6181dbe993870c949b397bc07e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 087/104] fix: count the length of character literals in
 characters

---
 expr/literals.go | 7 ++++---
 literal/utils.go | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index c93b41a..390810f 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -13,6 +13,7 @@ import (
 	"slices"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/google/uuid"
 	substraitgo "github.com/substrait-io/substrait-go/v8"
@@ -739,7 +740,7 @@ func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Li
 	if _, ok := literal.GetType().(*types.VarCharType); !ok {
 		return nil, fmt.Errorf("literal type is not varchar")
 	}
-	if len(literal.Value.(string)) > int(vcharType.GetLength()) {
+	if utf8.RuneCountInString(literal.Value.(string)) > int(vcharType.GetLength()) {
 		return nil, fmt.Errorf("varchar literal value length is greater than type length")
 	}
 	return &ProtoLiteral{Value: literal.Value, Type: vcharType}, nil
@@ -856,7 +857,7 @@ func NewFixedCharLiteral(val types.FixedChar, nullable bool) *PrimitiveLiteral[t
 		Value: val,
 		Type: &types.FixedCharType{
 			Nullability: getNullability(nullable),
-			Length:      int32(len(val)),
+			Length:      int32(utf8.RuneCountInString(string(val))),
 		},
 	}
 }
@@ -1194,7 +1195,7 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		return &PrimitiveLiteral[types.FixedChar]{
 			Value: types.FixedChar(lit.FixedChar),
 			Type: &types.FixedCharType{
-				Length:           int32(len(lit.FixedChar)),
+				Length:           int32(utf8.RuneCountInString(lit.FixedChar)),
 				TypeVariationRef: l.TypeVariationReference,
 				Nullability:      nullability,
 			}}
diff --git a/literal/utils.go b/literal/utils.go
index 31595b1..25e0a13 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/cockroachdb/apd/v3"
 	"github.com/google/uuid"
@@ -318,7 +319,7 @@ func NewFixedBinary(value []byte, nullable bool) (expr.Literal, error) {
 }
 
 func NewVarChar(value string, nullable bool) (expr.Literal, error) {
-	return expr.NewLiteral(&types.VarChar{Value: value, Length: uint32(len(value))}, nullable)
+	return expr.NewLiteral(&types.VarChar{Value: value, Length: uint32(utf8.RuneCountInString(value))}, nullable)
 }
 
 // NewDecimalFromTwosComplement create a Decimal literal from twosComplement.
-- 
2.43.0


From ba349beaaa956a7c8749f9913d46ff4d12cfea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 088/104] fix: give list elements in function test files their
 declared time precision

---
 testcases/parser/visitor.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 6e4e4f1..46ae4aa 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -847,6 +847,13 @@ func (v *TestCaseVisitor) VisitLiteralList(ctx *baseparser.LiteralListContext) i
 
 func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) interface{} {
 	if ctx.Literal() != nil {
+		if value, ok, err := v.getPrecisionLiteral(ctx.Literal()); ok {
+			if err != nil {
+				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid list element %v", err))
+				return nil
+			}
+			return value
+		}
 		return v.Visit(ctx.Literal())
 	}
 	if ctx.LiteralList() != nil {
@@ -878,6 +885,29 @@ func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) i
 	return nil
 }
 
+// getPrecisionLiteral returns the value of a literal whose declared type is a time or timestamp type with a
+// precision. It returns false if the declared type is another one or if the literal can't be of that type.
+func (v *TestCaseVisitor) getPrecisionLiteral(ctx baseparser.ILiteralContext) (value expr.Literal, ok bool, err error) {
+	switch t := v.getLiteralTypeInContext().(type) {
+	case *types.PrecisionTimeType:
+		if ok = ctx.TimeLiteral() != nil; ok {
+			text := getRawStringFromStringLiteral(ctx.TimeLiteral().GetText())
+			value, err = literal.NewPrecisionTimeFromString(t.Precision, text, t.GetNullability() == types.NullabilityNullable)
+		}
+	case *types.PrecisionTimestampType:
+		if ok = ctx.TimestampLiteral() != nil; ok {
+			text := getRawStringFromStringLiteral(ctx.TimestampLiteral().GetText())
+			value, err = literal.NewPrecisionTimestampFromString(t.Precision, text, t.GetNullability() == types.NullabilityNullable)
+		}
+	case *types.PrecisionTimestampTzType:
+		if ok = ctx.TimestampTzLiteral() != nil; ok {
+			text := getRawStringFromStringLiteral(ctx.TimestampTzLiteral().GetText())
+			value, err = literal.NewPrecisionTimestampTzFromString(t.Precision, text, t.GetNullability() == types.NullabilityNullable)
+		}
+	}
+	return value, ok, err
+}
+
 func (v *TestCaseVisitor) VisitLiteral(ctx *baseparser.LiteralContext) interface{} {
 	nullable := false
 	if literalType := v.getLiteralTypeInContext(); literalType != nil {
-- 
2.43.0


From 80bfcec3180e8527fe75cd295901bc0f6cc7dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 089/104] fix: print binary values of function test cases as
 their text

---
 testcases/parser/nodes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index e5efa11..ddb08cb 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -62,6 +62,10 @@ func literalToString(literal expr.Literal) string {
 	switch lit := literal.(type) {
 	case *expr.NullLiteral:
 		return literal.ValueString()
+	case *expr.ByteSliceLiteral[[]byte]:
+		if _, ok := lit.Type.(*types.BinaryType); ok {
+			return fmt.Sprintf("'%s'", lit.Value)
+		}
 	case *expr.ListLiteral:
 		elements := make([]string, len(lit.Value))
 		for i, element := range lit.Value {
-- 
2.43.0


From 1b5fc57aef712e5dbe78ae8d07f8ad1c04fdaa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 090/104] fix: give interval_day cells of tables in function
 test files their declared precision

---
 testcases/parser/visitor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 46ae4aa..f2cb3e3 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -524,6 +524,16 @@ func (v *TestCaseVisitor) VisitBooleanArg(ctx *baseparser.BooleanArgContext) int
 }
 
 func (v *TestCaseVisitor) getLiteral(ctx antlr.ParserRuleContext, value expr.Literal, elementType types.Type) expr.Literal {
+	if intervalType, ok := elementType.(*types.IntervalDayType); ok {
+		if interval, ok := value.(expr.WithTypeLiteral); ok && isLiteralOfType(value.GetType(), elementType) {
+			typed, err := interval.WithType(intervalType)
+			if err != nil {
+				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid interval day arg %v", err))
+				return value
+			}
+			return typed
+		}
+	}
 	strLiteral, ok := value.(*expr.PrimitiveLiteral[string])
 	if !ok {
 		return value
-- 
2.43.0


From e4be8ca43de50c27f9f8b8c3b7a72e8dc3aeb680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 091/104] fix: let a dialect be localized concurrently

---
 functions/dialect.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index cc2b1a4..326a1a5 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -8,6 +8,7 @@ import (
 	"maps"
 	"slices"
 	"strings"
+	"sync"
 
 	"github.com/creasty/defaults"
 	"github.com/goccy/go-yaml"
@@ -41,7 +42,8 @@ type dialectImpl struct {
 	localAggregateFunctions map[extensions.FunctionID]*dialectFunctionInfo
 	localWindowFunctions    map[extensions.FunctionID]*dialectFunctionInfo
 
-	localTypeRegistry LocalTypeRegistry
+	localTypeRegistryMu sync.Mutex // a dialect may be used concurrently
+	localTypeRegistry   LocalTypeRegistry
 }
 
 func (d *dialectImpl) Name() string {
@@ -164,6 +166,8 @@ func addToSliceMapWithLocalKey[V localFunctionVariant](m map[FunctionName][]V, v
 }
 
 func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, error) {
+	d.localTypeRegistryMu.Lock()
+	defer d.localTypeRegistryMu.Unlock()
 	if d.localTypeRegistry != nil {
 		return d.localTypeRegistry, nil
 	}
@@ -183,9 +187,6 @@ func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, err
 }
 
 func (d *dialectImpl) GetLocalTypeRegistry() (LocalTypeRegistry, error) {
-	if d.localTypeRegistry != nil {
-		return d.localTypeRegistry, nil
-	}
 	return d.LocalizeTypeRegistry(NewTypeRegistry())
 }
 
-- 
2.43.0


From c07a83826269cd9582ff755c741d5ac00907bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 092/104] fix: types with parts of unknown type can be printed,
 compared and written

---
 types/types.go | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/types/types.go b/types/types.go
index da12169..93374d5 100644
--- a/types/types.go
+++ b/types/types.go
@@ -679,6 +679,10 @@ func (e *EnumType) WithParameters(params []interface{}) (Type, error) {
 // TypeToProto properly constructs the appropriate protobuf message
 // for the given type.
 func TypeToProto(t Type) *proto.Type {
+	if t == nil {
+		// e.g. of a reference into an outer query
+		return &proto.Type{}
+	}
 	switch t := t.(type) {
 	case *BooleanType:
 		return &proto.Type{Kind: &proto.Type_Bool{
@@ -1144,6 +1148,23 @@ func (*DecimalType) BaseString() string {
 	return "decimal"
 }
 
+// typeString is the text of a type that may not be known, as that of a
+// reference into an outer query.
+func typeString(t Type) string {
+	if t == nil {
+		return "unknown"
+	}
+	return t.String()
+}
+
+// typesEqual compares types that may not be known.
+func typesEqual(a, b Type) bool {
+	if a == nil || b == nil {
+		return a == nil && b == nil
+	}
+	return a.Equals(b)
+}
+
 type StructType struct {
 	Nullability      Nullability
 	TypeVariationRef uint32
@@ -1181,7 +1202,7 @@ func (t *StructType) Equals(rhs Type) bool {
 		}
 
 		for i := range t.Types {
-			if !t.Types[i].Equals(b.Types[i]) {
+			if !typesEqual(t.Types[i], b.Types[i]) {
 				return false
 			}
 		}
@@ -1219,7 +1240,7 @@ func (t *StructType) String() string {
 		if i != 0 {
 			b.WriteString(", ")
 		}
-		b.WriteString(f.String())
+		b.WriteString(typeString(f))
 	}
 	b.WriteByte('>')
 	return b.String()
@@ -1231,7 +1252,7 @@ func (t *StructType) ParameterString() string {
 		if i != 0 {
 			sb.WriteString(", ")
 		}
-		sb.WriteString(typ.String())
+		sb.WriteString(typeString(typ))
 	}
 	return sb.String()
 }
@@ -1311,12 +1332,12 @@ func (f *FuncType) Equals(rhs Type) bool {
 			return false
 		case len(f.ParameterTypes) != len(b.ParameterTypes):
 			return false
-		case !f.ReturnType.Equals(b.ReturnType):
+		case !typesEqual(f.ReturnType, b.ReturnType):
 			return false
 		}
 
 		for i := range f.ParameterTypes {
-			if !f.ParameterTypes[i].Equals(b.ParameterTypes[i]) {
+			if !typesEqual(f.ParameterTypes[i], b.ParameterTypes[i]) {
 				return false
 			}
 		}
@@ -1356,10 +1377,10 @@ func (f *FuncType) String() string {
 		if i != 0 {
 			b.WriteString(", ")
 		}
-		b.WriteString(p.String())
+		b.WriteString(typeString(p))
 	}
 	b.WriteString(" -> ")
-	b.WriteString(f.ReturnType.String())
+	b.WriteString(typeString(f.ReturnType))
 	b.WriteByte('>')
 	return b.String()
 }
@@ -1395,7 +1416,7 @@ func (t *ListType) Equals(rhs Type) bool {
 			return false
 		}
 
-		return t.Type.Equals(b.Type)
+		return typesEqual(t.Type, b.Type)
 	}
 	return false
 }
@@ -1416,11 +1437,11 @@ func (t *ListType) ToProtoFuncArg() *proto.FunctionArgument {
 func (*ListType) ShortString() string { return "list" }
 
 func (t *ListType) String() string {
-	return "list" + strNullable(t) + "<" + t.Type.String() + ">"
+	return "list" + strNullable(t) + "<" + typeString(t.Type) + ">"
 }
 
 func (s *ListType) ParameterString() string {
-	return s.Type.String()
+	return typeString(s.Type)
 }
 
 func (*ListType) BaseString() string {
@@ -1457,7 +1478,7 @@ func (t *MapType) Equals(rhs Type) bool {
 			return false
 		}
 
-		return t.Key.Equals(b.Key) && t.Value.Equals(b.Value)
+		return typesEqual(t.Key, b.Key) && typesEqual(t.Value, b.Value)
 	}
 	return false
 }
@@ -1479,11 +1500,11 @@ func (t *MapType) ToProtoFuncArg() *proto.FunctionArgument {
 func (t *MapType) ShortString() string { return "map" }
 
 func (t *MapType) String() string {
-	return "map" + strNullable(t) + "<" + t.Key.String() + ", " + t.Value.String() + ">"
+	return "map" + strNullable(t) + "<" + typeString(t.Key) + ", " + typeString(t.Value) + ">"
 }
 
 func (t *MapType) ParameterString() string {
-	return fmt.Sprintf("%s, %s", t.Key.String(), t.Value.String())
+	return fmt.Sprintf("%s, %s", typeString(t.Key), typeString(t.Value))
 }
 
 func (*MapType) BaseString() string {
-- 
2.43.0


From 7acd85523ef9af0078f0e30cac52de44782d0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 093/104] fix: a named struct with missing names or types can
 be printed

---
 types/types.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/types/types.go b/types/types.go
index 93374d5..14591af 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1772,6 +1772,14 @@ func (n NamedStruct) String() string {
 
 	// names are in depth-first order
 	nameIdx := 0
+	writeName := func() {
+		// there may be fewer names than fields
+		if nameIdx < len(n.Names) {
+			b.WriteString(n.Names[nameIdx])
+		}
+		nameIdx++
+		b.WriteString(": ")
+	}
 
 	var writeType func(t Type)
 
@@ -1783,9 +1791,7 @@ func (n NamedStruct) String() string {
 				if i != 0 {
 					b.WriteString(", ")
 				}
-				b.WriteString(n.Names[nameIdx])
-				nameIdx++
-				b.WriteString(": ")
+				writeName()
 				writeType(c)
 			}
 			b.WriteString(">")
@@ -1803,7 +1809,7 @@ func (n NamedStruct) String() string {
 			b.WriteString(">")
 			b.WriteString(strNullable(t))
 		default:
-			b.WriteString(t.String())
+			b.WriteString(typeString(t))
 		}
 	}
 
@@ -1812,10 +1818,7 @@ func (n NamedStruct) String() string {
 		if i != 0 {
 			b.WriteString(", ")
 		}
-		b.WriteString(n.Names[nameIdx])
-		b.WriteString(": ")
-		nameIdx++
-
+		writeName()
 		writeType(t)
 	}
 	b.WriteString(">")
-- 
2.43.0


From f7f2400d2a642177862ef01a2a02aee21c7e8bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:12 +0000
Subject: [PATCH 094/104] fix: reject extended expressions whose base schema
 has a column without a type

---
 expr/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expr/expression.go b/expr/expression.go
index 9dd71df..d221f5a 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1748,6 +1748,11 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 		reg  = NewExtensionRegistry(extSet, c)
 		refs = make([]ExpressionReference, len(ex.ReferredExpr))
 	)
+	for _, t := range base.Struct.Types {
+		if t == nil {
+			return nil, fmt.Errorf("%w: base schema has a column without a type", substraitgo.ErrInvalidExpr)
+		}
+	}
 
 	for i, r := range ex.ReferredExpr {
 		refs[i].OutputNames = r.OutputNames
-- 
2.43.0


From 6f9359617df94fe5c44f04c1b4ba7b73f3808d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:17 +0000
Subject: [PATCH 095/104] fix: a field reference into a window function is not
 scalar

---
 expr/field_reference.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index f7f847a..385d72d 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -827,7 +827,12 @@ func (f *FieldReference) Visit(v VisitFunc) Expression {
 	return &out
 }
 
-func (*FieldReference) IsScalar() bool { return true }
+func (f *FieldReference) IsScalar() bool {
+	if rootExpr, ok := f.Root.(Expression); ok {
+		return rootExpr.IsScalar()
+	}
+	return true
+}
 
 func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *types.RecordType, reg ExtensionRegistry) (*FieldReference, error) {
 	var (
-- 
2.43.0


From fb359dd1e60ac6b818cac69506e3ec3681cda352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:54 +0000
Subject: [PATCH 096/104] fix: a fixed number shared by two parameters does not
 synchronise them

---
 extensions/variants.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extensions/variants.go b/extensions/variants.go
index a774ae5..d73a7d1 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -734,6 +734,11 @@ func HasSyncParams(params []types.FuncDefArgType) bool {
 // if it is parameterized type, leaf type is found recursively
 func getLeafParameterizedParams(abstractTypes interface{}) []string {
 	if leaf, ok := abstractTypes.(integer_parameters.IntegerParameter); ok {
+		if _, isConcrete := leaf.(*integer_parameters.ConcreteIntParam); isConcrete {
+			// a fixed value, as the 38 of decimal<38, S>, is not an abstract
+			// parameter, so sharing it does not tie two arguments together
+			return nil
+		}
 		return []string{leaf.String()}
 	}
 	if dataParam, ok := abstractTypes.(*types.DataTypeUDTParam); ok {
-- 
2.43.0


From 80d19a4cfe3b5397c24ed620d2b06e808193cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:54 +0000
Subject: [PATCH 097/104] fix: return-type programs match nullability at every
 level

---
 types/type_derivation.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 74cb67b..edff73d 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -328,10 +328,7 @@ func (m *OutputDerivation) GetParameterizedParams() []interface{} {
 }
 
 func (m *OutputDerivation) MatchWithNullability(ot Type) bool {
-	if m.FinalType.GetNullability() != ot.GetNullability() {
-		return false
-	}
-	return m.MatchWithoutNullability(ot)
+	return m.FinalType.MatchWithNullability(ot)
 }
 
 func (m *OutputDerivation) MatchWithoutNullability(ot Type) bool {
-- 
2.43.0


From c57cb65a00dd023f17bb6736d54a31bb3b6117b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:54 +0000
Subject: [PATCH 098/104] fix: ResolveURN gives aggregate and window variants
 the defaults GetVariants does

---
 extensions/simple_extension.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index 6fda2a9..bdb4af0 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -428,15 +428,10 @@ func (s *AggregateFunction) GetVariants(urn string) []*AggregateFunctionVariant
 }
 
 func (s *AggregateFunction) ResolveURN(urn string) []FunctionVariant {
-	out := make([]FunctionVariant, len(s.Impls))
-	for i, impl := range s.Impls {
-		out[i] = &AggregateFunctionVariant{
-			name:        s.Name,
-			description: s.Description,
-			urn:         urn,
-			impl:        impl,
-			metadata:    s.Metadata,
-		}
+	variants := s.GetVariants(urn)
+	out := make([]FunctionVariant, len(variants))
+	for i, variant := range variants {
+		out[i] = variant
 	}
 	return out
 }
@@ -513,15 +508,10 @@ func (s *WindowFunction) GetVariants(urn string) []*WindowFunctionVariant {
 }
 
 func (s *WindowFunction) ResolveURN(urn string) []FunctionVariant {
-	out := make([]FunctionVariant, len(s.Impls))
-	for i, impl := range s.Impls {
-		out[i] = &WindowFunctionVariant{
-			name:        s.Name,
-			description: s.Description,
-			urn:         urn,
-			impl:        impl,
-			metadata:    s.Metadata,
-		}
+	variants := s.GetVariants(urn)
+	out := make([]FunctionVariant, len(variants))
+	for i, variant := range variants {
+		out[i] = variant
 	}
 	return out
 }
-- 
2.43.0


From 4d26f3271a2a8a9cc0d79846fa722abd5ce8eee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:00 +0000
Subject: [PATCH 099/104] fix: a conditional or negation prints in parentheses
 where it is an operand

---
 types/type_derivation.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index edff73d..2d5116e 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -179,6 +179,15 @@ func (b BinaryExpr) String() string {
 	return fmt.Sprintf("(%s %s %s)", b.Left, b.Op, b.Right)
 }
 
+// bareString prints an expression where nothing around it can be taken for a
+// part of it, so that a conditional or a negation needs no parentheses.
+func bareString(e Expr) string {
+	if b, ok := e.(interface{ bareString() string }); ok {
+		return b.bareString()
+	}
+	return e.String()
+}
+
 type IfExpr struct {
 	Condition Expr
 	Then      Expr
@@ -186,11 +195,17 @@ type IfExpr struct {
 	IsTernary bool
 }
 
+// String puts parentheses around the expression, as an operand it would
+// otherwise be read with what surrounds it.
 func (i IfExpr) String() string {
+	return "(" + i.bareString() + ")"
+}
+
+func (i IfExpr) bareString() string {
 	if i.IsTernary {
 		return fmt.Sprintf("%s ? %s : %s", i.Condition, i.Then, i.Else)
 	}
-	return fmt.Sprintf("if %s then %s else %s", i.Condition, i.Then, i.Else)
+	return fmt.Sprintf("if %s then %s else %s", bareString(i.Condition), bareString(i.Then), i.Else)
 }
 
 func (i IfExpr) Evaluate(symbolTable map[string]any) (any, error) {
@@ -212,7 +227,13 @@ type NotExpr struct {
 	Expr Expr
 }
 
+// String puts parentheses around the expression, as an operand it would
+// otherwise be read with what surrounds it.
 func (n NotExpr) String() string {
+	return "(" + n.bareString() + ")"
+}
+
+func (n NotExpr) bareString() string {
 	return fmt.Sprintf("!%s", n.Expr)
 }
 
@@ -297,7 +318,7 @@ func (a Assignment) Evaluate(symbolTable map[string]any) error {
 }
 
 func (a Assignment) String() string {
-	return fmt.Sprintf("%s = %s\n", a.Name, a.Value)
+	return fmt.Sprintf("%s = %s\n", a.Name, bareString(a.Value))
 }
 
 type OutputDerivation struct {
-- 
2.43.0


From 5a9b559c508d62a78b053b1a00b9de8874e5a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:57 +0000
Subject: [PATCH 100/104] fix: intermediate types of aggregate and window
 functions are written as type text

---
 extensions/simple_extension.go | 2 +-
 types/parser/parse.go          | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index bdb4af0..76fe735 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -365,7 +365,7 @@ const (
 
 type AggregateFunctionImpl struct {
 	ScalarFunctionImpl `yaml:",inline"`
-	Intermediate       parser.TypeExpression
+	Intermediate       parser.TypeExpression `yaml:",omitempty"`
 	Ordered            bool
 	MaxSet             int
 	Decomposable       DecomposeType
diff --git a/types/parser/parse.go b/types/parser/parse.go
index cb5b891..9210fe7 100644
--- a/types/parser/parse.go
+++ b/types/parser/parse.go
@@ -14,7 +14,10 @@ type TypeExpression struct {
 	ValueType types.FuncDefArgType
 }
 
-func (t *TypeExpression) MarshalYAML() (interface{}, error) {
+func (t TypeExpression) MarshalYAML() (interface{}, error) {
+	if t.ValueType == nil {
+		return nil, nil
+	}
 	return t.ValueType.String(), nil
 }
 
-- 
2.43.0


From 81c0609c438a4c0c0256bb24101ca70d3bb4ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:57 +0000
Subject: [PATCH 101/104] fix: functions that are not deterministic are written
 as such

---
 extensions/simple_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index 76fe735..b6d16d2 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -263,7 +263,7 @@ type ScalarFunctionImpl struct {
 	Options          map[string]Option      `yaml:",omitempty"`
 	Variadic         *VariadicBehavior      `yaml:",omitempty"`
 	SessionDependent bool                   `yaml:"sessionDependent,omitempty"`
-	Deterministic    bool                   `yaml:",omitempty"`
+	Deterministic    bool                   `yaml:"deterministic"`
 	Nullability      NullabilityHandling    `yaml:",omitempty" default:"MIRROR"`
 	Return           *parser.TypeExpression `yaml:",omitempty"`
 	Implementation   map[string]string      `yaml:",omitempty"`
-- 
2.43.0


From ef067caa768447241e7984f200340423174a103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:57 +0000
Subject: [PATCH 102/104] fix: tenths and hundredths of a second convert to
 durations without overflow

---
 types/precison_timestamp_types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/precison_timestamp_types.go b/types/precison_timestamp_types.go
index 232c8ca..4875311 100644
--- a/types/precison_timestamp_types.go
+++ b/types/precison_timestamp_types.go
@@ -37,9 +37,9 @@ func SubSecondsToDuration(subSeconds int64, precision TimePrecision) time.Durati
 	case PrecisionSeconds:
 		return time.Duration(subSeconds) * time.Second
 	case PrecisionDeciSeconds:
-		return time.Duration(subSeconds) * time.Second / 10
+		return time.Duration(subSeconds) * 100 * time.Millisecond
 	case PrecisionCentiSeconds:
-		return time.Duration(subSeconds) * time.Second / 100
+		return time.Duration(subSeconds) * 10 * time.Millisecond
 	case PrecisionMilliSeconds:
 		return time.Duration(subSeconds) * time.Millisecond
 	case PrecisionEMinus4Seconds:
-- 
2.43.0


From 896f3aea856ef394a453a7dcfcb7fec524163f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:57 +0000
Subject: [PATCH 103/104] fix: ISO text of day intervals counts sub-seconds of
 any size

---
 expr/literals.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 390810f..65fed8d 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -579,22 +579,29 @@ func (t *ProtoLiteral) IsoValueString() string {
 		if x.GetDays() != 0 {
 			sb.WriteString(fmt.Sprintf("%dD", x.GetDays()))
 		}
-		duration := time.Duration(x.GetSeconds()) * time.Second
-		duration += types.SubSecondsToDuration(subSeconds, literalType.Precision)
-		if duration != 0 || x.GetDays() == 0 {
+		// whole seconds apart from the fraction: a duration holds only 292 years
+		perSecond := int64(math.Pow10(int(literalType.Precision)))
+		total := int64(x.GetSeconds()) + subSeconds/perSecond
+		fraction := types.SubSecondsToDuration(subSeconds%perSecond, literalType.Precision)
+		if total > 0 && fraction < 0 {
+			total, fraction = total-1, fraction+time.Second
+		} else if total < 0 && fraction > 0 {
+			total, fraction = total+1, fraction-time.Second
+		}
+		if total != 0 || fraction != 0 || x.GetDays() == 0 {
 			sb.WriteString("T")
-			if hours := duration / time.Hour; hours != 0 {
+			if hours := total / 3600; hours != 0 {
 				sb.WriteString(fmt.Sprintf("%dH", hours))
 			}
-			if minutes := duration % time.Hour / time.Minute; minutes != 0 {
+			if minutes := total % 3600 / 60; minutes != 0 {
 				sb.WriteString(fmt.Sprintf("%dM", minutes))
 			}
-			if seconds := duration % time.Minute; seconds != 0 || duration == 0 {
-				if seconds < 0 {
+			if seconds := total % 60; seconds != 0 || fraction != 0 || total == 0 {
+				if seconds < 0 || fraction < 0 {
 					sb.WriteString("-")
-					seconds = -seconds
+					seconds, fraction = -seconds, -fraction
 				}
-				text := fmt.Sprintf("%d.%09d", seconds/time.Second, seconds%time.Second)
+				text := fmt.Sprintf("%d.%09d", seconds, fraction)
 				sb.WriteString(strings.TrimRight(strings.TrimRight(text, "0"), ".") + "S")
 			}
 		}
-- 
2.43.0


From ecbdc844311aca9c666817fae79ea48649770cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:57 +0000
Subject: [PATCH 104/104] fix: retyping a day interval reports sub-seconds that
 do not fit the new precision

---
 expr/literals.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expr/literals.go b/expr/literals.go
index 65fed8d..68be0d7 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -821,7 +821,12 @@ func newIntervalDayWithType(literal *ProtoLiteral, intervalDayType *types.Interv
 			if precisionDiff > 0 {
 				ss /= factor
 			} else {
-				ss *= factor
+				scaled := ss * factor
+				if scaled/factor != ss {
+					return nil, fmt.Errorf("%w: %d sub-seconds do not fit in precision %d",
+						substraitgo.ErrInvalidArg, ss, intervalDayType.Precision)
+				}
+				ss = scaled
 			}
 		}
 		return &ProtoLiteral{
-- 
2.43.0

