From 5e9de048825859bfb44034f84fad8ca284405c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 01/60] fix: integer remainder by zero is an error, not a Go
 panic

---
 prim_math.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prim_math.go b/prim_math.go
index 9438e10..e3e8992 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -295,6 +295,11 @@ func RemainderImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	if IntegerValue(divisor) == 0 {
+		err = ProcessError(fmt.Sprintf("%%/modulo: %s -> Divide by zero.", String(args)), env)
+		return
+	}
+
 	val := IntegerValue(dividend) % IntegerValue(divisor)
 	return IntegerWithValue(val), nil
 }
-- 
2.43.0


From b477083d4c1629aee45024c41e15ac7724099b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 02/60] fix: abs of an integer is exact instead of going
 through a 32-bit float

---
 prim_math.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index e3e8992..98d4be1 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -601,11 +601,14 @@ func AbsImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		err = ProcessError(fmt.Sprintf("abs expected a number, received %s", String(Car(args))), env)
 		return
 	}
-	absval := math.Abs(float64(FloatValue(val)))
 	if IntegerP(val) {
-		result = IntegerWithValue(int64(absval))
+		n := IntegerValue(val)
+		if n < 0 {
+			n = -n
+		}
+		result = IntegerWithValue(n)
 	} else {
-		result = FloatWithValue(float32(absval))
+		result = FloatWithValue(float32(math.Abs(float64(FloatValue(val)))))
 	}
 	return
 }
-- 
2.43.0


From dd7b98d70762ba78098cc0fdf2bcf45130cb45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 03/60] fix: compare integers as integers, not as 32-bit floats

---
 prim_relative_logical.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/prim_relative_logical.go b/prim_relative_logical.go
index 9075e56..72c99ed 100644
--- a/prim_relative_logical.go
+++ b/prim_relative_logical.go
@@ -41,6 +41,10 @@ func LessThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) < IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) < FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -58,6 +62,10 @@ func GreaterThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) > IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) > FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -87,6 +95,10 @@ func LessThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data, err
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) <= IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) <= FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -104,6 +116,10 @@ func GreaterThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data,
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) >= IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) >= FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
-- 
2.43.0


From 552a3923b6fe2b5bcab6f4d56ced5e649b6d7554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 04/60] fix: reject non-numeric arguments that follow a float
 in arithmetic

---
 prim_math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 98d4be1..56f2abd 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -168,10 +168,10 @@ func anyFloats(args *Data, env *SymbolTableFrame) (result bool, err error) {
 			return
 		}
 		if FloatP(Car(c)) {
-			return true, nil
+			result = true
 		}
 	}
-	return false, nil
+	return
 }
 
 func AddImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-- 
2.43.0


From 69c64d3cfb9ed7479de9cdd954d8ea75c27e5770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:44 +0000
Subject: [PATCH 05/60] fix: flatten and unquote-splicing stop at the end of a
 list ending in an empty cons

---
 data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data.go b/data.go
index dcfe12f..9a969e4 100644
--- a/data.go
+++ b/data.go
@@ -679,7 +679,7 @@ func Flatten(d *Data) (result *Data, err error) {
 	var l []*Data = make([]*Data, 0, 10)
 	for c := d; NotNilP(c); c = Cdr(c) {
 		if ListP(Car(c)) {
-			for i := Car(c); i != nil; i = Cdr(i) {
+			for i := Car(c); NotNilP(i); i = Cdr(i) {
 				l = append(l, Car(i))
 			}
 		} else {
@@ -707,7 +707,7 @@ func RecursiveFlatten(d *Data) (result *Data, err error) {
 			if err != nil {
 				return
 			}
-			for i := elem; i != nil; i = Cdr(i) {
+			for i := elem; NotNilP(i); i = Cdr(i) {
 				l = append(l, Car(i))
 			}
 		} else {
-- 
2.43.0


From a202f6937d179a840994ecd79fdbfc4690585544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:03 +0000
Subject: [PATCH 06/60] fix: applying a primitive to an empty list passes no
 arguments, as for functions

---
 data.go                | 8 ++------
 prim_list_functions.go | 4 ++--
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/data.go b/data.go
index 9a969e4..0905237 100644
--- a/data.go
+++ b/data.go
@@ -728,12 +728,8 @@ func QuoteIt(value *Data) (result *Data) {
 
 func QuoteAll(d *Data) (result *Data) {
 	var l []*Data = make([]*Data, 0, 10)
-	if d == nil {
-		l = append(l, QuoteIt(nil))
-	} else {
-		for c := d; c != nil; c = Cdr(c) {
-			l = append(l, QuoteIt(Car(c)))
-		}
+	for c := d; NotNilP(c); c = Cdr(c) {
+		l = append(l, QuoteIt(Car(c)))
 	}
 	return ArrayToList(l)
 }
diff --git a/prim_list_functions.go b/prim_list_functions.go
index 4aba735..13693af 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -354,7 +354,7 @@ func FilterImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var d []*Data = make([]*Data, 0, Length(col))
 	var v *Data
 	for c := col; NotNilP(c); c = Cdr(c) {
-		v, err = ApplyWithoutEval(f, Cons(Car(c), nil), env)
+		v, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
 		if err != nil {
 			return
 		}
@@ -387,7 +387,7 @@ func RemoveImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var d []*Data = make([]*Data, 0, Length(col))
 	var v *Data
 	for c := col; NotNilP(c); c = Cdr(c) {
-		v, err = ApplyWithoutEval(f, Cons(Car(c), nil), env)
+		v, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 238cf6d7ec652dcd0bfe9008c49aee9b138c3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 07/60] fix: set-car!, set-cdr! and set-nth! report bad
 arguments instead of crashing or changing nil

---
 list_access.go   |  7 +++++--
 prim_mutators.go | 24 ++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/list_access.go b/list_access.go
index e38ba14..b639618 100644
--- a/list_access.go
+++ b/list_access.go
@@ -136,9 +136,12 @@ func Tenth(d *Data) *Data {
 }
 
 func SetNth(list *Data, index int, value *Data) *Data {
-	for i := index; i > 1; list, i = Cdr(list), i-1 {
+	for i := index; i > 1 && ListP(list) && NotNilP(list); list, i = Cdr(list), i-1 {
 	}
-	if !NilP(list) {
+	if index > 0 && ListP(list) && NotNilP(list) {
+		if value == nil {
+			value = EmptyCons()
+		}
 		ConsValue(list).Car = value
 	}
 
diff --git a/prim_mutators.go b/prim_mutators.go
index e1f8523..a0f06a5 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -20,6 +20,7 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	symbol := Car(args)
 	if !SymbolP(symbol) {
 		err = ProcessError("set! requires a raw (unevaluated) symbol as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -30,21 +31,32 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
+	if err != nil {
+		return
+	}
+	if NilP(pair) || ConsValue(pair) == nil {
 		err = ProcessError("set-car! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
 		return
 	}
+	if value == nil {
+		value = EmptyCons()
+	}
 	ConsValue(pair).Car = value
 	return value, nil
 }
 
 func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
+	if err != nil {
+		return
+	}
+	if NilP(pair) || ConsValue(pair) == nil {
 		err = ProcessError("set-cdr! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -57,13 +69,21 @@ func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	l, err := Eval(First(args), env)
+	if err != nil {
+		return
+	}
 	if !ListP(l) {
 		err = ProcessError("set-nth! requires a list as it's first argument.", env)
+		return
 	}
 	index, err := Eval(Second(args), env)
 	if err != nil {
 		return
 	}
+	if !IntegerP(index) {
+		err = ProcessError("set-nth! requires an integer as it's second argument.", env)
+		return
+	}
 	value, err := Eval(Third(args), env)
 	if err != nil {
 		return
-- 
2.43.0


From 91e3de5114fe6459f52d2288dcd7b7cb7f63116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:34 +0000
Subject: [PATCH 08/60] fix: append! rejects non-lists instead of writing
 through the wrong type

---
 prim_list_manipulation.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index a2c6aea..b08e9d6 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -95,6 +95,17 @@ func AppendBangImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	if !ListP(firstList) {
+		err = ProcessError("append! requires a list as it's first argument.", env)
+		return
+	}
+	for c := firstList; NotNilP(c); c = Cdr(c) {
+		if !ListP(c) {
+			err = ProcessError("append! requires a proper list as it's first argument.", env)
+			return
+		}
+	}
+
 	second, err := Eval(Cadr(args), env)
 	if err != nil {
 		return
-- 
2.43.0


From 213454d543fe857a04e74b715008720028b74cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:40 +0000
Subject: [PATCH 09/60] fix: general-car-cdr with a negative path is an error
 instead of an endless loop

---
 prim_list_access.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim_list_access.go b/prim_list_access.go
index 8ef0936..87ac3cf 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -200,6 +200,10 @@ func GeneralCarCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err err
 		err = errors.New("general-car-cdr requires a non-zero path specifier")
 		return
 	}
+	if path < 0 {
+		err = errors.New("general-car-cdr requires a positive path specifier")
+		return
+	}
 	for path != 1 {
 		code := path & 0x1
 		if code == 0 {
-- 
2.43.0


From e011be4169e38cc5baf2347adbcc4a619ffc6297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:45 +0000
Subject: [PATCH 10/60] fix: take and drop of a bytearray with a negative count
 do not panic

---
 prim_list_access.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prim_list_access.go b/prim_list_access.go
index 87ac3cf..cde3d04 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -288,6 +288,9 @@ func TakeImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	} else if ObjectP(l) && ObjectType(l) == "[]byte" {
 		dataBytes := (*[]byte)(ObjectValue(l))
 		var bytesToCopy []byte
+		if size < 0 {
+			size = 0
+		}
 		if size >= len(*dataBytes) {
 			bytesToCopy = *dataBytes
 		} else {
@@ -321,6 +324,9 @@ func DropImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		result = cell
 	} else if ObjectP(l) && ObjectType(l) == "[]byte" {
 		dataBytes := (*[]byte)(ObjectValue(l))
+		if size < 0 {
+			size = 0
+		}
 		if size >= len(*dataBytes) {
 			newBytes := make([]byte, 0)
 			result = ObjectWithTypeAndValue("[]byte", unsafe.Pointer(&newBytes))
-- 
2.43.0


From fd6338ff5939f48d7bc939c5b935e5d7c9399571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:52 +0000
Subject: [PATCH 11/60] fix: interval near the ends of the integer range
 terminates

---
 prim_math.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prim_math.go b/prim_math.go
index 56f2abd..d9bd664 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -346,15 +346,22 @@ func IntervalImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			step = direction
 		}
 	}
-	var items []*Data = make([]*Data, 0, int(math.Abs(float64(end-start)))+1)
+	var items []*Data = make([]*Data, 0, 10)
 
+	// the remaining distance is compared as unsigned so that it can not overflow
 	if direction == 1 {
 		for i := start; i <= end; i = i + step {
 			items = append(items, IntegerWithValue(i))
+			if uint64(end)-uint64(i) < uint64(step) {
+				break
+			}
 		}
 	} else {
 		for i := start; i >= end; i = i + step {
 			items = append(items, IntegerWithValue(i))
+			if uint64(i)-uint64(end) < -uint64(step) {
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From fb43432dd27ae277c771efa42fd2144e2d2ea4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:59 +0000
Subject: [PATCH 12/60] fix: apply without an argument list is an error, not a
 Go panic

---
 prim_special_forms.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index d742d1b..3716125 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -454,6 +454,10 @@ func ApplyImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 	ary := ToArray(Cdr(args))
 	var argList *Data
+	if len(ary) == 0 {
+		err = ProcessError("apply requires a list of arguments", env)
+		return
+	}
 	if ListP(ary[len(ary)-1]) {
 		if len(ary) > 1 {
 			argList = ArrayToListWithTail(ary[0:len(ary)-1], ary[len(ary)-1])
-- 
2.43.0


From b1a2920a3185a83624fd5eec86d4f3da9f7da96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:06 +0000
Subject: [PATCH 13/60] fix: an error in a do loop's step expression is
 reported

---
 prim_special_forms.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index 3716125..a6ed4b2 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -437,8 +437,9 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			}
 		}
 
-		if rebindDoLocals(bindings, localEnv) != nil {
-			return
+		err = rebindDoLocals(bindings, localEnv)
+		if err != nil {
+			return nil, err
 		}
 	}
 	return
-- 
2.43.0


From fc1b54f91dbef4ea47e91e45d414d457d80062cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:12 +0000
Subject: [PATCH 14/60] fix: string-capitalize handles the empty string and
 multi-byte first characters

---
 prim_string.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prim_string.go b/prim_string.go
index 0e9fd84..09f0aa3 100644
--- a/prim_string.go
+++ b/prim_string.go
@@ -10,6 +10,7 @@ package golisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 const (
@@ -183,8 +184,9 @@ func StringDowncaseBangImpl(args *Data, env *SymbolTableFrame) (result *Data, er
 }
 
 func capitalize(s string) string {
-	firstChar := s[0:1]
-	remainingChars := s[1:]
+	_, firstLength := utf8.DecodeRuneInString(s)
+	firstChar := s[0:firstLength]
+	remainingChars := s[firstLength:]
 	parts := make([]string, 0, 2)
 	parts = append(parts, strings.ToUpper(firstChar))
 	parts = append(parts, strings.ToLower(remainingChars))
-- 
2.43.0


From c379bb07d937c6910c5d020b3a401fbb54adf8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:18 +0000
Subject: [PATCH 15/60] fix: substring with a negative start is an error, not a
 Go panic

---
 prim_string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim_string.go b/prim_string.go
index 09f0aa3..3b1a59e 100644
--- a/prim_string.go
+++ b/prim_string.go
@@ -247,6 +247,10 @@ func SubstringImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 	startValue := int(IntegerValue(startObj))
+	if startValue < 0 {
+		err = ProcessError(fmt.Sprintf("substring requires start >= 0."), env)
+		return
+	}
 	if startValue > len(stringValue) {
 		err = ProcessError(fmt.Sprintf("substring requires start < length of the string."), env)
 		return
-- 
2.43.0


From 1c4558478ac8dc9015aedbff692ab715a1fbcc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:27 +0000
Subject: [PATCH 16/60] fix: quasiquote keeps the tail of a dotted template

---
 prim_macros.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/prim_macros.go b/prim_macros.go
index 3da49b1..9ba8aea 100644
--- a/prim_macros.go
+++ b/prim_macros.go
@@ -27,6 +27,11 @@ func QuoteImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 }
 
+// `(a . ,b) is read as (a unquote b)
+func isUnquotedTail(cell *Data) bool {
+	return SymbolP(Car(cell)) && StringValue(Car(cell)) == "unquote" && Length(cell) == 2
+}
+
 func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *Data, err error) {
 	if !ListP(sexpr) {
 		return Cons(sexpr, nil), nil
@@ -78,8 +83,17 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 		}
 	} else {
 		parts := make([]*Data, 0, Length(Cdr(sexpr)))
-		for _, exp := range ToArray(sexpr) {
-			processed, err := processQuasiquoted(exp, level, env)
+		var tail *Data
+		for cell := sexpr; NotNilP(cell); cell = Cdr(cell) {
+			if !ListP(cell) || isUnquotedTail(cell) {
+				processed, err := processQuasiquoted(cell, level, env)
+				if err != nil {
+					return nil, err
+				}
+				tail = Car(processed)
+				break
+			}
+			processed, err := processQuasiquoted(Car(cell), level, env)
 			if err != nil {
 				return nil, err
 			}
@@ -91,6 +105,9 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 		if err != nil {
 			return nil, err
 		}
+		if tail != nil {
+			flat = ArrayToListWithTail(ToArray(flat), tail)
+		}
 		return Cons(flat, nil), nil
 	}
 }
-- 
2.43.0


From 61e25fddac8326e6ff8210abff68a2be0dbbb38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:33 +0000
Subject: [PATCH 17/60] fix: copying keeps the order of association lists and
 copies pairs and strings

---
 data.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/data.go b/data.go
index 0905237..12c8d48 100644
--- a/data.go
+++ b/data.go
@@ -772,12 +772,20 @@ func Copy(d *Data) *Data {
 	switch d.Type {
 	case AlistType:
 		{
-			alist := Acons(Copy(Caar(d)), Copy(Cdar(d)), nil)
-			for c := Cdr(d); NotNilP(c); c = Cdr(c) {
-				alist = Acons(Copy(Caar(c)), Copy(Cdar(c)), alist)
+			if NilP(d) {
+				return d
 			}
-			return alist
+
+			cell := ConsCell{Car: Copy(Car(d)), Cdr: Copy(Cdr(d))}
+			return &Data{Type: AlistType, Value: unsafe.Pointer(&cell)}
 		}
+	case AlistCellType:
+		{
+			pair := ConsCell{Car: Copy(Car(d)), Cdr: Copy(Cdr(d))}
+			return &Data{Type: AlistCellType, Value: unsafe.Pointer(&pair)}
+		}
+	case StringType:
+		return StringWithValue(StringValue(d))
 	case ConsCellType:
 		{
 			if NilP(d) {
-- 
2.43.0


From 9978c495c6774e47bff315e94caada18414525f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:39 +0000
Subject: [PATCH 18/60] fix: equality is symmetric and compares dotted tails
 and frame keys

---
 data.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/data.go b/data.go
index 12c8d48..2b2acc2 100644
--- a/data.go
+++ b/data.go
@@ -840,6 +840,8 @@ func IsEqual(d *Data, o *Data) bool {
 		if !PairP(o) && !DottedPairP(o) {
 			return false
 		}
+	} else if PairP(d) && (AlistP(o) || DottedPairP(o)) {
+		return IsEqual(o, d)
 	} else if TypeOf(o) != TypeOf(d) {
 		return false
 	}
@@ -862,15 +864,17 @@ func IsEqual(d *Data, o *Data) bool {
 	}
 
 	if ListP(d) {
-		if Length(d) != Length(o) {
-			return false
-		}
-		for a1, a2 := d, o; NotNilP(a1); a1, a2 = Cdr(a1), Cdr(a2) {
+		a1, a2 := d, o
+		for NotNilP(a1) && NotNilP(a2) && PairP(a1) && PairP(a2) {
 			if !IsEqual(Car(a1), Car(a2)) {
 				return false
 			}
+			a1, a2 = Cdr(a1), Cdr(a2)
 		}
-		return true
+		if NilP(a1) || NilP(a2) {
+			return NilP(a1) && NilP(a2)
+		}
+		return IsEqual(a1, a2)
 	}
 
 	if FrameP(d) {
@@ -884,7 +888,8 @@ func IsEqual(d *Data, o *Data) bool {
 			return false
 		}
 		for k, v := range frameD.Data {
-			if !IsEqual(v, frameO.Data[k]) {
+			other, found := frameO.Data[k]
+			if !found || !IsEqual(v, other) {
 				frameO.Mutex.RUnlock()
 				frameD.Mutex.RUnlock()
 				return false
-- 
2.43.0


From 1fa8039368562901d85cbbdf12d9a1249359f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:06 +0000
Subject: [PATCH 19/60] fix: chaining does not evaluate the chained value a
 second time

---
 prim_special_forms.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index a6ed4b2..9b3d0eb 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -473,6 +473,14 @@ func ApplyImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	return ApplyWithoutEval(f, argList, env)
 }
 
+// A value that is already evaluated has to be quoted to be used as an argument form.
+func quoteEvaluated(value *Data) *Data {
+	if SymbolP(value) || ListP(value) {
+		return QuoteIt(value)
+	}
+	return value
+}
+
 func ChainImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var value *Data
 
@@ -485,9 +493,9 @@ func ChainImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
-			newExpr = Cons(Car(sexpr), Cons(value, Cdr(sexpr)))
+			newExpr = Cons(Car(sexpr), Cons(quoteEvaluated(value), Cdr(sexpr)))
 		} else {
-			newExpr = Cons(sexpr, Cons(value, nil))
+			newExpr = Cons(sexpr, Cons(quoteEvaluated(value), nil))
 		}
 		value, err = Eval(newExpr, env)
 		if err != nil {
@@ -511,9 +519,9 @@ func TapImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
-			newExpr = Cons(Car(sexpr), Cons(value, Cdr(sexpr)))
+			newExpr = Cons(Car(sexpr), Cons(quoteEvaluated(value), Cdr(sexpr)))
 		} else {
-			newExpr = Cons(sexpr, Cons(value, nil))
+			newExpr = Cons(sexpr, Cons(quoteEvaluated(value), nil))
 		}
 		_, err = Eval(newExpr, env)
 		if err != nil {
-- 
2.43.0


From f944fbdc9d5813d8742693cba0aa46d6701ee2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:40 +0000
Subject: [PATCH 20/60] fix: last-pair of an association list is its last cell,
 not its first

---
 prim_list_access.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_list_access.go b/prim_list_access.go
index cde3d04..d30653d 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -413,7 +413,7 @@ func LastPairImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 
 	var cell *Data
-	for cell = l; NotNilP(Cdr(cell)) && PairP(Cdr(cell)); cell = Cdr(cell) {
+	for cell = l; NotNilP(Cdr(cell)) && ListP(Cdr(cell)); cell = Cdr(cell) {
 	}
 
 	return cell, nil
-- 
2.43.0


From 9fffba8f70dddcc0b9309d5859216bd77fbc15b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:45 +0000
Subject: [PATCH 21/60] fix: pairlis accepts an association list as its third
 argument

---
 prim_alist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_alist.go b/prim_alist.go
index d8a8b8d..866529a 100644
--- a/prim_alist.go
+++ b/prim_alist.go
@@ -65,7 +65,7 @@ func PairlisImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	result = Third(args)
 
 	if NotNilP(result) {
-		if !PairP(result) {
+		if !ListP(result) {
 			err = ProcessError("Third arg of pairlis must be an association list (if provided)", env)
 			return
 		}
-- 
2.43.0


From 263b964e301b6da9965237f546079b3d561e34de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:15 +0000
Subject: [PATCH 22/60] fix: a parameter list that is only a rest parameter
 binds the arguments

---
 function.go | 3 +++
 macro.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/function.go b/function.go
index 4bdd440..0b64282 100644
--- a/function.go
+++ b/function.go
@@ -63,6 +63,9 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 	var argValue *Data
 	var accumulatingParam *Data = nil
 	accumulatedArgs := make([]*Data, 0)
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
 			argValue, err = Eval(Car(a), argEnv)
diff --git a/macro.go b/macro.go
index c8f7f9c..c20fd23 100644
--- a/macro.go
+++ b/macro.go
@@ -44,6 +44,9 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 	var argValue *Data
 	var accumulatingParam *Data = nil
 	accumulatedArgs := make([]*Data, 0)
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
 			argValue, err = Eval(Car(a), argEnv)
-- 
2.43.0


From eabad516e5340bdc05945b57552d5be4caa80d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 23/60] fix: extract-bytes with a huge count is out of range,
 not a short result

---
 prim_bytearray.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_bytearray.go b/prim_bytearray.go
index f0f3bad..5ce8f03 100644
--- a/prim_bytearray.go
+++ b/prim_bytearray.go
@@ -262,7 +262,7 @@ func ExtractBytesImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 		err = ProcessError("Number to extract can not be negative.", env)
 		return
 	}
-	if index+numToExtract > len(*dataBytes) {
+	if numToExtract > len(*dataBytes)-index {
 		err = ProcessError(fmt.Sprintf("extract-bytes final index was out of range.  Was %d but bytearray has length of %d.", index+numToExtract-1, len(*dataBytes)), env)
 		return
 	}
-- 
2.43.0


From 1214d4d8f1d777c9dc3b636a18702d3a742e8127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:42 +0000
Subject: [PATCH 24/60] fix: a parent slot that does not hold a frame does not
 crash slot lookup

---
 frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index 2430579..88d6ae0 100644
--- a/frame.go
+++ b/frame.go
@@ -51,7 +51,7 @@ func (self *FrameMap) hasParentSlots() bool {
 func (self *FrameMap) Parents() []*FrameMap {
 	parents := make([]*FrameMap, 0, 0)
 	for k, v := range self.Data {
-		if isParentKey(k) && v != nil {
+		if isParentKey(k) && FrameP(v) {
 			parents = append(parents, FrameValue(v))
 		}
 	}
-- 
2.43.0


From 05222ecd89b90c0d9078a311e55a8797462820b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:10 +0000
Subject: [PATCH 25/60] fix: a method run by send-super sees the receiver, and
 super sends nest

---
 frame.go              | 56 +++++++++++++++++++++++++++++++++++++------
 function.go           | 22 +++++++++++++----
 prim_frame.go         | 42 ++++++++++++++------------------
 symbol_table_frame.go | 10 +++++---
 4 files changed, 91 insertions(+), 39 deletions(-)

diff --git a/frame.go b/frame.go
index 88d6ae0..836f8f3 100644
--- a/frame.go
+++ b/frame.go
@@ -97,34 +97,76 @@ func (self *FrameMap) HasSlot(key string) (ret bool) {
 
 //------------------------------------------------------------
 
-func (self *FrameMap) getHelper(key string, v *set.Set) *Data {
+func (self *FrameMap) getHelper(key string, v *set.Set) (*Data, *FrameMap) {
 	if v.Has(self) {
-		return nil
+		return nil, nil
 	}
 
 	v.Add(self)
 
 	val, ok := self.Data[key]
 	if ok {
-		return val
+		return val, self
 	}
 
 	for _, p := range self.Parents() {
 		p.Mutex.RLock()
-		val := p.getHelper(key, v)
+		val, holder := p.getHelper(key, v)
 		p.Mutex.RUnlock()
 		if val != nil {
-			return val
+			return val, holder
 		}
 	}
 
-	return nil
+	return nil, nil
 }
 
 func (self *FrameMap) Get(key string) (ret *Data) {
+	ret, _ = self.getWithHolder(key)
+	return
+}
+
+// getWithHolder also returns the frame that holds the slot: self or one of its ancestors.
+func (self *FrameMap) getWithHolder(key string) (ret *Data, holder *FrameMap) {
+	visited := set.New()
+	self.Mutex.RLock()
+	ret, holder = self.getHelper(key, visited)
+	self.Mutex.RUnlock()
+	return
+}
+
+//------------------------------------------------------------
+
+func (self *FrameMap) holderOfHelper(f *Function, v *set.Set) *FrameMap {
+	if v.Has(self) {
+		return nil
+	}
+
+	v.Add(self)
+
+	for _, val := range self.Data {
+		if FunctionP(val) && FunctionValue(val) == f {
+			return self
+		}
+	}
+
+	for _, p := range self.Parents() {
+		p.Mutex.RLock()
+		holder := p.holderOfHelper(f, v)
+		p.Mutex.RUnlock()
+		if holder != nil {
+			return holder
+		}
+	}
+
+	return nil
+}
+
+// holderOf returns the frame, self or one of its ancestors, that has a slot holding the function.
+func (self *FrameMap) holderOf(f *Function) (holder *FrameMap) {
 	visited := set.New()
 	self.Mutex.RLock()
-	ret = self.getHelper(key, visited)
+	holder = self.holderOfHelper(f, visited)
 	self.Mutex.RUnlock()
 	return
 }
diff --git a/function.go b/function.go
index 0b64282..6d4dfc8 100644
--- a/function.go
+++ b/function.go
@@ -100,11 +100,18 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 	return nil
 }
 
-func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, eval bool) (result *Data, err error) {
+func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, holder *FrameMap, eval bool) (result *Data, err error) {
 	localEnv := NewSymbolTableFrameBelowWithFrame(self.Env, frame, self.Name)
 	localEnv.Previous = argEnv
 	selfSym := Intern("self")
 	if frame != nil {
+		if holder == nil {
+			holder = frame.holderOf(self)
+		}
+		if holder == nil && self.Env.Frame == frame {
+			holder = self.Env.MethodHolder
+		}
+		localEnv.MethodHolder = holder
 		_, err = localEnv.BindLocallyTo(selfSym, FrameWithValue(frame))
 		if err != nil {
 			return
@@ -151,19 +158,24 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 }
 
 func (self *Function) Apply(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	return self.internalApply(args, argEnv, nil, true)
+	return self.internalApply(args, argEnv, nil, nil, true)
 }
 
 func (self *Function) ApplyWithFrame(args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (result *Data, err error) {
-	return self.internalApply(args, argEnv, frame, true)
+	return self.internalApply(args, argEnv, frame, nil, true)
 }
 
 func (self *Function) ApplyWithoutEval(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	return self.internalApply(args, argEnv, nil, false)
+	return self.internalApply(args, argEnv, nil, nil, false)
 }
 
 func (self *Function) ApplyWithoutEvalWithFrame(args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (result *Data, err error) {
-	return self.internalApply(args, argEnv, frame, false)
+	return self.internalApply(args, argEnv, frame, nil, false)
+}
+
+// applyMethod runs the function as a method of frame that was found in holder, which is frame or an ancestor of it.
+func (self *Function) applyMethod(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, holder *FrameMap) (result *Data, err error) {
+	return self.internalApply(args, argEnv, frame, holder, false)
 }
 
 func (self *Function) ApplyOveriddingEnvironment(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
diff --git a/prim_frame.go b/prim_frame.go
index 395cc52..49132e6 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -163,32 +163,36 @@ func SendImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	fun := FrameValue(f).Get(StringValue(k))
+	fun, holder := FrameValue(f).getWithHolder(StringValue(k))
 	if !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("send requires a function slot, but was given a slot containing a %s.", TypeName(TypeOf(fun))), env)
 		return
 	}
 
 	params := Cddr(args)
-	return FunctionValue(fun).ApplyWithoutEvalWithFrame(params, env, FrameValue(f))
+	return FunctionValue(fun).applyMethod(params, env, FrameValue(f), holder)
 }
 
-func getSuperFunction(selector string, env *SymbolTableFrame) *Data {
-	f := env.Frame
+// getSuperFunction finds the method above the one that is running, and the frame that holds it.
+func getSuperFunction(selector string, env *SymbolTableFrame) (fun *Data, holder *FrameMap) {
+	f := env.MethodHolder
 	if f == nil {
-		return nil
+		f = env.Frame
+	}
+	if f == nil {
+		return nil, nil
 	}
 
 	f.Mutex.RLock()
 	defer f.Mutex.RUnlock()
 	for _, p := range f.Parents() {
-		fun := p.Get(selector)
+		fun, holder = p.getWithHolder(selector)
 		if fun != nil {
-			return fun
+			return
 		}
 	}
 
-	return nil
+	return nil, nil
 }
 
 func SendSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -203,19 +207,14 @@ func SendSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	fun := getSuperFunction(StringValue(selector), env)
+	fun, holder := getSuperFunction(StringValue(selector), env)
 	if fun == nil || !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("Message sent must select a function slot but was %s.", TypeName(TypeOf(fun))), env)
 		return
 	}
 
 	params := Cdr(args)
-	frameEnv := NewSymbolTableFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
-	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
-	if err != nil {
-		return
-	}
-	return FunctionValue(fun).ApplyWithoutEval(params, frameEnv)
+	return FunctionValue(fun).applyMethod(params, env, env.Frame, holder)
 }
 
 func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -242,7 +241,7 @@ func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	fun := FrameValue(f).Get(StringValue(k))
+	fun, holder := FrameValue(f).getWithHolder(StringValue(k))
 	if !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("apply-slot requires a function slot, but was given a slot containing a %s.", TypeName(TypeOf(fun))), env)
 		return
@@ -271,7 +270,7 @@ func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	return FunctionValue(fun).ApplyWithoutEvalWithFrame(argList, env, FrameValue(f))
+	return FunctionValue(fun).applyMethod(argList, env, FrameValue(f), holder)
 }
 
 func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -289,7 +288,7 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 		return
 	}
 
-	fun := getSuperFunction(StringValue(selector), env)
+	fun, holder := getSuperFunction(StringValue(selector), env)
 	if fun == nil || !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("Message sent must select a function slot but was %s.", TypeName(TypeOf(fun))), env)
 		return
@@ -318,12 +317,7 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 		return
 	}
 
-	frameEnv := NewSymbolTableFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
-	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
-	if err != nil {
-		return
-	}
-	return FunctionValue(fun).ApplyWithoutEval(argList, frameEnv)
+	return FunctionValue(fun).applyMethod(argList, env, env.Frame, holder)
 }
 
 func CloneImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 9367a16..d5bb17f 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -25,6 +25,7 @@ type SymbolTableFrame struct {
 	Parent       *SymbolTableFrame
 	Previous     *SymbolTableFrame
 	Frame        *FrameMap
+	MethodHolder *FrameMap // the frame whose slot holds the running method: Frame or an ancestor of it
 	Bindings     map[string]*Binding
 	Mutex        sync.RWMutex
 	CurrentCode  *list.List
@@ -130,12 +131,13 @@ func (self *SymbolTableFrame) DumpHeader() {
 }
 
 func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFrame {
-	var f *FrameMap = nil
+	var f, holder *FrameMap
 	if p != nil {
 		f = p.Frame
+		holder = p.MethodHolder
 	}
 	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, MethodHolder: holder, CurrentCode: list.New(), IsRestricted: restricted}
 	if p == nil || p == Global {
 		TopLevelEnvironments.Mutex.Lock()
 		TopLevelEnvironments.Environments[name] = env
@@ -145,11 +147,13 @@ func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFram
 }
 
 func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
+	var holder *FrameMap
 	if f == nil {
 		f = p.Frame
+		holder = p.MethodHolder
 	}
 	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding, 10), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding, 10), Frame: f, MethodHolder: holder, CurrentCode: list.New(), IsRestricted: restricted}
 	if p == nil || p == Global {
 		TopLevelEnvironments.Mutex.Lock()
 		TopLevelEnvironments.Environments[name] = env
-- 
2.43.0


From 5a33a13e101a7697fa7193aff6706784f347e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 26/60] fix: environment-assign! of a protected or unbound name
 is an error

---
 prim_environment.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/prim_environment.go b/prim_environment.go
index bb592b3..3e1033d 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -245,10 +245,16 @@ func EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame) (result *Data,
 
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
-	if found {
-		result = Caddr(args)
-		binding.Val = result
+	if !found {
+		err = ProcessError("environment-assign!: name is unbound", env)
+		return
+	}
+	if binding.Protected {
+		err = ProcessError("environment-assign!: name is a protected binding", env)
+		return
 	}
+	result = Caddr(args)
+	binding.Val = result
 	return
 }
 
-- 
2.43.0


From 9c1904ade33f7860cdc47d0cf379a9098edbbf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:42 +0000
Subject: [PATCH 27/60] fix: procedure-environment cannot be used to leave a
 restricted environment

---
 prim_environment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_environment.go b/prim_environment.go
index 3e1033d..91d944c 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -23,9 +23,9 @@ func RegisterEnvironmentPrimitives() {
 	MakePrimitiveFunction("environment-definable?", "2", EnvironmentDefinablePImpl)
 	MakePrimitiveFunction("environment-define", "3", EnvironmentDefineImpl)
 	MakePrimitiveFunction("the-environment", "0", TheEnvironmentImpl)
-	MakePrimitiveFunction("procedure-environment", "1", ProcedureEnvironmentImpl)
 
 	MakePrimitiveFunction("restrict-environment", "0", RestrictEnvironmentImpl)
+	MakeRestrictedPrimitiveFunction("procedure-environment", "1", ProcedureEnvironmentImpl)
 	MakeRestrictedPrimitiveFunction("environment-parent", "1", EnvironmentParentImpl)
 	MakeRestrictedPrimitiveFunction("system-global-environment", "0", SystemGlobalEnvironmentImpl)
 	MakeRestrictedPrimitiveFunction("make-top-level-environment", "1|2|3", MakeTopLevelEnvironmentImpl)
-- 
2.43.0


From deb462624dace5f662f2c3578880faf23b2ac9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:47 +0000
Subject: [PATCH 28/60] fix: restricting an environment also restricts the ones
 already nested in it

---
 primitive_function.go |  2 +-
 symbol_table_frame.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/primitive_function.go b/primitive_function.go
index 8789c47..94c1398 100644
--- a/primitive_function.go
+++ b/primitive_function.go
@@ -224,7 +224,7 @@ func (self *PrimitiveFunction) checkArgumentCount(argCount int) bool {
 }
 
 func (self *PrimitiveFunction) Apply(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-	if self.IsRestricted && env.IsRestricted {
+	if self.IsRestricted && env.inRestricted() {
 		err = fmt.Errorf("The %s primitive is restricted from execution in this environment\n", self.Name)
 		return
 	}
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index d5bb17f..9bdbd7e 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -162,6 +162,16 @@ func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name st
 	return env
 }
 
+// inRestricted tells whether this environment or any one it is nested in is restricted.
+func (self *SymbolTableFrame) inRestricted() bool {
+	for e := self; e != nil; e = e.Parent {
+		if e.IsRestricted {
+			return true
+		}
+	}
+	return false
+}
+
 func (self *SymbolTableFrame) HasFrame() bool {
 	return self.Frame != nil
 }
-- 
2.43.0


From 5053cbca087727ec02d4e83df37849ebcef5ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:10 +0000
Subject: [PATCH 29/60] fix: profile reports a bad file name as an error
 instead of panicking or ignoring it

---
 prim_system.go | 8 ++++++--
 profiling.go   | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/prim_system.go b/prim_system.go
index 83daedf..6817103 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -255,10 +255,14 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if Length(args) == 2 {
 		if !StringP(Cadr(args)) {
 			err = ProcessError(fmt.Sprintf("profile requires a string filename, but received %s.", String(Cadr(args))), env)
+			return
 		}
-		StartProfiling(StringValue(Cadr(args)))
+		err = StartProfiling(StringValue(Cadr(args)))
 	} else {
-		StartProfiling("")
+		err = StartProfiling("")
+	}
+	if err != nil {
+		return
 	}
 
 	result, err = Eval(Car(args), env)
diff --git a/profiling.go b/profiling.go
index 52eced5..2d159f3 100644
--- a/profiling.go
+++ b/profiling.go
@@ -17,18 +17,19 @@ var profileOutput *os.File = nil
 var ProfileEnabled = false
 var ProfileGUID int64 = 0
 
-func StartProfiling(fname string) {
+func StartProfiling(fname string) (err error) {
 	ProfileGUID = 0
 	if fname == "" {
 		profileOutput = nil
 	} else {
-		var err error
 		profileOutput, err = os.Create(fname)
 		if err != nil {
-			panic(fmt.Sprintf("Profiler: %s could not be opened.", fname))
+			profileOutput = nil
+			return fmt.Errorf("Profiler: %s could not be opened.", fname)
 		}
 	}
 	ProfileEnabled = true
+	return
 }
 
 func EndProfiling() {
-- 
2.43.0


From e626a8e8642775f45bee28316e7d2f9e1e03195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:58 +0000
Subject: [PATCH 30/60] fix: find and find-tail report the error raised by the
 predicate

---
 prim_list_functions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prim_list_functions.go b/prim_list_functions.go
index 13693af..7a30cc4 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -434,6 +434,9 @@ func FindTailImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return
+		}
 
 		if !BooleanP(found) {
 			err = ProcessError("find-tail needs a predicate function as its first argument.", env)
@@ -463,6 +466,9 @@ func FindImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find needs a predicate function as its first argument.", env)
 			return
-- 
2.43.0


From 057d3b2932e05d140db2391a88a0754725fd3821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:04 +0000
Subject: [PATCH 31/60] fix: exec does not run anything when its command is not
 a string

---
 prim_system.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prim_system.go b/prim_system.go
index 6817103..a9d6db8 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -275,6 +275,7 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func ExecImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if !StringP(First(args)) {
 		err = ProcessError(fmt.Sprintf("exec requires a string command, but received %s.", String(First(args))), env)
+		return
 	}
 	cmdString := StringValue(First(args))
 
-- 
2.43.0


From f16189261f52680fec175d9b9a406c94a20a6e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:09 +0000
Subject: [PATCH 32/60] fix: quasiquote keeps an unquoted element whose value
 is nil

---
 prim_macros.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim_macros.go b/prim_macros.go
index 9ba8aea..7070e9e 100644
--- a/prim_macros.go
+++ b/prim_macros.go
@@ -51,6 +51,10 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 			if err != nil {
 				return nil, err
 			}
+			if r == nil {
+				// a cell holding no value at all would be taken for an empty list
+				r = EmptyCons()
+			}
 			return Cons(r, nil), nil
 		} else {
 			processed, err := processQuasiquoted(Cadr(sexpr), level-1, env)
-- 
2.43.0


From 77c28e6319fc2bc77933348ee99cac04e76d1c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 33/60] fix: processes interning the same new name get the same
 symbol

---
 symbol_table_frame.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 9bdbd7e..7c62c65 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -53,8 +53,11 @@ func Intern(name string) (sym *Data) {
 	internedSymbols.Mutex.RUnlock()
 	if sym == nil {
 		internedSymbols.Mutex.Lock()
-		sym = SymbolWithName(name)
-		internedSymbols.Symbols[name] = sym
+		sym = internedSymbols.Symbols[name]
+		if sym == nil {
+			sym = SymbolWithName(name)
+			internedSymbols.Symbols[name] = sym
+		}
 		internedSymbols.Mutex.Unlock()
 	}
 	return
-- 
2.43.0


From 5b7fcc03d9e45732730f11de80d78389132db91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:54 +0000
Subject: [PATCH 34/60] fix: gensym does not return a name that has been read
 or interned before

---
 prim_system.go        | 10 +++++++---
 symbol_table_frame.go |  6 ++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/prim_system.go b/prim_system.go
index a9d6db8..703d6c4 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -188,7 +188,8 @@ func InternImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	return Intern(StringValue(sym)), nil
 }
 
-func gensymHelper(primitiveName string, args *Data, env *SymbolTableFrame) (prefix string, count int, err error) {
+// gensymHelper finds a name that no symbol has yet: the prefix, a count and the suffix.
+func gensymHelper(primitiveName string, suffix string, args *Data, env *SymbolTableFrame) (prefix string, count int, err error) {
 	if Length(args) > 1 {
 		err = ProcessError(fmt.Sprintf("%s expects 0 or 1 argument, but received %d.", primitiveName, Length(args)), env)
 		return
@@ -208,6 +209,9 @@ func gensymHelper(primitiveName string, args *Data, env *SymbolTableFrame) (pref
 	symbolCountsMutex.Lock()
 
 	count = symbolCounts[prefix]
+	for isInterned(fmt.Sprintf("%s-%d%s", prefix, count, suffix)) {
+		count++
+	}
 	symbolCounts[prefix] = count + 1
 
 	symbolCountsMutex.Unlock()
@@ -215,7 +219,7 @@ func gensymHelper(primitiveName string, args *Data, env *SymbolTableFrame) (pref
 }
 
 func GensymImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-	prefix, count, err := gensymHelper("gensym", args, env)
+	prefix, count, err := gensymHelper("gensym", "", args, env)
 	if err != nil {
 		return
 	}
@@ -224,7 +228,7 @@ func GensymImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 }
 
 func GensymNakedImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-	prefix, count, err := gensymHelper("gensym-naked", args, env)
+	prefix, count, err := gensymHelper("gensym-naked", ":", args, env)
 	if err != nil {
 		return
 	}
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 7c62c65..bbdac74 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -63,6 +63,12 @@ func Intern(name string) (sym *Data) {
 	return
 }
 
+func isInterned(name string) bool {
+	internedSymbols.Mutex.RLock()
+	defer internedSymbols.Mutex.RUnlock()
+	return internedSymbols.Symbols[name] != nil
+}
+
 func (self *SymbolTableFrame) Depth() int {
 	if self.Previous == nil {
 		return 1
-- 
2.43.0


From 75f17c52488f6de3e252514e8f791da7fef5e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:02 +0000
Subject: [PATCH 35/60] fix: format's @ modifier applies only to the directive
 it is written in

---
 prim_io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_io.go b/prim_io.go
index b2c919b..f6eee7f 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -253,8 +253,8 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				numericArg = int(n)
 			}
-			if controlString[i] == '@' {
-				atModifier = true
+			atModifier = controlString[i] == '@'
+			if atModifier {
 				i++
 			}
 			switch controlString[i] {
-- 
2.43.0


From 94233a91dd15fed26369524fde1721f7e68cad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:08 +0000
Subject: [PATCH 36/60] fix: format reports an incomplete directive as an error
 instead of panicking

---
 prim_io.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/prim_io.go b/prim_io.go
index f6eee7f..d4b953e 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -227,9 +227,13 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			parts = append(parts, controlString[start:i])
 			i++
 			start = i
-			for unicode.IsDigit(rune(controlString[i])) {
+			for i < len(controlString) && unicode.IsDigit(rune(controlString[i])) {
 				i++
 			}
+			if i == len(controlString) {
+				err = ProcessError("format encountered an incomplete substitution at the end of the control string", env)
+				return
+			}
 			if i == start {
 				if controlString[i] == '#' {
 					numericArg = Length(arguments)
@@ -253,10 +257,14 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				numericArg = int(n)
 			}
-			atModifier = controlString[i] == '@'
+			atModifier = i < len(controlString) && controlString[i] == '@'
 			if atModifier {
 				i++
 			}
+			if i == len(controlString) {
+				err = ProcessError("format encountered an incomplete substitution at the end of the control string", env)
+				return
+			}
 			switch controlString[i] {
 			case 'A', 'a':
 				substitution = PrintString(Car(arguments))
-- 
2.43.0


From 2254329b64970e687edec6c45076d76f0ac76e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 37/60] fix: format with too few arguments is an error

---
 prim_io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim_io.go b/prim_io.go
index d4b953e..285ef20 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -265,6 +265,10 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				err = ProcessError("format encountered an incomplete substitution at the end of the control string", env)
 				return
 			}
+			if strings.IndexByte("AaSs", controlString[i]) >= 0 && NilP(arguments) {
+				err = ProcessError("number of replacements in the control string and number of arguments must be equal", env)
+				return
+			}
 			switch controlString[i] {
 			case 'A', 'a':
 				substitution = PrintString(Car(arguments))
-- 
2.43.0


From 6d8af6d7402383de01b310ccab3e04d3ce89daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 38/60] fix: the dot of a dotted pair may be followed by any
 white space or delimiter

---
 tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index 0b3cf9f..29425e1 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -276,7 +276,7 @@ func (self *Tokenizer) readNextToken() (token int, lit string) {
 	} else if self.CurrentCh == '}' {
 		self.Advance()
 		return RBRACE, "}"
-	} else if self.CurrentCh == '.' && self.NextCh == ' ' {
+	} else if self.CurrentCh == '.' && !self.isSymbolCharacter(self.NextCh) {
 		self.Advance()
 		return PERIOD, "."
 	} else if self.isSymbolCharacter(self.CurrentCh) {
-- 
2.43.0


From 6ac34f79e48dfcf6b5b27b9f56d8e157bfdf1dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:02 +0000
Subject: [PATCH 39/60] fix: negative numbers in a bytearray literal are errors
 like those above 255

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 174d45d..913d154 100644
--- a/parser.go
+++ b/parser.go
@@ -145,7 +145,7 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		if err != nil {
 			return
 		}
-		if IntegerP(element) && IntegerValue(element) > 255 {
+		if IntegerP(element) && (IntegerValue(element) < 0 || IntegerValue(element) > 255) {
 			err = errors.New(fmt.Sprintf("Numeric literals in a bytearray must be bytes. Encountered %s.", String(element)))
 			return
 		}
-- 
2.43.0


From 8b9412af4ffea3e5f96e21c052615950ca1ce250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:08 +0000
Subject: [PATCH 40/60] fix: {] is not read as an empty frame

---
 parser.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/parser.go b/parser.go
index 913d154..289ae84 100644
--- a/parser.go
+++ b/parser.go
@@ -168,13 +168,6 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 
 func parseFrame(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	tok, _ := s.NextToken()
-	if tok == RBRACKET {
-		s.ConsumeToken()
-		f := FrameMap{}
-		f.Data = make(FrameMapData)
-		sexpr = FrameWithValue(&f)
-		return
-	}
 
 	var element *Data
 	cells := make([]*Data, 0, 10)
-- 
2.43.0


From e91cb09b8df0bc354535e91325c7849496a4c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 41/60] fix: an empty list at top level does not end the
 evaluation of a file

---
 parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser.go b/parser.go
index 289ae84..db8c4be 100644
--- a/parser.go
+++ b/parser.go
@@ -346,9 +346,6 @@ func ParseAndEvalAllInEnvironment(src string, env *SymbolTableFrame) (result *Da
 		if eof {
 			return
 		}
-		if NilP(sexpr) {
-			return
-		}
 		result, err = Eval(sexpr, env)
 		if err != nil {
 			return
-- 
2.43.0


From 070974ec8a7403ff3ff02abe88779f7a47a6ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 42/60] fix: a printed string escapes its backslashes so that
 it reads back

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 2b2acc2..018e52c 100644
--- a/data.go
+++ b/data.go
@@ -942,7 +942,7 @@ func IsEqual(d *Data, o *Data) bool {
 func escapeQuotes(str string) string {
 	buffer := make([]rune, 0, 10)
 	for _, ch := range str {
-		if rune(ch) == '"' {
+		if rune(ch) == '"' || rune(ch) == '\\' {
 			buffer = append(buffer, '\\')
 		}
 		buffer = append(buffer, rune(ch))
-- 
2.43.0


From 3e1a32611a17201670ee2ff1f506fb7ac8f58b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:38 +0000
Subject: [PATCH 43/60] fix: a list of quote and several values is printed in
 full

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 018e52c..d40c087 100644
--- a/data.go
+++ b/data.go
@@ -969,7 +969,7 @@ func String(d *Data) string {
 				c = Cdr(c)
 			}
 			if NilP(c) {
-				if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" {
+				if len(contents) <= 2 && SymbolP(Car(d)) && StringValue(Car(d)) == "quote" {
 					if len(contents) == 1 {
 						return fmt.Sprintf("'()")
 					} else {
-- 
2.43.0


From f06f95a0e1f28fd23c9314d328e01afd2f935e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 44/60] fix: floats are printed without an exponent so that
 they read back

---
 data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/data.go b/data.go
index d40c087..ecbe55c 100644
--- a/data.go
+++ b/data.go
@@ -13,6 +13,7 @@ import (
 	"math"
 	"os"
 	"sort"
+	"strconv"
 	"strings"
 	"sync/atomic"
 	"unsafe"
@@ -1011,6 +1012,10 @@ func String(d *Data) string {
 				return "nan"
 			}
 			raw := fmt.Sprintf("%g", FloatValue(d))
+			if strings.ContainsRune(raw, 'e') {
+				// the reader knows no exponents
+				raw = strconv.FormatFloat(float64(v), 'f', -1, 32)
+			}
 			if strings.ContainsRune(raw, '.') {
 				return raw
 			}
-- 
2.43.0


From adf649017af76508f3cae510027638eabca41905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 45/60] fix: processes running the same function do not share
 their parentProcess

---
 function.go         | 5 +++++
 prim_concurrency.go | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/function.go b/function.go
index 6d4dfc8..d5926d1 100644
--- a/function.go
+++ b/function.go
@@ -45,6 +45,11 @@ func MakeFunction(name string, params *Data, body *Data, parentEnv *SymbolTableF
 	return &Function{Name: name, Params: params, VarArgs: varArgs, RequiredArgCount: requiredArgs, Body: body, Env: parentEnv, SlotFunction: 0}
 }
 
+// inProcess returns a copy of the function that runs as the code of a process.
+func (self *Function) inProcess(proc *Process) *Function {
+	return &Function{Name: self.Name, Params: self.Params, VarArgs: self.VarArgs, RequiredArgCount: self.RequiredArgCount, Body: self.Body, Env: self.Env, DebugOnEntry: self.DebugOnEntry, SlotFunction: atomic.LoadInt32(&self.SlotFunction), ParentProcess: proc}
+}
+
 func (self *Function) String() string {
 	return fmt.Sprintf("<func: %s>", self.Name)
 }
diff --git a/prim_concurrency.go b/prim_concurrency.go
index f423be9..7d33201 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -76,7 +76,7 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ReturnValue: make(chan *Data, 1)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
+	function = function.inProcess(proc)
 
 	go func() {
 		var returnValue *Data
@@ -174,7 +174,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ScheduleTimer: time.NewTimer(time.Duration(IntegerValue(millis)) * time.Millisecond)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
+	function = function.inProcess(proc)
 
 	go func() {
 		var returnValue *Data
-- 
2.43.0


From e5d8c8c94dbf26eaf5675b0622468fef537f8704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 46/60] fix: reading and assigning variables shared by
 processes is not a data race

---
 binding.go            | 13 ++++++++++++-
 function.go           |  2 +-
 prim_environment.go   | 26 +++++++++++++-------------
 symbol_table_frame.go | 32 ++++++++++++++++----------------
 4 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/binding.go b/binding.go
index 50ecb5b..f35115a 100644
--- a/binding.go
+++ b/binding.go
@@ -9,6 +9,8 @@ package golisp
 
 import (
 	"fmt"
+	"sync/atomic"
+	"unsafe"
 )
 
 type Binding struct {
@@ -17,8 +19,17 @@ type Binding struct {
 	Protected bool
 }
 
+// Value and SetValue access the value of a binding that several processes may be using.
+func (self *Binding) Value() *Data {
+	return (*Data)(atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(&self.Val))))
+}
+
+func (self *Binding) SetValue(val *Data) {
+	atomic.StorePointer((*unsafe.Pointer)(unsafe.Pointer(&self.Val)), unsafe.Pointer(val))
+}
+
 func (self *Binding) Dump() {
-	fmt.Printf("   %s => %s\n", StringValue(self.Sym), String(self.Val))
+	fmt.Printf("   %s => %s\n", StringValue(self.Sym), String(self.Value()))
 }
 
 func BindingWithSymbolAndValue(sym *Data, val *Data) *Binding {
diff --git a/function.go b/function.go
index d5926d1..40fd569 100644
--- a/function.go
+++ b/function.go
@@ -124,7 +124,7 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 	} else if atomic.LoadInt32(&self.SlotFunction) == 1 {
 		selfBinding, found := argEnv.findBindingInLocalFrameFor(selfSym)
 		if found {
-			_, err = localEnv.BindLocallyTo(selfSym, selfBinding.Val)
+			_, err = localEnv.BindLocallyTo(selfSym, selfBinding.Value())
 			if err != nil {
 				return
 			}
diff --git a/prim_environment.go b/prim_environment.go
index 91d944c..cf0fe2e 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -79,7 +79,7 @@ func EnvironmentMacroNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
 	for _, val := range e.Bindings {
-		if MacroP(val.Val) {
+		if MacroP(val.Value()) {
 			keys = append(keys, val.Sym)
 		}
 	}
@@ -94,10 +94,10 @@ func EnvironmentBindingsImpl(args *Data, env *SymbolTableFrame) (result *Data, e
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
 	for _, val := range e.Bindings {
-		if NilP(val.Val) {
+		if NilP(val.Value()) {
 			keys = append(keys, InternalMakeList(val.Sym))
 		} else {
-			keys = append(keys, InternalMakeList(val.Sym, val.Val))
+			keys = append(keys, InternalMakeList(val.Sym, val.Value()))
 		}
 	}
 	return ArrayToList(keys), nil
@@ -117,9 +117,9 @@ func EnvironmentReferenceTypeImpl(args *Data, env *SymbolTableFrame) (result *Da
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if !found {
 		result = Intern("unbound")
-	} else if binding.Val == nil {
+	} else if binding.Value() == nil {
 		result = Intern("unassigned")
-	} else if MacroP(binding.Val) {
+	} else if MacroP(binding.Value()) {
 		result = Intern("macro")
 	} else {
 		result = Intern("normal")
@@ -155,9 +155,9 @@ func EnvironmentAssignedPImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if found {
-		if binding.Val == nil {
+		if binding.Value() == nil {
 			result = LispFalse
-		} else if MacroP(binding.Val) {
+		} else if MacroP(binding.Value()) {
 			err = ProcessError("environment-assigned?: name is bound to a macro", env)
 			return
 		} else {
@@ -183,14 +183,14 @@ func EnvironmentLookupImpl(args *Data, env *SymbolTableFrame) (result *Data, err
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if found {
-		if binding.Val == nil {
+		if binding.Value() == nil {
 			err = ProcessError("environment-lookup: name is unassigned", env)
 			return
-		} else if MacroP(binding.Val) {
+		} else if MacroP(binding.Value()) {
 			err = ProcessError("environment-lookup: name is bound to a macro", env)
 			return
 		} else {
-			return binding.Val, nil
+			return binding.Value(), nil
 		}
 	} else {
 		err = ProcessError("environment-lookup: name is unbound", env)
@@ -210,8 +210,8 @@ func EnvironmentLookupMacroImpl(args *Data, env *SymbolTableFrame) (result *Data
 
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
-	if found && MacroP(binding.Val) {
-		result = binding.Val
+	if found && MacroP(binding.Value()) {
+		result = binding.Value()
 	} else {
 		result = LispFalse
 	}
@@ -254,7 +254,7 @@ func EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame) (result *Data,
 		return
 	}
 	result = Caddr(args)
-	binding.Val = result
+	binding.SetValue(result)
 	return
 }
 
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index bbdac74..10af97f 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -90,7 +90,7 @@ func (self *SymbolTableFrame) InternalDump(frameNumber int) {
 	self.Mutex.RLock()
 	defer self.Mutex.RUnlock()
 	for _, b := range self.Bindings {
-		if b.Val == nil || TypeOf(b.Val) != PrimitiveType {
+		if b.Value() == nil || TypeOf(b.Value()) != PrimitiveType {
 			b.Dump()
 		}
 	}
@@ -111,7 +111,7 @@ func (self *SymbolTableFrame) DumpSingleFrame(frameNumber int) {
 		self.Mutex.RLock()
 		defer self.Mutex.RUnlock()
 		for _, b := range self.Bindings {
-			if b.Val == nil || TypeOf(b.Val) != PrimitiveType {
+			if b.Value() == nil || TypeOf(b.Value()) != PrimitiveType {
 				b.Dump()
 			}
 		}
@@ -233,24 +233,24 @@ func (self *SymbolTableFrame) BindTo(symbol *Data, value *Data) (*Data, error) {
 		if binding.Protected {
 			return nil, fmt.Errorf("%s is a protected binding", StringValue(symbol))
 		}
-		binding.Val = value
+		binding.SetValue(value)
 	} else {
 		binding = BindingWithSymbolAndValue(symbol, value)
 		self.SetBindingAt(StringValue(symbol), binding)
 	}
-	return binding.Val, nil
+	return binding.Value(), nil
 }
 
 func (self *SymbolTableFrame) BindToProtected(symbol *Data, value *Data) *Data {
 	binding, found := self.FindBindingFor(symbol)
 	if found {
-		binding.Val = value
+		binding.SetValue(value)
 		binding.Protected = true
 	} else {
 		binding = ProtectedBindingWithSymbolAndValue(symbol, value)
 		self.SetBindingAt(StringValue(symbol), binding)
 	}
-	return binding.Val
+	return binding.Value()
 }
 
 func (self *SymbolTableFrame) SetTo(symbol *Data, value *Data) (result *Data, err error) {
@@ -259,7 +259,7 @@ func (self *SymbolTableFrame) SetTo(symbol *Data, value *Data) (result *Data, er
 		if localBinding.Protected {
 			return nil, fmt.Errorf("%s is a protected binding", StringValue(symbol))
 		} else {
-			localBinding.Val = value
+			localBinding.SetValue(value)
 			return value, nil
 		}
 	}
@@ -275,7 +275,7 @@ func (self *SymbolTableFrame) SetTo(symbol *Data, value *Data) (result *Data, er
 		if binding.Protected {
 			return nil, fmt.Errorf("%s is a protected binding", StringValue(symbol))
 		} else {
-			binding.Val = value
+			binding.SetValue(value)
 			return value, nil
 		}
 	}
@@ -293,21 +293,21 @@ func (self *SymbolTableFrame) BindLocallyTo(symbol *Data, value *Data) (*Data, e
 		if binding.Protected {
 			return nil, fmt.Errorf("%s is a protected binding", StringValue(symbol))
 		}
-		binding.Val = value
+		binding.SetValue(value)
 	} else {
 		binding = BindingWithSymbolAndValue(symbol, value)
 		self.SetBindingAt(StringValue(symbol), binding)
 	}
-	return binding.Val, nil
+	return binding.Value(), nil
 }
 
 func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFunction bool) *Data {
 	localBinding, found := self.findBindingInLocalFrameFor(symbol)
 	if found {
-		if FunctionP(localBinding.Val) {
-			atomic.StoreInt32(&FunctionValue(localBinding.Val).SlotFunction, 1)
+		if FunctionP(localBinding.Value()) {
+			atomic.StoreInt32(&FunctionValue(localBinding.Value()).SlotFunction, 1)
 		}
-		return localBinding.Val
+		return localBinding.Value()
 	}
 
 	if self.HasFrame() {
@@ -327,10 +327,10 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 
 	binding, found := self.FindBindingFor(symbol)
 	if found {
-		if FunctionP(binding.Val) {
-			atomic.StoreInt32(&FunctionValue(binding.Val).SlotFunction, 0)
+		if FunctionP(binding.Value()) {
+			atomic.StoreInt32(&FunctionValue(binding.Value()).SlotFunction, 0)
 		}
-		return binding.Val
+		return binding.Value()
 	} else {
 		return EmptyCons()
 	}
-- 
2.43.0


From eb3eba1ad28bca02564781db10469d2e38ec1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 47/60] fix: listing the bindings of an environment others are
 defining in is not a data race

---
 prim_environment.go   |  6 +++---
 symbol_table_frame.go | 11 +++++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/prim_environment.go b/prim_environment.go
index cf0fe2e..a6d294b 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -65,7 +65,7 @@ func EnvironmentBoundNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.allBindings() {
 		keys = append(keys, val.Sym)
 	}
 	return ArrayToList(keys), nil
@@ -78,7 +78,7 @@ func EnvironmentMacroNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.allBindings() {
 		if MacroP(val.Value()) {
 			keys = append(keys, val.Sym)
 		}
@@ -93,7 +93,7 @@ func EnvironmentBindingsImpl(args *Data, env *SymbolTableFrame) (result *Data, e
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.allBindings() {
 		if NilP(val.Value()) {
 			keys = append(keys, InternalMakeList(val.Sym))
 		} else {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 10af97f..22b8673 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -192,6 +192,17 @@ func (self *SymbolTableFrame) BindingNamed(name string) (b *Binding, present boo
 	return
 }
 
+// allBindings returns the bindings at this moment.
+func (self *SymbolTableFrame) allBindings() []*Binding {
+	self.Mutex.RLock()
+	defer self.Mutex.RUnlock()
+	bindings := make([]*Binding, 0, len(self.Bindings))
+	for _, b := range self.Bindings {
+		bindings = append(bindings, b)
+	}
+	return bindings
+}
+
 func (self *SymbolTableFrame) SetBindingAt(name string, b *Binding) {
 	self.Mutex.Lock()
 	self.Bindings[name] = b
-- 
2.43.0


From e800cc0a8e0d661c880cb688e0444ec7b0fabdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:36 +0000
Subject: [PATCH 48/60] fix: a variable reassigned by another process while it
 is looked up does not crash the lookup

---
 prim_environment.go   | 21 ++++++++++++---------
 symbol_table_frame.go | 20 +++++++++++---------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/prim_environment.go b/prim_environment.go
index a6d294b..53ef866 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -94,10 +94,11 @@ func EnvironmentBindingsImpl(args *Data, env *SymbolTableFrame) (result *Data, e
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
 	for _, val := range e.allBindings() {
-		if NilP(val.Value()) {
+		value := val.Value()
+		if NilP(value) {
 			keys = append(keys, InternalMakeList(val.Sym))
 		} else {
-			keys = append(keys, InternalMakeList(val.Sym, val.Value()))
+			keys = append(keys, InternalMakeList(val.Sym, value))
 		}
 	}
 	return ArrayToList(keys), nil
@@ -183,14 +184,15 @@ func EnvironmentLookupImpl(args *Data, env *SymbolTableFrame) (result *Data, err
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if found {
-		if binding.Value() == nil {
+		value := binding.Value()
+		if value == nil {
 			err = ProcessError("environment-lookup: name is unassigned", env)
 			return
-		} else if MacroP(binding.Value()) {
+		} else if MacroP(value) {
 			err = ProcessError("environment-lookup: name is bound to a macro", env)
 			return
 		} else {
-			return binding.Value(), nil
+			return value, nil
 		}
 	} else {
 		err = ProcessError("environment-lookup: name is unbound", env)
@@ -210,10 +212,11 @@ func EnvironmentLookupMacroImpl(args *Data, env *SymbolTableFrame) (result *Data
 
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
-	if found && MacroP(binding.Value()) {
-		result = binding.Value()
-	} else {
-		result = LispFalse
+	result = LispFalse
+	if found {
+		if value := binding.Value(); MacroP(value) {
+			result = value
+		}
 	}
 	return
 }
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 22b8673..23a03c3 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -249,7 +249,7 @@ func (self *SymbolTableFrame) BindTo(symbol *Data, value *Data) (*Data, error) {
 		binding = BindingWithSymbolAndValue(symbol, value)
 		self.SetBindingAt(StringValue(symbol), binding)
 	}
-	return binding.Value(), nil
+	return value, nil
 }
 
 func (self *SymbolTableFrame) BindToProtected(symbol *Data, value *Data) *Data {
@@ -261,7 +261,7 @@ func (self *SymbolTableFrame) BindToProtected(symbol *Data, value *Data) *Data {
 		binding = ProtectedBindingWithSymbolAndValue(symbol, value)
 		self.SetBindingAt(StringValue(symbol), binding)
 	}
-	return binding.Value()
+	return value
 }
 
 func (self *SymbolTableFrame) SetTo(symbol *Data, value *Data) (result *Data, err error) {
@@ -309,16 +309,17 @@ func (self *SymbolTableFrame) BindLocallyTo(symbol *Data, value *Data) (*Data, e
 		binding = BindingWithSymbolAndValue(symbol, value)
 		self.SetBindingAt(StringValue(symbol), binding)
 	}
-	return binding.Value(), nil
+	return value, nil
 }
 
 func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFunction bool) *Data {
 	localBinding, found := self.findBindingInLocalFrameFor(symbol)
 	if found {
-		if FunctionP(localBinding.Value()) {
-			atomic.StoreInt32(&FunctionValue(localBinding.Value()).SlotFunction, 1)
+		value := localBinding.Value()
+		if FunctionP(value) {
+			atomic.StoreInt32(&FunctionValue(value).SlotFunction, 1)
 		}
-		return localBinding.Value()
+		return value
 	}
 
 	if self.HasFrame() {
@@ -338,10 +339,11 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 
 	binding, found := self.FindBindingFor(symbol)
 	if found {
-		if FunctionP(binding.Value()) {
-			atomic.StoreInt32(&FunctionValue(binding.Value()).SlotFunction, 0)
+		value := binding.Value()
+		if FunctionP(value) {
+			atomic.StoreInt32(&FunctionValue(value).SlotFunction, 0)
 		}
-		return binding.Value()
+		return value
 	} else {
 		return EmptyCons()
 	}
-- 
2.43.0


From 6c75cffbfe6a864fc3ecacc76d450a157bf2b133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 49/60] fix: slot lookup holds one frame's lock at a time, so
 that a writer cannot make it deadlock

---
 frame.go      | 62 +++++++++++++++++++++++----------------------------
 prim_frame.go |  5 +++--
 2 files changed, 31 insertions(+), 36 deletions(-)

diff --git a/frame.go b/frame.go
index 836f8f3..44f4a6d 100644
--- a/frame.go
+++ b/frame.go
@@ -67,19 +67,17 @@ func (self *FrameMap) hasSlotHelper(key string, v *set.Set) bool {
 
 	v.Add(self)
 
-	if self.hasSlotLocally(key) {
-		return true
-	}
+	self.Mutex.RLock()
+	found := self.hasSlotLocally(key)
+	parents := self.Parents()
+	self.Mutex.RUnlock()
 
-	if !self.hasParentSlots() {
-		return false
+	if found {
+		return true
 	}
 
-	for _, p := range self.Parents() {
-		p.Mutex.RLock()
-		hasSlot := p.hasSlotHelper(key, v)
-		p.Mutex.RUnlock()
-		if hasSlot {
+	for _, p := range parents {
+		if p.hasSlotHelper(key, v) {
 			return true
 		}
 	}
@@ -88,11 +86,7 @@ func (self *FrameMap) hasSlotHelper(key string, v *set.Set) bool {
 }
 
 func (self *FrameMap) HasSlot(key string) (ret bool) {
-	visited := set.New()
-	self.Mutex.RLock()
-	ret = self.hasSlotHelper(key, visited)
-	self.Mutex.RUnlock()
-	return
+	return self.hasSlotHelper(key, set.New())
 }
 
 //------------------------------------------------------------
@@ -104,15 +98,17 @@ func (self *FrameMap) getHelper(key string, v *set.Set) (*Data, *FrameMap) {
 
 	v.Add(self)
 
+	self.Mutex.RLock()
 	val, ok := self.Data[key]
+	parents := self.Parents()
+	self.Mutex.RUnlock()
+
 	if ok {
 		return val, self
 	}
 
-	for _, p := range self.Parents() {
-		p.Mutex.RLock()
+	for _, p := range parents {
 		val, holder := p.getHelper(key, v)
-		p.Mutex.RUnlock()
 		if val != nil {
 			return val, holder
 		}
@@ -128,11 +124,7 @@ func (self *FrameMap) Get(key string) (ret *Data) {
 
 // getWithHolder also returns the frame that holds the slot: self or one of its ancestors.
 func (self *FrameMap) getWithHolder(key string) (ret *Data, holder *FrameMap) {
-	visited := set.New()
-	self.Mutex.RLock()
-	ret, holder = self.getHelper(key, visited)
-	self.Mutex.RUnlock()
-	return
+	return self.getHelper(key, set.New())
 }
 
 //------------------------------------------------------------
@@ -144,17 +136,23 @@ func (self *FrameMap) holderOfHelper(f *Function, v *set.Set) *FrameMap {
 
 	v.Add(self)
 
+	self.Mutex.RLock()
+	found := false
 	for _, val := range self.Data {
 		if FunctionP(val) && FunctionValue(val) == f {
-			return self
+			found = true
+			break
 		}
 	}
+	parents := self.Parents()
+	self.Mutex.RUnlock()
 
-	for _, p := range self.Parents() {
-		p.Mutex.RLock()
-		holder := p.holderOfHelper(f, v)
-		p.Mutex.RUnlock()
-		if holder != nil {
+	if found {
+		return self
+	}
+
+	for _, p := range parents {
+		if holder := p.holderOfHelper(f, v); holder != nil {
 			return holder
 		}
 	}
@@ -164,11 +162,7 @@ func (self *FrameMap) holderOfHelper(f *Function, v *set.Set) *FrameMap {
 
 // holderOf returns the frame, self or one of its ancestors, that has a slot holding the function.
 func (self *FrameMap) holderOf(f *Function) (holder *FrameMap) {
-	visited := set.New()
-	self.Mutex.RLock()
-	holder = self.holderOfHelper(f, visited)
-	self.Mutex.RUnlock()
-	return
+	return self.holderOfHelper(f, set.New())
 }
 
 //------------------------------------------------------------
diff --git a/prim_frame.go b/prim_frame.go
index 49132e6..1855ba5 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -184,8 +184,9 @@ func getSuperFunction(selector string, env *SymbolTableFrame) (fun *Data, holder
 	}
 
 	f.Mutex.RLock()
-	defer f.Mutex.RUnlock()
-	for _, p := range f.Parents() {
+	parents := f.Parents()
+	f.Mutex.RUnlock()
+	for _, p := range parents {
 		fun, holder = p.getWithHolder(selector)
 		if fun != nil {
 			return
-- 
2.43.0


From 1f24b63880f6b3b7ba3c41ce152cbec76bedfae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 50/60] fix: comparing, copying and printing frames hold no
 lock while visiting the slots' values

---
 data.go               | 33 +++++++++++----------------------
 json_frame_support.go |  5 +----
 2 files changed, 12 insertions(+), 26 deletions(-)

diff --git a/data.go b/data.go
index ecbe55c..85e4657 100644
--- a/data.go
+++ b/data.go
@@ -799,12 +799,9 @@ func Copy(d *Data) *Data {
 		{
 			m := FrameMap{}
 			m.Data = make(FrameMapData)
-			frame := FrameValue(d)
-			frame.Mutex.RLock()
-			for k, v := range frame.Data {
+			for k, v := range FrameValue(d).Clone().Data {
 				m.Data[k] = Copy(v)
 			}
-			frame.Mutex.RUnlock()
 			return FrameWithValue(&m)
 		}
 	case BoxedObjectType:
@@ -881,23 +878,17 @@ func IsEqual(d *Data, o *Data) bool {
 	if FrameP(d) {
 		frameD := FrameValue(d)
 		frameO := FrameValue(o)
-		frameD.Mutex.RLock()
-		frameO.Mutex.RLock()
-		if len(frameD.Data) != len(frameO.Data) {
-			frameO.Mutex.RUnlock()
-			frameD.Mutex.RUnlock()
+		slotsD := frameD.Clone().Data
+		slotsO := frameO.Clone().Data
+		if len(slotsD) != len(slotsO) {
 			return false
 		}
-		for k, v := range frameD.Data {
-			other, found := frameO.Data[k]
+		for k, v := range slotsD {
+			other, found := slotsO[k]
 			if !found || !IsEqual(v, other) {
-				frameO.Mutex.RUnlock()
-				frameD.Mutex.RUnlock()
 				return false
 			}
 		}
-		frameO.Mutex.RUnlock()
-		frameD.Mutex.RUnlock()
 		return true
 	}
 
@@ -1049,21 +1040,19 @@ func String(d *Data) string {
 			return fmt.Sprintf("<opaque Go object of type %s : 0x%x>", ObjectType(d), (*uint64)(ObjectValue(d)))
 		}
 	case FrameType:
-		frame := FrameValue(d)
-		frame.Mutex.RLock()
-		keys := make([]string, 0, len(frame.Data))
-		for key, _ := range frame.Data {
+		slots := FrameValue(d).Clone().Data
+		keys := make([]string, 0, len(slots))
+		for key, _ := range slots {
 			keys = append(keys, key)
 		}
 		sort.Strings(keys)
 
-		pairs := make([]string, 0, len(frame.Data))
+		pairs := make([]string, 0, len(slots))
 		for _, key := range keys {
-			val := frame.Data[key]
+			val := slots[key]
 			var valString string = String(val)
 			pairs = append(pairs, fmt.Sprintf("%s %s", key, valString))
 		}
-		frame.Mutex.RUnlock()
 		return fmt.Sprintf("{%s}", strings.Join(pairs, " "))
 	case EnvironmentType:
 		return fmt.Sprintf("<environment: %s>", EnvironmentValue(d).Name)
diff --git a/json_frame_support.go b/json_frame_support.go
index f368677..4180209 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -235,14 +235,11 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 
 	if FrameP(d) {
 		dict := make(map[string]interface{}, Length(d))
-		frame := FrameValue(d)
-		frame.Mutex.RLock()
-		for k, v := range frame.Data {
+		for k, v := range FrameValue(d).Clone().Data {
 			if !FunctionP(v) {
 				dict[strings.TrimRight(k, ":")] = LispWithFramesToJson(v)
 			}
 		}
-		frame.Mutex.RUnlock()
 		return dict
 	}
 
-- 
2.43.0


From 25c71d2c731aed5a53faa90a34ff717cee796231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 51/60] fix: get-slot of a slot removed by another process is
 an error or its value, not nil

---
 frame.go              | 2 +-
 prim_frame.go         | 7 +++----
 symbol_table_frame.go | 3 +--
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/frame.go b/frame.go
index 44f4a6d..a27bc6e 100644
--- a/frame.go
+++ b/frame.go
@@ -109,7 +109,7 @@ func (self *FrameMap) getHelper(key string, v *set.Set) (*Data, *FrameMap) {
 
 	for _, p := range parents {
 		val, holder := p.getHelper(key, v)
-		if val != nil {
+		if holder != nil {
 			return val, holder
 		}
 	}
diff --git a/prim_frame.go b/prim_frame.go
index 1855ba5..b1ff8fd 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -82,12 +82,11 @@ func GetSlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	result, holder := FrameValue(f).getWithHolder(StringValue(k))
+	if holder == nil {
 		err = ProcessError(fmt.Sprintf("get-slot requires an existing slot, but was given %s.", String(k)), env)
-		return
 	}
-
-	return FrameValue(f).Get(StringValue(k)), nil
+	return
 }
 
 func GetSlotOrNilImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 23a03c3..d1468b0 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -325,8 +325,7 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 	if self.HasFrame() {
 		f := self.Frame
 		naked := StringValue(NakedSymbolFrom(symbol))
-		if f.HasSlot(naked) {
-			slotValue := f.Get(naked)
+		if slotValue, holder := f.getWithHolder(naked); holder != nil {
 			if FunctionP(slotValue) {
 				atomic.StoreInt32(&FunctionValue(slotValue).SlotFunction, 1)
 				return slotValue
-- 
2.43.0


From b381bee72844770ba467c952ddf18940e6558280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:12 +0000
Subject: [PATCH 52/60] fix: a scheduled task abandoned or reset just before
 its timer expires does not run then

---
 prim_concurrency.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/prim_concurrency.go b/prim_concurrency.go
index 7d33201..1c3bb0f 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -188,8 +188,27 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				case <-proc.Abort:
 					break Loop
 				case <-proc.Restart:
+					// The timer may have expired meanwhile
+					if !proc.ScheduleTimer.Stop() {
+						select {
+						case <-proc.ScheduleTimer.C:
+						default:
+						}
+					}
 					proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
 				case <-proc.ScheduleTimer.C:
+					// The task may have been abandoned or reset before the timer expired
+					select {
+					case <-proc.Abort:
+						break Loop
+					default:
+					}
+					select {
+					case <-proc.Restart:
+						proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
+						continue
+					default:
+					}
 					var forkedErr error
 					returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cddr(args)), env)
 					if forkedErr != nil {
-- 
2.43.0


From c1fa77b252e0280a2c36b3abde6de17f29ea3caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:37 +0000
Subject: [PATCH 53/60] fix: a delay too long for a duration is not taken to be
 over at once

---
 prim_concurrency.go | 21 +++++++++++++++++----
 prim_system.go      |  2 +-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/prim_concurrency.go b/prim_concurrency.go
index 1c3bb0f..f9e7d27 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -9,6 +9,7 @@ package golisp
 
 import (
 	"fmt"
+	"math"
 	"runtime"
 	"strings"
 	"sync/atomic"
@@ -96,6 +97,18 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	return procObj, nil
 }
 
+// millisDuration converts a number of milliseconds to a duration. What is too
+// long for a duration is taken to be the longest one.
+func millisDuration(millis int64) time.Duration {
+	if millis <= 0 {
+		return 0
+	}
+	if millis > int64(math.MaxInt64/time.Millisecond) {
+		return math.MaxInt64
+	}
+	return time.Duration(millis) * time.Millisecond
+}
+
 func ProcSleepImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	procObj := Car(args)
 
@@ -116,7 +129,7 @@ func ProcSleepImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	select {
 	case <-proc.Wake:
 		woken = true
-	case <-time.After(time.Duration(IntegerValue(millis)) * time.Millisecond):
+	case <-time.After(millisDuration(IntegerValue(millis))):
 	}
 
 	return BooleanWithValue(woken), nil
@@ -171,7 +184,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		Abort:         make(chan empty, 1),
 		Restart:       make(chan empty, 1),
 		ReturnValue:   make(chan *Data, 1),
-		ScheduleTimer: time.NewTimer(time.Duration(IntegerValue(millis)) * time.Millisecond)}
+		ScheduleTimer: time.NewTimer(millisDuration(IntegerValue(millis)))}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
 	function = function.inProcess(proc)
@@ -195,7 +208,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 						default:
 						}
 					}
-					proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
+					proc.ScheduleTimer.Reset(millisDuration(IntegerValue(millis)))
 				case <-proc.ScheduleTimer.C:
 					// The task may have been abandoned or reset before the timer expired
 					select {
@@ -205,7 +218,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 					}
 					select {
 					case <-proc.Restart:
-						proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
+						proc.ScheduleTimer.Reset(millisDuration(IntegerValue(millis)))
 						continue
 					default:
 					}
diff --git a/prim_system.go b/prim_system.go
index 703d6c4..2fc358f 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -128,7 +128,7 @@ func SleepImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 	millis := IntegerValue(n)
-	time.Sleep(time.Duration(millis) * time.Millisecond)
+	time.Sleep(millisDuration(millis))
 	return
 }
 
-- 
2.43.0


From 9c8598ddd082caa7b63f2a28d0465062e54d3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:20 +0000
Subject: [PATCH 54/60] fix: null elements of JSON arrays are kept as nil
 elements

---
 json_frame_support.go | 4 ++++
 json_support.go       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/json_frame_support.go b/json_frame_support.go
index 4180209..445c689 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -149,6 +149,10 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 			for i := 0; i < rv.Len(); i++ {
 				val := rv.Index(i)
 				value := jsonToLispWithFramesReflect(val)
+				if value == nil {
+					// keep the element
+					value = EmptyCons()
+				}
 				ary = Cons(value, ary)
 			}
 			return Reverse(ary)
diff --git a/json_support.go b/json_support.go
index 06d837d..a3fa7af 100644
--- a/json_support.go
+++ b/json_support.go
@@ -30,6 +30,10 @@ func JsonToLisp(json interface{}) (result *Data) {
 		var ary *Data
 		for _, val := range arrayValue {
 			value := JsonToLisp(val)
+			if value == nil {
+				// keep the element
+				value = EmptyCons()
+			}
 			ary = Cons(value, ary)
 		}
 		return Reverse(ary)
-- 
2.43.0


From 036355303d67cda6b3da16662d1f170362fec0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:26 +0000
Subject: [PATCH 55/60] fix: JSON numbers too large for an integer become
 floats

---
 json_frame_support.go | 2 +-
 json_support.go       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index 445c689..5f17ee2 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -165,7 +165,7 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 		return IntegerWithValue(int64(rv.Uint()))
 	case reflect.Float32, reflect.Float64:
 		floatValue := rv.Float()
-		if math.Trunc(floatValue) == floatValue {
+		if math.Trunc(floatValue) == floatValue && math.Abs(floatValue) < 1<<63 {
 			return IntegerWithValue(int64(floatValue))
 		} else {
 			return FloatWithValue(float32(floatValue))
diff --git a/json_support.go b/json_support.go
index a3fa7af..9b01af3 100644
--- a/json_support.go
+++ b/json_support.go
@@ -41,7 +41,7 @@ func JsonToLisp(json interface{}) (result *Data) {
 
 	numValue, ok := json.(float64)
 	if ok {
-		if math.Trunc(numValue) == numValue {
+		if math.Trunc(numValue) == numValue && math.Abs(numValue) < 1<<63 {
 			return IntegerWithValue(int64(numValue))
 		} else {
 			return FloatWithValue(float32(numValue))
-- 
2.43.0


From c7d08736c3f49b4c2b7e578ae046f57c9940cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:33 +0000
Subject: [PATCH 56/60] fix: only the colon that marks a slot name is left out
 of the JSON key

---
 json_frame_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index 5f17ee2..f64969a 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -241,7 +241,7 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 		dict := make(map[string]interface{}, Length(d))
 		for k, v := range FrameValue(d).Clone().Data {
 			if !FunctionP(v) {
-				dict[strings.TrimRight(k, ":")] = LispWithFramesToJson(v)
+				dict[strings.TrimSuffix(k, ":")] = LispWithFramesToJson(v)
 			}
 		}
 		return dict
-- 
2.43.0


From 4917f66e791f6850245120e88f5be1cb4e574351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:39 +0000
Subject: [PATCH 57/60] fix: LispToJson keeps floats and booleans

---
 json_support.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json_support.go b/json_support.go
index 9b01af3..5a2cd14 100644
--- a/json_support.go
+++ b/json_support.go
@@ -80,6 +80,14 @@ func LispToJson(d *Data) (result interface{}) {
 		return IntegerValue(d)
 	}
 
+	if FloatP(d) {
+		return FloatValue(d)
+	}
+
+	if BooleanP(d) {
+		return BooleanValue(d)
+	}
+
 	if StringP(d) || SymbolP(d) {
 		return StringValue(d)
 	}
-- 
2.43.0


From 623afc3ca3cbbe42289eec8e031463b786276200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:45 +0000
Subject: [PATCH 58/60] fix: the JSON text null is converted to nil

---
 json_frame_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index f64969a..1cbc8ec 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -197,7 +197,7 @@ func JsonStringToLispWithFrames(jsonData string) (result *Data) {
 		m.Data = make(FrameMapData, 0)
 		return FrameWithValue(&m)
 	}
-	return jsonToLispWithFramesReflect(reflect.ValueOf(data))
+	return JsonToLispWithFrames(data)
 }
 
 func LispWithFramesToJson(d *Data) (result interface{}) {
-- 
2.43.0


From 8879c4008943374076363e86b0312f2eca6f0690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:06 +0000
Subject: [PATCH 59/60] fix: reading from one port does not lose text read
 ahead from another

---
 parser.go    |  1 +
 prim_io.go   |  1 +
 tokenizer.go | 29 ++++++++++++++++++++---------
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/parser.go b/parser.go
index db8c4be..37506e1 100644
--- a/parser.go
+++ b/parser.go
@@ -376,6 +376,7 @@ func ParseObjectFromFileInEnv(port *os.File, env *SymbolTableFrame) (result *Dat
 	}
 
 	if eof {
+		forgetFileTokenizer(port)
 		result = EofObject
 	}
 
diff --git a/prim_io.go b/prim_io.go
index 285ef20..7da861b 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -73,6 +73,7 @@ func ClosePortImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	forgetFileTokenizer(PortValue(p))
 	(*os.File)(PortValue(p)).Close()
 	return
 
diff --git a/tokenizer.go b/tokenizer.go
index 29425e1..f186b82 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -13,6 +13,7 @@ import (
 	"io"
 	"os"
 	"strings"
+	"sync"
 	"unicode"
 )
 
@@ -51,8 +52,9 @@ type Tokenizer struct {
 	AlmostEof      bool
 }
 
-var mostRecentFileTokenizer *Tokenizer
-var mostRecentlyUsedFile *os.File
+// The tokenizers of the files being read, which hold text read ahead.
+var fileTokenizers = make(map[*os.File]*Tokenizer)
+var fileTokenizersMutex sync.Mutex
 
 func NewTokenizer(scanner *bufrr.Reader) *Tokenizer {
 	t := &Tokenizer{Source: scanner}
@@ -66,14 +68,23 @@ func NewTokenizerFromString(src string) *Tokenizer {
 }
 
 func NewTokenizerFromFile(src *os.File) *Tokenizer {
-	if mostRecentlyUsedFile == src {
-		return mostRecentFileTokenizer
-	} else {
-		t := NewTokenizer(bufrr.NewReader(src))
-		mostRecentFileTokenizer = t
-		mostRecentlyUsedFile = src
-		return t
+	fileTokenizersMutex.Lock()
+	t, found := fileTokenizers[src]
+	fileTokenizersMutex.Unlock()
+	if !found {
+		t = NewTokenizer(bufrr.NewReader(src))
+		fileTokenizersMutex.Lock()
+		fileTokenizers[src] = t
+		fileTokenizersMutex.Unlock()
 	}
+	return t
+}
+
+// forgetFileTokenizer is called when there is nothing more to read from a file.
+func forgetFileTokenizer(src *os.File) {
+	fileTokenizersMutex.Lock()
+	delete(fileTokenizers, src)
+	fileTokenizersMutex.Unlock()
 }
 
 func (self *Tokenizer) Advance() {
-- 
2.43.0


From 09a38e53d993fcc7b78ccdaa8d9672697f76e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:03 +0000
Subject: [PATCH 60/60] fix: profile records keep percent signs in function
 names

---
 profiling.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profiling.go b/profiling.go
index 2d159f3..cd088c6 100644
--- a/profiling.go
+++ b/profiling.go
@@ -43,9 +43,9 @@ func ProfileEnter(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'enter type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
@@ -54,9 +54,9 @@ func ProfileExit(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'exit type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
-- 
2.43.0

