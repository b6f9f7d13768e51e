From 465848a8c0cf084c8cf43a789c1566b6dbd076d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:08 +0000
Subject: [PATCH 01/49] fix: make-channel reports an error for a size the
 runtime cannot allocate

---
 prim_channel.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/prim_channel.go b/prim_channel.go
index 44d65f2..c2efede 100644
--- a/prim_channel.go
+++ b/prim_channel.go
@@ -47,7 +47,18 @@ func MakeChannelImpl(args *Data, env *SymbolTableFrame) (result *Data, err error
 			return
 		}
 
-		c = make(Channel, int(channelLength))
+		func() {
+			defer func() {
+				if e := recover(); e != nil {
+					err = ProcessError(fmt.Sprintf("channel size is too big; got %d.", channelLength), env)
+				}
+			}()
+			c = make(Channel, int(channelLength))
+		}()
+
+		if err != nil {
+			return
+		}
 	} else {
 		c = make(Channel)
 	}
-- 
2.43.0


From 6e3cf701c8c027ca31523f081b34c4cec2b99ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:28 +0000
Subject: [PATCH 02/49] fix: join recognises its own process also when the
 function is shared, recursive or calls helpers

---
 function.go         |  6 ++++++
 prim_concurrency.go | 30 +++++++++++++++++++-----------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/function.go b/function.go
index 4bdd440..35b83cf 100644
--- a/function.go
+++ b/function.go
@@ -45,6 +45,12 @@ func MakeFunction(name string, params *Data, body *Data, parentEnv *SymbolTableF
 	return &Function{Name: name, Params: params, VarArgs: varArgs, RequiredArgCount: requiredArgs, Body: body, Env: parentEnv, SlotFunction: 0}
 }
 
+// forProcess returns a copy of the function that runs as the body of proc, so that
+// other processes running the same function, or direct calls of it, are not affected.
+func (self *Function) forProcess(proc *Process) *Function {
+	return &Function{Name: self.Name, Params: self.Params, VarArgs: self.VarArgs, RequiredArgCount: self.RequiredArgCount, Body: self.Body, Env: self.Env, DebugOnEntry: self.DebugOnEntry, SlotFunction: atomic.LoadInt32(&self.SlotFunction), ParentProcess: proc}
+}
+
 func (self *Function) String() string {
 	return fmt.Sprintf("<func: %s>", self.Name)
 }
diff --git a/prim_concurrency.go b/prim_concurrency.go
index f423be9..f85da1e 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -76,7 +76,7 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ReturnValue: make(chan *Data, 1)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
+	function = function.forProcess(proc)
 
 	go func() {
 		var returnValue *Data
@@ -174,7 +174,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ScheduleTimer: time.NewTimer(time.Duration(IntegerValue(millis)) * time.Millisecond)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
+	function = function.forProcess(proc)
 
 	go func() {
 		var returnValue *Data
@@ -250,6 +250,19 @@ func ResetTimeoutImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 	return StringWithValue(str), nil
 }
 
+// runningProcess finds the process that evaluates code in env, by following the chain of callers
+// to the closest one that is the body of a process. It is nil if there is none.
+func runningProcess(env *SymbolTableFrame) *Process {
+	parentProcSym := SymbolWithName("parentProcess")
+	for e := env; e != nil; e = e.Previous {
+		binding, found := e.findBindingInLocalFrameFor(parentProcSym)
+		if found && ObjectP(binding.Val) && ObjectType(binding.Val) == "Process" {
+			return (*Process)(ObjectValue(binding.Val))
+		}
+	}
+	return nil
+}
+
 func JoinImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	procObj := Car(args)
 
@@ -260,15 +273,10 @@ func JoinImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	proc := (*Process)(ObjectValue(procObj))
 
 	// Check for early exit if joining on the current proc
-	parentProcData := env.ValueOf(SymbolWithName("parentProcess"))
-	if NotNilP(parentProcData) && ObjectP(parentProcData) && ObjectType(parentProcData) == "Process" {
-		parentProc := (*Process)(ObjectValue(parentProcData))
-
-		if proc == parentProc {
-			// Oh no, we're in our own process!  Bail out!
-			// But we want it to complete, so we're not treating it as an error
-			return nil, nil
-		}
+	if proc == runningProcess(env) {
+		// Oh no, we're in our own process!  Bail out!
+		// But we want it to complete, so we're not treating it as an error
+		return nil, nil
 	}
 
 	if atomic.CompareAndSwapInt32(&proc.Joined, 0, 1) {
-- 
2.43.0


From af4f3f96eb9f586c20f3726f968c9f6129600fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:52 +0000
Subject: [PATCH 03/49] fix: an error in a step expression of do is reported

---
 prim_special_forms.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index d742d1b..33ad4bd 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -437,8 +437,9 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			}
 		}
 
-		if rebindDoLocals(bindings, localEnv) != nil {
-			return
+		err = rebindDoLocals(bindings, localEnv)
+		if err != nil {
+			return nil, err
 		}
 	}
 	return
-- 
2.43.0


From 26b3c076e21613a7802ed91a0c12632abfe97061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:52 +0000
Subject: [PATCH 04/49] fix: a parameter list that is only a rest parameter
 receives all the arguments

---
 function.go | 3 +++
 macro.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/function.go b/function.go
index 35b83cf..7849ae6 100644
--- a/function.go
+++ b/function.go
@@ -68,6 +68,9 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 
 	var argValue *Data
 	var accumulatingParam *Data = nil
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	accumulatedArgs := make([]*Data, 0)
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
diff --git a/macro.go b/macro.go
index c8f7f9c..778b48f 100644
--- a/macro.go
+++ b/macro.go
@@ -43,6 +43,9 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 
 	var argValue *Data
 	var accumulatingParam *Data = nil
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	accumulatedArgs := make([]*Data, 0)
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
-- 
2.43.0


From 1bb15165153050662a7ab1197e829e7050ba286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 05/49] fix: apply and the list functions pass exactly the
 elements of the list, none for an empty one

---
 data.go                | 8 ++------
 prim_list_functions.go | 4 ++--
 prim_special_forms.go  | 2 +-
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/data.go b/data.go
index dcfe12f..98cfe18 100644
--- a/data.go
+++ b/data.go
@@ -728,12 +728,8 @@ func QuoteIt(value *Data) (result *Data) {
 
 func QuoteAll(d *Data) (result *Data) {
 	var l []*Data = make([]*Data, 0, 10)
-	if d == nil {
-		l = append(l, QuoteIt(nil))
-	} else {
-		for c := d; c != nil; c = Cdr(c) {
-			l = append(l, QuoteIt(Car(c)))
-		}
+	for c := d; NotNilP(c); c = Cdr(c) {
+		l = append(l, QuoteIt(Car(c)))
 	}
 	return ArrayToList(l)
 }
diff --git a/prim_list_functions.go b/prim_list_functions.go
index 4aba735..13693af 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -354,7 +354,7 @@ func FilterImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var d []*Data = make([]*Data, 0, Length(col))
 	var v *Data
 	for c := col; NotNilP(c); c = Cdr(c) {
-		v, err = ApplyWithoutEval(f, Cons(Car(c), nil), env)
+		v, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
 		if err != nil {
 			return
 		}
@@ -387,7 +387,7 @@ func RemoveImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var d []*Data = make([]*Data, 0, Length(col))
 	var v *Data
 	for c := col; NotNilP(c); c = Cdr(c) {
-		v, err = ApplyWithoutEval(f, Cons(Car(c), nil), env)
+		v, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
 		if err != nil {
 			return
 		}
diff --git a/prim_special_forms.go b/prim_special_forms.go
index 33ad4bd..96d272a 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -26,7 +26,7 @@ func RegisterSpecialFormPrimitives() {
 	MakeSpecialForm("letrec", ">=1", LetRecImpl)
 	MakeSpecialForm("begin", "*", BeginImpl)
 	MakeSpecialForm("do", ">=2", DoImpl)
-	MakePrimitiveFunction("apply", ">=1", ApplyImpl)
+	MakePrimitiveFunction("apply", ">=2", ApplyImpl)
 	MakeSpecialForm("->", ">=1", ChainImpl)
 	MakeSpecialForm("=>", ">=1", TapImpl)
 	MakeSpecialForm("definition-of", "1", DefinitionOfImpl)
-- 
2.43.0


From 06cd4f38ec1ac7a6680e65eec485fa90e5bf89cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 06/49] fix: quasiquote keeps dotted pairs and splices lists
 built with cons

---
 prim_macros.go | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/prim_macros.go b/prim_macros.go
index 3da49b1..de4480a 100644
--- a/prim_macros.go
+++ b/prim_macros.go
@@ -27,9 +27,22 @@ func QuoteImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 }
 
+// quasiquotePart wraps a processed value as a list of one element.
+func quasiquotePart(value *Data) *Data {
+	if value == nil {
+		value = EmptyCons()
+	}
+	return Cons(value, nil)
+}
+
+// isUnquoteTail tells whether the rest of a template is a form that was written after a dot.
+func isUnquoteTail(rest *Data) bool {
+	return SymbolP(Car(rest)) && StringValue(Car(rest)) == "unquote" && Length(rest) == 2
+}
+
 func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *Data, err error) {
 	if !ListP(sexpr) {
-		return Cons(sexpr, nil), nil
+		return quasiquotePart(sexpr), nil
 	} else if SymbolP(Car(sexpr)) && StringValue(Car(sexpr)) == "quasiquote" {
 		processed, err := processQuasiquoted(Cadr(sexpr), level+1, env)
 		if err != nil {
@@ -46,7 +59,7 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 			if err != nil {
 				return nil, err
 			}
-			return Cons(r, nil), nil
+			return quasiquotePart(r), nil
 		} else {
 			processed, err := processQuasiquoted(Cadr(sexpr), level-1, env)
 			if err != nil {
@@ -78,20 +91,27 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 		}
 	} else {
 		parts := make([]*Data, 0, Length(Cdr(sexpr)))
-		for _, exp := range ToArray(sexpr) {
-			processed, err := processQuasiquoted(exp, level, env)
+		var tail *Data
+		for cell := sexpr; NotNilP(cell); cell = Cdr(cell) {
+			if !ListP(cell) || cell != sexpr && isUnquoteTail(cell) {
+				processed, err := processQuasiquoted(cell, level, env)
+				if err != nil {
+					return nil, err
+				}
+				tail = Car(processed)
+				break
+			}
+			processed, err := processQuasiquoted(Car(cell), level, env)
 			if err != nil {
 				return nil, err
 			}
-			if processed != nil {
+			if ListP(processed) {
+				parts = append(parts, ToArray(processed)...)
+			} else {
 				parts = append(parts, processed)
 			}
 		}
-		flat, err := Flatten(ArrayToList(parts))
-		if err != nil {
-			return nil, err
-		}
-		return Cons(flat, nil), nil
+		return quasiquotePart(ArrayToListWithTail(parts, tail)), nil
 	}
 }
 
-- 
2.43.0


From 5617278709c0c313efef63595175e68005411448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:56 +0000
Subject: [PATCH 07/49] fix: -> and => do not evaluate the chained value a
 second time

---
 prim_special_forms.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index 96d272a..3811dc4 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -469,6 +469,14 @@ func ApplyImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	return ApplyWithoutEval(f, argList, env)
 }
 
+// chainedValue returns an expression that evaluates to value, which has already been evaluated.
+func chainedValue(value *Data) *Data {
+	if SymbolP(value) || ListP(value) {
+		return QuoteIt(value)
+	}
+	return value
+}
+
 func ChainImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var value *Data
 
@@ -481,9 +489,9 @@ func ChainImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
-			newExpr = Cons(Car(sexpr), Cons(value, Cdr(sexpr)))
+			newExpr = Cons(Car(sexpr), Cons(chainedValue(value), Cdr(sexpr)))
 		} else {
-			newExpr = Cons(sexpr, Cons(value, nil))
+			newExpr = Cons(sexpr, Cons(chainedValue(value), nil))
 		}
 		value, err = Eval(newExpr, env)
 		if err != nil {
@@ -507,9 +515,9 @@ func TapImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
-			newExpr = Cons(Car(sexpr), Cons(value, Cdr(sexpr)))
+			newExpr = Cons(Car(sexpr), Cons(chainedValue(value), Cdr(sexpr)))
 		} else {
-			newExpr = Cons(sexpr, Cons(value, nil))
+			newExpr = Cons(sexpr, Cons(chainedValue(value), nil))
 		}
 		_, err = Eval(newExpr, env)
 		if err != nil {
-- 
2.43.0


From 6ba03bab34729ec96bf991bc45e7c660ac12d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:01 +0000
Subject: [PATCH 08/49] fix: find, find-tail and memp report the error their
 predicate raised

---
 prim_list_functions.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prim_list_functions.go b/prim_list_functions.go
index 13693af..275b80e 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -434,7 +434,9 @@ func FindTailImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
-
+		if err != nil {
+			return
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find-tail needs a predicate function as its first argument.", env)
 			return
@@ -463,6 +465,9 @@ func FindImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find needs a predicate function as its first argument.", env)
 			return
-- 
2.43.0


From c1ac9f760daceb905e30ef7dd8dbaa29f49b8a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:04 +0000
Subject: [PATCH 09/49] fix: set-car!, set-cdr! and set-nth! report errors of
 their arguments and wrong types instead of changing anything

---
 list_access.go   |  2 +-
 prim_mutators.go | 39 +++++++++++++++++++++++++++++++++------
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/list_access.go b/list_access.go
index e38ba14..9fa2880 100644
--- a/list_access.go
+++ b/list_access.go
@@ -138,7 +138,7 @@ func Tenth(d *Data) *Data {
 func SetNth(list *Data, index int, value *Data) *Data {
 	for i := index; i > 1; list, i = Cdr(list), i-1 {
 	}
-	if !NilP(list) {
+	if mutableCellP(list) {
 		ConsValue(list).Car = value
 	}
 
diff --git a/prim_mutators.go b/prim_mutators.go
index e1f8523..fdf00ef 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -28,28 +28,44 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	return env.SetTo(symbol, value)
 }
 
+// mutableCellP tells whether d has a car and a cdr that can be changed.
+func mutableCellP(d *Data) bool {
+	return NotNilP(d) && (PairP(d) || AlistP(d) || DottedPairP(d))
+}
+
 func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
-		err = ProcessError("set-car! requires a pair as it's first argument.", env)
+	if err != nil {
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
 		return
 	}
+	if !mutableCellP(pair) {
+		err = ProcessError("set-car! requires a pair as it's first argument.", env)
+		return
+	}
+	if value == nil {
+		value = EmptyCons()
+	}
 	ConsValue(pair).Car = value
 	return value, nil
 }
 
 func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
-		err = ProcessError("set-cdr! requires a pair as it's first argument.", env)
+	if err != nil {
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
 		return
 	}
+	if !mutableCellP(pair) {
+		err = ProcessError("set-cdr! requires a pair as it's first argument.", env)
+		return
+	}
 	ConsValue(pair).Cdr = value
 
 	return value, nil
@@ -57,8 +73,8 @@ func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	l, err := Eval(First(args), env)
-	if !ListP(l) {
-		err = ProcessError("set-nth! requires a list as it's first argument.", env)
+	if err != nil {
+		return
 	}
 	index, err := Eval(Second(args), env)
 	if err != nil {
@@ -68,6 +84,17 @@ func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if err != nil {
 		return
 	}
+	if !ListP(l) {
+		err = ProcessError("set-nth! requires a list as it's first argument.", env)
+		return
+	}
+	if !IntegerP(index) {
+		err = ProcessError("set-nth! requires an integer as it's second argument.", env)
+		return
+	}
+	if value == nil {
+		value = EmptyCons()
+	}
 
 	return SetNth(l, int(IntegerValue(index)), value), nil
 }
-- 
2.43.0


From eb43daa031d20ab6e9aa85187e7a18f2ba09ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:04 +0000
Subject: [PATCH 10/49] fix: append! reports a first argument that is not a
 list instead of overwriting foreign memory

---
 data.go                   | 8 ++++----
 prim_list_manipulation.go | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/data.go b/data.go
index 98cfe18..100e42e 100644
--- a/data.go
+++ b/data.go
@@ -238,7 +238,7 @@ func AppendBang(l *Data, value *Data) *Data {
 	}
 
 	var c *Data
-	for c = l; NotNilP(Cdr(c)); c = Cdr(c) {
+	for c = l; mutableCellP(Cdr(c)); c = Cdr(c) {
 	}
 
 	((*ConsCell)(c.Value)).Cdr = Cons(value, nil)
@@ -252,7 +252,7 @@ func AppendBangList(l *Data, otherList *Data) *Data {
 	}
 
 	var c *Data
-	for c = l; NotNilP(Cdr(c)); c = Cdr(c) {
+	for c = l; mutableCellP(Cdr(c)); c = Cdr(c) {
 	}
 
 	((*ConsCell)(c.Value)).Cdr = otherList
@@ -267,7 +267,7 @@ func Append(l *Data, value *Data) *Data {
 
 	var newList = Copy(l)
 	var c *Data
-	for c = newList; NotNilP(Cdr(c)); c = Cdr(c) {
+	for c = newList; mutableCellP(Cdr(c)); c = Cdr(c) {
 	}
 
 	((*ConsCell)(c.Value)).Cdr = Cons(value, nil)
@@ -282,7 +282,7 @@ func AppendList(l *Data, otherList *Data) *Data {
 
 	var newList = Copy(l)
 	var c *Data
-	for c = newList; NotNilP(Cdr(c)); c = Cdr(c) {
+	for c = newList; mutableCellP(Cdr(c)); c = Cdr(c) {
 	}
 
 	((*ConsCell)(c.Value)).Cdr = otherList
diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index a2c6aea..907d20a 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -8,6 +8,7 @@
 package golisp
 
 import (
+	"fmt"
 	"sort"
 )
 
@@ -100,6 +101,11 @@ func AppendBangImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	if !ListP(firstList) {
+		err = ProcessError(fmt.Sprintf("append! requires a list as it's first argument, but got %s.", String(firstList)), env)
+		return
+	}
+
 	if ListP(second) {
 		result = AppendBangList(firstList, second)
 	} else {
-- 
2.43.0


From 80f0e0eab2b0b54644b54a16de6497ffd95ced56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 11/49] fix: environment-assign! refuses protected bindings and
 reports an unbound name

---
 prim_environment.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/prim_environment.go b/prim_environment.go
index bb592b3..67e54e6 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -7,6 +7,10 @@
 
 package golisp
 
+import (
+	"fmt"
+)
+
 func RegisterEnvironmentPrimitives() {
 	MakePrimitiveFunction("environment?", "1", EnvironmentPImpl)
 	MakePrimitiveFunction("environment-has-parent?", "1", EnvironmentParentPImpl)
@@ -245,10 +249,16 @@ func EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame) (result *Data,
 
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
-	if found {
-		result = Caddr(args)
-		binding.Val = result
+	if !found {
+		err = ProcessError(fmt.Sprintf("environment-assign!: %s is unbound", StringValue(Cadr(args))), env)
+		return
+	}
+	if binding.Protected {
+		err = ProcessError(fmt.Sprintf("environment-assign!: %s is a protected binding", StringValue(Cadr(args))), env)
+		return
 	}
+	result = Caddr(args)
+	binding.Val = result
 	return
 }
 
-- 
2.43.0


From 21100119510d39b06d6c025b40c292edfc34230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:05 +0000
Subject: [PATCH 12/49] fix: scopes of calls and binding forms no longer
 replace named top level environments

---
 function.go           |  4 ++--
 macro.go              |  2 +-
 prim_frame.go         |  4 ++--
 prim_special_forms.go |  6 +++---
 symbol_table_frame.go | 16 ++++++++++------
 5 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/function.go b/function.go
index 7849ae6..7c85e05 100644
--- a/function.go
+++ b/function.go
@@ -107,7 +107,7 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 }
 
 func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, eval bool) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelowWithFrame(self.Env, frame, self.Name)
+	localEnv := newLocalSymbolTableFrame(self.Env, frame, self.Name)
 	localEnv.Previous = argEnv
 	selfSym := Intern("self")
 	if frame != nil {
@@ -173,7 +173,7 @@ func (self *Function) ApplyWithoutEvalWithFrame(args *Data, argEnv *SymbolTableF
 }
 
 func (self *Function) ApplyOveriddingEnvironment(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelow(argEnv, self.Name)
+	localEnv := newLocalSymbolTableFrame(argEnv, nil, self.Name)
 	err = self.makeLocalBindings(args, argEnv, localEnv, true)
 	if err != nil {
 		return
diff --git a/macro.go b/macro.go
index 778b48f..77c05d1 100644
--- a/macro.go
+++ b/macro.go
@@ -82,7 +82,7 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 }
 
 func (self *Macro) Expand(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelow(self.Env, self.Name)
+	localEnv := newLocalSymbolTableFrame(self.Env, nil, self.Name)
 	err = self.makeLocalBindings(args, argEnv, localEnv, false)
 	if err != nil {
 		return
diff --git a/prim_frame.go b/prim_frame.go
index 395cc52..c4ab7fe 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -210,7 +210,7 @@ func SendSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	}
 
 	params := Cdr(args)
-	frameEnv := NewSymbolTableFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
+	frameEnv := newLocalSymbolTableFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
 	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
 	if err != nil {
 		return
@@ -318,7 +318,7 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 		return
 	}
 
-	frameEnv := NewSymbolTableFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
+	frameEnv := newLocalSymbolTableFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
 	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
 	if err != nil {
 		return
diff --git a/prim_special_forms.go b/prim_special_forms.go
index 3811dc4..af81097 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -267,7 +267,7 @@ func LetCommon(args *Data, env *SymbolTableFrame, star bool, rec bool) (result *
 		return
 	}
 
-	localEnv := NewSymbolTableFrameBelow(env, "let")
+	localEnv := newLocalSymbolTableFrame(env, nil, "let")
 	localEnv.Previous = env
 	var evalEnv *SymbolTableFrame
 	if star || rec {
@@ -317,7 +317,7 @@ func namedLetImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 	varsList := ArrayToList(vars)
 	initialsList := ArrayToList(initials)
-	localEnv := NewSymbolTableFrameBelow(env, StringValue(name))
+	localEnv := newLocalSymbolTableFrame(env, nil, StringValue(name))
 	localEnv.Previous = env
 	_, err = localEnv.BindLocallyTo(name, nil)
 	if err != nil {
@@ -401,7 +401,7 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	localEnv := NewSymbolTableFrameBelow(env, "do")
+	localEnv := newLocalSymbolTableFrame(env, nil, "do")
 	localEnv.Previous = env
 	err = bindLetLocals(bindings, false, localEnv, env)
 	if err != nil {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 9367a16..155ef2e 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -130,12 +130,7 @@ func (self *SymbolTableFrame) DumpHeader() {
 }
 
 func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFrame {
-	var f *FrameMap = nil
-	if p != nil {
-		f = p.Frame
-	}
-	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+	env := newLocalSymbolTableFrame(p, nil, name)
 	if p == nil || p == Global {
 		TopLevelEnvironments.Mutex.Lock()
 		TopLevelEnvironments.Environments[name] = env
@@ -144,6 +139,15 @@ func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFram
 	return env
 }
 
+// The scope of a call or a binding form: it is not one of the named top level environments, even directly below Global.
+func newLocalSymbolTableFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
+	if f == nil && p != nil {
+		f = p.Frame
+	}
+	restricted := p != nil && p.IsRestricted
+	return &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+}
+
 func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
 	if f == nil {
 		f = p.Frame
-- 
2.43.0


From 1469081d21c24f63b6435fdc7e5c6277fb0c35c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 13/49] fix: environment listing primitives hold the scope's
 lock while they iterate

---
 prim_environment.go   |  6 +++---
 symbol_table_frame.go | 10 ++++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/prim_environment.go b/prim_environment.go
index 67e54e6..b0eb827 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -69,7 +69,7 @@ func EnvironmentBoundNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.allBindings() {
 		keys = append(keys, val.Sym)
 	}
 	return ArrayToList(keys), nil
@@ -82,7 +82,7 @@ func EnvironmentMacroNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.allBindings() {
 		if MacroP(val.Val) {
 			keys = append(keys, val.Sym)
 		}
@@ -97,7 +97,7 @@ func EnvironmentBindingsImpl(args *Data, env *SymbolTableFrame) (result *Data, e
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.allBindings() {
 		if NilP(val.Val) {
 			keys = append(keys, InternalMakeList(val.Sym))
 		} else {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 155ef2e..bd3bbf8 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -179,6 +179,16 @@ func (self *SymbolTableFrame) SetBindingAt(name string, b *Binding) {
 	self.Mutex.Unlock()
 }
 
+func (self *SymbolTableFrame) allBindings() (bindings []*Binding) {
+	self.Mutex.RLock()
+	defer self.Mutex.RUnlock()
+	bindings = make([]*Binding, 0, len(self.Bindings))
+	for _, b := range self.Bindings {
+		bindings = append(bindings, b)
+	}
+	return
+}
+
 func (self *SymbolTableFrame) DeleteBinding(name string) {
 	self.Mutex.Lock()
 	delete(self.Bindings, name)
-- 
2.43.0


From 3654d27d318063bd4f8336c81a4eac5f33fed778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:06 +0000
Subject: [PATCH 14/49] fix: interning a new name in two processes at once
 yields one symbol

---
 symbol_table_frame.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index bd3bbf8..ad3ede2 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -52,8 +52,11 @@ func Intern(name string) (sym *Data) {
 	internedSymbols.Mutex.RUnlock()
 	if sym == nil {
 		internedSymbols.Mutex.Lock()
-		sym = SymbolWithName(name)
-		internedSymbols.Symbols[name] = sym
+		sym = internedSymbols.Symbols[name]
+		if sym == nil {
+			sym = SymbolWithName(name)
+			internedSymbols.Symbols[name] = sym
+		}
 		internedSymbols.Mutex.Unlock()
 	}
 	return
-- 
2.43.0


From 8d1cf36096a31c5641c77206f360d064c86f1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:20 +0000
Subject: [PATCH 15/49] fix: restricting an environment also covers the scope
 of the call in progress whose arguments restrict it

---
 primitive_function.go |  2 +-
 symbol_table_frame.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/primitive_function.go b/primitive_function.go
index 8789c47..4385977 100644
--- a/primitive_function.go
+++ b/primitive_function.go
@@ -224,7 +224,7 @@ func (self *PrimitiveFunction) checkArgumentCount(argCount int) bool {
 }
 
 func (self *PrimitiveFunction) Apply(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-	if self.IsRestricted && env.IsRestricted {
+	if self.IsRestricted && env.inRestrictedScope() {
 		err = fmt.Errorf("The %s primitive is restricted from execution in this environment\n", self.Name)
 		return
 	}
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index ad3ede2..48961ec 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -165,6 +165,16 @@ func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name st
 	return env
 }
 
+// A scope is restricted as soon as it or any scope around it is, also when that happens after it was created.
+func (self *SymbolTableFrame) inRestrictedScope() bool {
+	for e := self; e != nil; e = e.Parent {
+		if e.IsRestricted {
+			return true
+		}
+	}
+	return false
+}
+
 func (self *SymbolTableFrame) HasFrame() bool {
 	return self.Frame != nil
 }
-- 
2.43.0


From 790dd66a562eddde61caa3e109be57337fcd4038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 16/49] fix: apply, map and -> work where the name quote is
 bound locally

---
 data.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/data.go b/data.go
index 100e42e..2487556 100644
--- a/data.go
+++ b/data.go
@@ -718,11 +718,21 @@ func RecursiveFlatten(d *Data) (result *Data, err error) {
 	return ArrayToList(l), nil
 }
 
+// The quote special form itself, so that code built by the interpreter works where the name quote is bound locally.
+func quoteForm() *Data {
+	sym := Intern("quote")
+	if binding, found := Global.BindingNamed("quote"); found {
+		return binding.Val
+	}
+	return sym
+}
+
 func QuoteIt(value *Data) (result *Data) {
+	quote := quoteForm()
 	if value == nil {
-		return InternalMakeList(Intern("quote"), Cons(nil, nil))
+		return InternalMakeList(quote, Cons(nil, nil))
 	} else {
-		return InternalMakeList(Intern("quote"), value)
+		return InternalMakeList(quote, value)
 	}
 }
 
-- 
2.43.0


From 5c68f5d4962d17a74a72b5ff93833fc148ca9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:06 +0000
Subject: [PATCH 17/49] fix: frame lookups cannot deadlock, read a slot in one
 step and skip parent slots without a frame

---
 data.go               | 36 ++++++-----------
 frame.go              | 90 +++++++++++++++++++------------------------
 json_frame_support.go |  5 +--
 prim_frame.go         | 23 ++++++-----
 symbol_table_frame.go |  4 +-
 5 files changed, 67 insertions(+), 91 deletions(-)

diff --git a/data.go b/data.go
index 2487556..18152bf 100644
--- a/data.go
+++ b/data.go
@@ -800,12 +800,9 @@ func Copy(d *Data) *Data {
 		{
 			m := FrameMap{}
 			m.Data = make(FrameMapData)
-			frame := FrameValue(d)
-			frame.Mutex.RLock()
-			for k, v := range frame.Data {
+			for k, v := range FrameValue(d).slots() {
 				m.Data[k] = Copy(v)
 			}
-			frame.Mutex.RUnlock()
 			return FrameWithValue(&m)
 		}
 	case BoxedObjectType:
@@ -876,24 +873,17 @@ func IsEqual(d *Data, o *Data) bool {
 	}
 
 	if FrameP(d) {
-		frameD := FrameValue(d)
-		frameO := FrameValue(o)
-		frameD.Mutex.RLock()
-		frameO.Mutex.RLock()
-		if len(frameD.Data) != len(frameO.Data) {
-			frameO.Mutex.RUnlock()
-			frameD.Mutex.RUnlock()
+		slotsD := FrameValue(d).slots()
+		slotsO := FrameValue(o).slots()
+		if len(slotsD) != len(slotsO) {
 			return false
 		}
-		for k, v := range frameD.Data {
-			if !IsEqual(v, frameO.Data[k]) {
-				frameO.Mutex.RUnlock()
-				frameD.Mutex.RUnlock()
+		for k, v := range slotsD {
+			other, found := slotsO[k]
+			if !found || !IsEqual(v, other) {
 				return false
 			}
 		}
-		frameO.Mutex.RUnlock()
-		frameD.Mutex.RUnlock()
 		return true
 	}
 
@@ -1041,21 +1031,19 @@ func String(d *Data) string {
 			return fmt.Sprintf("<opaque Go object of type %s : 0x%x>", ObjectType(d), (*uint64)(ObjectValue(d)))
 		}
 	case FrameType:
-		frame := FrameValue(d)
-		frame.Mutex.RLock()
-		keys := make([]string, 0, len(frame.Data))
-		for key, _ := range frame.Data {
+		slots := FrameValue(d).slots()
+		keys := make([]string, 0, len(slots))
+		for key, _ := range slots {
 			keys = append(keys, key)
 		}
 		sort.Strings(keys)
 
-		pairs := make([]string, 0, len(frame.Data))
+		pairs := make([]string, 0, len(slots))
 		for _, key := range keys {
-			val := frame.Data[key]
+			val := slots[key]
 			var valString string = String(val)
 			pairs = append(pairs, fmt.Sprintf("%s %s", key, valString))
 		}
-		frame.Mutex.RUnlock()
 		return fmt.Sprintf("{%s}", strings.Join(pairs, " "))
 	case EnvironmentType:
 		return fmt.Sprintf("<environment: %s>", EnvironmentValue(d).Name)
diff --git a/frame.go b/frame.go
index 2430579..c50feeb 100644
--- a/frame.go
+++ b/frame.go
@@ -51,7 +51,7 @@ func (self *FrameMap) hasParentSlots() bool {
 func (self *FrameMap) Parents() []*FrameMap {
 	parents := make([]*FrameMap, 0, 0)
 	for k, v := range self.Data {
-		if isParentKey(k) && v != nil {
+		if isParentKey(k) && FrameP(v) {
 			parents = append(parents, FrameValue(v))
 		}
 	}
@@ -60,94 +60,82 @@ func (self *FrameMap) Parents() []*FrameMap {
 
 //------------------------------------------------------------
 
-func (self *FrameMap) hasSlotHelper(key string, v *set.Set) bool {
+// Lookups follow the parent slots of any number of frames, also in cycles. They exclude changes to the slots
+// of all frames by this one lock: holding the locks of several frames at once can deadlock.
+var slotsMutex sync.RWMutex
+
+func (self *FrameMap) lookupHelper(key string, v *set.Set) (value *Data, holder *FrameMap) {
 	if v.Has(self) {
-		return false
+		return nil, nil
 	}
 
 	v.Add(self)
 
-	if self.hasSlotLocally(key) {
-		return true
-	}
-
-	if !self.hasParentSlots() {
-		return false
+	value, ok := self.Data[key]
+	if ok {
+		return value, self
 	}
 
 	for _, p := range self.Parents() {
-		p.Mutex.RLock()
-		hasSlot := p.hasSlotHelper(key, v)
-		p.Mutex.RUnlock()
-		if hasSlot {
-			return true
+		value, holder = p.lookupHelper(key, v)
+		if holder != nil {
+			return
 		}
 	}
 
-	return false
+	return nil, nil
 }
 
-func (self *FrameMap) HasSlot(key string) (ret bool) {
-	visited := set.New()
-	self.Mutex.RLock()
-	ret = self.hasSlotHelper(key, visited)
-	self.Mutex.RUnlock()
-	return
+// lookup finds the value of a slot and the frame that holds it: this one or one it inherits from, nil if there is none.
+func (self *FrameMap) lookup(key string) (value *Data, holder *FrameMap) {
+	slotsMutex.RLock()
+	defer slotsMutex.RUnlock()
+	return self.lookupHelper(key, set.New())
 }
 
-//------------------------------------------------------------
-
-func (self *FrameMap) getHelper(key string, v *set.Set) *Data {
-	if v.Has(self) {
-		return nil
-	}
-
-	v.Add(self)
-
-	val, ok := self.Data[key]
-	if ok {
-		return val
-	}
-
-	for _, p := range self.Parents() {
-		p.Mutex.RLock()
-		val := p.getHelper(key, v)
-		p.Mutex.RUnlock()
-		if val != nil {
-			return val
-		}
-	}
+func (self *FrameMap) HasSlot(key string) bool {
+	_, holder := self.lookup(key)
+	return holder != nil
+}
 
-	return nil
+func (self *FrameMap) Get(key string) *Data {
+	value, _ := self.lookup(key)
+	return value
 }
 
-func (self *FrameMap) Get(key string) (ret *Data) {
-	visited := set.New()
+// slots returns a snapshot of this frame's own slots.
+func (self *FrameMap) slots() FrameMapData {
 	self.Mutex.RLock()
-	ret = self.getHelper(key, visited)
-	self.Mutex.RUnlock()
-	return
+	defer self.Mutex.RUnlock()
+	slots := make(FrameMapData, len(self.Data))
+	for k, v := range self.Data {
+		slots[k] = v
+	}
+	return slots
 }
 
 //------------------------------------------------------------
 
 func (self *FrameMap) Remove(key string) bool {
+	slotsMutex.Lock()
+	defer slotsMutex.Unlock()
 	self.Mutex.Lock()
+	defer self.Mutex.Unlock()
 	if !self.hasSlotLocally(key) {
-		self.Mutex.Unlock()
 		return false
 	}
 	delete(self.Data, key)
-	self.Mutex.Unlock()
 	return true
 }
 
 //------------------------------------------------------------
 
 func (self *FrameMap) Set(key string, value *Data) *Data {
+	slotsMutex.Lock()
 	self.Mutex.Lock()
 	self.Data[key] = value
 	self.Mutex.Unlock()
+	slotsMutex.Unlock()
 	return value
 }
 
diff --git a/json_frame_support.go b/json_frame_support.go
index f368677..d9d1590 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -235,14 +235,11 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 
 	if FrameP(d) {
 		dict := make(map[string]interface{}, Length(d))
-		frame := FrameValue(d)
-		frame.Mutex.RLock()
-		for k, v := range frame.Data {
+		for k, v := range FrameValue(d).slots() {
 			if !FunctionP(v) {
 				dict[strings.TrimRight(k, ":")] = LispWithFramesToJson(v)
 			}
 		}
-		frame.Mutex.RUnlock()
 		return dict
 	}
 
diff --git a/prim_frame.go b/prim_frame.go
index c4ab7fe..7c02257 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -9,6 +9,8 @@ package golisp
 
 import (
 	"fmt"
+
+	"github.com/SteelSeries/set.v0"
 )
 
 func RegisterFramePrimitives() {
@@ -82,12 +84,13 @@ func GetSlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	value, holder := FrameValue(f).lookup(StringValue(k))
+	if holder == nil {
 		err = ProcessError(fmt.Sprintf("get-slot requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	return FrameValue(f).Get(StringValue(k)), nil
+	return value, nil
 }
 
 func GetSlotOrNilImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -158,12 +161,12 @@ func SendImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	fun, holder := FrameValue(f).lookup(StringValue(k))
+	if holder == nil {
 		err = ProcessError(fmt.Sprintf("send requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	fun := FrameValue(f).Get(StringValue(k))
 	if !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("send requires a function slot, but was given a slot containing a %s.", TypeName(TypeOf(fun))), env)
 		return
@@ -179,11 +182,11 @@ func getSuperFunction(selector string, env *SymbolTableFrame) *Data {
 		return nil
 	}
 
-	f.Mutex.RLock()
-	defer f.Mutex.RUnlock()
+	slotsMutex.RLock()
+	defer slotsMutex.RUnlock()
 	for _, p := range f.Parents() {
-		fun := p.Get(selector)
-		if fun != nil {
+		fun, holder := p.lookupHelper(selector, set.New())
+		if holder != nil {
 			return fun
 		}
 	}
@@ -237,12 +240,12 @@ func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	fun, holder := FrameValue(f).lookup(StringValue(k))
+	if holder == nil {
 		err = ProcessError(fmt.Sprintf("apply-slot requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	fun := FrameValue(f).Get(StringValue(k))
 	if !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("apply-slot requires a function slot, but was given a slot containing a %s.", TypeName(TypeOf(fun))), env)
 		return
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 48961ec..b9061e0 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -317,8 +317,8 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 	if self.HasFrame() {
 		f := self.Frame
 		naked := StringValue(NakedSymbolFrom(symbol))
-		if f.HasSlot(naked) {
-			slotValue := f.Get(naked)
+		slotValue, holder := f.lookup(naked)
+		if holder != nil {
 			if FunctionP(slotValue) {
 				atomic.StoreInt32(&FunctionValue(slotValue).SlotFunction, 1)
 				return slotValue
-- 
2.43.0


From 5eb46da5ad2682d00d9c278bccf128e58122fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:12 +0000
Subject: [PATCH 18/49] fix: send-super runs the function with self and the
 receiver's slots, looked up from the frame that holds the caller

---
 frame.go              | 30 ++++++++++++++++++++++++++++++
 function.go           | 23 ++++++++++++++++++-----
 prim_frame.go         | 38 ++++++++++++++++----------------------
 symbol_table_frame.go | 11 +++++++----
 4 files changed, 71 insertions(+), 31 deletions(-)

diff --git a/frame.go b/frame.go
index c50feeb..5b3330c 100644
--- a/frame.go
+++ b/frame.go
@@ -93,6 +93,36 @@ func (self *FrameMap) lookup(key string) (value *Data, holder *FrameMap) {
 	return self.lookupHelper(key, set.New())
 }
 
+func (self *FrameMap) holderOfHelper(f *Function, v *set.Set) *FrameMap {
+	if v.Has(self) {
+		return nil
+	}
+
+	v.Add(self)
+
+	for _, value := range self.Data {
+		if FunctionP(value) && FunctionValue(value) == f {
+			return self
+		}
+	}
+
+	for _, p := range self.Parents() {
+		holder := p.holderOfHelper(f, v)
+		if holder != nil {
+			return holder
+		}
+	}
+
+	return nil
+}
+
+// holderOf finds the frame that has f in a slot: this one or one it inherits from, nil if there is none.
+func (self *FrameMap) holderOf(f *Function) *FrameMap {
+	slotsMutex.RLock()
+	defer slotsMutex.RUnlock()
+	return self.holderOfHelper(f, set.New())
+}
+
 func (self *FrameMap) HasSlot(key string) bool {
 	_, holder := self.lookup(key)
 	return holder != nil
diff --git a/function.go b/function.go
index 7c85e05..975acee 100644
--- a/function.go
+++ b/function.go
@@ -106,8 +106,11 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 	return nil
 }
 
-func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, eval bool) (result *Data, err error) {
+func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, holder *FrameMap, eval bool) (result *Data, err error) {
 	localEnv := newLocalSymbolTableFrame(self.Env, frame, self.Name)
+	if frame != nil && holder != nil {
+		localEnv.holder = holder
+	}
 	localEnv.Previous = argEnv
 	selfSym := Intern("self")
 	if frame != nil {
@@ -157,19 +160,29 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 }
 
 func (self *Function) Apply(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	return self.internalApply(args, argEnv, nil, true)
+	return self.internalApply(args, argEnv, nil, nil, true)
 }
 
 func (self *Function) ApplyWithFrame(args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (result *Data, err error) {
-	return self.internalApply(args, argEnv, frame, true)
+	return self.internalApply(args, argEnv, frame, self.holderFor(frame), true)
 }
 
 func (self *Function) ApplyWithoutEval(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	return self.internalApply(args, argEnv, nil, false)
+	return self.internalApply(args, argEnv, nil, nil, false)
 }
 
 func (self *Function) ApplyWithoutEvalWithFrame(args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (result *Data, err error) {
-	return self.internalApply(args, argEnv, frame, false)
+	return self.internalApply(args, argEnv, frame, self.holderFor(frame), false)
+}
+
+// holderFor finds the frame that holds the function when it runs for frame: the nearest one with it in a slot,
+// or else that of the slot function in whose scope it was created.
+func (self *Function) holderFor(frame *FrameMap) *FrameMap {
+	holder := frame.holderOf(self)
+	if holder == nil && self.Env != nil && self.Env.Frame == frame {
+		holder = self.Env.holder
+	}
+	return holder
 }
 
 func (self *Function) ApplyOveriddingEnvironment(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
diff --git a/prim_frame.go b/prim_frame.go
index 7c02257..4c05a50 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -173,25 +173,29 @@ func SendImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 
 	params := Cddr(args)
-	return FunctionValue(fun).ApplyWithoutEvalWithFrame(params, env, FrameValue(f))
+	return FunctionValue(fun).internalApply(params, env, FrameValue(f), holder, false)
 }
 
-func getSuperFunction(selector string, env *SymbolTableFrame) *Data {
-	f := env.Frame
+// The lookup starts at the parents of the frame that holds the running function, which need not be the receiver.
+func getSuperFunction(selector string, env *SymbolTableFrame) (fun *Data, holder *FrameMap) {
+	f := env.holder
 	if f == nil {
-		return nil
+		f = env.Frame
+	}
+	if f == nil {
+		return nil, nil
 	}
 
 	slotsMutex.RLock()
 	defer slotsMutex.RUnlock()
 	for _, p := range f.Parents() {
-		fun, holder := p.lookupHelper(selector, set.New())
+		fun, holder = p.lookupHelper(selector, set.New())
 		if holder != nil {
-			return fun
+			return
 		}
 	}
 
-	return nil
+	return nil, nil
 }
 
 func SendSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -206,19 +210,14 @@ func SendSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	fun := getSuperFunction(StringValue(selector), env)
+	fun, holder := getSuperFunction(StringValue(selector), env)
 	if fun == nil || !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("Message sent must select a function slot but was %s.", TypeName(TypeOf(fun))), env)
 		return
 	}
 
 	params := Cdr(args)
-	frameEnv := newLocalSymbolTableFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
-	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
-	if err != nil {
-		return
-	}
-	return FunctionValue(fun).ApplyWithoutEval(params, frameEnv)
+	return FunctionValue(fun).internalApply(params, env, env.Frame, holder, false)
 }
 
 func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -274,7 +273,7 @@ func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	return FunctionValue(fun).ApplyWithoutEvalWithFrame(argList, env, FrameValue(f))
+	return FunctionValue(fun).internalApply(argList, env, FrameValue(f), holder, false)
 }
 
 func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -292,7 +291,7 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 		return
 	}
 
-	fun := getSuperFunction(StringValue(selector), env)
+	fun, holder := getSuperFunction(StringValue(selector), env)
 	if fun == nil || !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("Message sent must select a function slot but was %s.", TypeName(TypeOf(fun))), env)
 		return
@@ -321,12 +320,7 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 		return
 	}
 
-	frameEnv := newLocalSymbolTableFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
-	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
-	if err != nil {
-		return
-	}
-	return FunctionValue(fun).ApplyWithoutEval(argList, frameEnv)
+	return FunctionValue(fun).internalApply(argList, env, env.Frame, holder, false)
 }
 
 func CloneImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index b9061e0..05e61f6 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -29,6 +29,7 @@ type SymbolTableFrame struct {
 	Mutex        sync.RWMutex
 	CurrentCode  *list.List
 	IsRestricted bool
+	holder       *FrameMap // the frame that holds the slot function running here: send-super continues at its parents
 }
 
 type symbolsTable struct {
@@ -144,19 +145,21 @@ func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFram
 
 // The scope of a call or a binding form: it is not one of the named top level environments, even directly below Global.
 func newLocalSymbolTableFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
+	holder := f
 	if f == nil && p != nil {
-		f = p.Frame
+		f, holder = p.Frame, p.holder
 	}
 	restricted := p != nil && p.IsRestricted
-	return &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+	return &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, CurrentCode: list.New(), IsRestricted: restricted, holder: holder}
 }
 
 func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
+	holder := f
 	if f == nil {
-		f = p.Frame
+		f, holder = p.Frame, p.holder
 	}
 	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding, 10), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding, 10), Frame: f, CurrentCode: list.New(), IsRestricted: restricted, holder: holder}
 	if p == nil || p == Global {
 		TopLevelEnvironments.Mutex.Lock()
 		TopLevelEnvironments.Environments[name] = env
-- 
2.43.0


From 75a5fb01403a97012d84999e1014a906674d60ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:18 +0000
Subject: [PATCH 19/49] fix: bindings around the innermost scope of a slot
 function hide slots of the same name

---
 symbol_table_frame.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 05e61f6..db2e28a 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -234,6 +234,17 @@ func (self *SymbolTableFrame) FindBindingFor(symbol *Data) (binding *Binding, fo
 	}
 }
 
+// boundWithinFrame tells whether the symbol is bound in the scope of the running slot function or one within it:
+// such a binding hides a slot of that name, as one in the innermost scope does.
+func (self *SymbolTableFrame) boundWithinFrame(symbol *Data) bool {
+	for e := self; e != nil && e.Frame == self.Frame; e = e.Parent {
+		if _, found := e.findBindingInLocalFrameFor(symbol); found {
+			return true
+		}
+	}
+	return false
+}
+
 func (self *SymbolTableFrame) BindTo(symbol *Data, value *Data) (*Data, error) {
 	binding, found := self.FindBindingFor(symbol)
 	if found {
@@ -272,7 +283,7 @@ func (self *SymbolTableFrame) SetTo(symbol *Data, value *Data) (result *Data, er
 	}
 
 	naked := StringValue(NakedSymbolFrom(symbol))
-	if self.HasFrame() && self.Frame.HasSlot(naked) {
+	if self.HasFrame() && !self.boundWithinFrame(symbol) && self.Frame.HasSlot(naked) {
 		self.Frame.Set(naked, value)
 		return value, nil
 	}
@@ -317,7 +328,7 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 		return localBinding.Val
 	}
 
-	if self.HasFrame() {
+	if self.HasFrame() && !self.boundWithinFrame(symbol) {
 		f := self.Frame
 		naked := StringValue(NakedSymbolFrom(symbol))
 		slotValue, holder := f.lookup(naked)
-- 
2.43.0


From f3a26be0b65918a16144294ae812c29fbf9000c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:37 +0000
Subject: [PATCH 20/49] fix: printing a frame that can be reached from its own
 slots ends

---
 data.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/data.go b/data.go
index 18152bf..bb5aee7 100644
--- a/data.go
+++ b/data.go
@@ -938,6 +938,11 @@ func escapeQuotes(str string) string {
 }
 
 func String(d *Data) string {
+	return stringWithin(d, nil)
+}
+
+// A frame can be reached from its own slots, e.g. by way of its parents: within itself it is only indicated.
+func stringWithin(d *Data, enclosing []*FrameMap) string {
 	if d == nil {
 		return "()"
 	}
@@ -952,7 +957,7 @@ func String(d *Data) string {
 
 			contents := make([]string, 0, Length(d))
 			for NotNilP(c) && PairP(c) {
-				contents = append(contents, String(Car(c)))
+				contents = append(contents, stringWithin(Car(c), enclosing))
 				c = Cdr(c)
 			}
 			if NilP(c) {
@@ -966,7 +971,7 @@ func String(d *Data) string {
 					return fmt.Sprintf("(%s)", strings.Join(contents, " "))
 				}
 			} else {
-				return fmt.Sprintf("(%s . %s)", strings.Join(contents, " "), String(c))
+				return fmt.Sprintf("(%s . %s)", strings.Join(contents, " "), stringWithin(c, enclosing))
 			}
 		}
 	case AlistType:
@@ -976,12 +981,12 @@ func String(d *Data) string {
 			}
 			contents := make([]string, 0, Length(d))
 			for c := d; NotNilP(c); c = Cdr(c) {
-				contents = append(contents, String(Car(c)))
+				contents = append(contents, stringWithin(Car(c), enclosing))
 			}
 			return fmt.Sprintf("(%s)", strings.Join(contents, " "))
 		}
 	case AlistCellType:
-		return fmt.Sprintf("(%s . %s)", String(Car(d)), String(Cdr(d)))
+		return fmt.Sprintf("(%s . %s)", stringWithin(Car(d), enclosing), stringWithin(Cdr(d), enclosing))
 	case IntegerType:
 		return fmt.Sprintf("%d", IntegerValue(d))
 	case FloatType:
@@ -1031,6 +1036,13 @@ func String(d *Data) string {
 			return fmt.Sprintf("<opaque Go object of type %s : 0x%x>", ObjectType(d), (*uint64)(ObjectValue(d)))
 		}
 	case FrameType:
+		for _, f := range enclosing {
+			if f == FrameValue(d) {
+				return "{...}"
+			}
+		}
+		enclosing = append(enclosing[:len(enclosing):len(enclosing)], FrameValue(d))
+
 		slots := FrameValue(d).slots()
 		keys := make([]string, 0, len(slots))
 		for key, _ := range slots {
@@ -1041,7 +1053,7 @@ func String(d *Data) string {
 		pairs := make([]string, 0, len(slots))
 		for _, key := range keys {
 			val := slots[key]
-			var valString string = String(val)
+			var valString string = stringWithin(val, enclosing)
 			pairs = append(pairs, fmt.Sprintf("%s %s", key, valString))
 		}
 		return fmt.Sprintf("{%s}", strings.Join(pairs, " "))
-- 
2.43.0


From baa8122085fdd543dd8a8c9b91f566f1b73a6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:41 +0000
Subject: [PATCH 21/49] fix: flatten and flatten* keep no trace of empty
 sublists and add no () after a sublist built with cons

---
 data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data.go b/data.go
index bb5aee7..4cf7e57 100644
--- a/data.go
+++ b/data.go
@@ -679,7 +679,7 @@ func Flatten(d *Data) (result *Data, err error) {
 	var l []*Data = make([]*Data, 0, 10)
 	for c := d; NotNilP(c); c = Cdr(c) {
 		if ListP(Car(c)) {
-			for i := Car(c); i != nil; i = Cdr(i) {
+			for i := Car(c); NotNilP(i); i = Cdr(i) {
 				l = append(l, Car(i))
 			}
 		} else {
@@ -707,7 +707,7 @@ func RecursiveFlatten(d *Data) (result *Data, err error) {
 			if err != nil {
 				return
 			}
-			for i := elem; i != nil; i = Cdr(i) {
+			for i := elem; NotNilP(i); i = Cdr(i) {
 				l = append(l, Car(i))
 			}
 		} else {
-- 
2.43.0


From 07d38ca3fb73801684c6f460f0810e4f01caba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:41 +0000
Subject: [PATCH 22/49] fix: extract-bytes reports a count that is out of range
 also when adding it to the index overflows

---
 prim_bytearray.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_bytearray.go b/prim_bytearray.go
index f0f3bad..5ce8f03 100644
--- a/prim_bytearray.go
+++ b/prim_bytearray.go
@@ -262,7 +262,7 @@ func ExtractBytesImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 		err = ProcessError("Number to extract can not be negative.", env)
 		return
 	}
-	if index+numToExtract > len(*dataBytes) {
+	if numToExtract > len(*dataBytes)-index {
 		err = ProcessError(fmt.Sprintf("extract-bytes final index was out of range.  Was %d but bytearray has length of %d.", index+numToExtract-1, len(*dataBytes)), env)
 		return
 	}
-- 
2.43.0


From 960119d9cef43129a410a2c3a7736b85a3f85425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:47 +0000
Subject: [PATCH 23/49] fix: take and drop of a negative number of bytes do not
 panic

---
 prim_list_access.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/prim_list_access.go b/prim_list_access.go
index 8ef0936..87366a0 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -271,6 +271,7 @@ func TakeImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	n := Car(args)
 	if !IntegerP(n) {
 		err = ProcessError("take requires a number as its first argument.", env)
+		return
 	}
 	size := int(IntegerValue(n))
 
@@ -284,6 +285,9 @@ func TakeImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	} else if ObjectP(l) && ObjectType(l) == "[]byte" {
 		dataBytes := (*[]byte)(ObjectValue(l))
 		var bytesToCopy []byte
+		if size < 0 {
+			size = 0
+		}
 		if size >= len(*dataBytes) {
 			bytesToCopy = *dataBytes
 		} else {
@@ -304,6 +308,7 @@ func DropImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	n := Car(args)
 	if !IntegerP(n) {
 		err = ProcessError("drop requires a number as its first argument.", env)
+		return
 	}
 	size := int(IntegerValue(n))
 
@@ -317,6 +322,9 @@ func DropImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		result = cell
 	} else if ObjectP(l) && ObjectType(l) == "[]byte" {
 		dataBytes := (*[]byte)(ObjectValue(l))
+		if size < 0 {
+			size = 0
+		}
 		if size >= len(*dataBytes) {
 			newBytes := make([]byte, 0)
 			result = ObjectWithTypeAndValue("[]byte", unsafe.Pointer(&newBytes))
@@ -352,6 +360,7 @@ func ListHeadImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	n := Cadr(args)
 	if !IntegerP(n) {
 		err = ProcessError("list-head requires a number as its second argument.", env)
+		return
 	}
 	size := int(IntegerValue(n))
 
@@ -372,6 +381,7 @@ func ListTailImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	n := Cadr(args)
 	if !IntegerP(n) {
 		err = ProcessError("list-tail requires a number as its second argument.", env)
+		return
 	}
 	size := int(IntegerValue(n))
 
-- 
2.43.0


From d3c1e0900d744adc0814352e4d0bbf7aadbee179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:34 +0000
Subject: [PATCH 24/49] fix: set-nth! changes nothing for an index below 1 and
 ends for a huge one

---
 list_access.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/list_access.go b/list_access.go
index 9fa2880..6fd2b0b 100644
--- a/list_access.go
+++ b/list_access.go
@@ -136,9 +136,9 @@ func Tenth(d *Data) *Data {
 }
 
 func SetNth(list *Data, index int, value *Data) *Data {
-	for i := index; i > 1; list, i = Cdr(list), i-1 {
+	for i := index; i > 1 && NotNilP(list); list, i = Cdr(list), i-1 {
 	}
-	if mutableCellP(list) {
+	if index >= 1 && mutableCellP(list) {
 		ConsValue(list).Car = value
 	}
 
-- 
2.43.0


From 2322d7876a78e6c4f35e66a1ae5133b28a68f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:58 +0000
Subject: [PATCH 25/49] fix: alist operations report something that is not a
 list of pairs, and pairlis accepts an alist

---
 data.go       |  8 ++++++++
 prim_alist.go | 26 +++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 4cf7e57..354dc35 100644
--- a/data.go
+++ b/data.go
@@ -745,6 +745,10 @@ func QuoteAll(d *Data) (result *Data) {
 }
 
 func Assoc(key *Data, alist *Data) (result *Data, err error) {
+	if !ListP(alist) {
+		err = errors.New("An alist MUST be a list.")
+		return
+	}
 	for c := alist; NotNilP(c); c = Cdr(c) {
 		pair := Car(c)
 		if !DottedPairP(pair) && !PairP(pair) {
@@ -760,6 +764,10 @@ func Assoc(key *Data, alist *Data) (result *Data, err error) {
 }
 
 func Dissoc(key *Data, alist *Data) (result *Data, err error) {
+	if !ListP(alist) {
+		err = errors.New("An alist MUST be a list.")
+		return
+	}
 	var newList *Data = nil
 	for c := alist; NotNilP(c); c = Cdr(c) {
 		pair := Car(c)
diff --git a/prim_alist.go b/prim_alist.go
index d8a8b8d..90af2bd 100644
--- a/prim_alist.go
+++ b/prim_alist.go
@@ -20,8 +20,24 @@ func RegisterAListPrimitives() {
 	MakePrimitiveFunction("alist", "1", AlistImpl)
 }
 
+// checkAlist reports something that is not a list of pairs.
+func checkAlist(l *Data, env *SymbolTableFrame) error {
+	if !ListP(l) {
+		return ProcessError("An alist must be a list", env)
+	}
+	for c := l; NotNilP(c); c = Cdr(c) {
+		if !PairP(Car(c)) && !DottedPairP(Car(c)) {
+			return ProcessError("Assoc list must consist of dotted pairs", env)
+		}
+	}
+	return nil
+}
+
 func AlistImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	l := Car(args)
+	if err = checkAlist(l, env); err != nil {
+		return
+	}
 	result = Alist(l)
 	return
 }
@@ -38,6 +54,9 @@ func AconsImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var alist *Data = nil
 	if Length(args) == 3 {
 		alist = Third(args)
+		if err = checkAlist(alist, env); err != nil {
+			return
+		}
 	}
 
 	return Acons(key, value, alist), nil
@@ -65,7 +84,7 @@ func PairlisImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	result = Third(args)
 
 	if NotNilP(result) {
-		if !PairP(result) {
+		if checkAlist(result, env) != nil {
 			err = ProcessError("Third arg of pairlis must be an association list (if provided)", env)
 			return
 		}
@@ -75,6 +94,7 @@ func PairlisImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		key := Car(keyCell)
 		if NilP(key) {
 			err = ProcessError("Assoc list keys can not be nil", env)
+			return
 		}
 		value := Car(valueCell)
 		result = Acons(key, value, result)
@@ -92,6 +112,10 @@ func AssocImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func RassocImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	value := Car(args)
 	list := Cadr(args)
+	if !ListP(list) {
+		err = ProcessError("An alist must be a list", env)
+		return
+	}
 
 	for c := list; NotNilP(c); c = Cdr(c) {
 		pair := Car(c)
-- 
2.43.0


From b0bb1eb5d505cbdc1accea00b804dd40c0f2d5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:46 +0000
Subject: [PATCH 26/49] fix: equality is symmetric between lists, alists and
 alist pairs, compares dotted tails and ends for frames that refer to each
 other

---
 data.go | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/data.go b/data.go
index 354dc35..892633a 100644
--- a/data.go
+++ b/data.go
@@ -826,7 +826,16 @@ func Copy(d *Data) *Data {
 	return d
 }
 
+type framePair struct {
+	a, b *FrameMap
+}
+
 func IsEqual(d *Data, o *Data) bool {
+	return isEqualWithin(d, o, nil)
+}
+
+// A pair of frames that is reached again while it is being compared adds no difference.
+func isEqualWithin(d *Data, o *Data, comparing []framePair) bool {
 	if d == o && !FloatP(d) {
 		return true
 	}
@@ -835,15 +844,19 @@ func IsEqual(d *Data, o *Data) bool {
 		return true
 	}
 
-	if d == nil || o == nil {
+	if NilP(d) || NilP(o) {
 		return false
 	}
 
+	if AlistP(o) && !AlistP(d) {
+		d, o = o, d
+	}
+
 	if AlistP(d) {
-		if !AlistP(o) && !ListP(o) {
+		if !ListP(o) {
 			return false
 		}
-	} else if DottedPairP(d) {
+	} else if PairP(d) || DottedPairP(d) {
 		if !PairP(o) && !DottedPairP(o) {
 			return false
 		}
@@ -857,30 +870,31 @@ func IsEqual(d *Data, o *Data) bool {
 		}
 		for c := d; NotNilP(c); c = Cdr(c) {
 			otherPair, err := Assoc(Caar(c), o)
-			if err != nil || NilP(otherPair) || !IsEqual(Cdar(c), Cdr(otherPair)) {
+			if err != nil || NilP(otherPair) || !isEqualWithin(Cdar(c), Cdr(otherPair), comparing) {
 				return false
 			}
 		}
 		return true
 	}
 
-	if DottedPairP(d) {
-		return IsEqual(Car(d), Car(o)) && IsEqual(Cdr(d), Cdr(o))
-	}
-
-	if ListP(d) {
-		if Length(d) != Length(o) {
-			return false
-		}
-		for a1, a2 := d, o; NotNilP(a1); a1, a2 = Cdr(a1), Cdr(a2) {
-			if !IsEqual(Car(a1), Car(a2)) {
+	if PairP(d) || DottedPairP(d) {
+		a1, a2 := d, o
+		for NotNilP(a1) && NotNilP(a2) && (PairP(a1) || DottedPairP(a1)) && (PairP(a2) || DottedPairP(a2)) {
+			if !isEqualWithin(Car(a1), Car(a2), comparing) {
 				return false
 			}
+			a1, a2 = Cdr(a1), Cdr(a2)
 		}
-		return true
+		return isEqualWithin(a1, a2, comparing)
 	}
 
 	if FrameP(d) {
+		for _, p := range comparing {
+			if p.a == FrameValue(d) && p.b == FrameValue(o) {
+				return true
+			}
+		}
+		comparing = append(comparing[:len(comparing):len(comparing)], framePair{FrameValue(d), FrameValue(o)})
 		slotsD := FrameValue(d).slots()
 		slotsO := FrameValue(o).slots()
 		if len(slotsD) != len(slotsO) {
@@ -888,7 +902,7 @@ func IsEqual(d *Data, o *Data) bool {
 		}
 		for k, v := range slotsD {
 			other, found := slotsO[k]
-			if !found || !IsEqual(v, other) {
+			if !found || !isEqualWithin(v, other, comparing) {
 				return false
 			}
 		}
-- 
2.43.0


From cbf72b281e84e67291bac24b000b172fcc733d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:40 +0000
Subject: [PATCH 27/49] fix: copy of frames that refer to each other ends and
 keeps their references among the copies

---
 data.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/data.go b/data.go
index 892633a..92486d0 100644
--- a/data.go
+++ b/data.go
@@ -783,6 +783,11 @@ func Dissoc(key *Data, alist *Data) (result *Data, err error) {
 }
 
 func Copy(d *Data) *Data {
+	return copyWith(d, make(map[*FrameMap]*Data))
+}
+
+// Frames can refer to each other: each one is copied once.
+func copyWith(d *Data, copies map[*FrameMap]*Data) *Data {
 	if d == nil {
 		return d
 	}
@@ -790,9 +795,9 @@ func Copy(d *Data) *Data {
 	switch d.Type {
 	case AlistType:
 		{
-			alist := Acons(Copy(Caar(d)), Copy(Cdar(d)), nil)
+			alist := Acons(copyWith(Caar(d), copies), copyWith(Cdar(d), copies), nil)
 			for c := Cdr(d); NotNilP(c); c = Cdr(c) {
-				alist = Acons(Copy(Caar(c)), Copy(Cdar(c)), alist)
+				alist = Acons(copyWith(Caar(c), copies), copyWith(Cdar(c), copies), alist)
 			}
 			return alist
 		}
@@ -802,16 +807,21 @@ func Copy(d *Data) *Data {
 				return d
 			}
 
-			return Cons(Copy(Car(d)), Copy(Cdr(d)))
+			return Cons(copyWith(Car(d), copies), copyWith(Cdr(d), copies))
 		}
 	case FrameType:
 		{
+			if c, found := copies[FrameValue(d)]; found {
+				return c
+			}
 			m := FrameMap{}
 			m.Data = make(FrameMapData)
+			result := FrameWithValue(&m)
+			copies[FrameValue(d)] = result
 			for k, v := range FrameValue(d).slots() {
-				m.Data[k] = Copy(v)
+				m.Data[k] = copyWith(v, copies)
 			}
-			return FrameWithValue(&m)
+			return result
 		}
 	case BoxedObjectType:
 		{
-- 
2.43.0


From df0bd9d749c9e9292448dd6afc9cd933c3baa4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:00 +0000
Subject: [PATCH 28/49] fix: printed backslashes, floats beyond six digits of
 exponent and lists starting with quote read back equal

---
 data.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/data.go b/data.go
index 92486d0..d5deb23 100644
--- a/data.go
+++ b/data.go
@@ -13,6 +13,7 @@ import (
 	"math"
 	"os"
 	"sort"
+	"strconv"
 	"strings"
 	"sync/atomic"
 	"unsafe"
@@ -961,7 +962,7 @@ func isEqualWithin(d *Data, o *Data, comparing []framePair) bool {
 func escapeQuotes(str string) string {
 	buffer := make([]rune, 0, 10)
 	for _, ch := range str {
-		if rune(ch) == '"' {
+		if rune(ch) == '"' || rune(ch) == '\\' {
 			buffer = append(buffer, '\\')
 		}
 		buffer = append(buffer, rune(ch))
@@ -993,7 +994,7 @@ func stringWithin(d *Data, enclosing []*FrameMap) string {
 				c = Cdr(c)
 			}
 			if NilP(c) {
-				if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" {
+				if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" && len(contents) <= 2 {
 					if len(contents) == 1 {
 						return fmt.Sprintf("'()")
 					} else {
@@ -1034,7 +1035,7 @@ func stringWithin(d *Data, enclosing []*FrameMap) string {
 			if math.IsNaN(float64(v)) {
 				return "nan"
 			}
-			raw := fmt.Sprintf("%g", FloatValue(d))
+			raw := strconv.FormatFloat(float64(v), 'f', -1, 32)
 			if strings.ContainsRune(raw, '.') {
 				return raw
 			}
-- 
2.43.0


From c13b55b0ca3fca81db2385a8a24ddcc1e40406ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:11 +0000
Subject: [PATCH 29/49] fix: the reader reports closing brackets of the wrong
 kind, missing data, unterminated strings and negative bytes, and reads a dot
 before any whitespace

---
 parser.go    | 49 +++++++++++++++++++++++++------------------------
 tokenizer.go |  4 ++--
 2 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/parser.go b/parser.go
index 174d45d..2b15d31 100644
--- a/parser.go
+++ b/parser.go
@@ -76,7 +76,7 @@ func parseConsCell(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	for tok != RPAREN {
 		if tok == PERIOD {
 			s.ConsumeToken()
-			cdr, eof, err = parseExpression(s)
+			cdr, eof, err = parseInnerExpression(s)
 			if eof || err != nil {
 				return
 			}
@@ -137,15 +137,11 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	var element *Data
 	cells := make([]*Data, 0, 10)
 	for tok != RBRACKET {
-		element, eof, err = parseExpression(s)
-		if eof {
-			err = errors.New("Unexpected EOF (expected closing bracket)")
-			return
-		}
+		element, eof, err = parseInnerExpression(s)
 		if err != nil {
 			return
 		}
-		if IntegerP(element) && IntegerValue(element) > 255 {
+		if IntegerP(element) && (IntegerValue(element) < 0 || IntegerValue(element) > 255) {
 			err = errors.New(fmt.Sprintf("Numeric literals in a bytearray must be bytes. Encountered %s.", String(element)))
 			return
 		}
@@ -168,22 +164,11 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 
 func parseFrame(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	tok, _ := s.NextToken()
-	if tok == RBRACKET {
-		s.ConsumeToken()
-		f := FrameMap{}
-		f.Data = make(FrameMapData)
-		sexpr = FrameWithValue(&f)
-		return
-	}
 
 	var element *Data
 	cells := make([]*Data, 0, 10)
 	for tok != RBRACE {
-		element, eof, err = parseExpression(s)
-		if eof {
-			err = errors.New("Unexpected EOF (expected closing brace)")
-			return
-		}
+		element, eof, err = parseInnerExpression(s)
 		if err != nil {
 			return
 		}
@@ -196,6 +181,19 @@ func parseFrame(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	return
 }
 
+// An expression that has to be there: after a prefix or a dot, or in a bytearray or frame.
+func parseInnerExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
+	if tok, _ := s.NextToken(); tok == RPAREN {
+		err = errors.New("Unexpected ')'")
+		return
+	}
+	sexpr, eof, err = parseExpression(s)
+	if eof && err == nil {
+		err = errors.New("Unexpected EOF")
+	}
+	return
+}
+
 func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	for {
 		tok, lit := s.NextToken()
@@ -253,28 +251,28 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 			return
 		case QUOTE:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
+			sexpr, eof, err = parseInnerExpression(s)
 			if sexpr != nil {
 				sexpr = Cons(Intern("quote"), Cons(sexpr, nil))
 			}
 			return
 		case BACKQUOTE:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
+			sexpr, eof, err = parseInnerExpression(s)
 			if sexpr != nil {
 				sexpr = Cons(Intern("quasiquote"), Cons(sexpr, nil))
 			}
 			return
 		case COMMA:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
+			sexpr, eof, err = parseInnerExpression(s)
 			if sexpr != nil {
 				sexpr = Cons(Intern("unquote"), Cons(sexpr, nil))
 			}
 			return
 		case COMMAAT:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
+			sexpr, eof, err = parseInnerExpression(s)
 			if sexpr != nil {
 				sexpr = Cons(Intern("unquote-splicing"), Cons(sexpr, nil))
 			}
@@ -282,10 +280,13 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		case ILLEGAL:
 			err = errors.New(fmt.Sprintf("Illegal character: %s", lit))
 			return
-		default:
+		case RPAREN:
 			s.ConsumeToken()
 			sexpr, err = makeSymbol(lit)
 			return
+		default:
+			err = errors.New(fmt.Sprintf("Unexpected '%s'", lit))
+			return
 		}
 	}
 }
diff --git a/tokenizer.go b/tokenizer.go
index 0b3cf9f..8f4583f 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -210,7 +210,7 @@ func (self *Tokenizer) readString() (token int, lit string) {
 		self.Advance()
 	}
 	if self.isEof() {
-		return EOF, ""
+		return ILLEGAL, "unterminated string"
 	}
 	self.Advance()
 	return STRING, string(buffer)
@@ -276,7 +276,7 @@ func (self *Tokenizer) readNextToken() (token int, lit string) {
 	} else if self.CurrentCh == '}' {
 		self.Advance()
 		return RBRACE, "}"
-	} else if self.CurrentCh == '.' && self.NextCh == ' ' {
+	} else if self.CurrentCh == '.' && unicode.IsSpace(self.NextCh) {
 		self.Advance()
 		return PERIOD, "."
 	} else if self.isSymbolCharacter(self.CurrentCh) {
-- 
2.43.0


From f176594e35b11f25280944772ec5e96c83ab35fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:17 +0000
Subject: [PATCH 30/49] fix: evaluating a file or text goes on after a top
 level ()

---
 parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser.go b/parser.go
index 2b15d31..6470b07 100644
--- a/parser.go
+++ b/parser.go
@@ -354,9 +354,6 @@ func ParseAndEvalAllInEnvironment(src string, env *SymbolTableFrame) (result *Da
 		if eof {
 			return
 		}
-		if NilP(sexpr) {
-			return
-		}
 		result, err = Eval(sexpr, env)
 		if err != nil {
 			return
-- 
2.43.0


From 071523d81d96f8a807c6d188496a094413ac25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 31/49] fix: arithmetic reports a non-number after a float and
 a zero modulus, and compares and negates big integers exactly

---
 prim_math.go             | 18 +++++++++++++-----
 prim_relative_logical.go | 28 ++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 9438e10..56f2abd 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -168,10 +168,10 @@ func anyFloats(args *Data, env *SymbolTableFrame) (result bool, err error) {
 			return
 		}
 		if FloatP(Car(c)) {
-			return true, nil
+			result = true
 		}
 	}
-	return false, nil
+	return
 }
 
 func AddImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -295,6 +295,11 @@ func RemainderImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	if IntegerValue(divisor) == 0 {
+		err = ProcessError(fmt.Sprintf("%%/modulo: %s -> Divide by zero.", String(args)), env)
+		return
+	}
+
 	val := IntegerValue(dividend) % IntegerValue(divisor)
 	return IntegerWithValue(val), nil
 }
@@ -596,11 +601,14 @@ func AbsImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		err = ProcessError(fmt.Sprintf("abs expected a number, received %s", String(Car(args))), env)
 		return
 	}
-	absval := math.Abs(float64(FloatValue(val)))
 	if IntegerP(val) {
-		result = IntegerWithValue(int64(absval))
+		n := IntegerValue(val)
+		if n < 0 {
+			n = -n
+		}
+		result = IntegerWithValue(n)
 	} else {
-		result = FloatWithValue(float32(absval))
+		result = FloatWithValue(float32(math.Abs(float64(FloatValue(val)))))
 	}
 	return
 }
diff --git a/prim_relative_logical.go b/prim_relative_logical.go
index 9075e56..3372d5f 100644
--- a/prim_relative_logical.go
+++ b/prim_relative_logical.go
@@ -41,7 +41,12 @@ func LessThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	val := FloatValue(arg1) < FloatValue(arg2)
+	var val bool
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) < IntegerValue(arg2)
+	} else {
+		val = FloatValue(arg1) < FloatValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
@@ -58,7 +63,12 @@ func GreaterThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error
 		return
 	}
 
-	val := FloatValue(arg1) > FloatValue(arg2)
+	var val bool
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) > IntegerValue(arg2)
+	} else {
+		val = FloatValue(arg1) > FloatValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
@@ -87,7 +97,12 @@ func LessThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data, err
 		return
 	}
 
-	val := FloatValue(arg1) <= FloatValue(arg2)
+	var val bool
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) <= IntegerValue(arg2)
+	} else {
+		val = FloatValue(arg1) <= FloatValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
@@ -104,7 +119,12 @@ func GreaterThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data,
 		return
 	}
 
-	val := FloatValue(arg1) >= FloatValue(arg2)
+	var val bool
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) >= IntegerValue(arg2)
+	} else {
+		val = FloatValue(arg1) >= FloatValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
-- 
2.43.0


From a693d72a4d75e115596dcc83b5c0a308a3c4924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:07 +0000
Subject: [PATCH 32/49] fix: interval ends at the largest integers and reports
 bounds that are not integers

---
 prim_math.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 56f2abd..8b818d5 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -317,6 +317,10 @@ func IntervalImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var end int64
 
 	startObj := Car(args)
+	if !IntegerP(startObj) {
+		err = ProcessError(fmt.Sprintf("interval bounds must be integers, received %s", String(startObj)), env)
+		return
+	}
 	start := IntegerValue(startObj)
 
 	if Length(args) == 1 {
@@ -327,6 +331,10 @@ func IntervalImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	} else {
 
 		endObj := Cadr(args)
+		if !IntegerP(endObj) {
+			err = ProcessError(fmt.Sprintf("interval bounds must be integers, received %s", String(endObj)), env)
+			return
+		}
 		end = IntegerValue(endObj)
 
 		if start > end {
@@ -346,14 +354,18 @@ func IntervalImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			step = direction
 		}
 	}
-	var items []*Data = make([]*Data, 0, int(math.Abs(float64(end-start)))+1)
+	var items []*Data
 
 	if direction == 1 {
-		for i := start; i <= end; i = i + step {
-			items = append(items, IntegerWithValue(i))
+		if start <= end {
+			count := (uint64(end)-uint64(start))/uint64(step) + 1
+			for i := start; count > 0; i, count = i+step, count-1 {
+				items = append(items, IntegerWithValue(i))
+			}
 		}
 	} else {
-		for i := start; i >= end; i = i + step {
+		count := (uint64(start)-uint64(end))/-uint64(step) + 1
+		for i := start; count > 0; i, count = i+step, count-1 {
 			items = append(items, IntegerWithValue(i))
 		}
 	}
-- 
2.43.0


From e9e47c6e70a72c4bb6d108a00ac642ecec710a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:09 +0000
Subject: [PATCH 33/49] fix: json->lisp reports badly formed json and accepts
 null

---
 json_frame_support.go | 2 +-
 prim_frame.go         | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index d9d1590..e0bbb0d 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -193,7 +193,7 @@ func JsonStringToLispWithFrames(jsonData string) (result *Data) {
 		m.Data = make(FrameMapData, 0)
 		return FrameWithValue(&m)
 	}
-	return jsonToLispWithFramesReflect(reflect.ValueOf(data))
+	return JsonToLispWithFrames(data)
 }
 
 func LispWithFramesToJson(d *Data) (result interface{}) {
diff --git a/prim_frame.go b/prim_frame.go
index 4c05a50..b479585 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -8,6 +8,7 @@
 package golisp
 
 import (
+	"encoding/json"
 	"fmt"
 
 	"github.com/SteelSeries/set.v0"
@@ -340,6 +341,11 @@ func JsonToLispImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	if !json.Valid([]byte(StringValue(j))) {
+		err = ProcessError(fmt.Sprintf("json->lisp was given badly formed json: %s.", String(j)), env)
+		return
+	}
+
 	return JsonStringToLispWithFrames(StringValue(j)), nil
 }
 
-- 
2.43.0


From 96cdcfb7f3791d54c19a37887b32bc6cf8b42612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 34/49] x

---
 json_frame_support.go | 10 +++++-----
 json_support.go       | 16 ++++++++++++----
 prim_frame.go         |  5 +++--
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index e0bbb0d..40f95f4 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -145,13 +145,13 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 		if rv.Len() == 0 {
 			return &Data{Type: ConsCellType, Value: nil}
 		} else {
-			var ary *Data
+			ary := make([]*Data, 0, rv.Len())
 			for i := 0; i < rv.Len(); i++ {
 				val := rv.Index(i)
 				value := jsonToLispWithFramesReflect(val)
-				ary = Cons(value, ary)
+				ary = append(ary, value)
 			}
-			return Reverse(ary)
+			return ArrayToList(ary)
 		}
 	case reflect.Struct:
 		return jsonToLispWithFramesStruct(rv)
@@ -161,7 +161,7 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 		return IntegerWithValue(int64(rv.Uint()))
 	case reflect.Float32, reflect.Float64:
 		floatValue := rv.Float()
-		if math.Trunc(floatValue) == floatValue {
+		if math.Trunc(floatValue) == floatValue && math.Abs(floatValue) < 1<<63 {
 			return IntegerWithValue(int64(floatValue))
 		} else {
 			return FloatWithValue(float32(floatValue))
@@ -237,7 +237,7 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 		dict := make(map[string]interface{}, Length(d))
 		for k, v := range FrameValue(d).slots() {
 			if !FunctionP(v) {
-				dict[strings.TrimRight(k, ":")] = LispWithFramesToJson(v)
+				dict[strings.TrimSuffix(k, ":")] = LispWithFramesToJson(v)
 			}
 		}
 		return dict
diff --git a/json_support.go b/json_support.go
index 06d837d..8ccefe8 100644
--- a/json_support.go
+++ b/json_support.go
@@ -27,17 +27,17 @@ func JsonToLisp(json interface{}) (result *Data) {
 
 	arrayValue, ok := json.([]interface{})
 	if ok {
-		var ary *Data
+		ary := make([]*Data, 0, len(arrayValue))
 		for _, val := range arrayValue {
 			value := JsonToLisp(val)
-			ary = Cons(value, ary)
+			ary = append(ary, value)
 		}
-		return Reverse(ary)
+		return ArrayToList(ary)
 	}
 
 	numValue, ok := json.(float64)
 	if ok {
-		if math.Trunc(numValue) == numValue {
+		if math.Trunc(numValue) == numValue && math.Abs(numValue) < 1<<63 {
 			return IntegerWithValue(int64(numValue))
 		} else {
 			return FloatWithValue(float32(numValue))
@@ -76,6 +76,14 @@ func LispToJson(d *Data) (result interface{}) {
 		return IntegerValue(d)
 	}
 
+	if FloatP(d) {
+		return FloatValue(d)
+	}
+
+	if BooleanP(d) {
+		return BooleanValue(d)
+	}
+
 	if StringP(d) || SymbolP(d) {
 		return StringValue(d)
 	}
diff --git a/prim_frame.go b/prim_frame.go
index b479585..3d31a1b 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -341,12 +341,13 @@ func JsonToLispImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	if !json.Valid([]byte(StringValue(j))) {
+	var parsed interface{}
+	if json.Unmarshal([]byte(StringValue(j)), &parsed) != nil {
 		err = ProcessError(fmt.Sprintf("json->lisp was given badly formed json: %s.", String(j)), env)
 		return
 	}
 
-	return JsonStringToLispWithFrames(StringValue(j)), nil
+	return JsonToLispWithFrames(parsed), nil
 }
 
 func LispToJsonImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-- 
2.43.0


From 59b7f18543746f699a2bbd62e06536e0e2d94113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 35/49] fix: format reports an incomplete substitution and
 missing arguments, and @ applies to its own substitution only

---
 prim_io.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/prim_io.go b/prim_io.go
index b2c919b..3f3817c 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -227,11 +227,14 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			parts = append(parts, controlString[start:i])
 			i++
 			start = i
-			for unicode.IsDigit(rune(controlString[i])) {
+			atModifier = false
+			for i < len(controlString) && unicode.IsDigit(rune(controlString[i])) {
 				i++
 			}
 			if i == start {
-				if controlString[i] == '#' {
+				if i == len(controlString) {
+					numericArg = 0
+				} else if controlString[i] == '#' {
 					numericArg = Length(arguments)
 					i++
 				} else if controlString[i] == 'V' || controlString[i] == 'v' {
@@ -253,12 +256,20 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				numericArg = int(n)
 			}
-			if controlString[i] == '@' {
+			if i < len(controlString) && controlString[i] == '@' {
 				atModifier = true
 				i++
 			}
+			if i == len(controlString) {
+				err = ProcessError("format encountered an incomplete substitution at the end of the control string", env)
+				return
+			}
 			switch controlString[i] {
 			case 'A', 'a':
+				if arguments == nil {
+					err = ProcessError("number of replacements in the control string and number of arguments must be equal", env)
+					return
+				}
 				substitution = PrintString(Car(arguments))
 				if len(substitution) < numericArg {
 					padding = strings.Repeat(" ", numericArg-len(substitution))
@@ -276,6 +287,10 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				start = i + 1
 
 			case 'S', 's':
+				if arguments == nil {
+					err = ProcessError("number of replacements in the control string and number of arguments must be equal", env)
+					return
+				}
 				substitution = String(Car(arguments))
 				if len(substitution) < numericArg {
 					padding = strings.Repeat(" ", numericArg-len(substitution))
-- 
2.43.0


From 772e1353ead4731d6938e0a2b81ad9b35b517073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 36/49] fix: string-capitalize of an empty or non-ASCII string,
 substring from a negative index and general-car-cdr of a negative path

---
 prim_list_access.go |  4 ++--
 prim_string.go      | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/prim_list_access.go b/prim_list_access.go
index 87366a0..b617fd9 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -196,8 +196,8 @@ func CddddrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func GeneralCarCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	list := Car(args)
 	path := IntegerValue(Cadr(args))
-	if path == 0 {
-		err = errors.New("general-car-cdr requires a non-zero path specifier")
+	if path <= 0 {
+		err = errors.New("general-car-cdr requires a positive path specifier")
 		return
 	}
 	for path != 1 {
diff --git a/prim_string.go b/prim_string.go
index 0e9fd84..f10298b 100644
--- a/prim_string.go
+++ b/prim_string.go
@@ -10,6 +10,7 @@ package golisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 const (
@@ -183,8 +184,12 @@ func StringDowncaseBangImpl(args *Data, env *SymbolTableFrame) (result *Data, er
 }
 
 func capitalize(s string) string {
-	firstChar := s[0:1]
-	remainingChars := s[1:]
+	if s == "" {
+		return s
+	}
+	_, size := utf8.DecodeRuneInString(s)
+	firstChar := s[:size]
+	remainingChars := s[size:]
 	parts := make([]string, 0, 2)
 	parts = append(parts, strings.ToUpper(firstChar))
 	parts = append(parts, strings.ToLower(remainingChars))
@@ -245,8 +250,8 @@ func SubstringImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 	startValue := int(IntegerValue(startObj))
-	if startValue > len(stringValue) {
-		err = ProcessError(fmt.Sprintf("substring requires start < length of the string."), env)
+	if startValue < 0 || startValue > len(stringValue) {
+		err = ProcessError(fmt.Sprintf("substring requires 0 <= start <= length of the string."), env)
 		return
 	}
 
-- 
2.43.0


From eaa205ec1f1db1dcdd69cac8b07335bd82a276d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 37/49] fix: each port keeps its own read-ahead, reads of one
 port by several processes are exclusive and a closed port cannot be read

---
 data.go      | 12 ++++++++++--
 parser.go    | 17 ++++++++++++++---
 prim_io.go   | 17 +++++------------
 tokenizer.go | 12 +-----------
 4 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/data.go b/data.go
index d5deb23..b7fa559 100644
--- a/data.go
+++ b/data.go
@@ -15,6 +15,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"unsafe"
 
@@ -407,8 +408,15 @@ func EnvironmentWithValue(e *SymbolTableFrame) *Data {
 	return &Data{Type: EnvironmentType, Value: unsafe.Pointer(e)}
 }
 
+// Port is an open file along with what has been read ahead from it
+type Port struct {
+	File      *os.File
+	Mutex     sync.Mutex
+	Tokenizer *Tokenizer
+}
+
 func PortWithValue(e *os.File) *Data {
-	return &Data{Type: PortType, Value: unsafe.Pointer(e)}
+	return &Data{Type: PortType, Value: unsafe.Pointer(&Port{File: e})}
 }
 
 func ConsValue(d *Data) *ConsCell {
@@ -615,7 +623,7 @@ func PortValue(d *Data) *os.File {
 	}
 
 	if PortP(d) {
-		return (*os.File)(d.Value)
+		return (*Port)(d.Value).File
 	}
 
 	return nil
diff --git a/parser.go b/parser.go
index 6470b07..9d49ee5 100644
--- a/parser.go
+++ b/parser.go
@@ -11,7 +11,6 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
-	"os"
 	"unsafe"
 )
 
@@ -377,8 +376,20 @@ func ParseAndEvalInEnvironment(src string, env *SymbolTableFrame) (result *Data,
 	return
 }
 
-func ParseObjectFromFileInEnv(port *os.File, env *SymbolTableFrame) (result *Data, err error) {
-	result, eof, err := parseExpression(NewTokenizerFromFile(port))
+func ParseObjectFromPortInEnv(port *Port, env *SymbolTableFrame) (result *Data, err error) {
+	port.Mutex.Lock()
+	defer port.Mutex.Unlock()
+
+	// what was read ahead isn't available once the port is closed
+	if _, err = port.File.Stat(); err != nil {
+		return
+	}
+
+	if port.Tokenizer == nil {
+		port.Tokenizer = NewTokenizerFromFile(port.File)
+	}
+
+	result, eof, err := parseExpression(port.Tokenizer)
 	if err != nil {
 		return
 	}
diff --git a/prim_io.go b/prim_io.go
index 3f3817c..3ff63d2 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -155,20 +155,13 @@ func NewlineImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 }
 
 func ReadImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-	var port *os.File
-
-	if Length(args) == 0 {
-		port = os.Stdin
-	} else {
-		p := Car(args)
-		if !PortP(p) {
-			err = ProcessError("read expects its argument be a port", env)
-			return
-		}
-		port = PortValue(p)
+	p := Car(args)
+	if !PortP(p) {
+		err = ProcessError("read expects its argument be a port", env)
+		return
 	}
 
-	result, err = ParseObjectFromFileInEnv(port, env)
+	result, err = ParseObjectFromPortInEnv((*Port)(p.Value), env)
 	return
 }
 
diff --git a/tokenizer.go b/tokenizer.go
index 8f4583f..a6e47bf 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -51,9 +51,6 @@ type Tokenizer struct {
 	AlmostEof      bool
 }
 
-var mostRecentFileTokenizer *Tokenizer
-var mostRecentlyUsedFile *os.File
-
 func NewTokenizer(scanner *bufrr.Reader) *Tokenizer {
 	t := &Tokenizer{Source: scanner}
 	t.Advance()
@@ -66,14 +63,7 @@ func NewTokenizerFromString(src string) *Tokenizer {
 }
 
 func NewTokenizerFromFile(src *os.File) *Tokenizer {
-	if mostRecentlyUsedFile == src {
-		return mostRecentFileTokenizer
-	} else {
-		t := NewTokenizer(bufrr.NewReader(src))
-		mostRecentFileTokenizer = t
-		mostRecentlyUsedFile = src
-		return t
-	}
+	return NewTokenizer(bufrr.NewReader(src))
 }
 
 func (self *Tokenizer) Advance() {
-- 
2.43.0


From d49df3c789f76ef383237307422f67a575593617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 38/49] fix: an abandoned or reset scheduled process could
 still run when its timer went off, and a wake could be missed

---
 prim_concurrency.go | 103 +++++++++++++++++++++++++++++---------------
 1 file changed, 68 insertions(+), 35 deletions(-)

diff --git a/prim_concurrency.go b/prim_concurrency.go
index f85da1e..7af6fbd 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 	"runtime"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 	"unsafe"
@@ -22,11 +23,47 @@ type Process struct {
 	Env           *SymbolTableFrame
 	Code          *Data
 	Wake          chan empty
-	Abort         chan empty
-	Restart       chan empty
 	ReturnValue   chan *Data
 	Joined        int32
 	ScheduleTimer *time.Timer
+
+	// guards the following, and the timer
+	scheduleMutex    sync.Mutex
+	schedulePending  bool
+	scheduleDelay    time.Duration
+	scheduleDeadline time.Time
+}
+
+// startScheduled decides, when the timer has gone off, whether it is for the process to run now. It isn't when the process
+// has been abandoned, or its timer has been reset, in the meantime.
+func (self *Process) startScheduled() bool {
+	self.scheduleMutex.Lock()
+	defer self.scheduleMutex.Unlock()
+	if !self.schedulePending || time.Now().Before(self.scheduleDeadline) {
+		return false
+	}
+	self.schedulePending = false
+	return true
+}
+
+func (self *Process) abandonScheduled() {
+	self.scheduleMutex.Lock()
+	defer self.scheduleMutex.Unlock()
+	if self.schedulePending {
+		self.schedulePending = false
+		self.ScheduleTimer.Stop()
+		self.ReturnValue <- nil
+	}
+}
+
+func (self *Process) resetScheduled() bool {
+	self.scheduleMutex.Lock()
+	defer self.scheduleMutex.Unlock()
+	if self.schedulePending {
+		self.scheduleDeadline = time.Now().Add(self.scheduleDelay)
+		self.ScheduleTimer.Reset(self.scheduleDelay)
+	}
+	return self.schedulePending
 }
 
 func RegisterConcurrencyPrimitives() {
@@ -71,8 +108,6 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		Env:         env,
 		Code:        f,
 		Wake:        make(chan empty, 1),
-		Abort:       make(chan empty, 1),
-		Restart:     make(chan empty, 1),
 		ReturnValue: make(chan *Data, 1)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
@@ -117,6 +152,12 @@ func ProcSleepImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	case <-proc.Wake:
 		woken = true
 	case <-time.After(time.Duration(IntegerValue(millis)) * time.Millisecond):
+		// woken just as the time was up
+		select {
+		case <-proc.Wake:
+			woken = true
+		default:
+		}
 	}
 
 	return BooleanWithValue(woken), nil
@@ -164,42 +205,38 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		}
 	}
 
+	delay := time.Duration(IntegerValue(millis)) * time.Millisecond
 	proc := &Process{
-		Env:           env,
-		Code:          f,
-		Wake:          make(chan empty, 1),
-		Abort:         make(chan empty, 1),
-		Restart:       make(chan empty, 1),
-		ReturnValue:   make(chan *Data, 1),
-		ScheduleTimer: time.NewTimer(time.Duration(IntegerValue(millis)) * time.Millisecond)}
+		Env:              env,
+		Code:             f,
+		Wake:             make(chan empty, 1),
+		ReturnValue:      make(chan *Data, 1),
+		schedulePending:  true,
+		scheduleDelay:    delay,
+		scheduleDeadline: time.Now().Add(delay)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
 	function = function.forProcess(proc)
 
-	go func() {
+	proc.scheduleMutex.Lock()
+	defer proc.scheduleMutex.Unlock()
+	proc.ScheduleTimer = time.AfterFunc(delay, func() {
+		if !proc.startScheduled() {
+			return
+		}
+
 		var returnValue *Data
 		defer func() {
 			proc.ReturnValue <- returnValue
 		}()
 		callWithPanicProtection(func() {
-		Loop:
-			for {
-				select {
-				case <-proc.Abort:
-					break Loop
-				case <-proc.Restart:
-					proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
-				case <-proc.ScheduleTimer.C:
-					var forkedErr error
-					returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cddr(args)), env)
-					if forkedErr != nil {
-						fmt.Println(forkedErr)
-					}
-					break Loop
-				}
+			var forkedErr error
+			returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cddr(args)), env)
+			if forkedErr != nil {
+				fmt.Println(forkedErr)
 			}
 		}, "schedule")
-	}()
+	})
 
 	return procObj, nil
 
@@ -219,10 +256,7 @@ func AbandonImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return nil, ProcessError("tried to adandon a Process that isn't scheduled", env)
 	}
 
-	select {
-	case proc.Abort <- empty{}:
-	default:
-	}
+	proc.abandonScheduled()
 	return StringWithValue("OK"), nil
 }
 
@@ -241,10 +275,9 @@ func ResetTimeoutImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 	}
 
 	var str string
-	select {
-	case proc.Restart <- empty{}:
+	if proc.resetScheduled() {
 		str = "OK"
-	default:
+	} else {
 		str = "task was already completed or abandoned"
 	}
 	return StringWithValue(str), nil
-- 
2.43.0


From f4c17c480ef506e08ed7e40c5d562bb76a485622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 39/49] fix: whether a function runs in the caller's frame
 depended on lookups of that function by other processes

---
 data.go                   | 21 ++++++++++++++++-----
 function.go               | 14 +++++++++-----
 prim_concurrency.go       |  4 ++--
 prim_list_manipulation.go |  2 +-
 prim_system.go            |  4 ++--
 symbol_table_frame.go     | 14 +++-----------
 6 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/data.go b/data.go
index b7fa559..0fb1107 100644
--- a/data.go
+++ b/data.go
@@ -16,7 +16,6 @@ import (
 	"strconv"
 	"strings"
 	"sync"
-	"sync/atomic"
 	"unsafe"
 
 	"github.com/SteelSeries/set.v0"
@@ -54,6 +53,9 @@ type BoxedObject struct {
 type Data struct {
 	Type  uint8
 	Value unsafe.Pointer
+
+	// whether a function was looked up as one that runs in the frame it is called in
+	slotFunction bool
 }
 
 // Boolean constants
@@ -557,6 +559,15 @@ func MacroValue(d *Data) *Macro {
 	return nil
 }
 
+// asSlotFunction is how a function is seen by the code that has looked it up. The function itself is left alone,
+// as other processes may be looking it up differently at the same time.
+func asSlotFunction(d *Data, slotFunction bool) *Data {
+	if !FunctionP(d) || d.slotFunction == slotFunction {
+		return d
+	}
+	return &Data{Type: d.Type, Value: d.Value, slotFunction: slotFunction}
+}
+
 func PrimitiveValue(d *Data) *PrimitiveFunction {
 	if d == nil {
 		return nil
@@ -1274,10 +1285,10 @@ func Apply(function *Data, args *Data, env *SymbolTableFrame) (result *Data, err
 	}
 	switch function.Type {
 	case FunctionType:
-		if atomic.LoadInt32(&FunctionValue(function).SlotFunction) == 1 && env.HasFrame() {
+		if function.slotFunction && env.HasFrame() {
 			result, err = FunctionValue(function).ApplyWithFrame(args, env, env.Frame)
 		} else {
-			result, err = FunctionValue(function).Apply(args, env)
+			result, err = FunctionValue(function).applyAs(function.slotFunction, args, env, nil, nil, true)
 		}
 	case MacroType:
 		result, err = MacroValue(function).Apply(args, env)
@@ -1298,10 +1309,10 @@ func ApplyWithoutEval(function *Data, args *Data, env *SymbolTableFrame) (result
 	}
 	switch function.Type {
 	case FunctionType:
-		if atomic.LoadInt32(&FunctionValue(function).SlotFunction) == 1 && env.HasFrame() {
+		if function.slotFunction && env.HasFrame() {
 			result, err = FunctionValue(function).ApplyWithoutEvalWithFrame(args, env, env.Frame)
 		} else {
-			result, err = FunctionValue(function).ApplyWithoutEval(args, env)
+			result, err = FunctionValue(function).applyAs(function.slotFunction, args, env, nil, nil, false)
 		}
 		//		result, err = FunctionValue(function).ApplyWithoutEval(args, env)
 	case MacroType:
diff --git a/function.go b/function.go
index 975acee..479ae28 100644
--- a/function.go
+++ b/function.go
@@ -22,7 +22,7 @@ type Function struct {
 	Body             *Data
 	Env              *SymbolTableFrame
 	DebugOnEntry     bool
-	SlotFunction     int32
+	SlotFunction     bool
 	ParentProcess    *Process
 }
 
@@ -42,13 +42,13 @@ func computeRequiredArgumentCount(args *Data) (requiredArgumentCount int, varArg
 
 func MakeFunction(name string, params *Data, body *Data, parentEnv *SymbolTableFrame) *Function {
 	requiredArgs, varArgs := computeRequiredArgumentCount(params)
-	return &Function{Name: name, Params: params, VarArgs: varArgs, RequiredArgCount: requiredArgs, Body: body, Env: parentEnv, SlotFunction: 0}
+	return &Function{Name: name, Params: params, VarArgs: varArgs, RequiredArgCount: requiredArgs, Body: body, Env: parentEnv}
 }
 
 // forProcess returns a copy of the function that runs as the body of proc, so that
 // other processes running the same function, or direct calls of it, are not affected.
-func (self *Function) forProcess(proc *Process) *Function {
-	return &Function{Name: self.Name, Params: self.Params, VarArgs: self.VarArgs, RequiredArgCount: self.RequiredArgCount, Body: self.Body, Env: self.Env, DebugOnEntry: self.DebugOnEntry, SlotFunction: atomic.LoadInt32(&self.SlotFunction), ParentProcess: proc}
+func (self *Function) forProcess(proc *Process, slotFunction bool) *Function {
+	return &Function{Name: self.Name, Params: self.Params, VarArgs: self.VarArgs, RequiredArgCount: self.RequiredArgCount, Body: self.Body, Env: self.Env, DebugOnEntry: self.DebugOnEntry, SlotFunction: slotFunction, ParentProcess: proc}
 }
 
 func (self *Function) String() string {
@@ -107,6 +107,10 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 }
 
 func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, holder *FrameMap, eval bool) (result *Data, err error) {
+	return self.applyAs(self.SlotFunction, args, argEnv, frame, holder, eval)
+}
+
+func (self *Function) applyAs(slotFunction bool, args *Data, argEnv *SymbolTableFrame, frame *FrameMap, holder *FrameMap, eval bool) (result *Data, err error) {
 	localEnv := newLocalSymbolTableFrame(self.Env, frame, self.Name)
 	if frame != nil && holder != nil {
 		localEnv.holder = holder
@@ -118,7 +122,7 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 		if err != nil {
 			return
 		}
-	} else if atomic.LoadInt32(&self.SlotFunction) == 1 {
+	} else if slotFunction {
 		selfBinding, found := argEnv.findBindingInLocalFrameFor(selfSym)
 		if found {
 			_, err = localEnv.BindLocallyTo(selfSym, selfBinding.Val)
diff --git a/prim_concurrency.go b/prim_concurrency.go
index 7af6fbd..088c7c0 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -111,7 +111,7 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ReturnValue: make(chan *Data, 1)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function = function.forProcess(proc)
+	function = function.forProcess(proc, f.slotFunction)
 
 	go func() {
 		var returnValue *Data
@@ -216,7 +216,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		scheduleDeadline: time.Now().Add(delay)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function = function.forProcess(proc)
+	function = function.forProcess(proc, f.slotFunction)
 
 	proc.scheduleMutex.Lock()
 	defer proc.scheduleMutex.Unlock()
diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index 907d20a..2ff60cc 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -264,7 +264,7 @@ func SublistImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func sortCompare(a *Data, b *Data, proc *Data, env *SymbolTableFrame) (result bool, err error) {
 	var procRet *Data
 	if FunctionP(proc) {
-		procRet, err = FunctionValue(proc).ApplyWithoutEval(InternalMakeList(a, b), env)
+		procRet, err = FunctionValue(proc).applyAs(proc.slotFunction, InternalMakeList(a, b), env, nil, nil, false)
 		if err == nil {
 			result = BooleanValue(procRet)
 		}
diff --git a/prim_system.go b/prim_system.go
index 83daedf..ddd09d6 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -90,7 +90,7 @@ func OnErrorImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				return nil, ProcessError("on-error requires a function as it's third argument", env)
 			}
 			noErrHandler := FunctionValue(f)
-			return noErrHandler.Apply(nil, env)
+			return noErrHandler.applyAs(f.slotFunction, nil, env, nil, nil, true)
 
 		} else {
 			return
@@ -108,7 +108,7 @@ func OnErrorImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 	handler := FunctionValue(f)
 	errString := StringWithValue(errThrown.Error())
-	return handler.Apply(InternalMakeList(errString), env)
+	return handler.applyAs(f.slotFunction, InternalMakeList(errString), env, nil, nil, true)
 }
 
 func QuitImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index db2e28a..9b0ddb0 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -12,7 +12,6 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"sync/atomic"
 )
 
 const (
@@ -322,10 +321,7 @@ func (self *SymbolTableFrame) BindLocallyTo(symbol *Data, value *Data) (*Data, e
 func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFunction bool) *Data {
 	localBinding, found := self.findBindingInLocalFrameFor(symbol)
 	if found {
-		if FunctionP(localBinding.Val) {
-			atomic.StoreInt32(&FunctionValue(localBinding.Val).SlotFunction, 1)
-		}
-		return localBinding.Val
+		return asSlotFunction(localBinding.Val, true)
 	}
 
 	if self.HasFrame() && !self.boundWithinFrame(symbol) {
@@ -334,8 +330,7 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 		slotValue, holder := f.lookup(naked)
 		if holder != nil {
 			if FunctionP(slotValue) {
-				atomic.StoreInt32(&FunctionValue(slotValue).SlotFunction, 1)
-				return slotValue
+				return asSlotFunction(slotValue, true)
 			}
 			if !needFunction {
 				return slotValue
@@ -345,10 +340,7 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 
 	binding, found := self.FindBindingFor(symbol)
 	if found {
-		if FunctionP(binding.Val) {
-			atomic.StoreInt32(&FunctionValue(binding.Val).SlotFunction, 0)
-		}
-		return binding.Val
+		return asSlotFunction(binding.Val, false)
 	} else {
 		return EmptyCons()
 	}
-- 
2.43.0


From 00aaa8d6f343225409123e9d2edf4dc224bb5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:56 +0000
Subject: [PATCH 40/49] fix: copy of a pair of an association list copies it

---
 data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/data.go b/data.go
index 0fb1107..e90a0c0 100644
--- a/data.go
+++ b/data.go
@@ -829,6 +829,11 @@ func copyWith(d *Data, copies map[*FrameMap]*Data) *Data {
 
 			return Cons(copyWith(Car(d), copies), copyWith(Cdr(d), copies))
 		}
+	case AlistCellType:
+		{
+			p := ConsCell{Car: copyWith(Car(d), copies), Cdr: copyWith(Cdr(d), copies)}
+			return &Data{Type: AlistCellType, Value: unsafe.Pointer(&p)}
+		}
 	case FrameType:
 		{
 			if c, found := copies[FrameValue(d)]; found {
-- 
2.43.0


From a9122846c02e3eddd0e395b44b846529ef7d9ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:55 +0000
Subject: [PATCH 41/49] fix: profile records show function names verbatim, also
 with a %

---
 profiling.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profiling.go b/profiling.go
index 52eced5..ddb9540 100644
--- a/profiling.go
+++ b/profiling.go
@@ -42,9 +42,9 @@ func ProfileEnter(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'enter type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
@@ -53,9 +53,9 @@ func ProfileExit(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'exit type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
-- 
2.43.0


From 985b5ed59b919496bf398ec26adcadbc22d2c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:55 +0000
Subject: [PATCH 42/49] fix: profile with a filename that is not a string is an
 error

---
 prim_system.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prim_system.go b/prim_system.go
index ddd09d6..ead7afc 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -255,6 +255,7 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if Length(args) == 2 {
 		if !StringP(Cadr(args)) {
 			err = ProcessError(fmt.Sprintf("profile requires a string filename, but received %s.", String(Cadr(args))), env)
+			return
 		}
 		StartProfiling(StringValue(Cadr(args)))
 	} else {
-- 
2.43.0


From 3a059d06c9905239bb5036c01737c358fa945dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:55 +0000
Subject: [PATCH 43/49] fix: profile to a file that cannot be opened is an
 error, not a panic

---
 prim_system.go |  6 +++++-
 profiling.go   | 16 ++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/prim_system.go b/prim_system.go
index ead7afc..4ea3a68 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -257,7 +257,11 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			err = ProcessError(fmt.Sprintf("profile requires a string filename, but received %s.", String(Cadr(args))), env)
 			return
 		}
-		StartProfiling(StringValue(Cadr(args)))
+		err = StartProfiling(StringValue(Cadr(args)))
+		if err != nil {
+			err = ProcessError(err.Error(), env)
+			return
+		}
 	} else {
 		StartProfiling("")
 	}
diff --git a/profiling.go b/profiling.go
index ddb9540..6cdbf9b 100644
--- a/profiling.go
+++ b/profiling.go
@@ -17,18 +17,18 @@ var profileOutput *os.File = nil
 var ProfileEnabled = false
 var ProfileGUID int64 = 0
 
-func StartProfiling(fname string) {
-	ProfileGUID = 0
-	if fname == "" {
-		profileOutput = nil
-	} else {
-		var err error
-		profileOutput, err = os.Create(fname)
+func StartProfiling(fname string) (err error) {
+	var output *os.File
+	if fname != "" {
+		output, err = os.Create(fname)
 		if err != nil {
-			panic(fmt.Sprintf("Profiler: %s could not be opened.", fname))
+			return fmt.Errorf("Profiler: %s could not be opened.", fname)
 		}
 	}
+	ProfileGUID = 0
+	profileOutput = output
 	ProfileEnabled = true
+	return
 }
 
 func EndProfiling() {
-- 
2.43.0


From 91c2aa276776d4ef54ed3b69ce293d397f44bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:46 +0000
Subject: [PATCH 44/49] fix: number->string of a float does not drop its
 fraction, and of no number is an error

---
 prim_math.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prim_math.go b/prim_math.go
index 8b818d5..d46f6d0 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -396,6 +396,10 @@ func ToFloatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func NumberToStringImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	valObj := First(args)
+	if !NumberP(valObj) {
+		err = ProcessError(fmt.Sprintf("number->string requires a number, but received %s.", String(valObj)), env)
+		return
+	}
 	val := IntegerValue(valObj)
 	var base int64
 	if Length(args) == 2 {
@@ -412,6 +416,9 @@ func NumberToStringImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 	case 8:
 		format = "%o"
 	case 10:
+		if FloatP(valObj) {
+			return StringWithValue(String(valObj)), nil
+		}
 		format = "%d"
 	case 16:
 		format = "%x"
-- 
2.43.0


From 7d20db867f6036069a91f7d30a7b496d6ca6625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:46 +0000
Subject: [PATCH 45/49] fix: list-directory of anything but strings is an error

---
 prim_io.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_io.go b/prim_io.go
index 3ff63d2..41c54a9 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -170,9 +170,17 @@ func EofObjectImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 }
 
 func ListDirectoryImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
+	if !StringP(Car(args)) {
+		err = ProcessError(fmt.Sprintf("list-directory expects its first argument be a string, but was %s", String(Car(args))), env)
+		return
+	}
 	dir := StringValue(Car(args))
 	fpart := "*"
 	if Length(args) == 2 {
+		if !StringP(Cadr(args)) {
+			err = ProcessError(fmt.Sprintf("list-directory expects its second argument be a string, but was %s", String(Cadr(args))), env)
+			return
+		}
 		fpart = StringValue(Cadr(args))
 	}
 	pattern := filepath.Join(dir, fpart)
-- 
2.43.0


From d7d5fe530f1b66f5530b000a46d8d8c8d476d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:54 +0000
Subject: [PATCH 46/49] fix: the process running code is not a variable, so a
 name parentProcess is the program's own

---
 function.go           | 11 +----------
 prim_concurrency.go   |  6 ++----
 symbol_table_frame.go |  1 +
 3 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/function.go b/function.go
index 479ae28..e83483c 100644
--- a/function.go
+++ b/function.go
@@ -11,7 +11,6 @@ import (
 	"errors"
 	"fmt"
 	"sync/atomic"
-	"unsafe"
 )
 
 type Function struct {
@@ -116,6 +115,7 @@ func (self *Function) applyAs(slotFunction bool, args *Data, argEnv *SymbolTable
 		localEnv.holder = holder
 	}
 	localEnv.Previous = argEnv
+	localEnv.process = self.ParentProcess
 	selfSym := Intern("self")
 	if frame != nil {
 		_, err = localEnv.BindLocallyTo(selfSym, FrameWithValue(frame))
@@ -132,15 +132,6 @@ func (self *Function) applyAs(slotFunction bool, args *Data, argEnv *SymbolTable
 		}
 	}
 
-	parentProcSym := Intern("parentProcess")
-	if self.ParentProcess != nil {
-		procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(self.ParentProcess))
-		_, err = localEnv.BindLocallyTo(parentProcSym, procObj)
-		if err != nil {
-			return
-		}
-	}
-
 	err = self.makeLocalBindings(args, argEnv, localEnv, eval)
 	if err != nil {
 		return
diff --git a/prim_concurrency.go b/prim_concurrency.go
index 088c7c0..b801d90 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -286,11 +286,9 @@ func ResetTimeoutImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 // runningProcess finds the process that evaluates code in env, by following the chain of callers
 // to the closest one that is the body of a process. It is nil if there is none.
 func runningProcess(env *SymbolTableFrame) *Process {
-	parentProcSym := SymbolWithName("parentProcess")
 	for e := env; e != nil; e = e.Previous {
-		binding, found := e.findBindingInLocalFrameFor(parentProcSym)
-		if found && ObjectP(binding.Val) && ObjectType(binding.Val) == "Process" {
-			return (*Process)(ObjectValue(binding.Val))
+		if e.process != nil {
+			return e.process
 		}
 	}
 	return nil
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 9b0ddb0..afa2bc0 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -29,6 +29,7 @@ type SymbolTableFrame struct {
 	CurrentCode  *list.List
 	IsRestricted bool
 	holder       *FrameMap // the frame that holds the slot function running here: send-super continues at its parents
+	process      *Process  // the process whose body runs here, if any
 }
 
 type symbolsTable struct {
-- 
2.43.0


From 01d620e8a8acb7d41f08b0e0928bbf0e7f27b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:48 +0000
Subject: [PATCH 47/49] fix: an error with debug-on-error on opens the debugger
 in the REPL's scope instead of ending the session

---
 repl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/repl.go b/repl.go
index 2a5898d..5fd3c4b 100644
--- a/repl.go
+++ b/repl.go
@@ -50,7 +50,11 @@ func Repl() {
 					if err != nil {
 						fmt.Printf("Error in evaluation: %s\n", err)
 						if DebugOnError {
-							DebugRepl(DebugErrorEnv)
+							errorEnv := DebugErrorEnv
+							if errorEnv == nil {
+								errorEnv = replEnv
+							}
+							DebugRepl(errorEnv)
 						}
 					} else {
 						fmt.Printf("==> %s\n", String(d))
-- 
2.43.0


From 026d5648682a9bee87a4c8e74efa583c1a2e93b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:48 +0000
Subject: [PATCH 48/49] fix: a value to return that no evaluation took is not
 the result of the next line

---
 repl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repl.go b/repl.go
index 5fd3c4b..5c4d2ff 100644
--- a/repl.go
+++ b/repl.go
@@ -30,6 +30,7 @@ func Repl() {
 		DebugCurrentFrame = nil
 		DebugSingleStep = false
 		DebugEvalInDebugRepl = false
+		DebugReturnValue = nil
 		replEnv.CurrentCode = list.New()
 		inputp := ReadLine(&prompt)
 		if inputp == nil {
-- 
2.43.0


From 34cf82f15f2c34d12ea884bd0306d672af9f80ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:04 +0000
Subject: [PATCH 49/49] fix: :(+ and :(- without a function name do not leave
 the debugger

---
 prim_debug.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_debug.go b/prim_debug.go
index d0763f1..26d16ca 100644
--- a/prim_debug.go
+++ b/prim_debug.go
@@ -139,11 +139,19 @@ func DebugRepl(env *SymbolTableFrame) {
 				tokens := strings.Split(cmd, " ")
 				switch tokens[0] {
 				case "(+":
+					if len(tokens) != 2 {
+						fmt.Printf("Missing function name.\n")
+						break
+					}
 					f := funcOrNil(tokens[1], env)
 					if f != nil {
 						DebugOnEntry.Add(FunctionValue(f).Name)
 					}
 				case "(-":
+					if len(tokens) != 2 {
+						fmt.Printf("Missing function name.\n")
+						break
+					}
 					f := funcOrNil(tokens[1], env)
 					if f != nil && DebugOnEntry.Has(FunctionValue(f).Name) {
 						DebugOnEntry.Remove(FunctionValue(f).Name)
-- 
2.43.0

