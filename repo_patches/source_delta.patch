From 9f78a628b68f136601bcb72d80d244767116d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 01/30] fix: give every process its own identity instead of
 marking the forked function

The process a function was last forked for was stored in the function itself, so
forking one function twice, or calling it after forking it, made join mistake
another process for the current one (returning nil without waiting) or miss a
join on itself (waiting for ever).
---
 function.go         | 20 ++++++++++++--------
 prim_concurrency.go | 26 +++++++++++++++++++-------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/function.go b/function.go
index 4bdd440..e016be1 100644
--- a/function.go
+++ b/function.go
@@ -23,7 +23,6 @@ type Function struct {
 	Env              *SymbolTableFrame
 	DebugOnEntry     bool
 	SlotFunction     int32
-	ParentProcess    *Process
 }
 
 func computeRequiredArgumentCount(args *Data) (requiredArgumentCount int, varArgs bool) {
@@ -97,7 +96,7 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 	return nil
 }
 
-func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, eval bool) (result *Data, err error) {
+func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, eval bool, proc *Process) (result *Data, err error) {
 	localEnv := NewSymbolTableFrameBelowWithFrame(self.Env, frame, self.Name)
 	localEnv.Previous = argEnv
 	selfSym := Intern("self")
@@ -117,8 +116,8 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 	}
 
 	parentProcSym := Intern("parentProcess")
-	if self.ParentProcess != nil {
-		procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(self.ParentProcess))
+	if proc != nil {
+		procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 		_, err = localEnv.BindLocallyTo(parentProcSym, procObj)
 		if err != nil {
 			return
@@ -148,19 +147,24 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 }
 
 func (self *Function) Apply(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	return self.internalApply(args, argEnv, nil, true)
+	return self.internalApply(args, argEnv, nil, true, nil)
 }
 
 func (self *Function) ApplyWithFrame(args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (result *Data, err error) {
-	return self.internalApply(args, argEnv, frame, true)
+	return self.internalApply(args, argEnv, frame, true, nil)
 }
 
 func (self *Function) ApplyWithoutEval(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	return self.internalApply(args, argEnv, nil, false)
+	return self.internalApply(args, argEnv, nil, false, nil)
+}
+
+// ApplyWithoutEvalInProcess applies the function as the body of a process.
+func (self *Function) ApplyWithoutEvalInProcess(args *Data, argEnv *SymbolTableFrame, proc *Process) (result *Data, err error) {
+	return self.internalApply(args, argEnv, nil, false, proc)
 }
 
 func (self *Function) ApplyWithoutEvalWithFrame(args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (result *Data, err error) {
-	return self.internalApply(args, argEnv, frame, false)
+	return self.internalApply(args, argEnv, frame, false, nil)
 }
 
 func (self *Function) ApplyOveriddingEnvironment(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
diff --git a/prim_concurrency.go b/prim_concurrency.go
index f423be9..3441e48 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -76,8 +76,6 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ReturnValue: make(chan *Data, 1)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
-
 	go func() {
 		var returnValue *Data
 		defer func() {
@@ -86,7 +84,7 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 		callWithPanicProtection(func() {
 			var forkedErr error
-			returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cdr(args)), env)
+			returnValue, forkedErr = function.ApplyWithoutEvalInProcess(Cons(procObj, Cdr(args)), env, proc)
 			if forkedErr != nil {
 				fmt.Println(forkedErr)
 			}
@@ -174,8 +172,6 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ScheduleTimer: time.NewTimer(time.Duration(IntegerValue(millis)) * time.Millisecond)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
-
 	go func() {
 		var returnValue *Data
 		defer func() {
@@ -191,7 +187,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 					proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
 				case <-proc.ScheduleTimer.C:
 					var forkedErr error
-					returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cddr(args)), env)
+					returnValue, forkedErr = function.ApplyWithoutEvalInProcess(Cons(procObj, Cddr(args)), env, proc)
 					if forkedErr != nil {
 						fmt.Println(forkedErr)
 					}
@@ -250,6 +246,22 @@ func ResetTimeoutImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 	return StringWithValue(str), nil
 }
 
+// currentProcess finds the process the code running in env belongs to, by following the chain of calls.
+func currentProcess(env *SymbolTableFrame) *Data {
+	parentProcSym := Intern("parentProcess")
+	for env != nil {
+		if binding, found := env.findBindingInLocalFrameFor(parentProcSym); found {
+			return binding.Val
+		}
+		if env.Previous != nil {
+			env = env.Previous
+		} else {
+			env = env.Parent
+		}
+	}
+	return nil
+}
+
 func JoinImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	procObj := Car(args)
 
@@ -260,7 +272,7 @@ func JoinImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	proc := (*Process)(ObjectValue(procObj))
 
 	// Check for early exit if joining on the current proc
-	parentProcData := env.ValueOf(SymbolWithName("parentProcess"))
+	parentProcData := currentProcess(env)
 	if NotNilP(parentProcData) && ObjectP(parentProcData) && ObjectType(parentProcData) == "Process" {
 		parentProc := (*Process)(ObjectValue(parentProcData))
 
-- 
2.43.0


From 22ecb956a932c5d6c8f7f9c9d839f220a18f3c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:41 +0000
Subject: [PATCH 02/30] fix: a waiting abandon or reset takes precedence over a
 timeout noticed late

When the timer of a scheduled function and an abandon or reset issued before
the deadline were both ready, select picked one at random, so a function could
run after it was abandoned or reset in time.
---
 prim_concurrency.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/prim_concurrency.go b/prim_concurrency.go
index 3441e48..3ef5096 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -186,6 +186,19 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				case <-proc.Restart:
 					proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
 				case <-proc.ScheduleTimer.C:
+					// An abandon or reset that is already waiting was issued before this
+					// process noticed the timeout, so it takes precedence over running.
+					select {
+					case <-proc.Abort:
+						break Loop
+					default:
+					}
+					select {
+					case <-proc.Restart:
+						proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
+						continue Loop
+					default:
+					}
 					var forkedErr error
 					returnValue, forkedErr = function.ApplyWithoutEvalInProcess(Cons(procObj, Cddr(args)), env, proc)
 					if forkedErr != nil {
-- 
2.43.0


From ee6a391c76e7e533d80aebcdb0b316e4f8ac7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:57 +0000
Subject: [PATCH 03/30] fix: a wake that arrives before the timeout ends the
 sleep it was meant for

With the wake and the timeout both ready, select picked one at random, so a
sleep could report a timeout although it had been woken (and the wake then cut
the next sleep short).
---
 prim_concurrency.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prim_concurrency.go b/prim_concurrency.go
index 3ef5096..944b075 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -115,6 +115,13 @@ func ProcSleepImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	case <-proc.Wake:
 		woken = true
 	case <-time.After(time.Duration(IntegerValue(millis)) * time.Millisecond):
+		// A wake that is already waiting belongs to this sleep, even if the
+		// timeout is noticed at the same time.
+		select {
+		case <-proc.Wake:
+			woken = true
+		default:
+		}
 	}
 
 	return BooleanWithValue(woken), nil
-- 
2.43.0


From dc1a7a9e5ce9458955946d850e98bf298cb3d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:01 +0000
Subject: [PATCH 04/30] fix: slot lookups see the frame and its ancestors at
 one moment

Looking a slot up through parents took the lock of each ancestor while holding
those below it, which deadlocks with a waiting writer when parents form a
cycle; existence test and read were separate lookups, so a slot removed in
between read as nil or, on assignment, came back; several parents were tried
in hash order, and a parent slot holding something else than a frame crashed
the lookup while it held the lock.
---
 frame.go              | 164 ++++++++++++++++++++++++++----------------
 prim_frame.go         |  25 +++----
 symbol_table_frame.go |   6 +-
 3 files changed, 112 insertions(+), 83 deletions(-)

diff --git a/frame.go b/frame.go
index 2430579..67ff611 100644
--- a/frame.go
+++ b/frame.go
@@ -8,17 +8,23 @@
 package golisp
 
 import (
+	"sort"
 	"strings"
 	"sync"
-
-	"github.com/SteelSeries/set.v0"
+	"sync/atomic"
 )
 
 type FrameMapData map[string]*Data
 
 type FrameMap struct {
-	Data  FrameMapData
-	Mutex sync.RWMutex
+	Data    FrameMapData
+	Mutex   sync.RWMutex
+	version uint32 // counts the changes made to Data
+}
+
+// changing must be called, with Mutex locked, before Data is changed.
+func (self *FrameMap) changing() {
+	atomic.AddUint32(&self.version, 1)
 }
 
 func (self *FrameMap) hasSlotLocally(key string) bool {
@@ -38,94 +44,101 @@ func isParentKey(key string) bool {
 	return strings.HasSuffix(key, "*:")
 }
 
-func (self *FrameMap) hasParentSlots() bool {
-	for k, _ := range self.Data {
-		if isParentKey(k) {
-			return true
-		}
-	}
-
-	return false
-}
-
+// Parents returns the frames in the parent slots, ordered by slot name.
 func (self *FrameMap) Parents() []*FrameMap {
-	parents := make([]*FrameMap, 0, 0)
+	keys := make([]string, 0, 0)
 	for k, v := range self.Data {
-		if isParentKey(k) && v != nil {
-			parents = append(parents, FrameValue(v))
+		if isParentKey(k) && FrameP(v) {
+			keys = append(keys, k)
 		}
 	}
+	sort.Strings(keys)
+	parents := make([]*FrameMap, 0, len(keys))
+	for _, k := range keys {
+		parents = append(parents, FrameValue(self.Data[k]))
+	}
 	return parents
 }
 
 //------------------------------------------------------------
 
-func (self *FrameMap) hasSlotHelper(key string, v *set.Set) bool {
-	if v.Has(self) {
-		return false
-	}
-
-	v.Add(self)
-
-	if self.hasSlotLocally(key) {
-		return true
-	}
-
-	if !self.hasParentSlots() {
-		return false
-	}
+// visitedFrames records the frames a lookup has visited, as of which version.
+// Only one frame is locked at a time, so lookups can't deadlock. When none of
+// the frames has changed by the end of the lookup, its result was valid at one
+// moment; otherwise it has to start over.
+type visitedFrames map[*FrameMap]uint32
 
-	for _, p := range self.Parents() {
-		p.Mutex.RLock()
-		hasSlot := p.hasSlotHelper(key, v)
-		p.Mutex.RUnlock()
-		if hasSlot {
+func (self visitedFrames) changed() bool {
+	for f, version := range self {
+		if atomic.LoadUint32(&f.version) != version {
 			return true
 		}
 	}
-
 	return false
 }
 
-func (self *FrameMap) HasSlot(key string) (ret bool) {
-	visited := set.New()
+func (self *FrameMap) lookupHelper(key string, visited visitedFrames) (val *Data, found bool) {
+	if _, seen := visited[self]; seen {
+		return nil, false
+	}
+
 	self.Mutex.RLock()
-	ret = self.hasSlotHelper(key, visited)
+	visited[self] = atomic.LoadUint32(&self.version)
+	val, found = self.Data[key]
+	var parents []*FrameMap
+	if !found {
+		parents = self.Parents()
+	}
 	self.Mutex.RUnlock()
-	return
-}
 
-//------------------------------------------------------------
-
-func (self *FrameMap) getHelper(key string, v *set.Set) *Data {
-	if v.Has(self) {
-		return nil
+	for _, p := range parents {
+		val, found = p.lookupHelper(key, visited)
+		if found {
+			return
+		}
 	}
+	return
+}
 
-	v.Add(self)
-
-	val, ok := self.Data[key]
-	if ok {
-		return val
+// lookup finds a slot in the frame or the frames it inherits from.
+func (self *FrameMap) lookup(key string) (val *Data, found bool) {
+	for {
+		visited := make(visitedFrames)
+		val, found = self.lookupHelper(key, visited)
+		if len(visited) == 1 || !visited.changed() {
+			return
+		}
 	}
+}
 
-	for _, p := range self.Parents() {
-		p.Mutex.RLock()
-		val := p.getHelper(key, v)
-		p.Mutex.RUnlock()
-		if val != nil {
-			return val
+// lookupSuper finds a slot in the frames the frame inherits from.
+func (self *FrameMap) lookupSuper(key string) (val *Data, found bool) {
+	for {
+		visited := make(visitedFrames)
+		self.Mutex.RLock()
+		visited[self] = atomic.LoadUint32(&self.version)
+		parents := self.Parents()
+		self.Mutex.RUnlock()
+
+		for _, p := range parents {
+			val, found = p.lookupHelper(key, visited)
+			if found {
+				break
+			}
+		}
+		if !visited.changed() {
+			return
 		}
 	}
+}
 
-	return nil
+func (self *FrameMap) HasSlot(key string) (ret bool) {
+	_, ret = self.lookup(key)
+	return
 }
 
 func (self *FrameMap) Get(key string) (ret *Data) {
-	visited := set.New()
-	self.Mutex.RLock()
-	ret = self.getHelper(key, visited)
-	self.Mutex.RUnlock()
+	ret, _ = self.lookup(key)
 	return
 }
 
@@ -137,6 +150,7 @@ func (self *FrameMap) Remove(key string) bool {
 		self.Mutex.Unlock()
 		return false
 	}
+	self.changing()
 	delete(self.Data, key)
 	self.Mutex.Unlock()
 	return true
@@ -146,11 +160,35 @@ func (self *FrameMap) Remove(key string) bool {
 
 func (self *FrameMap) Set(key string, value *Data) *Data {
 	self.Mutex.Lock()
+	self.changing()
 	self.Data[key] = value
 	self.Mutex.Unlock()
 	return value
 }
 
+// setExisting sets the slot if the frame has it or inherits it.
+func (self *FrameMap) setExisting(key string, value *Data) bool {
+	for {
+		visited := make(visitedFrames)
+		_, found := self.lookupHelper(key, visited)
+		if !found {
+			if visited.changed() {
+				continue
+			}
+			return false
+		}
+		self.Mutex.Lock()
+		if visited.changed() {
+			self.Mutex.Unlock()
+			continue
+		}
+		self.changing()
+		self.Data[key] = value
+		self.Mutex.Unlock()
+		return true
+	}
+}
+
 //------------------------------------------------------------
 
 func (self *FrameMap) Clone() *FrameMap {
diff --git a/prim_frame.go b/prim_frame.go
index 395cc52..41a54f3 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -82,12 +82,13 @@ func GetSlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	v, found := FrameValue(f).lookup(StringValue(k))
+	if !found {
 		err = ProcessError(fmt.Sprintf("get-slot requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	return FrameValue(f).Get(StringValue(k)), nil
+	return v, nil
 }
 
 func GetSlotOrNilImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -158,12 +159,12 @@ func SendImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	fun, found := FrameValue(f).lookup(StringValue(k))
+	if !found {
 		err = ProcessError(fmt.Sprintf("send requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	fun := FrameValue(f).Get(StringValue(k))
 	if !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("send requires a function slot, but was given a slot containing a %s.", TypeName(TypeOf(fun))), env)
 		return
@@ -179,16 +180,8 @@ func getSuperFunction(selector string, env *SymbolTableFrame) *Data {
 		return nil
 	}
 
-	f.Mutex.RLock()
-	defer f.Mutex.RUnlock()
-	for _, p := range f.Parents() {
-		fun := p.Get(selector)
-		if fun != nil {
-			return fun
-		}
-	}
-
-	return nil
+	fun, _ := f.lookupSuper(selector)
+	return fun
 }
 
 func SendSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -237,12 +230,12 @@ func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	fun, found := FrameValue(f).lookup(StringValue(k))
+	if !found {
 		err = ProcessError(fmt.Sprintf("apply-slot requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	fun := FrameValue(f).Get(StringValue(k))
 	if !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("apply-slot requires a function slot, but was given a slot containing a %s.", TypeName(TypeOf(fun))), env)
 		return
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 9367a16..7171c05 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -242,8 +242,7 @@ func (self *SymbolTableFrame) SetTo(symbol *Data, value *Data) (result *Data, er
 	}
 
 	naked := StringValue(NakedSymbolFrom(symbol))
-	if self.HasFrame() && self.Frame.HasSlot(naked) {
-		self.Frame.Set(naked, value)
+	if self.HasFrame() && self.Frame.setExisting(naked, value) {
 		return value, nil
 	}
 
@@ -290,8 +289,7 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 	if self.HasFrame() {
 		f := self.Frame
 		naked := StringValue(NakedSymbolFrom(symbol))
-		if f.HasSlot(naked) {
-			slotValue := f.Get(naked)
+		if slotValue, found := f.lookup(naked); found {
 			if FunctionP(slotValue) {
 				atomic.StoreInt32(&FunctionValue(slotValue).SlotFunction, 1)
 				return slotValue
-- 
2.43.0


From 97313a7b5be9c63bc5d27c71e070a3f8ec160d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:42 +0000
Subject: [PATCH 05/30] fix: whole-frame operations work on a snapshot and end
 on cyclic frames

---
 data.go               | 113 ++++++++++++++++++++++++++++--------------
 frame.go              |  16 ++++++
 json_frame_support.go |  24 ++++++---
 3 files changed, 110 insertions(+), 43 deletions(-)

diff --git a/data.go b/data.go
index dcfe12f..3a38546 100644
--- a/data.go
+++ b/data.go
@@ -739,13 +739,17 @@ func QuoteAll(d *Data) (result *Data) {
 }
 
 func Assoc(key *Data, alist *Data) (result *Data, err error) {
+	return assocWithin(key, alist, nil)
+}
+
+func assocWithin(key *Data, alist *Data, within map[framePair]bool) (result *Data, err error) {
 	for c := alist; NotNilP(c); c = Cdr(c) {
 		pair := Car(c)
 		if !DottedPairP(pair) && !PairP(pair) {
 			err = errors.New("An alist MUST be made of pairs.")
 			return
 		}
-		if IsEqual(Car(pair), key) {
+		if isEqualWithin(Car(pair), key, within) {
 			result = pair
 			return
 		}
@@ -769,6 +773,11 @@ func Dissoc(key *Data, alist *Data) (result *Data, err error) {
 }
 
 func Copy(d *Data) *Data {
+	return copyWithin(d, nil)
+}
+
+// copyWithin copies d, a part of the frames being copied.
+func copyWithin(d *Data, within map[*FrameMap]*Data) *Data {
 	if d == nil {
 		return d
 	}
@@ -776,9 +785,9 @@ func Copy(d *Data) *Data {
 	switch d.Type {
 	case AlistType:
 		{
-			alist := Acons(Copy(Caar(d)), Copy(Cdar(d)), nil)
+			alist := Acons(copyWithin(Caar(d), within), copyWithin(Cdar(d), within), nil)
 			for c := Cdr(d); NotNilP(c); c = Cdr(c) {
-				alist = Acons(Copy(Caar(c)), Copy(Cdar(c)), alist)
+				alist = Acons(copyWithin(Caar(c), within), copyWithin(Cdar(c), within), alist)
 			}
 			return alist
 		}
@@ -788,19 +797,25 @@ func Copy(d *Data) *Data {
 				return d
 			}
 
-			return Cons(Copy(Car(d)), Copy(Cdr(d)))
+			return Cons(copyWithin(Car(d), within), copyWithin(Cdr(d), within))
 		}
 	case FrameType:
 		{
-			m := FrameMap{}
-			m.Data = make(FrameMapData)
 			frame := FrameValue(d)
-			frame.Mutex.RLock()
-			for k, v := range frame.Data {
-				m.Data[k] = Copy(v)
+			if copied, found := within[frame]; found {
+				return copied
+			}
+			m := frame.Clone()
+			result := FrameWithValue(m)
+			if within == nil {
+				within = make(map[*FrameMap]*Data)
 			}
-			frame.Mutex.RUnlock()
-			return FrameWithValue(&m)
+			within[frame] = result
+			for k, v := range m.Data {
+				m.Data[k] = copyWithin(v, within)
+			}
+			delete(within, frame)
+			return result
 		}
 	case BoxedObjectType:
 		{
@@ -816,6 +831,16 @@ func Copy(d *Data) *Data {
 }
 
 func IsEqual(d *Data, o *Data) bool {
+	return isEqualWithin(d, o, nil)
+}
+
+type framePair struct {
+	d *FrameMap
+	o *FrameMap
+}
+
+// isEqualWithin compares d and o, parts of the pairs of frames being compared.
+func isEqualWithin(d *Data, o *Data, within map[framePair]bool) bool {
 	if d == o && !FloatP(d) {
 		return true
 	}
@@ -845,8 +870,8 @@ func IsEqual(d *Data, o *Data) bool {
 			return false
 		}
 		for c := d; NotNilP(c); c = Cdr(c) {
-			otherPair, err := Assoc(Caar(c), o)
-			if err != nil || NilP(otherPair) || !IsEqual(Cdar(c), Cdr(otherPair)) {
+			otherPair, err := assocWithin(Caar(c), o, within)
+			if err != nil || NilP(otherPair) || !isEqualWithin(Cdar(c), Cdr(otherPair), within) {
 				return false
 			}
 		}
@@ -854,7 +879,7 @@ func IsEqual(d *Data, o *Data) bool {
 	}
 
 	if DottedPairP(d) {
-		return IsEqual(Car(d), Car(o)) && IsEqual(Cdr(d), Cdr(o))
+		return isEqualWithin(Car(d), Car(o), within) && isEqualWithin(Cdr(d), Cdr(o), within)
 	}
 
 	if ListP(d) {
@@ -862,7 +887,7 @@ func IsEqual(d *Data, o *Data) bool {
 			return false
 		}
 		for a1, a2 := d, o; NotNilP(a1); a1, a2 = Cdr(a1), Cdr(a2) {
-			if !IsEqual(Car(a1), Car(a2)) {
+			if !isEqualWithin(Car(a1), Car(a2), within) {
 				return false
 			}
 		}
@@ -872,22 +897,24 @@ func IsEqual(d *Data, o *Data) bool {
 	if FrameP(d) {
 		frameD := FrameValue(d)
 		frameO := FrameValue(o)
-		frameD.Mutex.RLock()
-		frameO.Mutex.RLock()
-		if len(frameD.Data) != len(frameO.Data) {
-			frameO.Mutex.RUnlock()
-			frameD.Mutex.RUnlock()
+		pair := framePair{frameD, frameO}
+		if within[pair] {
+			return true
+		}
+		slotsD, slotsO := snapshotFrames(frameD, frameO)
+		if len(slotsD) != len(slotsO) {
 			return false
 		}
-		for k, v := range frameD.Data {
-			if !IsEqual(v, frameO.Data[k]) {
-				frameO.Mutex.RUnlock()
-				frameD.Mutex.RUnlock()
+		if within == nil {
+			within = make(map[framePair]bool)
+		}
+		within[pair] = true
+		defer delete(within, pair)
+		for k, v := range slotsD {
+			if !isEqualWithin(v, slotsO[k], within) {
 				return false
 			}
 		}
-		frameO.Mutex.RUnlock()
-		frameD.Mutex.RUnlock()
 		return true
 	}
 
@@ -942,6 +969,11 @@ func escapeQuotes(str string) string {
 }
 
 func String(d *Data) string {
+	return stringWithin(d, nil)
+}
+
+// stringWithin renders d, a part of the frames being rendered.
+func stringWithin(d *Data, within map[*FrameMap]bool) string {
 	if d == nil {
 		return "()"
 	}
@@ -956,7 +988,7 @@ func String(d *Data) string {
 
 			contents := make([]string, 0, Length(d))
 			for NotNilP(c) && PairP(c) {
-				contents = append(contents, String(Car(c)))
+				contents = append(contents, stringWithin(Car(c), within))
 				c = Cdr(c)
 			}
 			if NilP(c) {
@@ -970,7 +1002,7 @@ func String(d *Data) string {
 					return fmt.Sprintf("(%s)", strings.Join(contents, " "))
 				}
 			} else {
-				return fmt.Sprintf("(%s . %s)", strings.Join(contents, " "), String(c))
+				return fmt.Sprintf("(%s . %s)", strings.Join(contents, " "), stringWithin(c, within))
 			}
 		}
 	case AlistType:
@@ -980,12 +1012,12 @@ func String(d *Data) string {
 			}
 			contents := make([]string, 0, Length(d))
 			for c := d; NotNilP(c); c = Cdr(c) {
-				contents = append(contents, String(Car(c)))
+				contents = append(contents, stringWithin(Car(c), within))
 			}
 			return fmt.Sprintf("(%s)", strings.Join(contents, " "))
 		}
 	case AlistCellType:
-		return fmt.Sprintf("(%s . %s)", String(Car(d)), String(Cdr(d)))
+		return fmt.Sprintf("(%s . %s)", stringWithin(Car(d), within), stringWithin(Cdr(d), within))
 	case IntegerType:
 		return fmt.Sprintf("%d", IntegerValue(d))
 	case FloatType:
@@ -1036,20 +1068,27 @@ func String(d *Data) string {
 		}
 	case FrameType:
 		frame := FrameValue(d)
-		frame.Mutex.RLock()
-		keys := make([]string, 0, len(frame.Data))
-		for key, _ := range frame.Data {
+		if within[frame] {
+			return "{...}"
+		}
+		slots := frame.Clone().Data
+		keys := make([]string, 0, len(slots))
+		for key, _ := range slots {
 			keys = append(keys, key)
 		}
 		sort.Strings(keys)
 
-		pairs := make([]string, 0, len(frame.Data))
+		if within == nil {
+			within = make(map[*FrameMap]bool)
+		}
+		within[frame] = true
+		defer delete(within, frame)
+		pairs := make([]string, 0, len(slots))
 		for _, key := range keys {
-			val := frame.Data[key]
-			var valString string = String(val)
+			val := slots[key]
+			var valString string = stringWithin(val, within)
 			pairs = append(pairs, fmt.Sprintf("%s %s", key, valString))
 		}
-		frame.Mutex.RUnlock()
 		return fmt.Sprintf("{%s}", strings.Join(pairs, " "))
 	case EnvironmentType:
 		return fmt.Sprintf("<environment: %s>", EnvironmentValue(d).Name)
diff --git a/frame.go b/frame.go
index 67ff611..f22a1e2 100644
--- a/frame.go
+++ b/frame.go
@@ -202,6 +202,22 @@ func (self *FrameMap) Clone() *FrameMap {
 	return &f
 }
 
+// snapshotFrames returns the slots two frames had at one moment.
+func snapshotFrames(f *FrameMap, g *FrameMap) (fSlots FrameMapData, gSlots FrameMapData) {
+	if f == g {
+		fSlots = f.Clone().Data
+		return fSlots, fSlots
+	}
+	for {
+		version := atomic.LoadUint32(&f.version)
+		fSlots = f.Clone().Data
+		gSlots = g.Clone().Data
+		if atomic.LoadUint32(&f.version) == version {
+			return
+		}
+	}
+}
+
 func (self *FrameMap) Keys() []*Data {
 	self.Mutex.RLock()
 	keys := make([]*Data, 0, len(self.Data))
diff --git a/json_frame_support.go b/json_frame_support.go
index f368677..a9dc2a3 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -197,6 +197,11 @@ func JsonStringToLispWithFrames(jsonData string) (result *Data) {
 }
 
 func LispWithFramesToJson(d *Data) (result interface{}) {
+	return lispWithFramesToJsonWithin(d, nil)
+}
+
+// lispWithFramesToJsonWithin converts d, a part of the frames being converted.
+func lispWithFramesToJsonWithin(d *Data, within map[*FrameMap]bool) (result interface{}) {
 	if d == nil {
 		return ""
 	}
@@ -220,7 +225,7 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 	if PairP(d) {
 		ary := make([]interface{}, 0, Length(d))
 		for c := d; NotNilP(c); c = Cdr(c) {
-			ary = append(ary, LispWithFramesToJson(Car(c)))
+			ary = append(ary, lispWithFramesToJsonWithin(Car(c), within))
 		}
 		return ary
 	}
@@ -234,15 +239,22 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 	}
 
 	if FrameP(d) {
-		dict := make(map[string]interface{}, Length(d))
 		frame := FrameValue(d)
-		frame.Mutex.RLock()
-		for k, v := range frame.Data {
+		if within[frame] {
+			return nil
+		}
+		if within == nil {
+			within = make(map[*FrameMap]bool)
+		}
+		within[frame] = true
+		defer delete(within, frame)
+		slots := frame.Clone().Data
+		dict := make(map[string]interface{}, len(slots))
+		for k, v := range slots {
 			if !FunctionP(v) {
-				dict[strings.TrimRight(k, ":")] = LispWithFramesToJson(v)
+				dict[strings.TrimRight(k, ":")] = lispWithFramesToJsonWithin(v, within)
 			}
 		}
-		frame.Mutex.RUnlock()
 		return dict
 	}
 
-- 
2.43.0


From 7b4728b51a58341e42716796e469de18f9dd73cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:11 +0000
Subject: [PATCH 06/30] fix: decide per call which frame a function runs on

Whether a function was called as a slot was kept in the function itself by
whichever reference to it came last, so a call could run on the wrong frame,
or without one, depending on what other processes (or earlier calls) did with
the same function. For the same reason super methods got self only sometimes
and never their slots; they now run on the frame of the calling method, and a
super call from one continues above the frame it was found in.
---
 data.go               | 44 +++++++++++++++++-----------
 frame.go              | 62 +++++++++++++++++++++++++++++----------
 function.go           | 28 ++++++++----------
 prim_frame.go         | 46 ++++++++++++-----------------
 symbol_table_frame.go | 67 +++++++++++++++++++++++++++++--------------
 5 files changed, 149 insertions(+), 98 deletions(-)

diff --git a/data.go b/data.go
index 3a38546..ebf60a7 100644
--- a/data.go
+++ b/data.go
@@ -14,7 +14,6 @@ import (
 	"os"
 	"sort"
 	"strings"
-	"sync/atomic"
 	"unsafe"
 
 	"github.com/SteelSeries/set.v0"
@@ -1164,7 +1163,15 @@ func logResult(result *Data, env *SymbolTableFrame) {
 	}
 }
 
-func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data, err error) {
+// calledFunction tells how the function of an application was found.
+type calledFunction struct {
+	named bool      // by its name
+	frame *FrameMap // the frame it has to run on, nil for its own
+	owner *FrameMap // the frame it was found in
+}
+
+// evalHelper evaluates d; called is not nil if d is in function position.
+func evalHelper(d *Data, env *SymbolTableFrame, called *calledFunction) (result *Data, err error) {
 	if IsInteractive && !DebugEvalInDebugRepl {
 		env.CurrentCode.PushFront(fmt.Sprintf("Eval %s", String(d)))
 	}
@@ -1193,7 +1200,8 @@ func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data
 				}
 
 				var function *Data
-				function, err = evalHelper(Car(d), env, true)
+				var how calledFunction
+				function, err = evalHelper(Car(d), env, &how)
 
 				if err != nil {
 					return
@@ -1209,7 +1217,11 @@ func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data
 
 				args := Cdr(d)
 
-				result, err = Apply(function, args, env)
+				if how.named && FunctionP(function) {
+					result, err = FunctionValue(function).internalApply(args, env, how.frame, how.owner, true, nil)
+				} else {
+					result, err = Apply(function, args, env)
+				}
 				if err != nil {
 					err = fmt.Errorf("\nEvaling %s. %w", String(d), err)
 					return
@@ -1222,7 +1234,12 @@ func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data
 			if NakedP(d) {
 				result = d
 			} else {
-				result = env.ValueOfWithFunctionSlotCheck(d, needFunction)
+				if called == nil {
+					result, _, _ = env.lookup(d, false)
+				} else {
+					called.named = true
+					result, called.frame, called.owner = env.lookup(d, true)
+				}
 			}
 		default:
 			result = d
@@ -1236,7 +1253,7 @@ func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data
 }
 
 func Eval(d *Data, env *SymbolTableFrame) (result *Data, err error) {
-	return evalHelper(d, env, false)
+	return evalHelper(d, env, nil)
 }
 
 func formatApply(function *Data, args *Data) string {
@@ -1266,11 +1283,8 @@ func Apply(function *Data, args *Data, env *SymbolTableFrame) (result *Data, err
 	}
 	switch function.Type {
 	case FunctionType:
-		if atomic.LoadInt32(&FunctionValue(function).SlotFunction) == 1 && env.HasFrame() {
-			result, err = FunctionValue(function).ApplyWithFrame(args, env, env.Frame)
-		} else {
-			result, err = FunctionValue(function).Apply(args, env)
-		}
+		frame, owner := env.frameForFunction(FunctionValue(function))
+		result, err = FunctionValue(function).internalApply(args, env, frame, owner, true, nil)
 	case MacroType:
 		result, err = MacroValue(function).Apply(args, env)
 	case PrimitiveType:
@@ -1290,12 +1304,8 @@ func ApplyWithoutEval(function *Data, args *Data, env *SymbolTableFrame) (result
 	}
 	switch function.Type {
 	case FunctionType:
-		if atomic.LoadInt32(&FunctionValue(function).SlotFunction) == 1 && env.HasFrame() {
-			result, err = FunctionValue(function).ApplyWithoutEvalWithFrame(args, env, env.Frame)
-		} else {
-			result, err = FunctionValue(function).ApplyWithoutEval(args, env)
-		}
-		//		result, err = FunctionValue(function).ApplyWithoutEval(args, env)
+		frame, owner := env.frameForFunction(FunctionValue(function))
+		result, err = FunctionValue(function).internalApply(args, env, frame, owner, false, nil)
 	case MacroType:
 		result, err = MacroValue(function).ApplyWithoutEval(args, env)
 	case PrimitiveType:
diff --git a/frame.go b/frame.go
index f22a1e2..c9f2df2 100644
--- a/frame.go
+++ b/frame.go
@@ -77,34 +77,38 @@ func (self visitedFrames) changed() bool {
 	return false
 }
 
-func (self *FrameMap) lookupHelper(key string, visited visitedFrames) (val *Data, found bool) {
+func (self *FrameMap) lookupHelper(key string, visited visitedFrames) (val *Data, owner *FrameMap) {
 	if _, seen := visited[self]; seen {
-		return nil, false
+		return nil, nil
 	}
 
 	self.Mutex.RLock()
 	visited[self] = atomic.LoadUint32(&self.version)
-	val, found = self.Data[key]
+	val, found := self.Data[key]
 	var parents []*FrameMap
 	if !found {
 		parents = self.Parents()
 	}
 	self.Mutex.RUnlock()
 
+	if found {
+		return val, self
+	}
 	for _, p := range parents {
-		val, found = p.lookupHelper(key, visited)
-		if found {
+		val, owner = p.lookupHelper(key, visited)
+		if owner != nil {
 			return
 		}
 	}
 	return
 }
 
-// lookup finds a slot in the frame or the frames it inherits from.
-func (self *FrameMap) lookup(key string) (val *Data, found bool) {
+// lookup finds a slot in the frame or the frames it inherits from. The owner
+// is the one that has it, or nil if it wasn't found.
+func (self *FrameMap) lookup(key string) (val *Data, owner *FrameMap) {
 	for {
 		visited := make(visitedFrames)
-		val, found = self.lookupHelper(key, visited)
+		val, owner = self.lookupHelper(key, visited)
 		if len(visited) == 1 || !visited.changed() {
 			return
 		}
@@ -112,7 +116,7 @@ func (self *FrameMap) lookup(key string) (val *Data, found bool) {
 }
 
 // lookupSuper finds a slot in the frames the frame inherits from.
-func (self *FrameMap) lookupSuper(key string) (val *Data, found bool) {
+func (self *FrameMap) lookupSuper(key string) (val *Data, owner *FrameMap) {
 	for {
 		visited := make(visitedFrames)
 		self.Mutex.RLock()
@@ -121,8 +125,8 @@ func (self *FrameMap) lookupSuper(key string) (val *Data, found bool) {
 		self.Mutex.RUnlock()
 
 		for _, p := range parents {
-			val, found = p.lookupHelper(key, visited)
-			if found {
+			val, owner = p.lookupHelper(key, visited)
+			if owner != nil {
 				break
 			}
 		}
@@ -133,8 +137,8 @@ func (self *FrameMap) lookupSuper(key string) (val *Data, found bool) {
 }
 
 func (self *FrameMap) HasSlot(key string) (ret bool) {
-	_, ret = self.lookup(key)
-	return
+	_, owner := self.lookup(key)
+	return owner != nil
 }
 
 func (self *FrameMap) Get(key string) (ret *Data) {
@@ -144,6 +148,34 @@ func (self *FrameMap) Get(key string) (ret *Data) {
 
 //------------------------------------------------------------
 
+// ownerOfFunction returns the frame, itself or one it inherits from, that has
+// the function in a slot, or nil if there is none.
+func (self *FrameMap) ownerOfFunction(function *Function) *FrameMap {
+	visited := map[*FrameMap]bool{self: true}
+	for pending := []*FrameMap{self}; len(pending) > 0; {
+		f := pending[0]
+		pending = pending[1:]
+		f.Mutex.RLock()
+		for _, val := range f.Data {
+			if FunctionP(val) && FunctionValue(val) == function {
+				f.Mutex.RUnlock()
+				return f
+			}
+		}
+		parents := f.Parents()
+		f.Mutex.RUnlock()
+		for _, p := range parents {
+			if !visited[p] {
+				visited[p] = true
+				pending = append(pending, p)
+			}
+		}
+	}
+	return nil
+}
+
+//------------------------------------------------------------
+
 func (self *FrameMap) Remove(key string) bool {
 	self.Mutex.Lock()
 	if !self.hasSlotLocally(key) {
@@ -170,8 +202,8 @@ func (self *FrameMap) Set(key string, value *Data) *Data {
 func (self *FrameMap) setExisting(key string, value *Data) bool {
 	for {
 		visited := make(visitedFrames)
-		_, found := self.lookupHelper(key, visited)
-		if !found {
+		_, owner := self.lookupHelper(key, visited)
+		if owner == nil {
 			if visited.changed() {
 				continue
 			}
diff --git a/function.go b/function.go
index e016be1..c77dc9f 100644
--- a/function.go
+++ b/function.go
@@ -22,7 +22,6 @@ type Function struct {
 	Body             *Data
 	Env              *SymbolTableFrame
 	DebugOnEntry     bool
-	SlotFunction     int32
 }
 
 func computeRequiredArgumentCount(args *Data) (requiredArgumentCount int, varArgs bool) {
@@ -41,7 +40,7 @@ func computeRequiredArgumentCount(args *Data) (requiredArgumentCount int, varArg
 
 func MakeFunction(name string, params *Data, body *Data, parentEnv *SymbolTableFrame) *Function {
 	requiredArgs, varArgs := computeRequiredArgumentCount(params)
-	return &Function{Name: name, Params: params, VarArgs: varArgs, RequiredArgCount: requiredArgs, Body: body, Env: parentEnv, SlotFunction: 0}
+	return &Function{Name: name, Params: params, VarArgs: varArgs, RequiredArgCount: requiredArgs, Body: body, Env: parentEnv}
 }
 
 func (self *Function) String() string {
@@ -96,8 +95,13 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 	return nil
 }
 
-func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, eval bool, proc *Process) (result *Data, err error) {
+// internalApply runs the function on frame, having been found in owner, or, if
+// frame is nil, on the frame of the environment it was made in.
+func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, owner *FrameMap, eval bool, proc *Process) (result *Data, err error) {
 	localEnv := NewSymbolTableFrameBelowWithFrame(self.Env, frame, self.Name)
+	if frame != nil {
+		localEnv.FrameOwner = owner
+	}
 	localEnv.Previous = argEnv
 	selfSym := Intern("self")
 	if frame != nil {
@@ -105,14 +109,6 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 		if err != nil {
 			return
 		}
-	} else if atomic.LoadInt32(&self.SlotFunction) == 1 {
-		selfBinding, found := argEnv.findBindingInLocalFrameFor(selfSym)
-		if found {
-			_, err = localEnv.BindLocallyTo(selfSym, selfBinding.Val)
-			if err != nil {
-				return
-			}
-		}
 	}
 
 	parentProcSym := Intern("parentProcess")
@@ -147,24 +143,24 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 }
 
 func (self *Function) Apply(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	return self.internalApply(args, argEnv, nil, true, nil)
+	return self.internalApply(args, argEnv, nil, nil, true, nil)
 }
 
 func (self *Function) ApplyWithFrame(args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (result *Data, err error) {
-	return self.internalApply(args, argEnv, frame, true, nil)
+	return self.internalApply(args, argEnv, frame, nil, true, nil)
 }
 
 func (self *Function) ApplyWithoutEval(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	return self.internalApply(args, argEnv, nil, false, nil)
+	return self.internalApply(args, argEnv, nil, nil, false, nil)
 }
 
 // ApplyWithoutEvalInProcess applies the function as the body of a process.
 func (self *Function) ApplyWithoutEvalInProcess(args *Data, argEnv *SymbolTableFrame, proc *Process) (result *Data, err error) {
-	return self.internalApply(args, argEnv, nil, false, proc)
+	return self.internalApply(args, argEnv, nil, nil, false, proc)
 }
 
 func (self *Function) ApplyWithoutEvalWithFrame(args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (result *Data, err error) {
-	return self.internalApply(args, argEnv, frame, false, nil)
+	return self.internalApply(args, argEnv, frame, nil, false, nil)
 }
 
 func (self *Function) ApplyOveriddingEnvironment(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
diff --git a/prim_frame.go b/prim_frame.go
index 41a54f3..9ed820c 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -82,8 +82,8 @@ func GetSlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	v, found := FrameValue(f).lookup(StringValue(k))
-	if !found {
+	v, owner := FrameValue(f).lookup(StringValue(k))
+	if owner == nil {
 		err = ProcessError(fmt.Sprintf("get-slot requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
@@ -159,8 +159,8 @@ func SendImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	fun, found := FrameValue(f).lookup(StringValue(k))
-	if !found {
+	fun, owner := FrameValue(f).lookup(StringValue(k))
+	if owner == nil {
 		err = ProcessError(fmt.Sprintf("send requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
@@ -171,17 +171,17 @@ func SendImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 
 	params := Cddr(args)
-	return FunctionValue(fun).ApplyWithoutEvalWithFrame(params, env, FrameValue(f))
+	return FunctionValue(fun).internalApply(params, env, FrameValue(f), owner, false, nil)
 }
 
-func getSuperFunction(selector string, env *SymbolTableFrame) *Data {
-	f := env.Frame
+// getSuperFunction looks for the slot above the frame that the running method
+// was found in, which can be one that the frame it runs on inherits from.
+func getSuperFunction(selector string, env *SymbolTableFrame) (fun *Data, owner *FrameMap) {
+	f := env.FrameOwner
 	if f == nil {
-		return nil
+		f = env.Frame
 	}
-
-	fun, _ := f.lookupSuper(selector)
-	return fun
+	return f.lookupSuper(selector)
 }
 
 func SendSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -196,19 +196,14 @@ func SendSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	fun := getSuperFunction(StringValue(selector), env)
+	fun, owner := getSuperFunction(StringValue(selector), env)
 	if fun == nil || !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("Message sent must select a function slot but was %s.", TypeName(TypeOf(fun))), env)
 		return
 	}
 
 	params := Cdr(args)
-	frameEnv := NewSymbolTableFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
-	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
-	if err != nil {
-		return
-	}
-	return FunctionValue(fun).ApplyWithoutEval(params, frameEnv)
+	return FunctionValue(fun).internalApply(params, env, env.Frame, owner, false, nil)
 }
 
 func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -230,8 +225,8 @@ func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	fun, found := FrameValue(f).lookup(StringValue(k))
-	if !found {
+	fun, owner := FrameValue(f).lookup(StringValue(k))
+	if owner == nil {
 		err = ProcessError(fmt.Sprintf("apply-slot requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
@@ -264,7 +259,7 @@ func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	return FunctionValue(fun).ApplyWithoutEvalWithFrame(argList, env, FrameValue(f))
+	return FunctionValue(fun).internalApply(argList, env, FrameValue(f), owner, false, nil)
 }
 
 func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -282,7 +277,7 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 		return
 	}
 
-	fun := getSuperFunction(StringValue(selector), env)
+	fun, owner := getSuperFunction(StringValue(selector), env)
 	if fun == nil || !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("Message sent must select a function slot but was %s.", TypeName(TypeOf(fun))), env)
 		return
@@ -311,12 +306,7 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 		return
 	}
 
-	frameEnv := NewSymbolTableFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
-	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
-	if err != nil {
-		return
-	}
-	return FunctionValue(fun).ApplyWithoutEval(argList, frameEnv)
+	return FunctionValue(fun).internalApply(argList, env, env.Frame, owner, false, nil)
 }
 
 func CloneImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 7171c05..5869334 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -12,7 +12,6 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"sync/atomic"
 )
 
 const (
@@ -25,6 +24,7 @@ type SymbolTableFrame struct {
 	Parent       *SymbolTableFrame
 	Previous     *SymbolTableFrame
 	Frame        *FrameMap
+	FrameOwner   *FrameMap // where the method running on Frame was found
 	Bindings     map[string]*Binding
 	Mutex        sync.RWMutex
 	CurrentCode  *list.List
@@ -130,12 +130,13 @@ func (self *SymbolTableFrame) DumpHeader() {
 }
 
 func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFrame {
-	var f *FrameMap = nil
+	var f, owner *FrameMap = nil, nil
 	if p != nil {
 		f = p.Frame
+		owner = p.FrameOwner
 	}
 	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, FrameOwner: owner, CurrentCode: list.New(), IsRestricted: restricted}
 	if p == nil || p == Global {
 		TopLevelEnvironments.Mutex.Lock()
 		TopLevelEnvironments.Environments[name] = env
@@ -145,11 +146,13 @@ func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFram
 }
 
 func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
+	var owner *FrameMap = nil
 	if f == nil {
 		f = p.Frame
+		owner = p.FrameOwner
 	}
 	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding, 10), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding, 10), Frame: f, FrameOwner: owner, CurrentCode: list.New(), IsRestricted: restricted}
 	if p == nil || p == Global {
 		TopLevelEnvironments.Mutex.Lock()
 		TopLevelEnvironments.Environments[name] = env
@@ -277,38 +280,58 @@ func (self *SymbolTableFrame) BindLocallyTo(symbol *Data, value *Data) (*Data, e
 	return binding.Val, nil
 }
 
-func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFunction bool) *Data {
+// lookup returns the value of the symbol. If it is local to the environment or
+// a slot of its frame it also returns the frame, on which it has to run if it
+// is a function, and the frame it was found in.
+func (self *SymbolTableFrame) lookup(symbol *Data, needFunction bool) (value *Data, frame *FrameMap, owner *FrameMap) {
 	localBinding, found := self.findBindingInLocalFrameFor(symbol)
 	if found {
-		if FunctionP(localBinding.Val) {
-			atomic.StoreInt32(&FunctionValue(localBinding.Val).SlotFunction, 1)
-		}
-		return localBinding.Val
+		return localBinding.Val, self.Frame, self.FrameOwner
 	}
 
 	if self.HasFrame() {
-		f := self.Frame
 		naked := StringValue(NakedSymbolFrom(symbol))
-		if slotValue, found := f.lookup(naked); found {
-			if FunctionP(slotValue) {
-				atomic.StoreInt32(&FunctionValue(slotValue).SlotFunction, 1)
-				return slotValue
-			}
-			if !needFunction {
-				return slotValue
+		if slotValue, owner := self.Frame.lookup(naked); owner != nil {
+			if FunctionP(slotValue) || !needFunction {
+				return slotValue, self.Frame, owner
 			}
 		}
 	}
 
 	binding, found := self.FindBindingFor(symbol)
 	if found {
-		if FunctionP(binding.Val) {
-			atomic.StoreInt32(&FunctionValue(binding.Val).SlotFunction, 0)
-		}
-		return binding.Val
+		return binding.Val, nil, nil
 	} else {
-		return EmptyCons()
+		return EmptyCons(), nil, nil
+	}
+}
+
+func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFunction bool) *Data {
+	value, _, _ := self.lookup(symbol, needFunction)
+	return value
+}
+
+// frameForFunction returns what lookup does for a function that is not called
+// by its name.
+func (self *SymbolTableFrame) frameForFunction(function *Function) (frame *FrameMap, owner *FrameMap) {
+	if !self.HasFrame() {
+		return nil, nil
+	}
+
+	self.Mutex.RLock()
+	for _, b := range self.Bindings {
+		if val := b.Val; FunctionP(val) && FunctionValue(val) == function {
+			self.Mutex.RUnlock()
+			return self.Frame, self.FrameOwner
+		}
+	}
+	self.Mutex.RUnlock()
+
+	owner = self.Frame.ownerOfFunction(function)
+	if owner == nil {
+		return nil, nil
 	}
+	return self.Frame, owner
 }
 
 func (self *SymbolTableFrame) ValueOf(symbol *Data) *Data {
-- 
2.43.0


From 4186043023a45232e43971a421e77e5f97f43dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 07/30] fix: environment operations on shared environments

Enumerating an environment iterated over its bindings without the lock, which
crashes the host when another process defines something; a lookup read the
value several times while it could change; environment-assign! overwrote
protected bindings; and every call of a global function registered the
environment of that call as a top-level environment, hiding the one with the
same name.
---
 function.go           |  4 ++--
 macro.go              |  2 +-
 prim_environment.go   | 34 ++++++++++++++++++++++------------
 prim_special_forms.go |  6 +++---
 symbol_table_frame.go | 39 ++++++++++++++++++++++-----------------
 5 files changed, 50 insertions(+), 35 deletions(-)

diff --git a/function.go b/function.go
index c77dc9f..e854f0f 100644
--- a/function.go
+++ b/function.go
@@ -98,7 +98,7 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 // internalApply runs the function on frame, having been found in owner, or, if
 // frame is nil, on the frame of the environment it was made in.
 func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, owner *FrameMap, eval bool, proc *Process) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelowWithFrame(self.Env, frame, self.Name)
+	localEnv := newLocalEnvironment(self.Env, frame, self.Name)
 	if frame != nil {
 		localEnv.FrameOwner = owner
 	}
@@ -164,7 +164,7 @@ func (self *Function) ApplyWithoutEvalWithFrame(args *Data, argEnv *SymbolTableF
 }
 
 func (self *Function) ApplyOveriddingEnvironment(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelow(argEnv, self.Name)
+	localEnv := newLocalEnvironment(argEnv, nil, self.Name)
 	err = self.makeLocalBindings(args, argEnv, localEnv, true)
 	if err != nil {
 		return
diff --git a/macro.go b/macro.go
index c8f7f9c..693e44c 100644
--- a/macro.go
+++ b/macro.go
@@ -79,7 +79,7 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 }
 
 func (self *Macro) Expand(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelow(self.Env, self.Name)
+	localEnv := newLocalEnvironment(self.Env, nil, self.Name)
 	err = self.makeLocalBindings(args, argEnv, localEnv, false)
 	if err != nil {
 		return
diff --git a/prim_environment.go b/prim_environment.go
index bb592b3..cd867f3 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -7,6 +7,10 @@
 
 package golisp
 
+import (
+	"fmt"
+)
+
 func RegisterEnvironmentPrimitives() {
 	MakePrimitiveFunction("environment?", "1", EnvironmentPImpl)
 	MakePrimitiveFunction("environment-has-parent?", "1", EnvironmentParentPImpl)
@@ -65,7 +69,7 @@ func EnvironmentBoundNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.bindingsNow() {
 		keys = append(keys, val.Sym)
 	}
 	return ArrayToList(keys), nil
@@ -78,7 +82,7 @@ func EnvironmentMacroNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.bindingsNow() {
 		if MacroP(val.Val) {
 			keys = append(keys, val.Sym)
 		}
@@ -93,11 +97,11 @@ func EnvironmentBindingsImpl(args *Data, env *SymbolTableFrame) (result *Data, e
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
-		if NilP(val.Val) {
+	for _, val := range e.bindingsNow() {
+		if value := val.Val; NilP(value) {
 			keys = append(keys, InternalMakeList(val.Sym))
 		} else {
-			keys = append(keys, InternalMakeList(val.Sym, val.Val))
+			keys = append(keys, InternalMakeList(val.Sym, value))
 		}
 	}
 	return ArrayToList(keys), nil
@@ -183,14 +187,15 @@ func EnvironmentLookupImpl(args *Data, env *SymbolTableFrame) (result *Data, err
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if found {
-		if binding.Val == nil {
+		value := binding.Val
+		if value == nil {
 			err = ProcessError("environment-lookup: name is unassigned", env)
 			return
-		} else if MacroP(binding.Val) {
+		} else if MacroP(value) {
 			err = ProcessError("environment-lookup: name is bound to a macro", env)
 			return
 		} else {
-			return binding.Val, nil
+			return value, nil
 		}
 	} else {
 		err = ProcessError("environment-lookup: name is unbound", env)
@@ -210,10 +215,11 @@ func EnvironmentLookupMacroImpl(args *Data, env *SymbolTableFrame) (result *Data
 
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
-	if found && MacroP(binding.Val) {
-		result = binding.Val
-	} else {
-		result = LispFalse
+	result = LispFalse
+	if found {
+		if value := binding.Val; MacroP(value) {
+			result = value
+		}
 	}
 	return
 }
@@ -246,6 +252,10 @@ func EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if found {
+		if binding.Protected {
+			err = ProcessError(fmt.Sprintf("environment-assign!: %s is a protected binding", StringValue(Cadr(args))), env)
+			return
+		}
 		result = Caddr(args)
 		binding.Val = result
 	}
diff --git a/prim_special_forms.go b/prim_special_forms.go
index d742d1b..224c709 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -267,7 +267,7 @@ func LetCommon(args *Data, env *SymbolTableFrame, star bool, rec bool) (result *
 		return
 	}
 
-	localEnv := NewSymbolTableFrameBelow(env, "let")
+	localEnv := newLocalEnvironment(env, nil, "let")
 	localEnv.Previous = env
 	var evalEnv *SymbolTableFrame
 	if star || rec {
@@ -317,7 +317,7 @@ func namedLetImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 	varsList := ArrayToList(vars)
 	initialsList := ArrayToList(initials)
-	localEnv := NewSymbolTableFrameBelow(env, StringValue(name))
+	localEnv := newLocalEnvironment(env, nil, StringValue(name))
 	localEnv.Previous = env
 	_, err = localEnv.BindLocallyTo(name, nil)
 	if err != nil {
@@ -401,7 +401,7 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	localEnv := NewSymbolTableFrameBelow(env, "do")
+	localEnv := newLocalEnvironment(env, nil, "do")
 	localEnv.Previous = env
 	err = bindLetLocals(bindings, false, localEnv, env)
 	if err != nil {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 5869334..94f39cc 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -129,30 +129,24 @@ func (self *SymbolTableFrame) DumpHeader() {
 	fmt.Printf("%s\n", self.CurrentCodeString())
 }
 
-func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFrame {
-	var f, owner *FrameMap = nil, nil
-	if p != nil {
+// newLocalEnvironment makes the environment of a call or of a form that binds
+// variables, on frame f or, if that is nil, on the frame of p.
+func newLocalEnvironment(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
+	var owner *FrameMap = nil
+	if f == nil && p != nil {
 		f = p.Frame
 		owner = p.FrameOwner
 	}
 	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, FrameOwner: owner, CurrentCode: list.New(), IsRestricted: restricted}
-	if p == nil || p == Global {
-		TopLevelEnvironments.Mutex.Lock()
-		TopLevelEnvironments.Environments[name] = env
-		TopLevelEnvironments.Mutex.Unlock()
-	}
-	return env
+	return &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, FrameOwner: owner, CurrentCode: list.New(), IsRestricted: restricted}
+}
+
+func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFrame {
+	return NewSymbolTableFrameBelowWithFrame(p, nil, name)
 }
 
 func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
-	var owner *FrameMap = nil
-	if f == nil {
-		f = p.Frame
-		owner = p.FrameOwner
-	}
-	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding, 10), Frame: f, FrameOwner: owner, CurrentCode: list.New(), IsRestricted: restricted}
+	env := newLocalEnvironment(p, f, name)
 	if p == nil || p == Global {
 		TopLevelEnvironments.Mutex.Lock()
 		TopLevelEnvironments.Environments[name] = env
@@ -172,6 +166,17 @@ func (self *SymbolTableFrame) BindingNamed(name string) (b *Binding, present boo
 	return
 }
 
+// bindingsNow returns the bindings the environment itself has at the moment.
+func (self *SymbolTableFrame) bindingsNow() []*Binding {
+	self.Mutex.RLock()
+	bindings := make([]*Binding, 0, len(self.Bindings))
+	for _, b := range self.Bindings {
+		bindings = append(bindings, b)
+	}
+	self.Mutex.RUnlock()
+	return bindings
+}
+
 func (self *SymbolTableFrame) SetBindingAt(name string, b *Binding) {
 	self.Mutex.Lock()
 	self.Bindings[name] = b
-- 
2.43.0


From 4af04e10366802203a78f0b491715dfc60821cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:40 +0000
Subject: [PATCH 08/30] fix: concurrent first uses of a name intern one symbol,
 not several

---
 symbol_table_frame.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 94f39cc..972f8c5 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -52,8 +52,11 @@ func Intern(name string) (sym *Data) {
 	internedSymbols.Mutex.RUnlock()
 	if sym == nil {
 		internedSymbols.Mutex.Lock()
-		sym = SymbolWithName(name)
-		internedSymbols.Symbols[name] = sym
+		sym = internedSymbols.Symbols[name]
+		if sym == nil {
+			sym = SymbolWithName(name)
+			internedSymbols.Symbols[name] = sym
+		}
 		internedSymbols.Mutex.Unlock()
 	}
 	return
-- 
2.43.0


From 680e448480d1c5a9d5cdd48f55d7c1252b502ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:17 +0000
Subject: [PATCH 09/30] fix: forms that evaluate several expressions stop at
 the first failure

set!, set-car!, set-cdr!, set-nth! and profile went on after a failure, which
the next evaluation then replaced; do took a failing step expression for the
end of the loop; find, find-tail and memp replaced the cause of a failing
predicate with a complaint about its value.
---
 prim_list_functions.go |  6 ++++++
 prim_mutators.go       | 13 +++++++++++++
 prim_special_forms.go  |  3 ++-
 prim_system.go         |  1 +
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/prim_list_functions.go b/prim_list_functions.go
index 4aba735..576304c 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -434,6 +434,9 @@ func FindTailImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return
+		}
 
 		if !BooleanP(found) {
 			err = ProcessError("find-tail needs a predicate function as its first argument.", env)
@@ -463,6 +466,9 @@ func FindImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find needs a predicate function as its first argument.", env)
 			return
diff --git a/prim_mutators.go b/prim_mutators.go
index e1f8523..d915abb 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -20,6 +20,7 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	symbol := Car(args)
 	if !SymbolP(symbol) {
 		err = ProcessError("set! requires a raw (unevaluated) symbol as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -30,8 +31,12 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
+	if err != nil {
+		return
+	}
 	if !PairP(pair) {
 		err = ProcessError("set-car! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -43,8 +48,12 @@ func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
+	if err != nil {
+		return
+	}
 	if !PairP(pair) {
 		err = ProcessError("set-cdr! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -57,8 +66,12 @@ func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	l, err := Eval(First(args), env)
+	if err != nil {
+		return
+	}
 	if !ListP(l) {
 		err = ProcessError("set-nth! requires a list as it's first argument.", env)
+		return
 	}
 	index, err := Eval(Second(args), env)
 	if err != nil {
diff --git a/prim_special_forms.go b/prim_special_forms.go
index 224c709..d3acbf4 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -437,7 +437,8 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			}
 		}
 
-		if rebindDoLocals(bindings, localEnv) != nil {
+		err = rebindDoLocals(bindings, localEnv)
+		if err != nil {
 			return
 		}
 	}
diff --git a/prim_system.go b/prim_system.go
index 83daedf..3290286 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -255,6 +255,7 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if Length(args) == 2 {
 		if !StringP(Cadr(args)) {
 			err = ProcessError(fmt.Sprintf("profile requires a string filename, but received %s.", String(Cadr(args))), env)
+			return
 		}
 		StartProfiling(StringValue(Cadr(args)))
 	} else {
-- 
2.43.0


From 4ae6674609750dcf9f9e0e7a2ae867c28a145928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:40 +0000
Subject: [PATCH 10/30] fix: apply without an argument list is an error, not a
 panic

---
 prim_special_forms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index d3acbf4..1920a8e 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -455,7 +455,7 @@ func ApplyImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 	ary := ToArray(Cdr(args))
 	var argList *Data
-	if ListP(ary[len(ary)-1]) {
+	if len(ary) > 0 && ListP(ary[len(ary)-1]) {
 		if len(ary) > 1 {
 			argList = ArrayToListWithTail(ary[0:len(ary)-1], ary[len(ary)-1])
 		} else {
-- 
2.43.0


From 462f52af8cf086801c65c46d77d16874846ff817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:58 +0000
Subject: [PATCH 11/30] fix: general-car-cdr with a negative path is an error,
 not an endless loop

---
 prim_list_access.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_list_access.go b/prim_list_access.go
index 8ef0936..ad9c334 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -196,8 +196,8 @@ func CddddrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func GeneralCarCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	list := Car(args)
 	path := IntegerValue(Cadr(args))
-	if path == 0 {
-		err = errors.New("general-car-cdr requires a non-zero path specifier")
+	if path <= 0 {
+		err = errors.New("general-car-cdr requires a positive path specifier")
 		return
 	}
 	for path != 1 {
-- 
2.43.0


From 9b846d4c2111b4feb2dcbfb51e2282ef6ffffd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:09 +0000
Subject: [PATCH 12/30] fix: every port has its own tokenizer, and what ends a
 source early is reported

---
 parser.go    | 69 +++++++++++++++++++++++++++++++---------------------
 prim_io.go   |  4 ++-
 tokenizer.go | 62 +++++++++++++++++++++++++++++++++++++---------
 3 files changed, 95 insertions(+), 40 deletions(-)

diff --git a/parser.go b/parser.go
index 174d45d..79ab679 100644
--- a/parser.go
+++ b/parser.go
@@ -77,7 +77,11 @@ func parseConsCell(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		if tok == PERIOD {
 			s.ConsumeToken()
 			cdr, eof, err = parseExpression(s)
-			if eof || err != nil {
+			if err != nil {
+				return
+			}
+			if eof {
+				err = errors.New("Unexpected EOF (expected closing parenthesis)")
 				return
 			}
 			tok, _ = s.NextToken()
@@ -90,11 +94,11 @@ func parseConsCell(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 			return
 		} else {
 			car, eof, err = parseExpression(s)
-			if eof {
-				err = errors.New("Unexpected EOF (expected closing parenthesis)")
+			if err != nil {
 				return
 			}
-			if err != nil {
+			if eof {
+				err = errors.New("Unexpected EOF (expected closing parenthesis)")
 				return
 			}
 			cells = append(cells, car)
@@ -138,11 +142,11 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	cells := make([]*Data, 0, 10)
 	for tok != RBRACKET {
 		element, eof, err = parseExpression(s)
-		if eof {
-			err = errors.New("Unexpected EOF (expected closing bracket)")
+		if err != nil {
 			return
 		}
-		if err != nil {
+		if eof {
+			err = errors.New("Unexpected EOF (expected closing bracket)")
 			return
 		}
 		if IntegerP(element) && IntegerValue(element) > 255 {
@@ -180,11 +184,11 @@ func parseFrame(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	cells := make([]*Data, 0, 10)
 	for tok != RBRACE {
 		element, eof, err = parseExpression(s)
-		if eof {
-			err = errors.New("Unexpected EOF (expected closing brace)")
+		if err != nil {
 			return
 		}
-		if err != nil {
+		if eof {
+			err = errors.New("Unexpected EOF (expected closing brace)")
 			return
 		}
 		cells = append(cells, element)
@@ -196,13 +200,29 @@ func parseFrame(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	return
 }
 
+// parseQuoted parses the expression a quoting character applies to
+func parseQuoted(s *Tokenizer, form string) (sexpr *Data, err error) {
+	sexpr, eof, err := parseExpression(s)
+	if err != nil {
+		return
+	}
+	if eof {
+		err = errors.New("Unexpected EOF (expected a quoted expression)")
+		return
+	}
+	if sexpr != nil {
+		sexpr = Cons(Intern(form), Cons(sexpr, nil))
+	}
+	return
+}
+
 func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	for {
 		tok, lit := s.NextToken()
 		switch tok {
 		case EOF:
 			eof = true
-			err = nil
+			err = s.Err
 			return
 		case COMMENT:
 			s.ConsumeToken()
@@ -253,31 +273,19 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 			return
 		case QUOTE:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
-			if sexpr != nil {
-				sexpr = Cons(Intern("quote"), Cons(sexpr, nil))
-			}
+			sexpr, err = parseQuoted(s, "quote")
 			return
 		case BACKQUOTE:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
-			if sexpr != nil {
-				sexpr = Cons(Intern("quasiquote"), Cons(sexpr, nil))
-			}
+			sexpr, err = parseQuoted(s, "quasiquote")
 			return
 		case COMMA:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
-			if sexpr != nil {
-				sexpr = Cons(Intern("unquote"), Cons(sexpr, nil))
-			}
+			sexpr, err = parseQuoted(s, "unquote")
 			return
 		case COMMAAT:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
-			if sexpr != nil {
-				sexpr = Cons(Intern("unquote-splicing"), Cons(sexpr, nil))
-			}
+			sexpr, err = parseQuoted(s, "unquote-splicing")
 			return
 		case ILLEGAL:
 			err = errors.New(fmt.Sprintf("Illegal character: %s", lit))
@@ -380,12 +388,17 @@ func ParseAndEvalInEnvironment(src string, env *SymbolTableFrame) (result *Data,
 }
 
 func ParseObjectFromFileInEnv(port *os.File, env *SymbolTableFrame) (result *Data, err error) {
-	result, eof, err := parseExpression(NewTokenizerFromFile(port))
+	tokenizer := NewTokenizerFromFile(port)
+	tokenizer.mutex.Lock()
+	defer tokenizer.mutex.Unlock()
+
+	result, eof, err := parseExpression(tokenizer)
 	if err != nil {
 		return
 	}
 
 	if eof {
+		forgetTokenizerForFile(port)
 		result = EofObject
 	}
 
diff --git a/prim_io.go b/prim_io.go
index b2c919b..a168a08 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -73,7 +73,9 @@ func ClosePortImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	(*os.File)(PortValue(p)).Close()
+	port := (*os.File)(PortValue(p))
+	forgetTokenizerForFile(port)
+	err = port.Close()
 	return
 
 }
diff --git a/tokenizer.go b/tokenizer.go
index 0b3cf9f..2dff229 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -8,11 +8,13 @@
 package golisp
 
 import (
+	"errors"
 	"fmt"
 	"github.com/SteelSeries/bufrr"
 	"io"
 	"os"
 	"strings"
+	"sync"
 	"unicode"
 )
 
@@ -49,10 +51,13 @@ type Tokenizer struct {
 	NextCh         rune
 	Eof            bool
 	AlmostEof      bool
+	Err            error // why the source ended early
+	mutex          sync.Mutex
 }
 
-var mostRecentFileTokenizer *Tokenizer
-var mostRecentlyUsedFile *os.File
+// The tokenizers of the files being read: each holds what has been read ahead from its file.
+var fileTokenizers = make(map[*os.File]*Tokenizer)
+var fileTokenizersMutex sync.Mutex
 
 func NewTokenizer(scanner *bufrr.Reader) *Tokenizer {
 	t := &Tokenizer{Source: scanner}
@@ -66,25 +71,51 @@ func NewTokenizerFromString(src string) *Tokenizer {
 }
 
 func NewTokenizerFromFile(src *os.File) *Tokenizer {
-	if mostRecentlyUsedFile == src {
-		return mostRecentFileTokenizer
-	} else {
-		t := NewTokenizer(bufrr.NewReader(src))
-		mostRecentFileTokenizer = t
-		mostRecentlyUsedFile = src
-		return t
+	fileTokenizersMutex.Lock()
+	t, found := fileTokenizers[src]
+	if !found {
+		t = &Tokenizer{}
+		fileTokenizers[src] = t
+	}
+	fileTokenizersMutex.Unlock()
+
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+	if t.Source == nil {
+		t.Source = bufrr.NewReader(src)
+		t.Advance()
+		t.ConsumeToken()
 	}
+	return t
+}
+
+func forgetTokenizerForFile(src *os.File) {
+	fileTokenizersMutex.Lock()
+	defer fileTokenizersMutex.Unlock()
+	delete(fileTokenizers, src)
 }
 
 func (self *Tokenizer) Advance() {
+	if self.Err != nil {
+		self.Eof = true
+		self.NextCh = 0
+		return
+	}
 	var err error
 	self.CurrentCh, _, err = self.Source.ReadRune()
-	if err == io.EOF || self.CurrentCh == -1 {
+	if err != nil && err != io.EOF {
+		self.Err = err
+		self.Eof = true
+		self.NextCh = 0
+	} else if err == io.EOF || self.CurrentCh == -1 {
 		self.Eof = true
 		self.NextCh = 0
 	} else {
 		self.NextCh, _, err = self.Source.ReadRune()
-		if err == io.EOF || self.NextCh == -1 {
+		if err != nil && err != io.EOF {
+			self.Err = err
+			self.NextCh = 0
+		} else if err == io.EOF || self.NextCh == -1 {
 			self.AlmostEof = true
 		} else {
 			self.Source.UnreadRune()
@@ -210,6 +241,9 @@ func (self *Tokenizer) readString() (token int, lit string) {
 		self.Advance()
 	}
 	if self.isEof() {
+		if self.Err == nil {
+			self.Err = errors.New("Unexpected EOF (expected closing quote)")
+		}
 		return EOF, ""
 	}
 	self.Advance()
@@ -317,6 +351,12 @@ func (self *Tokenizer) readNextToken() (token int, lit string) {
 
 func (self *Tokenizer) ConsumeToken() {
 	self.LookaheadToken, self.LookaheadLit = self.readNextToken()
+	if self.Err != nil && self.isEof() {
+		switch self.LookaheadToken {
+		case SYMBOL, NUMBER, HEXNUMBER, BINARYNUMBER, FLOAT, COMMENT, COMMA, ILLEGAL: // may have been cut short
+			self.LookaheadToken, self.LookaheadLit = EOF, ""
+		}
+	}
 	if self.LookaheadToken == COMMENT { // skip comments
 		self.ConsumeToken()
 	}
-- 
2.43.0


From 71c45847172ab06524266af2b96d139b6ff01313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 13/30] fix: write escapes backslashes and keeps quote forms
 apart, so that they read back

---
 data.go   | 4 ++--
 parser.go | 4 +---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/data.go b/data.go
index ebf60a7..514affd 100644
--- a/data.go
+++ b/data.go
@@ -959,7 +959,7 @@ func isEqualWithin(d *Data, o *Data, within map[framePair]bool) bool {
 func escapeQuotes(str string) string {
 	buffer := make([]rune, 0, 10)
 	for _, ch := range str {
-		if rune(ch) == '"' {
+		if ch == '"' || ch == '\\' {
 			buffer = append(buffer, '\\')
 		}
 		buffer = append(buffer, rune(ch))
@@ -991,7 +991,7 @@ func stringWithin(d *Data, within map[*FrameMap]bool) string {
 				c = Cdr(c)
 			}
 			if NilP(c) {
-				if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" {
+				if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" && len(contents) <= 2 {
 					if len(contents) == 1 {
 						return fmt.Sprintf("'()")
 					} else {
diff --git a/parser.go b/parser.go
index 79ab679..6b1b7a6 100644
--- a/parser.go
+++ b/parser.go
@@ -210,9 +210,7 @@ func parseQuoted(s *Tokenizer, form string) (sexpr *Data, err error) {
 		err = errors.New("Unexpected EOF (expected a quoted expression)")
 		return
 	}
-	if sexpr != nil {
-		sexpr = Cons(Intern(form), Cons(sexpr, nil))
-	}
+	sexpr = Cons(Intern(form), Cons(sexpr, nil))
 	return
 }
 
-- 
2.43.0


From 817909203d7dfb9ecafaff77f8255b97636a3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:55 +0000
Subject: [PATCH 14/30] fix: loading goes on after a top-level form that is the
 empty list

---
 parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser.go b/parser.go
index 6b1b7a6..95735ea 100644
--- a/parser.go
+++ b/parser.go
@@ -359,9 +359,6 @@ func ParseAndEvalAllInEnvironment(src string, env *SymbolTableFrame) (result *Da
 		if eof {
 			return
 		}
-		if NilP(sexpr) {
-			return
-		}
 		result, err = Eval(sexpr, env)
 		if err != nil {
 			return
-- 
2.43.0


From 092956113d42bfab54c7de92ebbced7b0e0059e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:34 +0000
Subject: [PATCH 15/30] fix: a panicking expression does not end the
 interactive session

---
 repl.go | 67 +++++++++++++++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/repl.go b/repl.go
index 2a5898d..30d7bfb 100644
--- a/repl.go
+++ b/repl.go
@@ -22,39 +22,44 @@ func Repl() {
 	lastInput := ""
 	replEnv := NewSymbolTableFrameBelow(Global, "Repl")
 	for true {
-		defer func() {
-			if x := recover(); x != nil {
-				fmt.Printf("Don't Panic! %v\n", x)
-			}
-		}()
-		DebugCurrentFrame = nil
-		DebugSingleStep = false
-		DebugEvalInDebugRepl = false
-		replEnv.CurrentCode = list.New()
-		inputp := ReadLine(&prompt)
-		if inputp == nil {
-			QuitImpl(nil, nil)
-		} else {
-			input := *inputp
-			//			fmt.Printf("input: <%s>\n", inputp)
-			if input != "" {
-				code, err := Parse(input)
+		replLine(&prompt, &lastInput, replEnv)
+	}
+}
+
+// replLine reads one line and answers it.
+func replLine(prompt *string, lastInput *string, replEnv *SymbolTableFrame) {
+	defer func() {
+		if x := recover(); x != nil {
+			fmt.Printf("Don't Panic! %v\n", x)
+		}
+	}()
+	DebugCurrentFrame = nil
+	DebugSingleStep = false
+	DebugEvalInDebugRepl = false
+	replEnv.CurrentCode = list.New()
+	inputp := ReadLine(prompt)
+	if inputp == nil {
+		QuitImpl(nil, nil)
+	} else {
+		input := *inputp
+		//			fmt.Printf("input: <%s>\n", inputp)
+		if input != "" {
+			code, err := Parse(input)
+			if err != nil {
+				fmt.Printf("Error: %s\n", err)
+			} else {
+				if input != *lastInput {
+					AddHistory(input)
+					*lastInput = input
+				}
+				d, err := Eval(code, replEnv)
 				if err != nil {
-					fmt.Printf("Error: %s\n", err)
-				} else {
-					if input != lastInput {
-						AddHistory(input)
-						lastInput = input
-					}
-					d, err := Eval(code, replEnv)
-					if err != nil {
-						fmt.Printf("Error in evaluation: %s\n", err)
-						if DebugOnError {
-							DebugRepl(DebugErrorEnv)
-						}
-					} else {
-						fmt.Printf("==> %s\n", String(d))
+					fmt.Printf("Error in evaluation: %s\n", err)
+					if DebugOnError {
+						DebugRepl(DebugErrorEnv)
 					}
+				} else {
+					fmt.Printf("==> %s\n", String(d))
 				}
 			}
 		}
-- 
2.43.0


From 5afc96356258b7d9cb9a4297fa2a009abe7cc89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:22 +0000
Subject: [PATCH 16/30] fix: a panic or the end of input in the debugger is
 handled like in the session

---
 prim_debug.go | 240 ++++++++++++++++++++++++++------------------------
 1 file changed, 125 insertions(+), 115 deletions(-)

diff --git a/prim_debug.go b/prim_debug.go
index d0763f1..69a2abc 100644
--- a/prim_debug.go
+++ b/prim_debug.go
@@ -122,133 +122,143 @@ func DebugRepl(env *SymbolTableFrame) {
 	env.DumpHeader()
 	prompt := "D> "
 	lastInput := ""
-	for true {
-		defer func() {
-			if x := recover(); x != nil {
-				println("Don't Panic!")
-			}
-		}()
-		input := *ReadLine(&prompt)
-		if input != "" {
-			if input != lastInput {
-				AddHistory(input)
-			}
-			lastInput = input
-			if strings.HasPrefix(input, DebugCommandPrefix) {
-				cmd := strings.TrimPrefix(input, DebugCommandPrefix)
-				tokens := strings.Split(cmd, " ")
-				switch tokens[0] {
-				case "(+":
-					f := funcOrNil(tokens[1], env)
-					if f != nil {
-						DebugOnEntry.Add(FunctionValue(f).Name)
-					}
-				case "(-":
-					f := funcOrNil(tokens[1], env)
-					if f != nil && DebugOnEntry.Has(FunctionValue(f).Name) {
-						DebugOnEntry.Remove(FunctionValue(f).Name)
-					}
-				case "(":
-					for _, f := range DebugOnEntry.List() {
-						fmt.Printf("%s\n", f)
-					}
-				case "?":
-					fmt.Printf("SteelSeries/GoLisp Debugger\n")
-					fmt.Printf("---------------------------\n")
-					fmt.Printf(":(+ func  - debug on entry to func\n")
-					fmt.Printf(":(- func  - don't debug on entry to func\n")
-					fmt.Printf(":(        - show functions marked as debug on entry\n")
-					fmt.Printf(":?        - show this command summary\n")
-					fmt.Printf(":b        - show the environment stack\n")
-					fmt.Printf(":c        - continue, exiting the debugger\n")
-					fmt.Printf(":d        - do a full dump of the environment stack\n")
-					fmt.Printf(":e on/off - Enable/disable debug on error\n")
-					fmt.Printf(":f frame# - do a full dump of a single environment frame\n")
-					//fmt.Printf(":n        - step to next (run to the next evaluation in this frame)\n")
-					fmt.Printf(":q        - quit GoLisp\n")
-					fmt.Printf(":r sexpr  - return from the current evaluation with the specified value\n")
-					fmt.Printf(":s        - single step (run to the next evaluation)\n")
-					fmt.Printf(":t on/off - Enable/disable tracing\n")
-					fmt.Printf(":u        - continue until the enclosing environment frame is returned to\n")
-					fmt.Printf("\n")
-				case "b":
-					env.DumpHeaders()
-					fmt.Printf("\n")
-				case "c":
-					DebugCurrentFrame = nil
-					DebugSingleStep = false
-					DebugEvalInDebugRepl = false
-					return
-				case "d":
-					env.Dump()
-				case "e":
-					ok, state := processState(tokens)
-					if ok {
-						DebugOnError = state
-					}
-				case "f":
-					var fnum int
-					if len(tokens) != 2 {
-						fmt.Printf("Missing frame number.\n")
-					} else {
-						_, err := fmt.Sscanf(tokens[1], "%d", &fnum)
-						if err != nil {
-							fmt.Printf("Bad frame number: '%s'. %s\n", tokens[1], err)
-						} else {
-							env.DumpSingleFrame(fnum)
-						}
-					}
-					//				case "n":
+	for !debugLine(&prompt, &lastInput, env) {
+	}
+}
 
-				case "q":
-					QuitImpl(nil, nil)
-				case "r":
-					DebugEvalInDebugRepl = true
-					code, err := Parse(strings.Join(tokens[1:], " "))
-					d, err := Eval(code, env)
-					DebugEvalInDebugRepl = false
+// debugLine reads one line and obeys it, telling whether to leave the debugger.
+func debugLine(prompt *string, lastInput *string, env *SymbolTableFrame) (leave bool) {
+	defer func() {
+		if x := recover(); x != nil {
+			println("Don't Panic!")
+		}
+	}()
+	inputp := ReadLine(prompt)
+	if inputp == nil {
+		QuitImpl(nil, nil)
+		return true
+	}
+	input := *inputp
+	if input != "" {
+		if input != *lastInput {
+			AddHistory(input)
+		}
+		*lastInput = input
+		if strings.HasPrefix(input, DebugCommandPrefix) {
+			cmd := strings.TrimPrefix(input, DebugCommandPrefix)
+			tokens := strings.Split(cmd, " ")
+			switch tokens[0] {
+			case "(+":
+				f := funcOrNil(tokens[1], env)
+				if f != nil {
+					DebugOnEntry.Add(FunctionValue(f).Name)
+				}
+			case "(-":
+				f := funcOrNil(tokens[1], env)
+				if f != nil && DebugOnEntry.Has(FunctionValue(f).Name) {
+					DebugOnEntry.Remove(FunctionValue(f).Name)
+				}
+			case "(":
+				for _, f := range DebugOnEntry.List() {
+					fmt.Printf("%s\n", f)
+				}
+			case "?":
+				fmt.Printf("SteelSeries/GoLisp Debugger\n")
+				fmt.Printf("---------------------------\n")
+				fmt.Printf(":(+ func  - debug on entry to func\n")
+				fmt.Printf(":(- func  - don't debug on entry to func\n")
+				fmt.Printf(":(        - show functions marked as debug on entry\n")
+				fmt.Printf(":?        - show this command summary\n")
+				fmt.Printf(":b        - show the environment stack\n")
+				fmt.Printf(":c        - continue, exiting the debugger\n")
+				fmt.Printf(":d        - do a full dump of the environment stack\n")
+				fmt.Printf(":e on/off - Enable/disable debug on error\n")
+				fmt.Printf(":f frame# - do a full dump of a single environment frame\n")
+				//fmt.Printf(":n        - step to next (run to the next evaluation in this frame)\n")
+				fmt.Printf(":q        - quit GoLisp\n")
+				fmt.Printf(":r sexpr  - return from the current evaluation with the specified value\n")
+				fmt.Printf(":s        - single step (run to the next evaluation)\n")
+				fmt.Printf(":t on/off - Enable/disable tracing\n")
+				fmt.Printf(":u        - continue until the enclosing environment frame is returned to\n")
+				fmt.Printf("\n")
+			case "b":
+				env.DumpHeaders()
+				fmt.Printf("\n")
+			case "c":
+				DebugCurrentFrame = nil
+				DebugSingleStep = false
+				DebugEvalInDebugRepl = false
+				return true
+			case "d":
+				env.Dump()
+			case "e":
+				ok, state := processState(tokens)
+				if ok {
+					DebugOnError = state
+				}
+			case "f":
+				var fnum int
+				if len(tokens) != 2 {
+					fmt.Printf("Missing frame number.\n")
+				} else {
+					_, err := fmt.Sscanf(tokens[1], "%d", &fnum)
 					if err != nil {
-						fmt.Printf("Error in evaluation: %s\n", err)
+						fmt.Printf("Bad frame number: '%s'. %s\n", tokens[1], err)
 					} else {
-						DebugReturnValue = d
-						DebugCurrentFrame = nil
-						DebugSingleStep = false
-						DebugEvalInDebugRepl = false
-						return
-					}
-				case "s":
-					DebugSingleStep = true
-					return
-				case "t":
-					ok, state := processState(tokens)
-					if ok {
-						LispTrace = state
-					}
-				case "u":
-					if env.Parent != nil {
-						DebugCurrentFrame = env
-						return
-					} else {
-						fmt.Printf("Already at top frame.\n")
+						env.DumpSingleFrame(fnum)
 					}
 				}
-			} else {
-				code, err := Parse(input)
+				//				case "n":
+
+			case "q":
+				QuitImpl(nil, nil)
+			case "r":
+				DebugEvalInDebugRepl = true
+				code, err := Parse(strings.Join(tokens[1:], " "))
+				d, err := Eval(code, env)
+				DebugEvalInDebugRepl = false
 				if err != nil {
-					fmt.Printf("Error: %s\n", err)
+					fmt.Printf("Error in evaluation: %s\n", err)
 				} else {
-					DebugEvalInDebugRepl = true
-					d, err := Eval(code, env)
+					DebugReturnValue = d
+					DebugCurrentFrame = nil
+					DebugSingleStep = false
 					DebugEvalInDebugRepl = false
-					if err != nil {
-						fmt.Printf("Error in evaluation: %s\n", err)
-					} else {
-						fmt.Printf("==> %s\n", String(d))
-					}
+					return true
+				}
+			case "s":
+				DebugSingleStep = true
+				return true
+			case "t":
+				ok, state := processState(tokens)
+				if ok {
+					LispTrace = state
+				}
+			case "u":
+				if env.Parent != nil {
+					DebugCurrentFrame = env
+					return true
+				} else {
+					fmt.Printf("Already at top frame.\n")
+				}
+			}
+		} else {
+			code, err := Parse(input)
+			if err != nil {
+				fmt.Printf("Error: %s\n", err)
+			} else {
+				DebugEvalInDebugRepl = true
+				d, err := Eval(code, env)
+				DebugEvalInDebugRepl = false
+				if err != nil {
+					fmt.Printf("Error in evaluation: %s\n", err)
+				} else {
+					fmt.Printf("==> %s\n", String(d))
 				}
 			}
 		}
 	}
+	return
 }
 
 func ProcessError(errorMessage string, env *SymbolTableFrame) error {
-- 
2.43.0


From 233c87a62eded6e4123822f6b82b70cce9c6647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 17/30] fix: processes sharing an environment do not corrupt
 its list of current code

---
 data.go               |  6 +++---
 repl.go               |  3 +--
 symbol_table_frame.go | 24 ++++++++++++++++++++++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/data.go b/data.go
index 514affd..51e4038 100644
--- a/data.go
+++ b/data.go
@@ -1173,7 +1173,7 @@ type calledFunction struct {
 // evalHelper evaluates d; called is not nil if d is in function position.
 func evalHelper(d *Data, env *SymbolTableFrame, called *calledFunction) (result *Data, err error) {
 	if IsInteractive && !DebugEvalInDebugRepl {
-		env.CurrentCode.PushFront(fmt.Sprintf("Eval %s", String(d)))
+		env.pushCurrentCode(fmt.Sprintf("Eval %s", String(d)))
 	}
 
 	logEval(d, env)
@@ -1246,8 +1246,8 @@ func evalHelper(d *Data, env *SymbolTableFrame, called *calledFunction) (result
 		}
 	}
 	logResult(result, env)
-	if IsInteractive && !DebugEvalInDebugRepl && env.CurrentCode.Len() > 0 {
-		env.CurrentCode.Remove(env.CurrentCode.Front())
+	if IsInteractive && !DebugEvalInDebugRepl {
+		env.popCurrentCode()
 	}
 	return result, nil
 }
diff --git a/repl.go b/repl.go
index 30d7bfb..fd813e4 100644
--- a/repl.go
+++ b/repl.go
@@ -8,7 +8,6 @@
 package golisp
 
 import (
-	"container/list"
 	"fmt"
 )
 
@@ -36,7 +35,7 @@ func replLine(prompt *string, lastInput *string, replEnv *SymbolTableFrame) {
 	DebugCurrentFrame = nil
 	DebugSingleStep = false
 	DebugEvalInDebugRepl = false
-	replEnv.CurrentCode = list.New()
+	replEnv.clearCurrentCode()
 	inputp := ReadLine(prompt)
 	if inputp == nil {
 		QuitImpl(nil, nil)
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 972f8c5..2f8abfd 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -70,7 +70,31 @@ func (self *SymbolTableFrame) Depth() int {
 	}
 }
 
+// Processes evaluating in the same environment share its list of current code.
+
+func (self *SymbolTableFrame) pushCurrentCode(code string) {
+	self.Mutex.Lock()
+	defer self.Mutex.Unlock()
+	self.CurrentCode.PushFront(code)
+}
+
+func (self *SymbolTableFrame) popCurrentCode() {
+	self.Mutex.Lock()
+	defer self.Mutex.Unlock()
+	if front := self.CurrentCode.Front(); front != nil {
+		self.CurrentCode.Remove(front)
+	}
+}
+
+func (self *SymbolTableFrame) clearCurrentCode() {
+	self.Mutex.Lock()
+	defer self.Mutex.Unlock()
+	self.CurrentCode.Init()
+}
+
 func (self *SymbolTableFrame) CurrentCodeString() string {
+	self.Mutex.RLock()
+	defer self.Mutex.RUnlock()
 	if self.CurrentCode.Len() > 0 {
 		return self.CurrentCode.Front().Value.(string)
 	} else {
-- 
2.43.0


From 68ca043a6977edde851bf8897904391e7df5789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 18/30] fix: exec starts nothing unless the command is a
 string, and reaps finished commands

---
 prim_system.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim_system.go b/prim_system.go
index 3290286..051bba5 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -272,6 +272,7 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func ExecImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if !StringP(First(args)) {
 		err = ProcessError(fmt.Sprintf("exec requires a string command, but received %s.", String(First(args))), env)
+		return
 	}
 	cmdString := StringValue(First(args))
 
@@ -293,5 +294,8 @@ func ExecImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		cmd = exec.Command(cmdString)
 	}
 	err = cmd.Start()
+	if err == nil {
+		go cmd.Wait() // so that nothing is left of it when it has finished
+	}
 	return
 }
-- 
2.43.0


From 8114a6ecd51b61a1358edab4c96a604d597060b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 19/30] fix: loggers registered at the same time are all kept

---
 logging.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/logging.go b/logging.go
index 91212c1..e4e0130 100644
--- a/logging.go
+++ b/logging.go
@@ -10,12 +10,21 @@ package golisp
 import (
 	"fmt"
 	"log"
+	"sync"
 )
 
 var (
-	loggers []*log.Logger
+	loggers      []*log.Logger
+	loggersMutex sync.RWMutex
 )
 
+// currentLoggers returns the loggers registered so far.
+func currentLoggers() []*log.Logger {
+	loggersMutex.RLock()
+	defer loggersMutex.RUnlock()
+	return loggers
+}
+
 func init() {
 	// Initialize a standard logger to stdout
 	loggers = make([]*log.Logger, 0)
@@ -23,25 +32,27 @@ func init() {
 
 func LogPrintf(format string, a ...interface{}) {
 	fmt.Printf(format, a...)
-	for _, logger := range loggers {
+	for _, logger := range currentLoggers() {
 		logger.Printf(format, a...)
 	}
 }
 
 func LogPrint(a ...interface{}) {
 	fmt.Print(a...)
-	for _, logger := range loggers {
+	for _, logger := range currentLoggers() {
 		logger.Print(a...)
 	}
 }
 
 func LogPrintln(a ...interface{}) {
 	fmt.Println(a...)
-	for _, logger := range loggers {
+	for _, logger := range currentLoggers() {
 		logger.Println(a...)
 	}
 }
 
 func AddLog(newLog *log.Logger) {
-	loggers = append(loggers, newLog)
+	loggersMutex.Lock()
+	defer loggersMutex.Unlock()
+	loggers = append(loggers[:len(loggers):len(loggers)], newLog)
 }
-- 
2.43.0


From 4d635f36292037bb311688d763107af671bdf018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 20/30] fix: profile records keep names that contain a percent
 sign

---
 profiling.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profiling.go b/profiling.go
index 52eced5..ddb9540 100644
--- a/profiling.go
+++ b/profiling.go
@@ -42,9 +42,9 @@ func ProfileEnter(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'enter type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
@@ -53,9 +53,9 @@ func ProfileExit(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'exit type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
-- 
2.43.0


From 13f4ce20af271fd453029fb0f70bc2320149ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 21/30] fix: a panic leaves neither calls without exit record
 nor profiling enabled

---
 function.go           | 6 ++----
 prim_system.go        | 4 ++--
 primitive_function.go | 3 +--
 3 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/function.go b/function.go
index e854f0f..4c0395d 100644
--- a/function.go
+++ b/function.go
@@ -128,6 +128,7 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 	localGuid := atomic.AddInt64(&ProfileGUID, 1) - 1
 
 	ProfileEnter("func", self.Name, localGuid)
+	defer ProfileExit("func", self.Name, localGuid)
 
 	for s := self.Body; NotNilP(s); s = Cdr(s) {
 		result, err = Eval(Car(s), localEnv)
@@ -137,8 +138,6 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 		}
 	}
 
-	ProfileExit("func", self.Name, localGuid)
-
 	return
 }
 
@@ -173,6 +172,7 @@ func (self *Function) ApplyOveriddingEnvironment(args *Data, argEnv *SymbolTable
 	localGuid := atomic.AddInt64(&ProfileGUID, 1) - 1
 
 	ProfileEnter("func", self.Name, localGuid)
+	defer ProfileExit("func", self.Name, localGuid)
 
 	for s := self.Body; NotNilP(s); s = Cdr(s) {
 		result, err = Eval(Car(s), localEnv)
@@ -182,7 +182,5 @@ func (self *Function) ApplyOveriddingEnvironment(args *Data, argEnv *SymbolTable
 		}
 	}
 
-	ProfileExit("func", self.Name, localGuid)
-
 	return
 }
diff --git a/prim_system.go b/prim_system.go
index 051bba5..09e5741 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -262,9 +262,9 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		StartProfiling("")
 	}
 
-	result, err = Eval(Car(args), env)
+	defer EndProfiling()
 
-	EndProfiling()
+	result, err = Eval(Car(args), env)
 
 	return
 }
diff --git a/primitive_function.go b/primitive_function.go
index 8789c47..eeba911 100644
--- a/primitive_function.go
+++ b/primitive_function.go
@@ -257,11 +257,10 @@ func (self *PrimitiveFunction) Apply(args *Data, env *SymbolTableFrame) (result
 	}
 
 	ProfileEnter(fType, self.Name, localGuid)
+	defer ProfileExit(fType, self.Name, localGuid)
 
 	result, err = (self.Body)(ArrayToList(argArray), env)
 
-	ProfileExit(fType, self.Name, localGuid)
-
 	return
 }
 
-- 
2.43.0


From f261dc4be5fb5befdf4e6fdd5f69da39e729c45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 22/30] fix: slots whose names differ in trailing colons do not
 collide in JSON

---
 json_frame_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index a9dc2a3..b9ad1e2 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -252,7 +252,7 @@ func lispWithFramesToJsonWithin(d *Data, within map[*FrameMap]bool) (result inte
 		dict := make(map[string]interface{}, len(slots))
 		for k, v := range slots {
 			if !FunctionP(v) {
-				dict[strings.TrimRight(k, ":")] = lispWithFramesToJsonWithin(v, within)
+				dict[strings.TrimSuffix(k, ":")] = lispWithFramesToJsonWithin(v, within)
 			}
 		}
 		return dict
-- 
2.43.0


From 4a272cc07cf876d02027d7faa7131ea9fe327530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 23/30] fix: the alist made from a JSON object is ordered by
 key, not by hash

---
 json_support.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/json_support.go b/json_support.go
index 06d837d..36e4070 100644
--- a/json_support.go
+++ b/json_support.go
@@ -12,14 +12,20 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"sort"
 )
 
 func JsonToLisp(json interface{}) (result *Data) {
 	mapValue, ok := json.(map[string]interface{})
 	if ok {
 		var alist *Data
-		for key, val := range mapValue {
-			value := JsonToLisp(val)
+		keys := make([]string, 0, len(mapValue))
+		for key := range mapValue {
+			keys = append(keys, key)
+		}
+		sort.Sort(sort.Reverse(sort.StringSlice(keys)))
+		for _, key := range keys {
+			value := JsonToLisp(mapValue[key])
 			alist = Acons(StringWithValue(key), value, alist)
 		}
 		return alist
-- 
2.43.0


From 4d2c8c59ed851a53c2d7a36498ef9f53e4bcf74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 24/30] fix: environment-reference-type and
 environment-assigned? looked at a name's value twice

---
 prim_environment.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prim_environment.go b/prim_environment.go
index cd867f3..858b841 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -121,9 +121,9 @@ func EnvironmentReferenceTypeImpl(args *Data, env *SymbolTableFrame) (result *Da
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if !found {
 		result = Intern("unbound")
-	} else if binding.Val == nil {
+	} else if value := binding.Val; value == nil {
 		result = Intern("unassigned")
-	} else if MacroP(binding.Val) {
+	} else if MacroP(value) {
 		result = Intern("macro")
 	} else {
 		result = Intern("normal")
@@ -159,9 +159,9 @@ func EnvironmentAssignedPImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if found {
-		if binding.Val == nil {
+		if value := binding.Val; value == nil {
 			result = LispFalse
-		} else if MacroP(binding.Val) {
+		} else if MacroP(value) {
 			err = ProcessError("environment-assigned?: name is bound to a macro", env)
 			return
 		} else {
-- 
2.43.0


From c1ade36cfba5b4df54a2b9c84c6ef1a8d47cf082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 25/30] fix: a return value given to the debugger is not left
 to a later line of the session

---
 repl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repl.go b/repl.go
index fd813e4..b983b6a 100644
--- a/repl.go
+++ b/repl.go
@@ -35,6 +35,7 @@ func replLine(prompt *string, lastInput *string, replEnv *SymbolTableFrame) {
 	DebugCurrentFrame = nil
 	DebugSingleStep = false
 	DebugEvalInDebugRepl = false
+	DebugReturnValue = nil
 	replEnv.clearCurrentCode()
 	inputp := ReadLine(prompt)
 	if inputp == nil {
-- 
2.43.0


From 0cdc2d4bc4dda41e4861eb9c9621feebced9c189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 26/30] fix: malformed text given to :r in the debugger is
 reported

---
 prim_debug.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prim_debug.go b/prim_debug.go
index 69a2abc..96a3e39 100644
--- a/prim_debug.go
+++ b/prim_debug.go
@@ -215,7 +215,10 @@ func debugLine(prompt *string, lastInput *string, env *SymbolTableFrame) (leave
 			case "r":
 				DebugEvalInDebugRepl = true
 				code, err := Parse(strings.Join(tokens[1:], " "))
-				d, err := Eval(code, env)
+				var d *Data
+				if err == nil {
+					d, err = Eval(code, env)
+				}
 				DebugEvalInDebugRepl = false
 				if err != nil {
 					fmt.Printf("Error in evaluation: %s\n", err)
-- 
2.43.0


From 2a1d096b8bbc1edca31e2e28913fe99bce4c1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:38 +0000
Subject: [PATCH 27/30] fix: an evaluation beside a debugger session could
 follow the frame it had just left

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 51e4038..fe3e8a3 100644
--- a/data.go
+++ b/data.go
@@ -1183,7 +1183,7 @@ func evalHelper(d *Data, env *SymbolTableFrame, called *calledFunction) (result
 		DebugRepl(env)
 	}
 
-	if DebugCurrentFrame != nil && env == DebugCurrentFrame.Previous {
+	if frame := DebugCurrentFrame; frame != nil && env == frame.Previous {
 		DebugCurrentFrame = nil
 		DebugRepl(env)
 	}
-- 
2.43.0


From b0792d4fb3d220db470441a786446b44af41c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 28/30] fix: reading a port that has been closed left its
 reader behind

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 95735ea..a1b3406 100644
--- a/parser.go
+++ b/parser.go
@@ -389,6 +389,9 @@ func ParseObjectFromFileInEnv(port *os.File, env *SymbolTableFrame) (result *Dat
 
 	result, eof, err := parseExpression(tokenizer)
 	if err != nil {
+		if errors.Is(err, os.ErrClosed) { // closed while this read was about to begin
+			forgetTokenizerForFile(port)
+		}
 		return
 	}
 
-- 
2.43.0


From d95783d504ca991bb7a66a215b4419770f9b3ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 29/30] fix: a profile starting while another was running left
 that one's file open

---
 profiling.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/profiling.go b/profiling.go
index ddb9540..74a6a20 100644
--- a/profiling.go
+++ b/profiling.go
@@ -10,20 +10,33 @@ package golisp
 import (
 	"fmt"
 	"os"
+	"sync"
 	"time"
 )
 
 var profileOutput *os.File = nil
+var profileOutputMutex sync.Mutex
 var ProfileEnabled = false
 var ProfileGUID int64 = 0
 
+// setProfileOutput replaces the file profiles go to, which may be in use by
+// an enclosing profile or one of another process.
+func setProfileOutput(f *os.File) {
+	profileOutputMutex.Lock()
+	defer profileOutputMutex.Unlock()
+	if profileOutput != nil {
+		profileOutput.Close()
+	}
+	profileOutput = f
+}
+
 func StartProfiling(fname string) {
 	ProfileGUID = 0
 	if fname == "" {
-		profileOutput = nil
+		setProfileOutput(nil)
 	} else {
-		var err error
-		profileOutput, err = os.Create(fname)
+		f, err := os.Create(fname)
+		setProfileOutput(f)
 		if err != nil {
 			panic(fmt.Sprintf("Profiler: %s could not be opened.", fname))
 		}
-- 
2.43.0


From 4b0154ae73bb8fbbe6dd795513886cb39a5bb962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 30/30] fix: a process joining itself while a macro is expanded
 waited for itself for ever

---
 macro.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/macro.go b/macro.go
index 693e44c..3de04f3 100644
--- a/macro.go
+++ b/macro.go
@@ -80,6 +80,7 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 
 func (self *Macro) Expand(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
 	localEnv := newLocalEnvironment(self.Env, nil, self.Name)
+	localEnv.Previous = argEnv
 	err = self.makeLocalBindings(args, argEnv, localEnv, false)
 	if err != nil {
 		return
-- 
2.43.0

