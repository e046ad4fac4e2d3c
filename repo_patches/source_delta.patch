From 499be11eed809e73ee34d57e0f397f095146ae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 01/40] fix: PatchMethodByName panics with index out of range
 on every method with parameters

---
 cmd/xgo/asset/runtime_gen/internal/trap/object.go | 2 +-
 runtime/internal/trap/object.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/object.go b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
index 831bf43..29ed304 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/object.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 831bf43..29ed304 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
-- 
2.43.0


From a1afba557cff7649f0586913906810f6eb24345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 02/40] fix: every post handler of a call ran the last
 handler's function

---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 2 ++
 cmd/xgo/asset/runtime_gen/internal/trap/var.go  | 2 ++
 runtime/internal/trap/trap.go                   | 2 ++
 runtime/internal/trap/var.go                    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 879b509..7d81f43 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -155,6 +155,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +177,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/var.go b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
index 391589a..6d8f924 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/var.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 879b509..7d81f43 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -155,6 +155,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +177,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
diff --git a/runtime/internal/trap/var.go b/runtime/internal/trap/var.go
index 391589a..6d8f924 100644
--- a/runtime/internal/trap/var.go
+++ b/runtime/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
-- 
2.43.0


From f58f0d1d2ed61dbee7c282a38a4e2c01f5218b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 03/40] fix: recorders inherited by a new goroutine lost their
 receiver

---
 cmd/xgo/asset/runtime_gen/internal/trap/init.go | 5 +++--
 runtime/internal/trap/init.go                   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/init.go b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
index ec2d5e8..509e16c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/init.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
@@ -113,8 +113,9 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
-				pre:  recorder.pre,
-				post: recorder.post,
+				wantRecvPtr: recorder.wantRecvPtr,
+				pre:         recorder.pre,
+				post:        recorder.post,
 			}
 		}
 	}
diff --git a/runtime/internal/trap/init.go b/runtime/internal/trap/init.go
index ec2d5e8..509e16c 100644
--- a/runtime/internal/trap/init.go
+++ b/runtime/internal/trap/init.go
@@ -113,8 +113,9 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
-				pre:  recorder.pre,
-				post: recorder.post,
+				wantRecvPtr: recorder.wantRecvPtr,
+				pre:         recorder.pre,
+				post:        recorder.post,
 			}
 		}
 	}
-- 
2.43.0


From ce94566173b18971384ea316bbb91a16e116c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 04/40] fix: mocking a method of one instance disabled the
 mocks of other instances

---
 .../runtime_gen/internal/trap/stack_data.go   | 26 ++++++++++++-------
 .../asset/runtime_gen/internal/trap/trap.go   |  7 +----
 runtime/internal/trap/stack_data.go           | 26 ++++++++++++-------
 runtime/internal/trap/trap.go                 |  7 +----
 4 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index 146281c..a5b4041 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -78,19 +78,27 @@ type varRecordHolder struct {
 	post func(fnInfo *core.FuncInfo, res interface{}, data interface{})
 }
 
-func (c *StackData) getLastMock(pc uintptr) (recvPtr interface{}, mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
-	var mockList []*mockHolder
+// getLastMock returns the mock most recently set up for the function that
+// applies to the receiver, mocks of the current goroutine take precedence
+// over global ones.
+func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}) (mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
 	if c != nil {
-		mockList = c.interceptors.mock[pc]
+		mock = lastMockOf(c.interceptors.mock[pc], recvPtr)
 	}
-	if len(mockList) == 0 {
-		mockList = globalInterceptorHolder.mock[pc]
-		if len(mockList) == 0 {
-			return nil, nil
+	if mock == nil {
+		mock = lastMockOf(globalInterceptorHolder.mock[pc], recvPtr)
+	}
+	return mock
+}
+
+func lastMockOf(mockList []*mockHolder, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	for i := len(mockList) - 1; i >= 0; i-- {
+		m := mockList[i]
+		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+			return m.mock
 		}
 	}
-	m := mockList[len(mockList)-1]
-	return m.wantRecvPtr, m.mock
+	return nil
 }
 
 func (c *StackData) getLastVarMock(varAddr uintptr) (mock func(fnInfo *core.FuncInfo, res interface{})) {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 7d81f43..a36cb95 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -48,8 +48,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	pkg := funcInfo.Pkg
 	name := funcInfo.IdentityName
 
-	var mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
-
 	var isTesting bool
 	var testName string
 
@@ -135,7 +133,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	wantPtr, mockFn := stackData.getLastMock(fnPC)
+	mock := stackData.getLastMock(fnPC, recvPtr)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -148,9 +146,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// targeted function
 		interceptors = stackData.getGeneralInterceptors()
 	}
-	if mockFn != nil && (wantPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, wantPtr))) {
-		mock = mockFn
-	}
 
 	var postRecordersAndInterceptors []func()
 	var mocked bool
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index 146281c..a5b4041 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -78,19 +78,27 @@ type varRecordHolder struct {
 	post func(fnInfo *core.FuncInfo, res interface{}, data interface{})
 }
 
-func (c *StackData) getLastMock(pc uintptr) (recvPtr interface{}, mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
-	var mockList []*mockHolder
+// getLastMock returns the mock most recently set up for the function that
+// applies to the receiver, mocks of the current goroutine take precedence
+// over global ones.
+func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}) (mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
 	if c != nil {
-		mockList = c.interceptors.mock[pc]
+		mock = lastMockOf(c.interceptors.mock[pc], recvPtr)
 	}
-	if len(mockList) == 0 {
-		mockList = globalInterceptorHolder.mock[pc]
-		if len(mockList) == 0 {
-			return nil, nil
+	if mock == nil {
+		mock = lastMockOf(globalInterceptorHolder.mock[pc], recvPtr)
+	}
+	return mock
+}
+
+func lastMockOf(mockList []*mockHolder, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	for i := len(mockList) - 1; i >= 0; i-- {
+		m := mockList[i]
+		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+			return m.mock
 		}
 	}
-	m := mockList[len(mockList)-1]
-	return m.wantRecvPtr, m.mock
+	return nil
 }
 
 func (c *StackData) getLastVarMock(varAddr uintptr) (mock func(fnInfo *core.FuncInfo, res interface{})) {
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 7d81f43..a36cb95 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -48,8 +48,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	pkg := funcInfo.Pkg
 	name := funcInfo.IdentityName
 
-	var mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
-
 	var isTesting bool
 	var testName string
 
@@ -135,7 +133,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	wantPtr, mockFn := stackData.getLastMock(fnPC)
+	mock := stackData.getLastMock(fnPC, recvPtr)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -148,9 +146,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// targeted function
 		interceptors = stackData.getGeneralInterceptors()
 	}
-	if mockFn != nil && (wantPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, wantPtr))) {
-		mock = mockFn
-	}
 
 	var postRecordersAndInterceptors []func()
 	var mocked bool
-- 
2.43.0


From 49ba0d3f46124466c2a5e75fa4731e5fb9e5fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 05/40] fix: cancelling a handler while it is in use corrupted
 the handlers of the ongoing call

---
 .../asset/runtime_gen/internal/trap/interceptor.go   |  4 ++--
 cmd/xgo/asset/runtime_gen/internal/trap/mock.go      | 12 ++++++------
 cmd/xgo/asset/runtime_gen/internal/trap/record.go    | 12 ++++++------
 runtime/internal/trap/interceptor.go                 |  4 ++--
 runtime/internal/trap/mock.go                        | 12 ++++++------
 runtime/internal/trap/record.go                      | 12 ++++++------
 6 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go b/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
index 588e3eb..23aa31c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/interceptor.go
@@ -56,13 +56,13 @@ func pushInterceptor(pre PreInterceptor, post PostInterceptor) func() {
 		list := holder.interceptors
 		n := len(list)
 		if list[n-1] == h {
-			holder.interceptors = list[:n-1]
+			holder.interceptors = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.interceptors = append(list[:i], list[i+1:]...)
+				holder.interceptors = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index e6b4a9b..3a2e757 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -185,13 +185,13 @@ func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.
 		list := holder.mock[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.mock[pc] = list[:n-1]
+			holder.mock[pc] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.mock[pc] = append(list[:i], list[i+1:]...)
+				holder.mock[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -217,13 +217,13 @@ func pushVarMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res in
 		list := holder.varMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varMock[varAddr] = list[:n-1]
+			holder.varMock[varAddr] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -249,13 +249,13 @@ func pushVarPtrMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res
 		list := holder.varPtrMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrMock[varAddr] = list[:n-1]
+			holder.varPtrMock[varAddr] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index fcea21d..38e3344 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -155,13 +155,13 @@ func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.Fu
 		list := holder.recorder[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.recorder[pc] = list[:n-1]
+			holder.recorder[pc] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.recorder[pc] = append(list[:i], list[i+1:]...)
+				holder.recorder[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -187,13 +187,13 @@ func PushVarRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, res i
 		list := holder.varRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varRecorder[varAddr] = list[:n-1]
+			holder.varRecorder[varAddr] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -219,13 +219,13 @@ func PushVarPtrRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, re
 		list := holder.varPtrRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrRecorder[varAddr] = list[:n-1]
+			holder.varPtrRecorder[varAddr] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/runtime/internal/trap/interceptor.go b/runtime/internal/trap/interceptor.go
index 588e3eb..23aa31c 100644
--- a/runtime/internal/trap/interceptor.go
+++ b/runtime/internal/trap/interceptor.go
@@ -56,13 +56,13 @@ func pushInterceptor(pre PreInterceptor, post PostInterceptor) func() {
 		list := holder.interceptors
 		n := len(list)
 		if list[n-1] == h {
-			holder.interceptors = list[:n-1]
+			holder.interceptors = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.interceptors = append(list[:i], list[i+1:]...)
+				holder.interceptors = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index e6b4a9b..3a2e757 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -185,13 +185,13 @@ func pushMockHandler(pc uintptr, recvPtr interface{}, handler func(fnInfo *core.
 		list := holder.mock[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.mock[pc] = list[:n-1]
+			holder.mock[pc] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.mock[pc] = append(list[:i], list[i+1:]...)
+				holder.mock[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -217,13 +217,13 @@ func pushVarMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res in
 		list := holder.varMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varMock[varAddr] = list[:n-1]
+			holder.varMock[varAddr] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -249,13 +249,13 @@ func pushVarPtrMockHandler(varAddr uintptr, mock func(fnInfo *core.FuncInfo, res
 		list := holder.varPtrMock[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrMock[varAddr] = list[:n-1]
+			holder.varPtrMock[varAddr] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrMock[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrMock[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index fcea21d..38e3344 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -155,13 +155,13 @@ func PushRecordHandler(pc uintptr, recvPtr interface{}, pre func(fnInfo *core.Fu
 		list := holder.recorder[pc]
 		n := len(list)
 		if list[n-1] == h {
-			holder.recorder[pc] = list[:n-1]
+			holder.recorder[pc] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.recorder[pc] = append(list[:i], list[i+1:]...)
+				holder.recorder[pc] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -187,13 +187,13 @@ func PushVarRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, res i
 		list := holder.varRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varRecorder[varAddr] = list[:n-1]
+			holder.varRecorder[varAddr] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
@@ -219,13 +219,13 @@ func PushVarPtrRecordHandler(varAddr uintptr, pre func(fnInfo *core.FuncInfo, re
 		list := holder.varPtrRecorder[varAddr]
 		n := len(list)
 		if list[n-1] == h {
-			holder.varPtrRecorder[varAddr] = list[:n-1]
+			holder.varPtrRecorder[varAddr] = list[:n-1:n-1]
 			return
 		}
 		// remove at some index
 		for i, m := range list {
 			if m == h {
-				holder.varPtrRecorder[varAddr] = append(list[:i], list[i+1:]...)
+				holder.varPtrRecorder[varAddr] = append(list[:i:i], list[i+1:]...)
 				return
 			}
 		}
-- 
2.43.0


From 0492335090ba49c3d839176eb831e8c69323d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 06/40] fix: trace.Record of a variable always panicked

---
 cmd/xgo/asset/runtime_gen/internal/trap/record.go | 4 ++--
 runtime/internal/trap/record.go                   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index 38e3344..809cba9 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index 38e3344..809cba9 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
-- 
2.43.0


From 473ba423095cfcf14a4fd7bf38b159436846b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 07/40] fix: trace.Trace dropped the mocks, recorders and
 interceptors of the goroutine

---
 .../runtime_gen/internal/trap/stack_data.go   | 20 +++++++++++++++++++
 .../asset/runtime_gen/internal/trap/trap.go   |  2 +-
 runtime/internal/trap/stack_data.go           | 20 +++++++++++++++++++
 runtime/internal/trap/trap.go                 |  2 +-
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index a5b4041..ebe1b7d 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -67,6 +67,26 @@ func getOrAttachStackDataOf(stk *stack.Stack) *StackData {
 	return d
 }
 
+// endTracing resets the tracing state of current goroutine,
+// mocks, recorders and interceptors are kept.
+func (c *StackData) endTracing() {
+	stack.Detach()
+	c.hasStartedTracing = false
+	c.filterTrace = nil
+	c.onFinish = nil
+	c.stackOutputFile = ""
+	if c.interceptors.isEmpty() {
+		return
+	}
+	stack.GetOrAttach().SetData(dataKey, c)
+}
+
+func (c *interceptorHolders) isEmpty() bool {
+	return c.mock == nil && c.varMock == nil && c.varPtrMock == nil &&
+		c.recorder == nil && c.varRecorder == nil && c.varPtrRecorder == nil &&
+		c.interceptors == nil
+}
+
 type recorderHolder struct {
 	wantRecvPtr interface{}
 	pre         func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool)
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index a36cb95..bbe2c4c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -440,7 +440,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
-			stack.Detach()
+			stackData.endTracing()
 		}
 	}
 	if mocked {
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index a5b4041..ebe1b7d 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -67,6 +67,26 @@ func getOrAttachStackDataOf(stk *stack.Stack) *StackData {
 	return d
 }
 
+// endTracing resets the tracing state of current goroutine,
+// mocks, recorders and interceptors are kept.
+func (c *StackData) endTracing() {
+	stack.Detach()
+	c.hasStartedTracing = false
+	c.filterTrace = nil
+	c.onFinish = nil
+	c.stackOutputFile = ""
+	if c.interceptors.isEmpty() {
+		return
+	}
+	stack.GetOrAttach().SetData(dataKey, c)
+}
+
+func (c *interceptorHolders) isEmpty() bool {
+	return c.mock == nil && c.varMock == nil && c.varPtrMock == nil &&
+		c.recorder == nil && c.varRecorder == nil && c.varPtrRecorder == nil &&
+		c.interceptors == nil
+}
+
 type recorderHolder struct {
 	wantRecvPtr interface{}
 	pre         func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) (interface{}, bool)
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index a36cb95..bbe2c4c 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -440,7 +440,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
-			stack.Detach()
+			stackData.endTracing()
 		}
 	}
 	if mocked {
-- 
2.43.0


From f3a8b6e29ec51bcc6668258275fae0f95c892140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 08/40] fix: trace.Trace without output left tracing on,
 swallowing later traces

---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 6 +-----
 runtime/internal/trap/trap.go                   | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index bbe2c4c..b905c3e 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -76,7 +76,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		isTracing = stackData.hasStartedTracing
 	}
 
-	var stackAttached bool
 	if depth <= 1 && !isTracing {
 		// detect if we need to start tracing
 		if pkg == constants.TRACE_PKG && name == constants.TRACE_FUNC {
@@ -123,7 +122,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					},
 				}
 				stack.Attach(stk)
-				stackAttached = true
 			} else {
 				stackData.hasStartedTracing = true
 			}
@@ -295,9 +293,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 		stackData.filterTrace = filterTrace
 		if outputFile == "" && onFinish == nil {
-			if stackAttached {
-				stack.Detach()
-			}
+			stackData.endTracing()
 			return postRecorder, false
 		}
 		stackData.stackOutputFile = outputFile
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index bbe2c4c..b905c3e 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -76,7 +76,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		isTracing = stackData.hasStartedTracing
 	}
 
-	var stackAttached bool
 	if depth <= 1 && !isTracing {
 		// detect if we need to start tracing
 		if pkg == constants.TRACE_PKG && name == constants.TRACE_FUNC {
@@ -123,7 +122,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					},
 				}
 				stack.Attach(stk)
-				stackAttached = true
 			} else {
 				stackData.hasStartedTracing = true
 			}
@@ -295,9 +293,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 		stackData.filterTrace = filterTrace
 		if outputFile == "" && onFinish == nil {
-			if stackAttached {
-				stack.Detach()
-			}
+			stackData.endTracing()
 			return postRecorder, false
 		}
 		stackData.stackOutputFile = outputFile
-- 
2.43.0


From e38ebefe28d50efcfdd45481dc300a6763ecbf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 09/40] fix: a panicking mock or post handler corrupted the
 trace

---
 .../asset/runtime_gen/internal/trap/trap.go   | 22 ++++++++++++++++---
 runtime/internal/trap/trap.go                 | 22 ++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index b905c3e..f6494eb 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -323,14 +323,28 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	})
 
 	var hitMock bool
-	post := func() {
+	var post func()
+	// finishOnPanic runs fn, if fn panics then finish the entry
+	// without running the post handlers again
+	finishOnPanic := func(fn func()) {
+		var returned bool
+		defer func() {
+			if !returned {
+				postRecorder = nil
+				post()
+			}
+		}()
+		fn()
+		returned = true
+	}
+	post = func() {
 		xgo_runtime.GetG().IncTrappingDepth()
 		defer xgo_runtime.GetG().DecTrappingDepth()
 
 		// NOTE: this defer might be executed on system stack
 		// so cannot defer
 		if postRecorder != nil {
-			postRecorder()
+			finishOnPanic(postRecorder)
 		}
 		// on Windows, short stack might resolve to same
 		// nanosecond
@@ -443,7 +457,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		hitMock = true
 		return post, true
 	} else if mock != nil {
-		hitMock = mock(funcInfo, recvPtr, args, results)
+		finishOnPanic(func() {
+			hitMock = mock(funcInfo, recvPtr, args, results)
+		})
 		return post, hitMock
 	}
 	return post, false
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index b905c3e..f6494eb 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -323,14 +323,28 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	})
 
 	var hitMock bool
-	post := func() {
+	var post func()
+	// finishOnPanic runs fn, if fn panics then finish the entry
+	// without running the post handlers again
+	finishOnPanic := func(fn func()) {
+		var returned bool
+		defer func() {
+			if !returned {
+				postRecorder = nil
+				post()
+			}
+		}()
+		fn()
+		returned = true
+	}
+	post = func() {
 		xgo_runtime.GetG().IncTrappingDepth()
 		defer xgo_runtime.GetG().DecTrappingDepth()
 
 		// NOTE: this defer might be executed on system stack
 		// so cannot defer
 		if postRecorder != nil {
-			postRecorder()
+			finishOnPanic(postRecorder)
 		}
 		// on Windows, short stack might resolve to same
 		// nanosecond
@@ -443,7 +457,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		hitMock = true
 		return post, true
 	} else if mock != nil {
-		hitMock = mock(funcInfo, recvPtr, args, results)
+		finishOnPanic(func() {
+			hitMock = mock(funcInfo, recvPtr, args, results)
+		})
 		return post, hitMock
 	}
 	return post, false
-- 
2.43.0


From 2f7ff0d669ae9be7d8452e2badcacf33d3355982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 10/40] fix: calls that handlers make were traced when an
 interceptor took them over

---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 2 +-
 runtime/internal/trap/trap.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index f6494eb..bbc904c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -241,7 +241,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			return callRecorderWithDepth, false
 		}
 	} else {
-		if !allowTracingThisEntry {
+		if depth > 1 || !allowTracingThisEntry {
 			return callRecorderWithDepth, true
 		}
 	}
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index f6494eb..bbc904c 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -241,7 +241,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			return callRecorderWithDepth, false
 		}
 	} else {
-		if !allowTracingThisEntry {
+		if depth > 1 || !allowTracingThisEntry {
 			return callRecorderWithDepth, true
 		}
 	}
-- 
2.43.0


From 7012ca6975cb8ee401b9a0e0db6c534eddea3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 11/40] fix: functions called while a panic unwinds were traced
 as panicking

---
 cmd/xgo/asset/runtime_gen/internal/trap/object.go | 7 +++++++
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go   | 6 +++++-
 runtime/internal/trap/object.go                   | 7 +++++++
 runtime/internal/trap/trap.go                     | 6 +++++-
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/object.go b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
index 29ed304..99f13ff 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/object.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"unsafe"
 
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/internal/runtime"
@@ -91,6 +92,12 @@ func trySplitLastError(resultNames []string, results []interface{}) ([]string, [
 	return resultNames, results, nil
 }
 
+// sameInterface tells if a and b are the very same interface value,
+// unlike a == b it never panics
+func sameInterface(a interface{}, b interface{}) bool {
+	return *(*[2]uintptr)(unsafe.Pointer(&a)) == *(*[2]uintptr)(unsafe.Pointer(&b))
+}
+
 type structValue struct {
 	Names  []string
 	Values []interface{}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index bbc904c..5af9be1 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -322,6 +322,10 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		cur.Args = argsJSON
 	})
 
+	// a panic that is already unwinding when the function is called, e.g.
+	// from a deferred func, does not make this function panic
+	outerPanic, outerPanicPC := xgo_runtime.XgoPeekPanic()
+
 	var hitMock bool
 	var post func()
 	// finishOnPanic runs fn, if fn panics then finish the entry
@@ -358,7 +362,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var hasPanic bool
 		var panicLine int
 		var errStr string
-		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil {
+		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil && !(retpc == outerPanicPC && sameInterface(pe, outerPanic)) {
 			hasPanic = true
 			// frame:
 			//   0: trap.trap
diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 29ed304..99f13ff 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"unsafe"
 
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/internal/runtime"
@@ -91,6 +92,12 @@ func trySplitLastError(resultNames []string, results []interface{}) ([]string, [
 	return resultNames, results, nil
 }
 
+// sameInterface tells if a and b are the very same interface value,
+// unlike a == b it never panics
+func sameInterface(a interface{}, b interface{}) bool {
+	return *(*[2]uintptr)(unsafe.Pointer(&a)) == *(*[2]uintptr)(unsafe.Pointer(&b))
+}
+
 type structValue struct {
 	Names  []string
 	Values []interface{}
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index bbc904c..5af9be1 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -322,6 +322,10 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		cur.Args = argsJSON
 	})
 
+	// a panic that is already unwinding when the function is called, e.g.
+	// from a deferred func, does not make this function panic
+	outerPanic, outerPanicPC := xgo_runtime.XgoPeekPanic()
+
 	var hitMock bool
 	var post func()
 	// finishOnPanic runs fn, if fn panics then finish the entry
@@ -358,7 +362,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var hasPanic bool
 		var panicLine int
 		var errStr string
-		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil {
+		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil && !(retpc == outerPanicPC && sameInterface(pe, outerPanic)) {
 			hasPanic = true
 			// frame:
 			//   0: trap.trap
-- 
2.43.0


From 7277dbe3b08da0ea5d2f2b40e1f5253108cfe836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 12/40] fix: runtime-internal goroutines inherited handlers,
 deadlocking a tracing goroutine

The GC starts its workers from whichever goroutine allocates. If that was
xgo's own code holding the stack mutex (e.g. recording a trace entry), the
creation callback locked it again and the process died with
'schedule: holding locks'.
---
 cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt     | 5 +++++
 cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt     | 5 +++++
 cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt     | 5 +++++
 cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt     | 5 +++++
 .../asset/runtime_gen/internal/runtime/xgo_trap_template.go  | 5 +++++
 patches/go1.24/src/runtime/xgo_trap.go                       | 5 +++++
 patches/go1.25/src/runtime/xgo_trap.go                       | 5 +++++
 patches/go1.26/src/runtime/xgo_trap.go                       | 5 +++++
 patches/go1.27/src/runtime/xgo_trap.go                       | 5 +++++
 runtime/internal/runtime/xgo_trap_template.go                | 5 +++++
 10 files changed, 50 insertions(+)

diff --git a/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt
index a1b03fe..2b86722 100755
--- a/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt
@@ -263,6 +263,11 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 		raceacquire(unsafe.Pointer(&newg.__xgo_g))
 	}
 	newg.__xgo_g = __xgo_g{}
+	// The runtime's own goroutines (e.g. GC workers) are created wherever the
+	// current goroutine happens to be, including inside the callbacks' locks.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
diff --git a/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt
index a1b03fe..2b86722 100755
--- a/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt
@@ -263,6 +263,11 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 		raceacquire(unsafe.Pointer(&newg.__xgo_g))
 	}
 	newg.__xgo_g = __xgo_g{}
+	// The runtime's own goroutines (e.g. GC workers) are created wherever the
+	// current goroutine happens to be, including inside the callbacks' locks.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
diff --git a/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt
index a1b03fe..2b86722 100755
--- a/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt
@@ -263,6 +263,11 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 		raceacquire(unsafe.Pointer(&newg.__xgo_g))
 	}
 	newg.__xgo_g = __xgo_g{}
+	// The runtime's own goroutines (e.g. GC workers) are created wherever the
+	// current goroutine happens to be, including inside the callbacks' locks.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
diff --git a/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt
index a1b03fe..2b86722 100755
--- a/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt
@@ -263,6 +263,11 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 		raceacquire(unsafe.Pointer(&newg.__xgo_g))
 	}
 	newg.__xgo_g = __xgo_g{}
+	// The runtime's own goroutines (e.g. GC workers) are created wherever the
+	// current goroutine happens to be, including inside the callbacks' locks.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
diff --git a/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go b/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go
index c23797e..36cd138 100755
--- a/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go
+++ b/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go
@@ -264,6 +264,11 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 		raceacquire(unsafe.Pointer(&newg.__xgo_g))
 	}
 	newg.__xgo_g = __xgo_g{}
+	// The runtime's own goroutines (e.g. GC workers) are created wherever the
+	// current goroutine happens to be, including inside the callbacks' locks.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
diff --git a/patches/go1.24/src/runtime/xgo_trap.go b/patches/go1.24/src/runtime/xgo_trap.go
index a1b03fe..2b86722 100644
--- a/patches/go1.24/src/runtime/xgo_trap.go
+++ b/patches/go1.24/src/runtime/xgo_trap.go
@@ -263,6 +263,11 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 		raceacquire(unsafe.Pointer(&newg.__xgo_g))
 	}
 	newg.__xgo_g = __xgo_g{}
+	// The runtime's own goroutines (e.g. GC workers) are created wherever the
+	// current goroutine happens to be, including inside the callbacks' locks.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
diff --git a/patches/go1.25/src/runtime/xgo_trap.go b/patches/go1.25/src/runtime/xgo_trap.go
index a1b03fe..2b86722 100644
--- a/patches/go1.25/src/runtime/xgo_trap.go
+++ b/patches/go1.25/src/runtime/xgo_trap.go
@@ -263,6 +263,11 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 		raceacquire(unsafe.Pointer(&newg.__xgo_g))
 	}
 	newg.__xgo_g = __xgo_g{}
+	// The runtime's own goroutines (e.g. GC workers) are created wherever the
+	// current goroutine happens to be, including inside the callbacks' locks.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
diff --git a/patches/go1.26/src/runtime/xgo_trap.go b/patches/go1.26/src/runtime/xgo_trap.go
index a1b03fe..2b86722 100644
--- a/patches/go1.26/src/runtime/xgo_trap.go
+++ b/patches/go1.26/src/runtime/xgo_trap.go
@@ -263,6 +263,11 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 		raceacquire(unsafe.Pointer(&newg.__xgo_g))
 	}
 	newg.__xgo_g = __xgo_g{}
+	// The runtime's own goroutines (e.g. GC workers) are created wherever the
+	// current goroutine happens to be, including inside the callbacks' locks.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
diff --git a/patches/go1.27/src/runtime/xgo_trap.go b/patches/go1.27/src/runtime/xgo_trap.go
index a1b03fe..2b86722 100644
--- a/patches/go1.27/src/runtime/xgo_trap.go
+++ b/patches/go1.27/src/runtime/xgo_trap.go
@@ -263,6 +263,11 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 		raceacquire(unsafe.Pointer(&newg.__xgo_g))
 	}
 	newg.__xgo_g = __xgo_g{}
+	// The runtime's own goroutines (e.g. GC workers) are created wherever the
+	// current goroutine happens to be, including inside the callbacks' locks.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
diff --git a/runtime/internal/runtime/xgo_trap_template.go b/runtime/internal/runtime/xgo_trap_template.go
index c23797e..36cd138 100644
--- a/runtime/internal/runtime/xgo_trap_template.go
+++ b/runtime/internal/runtime/xgo_trap_template.go
@@ -264,6 +264,11 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 		raceacquire(unsafe.Pointer(&newg.__xgo_g))
 	}
 	newg.__xgo_g = __xgo_g{}
+	// The runtime's own goroutines (e.g. GC workers) are created wherever the
+	// current goroutine happens to be, including inside the callbacks' locks.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
-- 
2.43.0


From bf2da01997777c87ebd7d713c6b47fe37c7d3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 13/40] fix: names declared by select, range, if, for and
 switch were confused with package variables

Names declared in a select case were not seen at all, so that reads of them read
the package variable of the same name; names declared by range, if, for and
switch stayed in scope after the statement, so that later reads of a package
variable of the same name were not trapped.
---
 instrument/resolve/stmt.go | 48 ++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/instrument/resolve/stmt.go b/instrument/resolve/stmt.go
index ba73aa8..2e92b1c 100644
--- a/instrument/resolve/stmt.go
+++ b/instrument/resolve/stmt.go
@@ -15,16 +15,18 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 	case *ast.EmptyStmt:
 		// nothing
 	case *ast.RangeStmt:
+		// X is evaluated before key and value are declared
+		c.traverseExpr(node.X)
+		scope := c.newScope()
 		if node.Tok == token.DEFINE {
 			if key, ok := node.Key.(*ast.Ident); ok && !isBlankName(key.Name) {
-				c.Add(key.Name)
+				scope.Add(key.Name)
 			}
 			if value, ok := node.Value.(*ast.Ident); ok && !isBlankName(value.Name) {
-				c.Add(value.Name)
+				scope.Add(value.Name)
 			}
 		}
-		c.traverseExpr(node.X)
-		c.traverseBlockStmt(node.Body)
+		scope.traverseBlockStmt(node.Body)
 	case *ast.DeferStmt:
 		c.traverseCallExpr(node.Call)
 	case *ast.GoStmt:
@@ -104,26 +106,30 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 			}
 		}
 	case *ast.TypeSwitchStmt:
-		c.traverseStmt(node.Init)
-		c.traverseStmt(node.Assign)
-		c.traverseBlockStmt(node.Body)
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseStmt(node.Assign)
+		scope.traverseBlockStmt(node.Body)
 	case *ast.BadStmt:
 		// nothing
 	case *ast.IfStmt:
-		c.traverseStmt(node.Init)
-		c.traverseExpr(node.Cond)
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseExpr(node.Cond)
 		// node.Then =
-		c.traverseBlockStmt(node.Body)
-		c.traverseStmt(node.Else)
+		scope.traverseBlockStmt(node.Body)
+		scope.traverseStmt(node.Else)
 	case *ast.ForStmt:
-		c.traverseStmt(node.Init)
-		c.traverseExpr(node.Cond)
-		c.traverseStmt(node.Post)
-		c.traverseBlockStmt(node.Body)
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseExpr(node.Cond)
+		scope.traverseStmt(node.Post)
+		scope.traverseBlockStmt(node.Body)
 	case *ast.SwitchStmt:
-		c.traverseStmt(node.Init)
-		c.traverseExpr(node.Tag)
-		c.traverseBlockStmt(node.Body)
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseExpr(node.Tag)
+		scope.traverseBlockStmt(node.Body)
 	case *ast.SelectStmt:
 		c.traverseBlockStmt(node.Body)
 	case *ast.DeclStmt:
@@ -142,8 +148,10 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.CommClause:
 		// select {...}
-		// TODO: handle name introduced in case
-		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
+		// names introduced by the case are visible in its body only
+		scope := c.newScope()
+		scope.traverseStmt(node.Comm)
+		scope.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.SendStmt:
 		// ignore
 		c.traverseExpr(node.Chan)
-- 
2.43.0


From f78c34dd4e8929d658836977d48bd1482754ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 14/40] fix: variables read in assignment targets, case lists
 and slice capacities were not mockable

---
 instrument/resolve/expr.go | 19 +++++++++++++++++++
 instrument/resolve/stmt.go | 12 +++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/instrument/resolve/expr.go b/instrument/resolve/expr.go
index addf4b5..7b9fa5b 100644
--- a/instrument/resolve/expr.go
+++ b/instrument/resolve/expr.go
@@ -133,6 +133,7 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		c.traverseExpr(node.X)
 		c.traverseExpr(node.Low)
 		c.traverseExpr(node.High)
+		c.traverseExpr(node.Max)
 	case *ast.ChanType:
 		// chan something
 	case *ast.MapType:
@@ -169,6 +170,24 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 	}
 }
 
+// traverseTarget traverses what an assignment to node reads:
+// the variable assigned to stays as is, indices in it are ordinary reads
+func (c *Scope) traverseTarget(node ast.Expr) {
+	switch node := node.(type) {
+	case *ast.ParenExpr:
+		c.traverseTarget(node.X)
+	case *ast.SelectorExpr:
+		c.traverseTarget(node.X)
+	case *ast.StarExpr:
+		c.traverseTarget(node.X)
+	case *ast.IndexExpr:
+		c.traverseTarget(node.X)
+		c.traverseExpr(node.Index)
+	case *ast.CallExpr:
+		c.traverseExpr(node)
+	}
+}
+
 func deparen(expr ast.Expr) ast.Expr {
 	if expr == nil {
 		return nil
diff --git a/instrument/resolve/stmt.go b/instrument/resolve/stmt.go
index 2e92b1c..2d4c9fe 100644
--- a/instrument/resolve/stmt.go
+++ b/instrument/resolve/stmt.go
@@ -18,6 +18,10 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 		// X is evaluated before key and value are declared
 		c.traverseExpr(node.X)
 		scope := c.newScope()
+		if node.Tok == token.ASSIGN {
+			c.traverseTarget(node.Key)
+			c.traverseTarget(node.Value)
+		}
 		if node.Tok == token.DEFINE {
 			if key, ok := node.Key.(*ast.Ident); ok && !isBlankName(key.Name) {
 				scope.Add(key.Name)
@@ -35,6 +39,11 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 		for _, rhs := range node.Rhs {
 			c.traverseExpr(rhs)
 		}
+		if node.Tok != token.DEFINE {
+			for _, lhs := range node.Lhs {
+				c.traverseTarget(lhs)
+			}
+		}
 
 		// edge case:
 		// tt:=tt --> before this line, tt is another define
@@ -143,8 +152,9 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 	case *ast.BlockStmt:
 		c.traverseBlockStmt(node)
 	case *ast.IncDecStmt:
-		// ignore
+		c.traverseTarget(node.X)
 	case *ast.CaseClause:
+		c.traverseExprs(node.List)
 		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.CommClause:
 		// select {...}
-- 
2.43.0


From 1665caf6a715fe818f3b54b33a7fd284e69c0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 15/40] fix: variables initialised by untyped constants were
 given the wrong type

---
 instrument/resolve/resolve.go |  11 +++-
 instrument/resolve/untyped.go | 108 ++++++++++++++++++++++++++++++++++
 2 files changed, 116 insertions(+), 3 deletions(-)
 create mode 100644 instrument/resolve/untyped.go

diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index c876c92..ff66eb0 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -216,14 +216,19 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 		}
 		return types.Unknown{}
 	case *ast.BinaryExpr:
+		if kind := c.untypedConstType(expr); kind != "" {
+			return types.UntypedLiteral{
+				Type_: kind,
+			}
+		}
 		// +-*/%
 		switch expr.Op {
 		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.LAND, token.LOR,
 			token.AND, token.OR, token.XOR:
 			// first op type
 			opValue := c.resolveObject(expr.X)
-			// if untyped literal, resolve the second op
-			if _, ok := opValue.(types.UntypedLiteral); ok {
+			// if untyped, resolve the second op
+			if c.adaptsToOperand(expr.X) {
 				opValue = c.resolveObject(expr.Y)
 			}
 			if types.IsUnknown(opValue) {
@@ -544,7 +549,7 @@ func getBasicLitConstType(kind token.Token) types.Type {
 	case token.STRING:
 		return types.Basic("string")
 	case token.CHAR:
-		return types.Basic("byte")
+		return types.Basic("rune")
 	case token.FLOAT:
 		return types.Basic("float64")
 	}
diff --git a/instrument/resolve/untyped.go b/instrument/resolve/untyped.go
new file mode 100644
index 0000000..1475595
--- /dev/null
+++ b/instrument/resolve/untyped.go
@@ -0,0 +1,108 @@
+package resolve
+
+import (
+	"go/ast"
+	"go/token"
+
+	"github.com/xhd2015/xgo/instrument/edit"
+	"github.com/xhd2015/xgo/instrument/resolve/types"
+)
+
+// untypedConstType returns the default type of expr if expr is an
+// untyped constant, e.g. 1, 'a'+1, 1<<3, or C where const C = 2.5.
+// it returns empty if expr is not known to be an untyped constant
+func (c *Scope) untypedConstType(expr ast.Expr) types.Basic {
+	switch expr := expr.(type) {
+	case *ast.ParenExpr:
+		return c.untypedConstType(expr.X)
+	case *ast.BasicLit:
+		if basic, ok := getBasicLitConstType(expr.Kind).(types.Basic); ok {
+			return basic
+		}
+	case *ast.UnaryExpr:
+		switch expr.Op {
+		case token.ADD, token.SUB, token.XOR, token.NOT:
+			return c.untypedConstType(expr.X)
+		}
+	case *ast.BinaryExpr:
+		x := c.untypedConstType(expr.X)
+		y := c.untypedConstType(expr.Y)
+		if x == "" || y == "" {
+			return ""
+		}
+		switch expr.Op {
+		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
+			return "bool"
+		case token.SHL, token.SHR:
+			if x == "rune" {
+				return x
+			}
+			return "int"
+		}
+		if untypedRank(y) > untypedRank(x) {
+			return y
+		}
+		return x
+	case *ast.Ident:
+		if c.Has(expr.Name) {
+			return ""
+		}
+		if decl := c.Package.Decls[expr.Name]; decl != nil {
+			return c.untypedConstDeclType(c.Package.Package, decl)
+		}
+		if expr.Name == "true" || expr.Name == "false" {
+			return "bool"
+		}
+	case *ast.SelectorExpr:
+		idt, ok := expr.X.(*ast.Ident)
+		if !ok || c.Has(idt.Name) || c.Package.Decls[idt.Name] != nil {
+			return ""
+		}
+		pkgPath, ok := c.File.Imports[idt.Name]
+		if !ok {
+			return ""
+		}
+		pkg := c.loadPackage(pkgPath)
+		if pkg == nil {
+			return ""
+		}
+		if decl := pkg.Decls[expr.Sel.Name]; decl != nil {
+			return c.untypedConstDeclType(pkg, decl)
+		}
+	}
+	return ""
+}
+
+func (c *Scope) untypedConstDeclType(pkg *edit.Package, decl *edit.Decl) types.Basic {
+	if decl.Kind != edit.DeclKindConst || decl.Type != nil || decl.Value == nil {
+		return ""
+	}
+	return c.newFileScope(pkg, decl.File).untypedConstType(decl.Value)
+}
+
+func untypedRank(typ types.Basic) int {
+	switch typ {
+	case "int":
+		return 1
+	case "rune":
+		return 2
+	case "float64":
+		return 3
+	case "complex128":
+		return 4
+	}
+	return 0
+}
+
+// adaptsToOperand tells if expr, as an operand, takes the type of the other
+// operand: an untyped constant, or one shifted by a variable
+func (c *Scope) adaptsToOperand(expr ast.Expr) bool {
+	if c.untypedConstType(expr) != "" {
+		return true
+	}
+	shift, ok := deparen(expr).(*ast.BinaryExpr)
+	if !ok || (shift.Op != token.SHL && shift.Op != token.SHR) {
+		return false
+	}
+	return c.adaptsToOperand(shift.X)
+}
-- 
2.43.0


From 161613befee04d50dc26db32f5729634ff7b8224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 16/40] fix: var a, b = f() at package level failed to build

---
 instrument/resolve/traverse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instrument/resolve/traverse.go b/instrument/resolve/traverse.go
index 1f27f17..5bce789 100644
--- a/instrument/resolve/traverse.go
+++ b/instrument/resolve/traverse.go
@@ -38,8 +38,9 @@ func CollectDecls(pkg *edit.Package) {
 								if isBlankName(name.Name) {
 									continue
 								}
+								// var a, b = f() has no value for each name
 								var value ast.Expr
-								if i < len(spec.Values) {
+								if len(spec.Values) == len(spec.Names) {
 									value = spec.Values[i]
 								}
 								kind := edit.DeclKindVar
-- 
2.43.0


From 3f392a2eab884392e157607265e0ca4a0787d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 17/40] fix: variables used through pointer methods of embedded
 or unnamed types failed to build

---
 instrument/resolve/collect_var_ref.go |   4 +
 instrument/resolve/expr.go            |  53 +++++++++-
 instrument/resolve/resolve.go         | 141 ++++++++++++++++++++++----
 instrument/resolve/types/type.go      |   5 +-
 4 files changed, 183 insertions(+), 20 deletions(-)

diff --git a/instrument/resolve/collect_var_ref.go b/instrument/resolve/collect_var_ref.go
index 507bc06..f6e41b4 100644
--- a/instrument/resolve/collect_var_ref.go
+++ b/instrument/resolve/collect_var_ref.go
@@ -50,6 +50,10 @@ func (c *Scope) collectSelector(addr *ast.UnaryExpr, sel *ast.SelectorExpr) bool
 
 func (c *Scope) collectVarRef(addr *ast.UnaryExpr, expr ast.Expr, originalSel *ast.SelectorExpr) bool {
 	expr = deparen(expr)
+	if !isIdent(expr) && !isSelectorExpr(expr) {
+		// e.g. (&v).Method
+		return false
+	}
 	exprInfo := c.resolveInfo(expr)
 	obj, ok := exprInfo.(types.Object)
 	if !ok {
diff --git a/instrument/resolve/expr.go b/instrument/resolve/expr.go
index 7b9fa5b..8c991c8 100644
--- a/instrument/resolve/expr.go
+++ b/instrument/resolve/expr.go
@@ -100,6 +100,8 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 					}
 				}
 			}
+			c.traverseAddressable(node.X)
+			return
 		}
 		c.traverseExpr(node.X)
 	case *ast.CallExpr:
@@ -130,7 +132,12 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		c.traverseExpr(node.Index)
 	case *ast.SliceExpr:
 		// something[...:...], only traverse the index
-		c.traverseExpr(node.X)
+		if c.isIndirect(node.X) {
+			c.traverseExpr(node.X)
+		} else {
+			// arrays are sliced in place
+			c.traverseAddressable(node.X)
+		}
 		c.traverseExpr(node.Low)
 		c.traverseExpr(node.High)
 		c.traverseExpr(node.Max)
@@ -188,6 +195,50 @@ func (c *Scope) traverseTarget(node ast.Expr) {
 	}
 }
 
+// traverseAddressable traverses node, which must remain addressable:
+// a variable that node is part of stays as is
+func (c *Scope) traverseAddressable(node ast.Expr) {
+	switch node := node.(type) {
+	case *ast.Ident:
+		// stays
+	case *ast.ParenExpr:
+		c.traverseAddressable(node.X)
+	case *ast.SelectorExpr:
+		if c.isIndirect(node.X) {
+			c.traverseExpr(node.X)
+		} else {
+			c.traverseAddressable(node.X)
+		}
+	case *ast.IndexExpr:
+		if c.isIndirect(node.X) {
+			c.traverseExpr(node.X)
+		} else {
+			c.traverseAddressable(node.X)
+		}
+		c.traverseExpr(node.Index)
+	default:
+		c.traverseExpr(node)
+	}
+}
+
+// isIndirect tells if what is selected from node, an element or a field,
+// is addressable no matter node itself is
+func (c *Scope) isIndirect(node ast.Expr) bool {
+	obj := c.resolveObject(node)
+	if types.IsUnknown(obj) {
+		return false
+	}
+	typ := obj.Type()
+	if typ == nil {
+		return false
+	}
+	switch typ.Underlying().(type) {
+	case types.RawPtr, types.Slice, types.Map, types.Basic:
+		return true
+	}
+	return false
+}
+
 func deparen(expr ast.Expr) ast.Expr {
 	if expr == nil {
 		return nil
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index ff66eb0..ab7fecb 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -315,21 +315,22 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			Type_: typ,
 		}
 	case *ast.StructType:
-		fields := make([]types.StructField, len(expr.Fields.List))
-		for i, field := range expr.Fields.List {
+		fields := make([]types.StructField, 0, len(expr.Fields.List))
+		for _, field := range expr.Fields.List {
 			typ := c.lazyResolveType(field.Type)
 			if len(field.Names) > 0 {
 				for _, name := range field.Names {
-					fields[i] = types.StructField{
+					fields = append(fields, types.StructField{
 						Name: name.Name,
 						Type: typ,
-					}
+					})
 				}
 			} else {
-				fields[i] = types.StructField{
-					Name: getEmbedFieldName(field.Type),
-					Type: typ,
-				}
+				fields = append(fields, types.StructField{
+					Name:     getEmbedFieldName(field.Type),
+					Type:     typ,
+					Embedded: true,
+				})
 			}
 		}
 		return types.Struct{
@@ -604,6 +605,9 @@ func (c *Scope) resolveSelectorSubInfo(expr *ast.SelectorExpr) types.Info {
 	selName := expr.Sel.Name
 	xInfo := c.resolveInfo(expr.X)
 	if types.IsUnknown(xInfo) {
+		if elemType := c.resolveElemType(expr.X); c.needsAddr(elemType, selName, 0) {
+			c.markAddressed(expr.X)
+		}
 		return types.Unknown{}
 	}
 	switch xInfo := xInfo.(type) {
@@ -629,19 +633,17 @@ func (c *Scope) resolveSelectorSubInfo(expr *ast.SelectorExpr) types.Info {
 		if valType == nil || types.IsUnknown(valType) {
 			return types.Unknown{}
 		}
-		return c.resolveFieldToObject(valType, selName, func() {
+		obj := c.resolveFieldToObject(valType, selName, func() {
 			// update the nested expr type to be pointer
 			// A.B -> A to pointer
 			// A.B.C -> A, A.B all to be pointer
-			forAllNestedExpr(expr.X, func(expr ast.Expr) {
-				info := c.resolveInfo(expr)
-				if obj, ok := info.(types.Object); ok {
-					c.Global.ExprInfo[expr] = types.Pointer{
-						Value: obj,
-					}
-				}
-			})
+			c.markAddressed(expr.X)
 		})
+		if types.IsUnknown(obj) && c.needsAddr(valType, selName, 0) {
+			// a promoted method
+			c.markAddressed(expr.X)
+		}
+		return obj
 	case types.Type:
 		// (*ipc.Reader).Next or ipc.Reader.Next
 		// resolves to Value
@@ -659,7 +661,103 @@ func forAllNestedExpr(expr ast.Expr, fn func(expr ast.Expr)) {
 		fn(expr.Sel)
 	case *ast.ParenExpr:
 		forAllNestedExpr(expr.X, fn)
+	case *ast.IndexExpr:
+		forAllNestedExpr(expr.X, fn)
+	}
+}
+
+// markAddressed marks expr and what it is part of as pointers
+func (c *Scope) markAddressed(expr ast.Expr) {
+	forAllNestedExpr(expr, func(expr ast.Expr) {
+		info := c.resolveInfo(expr)
+		obj, ok := info.(types.Object)
+		if !ok || types.IsUnknown(info) {
+			return
+		}
+		if _, ok := obj.(types.Pointer); ok {
+			return
+		}
+		c.Global.ExprInfo[expr] = types.Pointer{
+			Value: obj,
+		}
+	})
+}
+
+// resolveElemType gives the element type if expr indexes an array,
+// whose elements are addressable only if the array is
+func (c *Scope) resolveElemType(expr ast.Expr) types.Type {
+	index, ok := deparen(expr).(*ast.IndexExpr)
+	if !ok {
+		return types.Unknown{}
+	}
+	if typ := c.resolveElemType(index.X); !types.IsUnknown(typ) {
+		return arrayElem(typ)
+	}
+	obj := c.resolveObject(index.X)
+	if types.IsUnknown(obj) {
+		return types.Unknown{}
+	}
+	if ptr, ok := obj.(types.Pointer); ok {
+		// might be marked addressed
+		if typ := arrayElem(ptr.Value.Type()); !types.IsUnknown(typ) {
+			return typ
+		}
 	}
+	return arrayElem(obj.Type())
+}
+
+func arrayElem(typ types.Type) types.Type {
+	if typ == nil || types.IsUnknown(typ) {
+		return types.Unknown{}
+	}
+	if arr, ok := typ.Underlying().(types.Array); ok {
+		return types.ResolveLazy(arr.Elem)
+	}
+	return types.Unknown{}
+}
+
+// needsAddr tells if typ is a value type, of which name is a method, possibly
+// promoted from embedded fields, that can only be called if addressable
+func (c *Scope) needsAddr(typ types.Type, name string, depth int) bool {
+	const maxDepth = 10
+	if typ == nil || depth > maxDepth {
+		return false
+	}
+	typ = types.ResolveLazy(typ)
+	if _, ok := typ.(types.PtrType); ok || types.IsUnknown(typ) {
+		return false
+	}
+	if inst, ok := typ.(types.GenericInstanceType); ok {
+		typ = inst.Type
+	}
+	if named, ok := typ.(types.NamedType); ok {
+		for {
+			decl := c.getPkgNameDecl(named.PkgPath, named.Name)
+			if decl != nil && decl.Methods[name] != nil {
+				return decl.Methods[name].RecvPtr
+			}
+			next, ok := named.Type.(types.NamedType)
+			if !ok {
+				break
+			}
+			named = next
+		}
+	}
+	st, ok := typ.Underlying().(types.Struct)
+	if !ok {
+		return false
+	}
+	for _, field := range st.Fields {
+		if field.Name == name {
+			return false
+		}
+	}
+	for _, field := range st.Fields {
+		if field.Embedded && c.needsAddr(field.Type, name, depth+1) {
+			return true
+		}
+	}
+	return false
 }
 
 // valType can be: LazyType, ptr to LazyType
@@ -734,6 +832,15 @@ func (c *Scope) resolveFieldToObject(valType types.Type, fieldName string, onDet
 				}
 			}
 		}
+	} else if st, ok := resolveType.(types.Struct); ok {
+		// var x struct { mu sync.Mutex }
+		for _, field := range st.Fields {
+			if field.Name == fieldName && !types.IsUnknown(types.ResolveLazy(field.Type)) {
+				return types.Value{
+					Type_: field.Type,
+				}
+			}
+		}
 	}
 	return types.Unknown{}
 }
diff --git a/instrument/resolve/types/type.go b/instrument/resolve/types/type.go
index 022c98d..91193e9 100644
--- a/instrument/resolve/types/type.go
+++ b/instrument/resolve/types/type.go
@@ -125,8 +125,9 @@ type Struct struct {
 }
 
 type StructField struct {
-	Name string
-	Type Type
+	Name     string
+	Type     Type
+	Embedded bool
 }
 
 type Interface struct {
-- 
2.43.0


From b6a07e8337781a855d21bc5737ae4fe475b1146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 18/40] fix: declarations were resolved against the names in
 scope where they are used

---
 instrument/resolve/collect_var_ref.go    |  6 +++++-
 instrument/resolve/generic_go1.18.go     | 15 +++++++++++++++
 instrument/resolve/generic_non_go1.18.go |  5 +++++
 instrument/resolve/resolve.go            | 14 ++++++++++----
 instrument/resolve/scope.go              |  6 ++++++
 5 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/instrument/resolve/collect_var_ref.go b/instrument/resolve/collect_var_ref.go
index f6e41b4..f022e68 100644
--- a/instrument/resolve/collect_var_ref.go
+++ b/instrument/resolve/collect_var_ref.go
@@ -148,7 +148,11 @@ func (c *Scope) tryResolveDeclType(decl *edit.Decl) bool {
 	if decl.ResolvedValueType != nil {
 		return !types.IsUnknown(decl.ResolvedValueType)
 	}
-	info := c.resolveInfo(decl.Value)
+	scope := c
+	if decl.File != nil && c.Package.Decls[decl.Ident.Name] == decl {
+		scope = c.newFileScope(c.Package.Package, decl.File)
+	}
+	info := scope.resolveInfo(decl.Value)
 	if types.IsUnknown(info) {
 		decl.ResolvedValueType = types.Unknown{}
 		return false
diff --git a/instrument/resolve/generic_go1.18.go b/instrument/resolve/generic_go1.18.go
index a1ec6c0..2eea61f 100644
--- a/instrument/resolve/generic_go1.18.go
+++ b/instrument/resolve/generic_go1.18.go
@@ -6,9 +6,24 @@ package resolve
 import (
 	"go/ast"
 
+	"github.com/xhd2015/xgo/instrument/edit"
 	"github.com/xhd2015/xgo/instrument/resolve/types"
 )
 
+func getTypeParams(decl *edit.Decl) *ast.FieldList {
+	if decl.FuncDecl != nil && decl.FuncDecl.Syntax != nil && decl.FuncDecl.Syntax.Type != nil {
+		return decl.FuncDecl.Syntax.Type.TypeParams
+	}
+	if decl.Decl != nil {
+		for _, spec := range decl.Decl.Specs {
+			if spec, ok := spec.(*ast.TypeSpec); ok && spec.Name == decl.Ident {
+				return spec.TypeParams
+			}
+		}
+	}
+	return nil
+}
+
 // something[A,B]
 func (c *Scope) traverseIndexListExpr(expr ast.Expr) bool {
 	list, ok := expr.(*ast.IndexListExpr)
diff --git a/instrument/resolve/generic_non_go1.18.go b/instrument/resolve/generic_non_go1.18.go
index 1a3a8e5..0f7263c 100644
--- a/instrument/resolve/generic_non_go1.18.go
+++ b/instrument/resolve/generic_non_go1.18.go
@@ -6,9 +6,14 @@ package resolve
 import (
 	"go/ast"
 
+	"github.com/xhd2015/xgo/instrument/edit"
 	"github.com/xhd2015/xgo/instrument/resolve/types"
 )
 
+func getTypeParams(decl *edit.Decl) *ast.FieldList {
+	return nil
+}
+
 // something[A,B]
 func (c *Scope) traverseIndexListExpr(expr ast.Expr) bool {
 	return false
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index ab7fecb..0dd325a 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -108,8 +108,12 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				if config.DEBUG {
 					config_debug.OnResolvePackageDeclareInfo(c.Package.PkgPath(), c.File.File.File.Name, expr)
 				}
+				// what a declaration refers to is looked up where it is written
+				declScope := c.newFileScope(c.Package.Package, decl.File)
 				if decl.Kind == edit.DeclKindType {
-					typ := c.resolveType(decl.Type)
+					typeScope := declScope.newScope()
+					typeScope.addTypeParams(getTypeParams(decl))
+					typ := typeScope.resolveType(decl.Type)
 					if types.IsUnknown(typ) {
 						return types.Unknown{}
 					}
@@ -124,9 +128,9 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				} else if decl.Kind == edit.DeclKindVar || decl.Kind == edit.DeclKindConst {
 					var varType types.Type
 					if decl.Type != nil {
-						varType = c.resolveType(decl.Type)
+						varType = declScope.resolveType(decl.Type)
 					} else if decl.Value != nil {
-						valInfo := c.resolveInfo(decl.Value)
+						valInfo := declScope.resolveInfo(decl.Value)
 						if obj, ok := valInfo.(types.Object); ok {
 							varType = obj.Type()
 						}
@@ -147,7 +151,9 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				} else if decl.Kind == edit.DeclKindFunc {
 					var signature types.Signature
 					if decl.FuncDecl != nil && decl.FuncDecl.Syntax != nil && decl.FuncDecl.Syntax.Type != nil {
-						typ := c.resolveType(decl.FuncDecl.Syntax.Type)
+						funcScope := declScope.newScope()
+						funcScope.addTypeParams(getTypeParams(decl))
+						typ := funcScope.resolveType(decl.FuncDecl.Syntax.Type)
 						if typ, ok := typ.(types.Signature); ok {
 							signature = typ
 						}
diff --git a/instrument/resolve/scope.go b/instrument/resolve/scope.go
index 52ebdb8..8b85fa5 100644
--- a/instrument/resolve/scope.go
+++ b/instrument/resolve/scope.go
@@ -186,6 +186,12 @@ func (c *Scope) Add(name string) {
 	c.Names[name] = true
 }
 
+func (c *Scope) addTypeParams(params *ast.FieldList) {
+	for _, name := range getFieldNames(params) {
+		c.Add(name)
+	}
+}
+
 func (c *Scope) AddDef(name string, def *Define) {
 	if c.Defs == nil {
 		c.Defs = make(map[string]*Define, 1)
-- 
2.43.0


From 6d665afeb4a24bbde61395fb9d6319986d5c1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 19/40] fix: generic functions of the main package could not be
 found in a built program

Symbols of the main package are named main.X, while its functions are
registered under the path of the package: mocking a generic function of
the main package in a binary built by xgo failed with ErrNotInstrumented.
---
 cmd/xgo/asset/runtime_gen/functab/functab.go | 8 ++++++++
 runtime/functab/functab.go                   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/functab/functab.go b/cmd/xgo/asset/runtime_gen/functab/functab.go
index a046de0..c6ad816 100755
--- a/cmd/xgo/asset/runtime_gen/functab/functab.go
+++ b/cmd/xgo/asset/runtime_gen/functab/functab.go
@@ -20,6 +20,7 @@ var varAddrMapping map[uintptr]*core.FuncInfo                    // addr->FuncIn
 var funcFullNameMapping map[string]*core.FuncInfo                // fullName -> FuncInfo
 var interfaceMapping map[string]map[string]*core.FuncInfo        // pkg -> interfaceName -> FuncInfo
 var typeMethodMapping map[reflect.Type]map[string]*core.FuncInfo // reflect.Type -> interfaceName -> FuncInfo
+var mainPkgPath string                                           // path of the package whose symbols are named main.X
 
 func init() {
 	funcPCMapping = make(map[uintptr]*core.FuncInfo)
@@ -130,6 +131,9 @@ func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 		if recvName != "" {
 			idName = recvName + "." + funcName
 		}
+		if pkgPath == "main" && mainPkgPath != "" {
+			pkgPath = mainPkgPath
+		}
 		return GetFuncByPkg(pkgPath, idName)
 	}
 	if recvName != "" && !recvPtr {
@@ -261,6 +265,10 @@ func registerIndex(funcInfo *core.FuncInfo) {
 			}
 			pc = getFuncPC(f)
 			pcFullName = runtime.XgoGetFullPCName(pc)
+			if pcFullName == "main."+identityName {
+				// symbols of the main package are not named after its path
+				mainPkgPath = pkgPath
+			}
 		} else {
 			if (closure || fnKind == core.Kind_Var || fnKind == core.Kind_VarPtr || fnKind == core.Kind_Const) && identityName != "" {
 				pcFullName = pkgPath + "." + identityName
diff --git a/runtime/functab/functab.go b/runtime/functab/functab.go
index a046de0..c6ad816 100644
--- a/runtime/functab/functab.go
+++ b/runtime/functab/functab.go
@@ -20,6 +20,7 @@ var varAddrMapping map[uintptr]*core.FuncInfo                    // addr->FuncIn
 var funcFullNameMapping map[string]*core.FuncInfo                // fullName -> FuncInfo
 var interfaceMapping map[string]map[string]*core.FuncInfo        // pkg -> interfaceName -> FuncInfo
 var typeMethodMapping map[reflect.Type]map[string]*core.FuncInfo // reflect.Type -> interfaceName -> FuncInfo
+var mainPkgPath string                                           // path of the package whose symbols are named main.X
 
 func init() {
 	funcPCMapping = make(map[uintptr]*core.FuncInfo)
@@ -130,6 +131,9 @@ func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 		if recvName != "" {
 			idName = recvName + "." + funcName
 		}
+		if pkgPath == "main" && mainPkgPath != "" {
+			pkgPath = mainPkgPath
+		}
 		return GetFuncByPkg(pkgPath, idName)
 	}
 	if recvName != "" && !recvPtr {
@@ -261,6 +265,10 @@ func registerIndex(funcInfo *core.FuncInfo) {
 			}
 			pc = getFuncPC(f)
 			pcFullName = runtime.XgoGetFullPCName(pc)
+			if pcFullName == "main."+identityName {
+				// symbols of the main package are not named after its path
+				mainPkgPath = pkgPath
+			}
 		} else {
 			if (closure || fnKind == core.Kind_Var || fnKind == core.Kind_VarPtr || fnKind == core.Kind_Const) && identityName != "" {
 				pcFullName = pkgPath + "." + identityName
-- 
2.43.0


From be7e13e6736bd1c5d5267370c195e85056b0140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 20/40] fix: a mock bound to a receiver whose type has no ==
 panicked at every call

mock.Patch(x.M, ...) for a receiver of slice, map or func type, or a
struct or array of these, compared receivers with ==.
---
 .../asset/runtime_gen/internal/trap/mock.go   | 46 ++++++++++++++++++-
 runtime/internal/trap/mock.go                 | 46 ++++++++++++++++++-
 2 files changed, 90 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index 3a2e757..fc09c58 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"unsafe"
 
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/functab"
@@ -364,7 +365,50 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	// assume both are non-nil
 	recvPtrVal := reflect.ValueOf(recvPtr)
 	actRecvPtrVal := reflect.ValueOf(actRecvPtr)
-	return recvPtrVal.Elem().Interface() == actRecvPtrVal.Elem().Interface()
+	recv := recvPtrVal.Elem().Interface()
+	actRecv := actRecvPtrVal.Elem().Interface()
+	if recvPtrVal.Type() == actRecvPtrVal.Type() && !recvPtrVal.Type().Elem().Comparable() {
+		// slices, maps, funcs and what contains them have no ==,
+		// they are the same if they refer to the same data
+		return identical(recvPtrVal.Elem(), actRecvPtrVal.Elem())
+	}
+	return recv == actRecv
+}
+
+// identical tells if a and b, being of the same type, are equal,
+// or refer to the same data where == is not defined
+func identical(a reflect.Value, b reflect.Value) bool {
+	switch a.Kind() {
+	case reflect.Slice:
+		return a.Len() == b.Len() && a.Pointer() == b.Pointer()
+	case reflect.Map:
+		return a.Pointer() == b.Pointer()
+	case reflect.Func:
+		// the func value refers to its closure
+		return *(*uintptr)(unsafe.Pointer(a.UnsafeAddr())) == *(*uintptr)(unsafe.Pointer(b.UnsafeAddr()))
+	case reflect.Struct:
+		for i := 0; i < a.NumField(); i++ {
+			if !identical(a.Field(i), b.Field(i)) {
+				return false
+			}
+		}
+		return true
+	case reflect.Array:
+		for i := 0; i < a.Len(); i++ {
+			if !identical(a.Index(i), b.Index(i)) {
+				return false
+			}
+		}
+		return true
+	default:
+		// NewAt also gives access to unexported fields
+		x := reflect.NewAt(a.Type(), unsafe.Pointer(a.UnsafeAddr())).Elem().Interface()
+		y := reflect.NewAt(b.Type(), unsafe.Pointer(b.UnsafeAddr())).Elem().Interface()
+		if a.Kind() == reflect.Interface {
+			return sameInterface(x, y)
+		}
+		return x == y
+	}
 }
 
 // return `true` if hit ptr type
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index 3a2e757..fc09c58 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"unsafe"
 
 	"github.com/xhd2015/xgo/runtime/core"
 	"github.com/xhd2015/xgo/runtime/functab"
@@ -364,7 +365,50 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	// assume both are non-nil
 	recvPtrVal := reflect.ValueOf(recvPtr)
 	actRecvPtrVal := reflect.ValueOf(actRecvPtr)
-	return recvPtrVal.Elem().Interface() == actRecvPtrVal.Elem().Interface()
+	recv := recvPtrVal.Elem().Interface()
+	actRecv := actRecvPtrVal.Elem().Interface()
+	if recvPtrVal.Type() == actRecvPtrVal.Type() && !recvPtrVal.Type().Elem().Comparable() {
+		// slices, maps, funcs and what contains them have no ==,
+		// they are the same if they refer to the same data
+		return identical(recvPtrVal.Elem(), actRecvPtrVal.Elem())
+	}
+	return recv == actRecv
+}
+
+// identical tells if a and b, being of the same type, are equal,
+// or refer to the same data where == is not defined
+func identical(a reflect.Value, b reflect.Value) bool {
+	switch a.Kind() {
+	case reflect.Slice:
+		return a.Len() == b.Len() && a.Pointer() == b.Pointer()
+	case reflect.Map:
+		return a.Pointer() == b.Pointer()
+	case reflect.Func:
+		// the func value refers to its closure
+		return *(*uintptr)(unsafe.Pointer(a.UnsafeAddr())) == *(*uintptr)(unsafe.Pointer(b.UnsafeAddr()))
+	case reflect.Struct:
+		for i := 0; i < a.NumField(); i++ {
+			if !identical(a.Field(i), b.Field(i)) {
+				return false
+			}
+		}
+		return true
+	case reflect.Array:
+		for i := 0; i < a.Len(); i++ {
+			if !identical(a.Index(i), b.Index(i)) {
+				return false
+			}
+		}
+		return true
+	default:
+		// NewAt also gives access to unexported fields
+		x := reflect.NewAt(a.Type(), unsafe.Pointer(a.UnsafeAddr())).Elem().Interface()
+		y := reflect.NewAt(b.Type(), unsafe.Pointer(b.UnsafeAddr())).Elem().Interface()
+		if a.Kind() == reflect.Interface {
+			return sameInterface(x, y)
+		}
+		return x == y
+	}
 }
 
 // return `true` if hit ptr type
-- 
2.43.0


From ab9ff4d2205a0bb6a996d5d559b6b0249e5900d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 21/40] fix: contexts and errors of generic functions were not
 passed on by interceptors

An interceptor of a generic function got no context of the call, and its
error paniced instead of being returned as the last result.
---
 .../asset/runtime_gen/internal/trap/build.go  | 35 +++++++++++++++----
 runtime/internal/trap/build.go                | 35 +++++++++++++++----
 2 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/build.go b/cmd/xgo/asset/runtime_gen/internal/trap/build.go
index b4bf661..95daa97 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/build.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/build.go
@@ -242,7 +242,7 @@ func buildMockFromInterceptor(recvPtr interface{}, interceptor Interceptor) func
 		}
 
 		var ctx context.Context = context.TODO()
-		if funcInfo.FirstArgCtx {
+		if isFirstArgCtx(funcInfo, args) {
 			// see https://github.com/xhd2015/xgo/issues/316 and https://github.com/xhd2015/xgo/issues/377
 			argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 			if argCtx != nil {
@@ -254,7 +254,7 @@ func buildMockFromInterceptor(recvPtr interface{}, interceptor Interceptor) func
 
 		err := interceptor(ctx, funcInfo, argObj, resObject)
 		if err != nil {
-			if funcInfo.LastResultErr {
+			if isLastResultErr(funcInfo, results) {
 				lastErr := results[len(results)-1].(*error)
 				*lastErr = err
 			} else {
@@ -303,7 +303,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				})
 			}
 			var ctx context.Context = context.TODO()
-			if funcInfo.FirstArgCtx {
+			if isFirstArgCtx(funcInfo, args) {
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 				if argCtx != nil {
 					if expectCtx, ok := argCtx.(context.Context); ok {
@@ -316,7 +316,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				if err == ErrMocked {
 					return nil, true
 				}
-				if funcInfo.LastResultErr {
+				if isLastResultErr(funcInfo, results) {
 					lastErr := results[len(results)-1].(*error)
 					*lastErr = err
 				} else {
@@ -355,7 +355,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				})
 			}
 			var ctx context.Context = context.TODO()
-			if funcInfo.FirstArgCtx {
+			if isFirstArgCtx(funcInfo, args) {
 				// see https://github.com/xhd2015/xgo/issues/377
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 				if argCtx != nil {
@@ -366,7 +366,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 			}
 			err := postInterceptor(ctx, funcInfo, argObj, resObject, data)
 			if err != nil {
-				if funcInfo.LastResultErr {
+				if isLastResultErr(funcInfo, results) {
 					lastErr := results[len(results)-1].(*error)
 					*lastErr = err
 				} else {
@@ -377,3 +377,26 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 	}
 	return pre, post
 }
+
+var ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
+
+// isFirstArgCtx tells if the first argument is a context, args are pointers.
+// FuncInfo of a generic function has no type to tell that
+func isFirstArgCtx(funcInfo *core.FuncInfo, args []interface{}) bool {
+	if !funcInfo.Generic {
+		return funcInfo.FirstArgCtx
+	}
+	return len(args) > 0 && reflect.TypeOf(args[0]).Elem().Implements(ctxType)
+}
+
+// isLastResultErr tells if the last result is an error, results are pointers.
+func isLastResultErr(funcInfo *core.FuncInfo, results []interface{}) bool {
+	if !funcInfo.Generic {
+		return funcInfo.LastResultErr
+	}
+	if len(results) == 0 {
+		return false
+	}
+	_, ok := results[len(results)-1].(*error)
+	return ok
+}
diff --git a/runtime/internal/trap/build.go b/runtime/internal/trap/build.go
index b4bf661..95daa97 100644
--- a/runtime/internal/trap/build.go
+++ b/runtime/internal/trap/build.go
@@ -242,7 +242,7 @@ func buildMockFromInterceptor(recvPtr interface{}, interceptor Interceptor) func
 		}
 
 		var ctx context.Context = context.TODO()
-		if funcInfo.FirstArgCtx {
+		if isFirstArgCtx(funcInfo, args) {
 			// see https://github.com/xhd2015/xgo/issues/316 and https://github.com/xhd2015/xgo/issues/377
 			argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 			if argCtx != nil {
@@ -254,7 +254,7 @@ func buildMockFromInterceptor(recvPtr interface{}, interceptor Interceptor) func
 
 		err := interceptor(ctx, funcInfo, argObj, resObject)
 		if err != nil {
-			if funcInfo.LastResultErr {
+			if isLastResultErr(funcInfo, results) {
 				lastErr := results[len(results)-1].(*error)
 				*lastErr = err
 			} else {
@@ -303,7 +303,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				})
 			}
 			var ctx context.Context = context.TODO()
-			if funcInfo.FirstArgCtx {
+			if isFirstArgCtx(funcInfo, args) {
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 				if argCtx != nil {
 					if expectCtx, ok := argCtx.(context.Context); ok {
@@ -316,7 +316,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				if err == ErrMocked {
 					return nil, true
 				}
-				if funcInfo.LastResultErr {
+				if isLastResultErr(funcInfo, results) {
 					lastErr := results[len(results)-1].(*error)
 					*lastErr = err
 				} else {
@@ -355,7 +355,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				})
 			}
 			var ctx context.Context = context.TODO()
-			if funcInfo.FirstArgCtx {
+			if isFirstArgCtx(funcInfo, args) {
 				// see https://github.com/xhd2015/xgo/issues/377
 				argCtx := reflect.ValueOf(args[0]).Elem().Interface()
 				if argCtx != nil {
@@ -366,7 +366,7 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 			}
 			err := postInterceptor(ctx, funcInfo, argObj, resObject, data)
 			if err != nil {
-				if funcInfo.LastResultErr {
+				if isLastResultErr(funcInfo, results) {
 					lastErr := results[len(results)-1].(*error)
 					*lastErr = err
 				} else {
@@ -377,3 +377,26 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 	}
 	return pre, post
 }
+
+var ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
+
+// isFirstArgCtx tells if the first argument is a context, args are pointers.
+// FuncInfo of a generic function has no type to tell that
+func isFirstArgCtx(funcInfo *core.FuncInfo, args []interface{}) bool {
+	if !funcInfo.Generic {
+		return funcInfo.FirstArgCtx
+	}
+	return len(args) > 0 && reflect.TypeOf(args[0]).Elem().Implements(ctxType)
+}
+
+// isLastResultErr tells if the last result is an error, results are pointers.
+func isLastResultErr(funcInfo *core.FuncInfo, results []interface{}) bool {
+	if !funcInfo.Generic {
+		return funcInfo.LastResultErr
+	}
+	if len(results) == 0 {
+		return false
+	}
+	_, ok := results[len(results)-1].(*error)
+	return ok
+}
-- 
2.43.0


From 5a465b9666afa9ee1a55d8ac6e24ce076087f6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 22/40] fix: functions instrumented by the compiler were
 registered with the type of the receiver as its name

---
 cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go | 2 +-
 patch/syntax/syntax.go                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go b/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go
index 1070964..aaa7879 100755
--- a/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go
+++ b/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go
@@ -156,7 +156,7 @@ func convertFuncDecl(funcDecl *info.DeclInfo) *compiler_extra.FuncInfo {
 	var receiver *compiler_extra.Field
 	if funcDecl.RecvTypeName != "" {
 		receiver = &compiler_extra.Field{
-			Name: funcDecl.RecvTypeName,
+			Name: funcDecl.RecvName,
 		}
 	}
 	return &compiler_extra.FuncInfo{
diff --git a/patch/syntax/syntax.go b/patch/syntax/syntax.go
index 1070964..aaa7879 100644
--- a/patch/syntax/syntax.go
+++ b/patch/syntax/syntax.go
@@ -156,7 +156,7 @@ func convertFuncDecl(funcDecl *info.DeclInfo) *compiler_extra.FuncInfo {
 	var receiver *compiler_extra.Field
 	if funcDecl.RecvTypeName != "" {
 		receiver = &compiler_extra.Field{
-			Name: funcDecl.RecvTypeName,
+			Name: funcDecl.RecvName,
 		}
 	}
 	return &compiler_extra.FuncInfo{
-- 
2.43.0


From c8c2bfce22183ba226a02c50b494f70d1c9fe0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 23/40] fix: generic functions of packages whose path has an
 escaped symbol name could not be found

---
 cmd/xgo/asset/runtime_gen/functab/functab.go | 24 ++++++++++++++++++++
 runtime/functab/functab.go                   | 24 ++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/functab/functab.go b/cmd/xgo/asset/runtime_gen/functab/functab.go
index c6ad816..0a858fa 100755
--- a/cmd/xgo/asset/runtime_gen/functab/functab.go
+++ b/cmd/xgo/asset/runtime_gen/functab/functab.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"sync"
 	"unsafe"
@@ -134,6 +135,7 @@ func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 		if pkgPath == "main" && mainPkgPath != "" {
 			pkgPath = mainPkgPath
 		}
+		pkgPath = unescapeSymbolPath(pkgPath)
 		return GetFuncByPkg(pkgPath, idName)
 	}
 	if recvName != "" && !recvPtr {
@@ -146,6 +148,28 @@ func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	return nil
 }
 
+// unescapeSymbolPath decodes the package path found in the name of a
+// symbol, where some bytes, including the dots of the last element of
+// the path, are written as %xx(see cmd/internal/objabi.PathToPrefix)
+func unescapeSymbolPath(pkgPath string) string {
+	if !strings.Contains(pkgPath, "%") {
+		return pkgPath
+	}
+	b := make([]byte, 0, len(pkgPath))
+	for i := 0; i < len(pkgPath); i++ {
+		if pkgPath[i] == '%' && i+2 < len(pkgPath) {
+			c, err := strconv.ParseUint(pkgPath[i+1:i+3], 16, 8)
+			if err == nil {
+				b = append(b, byte(c))
+				i += 2
+				continue
+			}
+		}
+		b = append(b, pkgPath[i])
+	}
+	return string(b)
+}
+
 var errType = reflect.TypeOf((*error)(nil)).Elem()
 var ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
 
diff --git a/runtime/functab/functab.go b/runtime/functab/functab.go
index c6ad816..0a858fa 100644
--- a/runtime/functab/functab.go
+++ b/runtime/functab/functab.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"sync"
 	"unsafe"
@@ -134,6 +135,7 @@ func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 		if pkgPath == "main" && mainPkgPath != "" {
 			pkgPath = mainPkgPath
 		}
+		pkgPath = unescapeSymbolPath(pkgPath)
 		return GetFuncByPkg(pkgPath, idName)
 	}
 	if recvName != "" && !recvPtr {
@@ -146,6 +148,28 @@ func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	return nil
 }
 
+// unescapeSymbolPath decodes the package path found in the name of a
+// symbol, where some bytes, including the dots of the last element of
+// the path, are written as %xx(see cmd/internal/objabi.PathToPrefix)
+func unescapeSymbolPath(pkgPath string) string {
+	if !strings.Contains(pkgPath, "%") {
+		return pkgPath
+	}
+	b := make([]byte, 0, len(pkgPath))
+	for i := 0; i < len(pkgPath); i++ {
+		if pkgPath[i] == '%' && i+2 < len(pkgPath) {
+			c, err := strconv.ParseUint(pkgPath[i+1:i+3], 16, 8)
+			if err == nil {
+				b = append(b, byte(c))
+				i += 2
+				continue
+			}
+		}
+		b = append(b, pkgPath[i])
+	}
+	return string(b)
+}
+
 var errType = reflect.TypeOf((*error)(nil)).Elem()
 var ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
 
-- 
2.43.0


From 9435b5ef472e873bad0f5fcbf06af9006bfea8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 24/40] fix: generic functions could not be found if a type
 argument has brackets, dots or slashes in its name

---
 cmd/xgo/asset/runtime_gen/core/func.go | 44 +++++++++++++++++---------
 runtime/core/func.go                   | 44 +++++++++++++++++---------
 2 files changed, 58 insertions(+), 30 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/core/func.go b/cmd/xgo/asset/runtime_gen/core/func.go
index 1726112..7139d1f 100755
--- a/cmd/xgo/asset/runtime_gen/core/func.go
+++ b/cmd/xgo/asset/runtime_gen/core/func.go
@@ -104,11 +104,10 @@ func (c *FuncInfo) DisplayName() string {
 //	recvGeneric
 //	pkgPath
 func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bool, typeGeneric string, funcGeneric string, funcName string) {
-	sepIdx := strings.LastIndex(fullName, "/")
 	pkg_recv_func_no_generic := fullName
 	// func generic
 	if strings.HasSuffix(pkg_recv_func_no_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_func_no_generic, "[")
+		leftIdx := lastOpenIndex(pkg_recv_func_no_generic)
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -132,8 +131,8 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv_generic := pkg_recv_generic_paren
 	if strings.HasSuffix(pkg_recv_generic_paren, ")") {
 		// receiver wrap
-		leftIdx := strings.LastIndex(pkg_recv_generic_paren, "(")
-		if leftIdx < 0 {
+		leftIdx := lastOpenIndex(pkg_recv_generic_paren)
+		if leftIdx < 1 {
 			// invalid
 			return
 		}
@@ -149,7 +148,7 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv := pkg_recv_generic
 	// parse generic
 	if strings.HasSuffix(pkg_recv_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_generic, "[")
+		leftIdx := lastOpenIndex(pkg_recv_generic)
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -167,16 +166,12 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 			// invalid
 			return
 		}
-		if dotIdx < sepIdx {
-			if strings.Contains(typeGeneric, "/") {
-				// recheck, see bug https://github.com/xhd2015/xgo/issues/211
-				sepIdx = strings.LastIndex(pkg_recv, "/")
-			}
-			if dotIdx < sepIdx {
-				// no recv
-				pkgPath = recv_ptr
-				return
-			}
+		// type arguments might have "/", they are not part of pkg_recv
+		// see bug https://github.com/xhd2015/xgo/issues/211
+		if dotIdx < strings.LastIndex(pkg_recv, "/") {
+			// no recv
+			pkgPath = recv_ptr
+			return
 		}
 		pkgPath = pkg_recv[:dotIdx]
 		recv_ptr = pkg_recv[dotIdx+1:]
@@ -190,3 +185,22 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 
 	return
 }
+
+// lastOpenIndex finds the bracket opening the one at the end of s, in
+// between there can be brackets of other types, e.g. A[B[int]],
+// A[func() int], A[[2]int]
+func lastOpenIndex(s string) int {
+	depth := 0
+	for i := len(s) - 1; i >= 0; i-- {
+		switch s[i] {
+		case ')', ']', '}':
+			depth++
+		case '(', '[', '{':
+			depth--
+			if depth == 0 {
+				return i
+			}
+		}
+	}
+	return -1
+}
diff --git a/runtime/core/func.go b/runtime/core/func.go
index 1726112..7139d1f 100644
--- a/runtime/core/func.go
+++ b/runtime/core/func.go
@@ -104,11 +104,10 @@ func (c *FuncInfo) DisplayName() string {
 //	recvGeneric
 //	pkgPath
 func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bool, typeGeneric string, funcGeneric string, funcName string) {
-	sepIdx := strings.LastIndex(fullName, "/")
 	pkg_recv_func_no_generic := fullName
 	// func generic
 	if strings.HasSuffix(pkg_recv_func_no_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_func_no_generic, "[")
+		leftIdx := lastOpenIndex(pkg_recv_func_no_generic)
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -132,8 +131,8 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv_generic := pkg_recv_generic_paren
 	if strings.HasSuffix(pkg_recv_generic_paren, ")") {
 		// receiver wrap
-		leftIdx := strings.LastIndex(pkg_recv_generic_paren, "(")
-		if leftIdx < 0 {
+		leftIdx := lastOpenIndex(pkg_recv_generic_paren)
+		if leftIdx < 1 {
 			// invalid
 			return
 		}
@@ -149,7 +148,7 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 	pkg_recv := pkg_recv_generic
 	// parse generic
 	if strings.HasSuffix(pkg_recv_generic, "]") {
-		leftIdx := strings.LastIndex(pkg_recv_generic, "[")
+		leftIdx := lastOpenIndex(pkg_recv_generic)
 		if leftIdx < 0 {
 			// invalid
 			return
@@ -167,16 +166,12 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 			// invalid
 			return
 		}
-		if dotIdx < sepIdx {
-			if strings.Contains(typeGeneric, "/") {
-				// recheck, see bug https://github.com/xhd2015/xgo/issues/211
-				sepIdx = strings.LastIndex(pkg_recv, "/")
-			}
-			if dotIdx < sepIdx {
-				// no recv
-				pkgPath = recv_ptr
-				return
-			}
+		// type arguments might have "/", they are not part of pkg_recv
+		// see bug https://github.com/xhd2015/xgo/issues/211
+		if dotIdx < strings.LastIndex(pkg_recv, "/") {
+			// no recv
+			pkgPath = recv_ptr
+			return
 		}
 		pkgPath = pkg_recv[:dotIdx]
 		recv_ptr = pkg_recv[dotIdx+1:]
@@ -190,3 +185,22 @@ func ParseFuncName(fullName string) (pkgPath string, recvName string, recvPtr bo
 
 	return
 }
+
+// lastOpenIndex finds the bracket opening the one at the end of s, in
+// between there can be brackets of other types, e.g. A[B[int]],
+// A[func() int], A[[2]int]
+func lastOpenIndex(s string) int {
+	depth := 0
+	for i := len(s) - 1; i >= 0; i-- {
+		switch s[i] {
+		case ')', ']', '}':
+			depth++
+		case '(', '[', '{':
+			depth--
+			if depth == 0 {
+				return i
+			}
+		}
+	}
+	return -1
+}
-- 
2.43.0


From 4f1b9b1d6752614d8a5f4c340311622a2d369a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 25/40] fix: go flags and their values were misread as
 arguments of xgo or of the program

---
 cmd/xgo/option.go | 147 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 108 insertions(+), 39 deletions(-)

diff --git a/cmd/xgo/option.go b/cmd/xgo/option.go
index 538311d..8bf6d12 100644
--- a/cmd/xgo/option.go
+++ b/cmd/xgo/option.go
@@ -382,14 +382,38 @@ func parseOptions(cmd string, args []string) (*options, error) {
 		})
 	}
 
+	// go test: packages are given before the first flag
+	// that follows them(or before an unknown flag), anything
+	// else belongs to the test binary
+	var hasPkgs bool
+	var pkgsEnd bool
+	// the last arg is an unknown flag without '=',
+	// so the next one is supposed to be its value
+	var expectValue bool
+
 	for i := 0; i < nArg; i++ {
 		arg := args[i]
-		if !strings.HasPrefix(arg, "-") {
+		if !isGoFlag(arg) {
 			if cmd == "run" || cmd == "exec" {
 				// run and exec consumes all remaining args
+				if arg == "--" {
+					i++
+				}
 				remainArgs = append(remainArgs, args[i:]...)
 				break
 			}
+			if cmd == "test" && (arg == "--" || (pkgsEnd && !expectValue)) {
+				testArgs = append(testArgs, args[i:]...)
+				break
+			}
+			if arg == "--" {
+				remainArgs = append(remainArgs, args[i+1:]...)
+				break
+			}
+			expectValue = false
+			if !pkgsEnd {
+				hasPkgs = true
+			}
 			remainArgs = append(remainArgs, arg)
 			continue
 		}
@@ -398,12 +422,10 @@ func parseOptions(cmd string, args []string) (*options, error) {
 			testArgs = append(testArgs, args[i+1:]...)
 			break
 		}
-		if arg == "--" {
-			remainArgs = append(remainArgs, args[i+1:]...)
-			break
-		}
-		if arg == "-" {
-			return nil, fmt.Errorf("unrecognized flag: %s", arg)
+		goFlagName, goFlagHasVal := parseGoFlag(arg)
+		if isGoFlagName(goFlagName) {
+			pkgsEnd = pkgsEnd || hasPkgs
+			expectValue = false
 		}
 		if arg == "-a" || arg == "--a" {
 			flagA = true
@@ -570,29 +592,32 @@ func parseOptions(cmd string, args []string) (*options, error) {
 			continue
 		}
 
-		// check if single dash flags, this is usually go flags, such as -ldflags...
+		// other flags are go flags, such as -ldflags...
 		// NOTE: according to https://github.com/xhd2015/xgo/issues/321
 		// go supports both --flag and -flag syntax
-		if strings.HasPrefix(arg, "-") {
-			eqIdx := strings.Index(arg, "=")
-			if eqIdx >= 0 {
-				// things like -count=0
-				remainArgs = append(remainArgs, arg)
-				continue
+		if goFlagHasVal || goBoolFlags[goFlagName] {
+			// things like -count=0, -race
+			remainArgs = append(remainArgs, arg)
+			if !isGoFlagName(goFlagName) {
+				pkgsEnd = true
+				expectValue = false
 			}
-			if i+1 < nArg && !strings.HasPrefix(args[i+1], "-") {
-				// -count 0
-				// check if next arg starts with "-" (i.e. an option)
-				remainArgs = append(remainArgs, arg, args[i+1])
+			continue
+		}
+		if goValueFlags[goFlagName] {
+			// -count 0
+			// NOTE: the value may also start with "-", e.g. -ldflags -v
+			remainArgs = append(remainArgs, arg)
+			if i+1 < nArg {
+				remainArgs = append(remainArgs, args[i+1])
 				i++
-				continue
 			}
-			// -count
-			remainArgs = append(remainArgs, arg)
 			continue
 		}
-
-		return nil, fmt.Errorf("unrecognized flag: %s", arg)
+		// flags of the test binary
+		remainArgs = append(remainArgs, arg)
+		pkgsEnd = true
+		expectValue = true
 	}
 
 	return &options{
@@ -662,6 +687,62 @@ func parseOptions(cmd string, args []string) (*options, error) {
 	}, nil
 }
 
+// goBoolFlags are flags of `go build`, `go run` and `go test`
+// that do not take the next arg as value
+var goBoolFlags = makeSet(
+	"a", "n", "x", "v", "race", "msan", "asan", "work", "trimpath", "linkshared", "modcacherw", "json", "cover", "buildvcs",
+	// go test
+	"c", "i", "artifacts", "benchmem", "failfast", "fullpath", "short",
+)
+
+// goValueFlags are flags of `go build`, `go run` and `go test`
+// that take the next arg as value if not given by '='
+var goValueFlags = makeSet(
+	"C", "p", "asmflags", "buildmode", "compiler", "covermode", "coverpkg", "gccgoflags", "gcflags", "installsuffix", "ldflags",
+	"mod", "modfile", "overlay", "pgo", "pkgdir", "tags", "toolexec", "o", "exec",
+	"debug-actiongraph", "debug-runtime-trace", "debug-trace",
+	// go test
+	"bench", "benchtime", "blockprofile", "blockprofilerate", "count", "coverprofile", "cpu", "cpuprofile",
+	"fuzz", "fuzzminimizetime", "fuzztime", "list", "memprofile", "memprofilerate", "mutexprofile", "mutexprofilefraction",
+	"outputdir", "parallel", "run", "shuffle", "skip", "timeout", "trace", "vet",
+)
+
+func makeSet(names ...string) map[string]bool {
+	m := make(map[string]bool, len(names))
+	for _, name := range names {
+		m[name] = true
+	}
+	return m
+}
+
+func isGoFlagName(name string) bool {
+	return goBoolFlags[name] || goValueFlags[name]
+}
+
+// isGoFlag tells whether go takes arg as a flag
+func isGoFlag(arg string) bool {
+	name, _ := parseGoFlag(arg)
+	return name != ""
+}
+
+// parseGoFlag parses -flag, --flag, -flag=value, -test.flag,
+// name is empty if arg is not a flag
+func parseGoFlag(arg string) (name string, hasValue bool) {
+	if !strings.HasPrefix(arg, "-") {
+		return "", false
+	}
+	name = strings.TrimPrefix(arg[1:], "-")
+	if strings.HasPrefix(name, "-") {
+		return "", false
+	}
+	eqIdx := strings.Index(name, "=")
+	if eqIdx >= 0 {
+		name = name[:eqIdx]
+		hasValue = true
+	}
+	return strings.TrimPrefix(name, "test."), hasValue
+}
+
 func firstNonEmpty(values ...string) string {
 	for _, v := range values {
 		if strings.TrimSpace(v) != "" {
@@ -796,29 +877,17 @@ func getPkgArgs(args []string) []string {
 	newArgs := make([]string, 0, n)
 	for i := 0; i < n; i++ {
 		arg := args[i]
-		if !strings.HasPrefix(arg, "-") {
+		if !isGoFlag(arg) {
 			// stop at first non-arg
 			newArgs = append(newArgs, args[i:]...)
 			break
 		}
-		if arg == "-args" {
+		if arg == "-args" || arg == "--args" {
 			// go test -args: pass everything after to underlying program
 			break
 		}
-		eqIdx := strings.Index(arg, "=")
-		if eqIdx >= 0 {
-			// self hosted arg
-			continue
-		}
-		// make --opt equivalent with -opt
-		if strings.HasPrefix(arg, "--") {
-			arg = arg[1:]
-		}
-		switch arg {
-		case "-a", "-n", "-race", "-masan", "-asan", "-cover", "-v", "-work", "-x", "-linkshared", "-buildvcs", // shared among build,test,run
-			"-args", "-c", "-json": // -json for test
-			// zero arg
-		default:
+		name, hasValue := parseGoFlag(arg)
+		if !hasValue && !goBoolFlags[name] {
 			// 1 arg
 			i++
 		}
-- 
2.43.0


From b5a81d30fbd87123f3f4e87df9d230dd9684700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 26/40] fix: the leading -C flag of go commands was not
 supported

---
 cmd/xgo/main.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 2eace03..03265a2 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -149,6 +149,29 @@ func isFlagSpace(s byte) bool {
 	return s == ' ' || s == '\t' || s == '\r' || s == '\n'
 }
 
+// chdirByFlag handles the leading -C dir, see `go help build`
+func chdirByFlag(args []string) ([]string, error) {
+	if len(args) == 0 {
+		return args, nil
+	}
+	name, hasValue := parseGoFlag(args[0])
+	if name != "C" {
+		return args, nil
+	}
+	var dir string
+	if hasValue {
+		dir = args[0][strings.Index(args[0], "=")+1:]
+		args = args[1:]
+	} else {
+		if len(args) < 2 {
+			return nil, fmt.Errorf("flag %s requires value", args[0])
+		}
+		dir = args[1]
+		args = args[2:]
+	}
+	return args, os.Chdir(dir)
+}
+
 func handleBuild(cmd string, args []string) error {
 	cmdRun := cmd == "run"
 	cmdBuild := cmd == "build"
@@ -160,6 +183,11 @@ func handleBuild(cmd string, args []string) error {
 	if !cmdExec {
 		// exec does not consume XGO_FLAGS
 		xgoFlags = parseXgoFlags(os.Getenv(exec_tool.XGO_FLAGS))
+		// like go, -C dir must come first
+		args, err := chdirByFlag(args)
+		if err != nil {
+			return err
+		}
 		actualArgs = append(xgoFlags, args...)
 	}
 	opts, err := parseOptions(cmd, actualArgs)
-- 
2.43.0


From 83e08613539c2cfd82f3907f83e3e58004802067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 27/40] fix: the standard input was not passed to the program
 or test

---
 cmd/xgo/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 03265a2..fc7f983 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -1107,6 +1107,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		execCmd.Dir = projectDir
 	}
 	execCmd.Env = execCmdEnv
+	execCmd.Stdin = os.Stdin
 	execCmd.Stdout = os.Stdout
 	execCmd.Stderr = os.Stderr
 	logDebug("command executable path: %v", execCmd.Path)
-- 
2.43.0


From d7ef08ef3fa2f73bbbc0ba37057f78260cf503f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 28/40] fix: xgo test -o without -c did not write the test
 binary

---
 cmd/xgo/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index fc7f983..4e10692 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -953,9 +953,10 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 			execCmdEnv = append(execCmdEnv, exec_tool.XGO_UNIFIEDTEST+"=true")
 		}
 
-		if cmdBuild || (cmdTest && flagC) || debugMode {
+		if cmdBuild || cmdTest || debugMode {
 			// output
-			if !debugMode && noBuildOutput {
+			// NOTE: go test -o without -c also writes the test binary
+			if !debugMode && noBuildOutput && (cmdBuild || flagC) {
 				discardOut := filepath.Join(sessionTmpDir, "discard.out")
 				buildCmdArgs = append(buildCmdArgs, "-o", discardOut)
 			} else if output != "" {
-- 
2.43.0


From dfe7826246c88b0c408ae1283244d4fe345f48b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 29/40] fix: files selected by -tags were not instrumented

---
 cmd/xgo/instrument.go   | 20 +++++++++++++++++++-
 cmd/xgo/main.go         |  2 +-
 instrument/load/load.go |  2 ++
 support/goinfo/list.go  |  4 ++++
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 71cd0ba..c8191b1 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -47,10 +47,27 @@ type instrumentResult struct {
 	compilerExtra *compiler_extra.Packages
 }
 
+// loadTags returns the build tags that select source files,
+// including those implied by other flags
+func loadTags(tags string, buildFlags []string) string {
+	// the list may also be separated by spaces
+	tags = strings.Join(strings.Fields(tags), ",")
+	for _, f := range buildFlags {
+		switch name := strings.TrimLeft(f, "-"); name {
+		case "race", "msan", "asan":
+			if tags != "" {
+				tags += ","
+			}
+			tags += name
+		}
+	}
+	return tags
+}
+
 // goroot is critical for stdlib
 // includeAsMainModules: extra module paths treated as main for mock/trap (option B:
 // reclassify packages already on the load graph; do not bulk-load module/...).
-func instrumentUserCode(goroot string, projectDir string, projectRoot string, goVersion *goinfo.GoVersion, xgoSrc string, mod string, modfile string, mainModule string, includeAsMainModules []string, xgoRuntimeModuleDir string, mayHaveCover bool, overlayFS overlay.Overlay, includeTest bool, rules []Rule, trapPkgs []string, trapAll string, collectTestTrace bool, collectTestTraceDir string, xgoRaceSafe bool, goFlag bool, triedUpgrade bool) (*instrumentResult, error) {
+func instrumentUserCode(goroot string, projectDir string, projectRoot string, goVersion *goinfo.GoVersion, xgoSrc string, mod string, modfile string, tags string, mainModule string, includeAsMainModules []string, xgoRuntimeModuleDir string, mayHaveCover bool, overlayFS overlay.Overlay, includeTest bool, rules []Rule, trapPkgs []string, trapAll string, collectTestTrace bool, collectTestTraceDir string, xgoRaceSafe bool, goFlag bool, triedUpgrade bool) (*instrumentResult, error) {
 	logDebug("instrumentUserSpace: mod=%s, modfile=%s, xgoRuntimeModuleDir=%s, includeTest=%v, collectTestTrace=%v, includeAsMainModules=%v", mod, modfile, xgoRuntimeModuleDir, includeTest, collectTestTrace, includeAsMainModules)
 	if mod == "" {
 		// check vendor dir
@@ -141,6 +158,7 @@ func instrumentUserCode(goroot string, projectDir string, projectRoot string, go
 			Overlay:         overlayFS,
 			IncludeTest:     includeTest,
 			ModFile:         modfile,
+			Tags:            tags,
 			MaxFileSize:     MAX_FILE_SIZE,
 			FilterErrorFile: true,
 			Goroot:          goroot,
diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 4e10692..c2201a9 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -828,7 +828,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		if len(instrumentIncludeAsMain) == 0 {
 			instrumentIncludeAsMain = opts.MockRuleIncludeAsMainModule
 		}
-		instrumentUserCodeResult, err = instrumentUserCode(instrumentGoroot, projectDir, projectRoot, goVersion, realXgoSrc, modForLoad, modfileForLoad, mainModule, instrumentIncludeAsMain, xgoRuntimeModuleDir, mayHaveCover, overlayFS, cmdTest, opts.FilterRules, trapPkgs, trapAll, collectTestTrace, collectTestTraceDir, xgoRaceSafe, goFlag, needUpgrade)
+		instrumentUserCodeResult, err = instrumentUserCode(instrumentGoroot, projectDir, projectRoot, goVersion, realXgoSrc, modForLoad, modfileForLoad, loadTags(tags, buildFlags), mainModule, instrumentIncludeAsMain, xgoRuntimeModuleDir, mayHaveCover, overlayFS, cmdTest, opts.FilterRules, trapPkgs, trapAll, collectTestTrace, collectTestTraceDir, xgoRaceSafe, goFlag, needUpgrade)
 		if err != nil {
 			return err
 		}
diff --git a/instrument/load/load.go b/instrument/load/load.go
index 0988579..a2d3464 100644
--- a/instrument/load/load.go
+++ b/instrument/load/load.go
@@ -23,6 +23,7 @@ type LoadOptions struct {
 	Mod         string
 	IncludeTest bool
 	ModFile     string // -modfile flag
+	Tags        string // -tags flag
 	Deps        bool   // -deps flag
 
 	// max file size to parse
@@ -71,6 +72,7 @@ func LoadPackages(args []string, opts LoadOptions) (*Packages, error) {
 		Dir:     dir,
 		Mod:     mod,
 		ModFile: modFile,
+		Tags:    opts.Tags,
 		Goroot:  goroot,
 		Deps:    deps,
 		Test:    false, // NOTE: don't set it
diff --git a/support/goinfo/list.go b/support/goinfo/list.go
index 5f084ec..2bc3cb4 100644
--- a/support/goinfo/list.go
+++ b/support/goinfo/list.go
@@ -41,6 +41,7 @@ type LoadPackageOptions struct {
 	Dir     string
 	Mod     string
 	ModFile string // -modfile flag
+	Tags    string // -tags flag
 	Goroot  string // GOROOT env
 	Deps    bool   // -deps flag
 	Test    bool   // -test flag, if true, will have packages like "github.com/xhd2015/xgo/runtime/test/trap/inspect [github.com/xhd2015/xgo/runtime/test/trap/inspect.test]", so don't set it
@@ -55,6 +56,9 @@ func ListPackages(args []string, opts LoadPackageOptions) ([]*Package, error) {
 	if opts.ModFile != "" {
 		flags = append(flags, "-modfile="+opts.ModFile)
 	}
+	if opts.Tags != "" {
+		flags = append(flags, "-tags="+opts.Tags)
+	}
 	if opts.Deps {
 		flags = append(flags, "-deps")
 	}
-- 
2.43.0


From f76b5a5886dad8804d2d7c1f48effae6c62b444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 30/40] fix: functions referred to by mocks were dropped once a
 file had many functions

---
 instrument/instrument_func/trap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instrument/instrument_func/trap.go b/instrument/instrument_func/trap.go
index 8ff6713..4213815 100644
--- a/instrument/instrument_func/trap.go
+++ b/instrument/instrument_func/trap.go
@@ -106,8 +106,8 @@ func TrapFuncs(editor *goedit.Edit, pkgPath string, file *ast.File, fileIndex in
 			config_debug.OnTrapFunc(pkgPath, funcDecl, identityName)
 		}
 
+		var hitRecorder bool
 		if instrumentMode != config.InstrumentMode_All {
-			var hitRecorder bool
 			if recorder != nil {
 				var hasFnRecord bool
 				var hasTypeMethodRecord bool
@@ -160,7 +160,8 @@ func TrapFuncs(editor *goedit.Edit, pkgPath string, file *ast.File, fileIndex in
 			// take the first 100, see
 			//  - https://github.com/xhd2015/xgo/issues/333#issuecomment-2830937257
 			var addExtra bool
-			if instrumentMode == config.InstrumentMode_All {
+			if instrumentMode == config.InstrumentMode_All || hitRecorder {
+				// functions asked for explicitly are always added
 				addExtra = true
 			} else if len(extraFuncs) < config.MAX_EXTRA_FUNCS_PER_FILE {
 				if pkgQuota != nil {
-- 
2.43.0


From 6682f9eb47e507e015f1a789452ac0201fa242da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 31/40] fix: different sets of instrumented functions could be
 summed up the same, leaving stale builds

---
 cmd/xgo/instrument.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index c8191b1..c2947b5 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -377,12 +377,14 @@ func md5sumTraps(files []*compiler_extra.File, hasVarTrap bool) string {
 	h := md5.New()
 	for _, file := range files {
 		// assume files are stable
-		io.WriteString(h, file.Name)
+		// each name is terminated, so that different lists of
+		// names are never summed up the same
+		fmt.Fprintf(h, "file:%s\n", file.Name)
 		for _, fn := range file.Funcs {
-			io.WriteString(h, fn.IdentityName)
+			fmt.Fprintf(h, "func:%s\n", fn.IdentityName)
 		}
 		for _, intf := range file.Interfaces {
-			io.WriteString(h, intf.Name)
+			fmt.Fprintf(h, "interface:%s\n", intf.Name)
 		}
 	}
 	var v string = "v:0"
-- 
2.43.0


From b0caedcc45a093e4aef082d0f7c246006ddf558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 32/40] fix: lines of functions were off in files instrumented
 both by xgo and the compiler

---
 cmd/xgo/asset/compiler_patch_gen/syntax/decl.go | 4 ++--
 patch/syntax/decl.go                            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/xgo/asset/compiler_patch_gen/syntax/decl.go b/cmd/xgo/asset/compiler_patch_gen/syntax/decl.go
index 862dae2..2731a84 100755
--- a/cmd/xgo/asset/compiler_patch_gen/syntax/decl.go
+++ b/cmd/xgo/asset/compiler_patch_gen/syntax/decl.go
@@ -99,7 +99,7 @@ func extractFuncDecls(fileIndex int, declIndex int, f *syntax.File, file string,
 					FileIndex:  fileIndex,
 					DeclIndex:  declIndex,
 					File:       file,
-					Line:       int(decl.Pos().Line()),
+					Line:       int(decl.Pos().RelLine()),
 				},
 			}
 		}
@@ -112,7 +112,7 @@ func getFuncDeclInfo(fileIndex int, declIndex int, f *syntax.File, file string,
 		// see bug https://github.com/xhd2015/xgo/issues/202
 		return nil
 	}
-	line := fn.Pos().Line()
+	line := fn.Pos().RelLine()
 	fnName := fn.Name.Value
 	// there are cases where fnName is _
 	if fnName == "" || fnName == "_" || fnName == "init" {
diff --git a/patch/syntax/decl.go b/patch/syntax/decl.go
index 862dae2..2731a84 100644
--- a/patch/syntax/decl.go
+++ b/patch/syntax/decl.go
@@ -99,7 +99,7 @@ func extractFuncDecls(fileIndex int, declIndex int, f *syntax.File, file string,
 					FileIndex:  fileIndex,
 					DeclIndex:  declIndex,
 					File:       file,
-					Line:       int(decl.Pos().Line()),
+					Line:       int(decl.Pos().RelLine()),
 				},
 			}
 		}
@@ -112,7 +112,7 @@ func getFuncDeclInfo(fileIndex int, declIndex int, f *syntax.File, file string,
 		// see bug https://github.com/xhd2015/xgo/issues/202
 		return nil
 	}
-	line := fn.Pos().Line()
+	line := fn.Pos().RelLine()
 	fnName := fn.Name.Value
 	// there are cases where fnName is _
 	if fnName == "" || fnName == "_" || fnName == "init" {
-- 
2.43.0


From 7e554ef86cfbb57c26eb6352bc350371256e7596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 33/40] fix: the error of a file failing to load could be read
 before it was set

---
 instrument/load/load.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instrument/load/load.go b/instrument/load/load.go
index a2d3464..96552de 100644
--- a/instrument/load/load.go
+++ b/instrument/load/load.go
@@ -112,9 +112,10 @@ func LoadPackages(args []string, opts LoadOptions) (*Packages, error) {
 				case f := <-readChan:
 					content, err := readFile(overlayFS, f.AbsPath, maxFileSize)
 					if err != nil {
+						f.Error = err
+
 						// mark the file done
 						wg.Done()
-						f.Error = err
 						continue
 					}
 					f.Content = content
-- 
2.43.0


From b9601f250bf3e4129ad310190c1f69497b655d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 34/40] fix: packages with variables trapped outside of their
 first file failed to compile

---
 cmd/xgo/instrument.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index c2947b5..6130739 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -283,9 +283,13 @@ func instrumentUserCode(goroot string, projectDir string, projectRoot string, go
 		initial := pkg.Initial
 		pkgRecorder := recorder.GetOrInit(pkgPath)
 
+		// names used by the compiler are those of the first file,
+		// they are already declared if it has variables trapped
 		var hasVarTrap bool
-		if pkgRecorder != nil && pkgRecorder.NumVars > 0 {
-			hasVarTrap = true
+		for _, file := range pkg.Files {
+			if file.Index == 0 && len(file.TrapVars) > 0 {
+				hasVarTrap = true
+			}
 		}
 
 		mode := config.CheckInstrumentMode(stdlib, main, initial, needTrapAll)
-- 
2.43.0


From e94c0b258fe291070fbe1d917c40891b5ed95fdf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 35/40] fix: a set-up that was interrupted while changing
 GOROOT passed as complete

---
 cmd/xgo/main.go  | 17 +++++++++++++++--
 cmd/xgo/patch.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index c2201a9..71dc0ab 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -442,7 +442,11 @@ func handleBuild(cmd string, args []string) error {
 	logDebug("instrument dir: %s", instrumentDir)
 	if cmdSetup && deleteFlag {
 		logDebug("delete instrument dir: %s", instrumentDir)
-		err := os.RemoveAll(instrumentDir)
+		err := invalidateRevision(filepath.Join(instrumentDir, INSTRUMENT_XGO_REVISION_FILE))
+		if err != nil {
+			return err
+		}
+		err = os.RemoveAll(instrumentDir)
 		if err != nil {
 			return err
 		}
@@ -540,6 +544,16 @@ func handleBuild(cmd string, args []string) error {
 			return err
 		}
 
+		resetOrRevisionChanged := resetInstrument || buildCompiler || coreRevisionChanged || instrumentedGorootNeedRecreate
+		if resetOrRevisionChanged || opts.patchGorootInPlace {
+			// from here on until the revision is written again,
+			// the instrumented GOROOT is incomplete
+			err = invalidateRevision(revisionFile)
+			if err != nil {
+				return err
+			}
+		}
+
 		if resetInstrument {
 			if !instrumented {
 				logDebug("reset instrument %s", instrumentDir)
@@ -571,7 +585,6 @@ func handleBuild(cmd string, args []string) error {
 			}
 		}
 
-		resetOrRevisionChanged := resetInstrument || buildCompiler || coreRevisionChanged || instrumentedGorootNeedRecreate
 		if opts.patchGorootInPlace || isDevelopment || resetOrRevisionChanged {
 			if !opts.patchGorootInPlace && (instrumentedGorootNeedRecreate || !instrumented) {
 				if cmdSetup && flagV {
diff --git a/cmd/xgo/patch.go b/cmd/xgo/patch.go
index d477740..efd5c78 100644
--- a/cmd/xgo/patch.go
+++ b/cmd/xgo/patch.go
@@ -170,6 +170,21 @@ func checkRevisionChanged(coreRevisionFile string, currentCoreRevision string) (
 	return false, nil
 }
 
+// invalidateRevision clears the revision file, which tells that
+// the instrumented GOROOT is complete. It must be done before making
+// any change to the GOROOT: the change may be interrupted.
+// NOTE: the file is not removed, it also tells GOROOT is instrumented.
+func invalidateRevision(coreRevisionFile string) error {
+	savedCoreRevision, err := readOrEmpty(coreRevisionFile)
+	if err != nil {
+		return err
+	}
+	if savedCoreRevision == "" {
+		return nil
+	}
+	return os.WriteFile(coreRevisionFile, nil, 0755)
+}
+
 func readOrEmpty(file string) (string, error) {
 	version, err := os.ReadFile(file)
 	if err != nil {
-- 
2.43.0


From 2516975e7e6e4fa7278ea6df672ab08369fe7da8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 36/40] fix: a set-up interrupted while installing go or the
 compiler broke all later ones

---
 cmd/xgo/main.go  | 7 ++++++-
 cmd/xgo/patch.go | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 71dc0ab..49bfe60 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -543,6 +543,11 @@ func handleBuild(cmd string, args []string) error {
 		if err != nil {
 			return err
 		}
+		savedCoreRevision, err := readOrEmpty(revisionFile)
+		if err != nil {
+			return err
+		}
+		wasComplete := savedCoreRevision != ""
 
 		resetOrRevisionChanged := resetInstrument || buildCompiler || coreRevisionChanged || instrumentedGorootNeedRecreate
 		if resetOrRevisionChanged || opts.patchGorootInPlace {
@@ -591,7 +596,7 @@ func handleBuild(cmd string, args []string) error {
 					fmt.Fprintf(os.Stderr, "sync GOROOT %s -> %s\n", goroot, instrumentGoroot)
 				}
 				logDebug("sync goroot %s -> %s", goroot, instrumentGoroot)
-				err = syncGoroot(goroot, instrumentGoroot, fullSyncRecord)
+				err = syncGoroot(goroot, instrumentGoroot, fullSyncRecord, wasComplete)
 				if err != nil {
 					return err
 				}
diff --git a/cmd/xgo/patch.go b/cmd/xgo/patch.go
index efd5c78..c97a6f2 100644
--- a/cmd/xgo/patch.go
+++ b/cmd/xgo/patch.go
@@ -201,7 +201,9 @@ func readOrEmpty(file string) (string, error) {
 
 // syncGoroot copies goroot to instrumentGoroot
 // NOTE: flagA never cause goroot to reset
-func syncGoroot(goroot string, instrumentGoroot string, fullSyncRecordFile string) error {
+// wasComplete tells if the last set up has finished, otherwise
+// the binaries in instrumentGoroot may be broken
+func syncGoroot(goroot string, instrumentGoroot string, fullSyncRecordFile string, wasComplete bool) error {
 	// check if src goroot has src/runtime
 	srcRuntimeDir := filepath.Join(goroot, "src", "runtime")
 	err := assertDir(srcRuntimeDir)
@@ -232,7 +234,7 @@ func syncGoroot(goroot string, instrumentGoroot string, fullSyncRecordFile strin
 	}
 
 	var onlyCopySrc bool
-	if dstGoCopied && statNoErr(fullSyncRecordFile) {
+	if wasComplete && dstGoCopied && statNoErr(fullSyncRecordFile) {
 		// full sync record does not yet exist
 		onlyCopySrc = true
 	}
-- 
2.43.0


From 8eb9b585a22b954461070e377691fd228fb1e378 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:34:29 +0000
Subject: [PATCH 37/40] fix: errors extracting the patches of GOROOT were
 ignored

---
 cmd/xgo/patch.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/xgo/patch.go b/cmd/xgo/patch.go
index c97a6f2..7912d83 100644
--- a/cmd/xgo/patch.go
+++ b/cmd/xgo/patch.go
@@ -67,7 +67,7 @@ func patchRuntime(origGoroot string, goroot string, xgoSrc string, goVersion *go
 				return fmt.Errorf("extract patches: %w", err)
 			}
 			patchDir = filepath.Join(patchDir, fmt.Sprintf("go%d.%d", goVersion.Major, goVersion.Minor))
-			filepath.WalkDir(patchDir, func(path string, d os.DirEntry, err error) error {
+			err = filepath.WalkDir(patchDir, func(path string, d os.DirEntry, err error) error {
 				if err != nil {
 					return err
 				}
@@ -76,6 +76,9 @@ func patchRuntime(origGoroot string, goroot string, xgoSrc string, goVersion *go
 				}
 				return nil
 			})
+			if err != nil {
+				return fmt.Errorf("extract patches: %w", err)
+			}
 			xgoSrc, err = os.MkdirTemp("", "xgo-src-*")
 			if err != nil {
 				return err
-- 
2.43.0


From bb8e088c2f93a1041bd097c2da7d7c7044e9b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 38/40] fix: the cover tool of the instrumented GOROOT was not
 rebuilt

The patches of src/cmd/cover had no effect, and coverage profiles listed
instrumented positions.
---
 cmd/xgo/asset/patches/go1.24/__config__.json | 30 ++++++++++++++++++++
 cmd/xgo/asset/patches/go1.25/__config__.json | 30 ++++++++++++++++++++
 cmd/xgo/asset/patches/go1.26/__config__.json | 30 ++++++++++++++++++++
 cmd/xgo/asset/patches/go1.27/__config__.json | 30 ++++++++++++++++++++
 cmd/xgo/patch.go                             |  4 +--
 patches/go1.24/__config__.json               | 30 ++++++++++++++++++++
 patches/go1.25/__config__.json               | 30 ++++++++++++++++++++
 patches/go1.26/__config__.json               | 30 ++++++++++++++++++++
 patches/go1.27/__config__.json               | 30 ++++++++++++++++++++
 9 files changed, 242 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/patches/go1.24/__config__.json b/cmd/xgo/asset/patches/go1.24/__config__.json
index 1252777..03459fb 100755
--- a/cmd/xgo/asset/patches/go1.24/__config__.json
+++ b/cmd/xgo/asset/patches/go1.24/__config__.json
@@ -69,6 +69,36 @@
         "pkg/${GOOS}_${GOARCH}/*.a"
       ]
     },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go); the go command uses the pre-built one otherwise",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
+    },
     {
       "kind": "rebuild-go",
       "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
diff --git a/cmd/xgo/asset/patches/go1.25/__config__.json b/cmd/xgo/asset/patches/go1.25/__config__.json
index 9715b3e..471a8b4 100755
--- a/cmd/xgo/asset/patches/go1.25/__config__.json
+++ b/cmd/xgo/asset/patches/go1.25/__config__.json
@@ -69,6 +69,36 @@
         "pkg/${GOOS}_${GOARCH}/*.a"
       ]
     },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go); the go command uses the pre-built one otherwise",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
+    },
     {
       "kind": "rebuild-go",
       "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
diff --git a/cmd/xgo/asset/patches/go1.26/__config__.json b/cmd/xgo/asset/patches/go1.26/__config__.json
index 9cb2ead..7f0693f 100755
--- a/cmd/xgo/asset/patches/go1.26/__config__.json
+++ b/cmd/xgo/asset/patches/go1.26/__config__.json
@@ -69,6 +69,36 @@
         "pkg/${GOOS}_${GOARCH}/*.a"
       ]
     },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go); the go command uses the pre-built one otherwise",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
+    },
     {
       "kind": "rebuild-go",
       "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
diff --git a/cmd/xgo/asset/patches/go1.27/__config__.json b/cmd/xgo/asset/patches/go1.27/__config__.json
index 753ae04..06f5d36 100755
--- a/cmd/xgo/asset/patches/go1.27/__config__.json
+++ b/cmd/xgo/asset/patches/go1.27/__config__.json
@@ -69,6 +69,36 @@
         "pkg/${GOOS}_${GOARCH}/*.a"
       ]
     },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go); the go command uses the pre-built one otherwise",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
+    },
     {
       "kind": "rebuild-go",
       "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
diff --git a/cmd/xgo/patch.go b/cmd/xgo/patch.go
index 7912d83..fcab212 100644
--- a/cmd/xgo/patch.go
+++ b/cmd/xgo/patch.go
@@ -102,7 +102,7 @@ func patchRuntime(origGoroot string, goroot string, xgoSrc string, goVersion *go
 		}
 		var skipKinds []string
 		if skipRebuildCompilerAndGo {
-			skipKinds = []string{"rebuild-compiler", "rebuild-go"}
+			skipKinds = []string{"rebuild-compiler", "rebuild-cover", "rebuild-go"}
 		}
 		return patch.ApplyPatches(patchDir, goroot, xgoSrc, extraEnv, skipKinds, mkbuiltinHandler)
 	}
@@ -404,7 +404,7 @@ func mkbuiltinHandler(kind string, extraEnv map[string]string) error {
 			return fmt.Errorf("parse go version: %w", err)
 		}
 		return instrument_compiler.MkBuiltin(extraEnv["ORIG_GOROOT"], extraEnv["INSTRUMENT_GOROOT"], goVersion, instrument_compiler.RuntimeExtraDef)
-	case "rebuild-compiler", "rebuild-go":
+	case "rebuild-compiler", "rebuild-cover", "rebuild-go":
 		return fmt.Errorf("internal: %q must be handled via cmd execution, not handler", kind)
 	default:
 		return fmt.Errorf("unknown generate kind: %q", kind)
diff --git a/patches/go1.24/__config__.json b/patches/go1.24/__config__.json
index 1252777..03459fb 100644
--- a/patches/go1.24/__config__.json
+++ b/patches/go1.24/__config__.json
@@ -69,6 +69,36 @@
         "pkg/${GOOS}_${GOARCH}/*.a"
       ]
     },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go); the go command uses the pre-built one otherwise",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
+    },
     {
       "kind": "rebuild-go",
       "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
diff --git a/patches/go1.25/__config__.json b/patches/go1.25/__config__.json
index 9715b3e..471a8b4 100644
--- a/patches/go1.25/__config__.json
+++ b/patches/go1.25/__config__.json
@@ -69,6 +69,36 @@
         "pkg/${GOOS}_${GOARCH}/*.a"
       ]
     },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go); the go command uses the pre-built one otherwise",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
+    },
     {
       "kind": "rebuild-go",
       "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
diff --git a/patches/go1.26/__config__.json b/patches/go1.26/__config__.json
index 9cb2ead..7f0693f 100644
--- a/patches/go1.26/__config__.json
+++ b/patches/go1.26/__config__.json
@@ -69,6 +69,36 @@
         "pkg/${GOOS}_${GOARCH}/*.a"
       ]
     },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go); the go command uses the pre-built one otherwise",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
+    },
     {
       "kind": "rebuild-go",
       "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
diff --git a/patches/go1.27/__config__.json b/patches/go1.27/__config__.json
index 753ae04..06f5d36 100644
--- a/patches/go1.27/__config__.json
+++ b/patches/go1.27/__config__.json
@@ -69,6 +69,36 @@
         "pkg/${GOOS}_${GOARCH}/*.a"
       ]
     },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-a",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go); the go command uses the pre-built one otherwise",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
+    },
     {
       "kind": "rebuild-go",
       "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
-- 
2.43.0


From 88eeebf5b75b6bd9779f12a6f1e0f66056c4cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:25 +0000
Subject: [PATCH 39/40] fix: coverage flags with two dashes, -test. or in
 GOFLAGS were not noticed

Without the notes for the cover tool, the profile listed instrumented positions.
---
 cmd/xgo/main.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 49bfe60..a84adb0 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -825,14 +825,14 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		// coverage and instrument have conflicts,
 		// see https://github.com/xhd2015/xgo/issues/301
 		// TODO: enhance this to be extract -coverpkg pkg1,pkg2,...
-		var mayHaveCover bool
-		// example:
-		//    -cover -coverpkg github.com/xhd2015/xgo/... -coverprofile cover.out
-		for _, arg := range args {
-			if strings.HasPrefix(arg, "-cover") {
-				mayHaveCover = true
-				break
+		mayHaveCover := hasCoverFlag(args)
+		if !mayHaveCover {
+			// the command also takes its flags from GOFLAGS
+			goFlags, err := cmd_support.Dir(projectDir).Output(getNakedGo(), "env", "GOFLAGS")
+			if err != nil {
+				return err
 			}
+			mayHaveCover = hasCoverFlag(strings.Fields(goFlags))
 		}
 
 		var collectTestTrace bool
@@ -1307,6 +1307,22 @@ func getGoEnvRoot(dir string) (string, error) {
 
 var nakedGoReplacement = os.Getenv("XGO_REAL_GO_BINARY")
 
+// hasCoverFlag checks if any flag turns on coverage, example:
+//
+//	-cover -coverpkg github.com/xhd2015/xgo/... --coverprofile cover.out -test.coverprofile=cover.out
+func hasCoverFlag(args []string) bool {
+	for _, arg := range args {
+		if !strings.HasPrefix(arg, "-") {
+			continue
+		}
+		name := strings.TrimPrefix(strings.TrimPrefix(arg, "-"), "-")
+		if strings.HasPrefix(strings.TrimPrefix(name, "test."), "cover") {
+			return true
+		}
+	}
+	return false
+}
+
 func checkGoroot(dir string, goroot string) (string, error) {
 	if goroot == "" {
 		// use env first because dir will affect the actual
-- 
2.43.0


From 6b58dfdbee8f0854ca6c02eab144a4f9f8f44bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 40/40] fix: counts of profiles with CRLF line ends were lost,
 and mode lines taken as blocks

---
 support/coverage/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/coverage/parse.go b/support/coverage/parse.go
index 9aea086..58b148a 100644
--- a/support/coverage/parse.go
+++ b/support/coverage/parse.go
@@ -20,6 +20,11 @@ func Parse(content string) (mode string, covLines []*CovLine) {
 	}
 	covLines = make([]*CovLine, 0, len(lines))
 	for _, line := range lines {
+		line = strings.TrimSuffix(line, "\r")
+		if strings.HasPrefix(line, modePrefix) {
+			// profiles put one after the other
+			continue
+		}
 		covLine := ParseCovLine(line)
 		if covLine == nil {
 			continue
-- 
2.43.0

