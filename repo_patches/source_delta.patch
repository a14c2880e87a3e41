From e194ed43085d1a2d8c0ecdcf997767d39d0159a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 01/72] fix: a router node that has no handler of its own no
 longer shadows other matching routes

---
 router.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 06636af..ee2a694 100755
--- a/router.go
+++ b/router.go
@@ -239,6 +239,11 @@ func (r *route) match(nextPaths []string, params *paramList) (rt *route) {
 				*params = append(*params, newParams...)
 			}
 		}
+
+		// only a prefix of other routes, keep looking for a match
+		if rt != nil && !rt.isEnd {
+			rt = nil
+		}
 	}
 
 	// second match paramRoutes
@@ -423,7 +428,7 @@ func (r *route) configRoutes(args routeArgs) {
 			}
 
 			isEnd := i == len(paths)-1
-			if isEnd {
+			if isEnd && len(rtArgs.methods) > 0 {
 				rt.isEnd = true
 			}
 
-- 
2.43.0


From c48c5adc18bb4ecdabc17e2f7cbad22ac0c1a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 02/72] fix: a text converted to a slice of an unsupported
 element kind no longer panics

---
 app_util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app_util.go b/app_util.go
index 3ce03b3..2e99a75 100755
--- a/app_util.go
+++ b/app_util.go
@@ -241,6 +241,8 @@ func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 				}
 			}
 			v = final
+		default:
+			return
 		}
 	default:
 		return
-- 
2.43.0


From cdc231044d7f41febe98ea3c501a07cfb1729b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 03/72] fix: StrTo.Uint accepts every value of a uint

---
 app_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index 2e99a75..275889b 100755
--- a/app_util.go
+++ b/app_util.go
@@ -91,7 +91,7 @@ func (f StrTo) Int64() (int64, error) {
 
 // string to uint
 func (f StrTo) Uint() (uint, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 32)
+	v, err := strconv.ParseUint(f.String(), 10, 64)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 1ed0129a24d2fef4e658c107512dab14603708c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 04/72] fix: the arguments of a dispatched controller action
 follow that action's own signature

---
 router_action.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/router_action.go b/router_action.go
index 6337b31..3152450 100755
--- a/router_action.go
+++ b/router_action.go
@@ -111,11 +111,18 @@ func (r *routerAction) wrapHandle(route *route, params paramList, action string)
 }
 
 func (r *routerAction) callStructFunc(ctx Context, params paramList, action string) []reflect.Value {
-	actionIn := r.controller.actionIn
+	if !r.controller.actionFuncExists(action) {
+		panic(fmt.Sprintf("not found action func: %s", action))
+	}
+
+	newStruct := reflect.New(r.controller.typ)
+
+	// the action may differ from the one the route was registered with
+	actionTyp := newStruct.MethodByName(action).Type()
 
-	in := make([]reflect.Value, 0, len(actionIn))
-	for i := 0; i < len(actionIn); i++ {
-		typ := actionIn[i]
+	in := make([]reflect.Value, 0, actionTyp.NumIn())
+	for i := 0; i < actionTyp.NumIn(); i++ {
+		typ := actionTyp.In(i)
 		value := reflect.Value{}
 
 		if len(params) > i {
@@ -133,11 +140,6 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 		in = append(in, value)
 	}
 
-	if !r.controller.actionFuncExists(action) {
-		panic(fmt.Sprintf("not found action func: %s", action))
-	}
-
-	newStruct := reflect.New(r.controller.typ)
 	if val := indirectValue(r.controller.val); val.IsValid() {
 		newStruct.Elem().Set(val)
 	}
-- 
2.43.0


From 95f97cd400ab63ead3a61a941127313bfdb30ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 05/72] fix: a pointer argument of a controller action receives
 its converted parameter instead of panicking

---
 app_util.go      | 10 ++++++++++
 router_action.go |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index 275889b..9cf1c51 100755
--- a/app_util.go
+++ b/app_util.go
@@ -255,6 +255,16 @@ func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 	return
 }
 
+// wrap a converted value with the pointers of typ
+func pointTo(val reflect.Value, typ reflect.Type) reflect.Value {
+	if !val.IsValid() || typ.Kind() != reflect.Ptr {
+		return val
+	}
+	ptr := reflect.New(typ.Elem())
+	ptr.Elem().Set(pointTo(val, typ.Elem()))
+	return ptr
+}
+
 var (
 	dunno     = []byte("???")
 	centerDot = []byte("·")
diff --git a/router_action.go b/router_action.go
index 3152450..f019f19 100755
--- a/router_action.go
+++ b/router_action.go
@@ -130,7 +130,7 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 			for _, v := range params[i] {
 				param = v
 			}
-			value = convertStringAsType(param, typ)
+			value = pointTo(convertStringAsType(param, typ), typ)
 		}
 
 		if !value.IsValid() {
-- 
2.43.0


From 9b3d8aa398eac0cd28759654b45608de790e9162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 06/72] fix: HEAD is served by the GET handler in effect, not
 by the one first registered

---
 router.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/router.go b/router.go
index ee2a694..3b1934d 100755
--- a/router.go
+++ b/router.go
@@ -150,6 +150,12 @@ func (r *routeRoot) handle(ctx Context, rw http.ResponseWriter, req *http.Reques
 	}
 
 	routeAction := route.action[method]
+
+	// default use GET route for HEAD method
+	if routeAction == nil && method == HEAD {
+		routeAction = route.action[GET]
+	}
+
 	actionFunc := method.action()
 
 	if routeAction != nil {
@@ -329,11 +335,6 @@ func (r *route) configRoutes(args routeArgs) {
 		r.action[method] = newRouteAction(mArgs.ctroler, act, actFilters)
 	}
 
-	// default use GET route for HEAD method
-	if r.action[HEAD] == nil && r.action[GET] != nil {
-		r.action[HEAD] = r.action[GET]
-	}
-
 	if allMethod != nil {
 		act := string(allArgs.action)
 		if act == "" && !allArgs.ctroler.isFunc() {
-- 
2.43.0


From fcf93d337a1f67943c3c8639a4922d8273273d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 07/72] fix: only upper-case letters of a request method are
 lowered to find its action

---
 router_method.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router_method.go b/router_method.go
index 18caec8..5b3160b 100755
--- a/router_method.go
+++ b/router_method.go
@@ -29,7 +29,7 @@ func (m method) isAny() bool {
 func (m method) action() string {
 	chars := make([]rune, 0, len(m))
 	for i, s := range m {
-		if i != 0 {
+		if i != 0 && s >= 'A' && s <= 'Z' {
 			s += 32
 		}
 		chars = append(chars, s)
-- 
2.43.0


From 3cdb9e6d569e97ec73f4f0eec48f60e2fb88b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 08/72] fix: handlers derived from one method handler no longer
 share filters

---
 router_method.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/router_method.go b/router_method.go
index 5b3160b..548ff0f 100755
--- a/router_method.go
+++ b/router_method.go
@@ -51,17 +51,17 @@ func (h methodParams) Action(name string) MethodHandler {
 	rc.ensureHasAction(name)
 	h[0] = rc
 
-	h = append(h, action(name))
+	h = append(h[:len(h):len(h)], action(name))
 	return h
 }
 
 func (h methodParams) Filter(exempts ...interface{}) MethodHandler {
-	h = append(h, Filter(exempts...))
+	h = append(h[:len(h):len(h)], Filter(exempts...))
 	return h
 }
 
 func (h methodParams) Exempt(exempts ...interface{}) MethodHandler {
-	h = append(h, Exempt(exempts...))
+	h = append(h[:len(h):len(h)], Exempt(exempts...))
 	return h
 }
 
-- 
2.43.0


From 74226273b9e6586b7b0ce97b5b7f407cb84257ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 09/72] fix: the handler chain does not go on after a panic
 that a filter recovered from Next

---
 context.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/context.go b/context.go
index 7dc2efa..090a9c3 100755
--- a/context.go
+++ b/context.go
@@ -69,6 +69,8 @@ func (c *context) ReplaceContext(ctx gocontext.Context) {
 
 func (c *context) Next() {
 	c.index += 1
+	// whatever ended the rest of the chain, even a panic, it does not go on after Next
+	defer func() { c.index = len(c.filters) + 1 }()
 	c.run()
 }
 
-- 
2.43.0


From 8da0a4aa712a3dbe5a261a20c7512bce8c235ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 10/72] fix: Flush sends the status and runs the before hooks
 first

---
 response.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/response.go b/response.go
index 3ba24d6..a5bdd8b 100755
--- a/response.go
+++ b/response.go
@@ -60,6 +60,15 @@ func (rw *responseWriter) WriteHeader(s int) {
 }
 
 func (rw *responseWriter) Write(b []byte) (int, error) {
+	rw.commit()
+
+	size, err := rw.ResponseWriter.Write(b)
+	rw.size += size
+	return size, err
+}
+
+// send the header once, before the first body byte or flush
+func (rw *responseWriter) commit() {
 	rw.once.Do(func() {
 		rw.callBefore()
 		// The status will be StatusOK if WriteHeader has not been called yet
@@ -73,10 +82,6 @@ func (rw *responseWriter) Write(b []byte) (int, error) {
 
 		rw.ResponseWriter.WriteHeader(rw.status)
 	})
-
-	size, err := rw.ResponseWriter.Write(b)
-	rw.size += size
-	return size, err
 }
 
 func (rw *responseWriter) Status() int {
@@ -116,6 +121,7 @@ func (rw *responseWriter) CloseNotify() <-chan bool {
 func (rw *responseWriter) Flush() {
 	flusher, ok := rw.ResponseWriter.(http.Flusher)
 	if ok {
+		rw.commit()
 		flusher.Flush()
 	}
 }
-- 
2.43.0


From dc4cf8234c1d74a1ae3752f69be324bbb21c3cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 11/72] fix: Status reports the status that was sent, not one
 set afterwards

---
 response.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/response.go b/response.go
index a5bdd8b..617af3d 100755
--- a/response.go
+++ b/response.go
@@ -46,7 +46,8 @@ type responseWriter struct {
 	size        int
 	beforeFuncs []BeforeFunc
 
-	once sync.Once
+	once      sync.Once
+	committed bool
 
 	hijacked bool
 }
@@ -56,6 +57,10 @@ func (rw *responseWriter) WriteHeader(s int) {
 	if s == 0 {
 		panic("http status code can not be zero")
 	}
+	// too late, another status has been sent
+	if rw.committed {
+		return
+	}
 	rw.status = s
 }
 
@@ -75,6 +80,7 @@ func (rw *responseWriter) commit() {
 		if rw.status == 0 {
 			rw.status = http.StatusOK
 		}
+		rw.committed = true
 
 		if rw.hijacked {
 			return
-- 
2.43.0


From 1719aff12ab835b7e6f2604e8994b82c4e8605f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 12/72] fix: a before hook that panics or writes does not lose
 the response status

---
 response.go | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/response.go b/response.go
index 617af3d..fa9e137 100755
--- a/response.go
+++ b/response.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"net"
 	"net/http"
-	"sync"
 )
 
 // ResponseWriter is a wrapper around http.ResponseWriter that provides extra information about
@@ -46,7 +45,6 @@ type responseWriter struct {
 	size        int
 	beforeFuncs []BeforeFunc
 
-	once      sync.Once
 	committed bool
 
 	hijacked bool
@@ -74,20 +72,23 @@ func (rw *responseWriter) Write(b []byte) (int, error) {
 
 // send the header once, before the first body byte or flush
 func (rw *responseWriter) commit() {
-	rw.once.Do(func() {
-		rw.callBefore()
-		// The status will be StatusOK if WriteHeader has not been called yet
-		if rw.status == 0 {
-			rw.status = http.StatusOK
-		}
-		rw.committed = true
-
-		if rw.hijacked {
-			return
-		}
-
-		rw.ResponseWriter.WriteHeader(rw.status)
-	})
+	rw.callBefore()
+
+	if rw.committed {
+		return
+	}
+
+	// The status will be StatusOK if WriteHeader has not been called yet
+	if rw.status == 0 {
+		rw.status = http.StatusOK
+	}
+	rw.committed = true
+
+	if rw.hijacked {
+		return
+	}
+
+	rw.ResponseWriter.WriteHeader(rw.status)
 }
 
 func (rw *responseWriter) Status() int {
@@ -133,7 +134,11 @@ func (rw *responseWriter) Flush() {
 }
 
 func (rw *responseWriter) callBefore() {
-	for i := len(rw.beforeFuncs) - 1; i >= 0; i-- {
-		rw.beforeFuncs[i](rw)
+	// each func is called once, even when one of them writes or panics
+	for len(rw.beforeFuncs) > 0 && !rw.committed {
+		last := len(rw.beforeFuncs) - 1
+		before := rw.beforeFuncs[last]
+		rw.beforeFuncs = rw.beforeFuncs[:last]
+		before(rw)
 	}
 }
-- 
2.43.0


From 2a18e3058039977e7782db406a8b42ee7f3e38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 13/72] fix: recovery works when a filter provides its own
 http.ResponseWriter

---
 recovery.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/recovery.go b/recovery.go
index a95df22..b8eb712 100755
--- a/recovery.go
+++ b/recovery.go
@@ -77,8 +77,7 @@ func RecoveryFilter() inject.Provider {
 				var rw http.ResponseWriter
 				ctx.Find(&rw, "")
 
-				trw := rw.(ResponseWriter)
-				if trw.Written() {
+				if ctx.Written() {
 					return
 				}
 
-- 
2.43.0


From 9c733da089b9bda2173f99f37670922f6e36fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 14/72] fix: recovery answers 500 even when the logger cannot
 be resolved

---
 recovery.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recovery.go b/recovery.go
index b8eb712..95e36e2 100755
--- a/recovery.go
+++ b/recovery.go
@@ -69,11 +69,10 @@ func RecoveryFilter() inject.Provider {
 				fErr := ctx.Find(&log, "")
 				if fErr != nil {
 					fmt.Fprintf(os.Stderr, "PANIC: %#v FindLog:%v\n%s", err, fErr, stack)
-					return
+				} else {
+					log.Errorf("PANIC: %#v\n%s", err, stack)
 				}
 
-				log.Errorf("PANIC: %#v\n%s", err, stack)
-
 				var rw http.ResponseWriter
 				ctx.Find(&rw, "")
 
-- 
2.43.0


From 2cb43b088a2e9b08f647ddf247c97aea7cd7c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:22 +0000
Subject: [PATCH 15/72] fix: the generic output filter accepts results of kinds
 that cannot be nil

---
 router_action_out.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/router_action_out.go b/router_action_out.go
index c8b574e..cfbbeee 100755
--- a/router_action_out.go
+++ b/router_action_out.go
@@ -66,10 +66,17 @@ func GenericOutFilter() interface{} {
 			body = out[len(out)-1]
 		}
 
-		if !body.CanInterface() || body.IsNil() {
+		if !body.CanInterface() {
 			return
 		}
 
+		switch body.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
+			if body.IsNil() {
+				return
+			}
+		}
+
 		itf := body.Interface()
 		switch src := itf.(type) {
 		case ActionResult:
-- 
2.43.0


From 72b637b12ecd1c85e1efb570ecd0b510c1220c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 16/72] fix: writing an api result does not change it

---
 utils/apires/res.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/utils/apires/res.go b/utils/apires/res.go
index c70377f..cc9196f 100755
--- a/utils/apires/res.go
+++ b/utils/apires/res.go
@@ -15,19 +15,21 @@ type ResBody struct {
 }
 
 func (r *ResBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	// r may be shared between requests, it must stay as it is
+	status, body := r.Status, r.Body
+	if status == 0 {
+		status = http.StatusOK
 	}
-	if r.Body == nil {
-		r.Body = struct{}{}
+	if body == nil {
+		body = struct{}{}
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
+	if status == http.StatusNoContent {
+		rw.WriteHeader(status)
 		return
 	}
 
-	if err := writeJsonBody(r.Status, r.Body, ctx, rw, req); err != nil {
+	if err := writeJsonBody(status, body, ctx, rw, req); err != nil {
 		var logger strip.Logger
 		ctx.Find(&logger, "")
 		logger.Warn("response write failed:", err)
-- 
2.43.0


From abb76e6bd48da9e475c228f17b75baa9ff3d71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 17/72] fix: a raw api result is sent with its declared status

---
 utils/apires/raw.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/utils/apires/raw.go b/utils/apires/raw.go
index eda8301..b684acd 100755
--- a/utils/apires/raw.go
+++ b/utils/apires/raw.go
@@ -13,16 +13,14 @@ type RawBody struct {
 }
 
 func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	status := r.Status
+	if status == 0 {
+		status = http.StatusOK
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
-		return
-	}
+	rw.WriteHeader(status)
 
-	if r.Body == nil {
+	if status == http.StatusNoContent || r.Body == nil {
 		return
 	}
 
@@ -39,7 +37,7 @@ func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Req
 			c.Close()
 		}
 	default:
-		err = writeJsonBody(r.Status, r.Body, ctx, rw, req)
+		err = writeJsonBody(status, r.Body, ctx, rw, req)
 	}
 	if err != nil {
 		var logger strip.Logger
-- 
2.43.0


From 749bbbe63e9031ececa7ee1eb76c767fcc3bc1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 18/72] fix: a router whose path cleans to nothing, or nested
 under a wildcard, panics instead of being lost

---
 router.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 3b1934d..90bde1c 100755
--- a/router.go
+++ b/router.go
@@ -21,7 +21,7 @@ type routeParams Handlers
 
 func Router(path string, handlers ...Handler) Handler {
 	path = strings.TrimSpace(path)
-	if path == "" || path == "/" {
+	if splitRoutePath(path)[0] == "" {
 		panic("path can not be `" + path + "`")
 	}
 	return append(routeParams{path}, handlers...)
@@ -375,6 +375,11 @@ func (r *route) configRoutes(args routeArgs) {
 		for i, p := range paths {
 			var rt *route
 
+			if targetRoute.pathParam.isWild {
+				panic(fmt.Sprintf("wild route `%s` can not have the nested route `%s`",
+					targetRoute.calcPath(), pathStr))
+			}
+
 			for _, er := range targetRoute.paramRoutes {
 				if er.pathParam.path == p {
 					rt = er
-- 
2.43.0


From 8329966407d4191fd8b06f515d53cafe55a5e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 19/72] fix: a pointer to a function is not accepted as an
 action

---
 router_action.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/router_action.go b/router_action.go
index f019f19..c0af7ba 100755
--- a/router_action.go
+++ b/router_action.go
@@ -25,8 +25,9 @@ func makeRouterController(value interface{}) (rc routerController) {
 
 	iTyp := indirectType(val.Type())
 
-	switch iTyp.Kind() {
-	case reflect.Struct, reflect.Func:
+	switch {
+	case iTyp.Kind() == reflect.Struct:
+	case val.Kind() == reflect.Func:
 	default:
 		panic(fmt.Sprintf("action must be a struct or function but found `%v`", val.Kind()))
 	}
-- 
2.43.0


From 8f9ec1309015a1482c4955514b515597caeff84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 20/72] fix: an injected argument is assigned like a found
 value instead of panicking

---
 inject/inject_provider.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index bf23987..c2e8ea4 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -145,7 +145,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 	}
 
 	in := make([]reflect.Value, 0, len(p.deps))
-	for _, dep := range p.deps {
+	for i, dep := range p.deps {
 		prov := inj.get(dep)
 		if prov == nil {
 			err = fmt.Errorf("provider not found of dep <%s> by %v", dep, p.ptyp)
@@ -172,7 +172,12 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 			}
 		}
 
-		in = append(in, ot[0])
+		arg := reflect.New(p.ptyp.In(i)).Elem()
+		if err = assignValue(ot[0], arg); err != nil {
+			return
+		}
+
+		in = append(in, arg)
 	}
 
 	// invoke provider function
-- 
2.43.0


From 18e05ddafb6c22d49a3cc5503a64c25477b90853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:22 +0000
Subject: [PATCH 21/72] fix: two unnamed or local types no longer answer for
 one another in an injector

---
 inject/inject.go          | 16 ++++++++--------
 inject/inject_provider.go | 20 +++++++++++++++-----
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 8930c7d..2a5dd68 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -43,25 +43,25 @@ type TypeProvider interface {
 }
 
 type provInvoker interface {
-	get(string) *providerInfo
+	get(provName) *providerInfo
 }
 
-type invokeStatus map[string]bool
+type invokeStatus map[provName]bool
 
-func (m invokeStatus) has(name string) bool {
+func (m invokeStatus) has(name provName) bool {
 	_, ok := m[name]
 	return ok
 }
 
-func (m invokeStatus) set(name string) {
+func (m invokeStatus) set(name provName) {
 	m[name] = false
 }
 
-type invokeCache map[string][]reflect.Value
+type invokeCache map[provName][]reflect.Value
 
 type injector struct {
 	// use for store provider
-	values map[string]*providerInfo
+	values map[provName]*providerInfo
 
 	// user for cache provider instance for current inject
 	caches invokeCache
@@ -71,7 +71,7 @@ type injector struct {
 
 func New() Injector {
 	return &injector{
-		values: make(map[string]*providerInfo),
+		values: make(map[provName]*providerInfo),
 		caches: make(invokeCache),
 	}
 }
@@ -265,7 +265,7 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 	return nil
 }
 
-func (inj *injector) get(name string) *providerInfo {
+func (inj *injector) get(name provName) *providerInfo {
 	// get provider in current injector
 	if prov := inj.values[name]; prov != nil {
 		return prov
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index c2e8ea4..8fb041c 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -11,11 +11,21 @@ type Provide []Provider
 
 type Dep map[int]string
 
-type providerInfo struct {
+// unique name of a provided value
+type provName struct {
+	typ  reflect.Type
 	name string
+}
+
+func (n provName) String() string {
+	return fmt.Sprintf("%v:%s", n.typ, n.name)
+}
+
+type providerInfo struct {
+	name provName
 
 	// depends of this provider
-	deps []string
+	deps []provName
 
 	// type of injerct value
 	typ reflect.Type
@@ -82,7 +92,7 @@ func newProvider(obj Object) (info *providerInfo) {
 	}
 
 	numIn := info.ptyp.NumIn()
-	deps := make([]string, 0, numIn)
+	deps := make([]provName, 0, numIn)
 
 	for i := 0; i < numIn; i++ {
 		typ := indirectType(info.ptyp.In(i))
@@ -189,8 +199,8 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 }
 
 // create unique name of type
-func createName(typ reflect.Type, name string) string {
-	return typ.PkgPath() + ":" + typ.Name() + ":" + name
+func createName(typ reflect.Type, name string) provName {
+	return provName{typ, name}
 }
 
 // reflect indirect of reflect.Value
-- 
2.43.0


From 707c11be5b0e08a5ccc99fcf3007c11415fe6db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 22/72] fix: invoking a function always calls it, whatever its
 result type

---
 inject/inject.go          |  9 ++++++---
 inject/inject_provider.go | 12 +++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 2a5dd68..7d58096 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -172,14 +172,17 @@ func (inj *injector) Invoke(prov interface{}) ([]reflect.Value, error) {
 	status := make(invokeStatus)
 
 	info := newProvider(Object{Value: prov})
-	out, err := info.invoke(inj, status)
+	if info.value != nil {
+		return []reflect.Value{info.val}, nil
+	}
+
+	// always call it, what it returns is not a provided value
+	out, err := info.call(inj, status)
 
 	if err != nil {
 		return nil, fmt.Errorf("provider invoke err: %v", err)
 	}
 
-	// remove exists cache of provider
-	delete(inj.caches, info.name)
 	return out, nil
 }
 
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 8fb041c..db6a6b7 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -154,6 +154,15 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		return
 	}
 
+	out, err = p.call(inj, status)
+	if err == nil && p.ptyp.NumOut() > 0 {
+		inj.caches[p.name] = out
+	}
+	return
+}
+
+// call provider function with its dependencies
+func (p *providerInfo) call(inj *injector, status invokeStatus) (out []reflect.Value, err error) {
 	in := make([]reflect.Value, 0, len(p.deps))
 	for i, dep := range p.deps {
 		prov := inj.get(dep)
@@ -192,9 +201,6 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 
 	// invoke provider function
 	out = p.pval.Call(in)
-	if p.ptyp.NumOut() > 0 {
-		inj.caches[p.name] = out
-	}
 	return
 }
 
-- 
2.43.0


From 5331fe76f997f0f7168e410e211135fb65307b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 23/72] fix: a dependency cycle is found by what is being
 resolved, not by what was ever resolved

---
 inject/inject.go          |  4 ++++
 inject/inject_provider.go | 18 +++++-------------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 7d58096..8469fcc 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -57,6 +57,10 @@ func (m invokeStatus) set(name provName) {
 	m[name] = false
 }
 
+func (m invokeStatus) unset(name provName) {
+	delete(m, name)
+}
+
 type invokeCache map[provName][]reflect.Value
 
 type injector struct {
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index db6a6b7..2c41681 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -3,7 +3,6 @@ package inject
 import (
 	"fmt"
 	"reflect"
-	"sync/atomic"
 )
 
 type Provider interface{}
@@ -42,8 +41,6 @@ type providerInfo struct {
 
 	// reflect value of provider value
 	val reflect.Value
-
-	done uint32
 }
 
 func newProvider(obj Object) (info *providerInfo) {
@@ -140,20 +137,15 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		return
 	}
 
-	defer func() {
-		if err == nil {
-			atomic.AddUint32(&p.done, 1)
-		}
-	}()
-
-	// on process
-	status.set(p.name)
-
 	if p.value != nil {
 		out = []reflect.Value{p.val}
 		return
 	}
 
+	// on process
+	status.set(p.name)
+	defer status.unset(p.name)
+
 	out, err = p.call(inj, status)
 	if err == nil && p.ptyp.NumOut() > 0 {
 		inj.caches[p.name] = out
@@ -172,7 +164,7 @@ func (p *providerInfo) call(inj *injector, status invokeStatus) (out []reflect.V
 		}
 
 		// avoid cycle dependencies
-		if atomic.LoadUint32(&prov.done) == 0 && status.has(prov.name) {
+		if status.has(prov.name) {
 			err = fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
 			return
 		}
-- 
2.43.0


From a9aa9b4ff19279c7faad59ee24ffe86511a32590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 24/72] fix: Apply reports a value that does not fit its field

---
 inject/inject.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inject/inject.go b/inject/inject.go
index 8469fcc..87b379a 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -244,7 +244,9 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 					return fmt.Errorf("value not found for type %s:%v", provName, field)
 				}
 
-				assignValue(out[0], field)
+				if err := assignValue(out[0], field); err != nil {
+					return err
+				}
 			}
 
 			continue
-- 
2.43.0


From c4ca2821813224ca2af465cd706fde1c2adc19bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 25/72] fix: RealIp and RealHost keep IPv6 addresses whole and
 trim the space of forwarded ones

---
 params/real.go | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/params/real.go b/params/real.go
index 31493a9..54063f6 100755
--- a/params/real.go
+++ b/params/real.go
@@ -12,21 +12,14 @@ func RealIp(req *http.Request) (realIp string) {
 		return
 	}
 
-	ips := strings.Split(req.Header.Get("X-Forwarded-For"), ",")
-	if len(ips) > 0 && ips[0] != "" {
-		rip := strings.Split(ips[0], ":")
-		realIp = rip[0]
-		return
-	}
-
-	ip := strings.Split(req.RemoteAddr, ":")
-	if len(ip) > 0 {
-		if ip[0] != "[" {
-			realIp = ip[0]
-			return
+	ip := strings.Split(req.Header.Get("X-Forwarded-For"), ",")[0]
+	if strings.TrimSpace(ip) == "" {
+		ip = req.RemoteAddr
+		if trimPort(ip) == "[::1]" {
+			return "127.0.0.1"
 		}
 	}
-	return "127.0.0.1"
+	return strings.Trim(trimPort(ip), "[]")
 }
 
 func RealHost(req *http.Request) (host string) {
@@ -34,11 +27,19 @@ func RealHost(req *http.Request) (host string) {
 	if host == "" {
 		host = req.Host
 	}
-	parts := strings.Split(host, ":")
-	if len(parts) > 0 {
-		host = parts[0]
+	return trimPort(host)
+}
+
+// trimPort removes the port of an address, an IPv6 address keeps its brackets
+func trimPort(addr string) string {
+	addr = strings.TrimSpace(addr)
+	if i := strings.LastIndex(addr, "]"); i != -1 {
+		return addr[:i+1]
 	}
-	return
+	if strings.Count(addr, ":") == 1 {
+		addr = addr[:strings.Index(addr, ":")]
+	}
+	return addr
 }
 
 func RealProto(req *http.Request) (proto string) {
-- 
2.43.0


From 7df676dd07d492bdb7443e6eaf6e4f149fcd57ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 26/72] fix: a number parameter out of the range of its type
 binds to zero instead of wrapping around

---
 params/binder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/params/binder.go b/params/binder.go
index 3c5581f..d7f790a 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -66,7 +66,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			intValue, err := strconv.ParseInt(val, 10, 64)
+			intValue, err := strconv.ParseInt(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -81,7 +81,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			uintValue, err := strconv.ParseUint(val, 10, 64)
+			uintValue, err := strconv.ParseUint(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -96,7 +96,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			floatValue, err := strconv.ParseFloat(val, 64)
+			floatValue, err := strconv.ParseFloat(val, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
-- 
2.43.0


From 84177545675679ba4b80e34a4aee8422f8dc5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 27/72] fix: the default date and time layout parses minutes

---
 params/binder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index d7f790a..6f3b515 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -47,7 +47,7 @@ func ValueBinder(f func(value string, typ reflect.Type) reflect.Value) func(*Par
 
 const (
 	DEFAULT_DATE_FORMAT            = "2006-01-02"
-	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:0"
+	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:04"
 	DEFAULT_DATETIME_FORMAT_SECOND = "2006-01-02 15:04:05"
 )
 
-- 
2.43.0


From 41cd93df88f0e957cb6d90da5eb65cc8bf604518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 28/72] fix: the index of a slice parameter is a number within
 bounds

---
 params/binder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 6f3b515..22b4f1c 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -57,6 +57,10 @@ var (
 	TypeBinders = make(map[reflect.Type]Binder)
 	KindBinders = make(map[reflect.Kind]Binder)
 
+	// Elements of a slice with a larger index are ignored, a parameter can not
+	// make the slice arbitrarily large.
+	MaxSliceIndex = 16000
+
 	// Applications can add custom time formats to this array, and they will be
 	// automatically attempted when binding a time.Time.
 	TimeFormats = []string{}
@@ -231,7 +235,11 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 		index := -1
 		leftBracket, rightBracket := len(name), strings.Index(key[len(name):], "]")+len(name)
 		if rightBracket > leftBracket+1 {
-			index, _ = strconv.Atoi(key[leftBracket+1 : rightBracket])
+			var err error
+			index, err = strconv.Atoi(key[leftBracket+1 : rightBracket])
+			if err != nil || index > MaxSliceIndex {
+				return
+			}
 		}
 		subKeyIndex := rightBracket + 1
 
-- 
2.43.0


From a814a6aa095ffa29d89c15553861c603920e62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 29/72] fix: an element of a slice parameter is bound once, not
 once for each of its keys

---
 params/binder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/params/binder.go b/params/binder.go
index 22b4f1c..a3e60dc 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -224,6 +224,7 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 	maxIndex := -1
 	numNoIndex := 0
 	sliceValues := []sliceValue{}
+	bound := make(map[string]bool)
 
 	// Factor out the common slice logic (between form values and files).
 	processElement := func(key string, vals []string, files []*multipart.FileHeader) {
@@ -245,6 +246,12 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 
 		// Handle the indexed case.
 		if index > -1 {
+			// All the sub-keys of an element are bound at once.
+			if bound[key[:subKeyIndex]] {
+				return
+			}
+			bound[key[:subKeyIndex]] = true
+
 			if index > maxIndex {
 				maxIndex = index
 			}
-- 
2.43.0


From 73a028a5de834a9f398eaeff8f9a98a2acd12441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 30/72] fix: binding the fields of an embedded pointer does not
 panic

---
 params/binder.go | 24 +++++++++++++++++++++++-
 params/params.go |  3 +++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index a3e60dc..41da731 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -316,6 +316,28 @@ func nextKey(key string) string {
 	return key[:fieldLen]
 }
 
+// Get a field by name, making the embedded structs that it is promoted from.
+// Returns the invalid value if there is no such field or it can not be set.
+func fieldByName(val reflect.Value, name string) reflect.Value {
+	field, ok := val.Type().FieldByName(name)
+	if !ok {
+		return reflect.Value{}
+	}
+	for i, index := range field.Index {
+		if i > 0 && val.Kind() == reflect.Ptr {
+			if val.IsNil() {
+				if !val.CanSet() {
+					return reflect.Value{}
+				}
+				val.Set(reflect.New(val.Type().Elem()))
+			}
+			val = val.Elem()
+		}
+		val = val.Field(index)
+	}
+	return val
+}
+
 func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 	result := reflect.New(typ).Elem()
 	fieldValues := make(map[string]reflect.Value)
@@ -332,7 +354,7 @@ func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 
 		if _, ok := fieldValues[fieldName]; !ok {
 			// Time to bind this field.  Get it and make sure we can set it.
-			fieldValue := result.FieldByName(fieldName)
+			fieldValue := fieldByName(result, fieldName)
 			if !fieldValue.IsValid() {
 				continue
 			}
diff --git a/params/params.go b/params/params.go
index 9d98e45..520ee39 100755
--- a/params/params.go
+++ b/params/params.go
@@ -169,6 +169,9 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 
 				var newField reflect.Value
 				if field.IsNil() {
+					if !field.CanSet() {
+						continue
+					}
 					newField = reflect.New(ftyp.Type.Elem())
 				} else {
 					newField = field
-- 
2.43.0


From c6621ad19b4d1b1fcaf979709fd0480c663c47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 31/72] fix: large numbers of a map given as JSON are bound
 exactly

---
 params/binder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 41da731..a456837 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -3,6 +3,7 @@ package params
 import (
 	"encoding/json"
 	"fmt"
+	"io"
 	"mime/multipart"
 	"net/url"
 	"reflect"
@@ -380,7 +381,14 @@ func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
 	)
 	if v := params.Values.Get(name); v != "" {
 		raw := make(map[string]interface{})
-		_ = json.Unmarshal([]byte(v), &raw)
+		dec := json.NewDecoder(strings.NewReader(v))
+		dec.UseNumber()
+		if err := dec.Decode(&raw); err == nil {
+			// nothing may follow
+			if _, err = dec.Token(); err != io.EOF {
+				raw = nil
+			}
+		}
 		for key, value := range raw {
 			result.SetMapIndex(BindValue(key, keyType), BindValue(fmt.Sprint(value), valueType))
 		}
-- 
2.43.0


From 1ab11f57a017b75dbdf596f9e75b5eaa4dbfd9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 32/72] fix: an embedded pointer that is set already is not set
 again

---
 params/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/params.go b/params/params.go
index 520ee39..328b919 100755
--- a/params/params.go
+++ b/params/params.go
@@ -186,7 +186,7 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 					// save pointer
 					pointerMap[pointer] = true
 				}
-				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
+				if ok := p.bindValuesToStruct(inf, pointerMap); ok && field.IsNil() {
 					field.Set(newField)
 				}
 
-- 
2.43.0


From 73d54a38c5f10ed5439e90363c5a473482f88ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 33/72] fix: the TryFilesThen file is closed after it is served

---
 static-serve/static.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/static-serve/static.go b/static-serve/static.go
index 5b58911..d97099c 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -138,6 +138,7 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 					err = er
 					return
 				}
+				defer f.Close()
 				err = nil
 			}
 			if err != nil {
-- 
2.43.0


From 784716ed1e53c02814b69d22e5a57980205d7dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 34/72] fix: the redirect of a directory stays on the host

---
 static-serve/static.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static-serve/static.go b/static-serve/static.go
index d97099c..fab31f5 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -107,7 +107,8 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 			// redirect if missing trailing slash
 			if !strings.HasSuffix(req.URL.Path, "/") {
 				dest := url.URL{
-					Path:     req.URL.Path + "/",
+					// a path starting with two slashes names another host
+					Path:     "/" + strings.TrimLeft(req.URL.Path, "/") + "/",
 					RawQuery: req.URL.RawQuery,
 					Fragment: req.URL.Fragment,
 				}
-- 
2.43.0


From e31ef5bc0b897fcd3f4c07c2d488c346a57cbb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 35/72] fix: a config without Configer uses the given default

---
 config.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/config.go b/config.go
index 8b41b67..2a04595 100755
--- a/config.go
+++ b/config.go
@@ -59,14 +59,14 @@ func newConfig() *Config {
 }
 
 func (c *Config) Find(name string, defaultValue ...string) string {
+	value := ""
 	if c.Configer != nil {
-		value := c.Configer.Find(name)
-		if value == "" && len(defaultValue) > 0 {
-			return defaultValue[0]
-		}
-		return value
+		value = c.Configer.Find(name)
+	}
+	if value == "" && len(defaultValue) > 0 {
+		return defaultValue[0]
 	}
-	return ""
+	return value
 }
 
 func (c *Config) Bind(ptr interface{}, name string) {
-- 
2.43.0


From 30921450142309c8076978d32a9f83634fd50eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 36/72] fix: a configuration value is bound behind any number
 of pointers

---
 config.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/config.go b/config.go
index 2a04595..e5df8e6 100755
--- a/config.go
+++ b/config.go
@@ -84,11 +84,7 @@ func (c *Config) Bind(ptr interface{}, name string) {
 		elm := val.Elem()
 		val = convertStringAsType(value, elm.Type())
 		if elm.CanSet() && val.IsValid() {
-			if elm.Kind() == reflect.Ptr {
-				elm.Set(reflect.New(elm.Type().Elem()))
-				elm = elm.Elem()
-			}
-			elm.Set(val)
+			elm.Set(pointTo(val, elm.Type()))
 		}
 	}
 }
-- 
2.43.0


From 9a872fdb0c4be7ddf616e169525c9b077783ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 37/72] fix: decoding a configuration skips unexported fields

---
 config/config_parse.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/config/config_parse.go b/config/config_parse.go
index 8fd3159..caf0a28 100755
--- a/config/config_parse.go
+++ b/config/config_parse.go
@@ -16,7 +16,10 @@ func Decode(config *strip.Config, env interface{}) {
 	if val.Kind() != reflect.Struct {
 		panic("env instance must be ptr struct")
 	}
+	decodeStruct(config, val)
+}
 
+func decodeStruct(config *strip.Config, val reflect.Value) {
 	typ := val.Type()
 
 	for i := 0; i < val.NumField(); i++ {
@@ -24,7 +27,7 @@ func Decode(config *strip.Config, env interface{}) {
 		fType := typ.Field(i)
 
 		if fVal.Kind() == reflect.Struct && fType.Anonymous {
-			Decode(config, fVal.Addr().Interface())
+			decodeStruct(config, fVal)
 			continue
 		}
 
@@ -33,6 +36,11 @@ func Decode(config *strip.Config, env interface{}) {
 			continue
 		}
 
+		// unexported fields can not be set
+		if !fVal.CanSet() {
+			continue
+		}
+
 		if fVal.Kind() == reflect.Struct {
 			parseSection(config, fVal, name)
 			continue
@@ -53,6 +61,10 @@ func parseSection(config *strip.Config, val reflect.Value, sec string) {
 			continue
 		}
 
+		if !fVal.CanSet() {
+			continue
+		}
+
 		config.Bind(fVal.Addr().Interface(), sec+"::"+name)
 	}
 }
-- 
2.43.0


From 9b380aec2888ad8c2dce4fc131d7f9c3ed667165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 38/72] fix: form parameters do not include those of the query

---
 params/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/params.go b/params/params.go
index 328b919..d28db99 100755
--- a/params/params.go
+++ b/params/params.go
@@ -60,7 +60,7 @@ func ParseParams(params *Params, maxMemory int64) error {
 		if err := req.ParseForm(); err != nil {
 			return err
 		} else {
-			params.Form = req.Form
+			params.Form = req.PostForm
 		}
 
 	case "multipart/form-data":
-- 
2.43.0


From bbfa849d214f305739a0310d9d17f5b4a5e58a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 39/72] fix: parsing parameters does not race on the memory
 limit

---
 params/params.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/params/params.go b/params/params.go
index d28db99..15c77f6 100755
--- a/params/params.go
+++ b/params/params.go
@@ -246,8 +246,6 @@ func (p *Params) calcValues() url.Values {
 }
 
 func ParamsParser() interface{} {
-	var maxMemory int64
-
 	return func(req *http.Request, ctx strip.Context, log strip.Logger, config *strip.Config) *Params {
 		params := new(Params)
 		params.req = req
@@ -260,11 +258,11 @@ func ParamsParser() interface{} {
 			params.Route = *routeInfo
 		}
 
+		// requests at the same time share nothing
+		var maxMemory int64
+		config.Bind(&maxMemory, "max_memory")
 		if maxMemory == 0 {
-			config.Bind(&maxMemory, "max_memory")
-			if maxMemory == 0 {
-				maxMemory = DefaultMaxMemory
-			}
+			maxMemory = DefaultMaxMemory
 		}
 
 		err := ParseParams(params, maxMemory)
-- 
2.43.0


From 55dd869c907d5deb18ba2280a86e0972c088788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 40/72] fix: uploaded files stay until the handler is done

---
 app.go           | 11 +++++++++++
 params/params.go | 24 +++---------------------
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/app.go b/app.go
index 1ba8b87..50b86d7 100755
--- a/app.go
+++ b/app.go
@@ -117,6 +117,17 @@ func (s *Strip) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	ctx.Provide(req)
 	ctx.ProvideAs(trw, (*http.ResponseWriter)(nil))
 
+	// delete temp files of the uploads once the request is done
+	defer func() {
+		cur := req
+		ctx.Find(&cur, "")
+		if cur != nil && cur.MultipartForm != nil {
+			if err := cur.MultipartForm.RemoveAll(); err != nil {
+				s.logger.Notice("error removing temporary files:", err)
+			}
+		}
+	}()
+
 	ctx.(*context).run()
 
 	// flush header if have not written
diff --git a/params/params.go b/params/params.go
index 15c77f6..8eff05c 100755
--- a/params/params.go
+++ b/params/params.go
@@ -8,7 +8,6 @@ import (
 	"mime/multipart"
 	"net/http"
 	"net/url"
-	"os"
 	"reflect"
 	"strings"
 
@@ -34,8 +33,9 @@ type Params struct {
 	Query url.Values // Parameters from the query string, e.g. /index?limit=10
 	Form  url.Values // Parameters from the request body.
 
-	Files    map[string][]*multipart.FileHeader // Files uploaded in a multipart form
-	tmpFiles []*os.File                         // Temp files used during the request.
+	// Files uploaded in a multipart form. Their temp files are removed when the
+	// request is done.
+	Files map[string][]*multipart.FileHeader
 
 	req *http.Request
 	log strip.Logger
@@ -270,24 +270,6 @@ func ParamsParser() interface{} {
 			log.Notice("parse params error", err)
 		}
 
-		// Clean up from the request.
-		defer func() {
-			// Delete temp files.
-			if req.MultipartForm != nil {
-				err := req.MultipartForm.RemoveAll()
-				if err != nil {
-					log.Notice("error removing temporary files:", err)
-				}
-			}
-
-			for _, tmpFile := range params.tmpFiles {
-				err := os.Remove(tmpFile.Name())
-				if err != nil {
-					log.Notice("could not remove upload temp file:", err)
-				}
-			}
-		}()
-
 		return params
 	}
 }
-- 
2.43.0


From f3cc4e6f3d3e3eef8a401423fbdd4941b66d9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 41/72] fix: utils.Value.Uint accepts every value of uint

---
 utils/converter_value_to.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/converter_value_to.go b/utils/converter_value_to.go
index 48656f4..b0ea893 100755
--- a/utils/converter_value_to.go
+++ b/utils/converter_value_to.go
@@ -80,7 +80,7 @@ func (v *Value) Uint() (uint, error) {
 	if ret, ok := v.value.(uint); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 32)
+	value, err := strconv.ParseUint(v.String(), 10, 64)
 	return uint(value), err
 }
 
-- 
2.43.0


From 34f7087594cff27676cbb2de8989d9302debf3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 42/72] fix: utils.ToStr converts named byte slices and prints
 other values, not a nil slice

---
 utils/converter.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/utils/converter.go b/utils/converter.go
index 4ff74b7..2146b31 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -173,11 +173,10 @@ func ToStr(value interface{}, args ...int) (s string) {
 	case reflect.String:
 		s = val.String()
 	default:
-		if v, ok := value.([]byte); ok {
-			// TODO should use reflect rewrite
-			s = string(v)
+		if val.Kind() == reflect.Slice && val.Type().Elem().Kind() == reflect.Uint8 {
+			s = string(val.Bytes())
 		} else {
-			s = fmt.Sprintf("%#v", v)
+			s = fmt.Sprintf("%#v", value)
 		}
 	}
 	return s
-- 
2.43.0


From db8df7509a83db1430b137873354e99b3b2cc9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 43/72] fix: utils.ToInt64 reports numbers above the int64
 range

---
 utils/converter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/converter.go b/utils/converter.go
index 2146b31..6a8060e 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -4,6 +4,7 @@ import (
 	"crypto/md5"
 	"encoding/hex"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 )
@@ -189,7 +190,11 @@ func ToInt64(value interface{}) (d int64, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		d = val.Int()
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		d = int64(val.Uint())
+		if u := val.Uint(); u > math.MaxInt64 {
+			err = fmt.Errorf("ToInt64 value %d out of range", u)
+		} else {
+			d = int64(u)
+		}
 	default:
 		err = fmt.Errorf("ToInt64 need numeric not `%T`", value)
 	}
-- 
2.43.0


From 68829479ef3931d458a3748511ac25e7af495831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 44/72] fix: strip.ToStr converts empty byte slices and
 pointers to empty strings to the empty text

---
 app_util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app_util.go b/app_util.go
index 9cf1c51..9486508 100755
--- a/app_util.go
+++ b/app_util.go
@@ -170,9 +170,10 @@ func ToStr(value interface{}) (s string) {
 	case reflect.Array, reflect.Slice:
 		if val.Type().Elem().Kind() == reflect.Uint8 {
 			s = string(val.Bytes())
+			break
 		}
-	}
-	if s == "" {
+		fallthrough
+	default:
 		s = fmt.Sprint(value)
 	}
 	return s
-- 
2.43.0


From 97e6d3ef35da9edb836798a86d5679cc5d7dae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 45/72] fix: a worker's Wait reports every failure: the error
 is stored before the task counts as done, also after Close; tasks of unknown
 types fail instead of blocking

---
 utils/worker.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index dd68468..1c8d0ba 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"fmt"
 	"sync"
 )
 
@@ -46,26 +47,25 @@ func (w *Worker) Close() {
 }
 
 func (w *Worker) run(task interface{}) {
+	var err error
 	switch t := task.(type) {
 	case func():
 		t()
-		w.done()
 	case func() error:
-		err := t()
-		w.done()
-		if err != nil {
-			w.rw.Lock()
-			if !w.closed {
-				w.close()
-				w.err = err
-			}
-			w.rw.Unlock()
-		}
+		err = t()
+	default:
+		err = fmt.Errorf("unsupported task type %T", task)
 	}
-}
-
-func (w *Worker) done() {
+	// leave the place first, RunTask may hold the lock while it waits for one
 	<-w.pools
+	if err != nil {
+		w.rw.Lock()
+		w.close()
+		if w.err == nil {
+			w.err = err
+		}
+		w.rw.Unlock()
+	}
 	w.wg.Done()
 }
 
-- 
2.43.0


From dc27a8f8927efb2ee47fc90ff43dc804742389d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 46/72] fix: random texts over an alphabet of 256 characters

---
 utils/rand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rand.go b/utils/rand.go
index a1511ec..c02385f 100755
--- a/utils/rand.go
+++ b/utils/rand.go
@@ -26,7 +26,7 @@ func RandomCreateBytes(n int, alphabets ...byte) ([]byte, error) {
 		return nil, err
 	}
 	for i, b := range bytes {
-		bytes[i] = alphabets[b%byte(len(alphabets))]
+		bytes[i] = alphabets[int(b)%len(alphabets)]
 	}
 	return bytes, nil
 }
-- 
2.43.0


From 203796f0c032fc659ae664862d2cfc7c29a04be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 47/72] fix: context values of unnamed and local types are told
 apart, nil pointers leave plain targets alone

---
 utils/context.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/utils/context.go b/utils/context.go
index f2f28b5..ee6de99 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -12,13 +12,19 @@ var (
 
 type key string
 
+// names alone do not tell unnamed or local types apart
+type typeKey struct {
+	key key
+	typ reflect.Type
+}
+
 func CtxWithValue(ctx context.Context, value interface{}, extraName ...string) context.Context {
-	k := ctxValueToKey(value, extraName...)
+	k := ctxTypeKey(value, extraName...)
 	return context.WithValue(ctx, k, value)
 }
 
 func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) error {
-	k := ctxValueToKey(value, extraName...)
+	k := ctxTypeKey(value, extraName...)
 	inf := ctx.Value(k)
 	tarElm := reflect.ValueOf(value).Elem()
 	if !tarElm.CanSet() {
@@ -35,6 +41,9 @@ func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) e
 	if tarElm.Kind() == reflect.Ptr && elm.Kind() != reflect.Ptr {
 		tarElm.Set(elm.Addr())
 	} else if tarElm.Kind() != reflect.Ptr && elm.Kind() == reflect.Ptr {
+		if elm.IsNil() {
+			return nil
+		}
 		tarElm.Set(elm.Elem())
 	} else if tarElm.Kind() == reflect.Ptr && elm.Kind() == reflect.Ptr {
 		tarElm.Set(elm)
@@ -51,6 +60,15 @@ func MustCtxFindValue(ctx context.Context, value interface{}, extraName ...strin
 	}
 }
 
+func ctxTypeKey(value interface{}, extraNames ...string) typeKey {
+	k := ctxValueToKey(value, extraNames...)
+	typ := reflect.TypeOf(value).Elem()
+	if typ.Kind() == reflect.Ptr {
+		typ = typ.Elem()
+	}
+	return typeKey{k, typ}
+}
+
 func ctxValueToKey(value interface{}, extraNames ...string) key {
 	val := reflect.ValueOf(value)
 	if val.Kind() != reflect.Ptr {
-- 
2.43.0


From 7f776d34658743efb1ec1552d9eea065a118bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 48/72] fix: cache timeouts too long for a Duration wrapped
 around to an arbitrary time

---
 caches/caches.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caches/caches.go b/caches/caches.go
index 37cb4a2..8a54894 100755
--- a/caches/caches.go
+++ b/caches/caches.go
@@ -2,6 +2,7 @@ package caches
 
 import (
 	"errors"
+	"math"
 	"time"
 
 	"github.com/wujiu2020/strip/utils"
@@ -31,6 +32,8 @@ func getTimeoutDur(params ...int) time.Duration {
 	var timeout time.Duration
 	if len(params) > 0 {
 		switch {
+		case int64(params[0]) > int64(math.MaxInt64/time.Second):
+			return math.MaxInt64 / time.Second * time.Second // longer than a Duration can say
 		case params[0] > 0:
 			timeout = time.Duration(params[0]) * time.Second
 			return timeout
-- 
2.43.0


From 8bf7df311e3c5cf4526750cb83142132454151ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 49/72] fix: memcache timeouts of more than 30 days expired at
 once

---
 caches/provider_memcache.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index 07e6b7b..6d6e1ed 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -1,6 +1,9 @@
 package caches
 
 import (
+	"math"
+	"time"
+
 	"github.com/bradfitz/gomemcache/memcache"
 	"github.com/wujiu2020/strip/utils"
 )
@@ -39,7 +42,7 @@ func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error)
 	err = p.Client.Set(&memcache.Item{
 		Key:        key,
 		Value:      []byte(utils.ToStr(val)),
-		Expiration: int32(timeout.Seconds()),
+		Expiration: mcExpiration(timeout),
 	})
 	return
 }
@@ -47,7 +50,7 @@ func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error)
 func (p *mcProvide) Touch(key string, params ...int) (err error) {
 	key = p.KeyPrefix + key
 	timeout := getTimeoutDur(params...)
-	err = p.Client.Touch(key, int32(timeout.Seconds()))
+	err = p.Client.Touch(key, mcExpiration(timeout))
 	err = p.handleError(err)
 	return
 }
@@ -99,6 +102,18 @@ func (p *mcProvide) GC() error {
 	return nil
 }
 
+// mcExpiration is the timeout as memcached reads it: up to 30 days are seconds from now, more is a unix time.
+func mcExpiration(timeout time.Duration) int32 {
+	secs := int64(timeout / time.Second)
+	if secs > 30*24*60*60 {
+		secs += time.Now().Unix()
+		if secs > math.MaxInt32 {
+			secs = math.MaxInt32
+		}
+	}
+	return int32(secs)
+}
+
 func (p *mcProvide) handleError(err error) error {
 	if err == memcache.ErrCacheMiss {
 		return ErrMissedKey
-- 
2.43.0


From 4c989c932053731d56ae191a657350c456d73c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 50/72] fix: memcache counters with negative amounts were set
 to zero or wrapped around

---
 caches/provider_memcache.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index 6d6e1ed..7ddf576 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -63,23 +63,33 @@ func (p *mcProvide) Delete(key string) (err error) {
 }
 
 func (p *mcProvide) Incr(key string, params ...int) (err error) {
-	key = p.KeyPrefix + key
 	cnt := 1
 	if len(params) > 0 {
 		cnt = params[0]
 	}
-	_, err = p.Client.Increment(key, uint64(cnt))
-	err = p.handleError(err)
-	return
+	return p.count(key, cnt < 0, cnt)
 }
 
 func (p *mcProvide) Decr(key string, params ...int) (err error) {
-	key = p.KeyPrefix + key
 	cnt := 1
 	if len(params) > 0 {
 		cnt = params[0]
 	}
-	_, err = p.Client.Decrement(key, uint64(cnt))
+	return p.count(key, cnt >= 0, cnt)
+}
+
+// count adds the size of cnt to the number, or takes it off: memcached knows no negative amounts.
+func (p *mcProvide) count(key string, down bool, cnt int) (err error) {
+	key = p.KeyPrefix + key
+	delta := uint64(cnt)
+	if cnt < 0 {
+		delta = -delta
+	}
+	if down {
+		_, err = p.Client.Decrement(key, delta)
+	} else {
+		_, err = p.Client.Increment(key, delta)
+	}
 	err = p.handleError(err)
 	return
 }
-- 
2.43.0


From 7310556d83d0502ad09916d5426e77e5316a0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 51/72] fix: memcache counters that got shorter were read with
 padding and not as a number

---
 caches/provider_memcache.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index 7ddf576..fa6c671 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -2,6 +2,7 @@ package caches
 
 import (
 	"math"
+	"strings"
 	"time"
 
 	"github.com/bradfitz/gomemcache/memcache"
@@ -17,6 +18,9 @@ type mcProvide struct {
 	McConfig
 }
 
+// mcNumber flags an item that was set to a number
+const mcNumber = 1
+
 var _ CacheProvider = new(mcProvide)
 
 func NewMcProvider(config McConfig) (sess CacheProvider, err error) {
@@ -32,16 +36,27 @@ func (p *mcProvide) Get(key string) (value utils.StrTo, err error) {
 		err = p.handleError(err)
 		return
 	}
-	value = utils.StrTo(string(item.Value))
+	text := string(item.Value)
+	if item.Flags&mcNumber != 0 {
+		// memcached pads a number that got shorter when it was decremented
+		text = strings.TrimRight(text, " ")
+	}
+	value = utils.StrTo(text)
 	return
 }
 
 func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error) {
 	key = p.KeyPrefix + key
 	timeout := getTimeoutDur(params...)
+	text := utils.ToStr(val)
+	var flags uint32
+	if isNumber(text) {
+		flags = mcNumber
+	}
 	err = p.Client.Set(&memcache.Item{
 		Key:        key,
-		Value:      []byte(utils.ToStr(val)),
+		Value:      []byte(text),
+		Flags:      flags,
 		Expiration: mcExpiration(timeout),
 	})
 	return
@@ -112,6 +127,16 @@ func (p *mcProvide) GC() error {
 	return nil
 }
 
+// isNumber tells whether memcached can count with the value.
+func isNumber(text string) bool {
+	for i := 0; i < len(text); i++ {
+		if text[i] < '0' || text[i] > '9' {
+			return false
+		}
+	}
+	return text != ""
+}
+
 // mcExpiration is the timeout as memcached reads it: up to 30 days are seconds from now, more is a unix time.
 func mcExpiration(timeout time.Duration) int32 {
 	secs := int64(timeout / time.Second)
-- 
2.43.0


From e50a6fbea6dc2d03775568ac85bf997f04a6e145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 52/72] fix: redis Touch with a timeout that never ends deleted
 the entry

---
 caches/provider_redis.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/caches/provider_redis.go b/caches/provider_redis.go
index eff26b0..3a98acf 100755
--- a/caches/provider_redis.go
+++ b/caches/provider_redis.go
@@ -71,7 +71,16 @@ func (p *redisProvide) Touch(key string, params ...int) (err error) {
 	}
 	defer p.Client.Put(conn)
 
-	resp := conn.Cmd("EXPIRE", key, timeout.Seconds())
+	var resp *redis.Resp
+	if timeout > 0 {
+		resp = conn.Cmd("EXPIRE", key, timeout.Seconds())
+	} else {
+		// never expire: EXPIRE would delete the key
+		resp = conn.Cmd("PERSIST", key)
+		if resp.Err == nil {
+			resp = conn.Cmd("EXISTS", key)
+		}
+	}
 	touched, err := resp.Int()
 	if err != nil {
 		err = p.handleError(err)
-- 
2.43.0


From 5c73d2f5a0a907f598ec8bfe71ff1a4e9af6228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 53/72] fix: mgo Touch, Incr, Decr and Delete changed or
 revived entries that had expired

---
 caches/provider_mgo.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/caches/provider_mgo.go b/caches/provider_mgo.go
index 95d82b1..46efbf3 100755
--- a/caches/provider_mgo.go
+++ b/caches/provider_mgo.go
@@ -107,9 +107,7 @@ func (p *mgoProvide) Touch(key string, params ...int) (err error) {
 		timeout := getTimeoutDurEx(params...)
 		expiredAt := time.Now().Add(timeout)
 
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.alive(key), bson.M{
 			"$set": bson.M{
 				p.config.ExpiredAtField: expiredAt,
 			},
@@ -122,9 +120,7 @@ func (p *mgoProvide) Touch(key string, params ...int) (err error) {
 
 func (p *mgoProvide) Delete(key string) (err error) {
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Remove(bson.M{
-			p.config.KeyField: key,
-		})
+		er := c.Remove(p.alive(key))
 		return er
 	})
 	err = p.handleError(err)
@@ -138,9 +134,7 @@ func (p *mgoProvide) Incr(key string, params ...int) (err error) {
 	}
 
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.alive(key), bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
 			},
@@ -158,9 +152,7 @@ func (p *mgoProvide) Decr(key string, params ...int) (err error) {
 	}
 
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.alive(key), bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
 			},
@@ -235,6 +227,16 @@ func (p *mgoProvide) getValue(values map[string]interface{}) (value interface{},
 	return
 }
 
+// alive selects the entry of the key unless it has expired
+func (p *mgoProvide) alive(key string) bson.M {
+	return bson.M{
+		p.config.KeyField: key,
+		p.config.ExpiredAtField: bson.M{
+			"$gt": time.Now(),
+		},
+	}
+}
+
 func (p *mgoProvide) handleError(err error) error {
 	if err == mgo.ErrNotFound {
 		return ErrMissedKey
-- 
2.43.0


From 425066361877b90ca9187f8ceac140d8a72e5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 54/72] fix: the signature of a secure value tells the value
 from the time

---
 sessions/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sessions/utils.go b/sessions/utils.go
index 2bf3d3b..0b6b313 100755
--- a/sessions/utils.go
+++ b/sessions/utils.go
@@ -52,7 +52,7 @@ func DecodeSecureValue(value string, secretKey string) (raw string, createdAt ti
 	}
 
 	h := hmac.New(sha1.New, []byte(secretKey))
-	_, err = h.Write([]byte(vRaw + vCreated))
+	_, err = h.Write(secureMessage(vRaw, vCreated))
 	if err != nil {
 		return
 	}
@@ -75,7 +75,7 @@ func EncodeSecureValue(raw string, secretKey string, createdAt time.Time) (value
 	timeValue := strconv.FormatInt(createdAt.UnixNano(), 10)
 
 	h := hmac.New(sha1.New, []byte(secretKey))
-	if _, err := h.Write([]byte(raw + timeValue)); err != nil {
+	if _, err := h.Write(secureMessage(raw, timeValue)); err != nil {
 		return
 	}
 
@@ -89,6 +89,11 @@ func EncodeSecureValue(raw string, secretKey string, createdAt time.Time) (value
 	return
 }
 
+// what is signed: the value is escaped, so that nothing of it can be taken for the time or the other way round
+func secureMessage(raw, created string) []byte {
+	return []byte(url.QueryEscape(raw) + COOKIE_VALUE_SPLIT + created)
+}
+
 func GetRawFromSecureValue(value string) string {
 	b, err := base64.URLEncoding.DecodeString(value)
 	if err != nil {
-- 
2.43.0


From 48b2c4c27f1718924616c0d700aacffdb16aecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 55/72] fix: session lifetimes too long for a Duration wrapped
 around

---
 sessions/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sessions/utils.go b/sessions/utils.go
index 0b6b313..15fce99 100755
--- a/sessions/utils.go
+++ b/sessions/utils.go
@@ -5,6 +5,7 @@ import (
 	"crypto/sha1"
 	"encoding/base64"
 	"encoding/hex"
+	"math"
 	"net/http"
 	"net/url"
 	"strconv"
@@ -129,5 +130,13 @@ func getCookie(cookies []*http.Cookie, name string) (cookie *http.Cookie, ok boo
 }
 
 func int2SecsDuration(t int) time.Duration {
+	// as long as a Duration can be, when it cannot say more
+	const max = math.MaxInt64 / int64(time.Second)
+	if int64(t) > max {
+		return math.MaxInt64
+	}
+	if int64(t) < -max {
+		return math.MinInt64
+	}
 	return time.Duration(t) * time.Second
 }
-- 
2.43.0


From 5c451b952c5a5395eedfc9a0c074344993db9ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 56/72] fix: a session cookie was accepted as a remember cookie

---
 sessions/remember.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sessions/remember.go b/sessions/remember.go
index 490ae59..a0faef5 100755
--- a/sessions/remember.go
+++ b/sessions/remember.go
@@ -27,6 +27,7 @@ func (m *SessionManager) HasRemember(config *CookieConfig, r *http.Request) (psk
 
 	parts := strings.SplitN(value, COOKIE_VALUE_PARTS_SPLIT, 2)
 	if len(parts) != 2 {
+		ok = false
 		return
 	}
 
-- 
2.43.0


From ef9f03267bb9044c36be25cb8589c4d431a345e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 57/72] fix: a remember cookie was accepted as a session cookie

---
 sessions/manager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sessions/manager.go b/sessions/manager.go
index 788bbec..31f9d1c 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -4,6 +4,7 @@ import (
 	"log"
 	"net/http"
 	"net/url"
+	"strings"
 	"time"
 )
 
@@ -183,6 +184,11 @@ func (m *SessionManager) ReadSidFromRequest(r *http.Request, cookieName string)
 		return
 	}
 
+	// a remember cookie is signed with the same key, a session id has no parts
+	if strings.Contains(value, COOKIE_VALUE_PARTS_SPLIT) {
+		return
+	}
+
 	// cookie 创建时间超过 session 失效时间，则判断为已过期
 	if isExpired(vTime, int2SecsDuration(config.SessionExpire)) {
 		return
-- 
2.43.0


From 25143dd54df076c455122f4da83a7d34829c54ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 58/72] fix: a session whose save failed was never saved again

---
 sessions/provider.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 6f3bd23..13d8ef2 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -113,8 +113,14 @@ func (m *sessData) Flush() error {
 		return nil
 	}
 
+	err := m.provider.save(m.store)
+	if err != nil {
+		// still to be saved
+		return err
+	}
+
 	m.changed = false
-	return m.provider.save(m.store)
+	return nil
 }
 
 // destory session values in store
-- 
2.43.0


From c8e128348da2736e53a796f3234cf819b870038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 59/72] fix: regenerating a session panicked when the backend
 failed

---
 sessions/manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sessions/manager.go b/sessions/manager.go
index 31f9d1c..e6ed3c5 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -117,9 +117,9 @@ func (m *SessionManager) Regenerate(config *CookieConfig, w http.ResponseWriter,
 	case ErrNotFoundSession:
 		// 未找到时创建新的
 		sess, err = m.createSession(sid, params...)
-		if err != nil {
-			return
-		}
+	}
+	if err != nil {
+		return
 	}
 
 	createdAt = time.Now()
-- 
2.43.0


From a011357f8adfdf9aa75e02db4dc1d415fe076c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 60/72] fix: regenerating a session left the old one in place
 when the backend failed to delete it

---
 sessions/provider.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 13d8ef2..95c36e0 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -189,7 +189,11 @@ func (p *sessProvide) Regenerate(old string, sid string) (sess SessionStore, err
 		return
 	}
 
-	p.Destroy(old)
+	// the old sid must not stay valid
+	err = p.Destroy(old)
+	if err != nil && err != caches.ErrMissedKey {
+		return
+	}
 	return p.Read(sid)
 }
 
-- 
2.43.0


From 314fe6d7c8516f8022d60e2d64ae66f96d01260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:41 +0000
Subject: [PATCH 61/72] fix: gzip marked responses as encoded that have no
 complete stream

A response without a body and the page of the recovery filter, which is
written after the filter is done, were sent as Content-Encoding: gzip.
---
 gzip/gzip.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 05bf01e..07ea793 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -27,10 +27,6 @@ func All() interface{} {
 			return
 		}
 
-		headers := rw.Header()
-		headers.Set(HeaderContentEncoding, "gzip")
-		headers.Set(HeaderVary, HeaderAcceptEncoding)
-
 		gzw := &gzipResponseWriter{ResponseWriter: rw.(strip.ResponseWriter)}
 		defer gzw.close()
 		ctx.ProvideAs(gzw, (*http.ResponseWriter)(nil))
@@ -42,12 +38,23 @@ func All() interface{} {
 
 type gzipResponseWriter struct {
 	strip.ResponseWriter
-	gzw *gzip.Writer
-	one sync.Once
+	gzw    *gzip.Writer
+	one    sync.Once
+	closed bool
 }
 
 func (g *gzipResponseWriter) Write(p []byte) (int, error) {
 	g.one.Do(func() {
+		// nothing completes a stream that starts after the filter, leave it as it is
+		if g.closed {
+			return
+		}
+
+		// only a response with a body is encoded
+		headers := g.Header()
+		headers.Set(HeaderContentEncoding, "gzip")
+		headers.Set(HeaderVary, HeaderAcceptEncoding)
+
 		g.gzw = gzip.NewWriter(g.ResponseWriter)
 
 		// delete content length after we know we have been written to
@@ -58,6 +65,9 @@ func (g *gzipResponseWriter) Write(p []byte) (int, error) {
 		}
 	})
 
+	if g.gzw == nil {
+		return g.ResponseWriter.Write(p)
+	}
 	return g.gzw.Write(p)
 }
 
@@ -70,6 +80,7 @@ func (g *gzipResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 }
 
 func (g *gzipResponseWriter) close() {
+	g.closed = true
 	if g.gzw != nil {
 		g.gzw.Close()
 	}
-- 
2.43.0


From 73aa3f137e7306f39c8e83555c1041fc48c26f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 62/72] fix: gzip encoded responses for clients that refuse
 gzip

---
 gzip/gzip.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 07ea793..128ad89 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net"
 	"net/http"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -23,7 +24,7 @@ const (
 // All returns a Handler that adds gzip compression to all requests
 func All() interface{} {
 	return func(rw http.ResponseWriter, req *http.Request, ctx strip.Context) {
-		if !strings.Contains(req.Header.Get(HeaderAcceptEncoding), "gzip") {
+		if !acceptsGzip(req.Header.Get(HeaderAcceptEncoding)) {
 			return
 		}
 
@@ -36,6 +37,26 @@ func All() interface{} {
 	}
 }
 
+// acceptsGzip tells whether the header names gzip, with a weight other than zero
+func acceptsGzip(header string) bool {
+	for _, item := range strings.Split(header, ",") {
+		params := strings.Split(item, ";")
+		coding := strings.ToLower(strings.TrimSpace(params[0]))
+		if coding != "gzip" && coding != "x-gzip" {
+			continue
+		}
+		for _, param := range params[1:] {
+			param = strings.ToLower(strings.TrimSpace(param))
+			if strings.HasPrefix(param, "q=") {
+				weight, err := strconv.ParseFloat(param[len("q="):], 64)
+				return err == nil && weight > 0
+			}
+		}
+		return true
+	}
+	return false
+}
+
 type gzipResponseWriter struct {
 	strip.ResponseWriter
 	gzw    *gzip.Writer
-- 
2.43.0


From dac8c413eff67550d9f27cd8014594b832cb3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 63/72] fix: gzip replaced the Vary of other filters and
 handlers

---
 gzip/gzip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 128ad89..e481522 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -74,7 +74,7 @@ func (g *gzipResponseWriter) Write(p []byte) (int, error) {
 		// only a response with a body is encoded
 		headers := g.Header()
 		headers.Set(HeaderContentEncoding, "gzip")
-		headers.Set(HeaderVary, HeaderAcceptEncoding)
+		headers.Add(HeaderVary, HeaderAcceptEncoding)
 
 		g.gzw = gzip.NewWriter(g.ResponseWriter)
 
-- 
2.43.0


From 01bb79afc1cc3fed0c935205e820b269e62bdacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 64/72] fix: gzip encoded a body again that its handler had
 encoded

---
 gzip/gzip.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index e481522..61d4843 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -73,6 +73,9 @@ func (g *gzipResponseWriter) Write(p []byte) (int, error) {
 
 		// only a response with a body is encoded
 		headers := g.Header()
+		if len(headers.Get(HeaderContentEncoding)) != 0 {
+			return
+		}
 		headers.Set(HeaderContentEncoding, "gzip")
 		headers.Add(HeaderVary, HeaderAcceptEncoding)
 
-- 
2.43.0


From ea3d897febb7c34193c6ae02e07e0c9be08e1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 65/72] fix: gzip kept back what a handler flushed

---
 gzip/gzip.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 61d4843..cc39ac1 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -65,6 +65,26 @@ type gzipResponseWriter struct {
 }
 
 func (g *gzipResponseWriter) Write(p []byte) (int, error) {
+	g.start(p)
+
+	if g.gzw == nil {
+		return g.ResponseWriter.Write(p)
+	}
+	return g.gzw.Write(p)
+}
+
+// Flush sends what has been written so far
+func (g *gzipResponseWriter) Flush() {
+	g.start(nil)
+
+	if g.gzw != nil {
+		g.gzw.Flush()
+	}
+	g.ResponseWriter.Flush()
+}
+
+// start decides before the header is sent whether the body is encoded
+func (g *gzipResponseWriter) start(p []byte) {
 	g.one.Do(func() {
 		// nothing completes a stream that starts after the filter, leave it as it is
 		if g.closed {
@@ -84,15 +104,10 @@ func (g *gzipResponseWriter) Write(p []byte) (int, error) {
 		// delete content length after we know we have been written to
 		g.Header().Del(HeaderContentLength)
 
-		if len(g.Header().Get(HeaderContentType)) == 0 {
+		if p != nil && len(g.Header().Get(HeaderContentType)) == 0 {
 			g.Header().Set(HeaderContentType, http.DetectContentType(p))
 		}
 	})
-
-	if g.gzw == nil {
-		return g.ResponseWriter.Write(p)
-	}
-	return g.gzw.Write(p)
 }
 
 func (g *gzipResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
-- 
2.43.0


From d38ff2017827ca003b85c4ac5b68acbf60720b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 66/72] fix: gzip encoded parts of a body

A range of a file was sent as that range of an encoded file, which it is not.
---
 gzip/gzip.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index cc39ac1..ee15808 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -17,6 +17,7 @@ const (
 	HeaderAcceptEncoding  = "Accept-Encoding"
 	HeaderContentEncoding = "Content-Encoding"
 	HeaderContentLength   = "Content-Length"
+	HeaderContentRange    = "Content-Range"
 	HeaderContentType     = "Content-Type"
 	HeaderVary            = "Vary"
 )
@@ -96,6 +97,11 @@ func (g *gzipResponseWriter) start(p []byte) {
 		if len(headers.Get(HeaderContentEncoding)) != 0 {
 			return
 		}
+
+		// a part of a body is a part of it as it is
+		if len(headers.Get(HeaderContentRange)) != 0 {
+			return
+		}
 		headers.Set(HeaderContentEncoding, "gzip")
 		headers.Add(HeaderVary, HeaderAcceptEncoding)
 
-- 
2.43.0


From fe26dbdac9274e174620beafbadd4878403e21db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:23 +0000
Subject: [PATCH 67/72] fix: a list flag held its whole text once for each of
 its entries

---
 utils/helpers/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/helpers/config.go b/utils/helpers/config.go
index b3f5d84..b27681a 100755
--- a/utils/helpers/config.go
+++ b/utils/helpers/config.go
@@ -16,7 +16,7 @@ func (s *SliceValue) Set(v string) error {
 	for _, p := range strings.Split(v, ",") {
 		p = strings.TrimSpace(p)
 		if p != "" {
-			*s = append(*s, v)
+			*s = append(*s, p)
 		}
 	}
 	return nil
-- 
2.43.0


From 3db9386432d596fbfdb4af346723b65f547a4f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:24 +0000
Subject: [PATCH 68/72] fix: the config directory given did not override the
 working directory

when it is also the directory of the executable.
---
 utils/helpers/config.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/helpers/config.go b/utils/helpers/config.go
index b27681a..217a287 100755
--- a/utils/helpers/config.go
+++ b/utils/helpers/config.go
@@ -76,13 +76,16 @@ func LoadConfigFiles(sp *strip.Strip, app string, env interface{}, dir string, a
 	skipNum := len(files)
 	files = append(files, addFiles...)
 
-	maps := make(map[string]bool, len(files))
+	// a file that is listed again is loaded where it comes last
+	lasts := make(map[string]int, len(files))
+	for n, path := range files {
+		lasts[path] = n
+	}
 	var last config.Configer
 	for n, path := range files {
-		if n < skipNum && maps[path] {
+		if n < skipNum && lasts[path] != n {
 			continue
 		}
-		maps[path] = true
 		conf, err := config.LoadIniFile(path)
 		if err != nil {
 			if !os.IsNotExist(err) || n >= skipNum {
-- 
2.43.0


From a34571a693e742ca4923dd5c1b1926ee618c0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:08 +0000
Subject: [PATCH 69/72] fix: the request log cut IPv6 addresses of clients

---
 request-logger/logger.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/request-logger/logger.go b/request-logger/logger.go
index e86c300..f18e877 100755
--- a/request-logger/logger.go
+++ b/request-logger/logger.go
@@ -115,17 +115,19 @@ func realIp(req *http.Request) string {
 		return strings.TrimSpace(ip)
 	}
 
-	parts := strings.Split(req.Header.Get(HeaderXForwardedFor), ",")
-	if len(parts) > 0 && parts[0] != "" {
-		parts = strings.Split(parts[0], ":")
-		return strings.TrimSpace(parts[0])
+	addr := strings.TrimSpace(strings.Split(req.Header.Get(HeaderXForwardedFor), ",")[0])
+	if addr == "" {
+		addr = req.RemoteAddr
 	}
 
-	host := req.RemoteAddr
-	if idx := strings.LastIndex(req.RemoteAddr, ":"); idx != -1 {
-		host = host[:idx]
+	// an IPv6 address has brackets when it comes with a port
+	if idx := strings.LastIndex(addr, "]"); idx != -1 {
+		return strings.TrimPrefix(addr[:idx], "[")
 	}
-	return host
+	if strings.Count(addr, ":") == 1 {
+		addr = addr[:strings.Index(addr, ":")]
+	}
+	return addr
 }
 
 func setLoggerInContext(ctx strip.Context, req *http.Request, log strip.Logger) *http.Request {
-- 
2.43.0


From ad0791eecc22bb1ebbeedd61c6a984971d6c63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:08 +0000
Subject: [PATCH 70/72] fix: request ids made at the same time were the same

---
 request-logger/reqid.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/request-logger/reqid.go b/request-logger/reqid.go
index 8eb2412..9941184 100755
--- a/request-logger/reqid.go
+++ b/request-logger/reqid.go
@@ -9,18 +9,35 @@ import (
 	"runtime"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
 var rnd = uint32(rand.New(rand.NewSource(time.Now().UnixNano())).Intn(999999999))
 
+var lastNano int64
+
 func NewReqId() string {
 	var b [12]byte
 	binary.LittleEndian.PutUint32(b[:], rnd)
-	binary.LittleEndian.PutUint64(b[4:], uint64(time.Now().UnixNano()))
+	binary.LittleEndian.PutUint64(b[4:], uint64(nextNano()))
 	return base64.URLEncoding.EncodeToString(b[:])
 }
 
+// nextNano is the time, or the next one not used yet
+func nextNano() int64 {
+	for {
+		last := atomic.LoadInt64(&lastNano)
+		now := time.Now().UnixNano()
+		if now <= last {
+			now = last + 1
+		}
+		if atomic.CompareAndSwapInt64(&lastNano, last, now) {
+			return now
+		}
+	}
+}
+
 func DecodeReqId(reqId string) (uint, int64) {
 	b, err := base64.URLEncoding.DecodeString(reqId)
 	if err != nil || len(b) < 12 {
-- 
2.43.0


From 88e21c338c540332184b1f40fdc41fab66d0b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:45 +0000
Subject: [PATCH 71/72] fix: collect sessions each hour when no interval is
 given

---
 sessions/manager.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sessions/manager.go b/sessions/manager.go
index e6ed3c5..d7de557 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -27,11 +27,11 @@ func (m *SessionManager) GC(intervals ...time.Duration) {
 	var interval time.Duration
 	if len(intervals) > 0 {
 		interval = intervals[0]
+	}
 
-		// 小于1分钟的，默认回收时间设为1小时
-		if interval < time.Minute {
-			interval = time.Hour
-		}
+	// 小于1分钟的，默认回收时间设为1小时
+	if interval < time.Minute {
+		interval = time.Hour
 	}
 
 	// 启动 Provider 的 GC
-- 
2.43.0


From 370e5408974ad8b406366964ff7fc4d237aabc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:34 +0000
Subject: [PATCH 72/72] fix: give replaced filters room of their own

---
 app_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index 9486508..5a266c4 100755
--- a/app_util.go
+++ b/app_util.go
@@ -12,7 +12,8 @@ import (
 )
 
 func ReplaceFilters(old, new *Strip) {
-	old.filters = new.filters
+	// the two share no room for further filters
+	old.filters = new.filters[:len(new.filters):len(new.filters)]
 }
 
 type StrTo string
-- 
2.43.0

