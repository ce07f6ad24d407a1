From 27e59b59147a7a5cdb971812ff67deda669d73b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 01/65] fix: fall back to parameter routes when a literal
 prefix leads to no declared route

A request whose first segments match literal segments that are only an
intermediate node (or whose subtree has no declared end) returned 404 even
though a sibling parameter route covers the path.
---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 06636af..2b60f2c 100755
--- a/router.go
+++ b/router.go
@@ -242,7 +242,7 @@ func (r *route) match(nextPaths []string, params *paramList) (rt *route) {
 	}
 
 	// second match paramRoutes
-	if rt == nil && len(r.paramRoutes) > 0 {
+	if (rt == nil || !rt.isEnd) && len(r.paramRoutes) > 0 {
 
 		for _, pr := range r.paramRoutes {
 			value, matched := pr.pathParam.matchParamRoute(p)
-- 
2.43.0


From a751491f567bc35e4af92c21befe4da4b5011fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 02/65] fix: convert pointer and unsupported slice destinations
 without panicking

Converting text for a pointer typed action argument returned the element
value (reflect Call panicked) and a slice of unsupported elements
dereferenced the type of an invalid value.
---
 app_util.go | 17 ++++++++++++-----
 config.go   |  4 ----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/app_util.go b/app_util.go
index 3ce03b3..fd84edf 100755
--- a/app_util.go
+++ b/app_util.go
@@ -197,9 +197,16 @@ func indirectType(typ reflect.Type) reflect.Type {
 func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 	var v interface{}
 
-	iTyp := indirectType(typ)
+	if typ.Kind() == reflect.Ptr {
+		elm := convertStringAsType(str, typ.Elem())
+		if elm.IsValid() {
+			value = reflect.New(typ.Elem())
+			value.Elem().Set(elm)
+		}
+		return
+	}
 
-	switch iTyp.Kind() {
+	switch typ.Kind() {
 	case reflect.Bool:
 		v, _ = StrTo(str).Bool()
 	case reflect.Float32:
@@ -229,7 +236,7 @@ func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 	case reflect.String:
 		v = str
 	case reflect.Slice:
-		switch iTyp.Elem().Kind() {
+		switch typ.Elem().Kind() {
 		case reflect.Uint8:
 			v = []byte(str)
 		case reflect.String:
@@ -247,8 +254,8 @@ func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 	}
 
 	val := reflect.ValueOf(v)
-	if val.Type().ConvertibleTo(iTyp) {
-		value = val.Convert(iTyp)
+	if val.IsValid() && val.Type().ConvertibleTo(typ) {
+		value = val.Convert(typ)
 	}
 	return
 }
diff --git a/config.go b/config.go
index 8b41b67..1227053 100755
--- a/config.go
+++ b/config.go
@@ -84,10 +84,6 @@ func (c *Config) Bind(ptr interface{}, name string) {
 		elm := val.Elem()
 		val = convertStringAsType(value, elm.Type())
 		if elm.CanSet() && val.IsValid() {
-			if elm.Kind() == reflect.Ptr {
-				elm.Set(reflect.New(elm.Type().Elem()))
-				elm = elm.Elem()
-			}
 			elm.Set(val)
 		}
 	}
-- 
2.43.0


From 2f98f9410c42c987328febca4ddfd93cc43379c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 03/65] fix: parse uint at its full width in text conversions

---
 app_util.go                 | 2 +-
 utils/converter_value_to.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/app_util.go b/app_util.go
index fd84edf..0eb89c4 100755
--- a/app_util.go
+++ b/app_util.go
@@ -91,7 +91,7 @@ func (f StrTo) Int64() (int64, error) {
 
 // string to uint
 func (f StrTo) Uint() (uint, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 32)
+	v, err := strconv.ParseUint(f.String(), 10, strconv.IntSize)
 	if err != nil {
 		return 0, err
 	}
diff --git a/utils/converter_value_to.go b/utils/converter_value_to.go
index 48656f4..b0ea893 100755
--- a/utils/converter_value_to.go
+++ b/utils/converter_value_to.go
@@ -80,7 +80,7 @@ func (v *Value) Uint() (uint, error) {
 	if ret, ok := v.value.(uint); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 32)
+	value, err := strconv.ParseUint(v.String(), 10, 64)
 	return uint(value), err
 }
 
-- 
2.43.0


From 389e38171c7b4c26dd8640aaeede467a101df416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 04/65] fix: call every struct action with its own argument
 types

---
 router_action.go | 44 +++++++++++++++-----------------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/router_action.go b/router_action.go
index 6337b31..6845eef 100755
--- a/router_action.go
+++ b/router_action.go
@@ -14,10 +14,6 @@ type routerController struct {
 	typ   reflect.Type
 	kind  reflect.Kind
 	pTyp  reflect.Type
-
-	// struct action
-	actionIn  []reflect.Type
-	actionOut []reflect.Type
 }
 
 func makeRouterController(value interface{}) (rc routerController) {
@@ -53,24 +49,12 @@ func (r *routerController) ensureHasAction(action string) {
 
 	m := reflect.New(r.typ).MethodByName(action)
 	if m.IsValid() {
-		r.cacheStructAction(m.Type())
 		return
 	}
 
 	panic(fmt.Sprintf("controller action `%s.%s` not exists", r.typ, action))
 }
 
-func (r *routerController) cacheStructAction(typ reflect.Type) {
-	r.actionIn = make([]reflect.Type, typ.NumIn())
-	for i := 0; i < typ.NumIn(); i++ {
-		r.actionIn[i] = typ.In(i)
-	}
-	r.actionOut = make([]reflect.Type, typ.NumOut())
-	for i := 0; i < typ.NumOut(); i++ {
-		r.actionOut[i] = typ.Out(i)
-	}
-}
-
 func (r *routerController) actionFuncExists(action string) bool {
 	_, ok := r.pTyp.MethodByName(action)
 	return ok
@@ -111,11 +95,22 @@ func (r *routerAction) wrapHandle(route *route, params paramList, action string)
 }
 
 func (r *routerAction) callStructFunc(ctx Context, params paramList, action string) []reflect.Value {
-	actionIn := r.controller.actionIn
+	if !r.controller.actionFuncExists(action) {
+		panic(fmt.Sprintf("not found action func: %s", action))
+	}
 
-	in := make([]reflect.Value, 0, len(actionIn))
-	for i := 0; i < len(actionIn); i++ {
-		typ := actionIn[i]
+	newStruct := reflect.New(r.controller.typ)
+	if val := indirectValue(r.controller.val); val.IsValid() {
+		newStruct.Elem().Set(val)
+	}
+
+	// the arguments of the action which is really called, an All controller
+	// has one action per http method
+	actionTyp := newStruct.MethodByName(action).Type()
+
+	in := make([]reflect.Value, 0, actionTyp.NumIn())
+	for i := 0; i < actionTyp.NumIn(); i++ {
+		typ := actionTyp.In(i)
 		value := reflect.Value{}
 
 		if len(params) > i {
@@ -133,15 +128,6 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 		in = append(in, value)
 	}
 
-	if !r.controller.actionFuncExists(action) {
-		panic(fmt.Sprintf("not found action func: %s", action))
-	}
-
-	newStruct := reflect.New(r.controller.typ)
-	if val := indirectValue(r.controller.val); val.IsValid() {
-		newStruct.Elem().Set(val)
-	}
-
 	err := ctx.Apply(newStruct.Interface())
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 01fd92e964f941a2a61889bd76a4d1da1308ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 05/65] fix: resolve the GET default of HEAD requests when
 dispatching

---
 router.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/router.go b/router.go
index 2b60f2c..6766b7d 100755
--- a/router.go
+++ b/router.go
@@ -152,6 +152,11 @@ func (r *routeRoot) handle(ctx Context, rw http.ResponseWriter, req *http.Reques
 	routeAction := route.action[method]
 	actionFunc := method.action()
 
+	// default use GET route for HEAD method
+	if routeAction == nil && method == HEAD {
+		routeAction = route.action[GET]
+	}
+
 	if routeAction != nil {
 		actionFunc = routeAction.action
 	}
@@ -324,11 +329,6 @@ func (r *route) configRoutes(args routeArgs) {
 		r.action[method] = newRouteAction(mArgs.ctroler, act, actFilters)
 	}
 
-	// default use GET route for HEAD method
-	if r.action[HEAD] == nil && r.action[GET] != nil {
-		r.action[HEAD] = r.action[GET]
-	}
-
 	if allMethod != nil {
 		act := string(allArgs.action)
 		if act == "" && !allArgs.ctroler.isFunc() {
-- 
2.43.0


From ae796caf6cff4fdeb98ac1f7f0987fef52291ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 06/65] fix: refuse routers nested below a wild route, they
 could never be reached

---
 router.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/router.go b/router.go
index 6766b7d..0beb845 100755
--- a/router.go
+++ b/router.go
@@ -365,6 +365,11 @@ func (r *route) configRoutes(args routeArgs) {
 			continue
 		}
 
+		if r.pathParam.isWild {
+			panic(fmt.Sprintf("wild route `%s` must end with route param `:%s`, can not nest `%s`",
+				r.calcPath(), r.pathParam.paramName, pathStr))
+		}
+
 		targetRoute := r
 		for i, p := range paths {
 			var rt *route
-- 
2.43.0


From 8a3d9b3de9324fa58842fbd5c7e213b75f49acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 07/65] fix: refuse a pointer to a function as controller

---
 router_action.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/router_action.go b/router_action.go
index 6845eef..114b7d1 100755
--- a/router_action.go
+++ b/router_action.go
@@ -21,8 +21,8 @@ func makeRouterController(value interface{}) (rc routerController) {
 
 	iTyp := indirectType(val.Type())
 
-	switch iTyp.Kind() {
-	case reflect.Struct, reflect.Func:
+	switch {
+	case iTyp.Kind() == reflect.Struct, val.Kind() == reflect.Func:
 	default:
 		panic(fmt.Sprintf("action must be a struct or function but found `%v`", val.Kind()))
 	}
-- 
2.43.0


From 6f02ac093c6734370b3d7086be8cc0c04b47cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 08/65] fix: keep method handlers derived from a shared one
 independent

---
 router_method.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/router_method.go b/router_method.go
index 18caec8..ecb0fc5 100755
--- a/router_method.go
+++ b/router_method.go
@@ -45,24 +45,26 @@ type MethodHandler interface {
 
 type methodParams Handlers
 
+// with never shares its result with other handlers derived from h
+func (h methodParams) with(arg Handler) methodParams {
+	return append(h[:len(h):len(h)], arg)
+}
+
 func (h methodParams) Action(name string) MethodHandler {
 	// ensure controller has action
 	rc := h[0].(routerController)
 	rc.ensureHasAction(name)
 	h[0] = rc
 
-	h = append(h, action(name))
-	return h
+	return h.with(action(name))
 }
 
 func (h methodParams) Filter(exempts ...interface{}) MethodHandler {
-	h = append(h, Filter(exempts...))
-	return h
+	return h.with(Filter(exempts...))
 }
 
 func (h methodParams) Exempt(exempts ...interface{}) MethodHandler {
-	h = append(h, Exempt(exempts...))
-	return h
+	return h.with(Exempt(exempts...))
 }
 
 func Get(c Handler) MethodHandler {
-- 
2.43.0


From cd6dec92fb53a42ff144a6feccf1db865089d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 09/65] fix: recognize the same inject.Provide filter when
 composing and exempting

---
 router_filter.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/router_filter.go b/router_filter.go
index 12bc16c..e0173d4 100755
--- a/router_filter.go
+++ b/router_filter.go
@@ -18,7 +18,7 @@ func (h filters) append(values ...*filter) filters {
 outFor:
 	for _, f := range values {
 		for _, v := range h {
-			if v.value == f.value {
+			if v.same(f) {
 				continue outFor
 			}
 		}
@@ -33,7 +33,7 @@ func (h filters) remove(values ...*filter) filters {
 		exempt := false
 	innerFor:
 		for _, f := range values {
-			if v.value == f.value {
+			if v.same(f) {
 				exempt = true
 				break innerFor
 			}
@@ -102,3 +102,15 @@ func newFilter(value reflect.Value, fun FilterFunc) *filter {
 		value: value,
 	}
 }
+
+// same tells whether both are made of the same function or Provide slice
+func (f *filter) same(v *filter) bool {
+	if f.value == v.value {
+		return true
+	}
+	if f.value.Kind() != reflect.Slice || v.value.Kind() != reflect.Slice {
+		return false
+	}
+	return f.value.Len() > 0 && f.value.Len() == v.value.Len() &&
+		f.value.Pointer() == v.value.Pointer()
+}
-- 
2.43.0


From 94d402653f4383ac865058de166102ec6cdb9bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 10/65] fix: always call an invoked function, and detect
 dependency cycles per flow

---
 inject/inject.go          |  9 ++++++---
 inject/inject_provider.go | 25 ++++++++++++-------------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 8930c7d..967444a 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -57,6 +57,10 @@ func (m invokeStatus) set(name string) {
 	m[name] = false
 }
 
+func (m invokeStatus) unset(name string) {
+	delete(m, name)
+}
+
 type invokeCache map[string][]reflect.Value
 
 type injector struct {
@@ -172,14 +176,13 @@ func (inj *injector) Invoke(prov interface{}) ([]reflect.Value, error) {
 	status := make(invokeStatus)
 
 	info := newProvider(Object{Value: prov})
-	out, err := info.invoke(inj, status)
+	// always call the function itself, it is not a registered provider
+	out, err := info.call(inj, status)
 
 	if err != nil {
 		return nil, fmt.Errorf("provider invoke err: %v", err)
 	}
 
-	// remove exists cache of provider
-	delete(inj.caches, info.name)
 	return out, nil
 }
 
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index bf23987..6cb4f7b 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -3,7 +3,6 @@ package inject
 import (
 	"fmt"
 	"reflect"
-	"sync/atomic"
 )
 
 type Provider interface{}
@@ -32,8 +31,6 @@ type providerInfo struct {
 
 	// reflect value of provider value
 	val reflect.Value
-
-	done uint32
 }
 
 func newProvider(obj Object) (info *providerInfo) {
@@ -130,15 +127,20 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		return
 	}
 
-	defer func() {
-		if err == nil {
-			atomic.AddUint32(&p.done, 1)
-		}
-	}()
-
 	// on process
 	status.set(p.name)
+	defer status.unset(p.name)
+
+	out, err = p.call(inj, status)
+	if err == nil && p.value == nil && p.ptyp.NumOut() > 0 {
+		inj.caches[p.name] = out
+	}
+	return
+}
 
+// call resolves the dependencies and runs the provider function,
+// regardless of what is cached or in process under its name
+func (p *providerInfo) call(inj *injector, status invokeStatus) (out []reflect.Value, err error) {
 	if p.value != nil {
 		out = []reflect.Value{p.val}
 		return
@@ -153,7 +155,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		}
 
 		// avoid cycle dependencies
-		if atomic.LoadUint32(&prov.done) == 0 && status.has(prov.name) {
+		if status.has(prov.name) {
 			err = fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
 			return
 		}
@@ -177,9 +179,6 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 
 	// invoke provider function
 	out = p.pval.Call(in)
-	if p.ptyp.NumOut() > 0 {
-		inj.caches[p.name] = out
-	}
 	return
 }
 
-- 
2.43.0


From 71f1c6a5d253bd63fcf0c96b98660f1b21a60131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 11/65] fix: deliver dependencies to function arguments in
 value or pointer form, or report an error

---
 inject/inject_provider.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 6cb4f7b..7dbeb58 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -174,7 +174,16 @@ func (p *providerInfo) call(inj *injector, status invokeStatus) (out []reflect.V
 			}
 		}
 
-		in = append(in, ot[0])
+		// give the dependency in the form the argument asks for
+		arg := reflect.New(p.ptyp.In(len(in))).Elem()
+		if len(ot) > 0 {
+			if er := assignValue(ot[0], arg); er != nil {
+				err = fmt.Errorf("dep <%s> by %v: %v", dep, p.ptyp, er)
+				return
+			}
+		}
+
+		in = append(in, arg)
 	}
 
 	// invoke provider function
-- 
2.43.0


From dcf58264e27090a64e0f37a790cbd92d5caa6b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 12/65] fix: report a tagged field which can not be assigned
 when applying

---
 inject/inject.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inject/inject.go b/inject/inject.go
index 967444a..104b85b 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -240,7 +240,10 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 					return fmt.Errorf("value not found for type %s:%v", provName, field)
 				}
 
-				assignValue(out[0], field)
+				err = assignValue(out[0], field)
+				if err != nil {
+					return fmt.Errorf("provider value of type %s:%v err: %v", provName, field, err)
+				}
 			}
 
 			continue
-- 
2.43.0


From 3aed2eb2006db02f4278db61385e2ac02178224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 13/65] fix: tell injected types apart by their type and not
 only by package and name

---
 inject/inject.go          | 18 +++++++++---------
 inject/inject_provider.go | 23 ++++++++++++++++++-----
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 104b85b..2def781 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -43,29 +43,29 @@ type TypeProvider interface {
 }
 
 type provInvoker interface {
-	get(string) *providerInfo
+	get(providerName) *providerInfo
 }
 
-type invokeStatus map[string]bool
+type invokeStatus map[providerName]bool
 
-func (m invokeStatus) has(name string) bool {
+func (m invokeStatus) has(name providerName) bool {
 	_, ok := m[name]
 	return ok
 }
 
-func (m invokeStatus) set(name string) {
+func (m invokeStatus) set(name providerName) {
 	m[name] = false
 }
 
-func (m invokeStatus) unset(name string) {
+func (m invokeStatus) unset(name providerName) {
 	delete(m, name)
 }
 
-type invokeCache map[string][]reflect.Value
+type invokeCache map[providerName][]reflect.Value
 
 type injector struct {
 	// use for store provider
-	values map[string]*providerInfo
+	values map[providerName]*providerInfo
 
 	// user for cache provider instance for current inject
 	caches invokeCache
@@ -75,7 +75,7 @@ type injector struct {
 
 func New() Injector {
 	return &injector{
-		values: make(map[string]*providerInfo),
+		values: make(map[providerName]*providerInfo),
 		caches: make(invokeCache),
 	}
 }
@@ -271,7 +271,7 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 	return nil
 }
 
-func (inj *injector) get(name string) *providerInfo {
+func (inj *injector) get(name providerName) *providerInfo {
 	// get provider in current injector
 	if prov := inj.values[name]; prov != nil {
 		return prov
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 7dbeb58..5d9c503 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -10,11 +10,24 @@ type Provide []Provider
 
 type Dep map[int]string
 
-type providerInfo struct {
+// providerName identifies a provider by type and name
+type providerName struct {
+	typ  reflect.Type
 	name string
+}
+
+func (n providerName) String() string {
+	if n.typ == nil {
+		return ":" + n.name
+	}
+	return n.typ.String() + ":" + n.name
+}
+
+type providerInfo struct {
+	name providerName
 
 	// depends of this provider
-	deps []string
+	deps []providerName
 
 	// type of injerct value
 	typ reflect.Type
@@ -79,7 +92,7 @@ func newProvider(obj Object) (info *providerInfo) {
 	}
 
 	numIn := info.ptyp.NumIn()
-	deps := make([]string, 0, numIn)
+	deps := make([]providerName, 0, numIn)
 
 	for i := 0; i < numIn; i++ {
 		typ := indirectType(info.ptyp.In(i))
@@ -192,8 +205,8 @@ func (p *providerInfo) call(inj *injector, status invokeStatus) (out []reflect.V
 }
 
 // create unique name of type
-func createName(typ reflect.Type, name string) string {
-	return typ.PkgPath() + ":" + typ.Name() + ":" + name
+func createName(typ reflect.Type, name string) providerName {
+	return providerName{typ: typ, name: name}
 }
 
 // reflect indirect of reflect.Value
-- 
2.43.0


From e687cf4e156fb3356e59d5efe202096d25e22e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 14/65] fix: do not answer a lookup with the cached result of a
 replaced parent provider

---
 inject/inject.go          | 4 ++--
 inject/inject_provider.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 2def781..1592a5d 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -61,7 +61,7 @@ func (m invokeStatus) unset(name providerName) {
 	delete(m, name)
 }
 
-type invokeCache map[providerName][]reflect.Value
+type invokeCache map[*providerInfo][]reflect.Value
 
 type injector struct {
 	// use for store provider
@@ -108,7 +108,7 @@ func (inj *injector) ProvideAs(prov interface{}, typ interface{}, names ...strin
 	info := newProvider(obj)
 
 	// remove exists cache of provider
-	delete(inj.caches, info.name)
+	delete(inj.caches, inj.values[info.name])
 
 	// replace with new prvoder info
 	inj.values[info.name] = info
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 5d9c503..3abc663 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -135,7 +135,7 @@ func (p *providerInfo) setName(name string) {
 }
 
 func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect.Value, err error) {
-	if v, ok := inj.caches[p.name]; ok {
+	if v, ok := inj.caches[p]; ok {
 		out = v
 		return
 	}
@@ -146,7 +146,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 
 	out, err = p.call(inj, status)
 	if err == nil && p.value == nil && p.ptyp.NumOut() > 0 {
-		inj.caches[p.name] = out
+		inj.caches[p] = out
 	}
 	return
 }
-- 
2.43.0


From fec9d8587d68ba154931f6610f47aa2e605192c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 15/65] fix: send status and run hooks once on flush too, and
 keep reporting the status sent

---
 response.go | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/response.go b/response.go
index 3ba24d6..e303d6e 100755
--- a/response.go
+++ b/response.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"net"
 	"net/http"
-	"sync"
 )
 
 // ResponseWriter is a wrapper around http.ResponseWriter that provides extra information about
@@ -46,7 +45,8 @@ type responseWriter struct {
 	size        int
 	beforeFuncs []BeforeFunc
 
-	once sync.Once
+	// header is sent
+	committed bool
 
 	hijacked bool
 }
@@ -56,23 +56,35 @@ func (rw *responseWriter) WriteHeader(s int) {
 	if s == 0 {
 		panic("http status code can not be zero")
 	}
+	// too late to change what is already sent
+	if rw.committed {
+		return
+	}
 	rw.status = s
 }
 
-func (rw *responseWriter) Write(b []byte) (int, error) {
-	rw.once.Do(func() {
-		rw.callBefore()
-		// The status will be StatusOK if WriteHeader has not been called yet
-		if rw.status == 0 {
-			rw.status = http.StatusOK
-		}
+// send header once
+func (rw *responseWriter) commit() {
+	if rw.committed {
+		return
+	}
+
+	rw.callBefore()
+	// The status will be StatusOK if WriteHeader has not been called yet
+	if rw.status == 0 {
+		rw.status = http.StatusOK
+	}
+
+	rw.committed = true
+	if rw.hijacked {
+		return
+	}
 
-		if rw.hijacked {
-			return
-		}
+	rw.ResponseWriter.WriteHeader(rw.status)
+}
 
-		rw.ResponseWriter.WriteHeader(rw.status)
-	})
+func (rw *responseWriter) Write(b []byte) (int, error) {
+	rw.commit()
 
 	size, err := rw.ResponseWriter.Write(b)
 	rw.size += size
@@ -116,12 +128,16 @@ func (rw *responseWriter) CloseNotify() <-chan bool {
 func (rw *responseWriter) Flush() {
 	flusher, ok := rw.ResponseWriter.(http.Flusher)
 	if ok {
+		rw.commit()
 		flusher.Flush()
 	}
 }
 
 func (rw *responseWriter) callBefore() {
-	for i := len(rw.beforeFuncs) - 1; i >= 0; i-- {
-		rw.beforeFuncs[i](rw)
+	// every func runs only once, even if one of them panics
+	for n := len(rw.beforeFuncs); n > 0; n = len(rw.beforeFuncs) {
+		before := rw.beforeFuncs[n-1]
+		rw.beforeFuncs = rw.beforeFuncs[:n-1]
+		before(rw)
 	}
 }
-- 
2.43.0


From 5fa990fec7bc3b88843b75be3e0f9063b099cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 16/65] fix: answer 500 after a panic with any logger and
 response writer provided

---
 recovery.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/recovery.go b/recovery.go
index a95df22..254882c 100755
--- a/recovery.go
+++ b/recovery.go
@@ -69,19 +69,17 @@ func RecoveryFilter() inject.Provider {
 				fErr := ctx.Find(&log, "")
 				if fErr != nil {
 					fmt.Fprintf(os.Stderr, "PANIC: %#v FindLog:%v\n%s", err, fErr, stack)
-					return
+				} else {
+					log.Errorf("PANIC: %#v\n%s", err, stack)
 				}
 
-				log.Errorf("PANIC: %#v\n%s", err, stack)
+				if ctx.Written() {
+					return
+				}
 
 				var rw http.ResponseWriter
 				ctx.Find(&rw, "")
 
-				trw := rw.(ResponseWriter)
-				if trw.Written() {
-					return
-				}
-
 				// in prod mode only set status code
 				// fall back to other filter
 				rw.WriteHeader(http.StatusInternalServerError)
-- 
2.43.0


From eea4acbf6fcd751544fd6f44a018aacc519b40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 17/65] fix: escape the panic value in the development error
 page

---
 recovery.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/recovery.go b/recovery.go
index 254882c..fe4a94a 100755
--- a/recovery.go
+++ b/recovery.go
@@ -51,7 +51,7 @@ pre.message,
 </style>
 </head><body>
 <h1>PANIC: %s</h1>
-<pre class="message">%T: %#v</pre>
+<pre class="message">%s: %s</pre>
 <div class="stack">%s</div>
 </body>
 </html>`
@@ -88,7 +88,11 @@ func RecoveryFilter() inject.Provider {
 				var body []byte
 				if config.RunMode.IsDev() {
 					rw.Header().Set("Content-Type", "text/html; charset=utf-8")
-					body = []byte(fmt.Sprintf(panicHtml, err, err, err, err, styleStack(stack)))
+					title := html.EscapeString(fmt.Sprintf("%s", err))
+					body = []byte(fmt.Sprintf(panicHtml, title, title,
+						html.EscapeString(fmt.Sprintf("%T", err)),
+						html.EscapeString(fmt.Sprintf("%#v", err)),
+						styleStack(stack)))
 					rw.Write(body)
 				}
 			}
-- 
2.43.0


From ace1a84b7e5e8d92f5ce8cdf7c7df797a8584e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 18/65] fix: tell context values apart by their type and not
 only by package and name

---
 utils/context.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/utils/context.go b/utils/context.go
index f2f28b5..bc9eb10 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -12,13 +12,20 @@ var (
 
 type key string
 
+// typedKey tells types of equal package path and name apart,
+// eg: unnamed types and types declared inside of functions
+type typedKey struct {
+	key
+	typ reflect.Type
+}
+
 func CtxWithValue(ctx context.Context, value interface{}, extraName ...string) context.Context {
-	k := ctxValueToKey(value, extraName...)
+	k := ctxValueToTypedKey(value, extraName...)
 	return context.WithValue(ctx, k, value)
 }
 
 func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) error {
-	k := ctxValueToKey(value, extraName...)
+	k := ctxValueToTypedKey(value, extraName...)
 	inf := ctx.Value(k)
 	tarElm := reflect.ValueOf(value).Elem()
 	if !tarElm.CanSet() {
@@ -51,6 +58,15 @@ func MustCtxFindValue(ctx context.Context, value interface{}, extraName ...strin
 	}
 }
 
+func ctxValueToTypedKey(value interface{}, extraNames ...string) typedKey {
+	k := ctxValueToKey(value, extraNames...)
+	typ := reflect.TypeOf(value).Elem()
+	if typ.Kind() == reflect.Ptr {
+		typ = typ.Elem()
+	}
+	return typedKey{k, typ}
+}
+
 func ctxValueToKey(value interface{}, extraNames ...string) key {
 	val := reflect.ValueOf(value)
 	if val.Kind() != reflect.Ptr {
-- 
2.43.0


From 755810e613e2d3c5117ac845710228cb3f60e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 19/65] fix: do not panic looking up a stored nil pointer as
 context value

---
 utils/context.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/context.go b/utils/context.go
index bc9eb10..e6aadae 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -39,6 +39,10 @@ func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) e
 		return nil
 	}
 	elm := val.Elem()
+	if tarElm.Kind() != reflect.Ptr && elm.Kind() == reflect.Ptr && elm.IsNil() {
+		// there is no value behind a stored nil pointer
+		return nil
+	}
 	if tarElm.Kind() == reflect.Ptr && elm.Kind() != reflect.Ptr {
 		tarElm.Set(elm.Addr())
 	} else if tarElm.Kind() != reflect.Ptr && elm.Kind() == reflect.Ptr {
-- 
2.43.0


From 6661980eaa88ffc1a5b851d50c407a3bfaf1500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 20/65] fix: keep contexts replaced by earlier filters when
 installing the request logger

---
 request-logger/logger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request-logger/logger.go b/request-logger/logger.go
index e86c300..5355f63 100755
--- a/request-logger/logger.go
+++ b/request-logger/logger.go
@@ -134,6 +134,7 @@ func setLoggerInContext(ctx strip.Context, req *http.Request, log strip.Logger)
 	req = req.WithContext(reqCtx)
 
 	ctx.Provide(req)
-	ctx.ReplaceContext(req.Context())
+	// keep what earlier filters have put into the context
+	ctx.ReplaceContext(utils.CtxWithValue(ctx.GetContext(), &l))
 	return req
 }
-- 
2.43.0


From c5b7cca46e34b532dca01169947fe38bd722df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 21/65] fix: read max_memory per request, the shared variable
 was a data race

---
 params/params.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/params/params.go b/params/params.go
index 9d98e45..36e47b1 100755
--- a/params/params.go
+++ b/params/params.go
@@ -243,8 +243,6 @@ func (p *Params) calcValues() url.Values {
 }
 
 func ParamsParser() interface{} {
-	var maxMemory int64
-
 	return func(req *http.Request, ctx strip.Context, log strip.Logger, config *strip.Config) *Params {
 		params := new(Params)
 		params.req = req
@@ -257,11 +255,10 @@ func ParamsParser() interface{} {
 			params.Route = *routeInfo
 		}
 
+		var maxMemory int64
+		config.Bind(&maxMemory, "max_memory")
 		if maxMemory == 0 {
-			config.Bind(&maxMemory, "max_memory")
-			if maxMemory == 0 {
-				maxMemory = DefaultMaxMemory
-			}
+			maxMemory = DefaultMaxMemory
 		}
 
 		err := ParseParams(params, maxMemory)
-- 
2.43.0


From 64c647d217eae4d1d81cabfc1aad38685a80e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 22/65] fix: send results of kinds which can not be nil instead
 of panicking

---
 router_action_out.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/router_action_out.go b/router_action_out.go
index c8b574e..cfbbeee 100755
--- a/router_action_out.go
+++ b/router_action_out.go
@@ -66,10 +66,17 @@ func GenericOutFilter() interface{} {
 			body = out[len(out)-1]
 		}
 
-		if !body.CanInterface() || body.IsNil() {
+		if !body.CanInterface() {
 			return
 		}
 
+		switch body.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
+			if body.IsNil() {
+				return
+			}
+		}
+
 		itf := body.Interface()
 		switch src := itf.(type) {
 		case ActionResult:
-- 
2.43.0


From f3c834bd2cfb7a68f76d8f7c8172bee9a22ea41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 23/65] fix: bind zero instead of a wrapped number when the
 text does not fit the type

---
 params/binder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/params/binder.go b/params/binder.go
index 3c5581f..d7f790a 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -66,7 +66,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			intValue, err := strconv.ParseInt(val, 10, 64)
+			intValue, err := strconv.ParseInt(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -81,7 +81,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			uintValue, err := strconv.ParseUint(val, 10, 64)
+			uintValue, err := strconv.ParseUint(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -96,7 +96,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			floatValue, err := strconv.ParseFloat(val, 64)
+			floatValue, err := strconv.ParseFloat(val, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
-- 
2.43.0


From 7fdffbd52db7b0daf6a8b6c39b4675f791282f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 24/65] fix: complete the minute in the default date time
 format

---
 params/binder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index d7f790a..6f3b515 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -47,7 +47,7 @@ func ValueBinder(f func(value string, typ reflect.Type) reflect.Value) func(*Par
 
 const (
 	DEFAULT_DATE_FORMAT            = "2006-01-02"
-	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:0"
+	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:04"
 	DEFAULT_DATETIME_FORMAT_SECOND = "2006-01-02 15:04:05"
 )
 
-- 
2.43.0


From 2eb4836e8e3fb96bd75bac9e00f883e94f46d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 25/65] fix: bind fields promoted from embedded pointers
 instead of panicking

---
 params/binder.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 6f3b515..0c2999a 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -301,6 +301,28 @@ func nextKey(key string) string {
 	return key[:fieldLen]
 }
 
+// structField finds a field, also a promoted one, embedded pointers on the way
+// to it are allocated.
+func structField(val reflect.Value, name string) (field reflect.Value) {
+	ftyp, ok := val.Type().FieldByName(name)
+	if !ok || ftyp.PkgPath != "" {
+		return
+	}
+	for _, index := range ftyp.Index {
+		if val.Kind() == reflect.Ptr {
+			if val.IsNil() {
+				if !val.CanSet() {
+					return reflect.Value{}
+				}
+				val.Set(reflect.New(val.Type().Elem()))
+			}
+			val = val.Elem()
+		}
+		val = val.Field(index)
+	}
+	return val
+}
+
 func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 	result := reflect.New(typ).Elem()
 	fieldValues := make(map[string]reflect.Value)
@@ -317,7 +339,7 @@ func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 
 		if _, ok := fieldValues[fieldName]; !ok {
 			// Time to bind this field.  Get it and make sure we can set it.
-			fieldValue := result.FieldByName(fieldName)
+			fieldValue := structField(result, fieldName)
 			if !fieldValue.IsValid() {
 				continue
 			}
-- 
2.43.0


From 21846415b9adca214b358985097fcb46031700f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 26/65] fix: ignore malformed and huge slice indexes, bind
 every slice element once

---
 params/binder.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 0c2999a..3998ffe 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -211,6 +211,10 @@ type sliceValue struct {
 	value reflect.Value // the bound value for this slice element.
 }
 
+// maxSliceGap limits how far an index may be beyond the number of params, or
+// one small request could allocate a huge slice.
+const maxSliceGap = 1000
+
 // This function creates a slice of the given type, Binds each of the individual
 // elements, and then sets them to their appropriate location in the slice.
 // If elements are provided without an explicit index, they are added (in
@@ -220,6 +224,8 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 	maxIndex := -1
 	numNoIndex := 0
 	sliceValues := []sliceValue{}
+	maxIndexes := len(params.Values) + len(params.Files) + maxSliceGap
+	boundKeys := make(map[string]bool) // Indexed elements bound already.
 
 	// Factor out the common slice logic (between form values and files).
 	processElement := func(key string, vals []string, files []*multipart.FileHeader) {
@@ -230,13 +236,25 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 		// Extract the index, and the index where a sub-key starts. (e.g. field[0].subkey)
 		index := -1
 		leftBracket, rightBracket := len(name), strings.Index(key[len(name):], "]")+len(name)
+		if rightBracket < leftBracket {
+			return
+		}
 		if rightBracket > leftBracket+1 {
-			index, _ = strconv.Atoi(key[leftBracket+1 : rightBracket])
+			// Malformed and too large indexes are ignored.
+			n, err := strconv.ParseUint(key[leftBracket+1:rightBracket], 10, 31)
+			if err != nil || int(n) >= maxIndexes {
+				return
+			}
+			index = int(n)
 		}
 		subKeyIndex := rightBracket + 1
 
 		// Handle the indexed case.
 		if index > -1 {
+			if boundKeys[key[:subKeyIndex]] {
+				return
+			}
+			boundKeys[key[:subKeyIndex]] = true
 			if index > maxIndex {
 				maxIndex = index
 			}
-- 
2.43.0


From fcf9ae0682425516130335f3312bf52824755a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 27/65] fix: keep the text of numbers in maps bound from JSON,
 skip params without values

---
 params/binder.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/params/binder.go b/params/binder.go
index 3998ffe..f8dff6a 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -2,7 +2,6 @@ package params
 
 import (
 	"encoding/json"
-	"fmt"
 	"mime/multipart"
 	"net/url"
 	"reflect"
@@ -382,14 +381,20 @@ func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
 		valueType = typ.Elem()
 	)
 	if v := params.Values.Get(name); v != "" {
-		raw := make(map[string]interface{})
+		raw := make(map[string]json.RawMessage)
 		_ = json.Unmarshal([]byte(v), &raw)
 		for key, value := range raw {
-			result.SetMapIndex(BindValue(key, keyType), BindValue(fmt.Sprint(value), valueType))
+			// Strings are unquoted, null is empty, anything else keeps its text.
+			text := string(value)
+			if text[0] == '"' || text == "null" {
+				text = ""
+				_ = json.Unmarshal(value, &text)
+			}
+			result.SetMapIndex(BindValue(key, keyType), BindValue(text, valueType))
 		}
 	} else {
 		for paramName, values := range params.Values {
-			if !strings.HasPrefix(paramName, name+"[") || paramName[len(paramName)-1] != ']' {
+			if !strings.HasPrefix(paramName, name+"[") || paramName[len(paramName)-1] != ']' || len(values) == 0 {
 				continue
 			}
 
-- 
2.43.0


From 32b07af99896d8d96af6f9d173a301f4c516b73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 28/65] fix: bind embedded pointers of structs completely and
 without panic or endless recursion

---
 params/params.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/params/params.go b/params/params.go
index 36e47b1..20cda37 100755
--- a/params/params.go
+++ b/params/params.go
@@ -124,17 +124,25 @@ func (p *Params) BindJsonBody(dest interface{}, userNumber ...bool) (err error)
 // can use url.Query / url.Values, parse to json
 func (p *Params) BindValuesToStruct(dest interface{}) {
 	pointerMap := make(map[uintptr]bool)
+	typeMap := make(map[reflect.Type]bool)
 	val := reflect.ValueOf(dest)
 	elm := reflect.Indirect(val)
 	if val.Kind() != reflect.Ptr && elm.Kind() != reflect.Struct {
 		panic("need ptr of struct")
 	}
-	p.bindValuesToStruct(elm, pointerMap)
+	p.bindValuesToStruct(elm, pointerMap, typeMap)
 }
 
-func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bool) (exits bool) {
+func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bool, typeMap map[reflect.Type]bool) (exits bool) {
 	typ := elm.Type()
 
+	// types which embed themselves never end
+	if typeMap[typ] {
+		return
+	}
+	typeMap[typ] = true
+	defer delete(typeMap, typ)
+
 	for i := 0; i < elm.NumField(); i++ {
 		field := elm.Field(i)
 		ftyp := typ.Field(i)
@@ -169,6 +177,9 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 
 				var newField reflect.Value
 				if field.IsNil() {
+					if !field.CanSet() {
+						continue
+					}
 					newField = reflect.New(ftyp.Type.Elem())
 				} else {
 					newField = field
@@ -183,22 +194,25 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 					// save pointer
 					pointerMap[pointer] = true
 				}
-				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
-					field.Set(newField)
+				if ok := p.bindValuesToStruct(inf, pointerMap, typeMap); ok {
+					exits = true
+					if field.IsNil() {
+						field.Set(newField)
+					}
 				}
 
 			} else if field.Kind() == reflect.Struct {
 				inf = field
-				p.bindValuesToStruct(inf, pointerMap)
+				if ok := p.bindValuesToStruct(inf, pointerMap, typeMap); ok {
+					exits = true
+				}
 			} else {
 				continue
 			}
 
 		} else {
 			if !exits {
-				if vals, ok := p.Values[name]; ok && len(vals) > 0 {
-					exits = true
-				}
+				exits = p.hasParam(name)
 			}
 			paramValue := Bind(p, name, field.Type())
 			if paramValue.Type().ConvertibleTo(field.Type()) {
@@ -209,6 +223,19 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 	return
 }
 
+// hasParam tells whether a param, or an element or a field of it, was given.
+func (p *Params) hasParam(name string) bool {
+	if len(p.Values[name]) > 0 {
+		return true
+	}
+	for key, vals := range p.Values {
+		if len(vals) > 0 && (strings.HasPrefix(key, name+"[") || strings.HasPrefix(key, name+".")) {
+			return true
+		}
+	}
+	return false
+}
+
 // calcValues returns a unified view of the component param maps.
 func (p *Params) calcValues() url.Values {
 	numParams := len(p.Query) + len(p.Route.Values) + len(p.Form)
-- 
2.43.0


From 1662b1ec303dbaad9e972f4ea8b2947eacf521b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 29/65] fix: keep query and body parameters apart, and keep
 well formed ones when others are malformed

---
 params/params.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/params/params.go b/params/params.go
index 20cda37..5fc4d9d 100755
--- a/params/params.go
+++ b/params/params.go
@@ -41,7 +41,7 @@ type Params struct {
 	log strip.Logger
 }
 
-func ParseParams(params *Params, maxMemory int64) error {
+func ParseParams(params *Params, maxMemory int64) (err error) {
 	req := params.req
 
 	params.Query = req.URL.Query()
@@ -57,27 +57,24 @@ func ParseParams(params *Params, maxMemory int64) error {
 	switch contentType {
 	case "application/x-www-form-urlencoded":
 		// Typical form.
-		if err := req.ParseForm(); err != nil {
-			return err
-		} else {
-			params.Form = req.Form
-		}
+		// What is well formed is kept, and the query is not part of the body.
+		err = req.ParseForm()
+		params.Form = req.PostForm
 
 	case "multipart/form-data":
 		// Multipart form.
 		if maxMemory <= 0 {
 			maxMemory = DefaultMaxMemory
 		}
-		if err := req.ParseMultipartForm(maxMemory); err != nil {
-			return err
-		} else {
+		err = req.ParseMultipartForm(maxMemory)
+		if req.MultipartForm != nil {
 			params.Form = req.MultipartForm.Value
 			params.Files = req.MultipartForm.File
 		}
 	}
 
 	params.Values = params.calcValues()
-	return nil
+	return err
 }
 
 // Bind looks for the named parameter, converts it to the requested type, and
-- 
2.43.0


From 1fb19e148c2ad3266ec17845eb9f67a3833ee60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 30/65] fix: keep uploaded files until the request has ended

---
 app.go           | 15 +++++++++++++++
 params/params.go | 22 +---------------------
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/app.go b/app.go
index 1ba8b87..f5e813f 100755
--- a/app.go
+++ b/app.go
@@ -117,12 +117,27 @@ func (s *Strip) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	ctx.Provide(req)
 	ctx.ProvideAs(trw, (*http.ResponseWriter)(nil))
 
+	// uploaded files stay readable until the end of the request
+	defer removeMultipart(ctx, req)
+
 	ctx.(*context).run()
 
 	// flush header if have not written
 	trw.Write(nil)
 }
 
+// removeMultipart removes temporary files of the request, and of the request
+// which filters have provided instead of it.
+func removeMultipart(ctx Context, req *http.Request) {
+	if req.MultipartForm != nil {
+		req.MultipartForm.RemoveAll()
+	}
+	var last *http.Request
+	if ctx.Find(&last, "") == nil && last != nil && last.MultipartForm != nil {
+		last.MultipartForm.RemoveAll()
+	}
+}
+
 func (s *Strip) Run() error {
 	mode := string(s.Config.RunMode)
 	addr := fmt.Sprintf("%s:%s", s.Config.HttpAddr, s.Config.HttpPort)
diff --git a/params/params.go b/params/params.go
index 5fc4d9d..a506d97 100755
--- a/params/params.go
+++ b/params/params.go
@@ -8,7 +8,6 @@ import (
 	"mime/multipart"
 	"net/http"
 	"net/url"
-	"os"
 	"reflect"
 	"strings"
 
@@ -34,8 +33,7 @@ type Params struct {
 	Query url.Values // Parameters from the query string, e.g. /index?limit=10
 	Form  url.Values // Parameters from the request body.
 
-	Files    map[string][]*multipart.FileHeader // Files uploaded in a multipart form
-	tmpFiles []*os.File                         // Temp files used during the request.
+	Files map[string][]*multipart.FileHeader // Files uploaded in a multipart form
 
 	req *http.Request
 	log strip.Logger
@@ -290,24 +288,6 @@ func ParamsParser() interface{} {
 			log.Notice("parse params error", err)
 		}
 
-		// Clean up from the request.
-		defer func() {
-			// Delete temp files.
-			if req.MultipartForm != nil {
-				err := req.MultipartForm.RemoveAll()
-				if err != nil {
-					log.Notice("error removing temporary files:", err)
-				}
-			}
-
-			for _, tmpFile := range params.tmpFiles {
-				err := os.Remove(tmpFile.Name())
-				if err != nil {
-					log.Notice("could not remove upload temp file:", err)
-				}
-			}
-		}()
-
 		return params
 	}
 }
-- 
2.43.0


From c50a31ca02b3d7aa3dc009002041f9f96611d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 31/65] fix: real ip and host for IPv6, proto of TLS
 connections, escaped path in the real url

---
 params/real.go           | 40 ++++++++++++++++++++++++++--------------
 request-logger/logger.go | 22 +++++++++++++++-------
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/params/real.go b/params/real.go
index 31493a9..6e9e2fb 100755
--- a/params/real.go
+++ b/params/real.go
@@ -1,42 +1,49 @@
 package params
 
 import (
+	"net"
 	"net/http"
 	"net/url"
 	"strings"
 )
 
 func RealIp(req *http.Request) (realIp string) {
-	realIp = req.Header.Get("X-Real-Ip")
+	realIp = strings.TrimSpace(req.Header.Get("X-Real-Ip"))
 	if realIp != "" {
 		return
 	}
 
 	ips := strings.Split(req.Header.Get("X-Forwarded-For"), ",")
-	if len(ips) > 0 && ips[0] != "" {
-		rip := strings.Split(ips[0], ":")
-		realIp = rip[0]
-		return
+	if ip := hostOnly(ips[0]); ip != "" {
+		return ip
 	}
 
-	ip := strings.Split(req.RemoteAddr, ":")
-	if len(ip) > 0 {
-		if ip[0] != "[" {
-			realIp = ip[0]
-			return
-		}
+	if ip := hostOnly(req.RemoteAddr); ip != "" {
+		return ip
 	}
 	return "127.0.0.1"
 }
 
+// hostOnly drops the port, and the brackets of an IPv6 address
+func hostOnly(addr string) string {
+	addr = strings.TrimSpace(addr)
+	if host, _, err := net.SplitHostPort(addr); err == nil {
+		return host
+	}
+	if strings.HasPrefix(addr, "[") && strings.HasSuffix(addr, "]") {
+		return addr[1 : len(addr)-1]
+	}
+	return addr
+}
+
 func RealHost(req *http.Request) (host string) {
 	host = req.Header.Get("X-Forwarded-Host")
 	if host == "" {
 		host = req.Host
 	}
-	parts := strings.Split(host, ":")
-	if len(parts) > 0 {
-		host = parts[0]
+	host = hostOnly(host)
+	if strings.Contains(host, ":") {
+		host = "[" + host + "]"
 	}
 	return
 }
@@ -46,6 +53,9 @@ func RealProto(req *http.Request) (proto string) {
 	if proto == "" {
 		proto = req.URL.Scheme
 	}
+	if proto == "" && req.TLS != nil {
+		proto = "https"
+	}
 	if proto == "" {
 		proto = "http"
 	}
@@ -70,6 +80,8 @@ func RealURL(req *http.Request) (u *url.URL, err error) {
 	d.Scheme = RealProto(req)
 	d.Opaque = ins.Opaque
 	d.Path = ins.Path
+	d.RawPath = ins.RawPath
+	d.ForceQuery = ins.ForceQuery
 	d.RawQuery = ins.RawQuery
 	return &d, nil
 }
diff --git a/request-logger/logger.go b/request-logger/logger.go
index 5355f63..a085e0a 100755
--- a/request-logger/logger.go
+++ b/request-logger/logger.go
@@ -2,6 +2,7 @@ package reqlogger
 
 import (
 	"fmt"
+	"net"
 	"net/http"
 	"strings"
 	"time"
@@ -116,16 +117,23 @@ func realIp(req *http.Request) string {
 	}
 
 	parts := strings.Split(req.Header.Get(HeaderXForwardedFor), ",")
-	if len(parts) > 0 && parts[0] != "" {
-		parts = strings.Split(parts[0], ":")
-		return strings.TrimSpace(parts[0])
+	if ip := hostOnly(parts[0]); ip != "" {
+		return ip
 	}
 
-	host := req.RemoteAddr
-	if idx := strings.LastIndex(req.RemoteAddr, ":"); idx != -1 {
-		host = host[:idx]
+	return hostOnly(req.RemoteAddr)
+}
+
+// hostOnly drops the port, and the brackets of an IPv6 address
+func hostOnly(addr string) string {
+	addr = strings.TrimSpace(addr)
+	if host, _, err := net.SplitHostPort(addr); err == nil {
+		return host
+	}
+	if strings.HasPrefix(addr, "[") && strings.HasSuffix(addr, "]") {
+		return addr[1 : len(addr)-1]
 	}
-	return host
+	return addr
 }
 
 func setLoggerInContext(ctx strip.Context, req *http.Request, log strip.Logger) *http.Request {
-- 
2.43.0


From bae13644daaf8f979958d762f06028d5b2387ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 32/65] fix: refuse INI keys that are empty or followed by text
 behind their quotes

---
 config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/config/config.go b/config/config.go
index d2d5e8e..95dd29e 100755
--- a/config/config.go
+++ b/config/config.go
@@ -244,6 +244,11 @@ func (c *config) loadFromReader(r io.Reader) error {
 				i = i + pos
 				key = line[qLen:pos] //保留引号内的两端的空格
 
+				// an empty key, or text behind the closing quote, would get lost
+				if key == "" || strings.TrimSpace(line[pos:i]) != keyQuote {
+					return readError{ERR_COULD_NOT_PARSE, line}
+				}
+
 			} else {
 				i = strings.IndexAny(line, "=:")
 				if i <= 0 {
-- 
2.43.0


From ad38580b8b05d9d596d4629a9611d0d0e55d2fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 33/65] fix: Config.Find gives the default when no config was
 imported

---
 config.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/config.go b/config.go
index 1227053..770f8b9 100755
--- a/config.go
+++ b/config.go
@@ -59,14 +59,14 @@ func newConfig() *Config {
 }
 
 func (c *Config) Find(name string, defaultValue ...string) string {
+	value := ""
 	if c.Configer != nil {
-		value := c.Configer.Find(name)
-		if value == "" && len(defaultValue) > 0 {
-			return defaultValue[0]
-		}
-		return value
+		value = c.Configer.Find(name)
+	}
+	if value == "" && len(defaultValue) > 0 {
+		return defaultValue[0]
 	}
-	return ""
+	return value
 }
 
 func (c *Config) Bind(ptr interface{}, name string) {
-- 
2.43.0


From dac3b7b40df66b282eb59b5a810cd4ab7c74242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 34/65] fix: decode embedded unexported structs, skip
 unexported fields

---
 config/config_parse.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/config/config_parse.go b/config/config_parse.go
index 8fd3159..0e4434b 100755
--- a/config/config_parse.go
+++ b/config/config_parse.go
@@ -17,6 +17,10 @@ func Decode(config *strip.Config, env interface{}) {
 		panic("env instance must be ptr struct")
 	}
 
+	parseStruct(config, val)
+}
+
+func parseStruct(config *strip.Config, val reflect.Value) {
 	typ := val.Type()
 
 	for i := 0; i < val.NumField(); i++ {
@@ -24,12 +28,12 @@ func Decode(config *strip.Config, env interface{}) {
 		fType := typ.Field(i)
 
 		if fVal.Kind() == reflect.Struct && fType.Anonymous {
-			Decode(config, fVal.Addr().Interface())
+			parseStruct(config, fVal)
 			continue
 		}
 
 		name := fType.Tag.Get("conf")
-		if len(name) == 0 || name == "-" {
+		if len(name) == 0 || name == "-" || !fVal.CanSet() {
 			continue
 		}
 
@@ -49,7 +53,7 @@ func parseSection(config *strip.Config, val reflect.Value, sec string) {
 		fType := typ.Field(i)
 
 		name := fType.Tag.Get("conf")
-		if len(name) == 0 || name == "-" {
+		if len(name) == 0 || name == "-" || !fVal.CanSet() {
 			continue
 		}
 
-- 
2.43.0


From 21da896dc2a3882aa0c17cbade2e25ffd0a10a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 35/65] fix: ToStr of byte arrays, empty byte slices and
 pointers to empty strings

---
 app_util.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/app_util.go b/app_util.go
index 0eb89c4..4183bcb 100755
--- a/app_util.go
+++ b/app_util.go
@@ -169,10 +169,14 @@ func ToStr(value interface{}) (s string) {
 		s = val.String()
 	case reflect.Array, reflect.Slice:
 		if val.Type().Elem().Kind() == reflect.Uint8 {
-			s = string(val.Bytes())
+			buf := make([]byte, val.Len())
+			for i := range buf {
+				buf[i] = byte(val.Index(i).Uint())
+			}
+			return string(buf)
 		}
-	}
-	if s == "" {
+		s = fmt.Sprint(value)
+	default:
 		s = fmt.Sprint(value)
 	}
 	return s
-- 
2.43.0


From 95319ad540caec77c137470d1de5f4e1a19528bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 36/65] fix: utils.ToStr of other types shows the value

---
 utils/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/converter.go b/utils/converter.go
index 4ff74b7..f30be53 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -177,7 +177,7 @@ func ToStr(value interface{}, args ...int) (s string) {
 			// TODO should use reflect rewrite
 			s = string(v)
 		} else {
-			s = fmt.Sprintf("%#v", v)
+			s = fmt.Sprintf("%#v", value)
 		}
 	}
 	return s
-- 
2.43.0


From c18cdaaf9b472f1c53b9bc4839d4dfa31d4d0e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 37/65] fix: ToInt64 refuses values beyond int64

---
 utils/converter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/converter.go b/utils/converter.go
index f30be53..0eec00e 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -4,6 +4,7 @@ import (
 	"crypto/md5"
 	"encoding/hex"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 )
@@ -190,6 +191,10 @@ func ToInt64(value interface{}) (d int64, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		d = val.Int()
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if val.Uint() > math.MaxInt64 {
+			err = fmt.Errorf("ToInt64 value %d out of range", val.Uint())
+			return
+		}
 		d = int64(val.Uint())
 	default:
 		err = fmt.Errorf("ToInt64 need numeric not `%T`", value)
-- 
2.43.0


From add6f20e6a7dbbc25293b098b20c4674fd5e68f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 38/65] fix: random bytes over an alphabet of 256 bytes

---
 utils/rand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rand.go b/utils/rand.go
index a1511ec..c02385f 100755
--- a/utils/rand.go
+++ b/utils/rand.go
@@ -26,7 +26,7 @@ func RandomCreateBytes(n int, alphabets ...byte) ([]byte, error) {
 		return nil, err
 	}
 	for i, b := range bytes {
-		bytes[i] = alphabets[b%byte(len(alphabets))]
+		bytes[i] = alphabets[int(b)%len(alphabets)]
 	}
 	return bytes, nil
 }
-- 
2.43.0


From 8d02ada2d17c184e54699d0e897248259bfea0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 39/65] fix: SliceValue holds its items

---
 utils/helpers/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/helpers/config.go b/utils/helpers/config.go
index b3f5d84..b27681a 100755
--- a/utils/helpers/config.go
+++ b/utils/helpers/config.go
@@ -16,7 +16,7 @@ func (s *SliceValue) Set(v string) error {
 	for _, p := range strings.Split(v, ",") {
 		p = strings.TrimSpace(p)
 		if p != "" {
-			*s = append(*s, v)
+			*s = append(*s, p)
 		}
 	}
 	return nil
-- 
2.43.0


From 6e73d532d8357faa864e7b6fde71178e7ff10704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 40/65] fix: gzip announces compression only for complete
 compressed bodies

---
 gzip/gzip.go | 102 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 86 insertions(+), 16 deletions(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 05bf01e..dd3d4f3 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -6,8 +6,8 @@ import (
 	"fmt"
 	"net"
 	"net/http"
+	"strconv"
 	"strings"
-	"sync"
 
 	"github.com/wujiu2020/strip"
 )
@@ -16,6 +16,7 @@ const (
 	HeaderAcceptEncoding  = "Accept-Encoding"
 	HeaderContentEncoding = "Content-Encoding"
 	HeaderContentLength   = "Content-Length"
+	HeaderContentRange    = "Content-Range"
 	HeaderContentType     = "Content-Type"
 	HeaderVary            = "Vary"
 )
@@ -23,44 +24,113 @@ const (
 // All returns a Handler that adds gzip compression to all requests
 func All() interface{} {
 	return func(rw http.ResponseWriter, req *http.Request, ctx strip.Context) {
-		if !strings.Contains(req.Header.Get(HeaderAcceptEncoding), "gzip") {
+		if !acceptGzip(req.Header) {
 			return
 		}
 
-		headers := rw.Header()
-		headers.Set(HeaderContentEncoding, "gzip")
-		headers.Set(HeaderVary, HeaderAcceptEncoding)
-
 		gzw := &gzipResponseWriter{ResponseWriter: rw.(strip.ResponseWriter)}
-		defer gzw.close()
+		gzw.Before(gzw.before)
+
 		ctx.ProvideAs(gzw, (*http.ResponseWriter)(nil))
+		// the compressed body is complete after close, filters around this one
+		// must not use it any more
+		defer ctx.ProvideAs(rw, (*http.ResponseWriter)(nil))
+		defer gzw.close()
 
 		ctx.Next()
 		// for defer, gzw need close at the end of request
 	}
 }
 
+// acceptGzip tells whether the client accepts gzip, `gzip;q=0` refuses it
+func acceptGzip(header http.Header) bool {
+	for _, value := range strings.Split(strings.Join(header[HeaderAcceptEncoding], ","), ",") {
+		parts := strings.Split(value, ";")
+		coding := strings.ToLower(strings.TrimSpace(parts[0]))
+		if coding != "gzip" && coding != "x-gzip" {
+			continue
+		}
+		for _, param := range parts[1:] {
+			param = strings.ToLower(strings.TrimSpace(param))
+			if q, err := strconv.ParseFloat(strings.TrimPrefix(param, "q="), 64); err == nil && q <= 0 {
+				return false
+			}
+		}
+		return true
+	}
+	return false
+}
+
 type gzipResponseWriter struct {
 	strip.ResponseWriter
 	gzw *gzip.Writer
-	one sync.Once
+
+	// body is about to be sent, with this first part
+	sending bool
+	first   []byte
+	started bool
 }
 
-func (g *gzipResponseWriter) Write(p []byte) (int, error) {
-	g.one.Do(func() {
-		g.gzw = gzip.NewWriter(g.ResponseWriter)
+// before runs when the header is sent: compress only if a body follows
+func (g *gzipResponseWriter) before(strip.ResponseWriter) {
+	g.started = true
+	status, headers := g.Status(), g.Header()
 
-		// delete content length after we know we have been written to
-		g.Header().Del(HeaderContentLength)
+	switch {
+	case !g.sending,
+		status == http.StatusNoContent, status == http.StatusNotModified,
+		headers.Get(HeaderContentEncoding) != "", headers.Get(HeaderContentRange) != "":
+		return
+	}
 
-		if len(g.Header().Get(HeaderContentType)) == 0 {
-			g.Header().Set(HeaderContentType, http.DetectContentType(p))
+	headers.Set(HeaderContentEncoding, "gzip")
+	addVary(headers)
+
+	// length is not known any more
+	headers.Del(HeaderContentLength)
+
+	if _, ok := headers[HeaderContentType]; !ok && len(g.first) > 0 {
+		headers.Set(HeaderContentType, http.DetectContentType(g.first))
+	}
+
+	g.gzw = gzip.NewWriter(g.ResponseWriter)
+}
+
+func addVary(headers http.Header) {
+	for _, value := range strings.Split(strings.Join(headers[HeaderVary], ","), ",") {
+		value = strings.TrimSpace(value)
+		if value == "*" || strings.EqualFold(value, HeaderAcceptEncoding) {
+			return
 		}
-	})
+	}
+	headers.Add(HeaderVary, HeaderAcceptEncoding)
+}
+
+func (g *gzipResponseWriter) Write(p []byte) (int, error) {
+	if !g.started {
+		g.started = true
+		g.sending, g.first = true, p
+		// send header
+		g.ResponseWriter.Write(nil)
+		g.sending, g.first = false, nil
+	}
 
+	// header is sent before, or not to be compressed
+	if g.gzw == nil {
+		return g.ResponseWriter.Write(p)
+	}
 	return g.gzw.Write(p)
 }
 
+func (g *gzipResponseWriter) Flush() {
+	if g.gzw != nil {
+		g.gzw.Flush()
+	}
+	g.sending = true
+	g.ResponseWriter.Flush()
+	g.sending = false
+}
+
 func (g *gzipResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 	hijacker, ok := g.ResponseWriter.(http.Hijacker)
 	if !ok {
-- 
2.43.0


From b4c84a318c5c12abb3b4f810bd23c6a167fb4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 41/65] fix: directory redirects stay on the same host

---
 static-serve/static.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static-serve/static.go b/static-serve/static.go
index 5b58911..e713985 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -107,7 +107,8 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 			// redirect if missing trailing slash
 			if !strings.HasSuffix(req.URL.Path, "/") {
 				dest := url.URL{
-					Path:     req.URL.Path + "/",
+					// with two leading slashes it would be another host
+					Path:     "/" + strings.TrimLeft(req.URL.Path+"/", "/"),
 					RawQuery: req.URL.RawQuery,
 					Fragment: req.URL.Fragment,
 				}
-- 
2.43.0


From ae35a92004a8d17fc4c516939c7f8506b5a4a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 42/65] fix: not found if the index file is a directory

---
 static-serve/static.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/static-serve/static.go b/static-serve/static.go
index e713985..c16d95a 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -124,7 +124,10 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 			defer f.Close()
 
 			fi, err = f.Stat()
-			if err != nil || fi.IsDir() {
+			if err == nil && fi.IsDir() {
+				err = os.ErrNotExist
+			}
+			if err != nil {
 				return
 			}
 		}
-- 
2.43.0


From a0adf9488e194954da30a04200625058122374c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 43/65] fix: close the fallback file

---
 static-serve/static.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/static-serve/static.go b/static-serve/static.go
index c16d95a..67904b4 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -142,6 +142,7 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 					err = er
 					return
 				}
+				defer f.Close()
 				err = nil
 			}
 			if err != nil {
-- 
2.43.0


From 694fb73113d1aa7d0c33d46ef3e27446874c4a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 44/65] fix: show where a recovered panic happened

---
 log.go      | 4 ++--
 recovery.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/log.go b/log.go
index 9e2dd25..6c83740 100755
--- a/log.go
+++ b/log.go
@@ -237,9 +237,9 @@ func (l *baseLogger) Recover(f func(), level ...Level) (err interface{}) {
 	defer func() {
 		if err = recover(); err != nil {
 			if len(level) > 0 {
-				l.write(level[0], err, LineOpt{Stack: true, Depth: 4})
+				l.write(level[0], err, LineOpt{Stack: true, Depth: 1})
 			} else {
-				l.Error(err, LineOpt{Stack: true, Depth: 5})
+				l.Error(err, LineOpt{Stack: true, Depth: 2})
 			}
 		}
 	}()
diff --git a/recovery.go b/recovery.go
index fe4a94a..9618b2c 100755
--- a/recovery.go
+++ b/recovery.go
@@ -63,7 +63,7 @@ func RecoveryFilter() inject.Provider {
 	return func(ctx Context, config *Config) {
 		defer func() {
 			if err := recover(); err != nil {
-				stack := string(Stack(5))
+				stack := string(Stack(3))
 
 				var log Logger
 				fErr := ctx.Find(&log, "")
-- 
2.43.0


From e33d55eff07f689966045bf7ede36cbab71c597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 45/65] fix: request ids are unique within the process

---
 request-logger/reqid.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/request-logger/reqid.go b/request-logger/reqid.go
index 8eb2412..89cc826 100755
--- a/request-logger/reqid.go
+++ b/request-logger/reqid.go
@@ -9,6 +9,7 @@ import (
 	"runtime"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -17,10 +18,26 @@ var rnd = uint32(rand.New(rand.NewSource(time.Now().UnixNano())).Intn(999999999)
 func NewReqId() string {
 	var b [12]byte
 	binary.LittleEndian.PutUint32(b[:], rnd)
-	binary.LittleEndian.PutUint64(b[4:], uint64(time.Now().UnixNano()))
+	binary.LittleEndian.PutUint64(b[4:], uint64(uniqueNano()))
 	return base64.URLEncoding.EncodeToString(b[:])
 }
 
+var lastNano int64
+
+// uniqueNano returns the current time, but never the same twice
+func uniqueNano() int64 {
+	for {
+		last := atomic.LoadInt64(&lastNano)
+		nano := time.Now().UnixNano()
+		if nano <= last {
+			nano = last + 1
+		}
+		if atomic.CompareAndSwapInt64(&lastNano, last, nano) {
+			return nano
+		}
+	}
+}
+
 func DecodeReqId(reqId string) (uint, int64) {
 	b, err := base64.URLEncoding.DecodeString(reqId)
 	if err != nil || len(b) < 12 {
-- 
2.43.0


From 1f72f817d223c71606a9035625cec5485241054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 46/65] fix: leave typed nil results alone

---
 router_action_out.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/router_action_out.go b/router_action_out.go
index cfbbeee..fcc9e90 100755
--- a/router_action_out.go
+++ b/router_action_out.go
@@ -70,6 +70,14 @@ func GenericOutFilter() interface{} {
 			return
 		}
 
+		// look at the value itself, it may be a nil pointer
+		if body.Kind() == reflect.Interface {
+			body = body.Elem()
+			if !body.IsValid() {
+				return
+			}
+		}
+
 		switch body.Kind() {
 		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
 			if body.IsNil() {
-- 
2.43.0


From 87ee2513712073108fd04ce2b3ad7c82759e0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 47/65] fix: raw bodies send their status and shared results
 are not changed

---
 utils/apires/raw.go | 28 +++++++++++++++++++---------
 utils/apires/res.go | 16 +++++++++-------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/utils/apires/raw.go b/utils/apires/raw.go
index eda8301..131ac63 100755
--- a/utils/apires/raw.go
+++ b/utils/apires/raw.go
@@ -13,13 +13,16 @@ type RawBody struct {
 }
 
 func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	status := r.Status
+	if status == http.StatusNoContent {
+		closeReader(r.Body)
+		rw.WriteHeader(status)
+		return
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
-		return
+	// without status keep the one set before
+	if status != 0 {
+		rw.WriteHeader(status)
 	}
 
 	if r.Body == nil {
@@ -33,13 +36,14 @@ func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Req
 	case []byte:
 		_, err = rw.Write(v)
 	case io.Reader:
+		defer closeReader(v)
 		buf := make([]byte, 4*1024)
 		_, err = io.CopyBuffer(rw, v, buf)
-		if c, ok := r.Body.(io.Closer); ok {
-			c.Close()
-		}
 	default:
-		err = writeJsonBody(r.Status, r.Body, ctx, rw, req)
+		if status == 0 {
+			status = http.StatusOK
+		}
+		err = writeJsonBody(status, r.Body, ctx, rw, req)
 	}
 	if err != nil {
 		var logger strip.Logger
@@ -48,6 +52,12 @@ func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Req
 	}
 }
 
+func closeReader(body interface{}) {
+	if c, ok := body.(io.ReadCloser); ok {
+		c.Close()
+	}
+}
+
 func RawWith(body interface{}, status ...int) *RawBody {
 	code := http.StatusOK
 	if len(status) > 0 {
diff --git a/utils/apires/res.go b/utils/apires/res.go
index c70377f..3e51adc 100755
--- a/utils/apires/res.go
+++ b/utils/apires/res.go
@@ -15,19 +15,21 @@ type ResBody struct {
 }
 
 func (r *ResBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	// r may be shared by many requests
+	status, body := r.Status, r.Body
+	if status == 0 {
+		status = http.StatusOK
 	}
-	if r.Body == nil {
-		r.Body = struct{}{}
+	if body == nil {
+		body = struct{}{}
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
+	if status == http.StatusNoContent {
+		rw.WriteHeader(status)
 		return
 	}
 
-	if err := writeJsonBody(r.Status, r.Body, ctx, rw, req); err != nil {
+	if err := writeJsonBody(status, body, ctx, rw, req); err != nil {
 		var logger strip.Logger
 		ctx.Find(&logger, "")
 		logger.Warn("response write failed:", err)
-- 
2.43.0


From e6e24fec6af472d473070f0bc4bcffc52af6bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 48/65] fix: signed values are accepted only as issued

---
 sessions/utils.go | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/sessions/utils.go b/sessions/utils.go
index 2bf3d3b..aaec91b 100755
--- a/sessions/utils.go
+++ b/sessions/utils.go
@@ -25,45 +25,37 @@ func CreateSid() (sid string) {
 }
 
 func DecodeSecureValue(value string, secretKey string) (raw string, createdAt time.Time, ok bool) {
-	rawBytes, _ := base64.URLEncoding.DecodeString(value)
-	value = string(rawBytes)
-
-	parts := strings.SplitN(value, COOKIE_VALUE_SPLIT, 3)
-	if len(parts) < 3 {
-		return
-	}
-
-	vRaw := strings.TrimSpace(parts[0])
-	vCreated := strings.TrimSpace(parts[1])
-	vHash := strings.TrimSpace(parts[2])
-
-	if vRaw == "" || vCreated == "" || vHash == "" {
+	rawBytes, err := base64.URLEncoding.DecodeString(value)
+	if err != nil {
 		return
 	}
 
-	vTime, _ := strconv.ParseInt(vCreated, 10, 64)
-	if vTime <= 0 {
+	parts := strings.SplitN(string(rawBytes), COOKIE_VALUE_SPLIT, 3)
+	if len(parts) < 3 {
 		return
 	}
 
-	vRaw, err := url.QueryUnescape(vRaw)
+	vRaw, err := url.QueryUnescape(parts[0])
 	if err != nil {
 		return
 	}
 
-	h := hmac.New(sha1.New, []byte(secretKey))
-	_, err = h.Write([]byte(vRaw + vCreated))
-	if err != nil {
+	vTime, err := strconv.ParseInt(parts[1], 10, 64)
+	if err != nil || vTime <= 0 {
 		return
 	}
 
-	if hex.EncodeToString(h.Sum(nil)) != vHash {
+	vCreated := time.Unix(0, vTime)
+
+	// only exactly the text that signing makes is valid
+	expected, ok := EncodeSecureValue(vRaw, secretKey, vCreated)
+	if !ok || !hmac.Equal([]byte(expected), []byte(value)) {
+		ok = false
 		return
 	}
 
 	raw = vRaw
-	createdAt = time.Unix(0, vTime)
-	ok = true
+	createdAt = vCreated
 	return
 }
 
@@ -74,15 +66,17 @@ func EncodeSecureValue(raw string, secretKey string, createdAt time.Time) (value
 
 	timeValue := strconv.FormatInt(createdAt.UnixNano(), 10)
 
+	// sign value and time with a separator that is in none of them
+	src := url.QueryEscape(raw) + COOKIE_VALUE_SPLIT + timeValue
+
 	h := hmac.New(sha1.New, []byte(secretKey))
-	if _, err := h.Write([]byte(raw + timeValue)); err != nil {
+	if _, err := h.Write([]byte(src)); err != nil {
 		return
 	}
 
 	hash := hex.EncodeToString(h.Sum(nil))
 
-	src := url.QueryEscape(raw)
-	src += COOKIE_VALUE_SPLIT + timeValue + COOKIE_VALUE_SPLIT + hash
+	src += COOKIE_VALUE_SPLIT + hash
 
 	value = base64.URLEncoding.EncodeToString([]byte(src))
 	ok = true
-- 
2.43.0


From 9e74bcce8c39a63ad23da98e7259a7ff957c2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 49/65] fix: a signed value without parts is no remember cookie

---
 sessions/remember.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sessions/remember.go b/sessions/remember.go
index 490ae59..a0faef5 100755
--- a/sessions/remember.go
+++ b/sessions/remember.go
@@ -27,6 +27,7 @@ func (m *SessionManager) HasRemember(config *CookieConfig, r *http.Request) (psk
 
 	parts := strings.SplitN(value, COOKIE_VALUE_PARTS_SPLIT, 2)
 	if len(parts) != 2 {
+		ok = false
 		return
 	}
 
-- 
2.43.0


From 4a97c6da027229c1dad02a985d4afdeb81c54bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 50/65] fix: keep memcached entries with a lifetime over 30
 days

---
 caches/provider_memcache.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index 07e6b7b..b7e5e46 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -1,10 +1,16 @@
 package caches
 
 import (
+	"math"
+	"time"
+
 	"github.com/bradfitz/gomemcache/memcache"
 	"github.com/wujiu2020/strip/utils"
 )
 
+// memcached takes a larger expiration for a unix timestamp
+const mcMaxRelative = 30 * 24 * time.Hour
+
 type McConfig struct {
 	KeyPrefix string
 	Client    *memcache.Client
@@ -39,7 +45,7 @@ func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error)
 	err = p.Client.Set(&memcache.Item{
 		Key:        key,
 		Value:      []byte(utils.ToStr(val)),
-		Expiration: int32(timeout.Seconds()),
+		Expiration: mcExpiration(timeout),
 	})
 	return
 }
@@ -47,7 +53,7 @@ func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error)
 func (p *mcProvide) Touch(key string, params ...int) (err error) {
 	key = p.KeyPrefix + key
 	timeout := getTimeoutDur(params...)
-	err = p.Client.Touch(key, int32(timeout.Seconds()))
+	err = p.Client.Touch(key, mcExpiration(timeout))
 	err = p.handleError(err)
 	return
 }
@@ -105,3 +111,14 @@ func (p *mcProvide) handleError(err error) error {
 	}
 	return err
 }
+
+func mcExpiration(timeout time.Duration) int32 {
+	if timeout <= mcMaxRelative {
+		return int32(timeout.Seconds())
+	}
+	at := time.Now().Add(timeout).Unix()
+	if at > math.MaxInt32 {
+		at = math.MaxInt32
+	}
+	return int32(at)
+}
-- 
2.43.0


From d3ec38a875baea9fd29e0b322a726ada1b0295c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 51/65] fix: read memcached numbers without padding

---
 caches/provider_memcache.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index b7e5e46..3a55e89 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -1,6 +1,7 @@
 package caches
 
 import (
+	"bytes"
 	"math"
 	"time"
 
@@ -11,6 +12,9 @@ import (
 // memcached takes a larger expiration for a unix timestamp
 const mcMaxRelative = 30 * 24 * time.Hour
 
+// item flag of numbers: memcached pads them with spaces when decr makes them shorter
+const mcNumberFlag = 1
+
 type McConfig struct {
 	KeyPrefix string
 	Client    *memcache.Client
@@ -35,18 +39,26 @@ func (p *mcProvide) Get(key string) (value utils.StrTo, err error) {
 		err = p.handleError(err)
 		return
 	}
-	value = utils.StrTo(string(item.Value))
+	data := item.Value
+	if item.Flags == mcNumberFlag {
+		data = bytes.TrimRight(data, " ")
+	}
+	value = utils.StrTo(string(data))
 	return
 }
 
 func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error) {
 	key = p.KeyPrefix + key
 	timeout := getTimeoutDur(params...)
-	err = p.Client.Set(&memcache.Item{
+	item := &memcache.Item{
 		Key:        key,
 		Value:      []byte(utils.ToStr(val)),
 		Expiration: mcExpiration(timeout),
-	})
+	}
+	if isNumber(item.Value) {
+		item.Flags = mcNumberFlag
+	}
+	err = p.Client.Set(item)
 	return
 }
 
@@ -122,3 +134,12 @@ func mcExpiration(timeout time.Duration) int32 {
 	}
 	return int32(at)
 }
+
+func isNumber(data []byte) bool {
+	for _, c := range data {
+		if c < '0' || c > '9' {
+			return false
+		}
+	}
+	return len(data) > 0
+}
-- 
2.43.0


From 40522602ec205e0e7f3e624093375f28fcecc122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 52/65] fix: let redis Touch with a negative timeout keep the
 key

---
 caches/provider_redis.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/caches/provider_redis.go b/caches/provider_redis.go
index eff26b0..09dbddb 100755
--- a/caches/provider_redis.go
+++ b/caches/provider_redis.go
@@ -6,6 +6,9 @@ import (
 	"github.com/wujiu2020/strip/utils"
 )
 
+// make the key never expire, 0 when it does not exist
+const redisPersist = `if redis.call('EXISTS', KEYS[1]) == 0 then return 0 end redis.call('PERSIST', KEYS[1]) return 1`
+
 type RedisConfig struct {
 	KeyPrefix string
 	Client    *pool.Pool
@@ -71,7 +74,12 @@ func (p *redisProvide) Touch(key string, params ...int) (err error) {
 	}
 	defer p.Client.Put(conn)
 
-	resp := conn.Cmd("EXPIRE", key, timeout.Seconds())
+	var resp *redis.Resp
+	if timeout > 0 {
+		resp = conn.Cmd("EXPIRE", key, timeout.Seconds())
+	} else {
+		resp = conn.Cmd("EVAL", redisPersist, 1, key)
+	}
 	touched, err := resp.Int()
 	if err != nil {
 		err = p.handleError(err)
-- 
2.43.0


From 9c114d0504f7099460c69c53efe3af23a6ea8187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 53/65] fix: report misses of redis Incr and Decr

---
 caches/provider_redis.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/caches/provider_redis.go b/caches/provider_redis.go
index 09dbddb..af7d83a 100755
--- a/caches/provider_redis.go
+++ b/caches/provider_redis.go
@@ -6,8 +6,13 @@ import (
 	"github.com/wujiu2020/strip/utils"
 )
 
-// make the key never expire, 0 when it does not exist
-const redisPersist = `if redis.call('EXISTS', KEYS[1]) == 0 then return 0 end redis.call('PERSIST', KEYS[1]) return 1`
+const (
+	// make the key never expire, 0 when it does not exist
+	redisPersist = `if redis.call('EXISTS', KEYS[1]) == 0 then return 0 end redis.call('PERSIST', KEYS[1]) return 1`
+
+	// add to the value of an existing key, nil when it does not exist
+	redisIncrBy = `if redis.call('EXISTS', KEYS[1]) == 0 then return nil end return redis.call('INCRBY', KEYS[1], ARGV[1])`
+)
 
 type RedisConfig struct {
 	KeyPrefix string
@@ -113,30 +118,23 @@ func (p *redisProvide) Delete(key string) (err error) {
 }
 
 func (p *redisProvide) Incr(key string, params ...int) (err error) {
-	key = p.KeyPrefix + key
 	cnt := 1
 	if len(params) > 0 {
 		cnt = params[0]
 	}
-
-	conn, err := p.Client.Get()
-	if err != nil {
-		return
-	}
-	defer p.Client.Put(conn)
-
-	resp := conn.Cmd("INCRBY", key, cnt)
-	err = resp.Err
-	err = p.handleError(err)
-	return
+	return p.incrBy(key, cnt)
 }
 
 func (p *redisProvide) Decr(key string, params ...int) (err error) {
-	key = p.KeyPrefix + key
 	cnt := 1
 	if len(params) > 0 {
 		cnt = params[0]
 	}
+	return p.incrBy(key, -cnt)
+}
+
+func (p *redisProvide) incrBy(key string, cnt int) (err error) {
+	key = p.KeyPrefix + key
 
 	conn, err := p.Client.Get()
 	if err != nil {
@@ -144,8 +142,11 @@ func (p *redisProvide) Decr(key string, params ...int) (err error) {
 	}
 	defer p.Client.Put(conn)
 
-	resp := conn.Cmd("DECRBY", key, cnt)
+	resp := conn.Cmd("EVAL", redisIncrBy, 1, key, cnt)
 	err = resp.Err
+	if resp.IsType(redis.Nil) {
+		err = redis.ErrRespNil
+	}
 	err = p.handleError(err)
 	return
 }
-- 
2.43.0


From f4907f5646e35495b6c2ab40bac5543e0e7ee9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 54/65] fix: treat expired mgo documents as missing in every
 operation

---
 caches/provider_mgo.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/caches/provider_mgo.go b/caches/provider_mgo.go
index 95d82b1..03f21b7 100755
--- a/caches/provider_mgo.go
+++ b/caches/provider_mgo.go
@@ -107,9 +107,7 @@ func (p *mgoProvide) Touch(key string, params ...int) (err error) {
 		timeout := getTimeoutDurEx(params...)
 		expiredAt := time.Now().Add(timeout)
 
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.selectLive(key), bson.M{
 			"$set": bson.M{
 				p.config.ExpiredAtField: expiredAt,
 			},
@@ -122,9 +120,7 @@ func (p *mgoProvide) Touch(key string, params ...int) (err error) {
 
 func (p *mgoProvide) Delete(key string) (err error) {
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Remove(bson.M{
-			p.config.KeyField: key,
-		})
+		er := c.Remove(p.selectLive(key))
 		return er
 	})
 	err = p.handleError(err)
@@ -138,9 +134,7 @@ func (p *mgoProvide) Incr(key string, params ...int) (err error) {
 	}
 
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.selectLive(key), bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
 			},
@@ -158,9 +152,7 @@ func (p *mgoProvide) Decr(key string, params ...int) (err error) {
 	}
 
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.selectLive(key), bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
 			},
@@ -217,6 +209,16 @@ func (p *mgoProvide) fetchValues(key string) (values map[string]interface{}, err
 	return values, err
 }
 
+// select the key when it has not expired yet
+func (p *mgoProvide) selectLive(key string) bson.M {
+	return bson.M{
+		p.config.KeyField: key,
+		p.config.ExpiredAtField: bson.M{
+			"$gt": time.Now(),
+		},
+	}
+}
+
 func (p *mgoProvide) getValue(values map[string]interface{}) (value interface{}, ok bool) {
 	if values == nil {
 		return
-- 
2.43.0


From 96ff6d5716a3b34fc6231a50523d72cc1ec1bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 55/65] fix: do not share the initial values between sessions

---
 sessions/provider.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 6f3bd23..5a09807 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -23,15 +23,15 @@ type sessStore struct {
 
 func newSessStore(sid string, params ...map[string]interface{}) *sessStore {
 	store := &sessStore{
-		Sid: sid,
+		Sid:    sid,
+		Values: make(map[string]interface{}),
 	}
 
+	// keep an own copy, params can be shared by sessions
 	if len(params) > 0 {
-		store.Values = params[0]
-	}
-
-	if store.Values == nil {
-		store.Values = make(map[string]interface{})
+		for key, value := range params[0] {
+			store.Values[key] = value
+		}
 	}
 	return store
 }
-- 
2.43.0


From db319fc4432859b92c8ec5c659b23cee690c4b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 56/65] fix: keep session changes pending when saving fails

---
 sessions/provider.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 5a09807..9b6fbee 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -113,8 +113,12 @@ func (m *sessData) Flush() error {
 		return nil
 	}
 
+	err := m.provider.save(m.store)
+	if err != nil {
+		return err
+	}
 	m.changed = false
-	return m.provider.save(m.store)
+	return nil
 }
 
 // destory session values in store
-- 
2.43.0


From f1d55c7d48d84d235007e6f1ea9ea290e5ec47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 57/65] fix: report backend errors of Regenerate

---
 sessions/manager.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sessions/manager.go b/sessions/manager.go
index 788bbec..a5aed33 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -112,13 +112,12 @@ func (m *SessionManager) Regenerate(config *CookieConfig, w http.ResponseWriter,
 	sid := CreateSid()
 	sess, err = m.provider.Regenerate(oldsid, sid)
 
-	switch err {
-	case ErrNotFoundSession:
+	if err == ErrNotFoundSession {
 		// 未找到时创建新的
 		sess, err = m.createSession(sid, params...)
-		if err != nil {
-			return
-		}
+	}
+	if err != nil {
+		return
 	}
 
 	createdAt = time.Now()
-- 
2.43.0


From 012387b9c09224d86e44d938fef134950652cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 58/65] fix: report when the old session id stays usable

---
 sessions/provider.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 9b6fbee..4e77540 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -187,8 +187,17 @@ func (p *sessProvide) Regenerate(old string, sid string) (sess SessionStore, err
 		return
 	}
 
-	p.Destroy(old)
-	return p.Read(sid)
+	// the old session is only given up when the new one is usable
+	sess, err = p.Read(sid)
+	if err != nil {
+		return
+	}
+
+	err = p.Destroy(old)
+	if err == caches.ErrMissedKey {
+		err = nil
+	}
+	return
 }
 
 func (p *sessProvide) Destroy(sid string) (err error) {
-- 
2.43.0


From 7837980e17f3ecfe6e9e80e80257b5a438af5382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 59/65] fix: report sessions that could not be destroyed

---
 sessions/manager.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sessions/manager.go b/sessions/manager.go
index a5aed33..8cb2e26 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -5,6 +5,8 @@ import (
 	"net/http"
 	"net/url"
 	"time"
+
+	"github.com/wujiu2020/strip/caches"
 )
 
 type SessionManager struct {
@@ -76,8 +78,11 @@ func (m *SessionManager) Destroy(config *CookieConfig, w http.ResponseWriter, r
 		return nil
 	}
 
-	// error can secure skip
-	_ = m.provider.Destroy(sid)
+	// nothing to destroy is not an error
+	err := m.provider.Destroy(sid)
+	if err == caches.ErrMissedKey || err == ErrNotFoundSession {
+		err = nil
+	}
 
 	cookie := &http.Cookie{
 		Name:     config.CookieName,
@@ -91,7 +96,7 @@ func (m *SessionManager) Destroy(config *CookieConfig, w http.ResponseWriter, r
 
 	http.SetCookie(w, cookie)
 
-	return nil
+	return err
 }
 
 // 为现有的session数据更换sid
-- 
2.43.0


From d76a17975ff540e906b722b1c0ef275ee5c94a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 60/65] fix: report every worker error and do not wait for a
 slot under the lock

---
 utils/worker.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index dd68468..5802d0d 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -26,16 +26,18 @@ func (w *Worker) RunTask(task interface{}) {
 		return
 	}
 	w.wg.Add(1)
-	w.pools <- true
 	w.rw.RUnlock()
 
+	w.pools <- true
 	go w.run(task)
 }
 
 func (w *Worker) Wait() (err error) {
 	w.wg.Wait()
+	w.rw.Lock()
 	err = w.err
 	w.err = nil
+	w.rw.Unlock()
 	return
 }
 
@@ -52,15 +54,15 @@ func (w *Worker) run(task interface{}) {
 		w.done()
 	case func() error:
 		err := t()
-		w.done()
 		if err != nil {
 			w.rw.Lock()
-			if !w.closed {
-				w.close()
+			w.close()
+			if w.err == nil {
 				w.err = err
 			}
 			w.rw.Unlock()
 		}
+		w.done()
 	}
 }
 
@@ -70,11 +72,7 @@ func (w *Worker) done() {
 }
 
 func (w *Worker) close() {
-	if w.closed {
-		return
-	}
 	w.closed = true
-	close(w.pools)
 }
 
 func NewWorker(nums int) *Worker {
-- 
2.43.0


From 266a65c5f69871d760f32fe09937cbba371b993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 61/65] fix: let tasks be given to a worker while others wait

---
 utils/worker.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index 5802d0d..51ad95d 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -11,30 +11,36 @@ import (
 // woker 在 wait 结束后，可以再次使用 RunTask 增加 task
 type Worker struct {
 	rw     sync.RWMutex
-	wg     sync.WaitGroup
 	err    error
 	closed bool
 
+	// 未完成的 task 数量，sync.WaitGroup 不允许 Wait 时从零开始 Add
+	tasks  int
+	rounds int
+	idle   *sync.Cond
+
 	// 这个场景只考虑限制并发，不考虑 goroutine 复用
 	pools chan bool
 }
 
 func (w *Worker) RunTask(task interface{}) {
-	w.rw.RLock()
+	w.rw.Lock()
 	if w.closed {
-		w.rw.RUnlock()
+		w.rw.Unlock()
 		return
 	}
-	w.wg.Add(1)
-	w.rw.RUnlock()
+	w.tasks++
+	w.rw.Unlock()
 
 	w.pools <- true
 	go w.run(task)
 }
 
 func (w *Worker) Wait() (err error) {
-	w.wg.Wait()
 	w.rw.Lock()
+	for n := w.rounds; w.tasks > 0 && n == w.rounds; {
+		w.idle.Wait()
+	}
 	err = w.err
 	w.err = nil
 	w.rw.Unlock()
@@ -68,7 +74,12 @@ func (w *Worker) run(task interface{}) {
 
 func (w *Worker) done() {
 	<-w.pools
-	w.wg.Done()
+	w.rw.Lock()
+	if w.tasks--; w.tasks == 0 {
+		w.rounds++
+		w.idle.Broadcast()
+	}
+	w.rw.Unlock()
 }
 
 func (w *Worker) close() {
@@ -78,5 +89,6 @@ func (w *Worker) close() {
 func NewWorker(nums int) *Worker {
 	wk := new(Worker)
 	wk.pools = make(chan bool, nums)
+	wk.idle = sync.NewCond(&wk.rw)
 	return wk
 }
-- 
2.43.0


From 611be7db7bf28fa1ef35aa49c9bd5eb9c3fa9cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 62/65] fix: cache lifetimes beyond 292 years no longer
 overflow into the past

---
 caches/caches.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/caches/caches.go b/caches/caches.go
index 37cb4a2..c526245 100755
--- a/caches/caches.go
+++ b/caches/caches.go
@@ -2,6 +2,7 @@ package caches
 
 import (
 	"errors"
+	"math"
 	"time"
 
 	"github.com/wujiu2020/strip/utils"
@@ -9,6 +10,9 @@ import (
 
 const (
 	DefaultTimeout = time.Minute
+
+	// more seconds do not fit into a time.Duration
+	maxTimeoutSeconds = math.MaxInt64 / time.Second
 )
 
 var (
@@ -32,8 +36,11 @@ func getTimeoutDur(params ...int) time.Duration {
 	if len(params) > 0 {
 		switch {
 		case params[0] > 0:
-			timeout = time.Duration(params[0]) * time.Second
-			return timeout
+			timeout = time.Duration(params[0])
+			if timeout > maxTimeoutSeconds {
+				timeout = maxTimeoutSeconds
+			}
+			return timeout * time.Second
 		default:
 			timeout = time.Duration(params[0])
 		}
-- 
2.43.0


From 46c7274490edd4f8f20c1349e00fe876118161a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 63/65] fix: session and remember lifetimes beyond 292 years no
 longer overflow into the past

---
 sessions/utils.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sessions/utils.go b/sessions/utils.go
index aaec91b..5ec6999 100755
--- a/sessions/utils.go
+++ b/sessions/utils.go
@@ -5,6 +5,7 @@ import (
 	"crypto/sha1"
 	"encoding/base64"
 	"encoding/hex"
+	"math"
 	"net/http"
 	"net/url"
 	"strconv"
@@ -118,5 +119,11 @@ func getCookie(cookies []*http.Cookie, name string) (cookie *http.Cookie, ok boo
 }
 
 func int2SecsDuration(t int) time.Duration {
-	return time.Duration(t) * time.Second
+	// more seconds do not fit into a time.Duration
+	const max = math.MaxInt64 / time.Second
+	secs := time.Duration(t)
+	if secs > max {
+		secs = max
+	}
+	return secs * time.Second
 }
-- 
2.43.0


From 77a1483bee099f096a842a543e113154fdf65d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 64/65] fix: ServeFilter refuses an empty directory, as it
 says, instead of serving the working directory

---
 static-serve/static.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/static-serve/static.go b/static-serve/static.go
index 67904b4..7068ab4 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -24,12 +24,12 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 		opt = opts[0]
 	}
 
-	directory, _ = filepath.Abs(directory)
-
 	if directory == "" {
 		panic("directory can not be empty")
 	}
 
+	directory, _ = filepath.Abs(directory)
+
 	dir := http.Dir(directory)
 
 	// Normalize the prefix if provided
-- 
2.43.0


From 0542700e83ca7495cb26e2f1fa4fe254e08af76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:43 +0000
Subject: [PATCH 65/65] fix: filters taken over with ReplaceFilters are not
 overwritten by filters added later

---
 app_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index 4183bcb..6fd7b9b 100755
--- a/app_util.go
+++ b/app_util.go
@@ -12,7 +12,8 @@ import (
 )
 
 func ReplaceFilters(old, new *Strip) {
-	old.filters = new.filters
+	// never shares its list with filters that are added later
+	old.filters = new.filters[:len(new.filters):len(new.filters)]
 }
 
 type StrTo string
-- 
2.43.0

