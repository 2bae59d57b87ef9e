From b8bd63e0a63611c3dc7ad14c34c8dcaa59d795d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:52 +0000
Subject: [PATCH 01/16] fix: FromReflectedMethod and FromReflectedField resolve
 global and weak handles before turning them into an ID

---
 src/jnivm/vm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index b27b9d2..a5d97e5 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -33,14 +33,14 @@ jclass FindClass(JNIEnv *env, const char *name) {
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
 	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Method"))) {
-		return (jmethodID) obj;
+		return (jmethodID) JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj).get();
 	} else {
 		return nullptr;
 	}
 };
 jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
 	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Field"))) {
-		return (jfieldID) obj;
+		return (jfieldID) JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj).get();
 	} else {
 		return nullptr;
 	}
-- 
2.43.0


From 838cf936499a437cbaaa3695eed5486407d5f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:52 +0000
Subject: [PATCH 02/16] fix: NewObjectArray stores the object its initial
 element handle resolves to, not the handle itself

---
 src/jnivm/internal/array.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index d220630..a41f2ec 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -14,8 +14,9 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     auto arr = cl->InstantiateArray ? cl->InstantiateArray(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
     arr->clazz = std::move(cl);
     if(init) {
+        auto obj = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), init);
         for (jsize i = 0; i < length; i++) {
-            (*arr)[i] = (*(Object*)init).shared_from_this();
+            (*arr)[i] = obj;
         }
     }
     return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
-- 
2.43.0


From b8c1f0511220541315edee322987890aab1f4e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:52 +0000
Subject: [PATCH 03/16] fix: New<Type>Array no longer leaks the temporary
 buffer it copied from

---
 src/jnivm/internal/array.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index a41f2ec..5d37a4f 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -29,7 +29,8 @@ void jnivm::SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject
 }
 
 template <class T> typename JNITypes<T>::Array jnivm::NewArray(JNIEnv * env, jsize length) {
-    auto arr = length ? std::make_shared<Array<T>>(new T[length] {0}, length) : std::make_shared<Array<T>>(0);
+    auto arr = std::make_shared<Array<T>>(length);
+    memset(arr->getArray(), 0, sizeof(T) * length);
     arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
     return JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
 }
-- 
2.43.0


From 64d952e602a8a3dc73302920cdda05195c9252e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:16 +0000
Subject: [PATCH 04/16] fix: GetObjectClass and IsInstanceOf treat a collected
 weak reference as null instead of dereferencing it

---
 src/jnivm/vm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index a5d97e5..5a1bc1b 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -239,10 +239,12 @@ jobject AllocObject(JNIEnv *env, jclass cl) {
 };
 
 jclass GetObjectClass(JNIEnv *env, jobject jo) {
-	return jo ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo)->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
+	auto obj = JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo);
+	return obj ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), obj->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
 };
 jboolean IsInstanceOf(JNIEnv *env, jobject jo, jclass cl) {
-	return jo && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
+	auto obj = JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo);
+	return obj && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
 };
 
 #include "internal/method.h"
-- 
2.43.0


From aec63494dcc98651a92b59d50b293249b58f0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 05/16] fix: skipping a type of a truncated signature no longer
 runs past its end

---
 src/jnivm/internal/jValuesfromValist.cpp | 8 +++++++-
 src/jnivm/internal/skipJNIType.cpp       | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/jnivm/internal/jValuesfromValist.cpp b/src/jnivm/internal/jValuesfromValist.cpp
index afacbfe..250cbfc 100644
--- a/src/jnivm/internal/jValuesfromValist.cpp
+++ b/src/jnivm/internal/jValuesfromValist.cpp
@@ -48,7 +48,13 @@ std::vector<jvalue> jnivm::JValuesfromValist(va_list list, const char* signature
 				values.back().d = va_arg(list, jdouble);
 				break;
 		case '[':
-				signature = jnivm::SkipJNIType(signature + 1, end) - 1;
+				while(*signature == '[') {
+					signature++;
+				}
+				if(*signature == 'L' && std::find(signature, end, ';') == end) {
+					throw std::invalid_argument("Signature missing ';' after 'L'");
+				}
+				signature = jnivm::SkipJNIType(signature, end) - 1;
 				values.back().l = va_arg(list, jobject);
 				break;
 		case 'L':
diff --git a/src/jnivm/internal/skipJNIType.cpp b/src/jnivm/internal/skipJNIType.cpp
index adec7d6..cc7955f 100644
--- a/src/jnivm/internal/skipJNIType.cpp
+++ b/src/jnivm/internal/skipJNIType.cpp
@@ -2,6 +2,7 @@
 #include <algorithm>
 
 const char * jnivm::SkipJNIType(const char *cur, const char *end) {
+    if(cur == end) return end;
     switch (*cur) {
     case 'V':
             // Void has size 0 ignore it
@@ -16,10 +17,10 @@ const char * jnivm::SkipJNIType(const char *cur, const char *end) {
     case 'D':
             break;
     case '[':
-            cur = SkipJNIType(cur + 1, end) - 1;
-            break;
+            return SkipJNIType(cur + 1, end);
     case 'L':
             cur = std::find(cur, end, ';');
+            if(cur == end) return end;
             break;
     case '(':
             return SkipJNIType(cur + 1, end);
-- 
2.43.0


From 93ec09fbdbfa4ee93adcf0731b13a36a1bdd2313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 06/16] fix: Declare stops at an unterminated class name
 instead of running past the end of the signature

---
 src/jnivm/internal/findclass.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index dd71499..5f8c4d9 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -108,6 +108,7 @@ void jnivm::Declare(JNIEnv *env, const char *signature) {
 			cur++) {
 		if (*cur == 'L') {
 			auto cend = std::find(cur, end, ';');
+			if(cend == end) break;
 			std::string classpath(cur + 1, cend);
 			InternalFindClass(env, classpath.data());
 			cur = cend;
-- 
2.43.0


From 14db45d0259d51ee3f48963890dab5b0deae2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:54 +0000
Subject: [PATCH 07/16] fix: arrays of second generation classes check and
 store elements as their own element type

---
 include/jnivm/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/jnivm/array.h b/include/jnivm/array.h
index d8782ad..a62d321 100644
--- a/include/jnivm/array.h
+++ b/include/jnivm/array.h
@@ -243,14 +243,15 @@ namespace jnivm {
 
         template<class Z, class Base, class Y, class...others> class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
             virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
-                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
+                // The elements have the type of the most derived array, which overrides the accessors of Z
+                return dynamic_cast<const Array<Z, void, false>&>(*this).Get(i, array_type_t<Z>{});
             }
             virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                 std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
                 if(val && !nval) {
                     throw std::runtime_error("Class Type Exception");
                 }
-                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;
+                dynamic_cast<Array<Z, void, false>&>(*this).Set(i, nval);
             }
         };
 
-- 
2.43.0


From 577371cedc37e26e44586ea37f2611f54321a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:54 +0000
Subject: [PATCH 08/16] fix: registering a native again replaces its function
 pointer

---
 src/jnivm/vm.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 5a1bc1b..b9d7d86 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -11,6 +11,7 @@
 #include <climits>
 #include "internal/log.h"
 #include <jnivm/weak.h>
+#include <algorithm>
 #include <stdexcept>
 
 using namespace jnivm;
@@ -268,11 +269,19 @@ jint RegisterNatives(JNIEnv *env, jclass c, const JNINativeMethod *method, jint
 			ss << "Class \"" << clazz->nativeprefix << "\" registred native method: " << method->name << " signature: " << method->signature;
 			LOG("JNIVM", "%s", ss.str().data());
 #endif
-			auto m = std::make_shared<Method>();
-			m->name = method->name;
-			m->signature = method->signature;
-			m->native = method->fnPtr;
-			clazz->methods.push_back(m);
+			// Registering a native again replaces its function pointer
+			auto existing = std::find_if(clazz->methods.begin(), clazz->methods.end(), [method](std::shared_ptr<Method> &m) {
+				return !m->_static && m->native && m->name == method->name && m->signature == method->signature;
+			});
+			if(existing != clazz->methods.end()) {
+				(*existing)->native = method->fnPtr;
+			} else {
+				auto m = std::make_shared<Method>();
+				m->name = method->name;
+				m->signature = method->signature;
+				m->native = method->fnPtr;
+				clazz->methods.push_back(m);
+			}
 			method++;
 		}
 	}
-- 
2.43.0


From c30ce883c31fafbe0e2ea5367d9177ebbd097731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:46 +0000
Subject: [PATCH 09/16] fix: virtual and non-virtual calls find the overload
 inherited by the class

---
 src/jnivm/internal/method.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a9fe678..c66f9da 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -179,13 +179,25 @@ static Method* findNonVirtualOverload(Class*cl, Method*mid) {
     }
 }
 
-static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
+// Nearest hooked overload in the class or its base classes, nullptr if there is none
+static Method* findInheritedOverload(jnivm::ENV *env, Class*cl, Method*mid) {
     auto r = findNonVirtualOverload(cl, mid);
-    if(r != nullptr) {
-        return r;
-    } else {
-        return findVirtualOverload(env, mid->GetBaseClasses(env)[0].get(), mid);
+    if(r == nullptr && cl->baseclasses) {
+        for(auto&& base : cl->baseclasses(env)) {
+            if(base) {
+                r = findInheritedOverload(env, base.get(), mid);
+                if(r != nullptr) {
+                    break;
+                }
+            }
+        }
     }
+    return r;
+}
+
+static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
+    auto r = findInheritedOverload(env, cl, mid);
+    return r != nullptr ? r : mid;
 }
 
 template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {
@@ -263,7 +275,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
-        mid = findNonVirtualOverload(clz.get(), mid);
+        mid = findVirtualOverload(ENV::FromJNIEnv(env), clz.get(), mid);
         try {
             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
-- 
2.43.0


From e82a9c565bc90dca62062dfe6e2386542b245634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:23 +0000
Subject: [PATCH 10/16] fix: a thrown throwable without a c++ exception crashed
 ExceptionDescribe and Method::invoke

---
 src/jnivm/vm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index b9d7d86..2620fce 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -82,6 +82,10 @@ jobject ToReflectedField(JNIEnv * env, jclass c, jfieldID fid, jboolean isStatic
 };
 jint Throw(JNIEnv *env, jthrowable ex) {
 	auto except = JNITypes<std::shared_ptr<jnivm::Throwable>>::JNICast(ENV::FromJNIEnv(env), ex);
+	if(except && !except->except) {
+		// Created by a java constructor, doesn't carry a c++ exception to rethrow yet
+		except->except = std::make_exception_ptr(std::runtime_error("Uncaught java exception"));
+	}
 	(ENV::FromJNIEnv(env))->current_exception = except ? except : nullptr;
 	return 0;
 };
-- 
2.43.0


From 7310c29e8bfd9f162325422fef6f2314bd1ed4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 11/16] fix: an unhooked call returning boolean[] returns an
 empty boolean array

---
 src/jnivm/internal/method.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index c66f9da..7cb41cd 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -99,6 +99,8 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
             switch (signature[off + 2])
             {
+            case 'Z':
+                return env->GetJNIEnv()->NewBooleanArray(0);
             case 'B':
                 return env->GetJNIEnv()->NewByteArray(0);
             case 'S':
-- 
2.43.0


From 4cae6b2f7d9f990de2ebae020e8824419d551669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 12/16] fix: an unhooked call returning a multi-dimensional
 array returns an array of the declared dimension

---
 src/jnivm/internal/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 7cb41cd..a6f0793 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -117,7 +117,7 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
                 return env->GetJNIEnv()->NewDoubleArray(0);
             case 'L':
             case '[':
-                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 1]), nullptr);
+                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]), nullptr);
             default:
 #ifdef JNI_TRACE
             LOG("JNIVM", "Constructing array=`%s` failed unknown type", &signature.data()[off + 1]);
-- 
2.43.0


From c71a0da37d9af2d3a1d115cedaabb5fa8f112aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 13/16] fix: an unhooked call returning an array of a class not
 looked up before crashed when FindClass returns null for unknown classes

---
 src/jnivm/internal/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a6f0793..c428889 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -117,7 +117,7 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
                 return env->GetJNIEnv()->NewDoubleArray(0);
             case 'L':
             case '[':
-                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]), nullptr);
+                return env->GetJNIEnv()->NewObjectArray(0, InternalFindClass(env->GetJNIEnv(), signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]), nullptr);
             default:
 #ifdef JNI_TRACE
             LOG("JNIVM", "Constructing array=`%s` failed unknown type", &signature.data()[off + 1]);
-- 
2.43.0


From 9fee48dc44cba60eb65f7ffb27113391e3e04db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:29 +0000
Subject: [PATCH 14/16] fix: don't load a library again that is already
 attached

Attaching an attached path opened the library once more and called its
JNI_OnLoad, just to call JNI_OnUnload and close it right away.
---
 src/fake-jni/fake-jni.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index a06bc77..f134e9a 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -88,7 +88,10 @@ FakeJni::Jvm::libinst::~libinst() {
 }
 
 void FakeJni::Jvm::attachLibrary(const std::string &rpath, const std::string &options, FakeJni::LibraryOptions loptions) {
-	libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });
+	// Don't load a library twice, constructing another libinst would call JNI_OnLoad and JNI_OnUnload again
+	if(libraries.find(rpath) == libraries.end()) {
+		libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });
+	}
 }
 
 void FakeJni::Jvm::removeLibrary(const std::string &rpath, const std::string &options) {
-- 
2.43.0


From 744eac47c7c090d711a237e3da92b51256577378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:49 +0000
Subject: [PATCH 15/16] fix: deny rules with a name were not matched by an
 empty or null name

isMethodDenied and isFieldDenied treat an empty or null name as a
wildcard, but looked only at the rules without a name (empty name) or
constructed a std::string from a null pointer (null name).
---
 src/baron/jvm.cpp | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/baron/jvm.cpp b/src/baron/jvm.cpp
index d933aee..0d03353 100644
--- a/src/baron/jvm.cpp
+++ b/src/baron/jvm.cpp
@@ -98,36 +98,32 @@ bool Baron::Jvm::isClassDenied(const char *name) const {
 }
 
 bool Baron::Jvm::isMethodDenied(const char *name, const char *sig, const char *clazz) const {
-    auto results = { denyMethods.equal_range(""), denyMethods.equal_range(name) };
-    for(auto && res : results) {
-        for (auto i = res.first; i != res.second; ++i) {
-            if(name && name[0] != '\0' && i->first != "" && i->first != name) {
-                continue;
-            }
-            if(sig && sig[0] != '\0' && i->second.signature != "" && i->second.signature != sig) {
-                continue;
-            }
-            if(!clazz || clazz[0] == '\0' || i->second.classname.empty() || i->second.classname == clazz) {
-                return true;
-            }
+    // an empty or null name matches any rule, so looking at the rules stored under `name` isn't enough
+    for (auto i = denyMethods.begin(); i != denyMethods.end(); ++i) {
+        if(name && name[0] != '\0' && i->first != "" && i->first != name) {
+            continue;
+        }
+        if(sig && sig[0] != '\0' && i->second.signature != "" && i->second.signature != sig) {
+            continue;
+        }
+        if(!clazz || clazz[0] == '\0' || i->second.classname.empty() || i->second.classname == clazz) {
+            return true;
         }
     }
     return false;
 }
 
 bool Baron::Jvm::isFieldDenied(const char *name, const char *sig, const char *clazz) const {
-    auto results = { denyFields.equal_range(""), denyFields.equal_range(name) };
-    for(auto && res : results) {
-        for (auto i = res.first; i != res.second; ++i) {
-            if(name && name[0] != '\0' && i->first != "" && i->first != name) {
-                continue;
-            }
-            if(sig && sig[0] != '\0' && i->second.signature != "" && i->second.signature != sig) {
-                continue;
-            }
-            if(!clazz || clazz[0] == '\0' || i->second.classname.empty() || i->second.classname == clazz) {
-                return true;
-            }
+    // an empty or null name matches any rule, so looking at the rules stored under `name` isn't enough
+    for (auto i = denyFields.begin(); i != denyFields.end(); ++i) {
+        if(name && name[0] != '\0' && i->first != "" && i->first != name) {
+            continue;
+        }
+        if(sig && sig[0] != '\0' && i->second.signature != "" && i->second.signature != sig) {
+            continue;
+        }
+        if(!clazz || clazz[0] == '\0' || i->second.classname.empty() || i->second.classname == clazz) {
+            return true;
         }
     }
     return false;
-- 
2.43.0


From 827ddc26aa1dd30f61f3a83496edd17996c6fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:49 +0000
Subject: [PATCH 16/16] fix: denyMethod and denyField crashed if a component is
 null

A null component is a wildcard, like it is for isMethodDenied and
isFieldDenied.
---
 src/baron/jvm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/baron/jvm.cpp b/src/baron/jvm.cpp
index 0d03353..8eb3c26 100644
--- a/src/baron/jvm.cpp
+++ b/src/baron/jvm.cpp
@@ -134,11 +134,11 @@ void Baron::Jvm::denyClass(const char *name) {
 }
 
 void Baron::Jvm::denyMethod(const char *name, const char *sig, const char *clazz) {
-    denyMethods.insert({name, { clazz, sig }});
+    denyMethods.insert({name ? name : "", { clazz ? clazz : "", sig ? sig : "" }});
 }
 
 void Baron::Jvm::denyField(const char *name, const char *sig, const char *clazz) {
-    denyFields.insert({name, { clazz, sig }});
+    denyFields.insert({name ? name : "", { clazz ? clazz : "", sig ? sig : "" }});
 }
 
 #include <jnivm/internal/findclass.h>
-- 
2.43.0

