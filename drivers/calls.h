// Shared by the drivers about calls: hooks of every return type over random class hierarchies, all call forms
#include "drv.h"
#include <jnivm/method.h>
#include <internal/method.h>
using namespace jnivm;
using O = std::shared_ptr<Object>;
struct TVM : VM { TVM(bool rn) : VM(true, rn) { initialize(); } };
struct Rec { int hook = -1; void* env = nullptr; void* recv = nullptr; std::vector<uint64_t> a; };
static std::vector<Rec> LOG_; static bool THROW_ = false; static jvalue RES_; static O RESO_; struct Boom { int id; };
template<class T> static uint64_t bits(const T& v) { uint64_t x = 0; memcpy(&x, &v, sizeof v); return x; }
static uint64_t bits(const O& v) { return (uint64_t)v.get(); }
template<class J> struct JT;
#define CALLS(N, J, CH, M, RET) template<> struct JT<J> { static constexpr char code = CH; static constexpr const char* name = #N; using H = J; \
    static J hook() { return (J)(RET); } \
    static J cA(JNIEnv* e, jobject o, jmethodID m, jvalue* a) { return e->functions->Call##N##MethodA(e, o, m, a); } \
    static J cV(JNIEnv* e, jobject o, jmethodID m, ...) { va_list l; va_start(l, m); struct G { va_list& l; ~G() { va_end(l); } } g{ l }; return e->functions->Call##N##MethodV(e, o, m, l); } \
    template<class...X> static J cE(JNIEnv* e, jobject o, jmethodID m, X...x) { return e->functions->Call##N##Method(e, o, m, x...); } \
    static J nA(JNIEnv* e, jobject o, jclass c, jmethodID m, jvalue* a) { return e->functions->CallNonvirtual##N##MethodA(e, o, c, m, a); } \
    static J nV(JNIEnv* e, jobject o, jclass c, jmethodID m, ...) { va_list l; va_start(l, m); struct G { va_list& l; ~G() { va_end(l); } } g{ l }; return e->functions->CallNonvirtual##N##MethodV(e, o, c, m, l); } \
    template<class...X> static J nE(JNIEnv* e, jobject o, jclass c, jmethodID m, X...x) { return e->functions->CallNonvirtual##N##Method(e, o, c, m, x...); } \
    static J sA(JNIEnv* e, jclass o, jmethodID m, jvalue* a) { return e->functions->CallStatic##N##MethodA(e, o, m, a); } \
    static J sV(JNIEnv* e, jclass o, jmethodID m, ...) { va_list l; va_start(l, m); struct G { va_list& l; ~G() { va_end(l); } } g{ l }; return e->functions->CallStatic##N##MethodV(e, o, m, l); } \
    template<class...X> static J sE(JNIEnv* e, jclass o, jmethodID m, X...x) { return e->functions->CallStatic##N##Method(e, o, m, x...); } }
CALLS(Boolean, jboolean, 'Z', z, RES_.z); CALLS(Byte, jbyte, 'B', b, RES_.b); CALLS(Char, jchar, 'C', c, RES_.c); CALLS(Short, jshort, 'S', s, RES_.s); CALLS(Int, jint, 'I', i, RES_.i); CALLS(Long, jlong, 'J', j, RES_.j); CALLS(Float, jfloat, 'F', f, RES_.f); CALLS(Double, jdouble, 'D', d, RES_.d); CALLS(Void, void, 'V', l, 0);
CALLS(Object, jobject, 'L', l, RES_.l);
template<class J> struct HR { using T = J; static T get() { return JT<J>::hook(); } };
template<> struct HR<jobject> { using T = O; static T get() { return RESO_; } };
template<class J> static std::string rsig() { return JT<J>::code == 'L' ? "Ljava/lang/Object;" : std::string(1, JT<J>::code); }
template<class J> struct Res { bool ok = true; template<class F> void run(F f) { J r = f(); J x = JT<J>::hook(); ok = memcmp(&r, &x, sizeof r) == 0; } void jv(jvalue q) { J o; memcpy((void*)&o, &q, sizeof o); run([&] { return o; }); } };
template<> struct Res<void> { bool ok = true; template<class F> void run(F f) { f(); } void jv(jvalue) {} };
// a random value of a parameter type
struct Val { jvalue v; O o; };
static jvalue rndjv() { jvalue v; uint64_t x = ((uint64_t)drv::rng() << 32) | drv::rng(); if(drv::rnd(2) == 0) switch(drv::rnd(8)) { case 0: x = 0; break; case 1: x = ~0ull; break; case 2: x &= 0xffffffff00000000ull; break; case 3: x &= 0xffffffffull; break; case 4: x = 1ull << drv::rnd(64); break; case 5: x = (1ull << drv::rnd(64)) - 1; break; case 6: x = ~0ull << drv::rnd(64); break; default: x &= 0xff; } v.j = (jlong)x; return v; }
