#include "drv.h"
using namespace jnivm;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*) __attribute__((weak));
static long live = 0; static void onMalloc(const volatile void*, size_t) { live++; } static void onFree(const volatile void* p) { if(p) live--; }
template<class T> static T value(int i) { return (T)(i * 2654435761u + 17); }
template<class T, class A> struct Fns { const char* name; const char* cls; A (JNIEnv::*make)(jsize); T* (JNIEnv::*elems)(A, jboolean*); void (JNIEnv::*rel)(A, T*, jint); void (JNIEnv::*get)(A, jsize, jsize, T*); void (JNIEnv::*set)(A, jsize, jsize, const T*); };
template<class T, class A> static void run(const Fns<T, A>& f) {
    VM vm; auto env = vm.GetJNIEnv();
    for(int n : {0, 1, 2, 3, 7, 8, 16, 33, drv::thorough ? 4096 : 300}) {
        // dirty the allocator so that fresh storage is not zero by chance
        { std::vector<T*> junk; for(int k = 0; k < 8; k++) { auto p = new T[n + 1]; memset(p, 0xA5, sizeof(T) * (n + 1)); junk.push_back(p); } for(auto p : junk) delete[] p; }
        drv::kase("New%sArray(%d)", f.name, n); A a = (env->*f.make)(n), other = (env->*f.make)(n); CHECK(a && env->GetArrayLength(a) == n); CHECK(dynamic_cast<Array<T>*>((Object*)a)); auto c = ((Object*)a)->clazz.lock(); CHECK(c && c->nativeprefix == f.cls);
        jboolean cp = 9; T* e = (env->*f.elems)(a, &cp); CHECK(cp == 0); CHECK(n == 0 || e == ((Array<T>*)(Object*)a)->getArray()); for(int i = 0; i < n; i++) CHECK(e[i] == T(0));
        CHECK((env->*f.elems)(a, nullptr) == e); cp = 9; CHECK(env->GetPrimitiveArrayCritical(a, &cp) == (void*)e); CHECK(cp == 0); CHECK(env->GetPrimitiveArrayCritical(a, nullptr) == (void*)e); CHECK((env->*f.elems)(nullptr, nullptr) == nullptr);
        auto g = env->NewGlobalRef(a), w = (jobject)env->NewWeakGlobalRef(a); std::vector<T> model(n, T(0));
        for(int s = 0; s <= n; s += n < 20 ? 1 : 1 + drv::rnd(n / 9)) for(int l = 0; s + l <= n; l += n < 20 || (n < 1000 && l < 18) ? 1 : 1 + drv::rnd(n / 9)) {
            drv::kase("Set/Get%sArrayRegion n=%d start=%d len=%d", f.name, n, s, l); A h = s % 3 == 0 ? a : s % 3 == 1 ? (A)g : (A)w;
            std::vector<T> in(l); for(int i = 0; i < l; i++) in[i] = value<T>(s * 31 + l * 7 + i + 1); std::unique_ptr<T[]> src(new T[l]); std::copy(in.begin(), in.end(), src.get());
            (env->*f.set)(h, s, l, src.get()); std::copy(in.begin(), in.end(), model.begin() + s); CHECK(!l || !memcmp(src.get(), in.data(), l * sizeof(T)));
            for(int i = 0; i < n; i++) CHECK(!memcmp(&e[i], &model[i], sizeof(T))); CHECK((env->*f.elems)(h, nullptr) == e); for(int i = 0; i < n; i++) CHECK((env->*f.elems)(other, nullptr)[i] == T(0));
            std::unique_ptr<T[]> dst(new T[l + 2]); T guard = value<T>(991); dst[0] = dst[l + 1] = guard; (env->*f.get)(h, s, l, dst.get() + 1); CHECK(!l || !memcmp(dst.get() + 1, &model[s], l * sizeof(T))); CHECK(!memcmp(&dst[0], &guard, sizeof(T)) && !memcmp(&dst[l + 1], &guard, sizeof(T)));
            (env->*f.rel)(h, e, l % 3); for(int i = 0; i < n; i++) CHECK(!memcmp(&e[i], &model[i], sizeof(T)));
        }
        if(n) { e[n - 1] = value<T>(5); model[n - 1] = e[n - 1]; T x; (env->*f.get)(a, n - 1, 1, &x); CHECK(!memcmp(&x, &model[n - 1], sizeof(T))); }
        env->ReleasePrimitiveArrayCritical(a, e, JNI_ABORT); for(int i = 0; i < n; i++) CHECK(!memcmp(&e[i], &model[i], sizeof(T))); env->DeleteGlobalRef(g); env->DeleteWeakGlobalRef((jweak)w); CHECK(env->GetArrayLength(nullptr) == 0);
        // the storage goes away with the array, nothing is left behind
        drv::kase("storage of %d x %s", n, f.name); env->PushLocalFrame(64); env->PopLocalFrame(nullptr); env->PushLocalFrame(64); for(int k = 0; k < 3; k++) (env->*f.make)(n); env->PopLocalFrame(nullptr);
        if(__sanitizer_install_malloc_and_free_hooks) { long l0 = live; for(int k = 0; k < 20; k++) { env->PushLocalFrame(64); for(int j = 0; j < 5; j++) { A t = (env->*f.make)(n); (env->*f.elems)(t, nullptr); } env->PopLocalFrame(nullptr); } CHECK(live - l0 < 20); }
    }
    { drv::kase("array over foreign and copied storage, %s", f.name); T st[5]; for(int i = 0; i < 5; i++) st[i] = value<T>(i + 3); { Array<T> fo(st, 5, false), co(st, 5), ve(std::vector<T>(st, st + 5)); CHECK(fo.getArray() == st && fo.getSize() == 5); CHECK(co.getArray() != st && co.getSize() == 5 && !memcmp(co.getArray(), st, sizeof st)); CHECK(ve.getSize() == 5 && !memcmp(ve.getArray(), st, sizeof st)); Array<T> em; CHECK(em.getSize() == 0); } CHECK(!memcmp(&st[4], std::unique_ptr<T>(new T(value<T>(7))).get(), sizeof(T))); }
}
#define RUN(T, t, c) run<t, t##Array>({ #T, c, &JNIEnv::New##T##Array, &JNIEnv::Get##T##ArrayElements, &JNIEnv::Release##T##ArrayElements, &JNIEnv::Get##T##ArrayRegion, &JNIEnv::Set##T##ArrayRegion })
void drive() {
    if(__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    RUN(Boolean, jboolean, "[Z"); RUN(Byte, jbyte, "[B"); RUN(Char, jchar, "[C"); RUN(Short, jshort, "[S"); RUN(Int, jint, "[I"); RUN(Long, jlong, "[J"); RUN(Float, jfloat, "[F"); RUN(Double, jdouble, "[D");
}
