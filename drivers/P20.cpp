#include "calls.h"
#include <jnivm/field.h>
#include <internal/field.hpp>
#include <sys/wait.h>
template<class R> struct Hold : Extends<> { R m{}; int guard = 77; R got{}; int n = 0; void setm(R v) { got = v; n++; } };
template<class J> struct FT_;
#define FIELDS(N, J) template<> struct FT_<J> { static constexpr const char* name = #N; \
    static J get(JNIEnv* e, jobject o, jfieldID f) { return (J)e->functions->Get##N##Field(e, o, f); } static void set(JNIEnv* e, jobject o, jfieldID f, J v) { e->functions->Set##N##Field(e, o, f, v); } \
    static J sget(JNIEnv* e, jclass o, jfieldID f) { return (J)e->functions->GetStatic##N##Field(e, o, f); } static void sset(JNIEnv* e, jclass o, jfieldID f, J v) { e->functions->SetStatic##N##Field(e, o, f, v); } }
FIELDS(Boolean, jboolean); FIELDS(Byte, jbyte); FIELDS(Char, jchar); FIELDS(Short, jshort); FIELDS(Int, jint); FIELDS(Long, jlong); FIELDS(Float, jfloat); FIELDS(Double, jdouble); FIELDS(Object, jobject);
// native value type R, its JNI type J, conversions
template<class R> struct Cv { using J = R; static J j(const R& r) { return r; } static R rnd() { jvalue v = rndjv(); R r; memcpy(&r, &v, sizeof r); return r; } static bool eq(const R& a, const R& b) { return !memcmp(&a, &b, sizeof a); } };
template<> struct Cv<O> { using J = jobject; static J j(const O& r) { return (jobject)r.get(); } static O rnd() { auto o = std::make_shared<Object>(); return drv::rnd(4) ? o : nullptr; } static bool eq(const O& a, const O& b) { return a == b; } };
static int gets = 0, sets = 0, others = 0; static void *genv, *grecv, *senv, *srecv; static bool boom = false;
template<class R> struct St { static R gv, sv, var; };
template<class R> R St<R>::gv; template<class R> R St<R>::sv; template<class R> R St<R>::var;
template<class R> static R G_(void* e, void* r) { gets++; genv = e; grecv = r; if(boom) throw Boom{ 3 }; return St<R>::gv; }
template<class R> static void S_(void* e, void* r, R v) { sets++; senv = e; srecv = r; St<R>::sv = v; if(boom) throw Boom{ 4 }; }
static void clear() { gets = sets = others = 0; genv = grecv = senv = srecv = nullptr; }
static bool aborts(const std::function<void()>& f) {
    fflush(stdout); int p[2]; if(pipe(p)) return false; pid_t c = fork();
    if(!c) { close(p[0]); signal(SIGABRT, SIG_DFL); struct D { int fd; } d{ p[1] }; try { f(); } catch(...) { } char ch = (gets || sets) ? 'c' : 'r'; if(write(d.fd, &ch, 1)) {} _exit(0); }
    close(p[1]); char ch; bool came = read(p[0], &ch, 1) == 1; close(p[0]); int st; waitpid(c, &st, 0); return !came && WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
template<class R> static void run(TVM& vm, bool slow) {
    using C = Cv<R>; using J = typename C::J; using F = FT_<J>; auto env = vm.GetJNIEnv(); auto e = ENV::FromJNIEnv(env); std::string ty = F::name;
    auto K = e->GetClass<Hold<R>>(("f/K" + ty).data()); jclass kc = (jclass)K.get(); auto h1 = std::make_shared<Hold<R>>(), h2 = std::make_shared<Hold<R>>(); h1->clazz = h2->clazz = K;
    struct Sh { const char* n; bool st, get, set, env, recv; }; std::vector<Sh> shapes;
    auto k = K.get();
    // static accessors
    k->HookGetterFunction(e, "s0", +[]() -> R { return G_<R>(0, 0); }); k->HookSetterFunction(e, "s0", +[](R v) { S_<R>(0, 0, v); }); shapes.push_back({ "s0", true, true, true, false, false });
    k->HookGetterFunction(e, "s1", +[](ENV* a) -> R { return G_<R>(a, 0); }); k->HookSetterFunction(e, "s1", +[](ENV* a, R v) { S_<R>(a, 0, v); }); shapes.push_back({ "s1", true, true, true, true, false });
    k->HookGetterFunction(e, "s2", [](ENV* a, Class* c) -> R { return G_<R>(a, c); }); k->HookSetterFunction(e, "s2", [](ENV* a, Class* c, R v) { S_<R>(a, c, v); }); shapes.push_back({ "s2", true, true, true, true, true });
    k->HookGetterFunction(e, "sg", [](ENV* a, Class* c) -> R { return G_<R>(a, c); }); shapes.push_back({ "sg", true, true, false, true, true });
    k->HookSetterFunction(e, "ss", [](ENV* a, Class* c, R v) { S_<R>(a, c, v); }); shapes.push_back({ "ss", true, false, true, true, true });
    // instance accessors
    k->HookInstanceGetterFunction(e, "i1", [](ENV* a, Object* o) -> R { return G_<R>(a, o); }); k->HookInstanceSetterFunction(e, "i1", [](ENV* a, Object* o, R v) { S_<R>(a, o, v); }); shapes.push_back({ "i1", false, true, true, true, true });
    k->HookInstanceGetterFunction(e, "i2", +[](Object* o) -> R { return G_<R>(0, o); }); k->HookInstanceSetterFunction(e, "i2", +[](Object* o, R v) { S_<R>(0, o, v); }); shapes.push_back({ "i2", false, true, true, false, true });
    k->HookInstanceGetterFunction(e, "ig", [](ENV* a, Object* o) -> R { return G_<R>(a, o); }); shapes.push_back({ "ig", false, true, false, true, true });
    k->HookInstanceSetterFunction(e, "is", [](ENV* a, Object* o, R v) { S_<R>(a, o, v); }); shapes.push_back({ "is", false, false, true, true, true });
    k->Hook(e, "var", &St<R>::var); k->Hook(e, "mem", &Hold<R>::m); k->HookInstanceSetterFunction(e, "mf", &Hold<R>::setm);
    auto sig = std::string(JNITypes<R>::GetJNISignature(e)); auto th = std::make_shared<Throwable>(); th->except = std::make_exception_ptr(Boom{ 1 });
    auto fid = [&](const char* n, bool st) { for(auto& f : k->fields) if(f->name == n && f->_static == st && f->type == sig) return (jfieldID)f.get(); CHECK(!"field hooked"); return (jfieldID)0; };
    auto J1 = (jobject)(Object*)h1.get(), J2 = (jobject)(Object*)h2.get(); jobject g1 = env->NewGlobalRef(J1), w2 = env->NewWeakGlobalRef(J2); jobject recvs[] = { J1, J2, g1, w2 }; Object* objs[] = { h1.get(), h2.get(), h1.get(), h2.get() }; jobject gk = env->NewGlobalRef((jobject)kc);
    for(auto& s : shapes) for(int it = 0; it < 6; it++) {
        bool pend = drv::rnd(2); e->current_exception = pend ? th : nullptr; auto f = fid(s.n, s.st); int ri = drv::rnd(4); jclass cl = drv::rnd(2) ? kc : (jclass)gk; St<R>::gv = C::rnd(); R v = C::rnd(); J jv = C::j(v); St<R>::sv = C::rnd();
        boom = it == 5; clear(); drv::kase("Get%sField shape %s (receiver %d, pending %d, throws %d)", F::name, s.n, ri, pend, boom); J r{}; bool t = THROWS(r = s.st ? F::sget(env, cl, f) : F::get(env, recvs[ri], f));
        if(s.get) { CHECK(gets == 1 && !sets); CHECK(t == boom); if(!t) { J x = C::j(St<R>::gv); CHECK(!memcmp(&r, &x, sizeof r)); } if(s.env) CHECK(genv == e); if(s.recv) CHECK(grecv == (s.st ? (void*)k : (void*)objs[ri])); } else { CHECK(!gets && !sets && !t); }
        clear(); drv::kase("Set%sField shape %s (receiver %d, pending %d, throws %d)", F::name, s.n, ri, pend, boom); t = THROWS(s.st ? F::sset(env, cl, f, jv) : F::set(env, recvs[ri], f, jv));
        if(s.set) { CHECK(sets == 1 && !gets); CHECK(t == boom); CHECK(C::eq(St<R>::sv, v)); if(s.env) CHECK(senv == e); if(s.recv) CHECK(srecv == (s.st ? (void*)k : (void*)objs[ri])); } else { CHECK(!gets && !sets && !t); }
        boom = false; clear(); drv::kase("Set%sField shape %s without object or field", F::name, s.n); if(s.st) { F::sset(env, nullptr, f, jv); F::sset(env, cl, nullptr, jv); } else { F::set(env, nullptr, f, jv); F::set(env, recvs[ri], nullptr, jv); } CHECK(!gets && !sets);
        CHECK(e->current_exception.get() == (pend ? th.get() : nullptr));
        if(slow && it == 0) { clear(); // IDs of the wrong kind
            drv::kase("Get%sField with an ID of the wrong kind, shape %s", F::name, s.n); bool a = aborts([&] { if(s.st) F::get(env, J1, f); else F::sget(env, kc, f); }); CHECK(s.get ? a : !a);
            drv::kase("Set%sField with an ID of the wrong kind, shape %s", F::name, s.n); a = aborts([&] { if(s.st) F::set(env, J1, f, jv); else F::sset(env, kc, f, jv); }); CHECK(s.set ? a : !a); }
    }
    for(int it = 0; it < 6; it++) { R a = C::rnd(), b = C::rnd(); auto f = fid("var", true); drv::kase("static %s field bound to a variable", F::name); St<R>::var = a; J r = F::sget(env, kc, f), x = C::j(a); CHECK(!memcmp(&r, &x, sizeof r)); F::sset(env, kc, f, C::j(b)); CHECK(C::eq(St<R>::var, b)); r = F::sget(env, kc, f); x = C::j(b); CHECK(!memcmp(&r, &x, sizeof r));
        f = fid("mem", false); int ri = drv::rnd(4); auto o = (Hold<R>*)(objs[ri] == (Object*)h1.get() ? h1.get() : h2.get()), o2 = o == h1.get() ? h2.get() : h1.get(); drv::kase("%s field bound to a member", F::name); o->m = a; o2->m = b; r = F::get(env, recvs[ri], f); x = C::j(a); CHECK(!memcmp(&r, &x, sizeof r)); R c = C::rnd(); F::set(env, recvs[ri], f, C::j(c)); CHECK(C::eq(o->m, c)); CHECK(C::eq(o2->m, b)); CHECK(h1->guard == 77 && h2->guard == 77);
        f = fid("mf", false); o->n = o2->n = 0; F::set(env, recvs[ri], f, C::j(a)); CHECK(o->n == 1 && o2->n == 0 && C::eq(o->got, a)); }
}
void drive() {
    for(int it = 0; it < (drv::thorough ? 30 : 4); it++) { auto vm = std::make_shared<TVM>(it & 1); bool s = it < 2 || drv::thorough;
        run<jboolean>(*vm, s); run<jbyte>(*vm, s); run<jchar>(*vm, s); run<jshort>(*vm, s); run<jint>(*vm, s); run<jlong>(*vm, s); run<jfloat>(*vm, s); run<jdouble>(*vm, s); run<O>(*vm, s); }
}
