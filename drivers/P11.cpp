#include "calls.h"
#include <thread>
using Chk = std::function<bool(std::exception_ptr)>;
static std::function<void(ENV*)> ACT;
// model of this environment's pending exception: nothing, a given throwable, or a new one; and what it carries
struct State { bool some = false, fresh = false; std::shared_ptr<Throwable> is; Chk carries; std::exception_ptr exact; };
static State S;
static bool carriesBoom(std::exception_ptr p, int id) { try { std::rethrow_exception(p); } catch(const Boom& b) { return b.id == id; } catch(...) { } return false; }
static bool carriesMsg(std::exception_ptr p, const std::string& m) { try { std::rethrow_exception(p); } catch(const std::exception& b) { return m == b.what(); } catch(...) { } return false; }
static bool carriesInt(std::exception_ptr p, int m) { try { std::rethrow_exception(p); } catch(int b) { return m == b; } catch(...) { } return false; }
static void fresh(Chk c, ENV* e) { S = {}; S.some = S.fresh = true; S.carries = c; }
static void verify(JNIEnv* env, ENV* e) {
    auto before = e->current_exception; CHECK(env->functions->ExceptionCheck(env) == (S.some ? JNI_TRUE : JNI_FALSE)); auto t = env->functions->ExceptionOccurred(env); CHECK((t != nullptr) == S.some);
    CHECK(e->current_exception == before); if(!S.some || !t) return;
    auto th = dynamic_cast<Throwable*>((Object*)t); CHECK(th); if(!th) return; if(S.is) CHECK(th == S.is.get()); if(S.fresh && !S.is) S.is = e->current_exception;
    CHECK(th->except != nullptr); if(!th->except) return; if(S.exact) CHECK(th->except == S.exact); if(S.carries) CHECK(S.carries(th->except));
}
// one of the things a hooked or native function does: it may throw, and may use the environment
struct Act { std::function<void(ENV*)> f; std::function<void(ENV*)> model; const char* what; };
static Act act(JNIEnv* env) {
    int id = drv::rng() & 0xffff; std::string m = "msg" + std::to_string(id);
    switch(drv::rnd(9)) {
    case 0: case 1: return { [](ENV*) {}, [](ENV*) {}, "returns" };
    case 2: return { [=](ENV*) { throw Boom{ id }; }, [=](ENV* e) { fresh([=](std::exception_ptr p) { return carriesBoom(p, id); }, e); }, "throws an object" };
    case 3: return { [=](ENV*) { throw std::runtime_error(m); }, [=](ENV* e) { fresh([=](std::exception_ptr p) { return carriesMsg(p, m); }, e); }, "throws std::runtime_error" };
    case 4: return { [=](ENV*) { throw id; }, [=](ENV* e) { fresh([=](std::exception_ptr p) { return carriesInt(p, id); }, e); }, "throws an int" };
    case 5: return { [=](ENV* e) { e->GetJNIEnv()->ThrowNew(nullptr, m.data()); }, [=](ENV* e) { fresh([=](std::exception_ptr p) { return carriesMsg(p, m); }, e); }, "calls ThrowNew" };
    case 6: return { [=](ENV* e) { e->GetJNIEnv()->ExceptionClear(); }, [=](ENV* e) { S = {}; }, "calls ExceptionClear" };
    case 7: return { [=](ENV* e) { e->GetJNIEnv()->ThrowNew(nullptr, "first"); throw Boom{ id }; }, [=](ENV* e) { fresh([=](std::exception_ptr p) { return carriesBoom(p, id); }, e); }, "calls ThrowNew and throws" };
    default: return { [=](ENV* e) { throw std::invalid_argument(m); }, [=](ENV* e) { fresh([=](std::exception_ptr p) { return carriesMsg(p, m); }, e); }, "throws std::invalid_argument" }; }
}
static void native_i(JNIEnv* env, jobject) { ACT(ENV::FromJNIEnv(env)); }
template<class J> struct Typ {
    static void hook(Class* c, ENV* e) { using R = typename HR<J>::T; std::string n = JT<J>::name;
        c->HookInstanceFunction(e, "m" + n, [](ENV* e, Object*, jint) -> R { ACT(e); return HR<J>::get(); }); c->Hook(e, "s" + n, [](ENV* e, Class*, jint) -> R { ACT(e); return HR<J>::get(); });
        std::string sg = "(I)" + rsig<J>(); auto m = std::make_shared<Method>(); m->name = "u" + n; m->signature = sg; c->methods.push_back(m); m = std::make_shared<Method>(); m->_static = true; m->name = "v" + n; m->signature = sg; c->methods.push_back(m); }
    static void zero() { memset((void*)&RES_, 0, sizeof RES_); }
    static void call(JNIEnv* env, ENV* e, Class* c, jobject o, bool rn) {
        std::string n = JT<J>::name, sg = "(I)" + rsig<J>(); int kind = drv::rnd(3), form = drv::rnd(3); bool hooked = drv::rnd(5) != 0; Method* mid = nullptr;
        for(auto& m : c->methods) if(m->name == (kind == 2 ? hooked ? "s" : "v" : hooked ? "m" : "u") + n && m->signature == sg && m->_static == (kind == 2)) mid = m.get();
        CHECK(mid); if(!mid) return; auto a = act(env); bool thrown = false, ran = false; ACT = [&](ENV* e) { ran = true; try { a.f(e); } catch(...) { thrown = true; throw; } };
        const char* K[] = { "", "Nonvirtual", "Static" }; const char* Fm[] = { "A", "V", "..." }; drv::kase("Call%s%sMethod%s of a %s method that %s, %s pending before", K[kind], JT<J>::name, Fm[form], hooked ? "hooked" : "unhooked", a.what, S.some ? "an exception" : "nothing");
        jvalue v = rndjv(); v.i = 7; RES_ = rndjv(); RES_.l = nullptr; if(JT<J>::code != 'L') RES_ = rndjv(); if(JT<J>::code == 'F') RES_.f = 1.5f; if(JT<J>::code == 'D') RES_.d = -2.5; if(JT<J>::code == 'Z') RES_.z = drv::rnd(2); RESO_ = nullptr;
        Res<J> r; auto m = (jmethodID)mid; auto jc = (jclass)c; auto saved = RES_; bool threw = false; auto go = [&]() -> J {
            struct G { bool& t; jvalue& s; bool& ran; bool fail; ~G() { if(t || !ran) memset((void*)&RES_, 0, sizeof RES_); } } g{ thrown, saved, ran, false };
            if(kind == 0) return form == 0 ? JT<J>::cA(env, o, m, &v) : form == 1 ? JT<J>::cV(env, o, m, (jint)7) : JT<J>::cE(env, o, m, (jint)7);
            if(kind == 1) return form == 0 ? JT<J>::nA(env, o, jc, m, &v) : form == 1 ? JT<J>::nV(env, o, jc, m, (jint)7) : JT<J>::nE(env, o, jc, m, (jint)7);
            return form == 0 ? JT<J>::sA(env, jc, m, &v) : form == 1 ? JT<J>::sV(env, jc, m, (jint)7) : JT<J>::sE(env, jc, m, (jint)7); };
        try { r.run(go); } catch(...) { threw = true; } CHECK(!threw); CHECK(ran == hooked); if(JT<J>::code != 'L' || (ran && !thrown)) CHECK(r.ok); if(ran) a.model(e); verify(env, e);
    }
    static void invoke(JNIEnv* env, ENV* e, Class* c, Object* o) {
        std::string n = JT<J>::name, sg = "(I)" + rsig<J>(); bool st = drv::rnd(2); Method* mid = nullptr; for(auto& m : c->methods) if(m->name == (st ? "s" : "m") + n && m->signature == sg && m->_static == st) mid = m.get(); CHECK(mid); if(!mid) return;
        auto a = act(env); ACT = a.f; drv::kase("Method::invoke of a %s %s method that %s, %s pending before", st ? "static" : "non-static", JT<J>::name, a.what, S.some ? "an exception" : "nothing"); rethrow(env, e, a, [&] { if(st) mid->invoke(*env, c, (jint)7); else mid->invoke(*env, o, (jint)7); });
    }
    template<class F> static void rethrow(JNIEnv* env, ENV* e, Act& a, F f) { std::exception_ptr got; memset((void*)&RES_, 0, sizeof RES_); RESO_ = nullptr; try { f(); } catch(...) { got = std::current_exception(); }
        a.model(e); CHECK((got != nullptr) == S.some); verify(env, e); if(got && e->current_exception) { CHECK(got == e->current_exception->except); if(S.carries) CHECK(S.carries(got)); } }
};
void drive() {
    for(int rn = 1; rn >= 0; rn--) for(int it = 0; it < (drv::thorough ? 30 : 3); it++) {
        auto vm = std::make_shared<TVM>(rn); auto env = vm->GetJNIEnv(); auto e = ENV::FromJNIEnv(env); auto c = InternalFindClass(e, "p/C", false); auto o = std::make_shared<Object>(); o->clazz = c; S = {};
        Typ<jobject>::hook(c.get(), e); Typ<jboolean>::hook(c.get(), e); Typ<jbyte>::hook(c.get(), e); Typ<jchar>::hook(c.get(), e); Typ<jshort>::hook(c.get(), e); Typ<jint>::hook(c.get(), e); Typ<jlong>::hook(c.get(), e); Typ<jfloat>::hook(c.get(), e); Typ<jdouble>::hook(c.get(), e); Typ<void>::hook(c.get(), e);
        auto nat = std::make_shared<Method>(); nat->name = "nat"; nat->signature = "()V"; nat->native = (void*)native_i;
        std::shared_ptr<Object> other = std::make_shared<Throwable>(); ENV* e3 = nullptr; std::thread([&] { JNIEnv* e2 = nullptr; vm->GetJavaVM()->AttachCurrentThread(&e2, nullptr); e3 = ENV::FromJNIEnv(e2); e2->functions->Throw(e2, (jthrowable)other.get()); }).join();
        for(int k = 0; k < 400; k++) { jobject oh = (jobject)o.get(); auto cc = c.get();
            switch(drv::rnd(24)) {
            case 0: { auto t = std::make_shared<Throwable>(); bool has = drv::rnd(2); if(has) t->except = std::make_exception_ptr(Boom{ 5 }); struct MyEx : Throwable { }; if(drv::rnd(3) == 0) { t = std::make_shared<MyEx>(); if(has) t->except = std::make_exception_ptr(Boom{ 5 }); } if(drv::rnd(2)) t->clazz = InternalFindClass(e, drv::rnd(2) ? "p/MyEx" : "java/lang/RuntimeException", false); drv::kase("Throw of a throwable %s exception", has ? "that carries an" : "without an"); jobject h = (jobject)(Object*)t.get(); if(drv::rnd(3) == 0) h = env->NewGlobalRef(h); env->functions->Throw(env, (jthrowable)h); S = {}; S.some = true; S.is = t; if(has) S.exact = t->except; break; }
            case 1: { std::string m(drv::rnd(30), 'x'); drv::kase("ThrowNew %s", m.data()); env->functions->ThrowNew(env, drv::rnd(2) ? (jclass)c.get() : env->FindClass("java/lang/Throwable"), m.data()); fresh([=](std::exception_ptr p) { return carriesMsg(p, m); }, e); break; }
            case 2: drv::kase("ExceptionClear"); env->functions->ExceptionClear(env); S = {}; break;
            case 3: drv::kase("ExceptionDescribe, %s pending", S.some ? "an exception" : "nothing"); try { env->functions->ExceptionDescribe(env); } catch(...) { CHECK(false); } break;
            case 4: { auto a = act(env); ACT = a.f; drv::kase("Method::invoke of a native method that %s, %s pending before", a.what, S.some ? "an exception" : "nothing"); std::exception_ptr got; try { nat->invoke(*env, o.get()); } catch(...) { got = std::current_exception(); }
                State old = S; a.model(e); if(std::string(a.what).find("throws") != std::string::npos) { CHECK(got); if(std::string(a.what).find("ThrowNew") == std::string::npos) S = old; else { fresh([](std::exception_ptr p) { return carriesMsg(p, "first"); }, e); } } else CHECK((got != nullptr) == S.some); break; }
#define T(n, J) case n: Typ<J>::call(env, e, cc, oh, rn); break; 
            T(5, jobject) T(6, jboolean) T(7, jbyte) T(8, jchar) T(9, jshort) T(10, jint) T(11, jlong) T(12, jfloat) T(13, jdouble) T(14, void)
            case 15: Typ<jobject>::invoke(env, e, cc, o.get()); break; case 16: Typ<jboolean>::invoke(env, e, cc, o.get()); break; case 17: Typ<jlong>::invoke(env, e, cc, o.get()); break; case 18: Typ<jdouble>::invoke(env, e, cc, o.get()); break; case 19: Typ<void>::invoke(env, e, cc, o.get()); break; case 20: Typ<jfloat>::invoke(env, e, cc, o.get()); break;
            default: drv::kase("ExceptionCheck, ExceptionOccurred"); }
            verify(env, e); }
        drv::kase("the pending exception of another environment"); CHECK(e3 && e3 != e && e3->current_exception == other);
    }
}
