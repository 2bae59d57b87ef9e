#include "calls.h"
#include <jnivm/field.h>
struct Nat : Extends<> { }; struct Nat2 : Extends<> { int x = 7; };
static std::string elemname(const std::string& d) { return d[0] == 'L' ? d.substr(1, d.size() - 2) : d; }
// the object the documentation promises for the declared type d
static void checkdefault(JNIEnv* env, VM& vm, const std::string& d, jobject r, const std::set<Object*>& before, bool wellformed) {
    auto e = ENV::FromJNIEnv(env);
    if(d[0] == '[') {
        CHECK(r); if(!r) return; CHECK(!before.count((Object*)r)); CHECK(env->GetArrayLength((jarray)r) == 0);
        if(d.size() == 2) { bool ok = false;
            switch(d[1]) {
#define A_(c, T) case c: ok = dynamic_cast<impl::Array<T>*>((Object*)r); break;
            A_('Z', jboolean) A_('B', jbyte) A_('C', jchar) A_('S', jshort) A_('I', jint) A_('J', jlong) A_('F', jfloat) A_('D', jdouble) }
            CHECK(ok); }
        else { CHECK(dynamic_cast<impl::Array<Object>*>((Object*)r)); }
        auto c = (Class*)env->GetObjectClass(r); CHECK(c->nativeprefix == d); CHECK(env->IsInstanceOf(r, env->FindClass(d.data())));
    } else {
        auto c = InternalFindClass(e, elemname(d).data(), false); bool native = false; for(auto&& t : vm.typecheck) native |= t.second == c;
        if(c->Instantiate || !native) { CHECK(r); if(!r) return; CHECK(!before.count((Object*)r)); CHECK(env->GetObjectClass(r) == (jclass)c.get()); CHECK(!dynamic_cast<Weak*>((Object*)r)); }
        else CHECK(!r);
    }
}
template<class J> static void prim(JNIEnv* env, jobject o, jclass c, jmethodID m, jmethodID sm, jvalue* a, const char* what) {
    drv::kase("Call%sMethod forms, %s", JT<J>::name, what); memset(&RES_, 0, sizeof RES_); Res<J> r;
    r.run([&] { return JT<J>::cA(env, o, m, a); }); CHECK(r.ok); r.run([&] { return JT<J>::cV(env, o, m, a[0].i, a[1].j); }); CHECK(r.ok); r.run([&] { return JT<J>::cE(env, o, m, a[0].i, a[1].j); }); CHECK(r.ok);
    r.run([&] { return JT<J>::nA(env, o, c, m, a); }); CHECK(r.ok); r.run([&] { return JT<J>::nV(env, o, c, m, a[0].i, a[1].j); }); CHECK(r.ok); r.run([&] { return JT<J>::nE(env, o, c, m, a[0].i, a[1].j); }); CHECK(r.ok);
    r.run([&] { return JT<J>::sA(env, c, sm, a); }); CHECK(r.ok); r.run([&] { return JT<J>::sV(env, c, sm, a[0].i, a[1].j); }); CHECK(r.ok); r.run([&] { return JT<J>::sE(env, c, sm, a[0].i, a[1].j); }); CHECK(r.ok);
    CHECK(LOG_.empty());
}
void drive() {
    std::vector<std::string> ds = { "Lp/Plain;", "Ljava/lang/Object;", "Ljava/lang/String;", "Ljava/lang/Class;", "Lp/Nat;", "Lp/Nat2;", "Lp/Sub$In;", "Lq/Nat;", "LNat;", "Lother/String;", "Lx/y/Object;", "Lp/List;", "LLa/bLLL;", "[LLa/bLLL;", "Lp/Class;", "[Z", "[B", "[C", "[S", "[I", "[J", "[F", "[D", "[Lp/Plain;", "[Ljava/lang/String;", "[Lp/Nat;", "[Lp/Sub$In;", "[[I", "[[Z", "[[[J", "[[Lp/Plain;", "[[[Ljava/lang/String;" };
    for(int rn = 0; rn < 2; rn++) for(int it = 0; it < (drv::thorough ? 10 : 2); it++) {
        auto pvm = std::make_shared<TVM>(rn); auto& vm = *pvm; auto env = vm.GetJNIEnv(); auto e = ENV::FromJNIEnv(env);
        auto cn = e->GetClass<Nat>("p/Nat"); auto cn2 = e->GetClass<Nat2>("p/Nat2"); cn2->Instantiate = nullptr;
        auto K = InternalFindClass(e, "p/K", false); auto obj = std::make_shared<Object>(); obj->clazz = K; jobject o = (jobject)obj.get(); jclass c = (jclass)K.get();
        std::vector<std::string> args = { "()", "(IJ)", "(Ljava/lang/String;[I)", "(D)" }; 
        auto th = std::make_shared<Throwable>(); th->except = std::make_exception_ptr(Boom{ 1 });
        for(auto& d : ds) for(auto& ar : args) {
            if(drv::rnd(3) == 0) { if(drv::rnd(2)) env->PopLocalFrame(nullptr); env->PushLocalFrame(drv::rnd(40)); } bool pend = drv::rnd(2); e->current_exception = pend ? th : nullptr; std::string sg = ar + d; jmethodID m = (jmethodID)[&] { auto x = std::make_shared<Method>(); x->name = "u"; x->signature = sg; K->methods.push_back(x); return x.get(); }(), sm = (jmethodID)[&] { auto x = std::make_shared<Method>(); x->name = "u"; x->signature = sg; x->_static = true; K->methods.push_back(x); return x.get(); }();
            // a hooked overload of another name or signature must not be taken instead
            K->HookInstanceFunction(e, "u2", [](Object*) -> O { LOG_.push_back({ 1 }); return nullptr; }); LOG_.clear(); jvalue a[3] = {}; a[0].i = 5; if(ar != "()" && ar != "(IJ)") memset(a, 0, sizeof a);
            for(int form = 0; form < 9; form++) {
                drv::kase("object call form %d of unhooked %s pending %d", form, sg.data(), pend); std::set<Object*> before; for(auto& f : e->localframe) for(auto& x : f) before.insert(x.get());
                jobject r = nullptr; using T = JT<jobject>;
                switch(form) { case 0: r = T::cA(env, o, m, a); break; case 1: r = T::nA(env, o, c, m, a); break; case 2: r = T::sA(env, c, sm, a); break;
                case 3: r = ar == "(D)" ? T::cE(env, o, m, 1.0) : T::cE(env, o, m, a[0].l, a[1].l); break; case 4: r = ar == "(D)" ? T::nE(env, o, c, m, 1.0) : T::nE(env, o, c, m, a[0].l, a[1].l); break; case 5: r = ar == "(D)" ? T::sE(env, c, sm, 2.0) : T::sE(env, c, sm, a[0].l, a[1].l); break;
                case 6: r = T::cV(env, o, m, a[0].l, a[1].l, 1.0); break; case 7: r = T::nV(env, o, c, m, a[0].l, a[1].l, 1.0); break; case 8: r = T::sV(env, c, sm, a[0].l, a[1].l, 1.0); break; }
                checkdefault(env, vm, d, r, before, true); CHECK(LOG_.empty()); CHECK(e->current_exception.get() == (pend ? th.get() : nullptr));
            }
            { auto f = std::make_shared<Field>(); f->name = "f"; f->type = d; f->_static = drv::rnd(2); K->fields.push_back(f); std::set<Object*> before; for(auto& fr : e->localframe) for(auto& x : fr) before.insert(x.get());
              drv::kase("object field of type %s without getter", d.data()); jobject r = f->_static ? env->GetStaticObjectField(c, (jfieldID)f.get()) : env->GetObjectField(o, (jfieldID)f.get()); checkdefault(env, vm, d, r, before, true); CHECK(e->current_exception.get() == (pend ? th.get() : nullptr)); }
        }
        // primitives, void and null IDs
        for(int nul = 0; nul < 2; nul++) { jvalue a[2]; a[0].i = 4; a[1].j = -9; bool pend = drv::rnd(2); e->current_exception = pend ? th : nullptr; LOG_.clear();
#define P_(J) { std::string sg = "(IJ)"; sg += JT<J>::code; auto x = std::make_shared<Method>(); x->name = "p"; x->signature = sg; auto y = std::make_shared<Method>(); y->name = "p"; y->signature = sg; y->_static = true; K->methods.push_back(x); K->methods.push_back(y); prim<J>(env, drv::rnd(4) ? o : nullptr, drv::rnd(4) ? c : nullptr, nul ? nullptr : (jmethodID)x.get(), nul ? nullptr : (jmethodID)y.get(), a, nul ? "null ID" : "unhooked"); }
            P_(jboolean) P_(jbyte) P_(jchar) P_(jshort) P_(jint) P_(jlong) P_(jfloat) P_(jdouble) P_(void)
            drv::kase("object call with null ID"); CHECK(!JT<jobject>::cA(env, o, nullptr, a)); CHECK(!JT<jobject>::sA(env, c, nullptr, a)); CHECK(!JT<jobject>::nA(env, o, c, nullptr, a)); CHECK(!JT<jobject>::cE(env, o, nullptr)); CHECK(!env->GetObjectField(o, nullptr)); CHECK(!env->GetStaticObjectField(c, nullptr));
#define F_(N, d) { auto f = std::make_shared<Field>(); f->name = "q"; f->type = d; K->fields.push_back(f); jfieldID i = nul ? nullptr : (jfieldID)f.get(); auto g = std::make_shared<Field>(); g->name = "q"; g->type = d; g->_static = true; K->fields.push_back(g); jfieldID j = nul ? nullptr : (jfieldID)g.get(); drv::kase("Get%sField without getter, null ID %d", #N, nul); CHECK(env->Get##N##Field(o, i) == 0); CHECK(env->GetStatic##N##Field(c, j) == 0); }
            F_(Boolean, "Z") F_(Byte, "B") F_(Char, "C") F_(Short, "S") F_(Int, "I") F_(Long, "J") F_(Float, "F") F_(Double, "D")
            CHECK(LOG_.empty()); CHECK(e->current_exception.get() == (pend ? th.get() : nullptr)); }
        e->current_exception = nullptr;
    }
}
