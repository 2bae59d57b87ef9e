#include "calls.h"
static std::vector<O> OBJS;
template<class T> struct AT { static T make() { jvalue v = rndjv(); T t; memcpy(&t, &v, sizeof t); return t; } static T c(T t) { return t; } static T h(T t) { return t; } static void put(jvalue& v, T t) { v = rndjv(); memcpy(&v, &t, sizeof t); } static std::string sig(); };
template<> struct AT<O> { static O make() { return drv::rnd(4) ? OBJS[drv::rnd(OBJS.size())] : nullptr; } static jobject c(O t) { return (jobject)t.get(); } static void put(jvalue& v, O t) { v.j = 0; v.l = (jobject)t.get(); } static std::string sig() { return "Ljava/lang/Object;"; } };
template<> jfloat AT<jfloat>::make() { return (jfloat)drv::rnd(100000) / 7 - 5000; } template<> jdouble AT<jdouble>::make() { return (jdouble)drv::rng() / 3 - 1e8; } template<> jboolean AT<jboolean>::make() { return drv::rnd(2); }
#define SG(T, c) template<> std::string AT<T>::sig() { return c; }
SG(jboolean, "Z") SG(jbyte, "B") SG(jchar, "C") SG(jshort, "S") SG(jint, "I") SG(jlong, "J") SG(jfloat, "F") SG(jdouble, "D")
template<class...P> static void expect(int hook, void* env, void* recv, const P&...p) {
    CHECK(LOG_.size() == 1); if(LOG_.size() != 1) return; auto& l = LOG_[0]; CHECK(l.hook == hook); CHECK(l.env == env); CHECK(l.recv == recv); std::vector<uint64_t> a{ bits(p)... }; CHECK(l.a == a); }
template<class J, class...P> struct Shape {
    // one hook per class of the hierarchy
    static void body(std::shared_ptr<VM> vm, std::vector<std::shared_ptr<Class>>& cs, std::vector<std::vector<int>>& bases, JNIEnv* env, ENV* e, int round) {
        std::string sig = "("; for(auto& s : std::vector<std::string>{ AT<P>::sig()... }) sig += s; sig += ")" + rsig<J>();
        static int uniq = 0; std::string nm = "m" + std::to_string(uniq++); int n = cs.size(); std::vector<int> has(n), hs(n); using R = typename HR<J>::T;
        for(int i = 0; i < n; i++) {
            if((has[i] = drv::rnd(3) != 0)) { if(drv::rnd(2)) cs[i]->HookInstanceFunction(e, nm, [i](ENV* e, Object* o, P...p) -> R { LOG_.push_back({ i, e, o, { bits(p)... } }); return HR<J>::get(); });
                else cs[i]->HookInstanceFunction(e, nm, [i](Object* o, P...p) -> R { LOG_.push_back({ i, nullptr, o, { bits(p)... } }); return HR<J>::get(); }), has[i] = 2; }
            else if(drv::rnd(2)) { auto m = std::make_shared<Method>(); m->name = nm; m->signature = sig; m->_static = drv::rnd(2); cs[i]->methods.push_back(m); }
            hs[i] = 1 + drv::rnd(2); if(hs[i] == 1) cs[i]->Hook(e, nm, [i](ENV* e, Class* c, P...p) -> R { LOG_.push_back({ 100 + i, e, c, { bits(p)... } }); return HR<J>::get(); }); else cs[i]->Hook(e, nm, [i](ENV* e, P...p) -> R { LOG_.push_back({ 100 + i, e, nullptr, { bits(p)... } }); return HR<J>::get(); });
            // members that must not be mistaken for the one called
            cs[i]->HookInstanceFunction(e, nm + "x", [](Object* o, P...p) -> R { LOG_.push_back({ 999 }); return HR<J>::get(); });
        }
        std::function<int(int)> near = [&](int c) -> int { if(has[c]) return c; for(int b : bases[c]) { int r = near(b); if(r >= 0) return r; } return -1; };
        for(int t = 0; t < (drv::thorough ? 12 : 3); t++) {
            std::tuple<P...> v{ AT<P>::make()... }; RES_ = rndjv(); RESO_ = drv::rnd(5) ? OBJS[drv::rnd(OBJS.size())] : nullptr; if(JT<J>::code == 'L') RES_.l = (jobject)RESO_.get(); if(JT<J>::code == 'F') RES_.f = 1.5f * drv::rnd(100); if(JT<J>::code == 'D') RES_.d = 0.25 * drv::rnd(1000);
            int y = drv::rnd(n), x = drv::rnd(n); if(!has[x]) { for(x = 0; x < n && !has[x]; x++); if(x == n) x = -1; }
            auto obj = std::make_shared<Object>(); obj->clazz = cs[y]; jobject h = (jobject)obj.get(); if(drv::rnd(3) == 0) h = drv::rnd(2) ? env->NewGlobalRef(h) : env->NewWeakGlobalRef(h);
            std::apply([&](auto...p) {
                jvalue ja[sizeof...(P) + 1]; int k = 0; (void)k; (AT<P>::put(ja[k++], p), ...);
                const char* forms[] = { "A", "V", "...", "invoke" };
                for(int form = 0; form < 3; form++) {
                    if(x >= 0) { auto mid = (jmethodID)[&] { for(auto& m : cs[x]->methods) if(!m->_static && m->name == nm && m->signature == sig && m->nativehandle) return m.get(); return (Method*)nullptr; }();
                        int ev = near(y) >= 0 ? near(y) : x; LOG_.clear(); Res<J> r;
                        drv::kase("Call%sMethod%s %s of class %d on object of class %d, expected hook %d", JT<J>::name, forms[form], sig.data(), x, y, ev);
                        r.run([&] { return form == 0 ? JT<J>::cA(env, h, mid, ja) : form == 1 ? JT<J>::cV(env, h, mid, AT<P>::c(p)...) : JT<J>::cE(env, h, mid, AT<P>::c(p)...); });
                        CHECK(r.ok); CHECK(!env->ExceptionCheck()); expect(ev, has[ev] == 1 ? e : nullptr, obj.get(), p...);
                        int z = drv::rnd(n), en = near(z) >= 0 ? near(z) : x; LOG_.clear();
                        drv::kase("CallNonvirtual%sMethod%s %s of class %d on object of class %d through class %d, expected hook %d", JT<J>::name, forms[form], sig.data(), x, y, z, en); jclass cz = (jclass)cs[z].get();
                        r.run([&] { return form == 0 ? JT<J>::nA(env, h, cz, mid, ja) : form == 1 ? JT<J>::nV(env, h, cz, mid, AT<P>::c(p)...) : JT<J>::nE(env, h, cz, mid, AT<P>::c(p)...); });
                        CHECK(r.ok); CHECK(!env->ExceptionCheck()); expect(en, has[en] == 1 ? e : nullptr, obj.get(), p...);
                        if(form == 0) { LOG_.clear(); drv::kase("Method::invoke %s of class %d on object of class %d", sig.data(), x, y); jvalue q = ((Method*)mid)->invoke(*env, obj.get(), AT<P>::c(p)...); r.jv(q); CHECK(r.ok); expect(ev, has[ev] == 1 ? e : nullptr, obj.get(), p...); }
                    }
                    int s = drv::rnd(n), d = drv::rnd(n); auto sid = env->GetStaticMethodID((jclass)cs[s].get(), nm.data(), sig.data()); LOG_.clear(); Res<J> r; jclass cd = (jclass)cs[d].get();
                    drv::kase("CallStatic%sMethod%s %s of class %d on class %d", JT<J>::name, forms[form], sig.data(), s, d);
                    r.run([&] { return form == 0 ? JT<J>::sA(env, cd, sid, ja) : form == 1 ? JT<J>::sV(env, cd, sid, AT<P>::c(p)...) : JT<J>::sE(env, cd, sid, AT<P>::c(p)...); });
                    CHECK(r.ok); CHECK(!env->ExceptionCheck()); expect(100 + s, e, hs[s] == 1 ? cs[d].get() : nullptr, p...);
                    if(form == 0) { LOG_.clear(); drv::kase("Method::invoke static %s of class %d", sig.data(), s); jvalue q = ((Method*)sid)->invoke(*env, cs[d].get(), AT<P>::c(p)...); r.jv(q); CHECK(r.ok); expect(100 + s, e, hs[s] == 1 ? cs[d].get() : nullptr, p...); }
                }
            }, v);
        }
    }
};
template<class J> static void types(std::shared_ptr<VM> vm, std::vector<std::shared_ptr<Class>>& cs, std::vector<std::vector<int>>& b, JNIEnv* env, ENV* e, int r) {
    Shape<J>::body(vm, cs, b, env, e, r); Shape<J, jboolean, jbyte, jchar, jshort, jint, jlong, jfloat, jdouble, O>::body(vm, cs, b, env, e, r);
    Shape<J, jdouble, jint, O, jfloat, jlong, jlong, jint, O, jdouble, jdouble, jdouble, jdouble, jdouble, jdouble, jdouble, jdouble, jfloat, jint, jint, jbyte>::body(vm, cs, b, env, e, r); Shape<J, O, jchar>::body(vm, cs, b, env, e, r);
}
template<size_t> using I_ = jint;
template<size_t...k> static void ints(std::index_sequence<k...>, std::shared_ptr<VM> vm, std::vector<std::shared_ptr<Class>>& cs, std::vector<std::vector<int>>& b, JNIEnv* env, ENV* e, int r) { Shape<jint, I_<k>...>::body(vm, cs, b, env, e, r); }
template<size_t...n> static void counts(std::index_sequence<n...>, std::shared_ptr<VM> vm, std::vector<std::shared_ptr<Class>>& cs, std::vector<std::vector<int>>& b, JNIEnv* env, ENV* e, int r) { (ints(std::make_index_sequence<n>(), vm, cs, b, env, e, r), ...); }
void drive() {
    for(int rn = 0; rn < 2; rn++) for(int it = 0; it < (drv::thorough ? 25 : 3); it++) {
        auto vm = std::make_shared<TVM>(rn); auto env = vm->GetJNIEnv(); auto e = ENV::FromJNIEnv(env); int n = 1 + drv::rnd(5); std::vector<std::shared_ptr<Class>> cs; std::vector<std::vector<int>> b(n); OBJS.clear();
        for(int i = 0; i < n; i++) { cs.push_back(InternalFindClass(e, ("p/K" + std::to_string(i)).data(), false)); std::vector<std::shared_ptr<Class>> bs; if(drv::rnd(5) == 0) bs.push_back(nullptr); for(int j = 0; j < i; j++) if(drv::rnd(2)) { b[i].push_back(j); bs.push_back(cs[j]); } if(drv::rnd(4)) cs[i]->baseclasses = [bs](ENV*) { return bs; }; else b[i].clear(); }
        for(int i = 0; i < 4; i++) { OBJS.push_back(std::make_shared<Object>()); OBJS.back()->clazz = cs[drv::rnd(n)]; }
        types<jboolean>(vm, cs, b, env, e, it); types<jbyte>(vm, cs, b, env, e, it); types<jchar>(vm, cs, b, env, e, it); types<jshort>(vm, cs, b, env, e, it); types<jint>(vm, cs, b, env, e, it); types<jlong>(vm, cs, b, env, e, it); types<jfloat>(vm, cs, b, env, e, it); types<jdouble>(vm, cs, b, env, e, it); types<void>(vm, cs, b, env, e, it); types<jobject>(vm, cs, b, env, e, it);
        counts(std::index_sequence<5, 6, 7, 8, 9, 15, 16, 17, 18, 19, 31, 32, 33>(), vm, cs, b, env, e, it);
    }
}
