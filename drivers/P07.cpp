#include "drv.h"
using namespace jnivm;
struct A : Extends<> { int a = 1; }; struct B : Extends<A> { int b = 2; }; struct D : Extends<B> { int d = 3; }; struct Other : Extends<> {};
static jobject J(Object* o) { return (jobject)o; }
template<class T> static void typed(VM& vm, const char* cn, const std::vector<std::pair<std::shared_ptr<Object>, bool>>& objs) {
    auto env = vm.GetJNIEnv(); auto e = vm.GetEnv(); auto c = env->FindClass(cn); auto sig = JNITypes<std::shared_ptr<Array<T>>>::GetJNISignature(e.get());
    for(int n : {1, 2, 5}) {
        drv::kase("typed array of %s, length %d", cn, n); auto a = env->NewObjectArray(n, c, nullptr); auto ta = dynamic_cast<Array<T>*>((Object*)a); CHECK(ta != nullptr); if(!ta) return; CHECK(env->GetArrayLength(a) == n);
        { auto cl = ((Object*)a)->clazz.lock(); CHECK(cl && cl->nativeprefix == std::string("[L") + cn + ";"); }
        std::vector<Object*> model(n, nullptr);
        for(int step = 0; step < (drv::thorough ? 300 : 60); step++) {
            int i = drv::rnd(n), k = drv::rnd(objs.size() + 1); drv::kase("typed array of %s, length %d: element %d := object %d", cn, n, i, k);
            if(k == (int)objs.size()) { env->SetObjectArrayElement(a, i, nullptr); model[i] = nullptr; }
            else { auto o = objs[k].first.get(); jobject h = J(o); switch(drv::rnd(3)) { case 1: h = env->NewGlobalRef(h); break; case 2: h = (jobject)env->NewWeakGlobalRef(h); } bool t = THROWS(env->SetObjectArrayElement(a, i, h)); CHECK(t == !objs[k].second); if(objs[k].second) model[i] = o; }
            for(int j = 0; j < n; j++) { CHECK((Object*)env->GetObjectArrayElement(a, j) == model[j]); std::shared_ptr<T> x = (*ta)[j]; CHECK(x.get() == (model[j] ? dynamic_cast<T*>(model[j]) : nullptr)); std::shared_ptr<Object> y = (*(Array<Object>*)ta)[j]; CHECK(y.get() == model[j]); }
            if(drv::rnd(4) == 0) { for(auto& p : objs) if(p.second) { (*ta)[i] = std::dynamic_pointer_cast<T>(p.first); model[i] = p.first.get(); } CHECK((Object*)env->GetObjectArrayElement(a, i) == model[i]); }
        }
        for(auto& p : objs) { drv::kase("NewObjectArray of %s with initial object", cn); jobjectArray r = nullptr; bool t = THROWS(r = env->NewObjectArray(n, c, J(p.first.get()))); CHECK(t == !p.second); if(!t) for(int j = 0; j < n; j++) { CHECK((Object*)env->GetObjectArrayElement(r, j) == p.first.get()); std::shared_ptr<T> x = (*dynamic_cast<Array<T>*>((Object*)r))[j]; CHECK(x.get() == dynamic_cast<T*>(p.first.get())); } }
    }
}
void drive() {
    { VM vm; auto env = vm.GetJNIEnv(); auto e = vm.GetEnv(); e->GetClass<Other>("Other"); auto oc = env->FindClass("Other"); auto t1 = std::make_shared<Other>(), t2 = std::make_shared<Other>(); t1->clazz = t2->clazz = e->GetClass("Other");
        struct H { jobject h; Object* o; }; std::vector<H> hs; for(auto& t : {t1, t2}) { hs.push_back({J(t.get()), t.get()}); hs.push_back({env->NewGlobalRef(J(t.get())), t.get()}); hs.push_back({(jobject)env->NewWeakGlobalRef(J(t.get())), t.get()}); } hs.push_back({nullptr, nullptr}); { auto d = std::make_shared<Object>(); hs.push_back({(jobject)env->NewWeakGlobalRef(J(d.get())), nullptr}); }
        jclass cs[3] = { oc, (jclass)env->NewGlobalRef((jobject)oc), (jclass)env->NewWeakGlobalRef((jobject)oc) };
        for(int n : {0, 1, 2, 3, 9, 65, 300, drv::thorough ? 70000 : 1100}) for(auto& h : hs) for(auto c : cs) { drv::kase("NewObjectArray length %d", n); auto a = env->NewObjectArray(n, c, h.h); CHECK(a && env->GetArrayLength(a) == n); for(int i = 0; i < n; i++) CHECK((Object*)env->GetObjectArrayElement(a, i) == h.o); auto cl = ((Object*)a)->clazz.lock(); CHECK(cl && cl->nativeprefix == "[LOther;"); CHECK((Object*)a != (Object*)env->NewObjectArray(n, c, h.h)); }
        for(int n : {1, 3, 8}) for(auto& init : hs) { auto a = env->NewObjectArray(n, oc, init.h), b = env->NewObjectArray(n, oc, init.h); auto ga = (jobjectArray)env->NewGlobalRef((jobject)a); std::vector<Object*> m(n, init.o);
            for(int s = 0; s < (drv::thorough ? 200 : 40); s++) { int i = drv::rnd(n); auto& v = hs[drv::rnd(hs.size())]; drv::kase("element %d of %d", i, n); env->SetObjectArrayElement(drv::rnd(2) ? a : ga, i, v.h); m[i] = v.o; for(int j = 0; j < n; j++) { CHECK((Object*)env->GetObjectArrayElement(drv::rnd(2) ? a : ga, j) == m[j]); CHECK((Object*)env->GetObjectArrayElement(b, j) == init.o); } } }
        // element class is itself an array, or any other name
        for(auto nm : {"[I", "[LOther;", "[[D", "p/Q", "p/Q$R"}) { drv::kase("array of %s", nm); auto a = env->NewObjectArray(2, env->FindClass(nm), nullptr); auto cl = ((Object*)a)->clazz.lock(); CHECK(cl && cl->nativeprefix == (nm[0] == '[' ? std::string("[") + nm : std::string("[L") + nm + ";")); auto el = env->NewIntArray(3); env->SetObjectArrayElement(a, 1, (jobject)el); CHECK((jintArray)env->GetObjectArrayElement(a, 1) == el); CHECK(env->GetObjectArrayElement(a, 0) == nullptr); }
        // the returned element is a local reference, the array keeps its elements alive
        { drv::kase("elements stay alive"); auto a = env->NewObjectArray(3, oc, nullptr); std::weak_ptr<Object> w; { auto o = std::make_shared<Other>(); o->clazz = e->GetClass("Other"); w = o; env->SetObjectArrayElement(a, 1, J(o.get())); } CHECK(!w.expired()); env->PushLocalFrame(4); auto r = env->GetObjectArrayElement(a, 1); env->SetObjectArrayElement(a, 1, nullptr); CHECK(!w.expired()); CHECK((Object*)r == w.lock().get()); env->PopLocalFrame(nullptr); CHECK(w.expired()); }
    }
    { VM vm; auto env = vm.GetJNIEnv(); auto e = vm.GetEnv(); e->GetClass<A>("A"); e->GetClass<B>("q/B"); e->GetClass<D>("q/D"); e->GetClass<Other>("Other"); auto a = std::make_shared<A>(), a2 = std::make_shared<A>(); auto b = std::make_shared<B>(); auto d = std::make_shared<D>(); auto o = std::make_shared<Other>(); auto s = std::make_shared<String>("x");
        a->clazz = a2->clazz = e->GetClass("A"); b->clazz = e->GetClass("q/B"); d->clazz = e->GetClass("q/D"); o->clazz = e->GetClass("Other"); (void)env;
        std::vector<std::shared_ptr<Object>> all{a, a2, b, d, o, s, e->GetClass("A")}; auto with = [&](std::set<Object*> ok) { std::vector<std::pair<std::shared_ptr<Object>, bool>> r; for(auto& x : all) r.push_back({x, ok.count(x.get()) > 0}); return r; };
        typed<A>(vm, "A", with({a.get(), a2.get(), b.get(), d.get()})); typed<B>(vm, "q/B", with({b.get(), d.get()})); typed<D>(vm, "q/D", with({d.get()})); typed<Class>(vm, "java/lang/Class", with({all.back().get()})); typed<String>(vm, "java/lang/String", with({s.get()}));
    }
}
