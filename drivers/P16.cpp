#include "drv.h"
using namespace jnivm;
struct A : Extends<> {}; struct B : Extends<A> {}; struct I1 : Extends<> {}; struct I2 : Extends<I1> {}; struct C : Extends<B, I2> {}; struct D : Extends<I2, I1, A> {}; struct E : Extends<C> {}; struct F : Extends<D, C> {};
template<int N> struct L : Extends<L<N - 1>> {}; template<> struct L<0> : Extends<> {};
// random hierarchies declared at run time: many direct bases, null bases, diamonds, several handles
static void random_hierarchy() {
    VM vm; auto& e = *vm.GetEnv(); auto env = vm.GetJNIEnv(); int n = 2 + drv::rnd(drv::rnd(3) ? 12 : 60); std::vector<std::shared_ptr<Class>> c; std::vector<std::vector<int>> b(n); std::vector<bool> has(n);
    for(int i = 0; i < n; i++) { c.push_back(InternalFindClass(&e, ((i % 3 ? "p/C" : "q/r/C") + std::to_string(i / 2)).data(), false)); if(c[i] && std::count(c.begin(), c.end() - 1, c[i])) c[i] = InternalFindClass(&e, ("s/D" + std::to_string(i)).data(), false);
        has[i] = i && drv::rnd(6); int k = drv::rnd(4) ? drv::rnd(4) : drv::rnd(i + 1); for(int j = 0; j < k && i; j++) b[i].push_back((int)drv::rnd(drv::rnd(3) ? i : i + 1) - (drv::rnd(9) == 0)); for(auto& x : b[i]) if(x >= i) x = -1; if(b[i].empty()) b[i].push_back(-1); }
    for(int i = 0; i < n; i++) { auto bs = b[i]; if(has[i]) c[i]->baseclasses = [bs, &c](ENV*) { std::vector<std::shared_ptr<Class>> r; for(int x : bs) r.push_back(x < 0 ? nullptr : c[x]); return r; }; else { c[i]->baseclasses = nullptr; b[i].clear(); } }
    std::vector<std::vector<char>> up(n, std::vector<char>(n)); for(int i = 0; i < n; i++) { up[i][i] = 1; for(int x : b[i]) if(x >= 0) for(int j = 0; j < n; j++) up[i][j] |= up[x][j]; }
    for(int i = 0; i < n; i++) { auto o = std::make_shared<Object>(); o->clazz = c[i]; for(int j = 0; j < n; j++) { drv::kase("random hierarchy of %d classes, %d -> %d", n, i, j);
        CHECK((bool)env->IsAssignableFrom((jclass)c[i].get(), (jclass)c[j].get()) == (bool)up[i][j]); CHECK((bool)env->IsInstanceOf((jobject)o.get(), (jclass)c[j].get()) == (bool)up[i][j]); }
        drv::kase("superclass of class %d of %d", i, n); auto s = env->GetSuperclass((jclass)c[i].get()); CHECK((Object*)s == (b[i].empty() || b[i][0] < 0 ? nullptr : (Object*)c[b[i][0]].get())); }
}
void drive() {
    for(int i = 0; i < (drv::thorough ? 400 : 30); i++) random_hierarchy();
    VM vm; auto& e = *vm.GetEnv(); auto env = vm.GetJNIEnv(); std::map<std::string, std::vector<std::string>> par; std::vector<std::string> names; std::vector<std::shared_ptr<Object>> objs;
    auto reg = [&](auto* t, const char* n, std::vector<std::string> p) { using T = std::remove_pointer_t<decltype(t)>; auto c = e.GetClass<T>(n); auto o = std::make_shared<T>(); o->clazz = c; objs.push_back(o); names.push_back(n); par[n] = p; };
    par["java/lang/Object"] = {}; names.push_back("java/lang/Object"); { auto o = std::make_shared<Object>(); o->clazz = e.GetClass("java/lang/Object"); objs.push_back(o); }
    reg((A*)0, "t/A", { "java/lang/Object" }); reg((B*)0, "t/B", { "t/A" }); reg((I1*)0, "t/I1", { "java/lang/Object" }); reg((I2*)0, "t/I2", { "t/I1" }); reg((C*)0, "t/C", { "t/B", "t/I2" }); reg((D*)0, "t/D", { "t/I2", "t/I1", "t/A" }); reg((E*)0, "t/E", { "t/C" }); reg((F*)0, "t/F", { "t/D", "t/C" });
    reg((L<0>*)0, "t/L0", { "java/lang/Object" }); reg((L<1>*)0, "t/L1", { "t/L0" }); reg((L<2>*)0, "t/L2", { "t/L1" }); reg((L<3>*)0, "t/L3", { "t/L2" }); reg((L<4>*)0, "t/L4", { "t/L3" }); reg((L<5>*)0, "t/L5", { "t/L4" }); reg((L<6>*)0, "t/L6", { "t/L5" });
    for(auto n : { "u/Undeclared", "Plain" }) { par[n] = {}; names.push_back(n); auto o = std::make_shared<Object>(); o->clazz = e.GetClass(n); objs.push_back(o); }
    std::function<bool(const std::string&, const std::string&)> up = [&](const std::string& a, const std::string& b) { if(a == b) return true; for(auto& p : par[a]) if(up(p, b)) return true; return false; };
    jobject dead; { auto d = std::make_shared<Object>(); dead = env->NewWeakGlobalRef((jobject)d.get()); }
    for(size_t a = 0; a < names.size(); a++) {
        jclass ca = env->FindClass(names[a].c_str()); drv::kase("GetSuperclass %s", names[a].c_str());
        if(names[a] != "java/lang/Object") { jclass s = env->GetSuperclass(ca); CHECK((s == nullptr) == par[names[a]].empty()); if(s) CHECK(env->IsSameObject(s, env->FindClass(par[names[a]][0].c_str()))); } else CHECK(!env->GetSuperclass(ca));
        for(size_t b = 0; b < names.size(); b++) { jclass cb = env->FindClass(names[b].c_str()); bool want = up(names[a], names[b]); drv::kase("%s -> %s", names[a].c_str(), names[b].c_str());
            jclass as[] = { ca, (jclass)env->NewGlobalRef(ca), (jclass)env->NewWeakGlobalRef(ca) }, bs[] = { cb, (jclass)env->NewGlobalRef(cb), (jclass)env->NewWeakGlobalRef(cb) }; jobject o = (jobject)objs[a].get(), os[] = { o, env->NewGlobalRef(o), (jobject)env->NewWeakGlobalRef(o) };
            for(int k = 0; k < 3; k++) for(int l = 0; l < 3; l++) { CHECK((bool)env->IsAssignableFrom(as[k], bs[l]) == want); CHECK((bool)env->IsInstanceOf(os[k], bs[l]) == want); }
            CHECK(env->IsSameObject(env->GetObjectClass(os[a % 3]), ca)); CHECK(!env->IsInstanceOf(nullptr, cb)); CHECK(!env->IsInstanceOf(dead, cb)); }
        env->PopLocalFrame(nullptr); }
}
