#include "drv.h"
#include <jnivm/internal/codegen/namespace.h>
#include <sstream>
using namespace jnivm;
struct TVM : VM { TVM(bool rn) : VM(true, rn) { initialize(); } };
static std::map<std::string, Class*> table(VM& vm) { std::map<std::string, Class*> r; for(auto& c : vm.classes) r[c.first] = c.second.get(); return r; }
#ifdef JNI_DEBUG
static void dump(std::ostream& o, Class& c, int d) { o << "c" << d << c.name << "@" << &c << "\n"; for(auto& x : c.classes) dump(o, *x, d + 1); }
static void dump(std::ostream& o, Namespace& n, int d) { o << "n" << d << n.name << "@" << &n << "\n"; for(auto& x : n.namespaces) dump(o, *x, d + 1); for(auto& c : n.classes) dump(o, *c, d + 1); }
#endif
static std::string tree(VM& vm) { std::ostringstream o;
#ifdef JNI_DEBUG
    dump(o, vm.np, 0);
#endif
    return o.str(); }
static std::string word(int n) { static const char* al[] = { "a", "b", "/", "$", "aa", "ab", "a/b", "a$b", "A", "[", ";" }; std::string r; while(n-- > 0) r += al[drv::rnd(drv::rnd(3) ? 8 : 11)]; return r; }
static void history(bool rn, int it, int steps) {
    TVM vm(rn); auto env = vm.GetJNIEnv(); auto E = vm.GetEnv().get(); std::map<std::string, Class*> model = table(vm); std::vector<std::string> seen; std::vector<std::shared_ptr<Class>> hold;
    for(auto& m : model) { CHECK(m.second && m.second->nativeprefix == m.first); seen.push_back(m.first); }
    for(int step = 0; step < steps; step++) {
        std::string s; int how = drv::rnd(10);
        if(how < 4 && !seen.empty()) s = seen[drv::rnd(seen.size())];
        else if(how < 6 && !seen.empty()) { s = seen[drv::rnd(seen.size())]; s = drv::rnd(2) ? s + word(1) : s.substr(0, drv::rnd(s.size() + 1)); }
        else if(how == 6) s = "[" + word(1 + drv::rnd(3)); else s = word(drv::rnd(7));
        bool known = model.count(s), jniCall = drv::rnd(2), rz = jniCall ? rn : drv::rnd(3) == 0; auto t0 = table(vm); auto tr0 = tree(vm);
        drv::kase("returnnull %d history %d step %d: find '%s' (known %d) by %s, returnZero %d", rn, it, step, s.data(), known, jniCall ? "FindClass" : "InternalFindClass", rz);
        std::shared_ptr<Class> r; env->PushLocalFrame(4);
        if(jniCall) { jclass c = env->FindClass(s.data()); if(c) r = std::static_pointer_cast<Class>(((Object*)c)->shared_from_this()); } else r = InternalFindClass(E, s.data(), rz);
        env->PopLocalFrame(nullptr); auto t1 = table(vm); seen.push_back(s);
        for(auto& x : t0) CHECK(t1.count(x.first) && t1[x.first] == x.second);
        if(known || rz) { CHECK(t1 == t0); CHECK(tree(vm) == tr0); }
        if(known) CHECK(r.get() == model[s]);
        if(!r) { CHECK(rz && !known); continue; }
        CHECK(known || !rz);
        CHECK(r->nativeprefix == s); CHECK(t1.count(s) && t1[s] == r.get());
        if(!known) { CHECK(r->methods.empty() && r->fields.empty() && r->natives.empty()); for(auto& x : t0) CHECK(x.second != r.get()); }
        for(auto& x : t1) { CHECK(x.second && x.second->nativeprefix == x.first); if(!t0.count(x.first)) { CHECK(s.compare(0, x.first.size(), x.first) == 0); CHECK(x.first == s || s[x.first.size()] == '$'); } }
        model = t1; hold.push_back(r);
    }
}
void drive() {
    for(int rn = 0; rn < 2; rn++) for(int it = 0; it < (drv::thorough ? 600 : 60); it++) history(rn, it, 80);
    // every order of every pair of short names
    std::vector<std::string> names = { "" }; const char* al = "ab/$["; size_t from = 0; for(int len = 1; len <= (drv::thorough ? 4 : 3); len++) { size_t to = names.size(); for(size_t i = from; i < to; i++) for(const char* c = al; *c; c++) names.push_back(names[i] + *c); from = to; }
    { TVM vm(false); auto E = vm.GetEnv().get(); std::map<std::string, Class*> first; for(int pass = 0; pass < 2; pass++) for(auto& s : names) { drv::kase("pass %d over all names up to length %d: '%s'", pass, drv::thorough ? 4 : 3, s.data()); auto r = InternalFindClass(E, s.data(), pass == 1); CHECK(r && r->nativeprefix == s); auto f = first.find(s); if(f == first.end()) { if(r) first[s] = r.get(); } else CHECK(f->second == r.get()); } }
    { TVM vm(false); auto E = vm.GetEnv().get(); for(size_t i = names.size(); i-- > 0;) { auto& s = names[i]; bool k = vm.classes.count(s); drv::kase("longest first: '%s'", s.data()); auto z = InternalFindClass(E, s.data(), true); CHECK(!z == !k); auto r = InternalFindClass(E, s.data(), false); CHECK(r && r->nativeprefix == s && (!z || z == r) && vm.classes[s] == r); } }
    // long names
    for(char sep : { '/', '$', 'x' }) { TVM vm(false); auto E = vm.GetEnv().get(); std::string s; for(int i = 0; i < 300; i++) { s += "seg" + std::to_string(i); s += sep; } s += "End"; drv::kase("long name with '%c'", sep); CHECK(!InternalFindClass(E, s.data(), true)); auto r = InternalFindClass(E, s.data(), false); CHECK(r && r->nativeprefix == s && r == InternalFindClass(E, s.data(), true)); auto q = InternalFindClass(E, (s + sep + "Y").data(), false); CHECK(q && q != r && q->nativeprefix == s + sep + "Y" && InternalFindClass(E, s.data(), true) == r); }
}
