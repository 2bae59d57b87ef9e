#include "drv.h"
#include <jnivm/method.h>
#include <jnivm/field.h>
#include <internal/method.h>
#include <internal/field.hpp>
using namespace jnivm;
struct TVM : VM { TVM(bool rn) : VM(true, rn) { initialize(); } };
struct Mem { std::string name, sig; bool st, nat; void* p; };
struct Cl { std::shared_ptr<Class> c; std::vector<int> bases; bool hasb; std::vector<Mem> m, f; };
static std::vector<Cl> H;
static void* look(int c, bool meth, const std::string& n, const std::string& s, bool st, bool nat) {
    for(auto& m : meth ? H[c].m : H[c].f) if(m.name == n && m.sig == s && m.st == st && m.nat == nat) return m.p;
    if(H[c].hasb) for(int b : H[c].bases) if(b >= 0) if(auto r = look(b, meth, n, s, st, nat)) return r;
    return nullptr;
}
// an implementation that is never called
static std::shared_ptr<MethodHandle> hook() { static int some; return std::shared_ptr<MethodHandle>(std::make_shared<int>(0), (MethodHandle*)&some); }
// mostly one of the first two, so that members of the same name and type meet in several classes
static int few(int n) { return drv::rnd(4) ? drv::rnd(2) : drv::rnd(n); }
static bool same() { for(auto& c : H) { if(c.c->methods.size() != c.m.size() || c.c->fields.size() != c.f.size()) return false;
    for(size_t i = 0; i < c.m.size(); i++) { auto& m = *c.c->methods[i]; if(&m != c.m[i].p || m.name != c.m[i].name || m.signature != c.m[i].sig || m._static != c.m[i].st || (bool)m.native != c.m[i].nat) return false; }
    for(size_t i = 0; i < c.f.size(); i++) { auto& m = *c.c->fields[i]; if(&m != c.f[i].p || m.name != c.f[i].name || m.type != c.f[i].sig || m._static != c.f[i].st) return false; } } return true; }
void drive() {
    const char* names[] = { "a", "b", "ab", "", "<init>", "A" }; const char* msigs[] = { "()V", "(I)V", "(I)I", "()Lp/C0;", "(Lx/Y;)V", "", "(", "(La;)Lp/C1;" }; const char* fsigs[] = { "I", "J", "[I", "Lp/C0;", "" };
    for(int rn = 0; rn < 2; rn++) for(int it = 0; it < (drv::thorough ? 400 : 40); it++) {
        TVM vm(rn); auto env = vm.GetJNIEnv(); TVM maker(false); H.clear(); int n = 1 + drv::rnd(6);
        for(int i = 0; i < n; i++) { Cl c; auto nm = "p/C" + std::to_string(i); env->PushLocalFrame(0); c.c = InternalFindClass(vm.GetEnv().get(), nm.data(), false); c.hasb = i && drv::rnd(4); int k = drv::rnd(4); for(int b = 0; b < k && i; b++) c.bases.push_back((int)drv::rnd(i + 1) - 1); if(c.bases.empty()) c.bases.push_back(-1); H.push_back(c); }
        for(auto& c : H) { if(c.hasb) { auto bs = c.bases; c.c->baseclasses = [bs](ENV*) { std::vector<std::shared_ptr<Class>> r; for(int b : bs) r.push_back(b < 0 ? nullptr : H[b].c); return r; }; } else c.c->baseclasses = nullptr;
            for(int k = drv::rnd(7); k-- > 0;) { auto m = std::make_shared<Method>(); m->name = names[few(6)]; m->signature = msigs[few(8)]; if(m->name == "<init>" && drv::rnd(2)) m->signature = "()L" + c.c->nativeprefix + ";"; m->_static = drv::rnd(2); m->native = drv::rnd(3) ? nullptr : (void*)&H; if(drv::rnd(2)) m->nativehandle = hook(); c.c->methods.push_back(m); c.m.push_back({ m->name, m->signature, m->_static, (bool)m->native, m.get() }); }
            for(int k = drv::rnd(6); k-- > 0;) { auto m = std::make_shared<Field>(); m->name = names[few(6)]; m->type = fsigs[few(5)]; m->_static = drv::rnd(2); if(drv::rnd(2)) m->getnativehandle = hook(); if(drv::rnd(2)) m->setnativehandle = hook(); c.c->fields.push_back(m); c.f.push_back({ m->name, m->type, m->_static, false, m.get() }); } }
        for(int step = 0; step < 60; step++) {
            int c = drv::rnd(n); bool meth = drv::rnd(3), st = drv::rnd(2); std::string nm = names[few(6)], sg = meth ? msigs[few(8)] : fsigs[few(5)]; jclass h = (jclass)H[c].c.get();
            if(drv::rnd(3) == 0) h = (jclass)env->NewGlobalRef(h); else if(drv::rnd(3) == 0) h = (jclass)env->NewWeakGlobalRef(h);
            drv::kase("returnnull %d history %d step %d: %s%s %s %s on class %d of %d", rn, it, step, st ? "static " : "", meth ? "method" : "field", nm.data(), sg.data(), c, n);
            bool ini = meth && !st && nm == "<init>"; std::string ws = sg; bool wst = st; if(ini) { ws = sg.substr(0, sg.find(')') + 1) + "L" + H[c].c->nativeprefix + ";"; wst = true; }
            if(meth && drv::rnd(5) == 0) { auto w = look(c, true, nm, ini ? ws : sg, ini ? wst : false, true); if(!st) { CHECK(((void*)GetMethodID<false, true, true>(env, h, nm.data(), sg.data())) == w); CHECK(same()); continue; } }
            void* w = look(c, meth, nm, ws, wst, false); auto get = [&] { return meth ? (void*)(st ? env->GetStaticMethodID(h, nm.data(), sg.data()) : env->GetMethodID(h, nm.data(), sg.data())) : (void*)(st ? env->GetStaticFieldID(h, nm.data(), sg.data()) : env->GetFieldID(h, nm.data(), sg.data())); };
            void* r = get();
            if(w || rn) CHECK(r == w); else { CHECK(r); auto& v = meth ? H[c].m : H[c].f; for(auto& x : H) for(auto& m : meth ? x.m : x.f) CHECK(m.p != r); v.push_back({ nm, ws, wst, false, r }); if(meth) { auto m = (Method*)r; CHECK(!m->native && !m->nativehandle); } else { auto m = (Field*)r; CHECK(!m->getnativehandle && !m->setnativehandle); } }
            CHECK(same()); CHECK(get() == r); CHECK(same());
            CHECK(H[c].c->mtx.try_lock()); H[c].c->mtx.unlock();
        }
    }
    for(int rn = 0; rn < 2; rn++) { H.clear(); TVM vm(rn); auto env = vm.GetJNIEnv(); drv::kase("method lookup of a null class, returnnull %d", rn); auto a = env->GetStaticMethodID(nullptr, "x", "()V"), b = env->GetMethodID(nullptr, "x", "()V"); if(rn) CHECK(!a && !b); else { CHECK(a && b && a != b); CHECK(((Method*)a)->_static && ((Method*)a)->name == "x" && ((Method*)a)->signature == "()V" && !((Method*)b)->_static); } }
}
