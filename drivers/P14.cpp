#include "drv.h"
#include <jnivm/method.h>
#include <jnivm/field.h>
#include <internal/method.h>
using namespace jnivm;
struct TVM : VM { TVM(bool rn) : VM(true, rn) { initialize(); } };
struct Mem { std::string name, sig; bool st; void* fn; Method* p; };
struct Cl { std::shared_ptr<Class> c; std::vector<Mem> m; std::map<std::string, void*> nat; std::vector<Field*> f; };
static std::vector<Cl> H;
static bool same() { for(auto& c : H) { auto& ms = c.c->methods; if(ms.size() < c.m.size()) return false; size_t i = 0;
    for(auto& m : c.m) { if(m.p) { if(ms[i].get() != m.p) return false; } else m.p = ms[i].get(); if(m.p->name != m.name || m.p->signature != m.sig || m.p->_static != m.st || m.p->native != m.fn || m.p->nativehandle) return false; i++; }
    if(ms.size() != c.m.size()) return false; if(c.c->natives != std::unordered_map<std::string, void*>(c.nat.begin(), c.nat.end())) return false; if(c.c->fields.size() != c.f.size()) return false; for(i = 0; i < c.f.size(); i++) if(c.c->fields[i].get() != c.f[i]) return false; } return true; }
void drive() {
    const char* names[] = { "a", "b", "ab", "aa", "" }; const char* sigs[] = { "()V", "(I)V", "(I)I", "()I" }; static char fns[64];
    for(int rn = 0; rn < 2; rn++) for(int it = 0; it < (drv::thorough ? 1500 : 150); it++) {
        TVM vm(rn); auto env = vm.GetJNIEnv(); H.clear(); int n = 1 + drv::rnd(3);
        for(int i = 0; i < n; i++) { Cl c; c.c = InternalFindClass(vm.GetEnv().get(), ("p/C" + std::to_string(i)).data(), false); H.push_back(c); }
        for(auto& c : H) { for(int k = drv::rnd(6); k-- > 0;) { auto m = std::make_shared<Method>(); m->name = names[drv::rnd(5)]; m->signature = sigs[drv::rnd(4)]; m->_static = drv::rnd(2); c.c->methods.push_back(m); c.m.push_back({ m->name, m->signature, m->_static, nullptr, m.get() }); }
            for(int k = drv::rnd(3); k-- > 0;) { auto f = std::make_shared<Field>(); f->name = names[drv::rnd(5)]; f->type = "I"; c.c->fields.push_back(f); c.f.push_back(f.get()); } }
        for(int step = 0; step < 12; step++) {
            int ci = drv::rnd(n); auto& c = H[ci]; jclass h = (jclass)c.c.get(); if(drv::rnd(3) == 0) h = (jclass)env->NewGlobalRef(h);
            if(drv::rnd(4) == 0) {
                drv::kase("returnnull %d history %d step %d: UnregisterNatives on class %d", rn, it, step, ci);
                bool nul = drv::rnd(5) == 0; CHECK(env->UnregisterNatives(nul ? nullptr : h) == 0);
                if(!nul) { c.nat.clear(); std::vector<Mem> k; for(auto& m : c.m) if(!m.fn) k.push_back(m); c.m = k; }
            } else {
                int cnt = drv::rnd(7); std::vector<JNINativeMethod> e; std::string d;
                for(int i = 0; i < cnt; i++) { e.push_back({ names[drv::rnd(5)], sigs[drv::rnd(4)], fns + drv::rnd(64) }); d += std::string(" ") + e.back().name + e.back().signature; }
                drv::kase("returnnull %d history %d step %d: RegisterNatives%s on class %d", rn, it, step, d.data(), ci);
                bool nul = drv::rnd(6) == 0; CHECK(env->RegisterNatives(nul ? nullptr : h, e.data(), cnt) == 0);
                if(!nul) for(auto& x : e) { c.nat[x.name] = x.fnPtr; bool f = false; for(auto& m : c.m) if(m.fn && !m.st && m.name == x.name && m.sig == x.signature) { m.fn = x.fnPtr; f = true; break; } if(!f) c.m.push_back({ x.name, x.signature, false, x.fnPtr, nullptr }); }
            }
            CHECK(same());
            for(auto& x : H) for(auto s : names) for(auto g : sigs) { void* w = nullptr; for(auto& m : x.m) if(m.fn && m.name == s && m.sig == g) { w = m.p; break; } CHECK(((void*)GetMethodID<false, true, true>(env, (jclass)x.c.get(), s, g)) == w); }
            CHECK(c.c->mtx.try_lock()); c.c->mtx.unlock();
        }
    }
}
