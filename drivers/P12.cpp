#include "drv.h"
#include <thread>
using namespace jnivm;
// number of times the calling thread must unlock before another thread can take the lock
static bool freeFor(Object* o) { bool r = false; std::thread([&] { if(o->lock.lock.try_lock()) { r = true; o->lock.lock.unlock(); } }).join(); return r; }
void drive() {
    for(int it = 0; it < (drv::thorough ? 400 : 40); it++) {
        VM vm; auto env = vm.GetJNIEnv(); std::vector<std::shared_ptr<Object>> o; std::vector<jobject> hs; std::vector<int> idx; const int N = 7; std::vector<int> held(N);
        auto e = ENV::FromJNIEnv(env); const char* names[] = { "a/X", "b/X", "X" }; // classes, some with the same simple name
        for(int i = 0; i < N; i++) { o.push_back(i == 2 ? std::make_shared<String>("s") : i == 3 ? std::make_shared<String>("s") : i >= 4 ? std::static_pointer_cast<Object>(InternalFindClass(e, names[i - 4], false)) : std::make_shared<Object>()); if(i < 2) o[i]->clazz = InternalFindClass(e, "a/X", false); jobject l = (jobject)o[i].get(); for(jobject h : { l, env->NewGlobalRef(l), (jobject)env->NewWeakGlobalRef(l) }) { hs.push_back(h); idx.push_back(i); } }
        for(int st = 0; st < 40; st++) { int k = drv::rnd(3 * N), i = idx[k]; drv::kase("history %d step %d object %d handle %d held %d", it, st, i, k % 3, held[i]);
            if(held[i] == 0 || drv::rnd(2)) { CHECK(env->MonitorEnter(hs[k]) == 0); held[i]++; } else { CHECK(env->MonitorExit(hs[k]) == 0); held[i]--; }
            if(drv::rnd(6) == 0 && i < 2) { Object c(*o[i]); CHECK(freeFor(&c)); Object d; d.lock.lock.lock(); d = *o[i]; CHECK(!freeFor(&d)); d.lock.lock.unlock(); CHECK(freeFor(&d)); Object m(std::move(*o[i])); CHECK(freeFor(&m)); d = std::move(*o[i]); CHECK(freeFor(&d)); }
            for(int j = 0; j < N; j++) CHECK(freeFor(o[j].get()) == (held[j] == 0));
            for(auto h : hs) if(dynamic_cast<Weak*>((Object*)h) || dynamic_cast<Global*>((Object*)h)) CHECK(freeFor((Object*)h)); }
        for(int i = 0; i < N; i++) { while(held[i]) { env->MonitorExit(hs[i * 3 + drv::rnd(3)]); held[i]--; CHECK(freeFor(o[i].get()) == !held[i]); } }
    }
}
