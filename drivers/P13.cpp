#include "drv.h"
#include <baron/baron.h>
#include <jnivm/env.h>
#include <condition_variable>
#include <atomic>
#include <mutex>
#include <thread>
using namespace jnivm;
static std::atomic<int> CREATED{ 0 };
struct V1 : VM { V1(bool rn, int hooks) : VM(true, rn) { for(int i = 0; i < hooks; i++) AddHook([i](JNINativeInterface& t) { t.reserved1 = (void*)((uintptr_t)t.reserved1 * 7 + i + 1); if(i % 2) t.reserved2 = (void*)(uintptr_t)(i + 1); }); initialize(); }
    std::shared_ptr<ENV> CreateEnv() override { CREATED++; return VM::CreateEnv(); } VM& vm() { return *this; } using VM::GetNativeInterfaceTemplate; };
struct V2 : FakeJni::Jvm { V2(bool rn, int hooks) : Jvm(true, rn) { for(int i = 0; i < hooks; i++) VM::AddHook([i](JNINativeInterface& t) { t.reserved1 = (void*)((uintptr_t)t.reserved1 * 7 + i + 1); if(i % 2) t.reserved2 = (void*)(uintptr_t)(i + 1); }); initialize(); }
    std::shared_ptr<ENV> CreateEnv() override { CREATED++; return FakeJni::Jvm::CreateEnv(); } VM& vm() { return *this; } using VM::GetNativeInterfaceTemplate; };
static void hooks3(Baron::Jvm* v, int hooks) { for(int i = 0; i < hooks; i++) v->AddHook([i](JNINativeInterface& t) { t.reserved1 = (void*)((uintptr_t)t.reserved1 * 7 + i + 1); if(i % 2) t.reserved2 = (void*)(uintptr_t)(i + 1); }); }
struct V3 : Baron::Jvm { V3(bool, int hooks) : Baron::Jvm([hooks](Baron::Jvm* v) { hooks3(v, hooks); }) { }
    std::shared_ptr<ENV> CreateEnv() override { CREATED++; return Baron::Jvm::CreateEnv(); } VM& vm() { return *this; } using VM::GetNativeInterfaceTemplate; };
struct Worker { std::mutex m; std::condition_variable c; std::function<void()> f; bool stop = false, busy = false; std::thread t;
    Worker() : t([this] { std::unique_lock<std::mutex> l(m); for(;;) { c.wait(l, [&] { return busy || stop; }); if(!busy) return; try { f(); } catch(const std::exception& e) { drv::fail("x/P13.cpp", 0, e.what()); } busy = false; c.notify_all(); } }) { }
    void run(std::function<void()> g) { std::unique_lock<std::mutex> l(m); f = g; busy = true; c.notify_all(); c.wait(l, [&] { return !busy; }); }
    ~Worker() { { std::unique_lock<std::mutex> l(m); stop = true; c.notify_all(); } t.join(); } };
template<class T> static void history(const char* kind, bool rn) {
    int hooks = drv::rnd(5), n = 1 + drv::rnd(6); CREATED = 0; uintptr_t r1 = 0, r2 = 0; for(int i = 0; i < hooks; i++) { r1 = r1 * 7 + i + 1; if(i % 2) r2 = i + 1; }
    std::vector<std::unique_ptr<Worker>> w; for(int i = 0; i < n; i++) w.push_back(std::make_unique<Worker>()); std::vector<std::shared_ptr<ENV>> env(n), dead;
    { std::shared_ptr<T> v; int owner = drv::rnd(n); drv::kase("%s: constructed by thread %d of %d, %d hooks", kind, owner, n, hooks); w[owner]->run([&] { v = std::make_shared<T>(rn, hooks); CHECK(v->vm().GetEnv() != nullptr); env[owner] = v->vm().GetEnv(); }); CHECK((CREATED == !std::is_same<T, V3>::value)); if(!env[owner]) return;
    auto jvm = v->vm().GetJavaVM(); auto good = [&](const std::shared_ptr<ENV>& e) { auto f = e->GetJNIEnv()->functions; CHECK((uintptr_t)f->reserved1 == r1); CHECK((uintptr_t)f->reserved2 == r2); CHECK(e->GetVM() == &v->vm()); CHECK(ENV::FromJNIEnv(e->GetJNIEnv()) == e.get()); CHECK(f->NewGlobalRef == v->GetNativeInterfaceTemplate().NewGlobalRef); CHECK(f->GetVersion == v->GetNativeInterfaceTemplate().GetVersion); JavaVM* q = nullptr; CHECK(f->GetJavaVM(e->GetJNIEnv(), &q) == JNI_OK); CHECK(q == jvm); };
    good(env[owner]);
    for(int s = 0; s < 60; s++) { int i = drv::rnd(n), op = drv::rnd(6); static const char* nm[] = { "AttachCurrentThread", "AttachCurrentThreadAsDaemon", "GetEnv", "DetachCurrentThread", "DetachCurrentThread", "the guards" }; bool null = drv::rnd(4) == 0; drv::kase("%s: %d threads, step %d: %s%s on thread %d (%sattached)", kind, n, s, nm[op], null ? " with a null pointer" : "", i, env[i] ? "" : "not "); int before = CREATED; JNIEnv* out[3] = { (JNIEnv*)1, (JNIEnv*)2, (JNIEnv*)3 }; jint rc = -1;
        w[i]->run([&] { auto a = null ? nullptr : &out[1]; switch(op) { case 0: rc = jvm->functions->AttachCurrentThread(jvm, a, drv::rnd(2) ? (void*)&rc : nullptr); break; case 1: rc = jvm->functions->AttachCurrentThreadAsDaemon(jvm, a, nullptr); break; case 2: rc = jvm->functions->GetEnv(jvm, (void**)a, drv::rnd(2) ? JNI_VERSION_1_6 : (jint)drv::rng()); break; case 3: case 4: rc = jvm->functions->DetachCurrentThread(jvm); break; case 5: if(env[i]) { CHECK(v->vm().GetJNIEnv() == env[i]->GetJNIEnv()); CHECK(&v->vm().GetEnv() == &v->vm().GetEnv()); } rc = 0; } });
        CHECK(rc == JNI_OK); CHECK(out[0] == (JNIEnv*)1); CHECK(out[2] == (JNIEnv*)3); bool attach = op < 2 || (op == 2 && !null); CHECK(CREATED - before == (attach && !env[i] ? 1 : 0));
        if(op == 3 || op == 4) { if(env[i] && drv::rnd(2) && strcmp(kind, "VM") == 0) dead.push_back(env[i]); env[i] = nullptr; }
        if(attach) { std::shared_ptr<ENV> now; w[i]->run([&] { now = v->vm().GetEnv(); }); CHECK(now); if(!now) return; if(env[i]) CHECK(now == env[i]); else { good(now); CHECK(now->current_exception == nullptr); for(auto& d : dead) CHECK(d != now); for(auto& e : env) CHECK(e != now); env[i] = now; } }
        if(null || !attach) CHECK(out[1] == (JNIEnv*)2); else CHECK(out[1] == env[i]->GetJNIEnv());
        for(int j = 0; j < n; j++) { std::shared_ptr<ENV> e; w[j]->run([&] { e = v->vm().GetEnv(); }); CHECK(e == env[j]); }
    }
    drv::kase("%s: destruction", kind); for(auto& e : env) e = nullptr; dead.clear(); w[owner]->run([&] { v.reset(); }); }
}
// all threads at once: each must end up with an environment of its own that stays the same
template<class T> static void crowd(const char* kind) {
    for(int it = 0; it < (drv::thorough ? 60 : 8); it++) { drv::kase("%s: threads attach and detach at the same time", kind); std::shared_ptr<T> v; std::atomic<int> bad{ 0 }, go{ 0 }; CREATED = 0; std::mutex m; std::set<JNIEnv*> held; 
        std::thread owner([&] { v = std::make_shared<T>(false, 1); v->vm().GetJavaVM()->DetachCurrentThread(); }); owner.join(); auto jvm = v->vm().GetJavaVM(); std::vector<std::thread> t;
        for(int i = 0; i < 8; i++) t.emplace_back([&] { go++; while(go < 8); for(int k = 0; k < 40; k++) { JNIEnv* e = nullptr, *f = nullptr; if(jvm->AttachCurrentThread(&e, nullptr) || !e) bad++; { std::lock_guard<std::mutex> l(m); if(!held.insert(e).second) bad++; } if(jvm->GetEnv((void**)&f, JNI_VERSION_1_6) || f != e) bad++; { std::lock_guard<std::mutex> l(m); held.erase(e); } if(jvm->DetachCurrentThread()) bad++; } });
        for(auto& x : t) x.join(); CHECK(bad == 0); CHECK((CREATED == !std::is_same<T, V3>::value + 8 * 40)); }
}
void drive() {
    for(int it = 0; it < (drv::thorough ? 150 : 15); it++) { history<V1>("VM", it & 1); history<V2>("FakeJni::Jvm", it & 1); history<V3>("Baron::Jvm", false); }
    crowd<V1>("VM"); crowd<V2>("FakeJni::Jvm"); crowd<V3>("Baron::Jvm");
}
