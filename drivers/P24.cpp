#include "drv.h"
#include <baron/baron.h>
#include <jnivm/env.h>
#include <thread>
using namespace jnivm;
using FakeJni::JniEnvContext; using FakeJni::LocalFrame;
static int CREATED = 0;
struct J : FakeJni::Jvm { J(bool rn) : Jvm(true, rn) { initialize(); } std::shared_ptr<ENV> CreateEnv() override { CREATED++; return FakeJni::Jvm::CreateEnv(); } std::shared_ptr<ENV> mine() { return ((VM*)this)->GetEnv(); } };
typedef std::vector<std::vector<Object*>> Frames;
static Frames frames(ENV* e) { Frames r; if(e) for(auto& f : e->localframe) { r.emplace_back(); for(auto& o : f) r.back().push_back(o.get()); } return r; }
struct Leave { int to; };
static J* jvm; static std::string path;
static void use(JNIEnv* e, int n) { for(int i = 0; i < n; i++) e->NewStringUTF("x"); }
// one scope: kind 0 JniEnvContext(vm), 1 JniEnvContext(), 2 LocalFrame(vm, n), 3 LocalFrame(n), 4 explicit attachment (not a scope)
static void scope(int level, int maxlevel);
static void inside(int level, int maxlevel) {
    auto e = jvm->mine(); if(e) use(e->GetJNIEnv(), drv::rnd(4));
    if(level < maxlevel) for(int k = drv::rnd(3); k-- > 0;) scope(level + 1, maxlevel);
    if(level && drv::rnd(4) == 0) throw Leave{ (int)drv::rnd(level) };
}
static void scope(int level, int maxlevel) {
    int kind = drv::rnd(4), size = drv::rnd(3) ? drv::rnd(40) : 0; static const char* nm[] = { "JniEnvContext(vm)", "JniEnvContext()", "LocalFrame(vm)", "LocalFrame()" }; auto e0 = jvm->mine(); auto f0 = frames(e0.get()); int c0 = CREATED; auto keep = path;
    path += std::string(e0 ? " a:" : " u:") + nm[kind]; drv::kase("guards%s", path.c_str()); std::shared_ptr<ENV> hold; bool entered = false, refused = false, left = false; int to = 0;
    auto in = [&](FakeJni::Env* env, bool frame) { entered = true; auto e1 = jvm->mine(); CHECK(CREATED - c0 == (!e0 && (kind == 0 || kind == 2) ? 1 : 0)); if(kind == 1) { CHECK(e1 == e0); } else { CHECK(e1); if(!e1) return; if(drv::rnd(3) == 0) hold = e1; CHECK((ENV*)env == e1.get()); if(e0) CHECK(e1 == e0); }
        if(e1) { auto f1 = frames(e1.get()); auto base = e0 ? f0 : Frames(1); if(frame) base.insert(base.begin(), std::vector<Object*>()); CHECK(f1 == base); }
        inside(level, maxlevel); };
    try { switch(kind) {
        case 0: { JniEnvContext g(*jvm); in(&g.getJniEnv(), false); break; }
        case 1: { JniEnvContext g; CHECK(THROWS(g.getJniEnv()) == !e0); in(nullptr, false); break; }
        case 2: { LocalFrame g(*jvm, size); in(&g.getJniEnv(), true); break; }
        case 3: if(size) { LocalFrame g(size); in(&g.getJniEnv(), true); } else { LocalFrame g; in(&g.getJniEnv(), true); } break; } }
    catch(const Leave& l) { left = true; to = l.to; }
    catch(const std::runtime_error&) { refused = true; }
    drv::kase("after guards%s%s", path.c_str(), left ? " left by an exception" : ""); CHECK(refused == (kind == 3 && !e0)); CHECK(entered == !refused); auto e1 = jvm->mine(); CHECK(e1 == e0); auto f1 = frames(e1.get()); CHECK(f1.size() == f0.size());
    if(kind >= 2) CHECK(f1 == f0); else for(size_t i = 1; i < f0.size() && i < f1.size(); i++) CHECK(f1[i] == f0[i]);
    hold = nullptr; e1 = nullptr; // the context refers to an environment as long as it exists
    CHECK((JniEnvContext::env.env.lock() ? ENV::FromJNIEnv(JniEnvContext::env.env.lock().get()) : nullptr) == e0.get());
    if(!e0) CHECK(THROWS(JniEnvContext().getJniEnv()));
    path = keep; if(left && to < level) throw Leave{ to };
}
static void thread(bool attached, bool byvm, bool detach) {
    std::weak_ptr<ENV> w; std::thread t([&] { path = byvm ? " new thread" : " new attached thread"; JNIEnv* e = nullptr; if(attached) { drv::kase("attach"); CHECK(jvm->AttachCurrentThread(&e, nullptr) == JNI_OK); CHECK(e); w = jvm->mine(); if(e && drv::rnd(2)) { use(e, 3); e->PushLocalFrame(4); use(e, 2); } }
        for(int k = 0; k < 3; k++) try { scope(0, 1 + drv::rnd(6)); } catch(const Leave&) { }
        if(attached) { CHECK(jvm->mine() == w.lock()); if(detach) { jvm->DetachCurrentThread(); CHECK(!jvm->mine()); scope(0, 2); } } });
    t.join(); drv::kase("end of a thread%s%s", attached ? " attached" : "", detach ? ", detached" : ""); CHECK(w.expired());
}
void drive() {
    for(int it = 0; it < (drv::thorough ? 400 : 40); it++) { jvm = new J(it & 1); std::shared_ptr<ENV> main = jvm->mine(); CHECK(main);
        for(int k = 0; k < 8; k++) { path = " main thread"; try { scope(0, 1 + drv::rnd(6)); } catch(const Leave&) { } CHECK(jvm->mine() == main); }
        for(int k = 0; k < 8; k++) { bool a = drv::rnd(2); thread(a, !a, drv::rnd(2)); CHECK(jvm->mine() == main); }
        // the identifier of an ended thread is handed out again: a fresh thread starts unattached
        for(int k = 0; k < 6; k++) { bool fresh = true; std::thread a([&] { drv::kase("thread that ends attached"); JNIEnv* e; jvm->AttachCurrentThread(&e, nullptr); }); a.join(); std::thread b([&] { drv::kase("thread after one that ended attached"); fresh = !jvm->mine(); }); b.join(); CHECK(fresh); }
        main = nullptr; jvm->DetachCurrentThread(); CHECK(!jvm->mine()); for(int k = 0; k < 4; k++) { path = " detached main thread"; try { scope(0, 1 + drv::rnd(6)); } catch(const Leave&) { } CHECK(!jvm->mine()); }
        delete jvm; }
}
