#include "drv.h"
#include <thread>
using namespace jnivm;
struct TVM : VM { TVM() : VM(true) { initialize(); } using VM::OverrideJNIInvokeInterface; };
struct TENV : ENV { TENV(VM* v, const JNINativeInterface& t) : ENV(v, t) {} using ENV::OverrideJNINativeInterface; };
static jint fakeVersion(JNIEnv*) { return 0x1234567; }
static jint fakeDestroy(JavaVM*) { return 77; }
void drive() {
    drv::kase("null and foreign handles"); CHECK(THROWS(ENV::FromJNIEnv(nullptr))); CHECK(THROWS(VM::FromJavaVM(nullptr)));
    { static JNINativeInterface n; JNIEnv f{ &n }; CHECK(THROWS(ENV::FromJNIEnv(&f))); static JNIInvokeInterface i; JavaVM v{ &i }; CHECK(THROWS(VM::FromJavaVM(&v))); }
    std::vector<std::unique_ptr<TVM>> vms; for(int i = 0; i < 3; i++) vms.emplace_back(new TVM);
    auto all = [&] { for(auto& v : vms) { CHECK(VM::FromJavaVM(v->GetJavaVM()) == v.get()); CHECK(ENV::FromJNIEnv(v->GetJNIEnv()) == v->GetEnv().get()); CHECK(v->GetEnv()->GetVM() == v.get()); CHECK(v->GetEnv()->GetJNIEnv() == v->GetJNIEnv()); } };
    drv::kase("fresh"); all();
    for(int it = 0; it < (drv::thorough ? 3000 : 300); it++) { auto& v = *vms[drv::rnd(3)]; auto& o = *vms[drv::rnd(3)]; int op = drv::rnd(5); drv::kase("override history step %d op %d", it, op);
        if(op == 0) { JNIInvokeInterface t = *v.GetJavaVM()->functions; t.DestroyJavaVM = drv::rnd(2) ? fakeDestroy : t.DestroyJavaVM; t.reserved0 = drv::rnd(2) ? t.reserved0 : nullptr; auto want = t.DestroyJavaVM; CHECK(!THROWS(v.OverrideJNIInvokeInterface(t))); CHECK(v.GetJavaVM()->functions->DestroyJavaVM == want); }
        if(op == 1) { JNIInvokeInterface t = *v.GetJavaVM()->functions, b = t; t.reserved0 = drv::rnd(2) && &o != &v ? (void*)&o : (void*)&it; t.DestroyJavaVM = nullptr; CHECK(THROWS(v.OverrideJNIInvokeInterface(t))); CHECK(!memcmp(v.GetJavaVM()->functions, &b, sizeof b)); }
        TENV e(&v, *v.GetJNIEnv()->functions); auto je = e.GetJNIEnv(); CHECK(ENV::FromJNIEnv(je) == &e); CHECK(e.GetVM() == &v);
        if(op >= 2) { JNINativeInterface t = *je->functions, b = t; t.GetVersion = fakeVersion; bool bad = op == 3; t.reserved0 = bad ? (drv::rnd(2) ? (void*)v.GetEnv().get() : (void*)&it) : drv::rnd(2) ? t.reserved0 : nullptr;
            bool th = THROWS(e.OverrideJNINativeInterface(t)); CHECK(th == bad); if(bad) CHECK(!memcmp(je->functions, &b, sizeof b)); else { CHECK(je->GetVersion() == 0x1234567); auto c = *je->functions; c.GetVersion = b.GetVersion; CHECK(!memcmp(&c, &b, sizeof b)); } CHECK(ENV::FromJNIEnv(je) == &e); }
        JavaVM* jv; CHECK(je->GetJavaVM(&jv) == 0 && jv == v.GetJavaVM()); all(); }
    drv::kase("environments of other threads"); for(int i = 0; i < 4; i++) std::thread([&] { for(auto& v : vms) { JNIEnv* e; CHECK(v->GetJavaVM()->AttachCurrentThread(&e, nullptr) == 0); CHECK(ENV::FromJNIEnv(e)->GetVM() == v.get() && ENV::FromJNIEnv(e)->GetJNIEnv() == e); JavaVM* jv; e->GetJavaVM(&jv); CHECK(jv == v->GetJavaVM()); v->GetJavaVM()->DetachCurrentThread(); } }).join();
    all();
}
