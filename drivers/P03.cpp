#include "drv.h"
using namespace jnivm;
struct Thing : Extends<> {};
void drive() {
    VM vm; auto& e = *vm.GetEnv(); auto env = vm.GetJNIEnv(); e.GetClass<Thing>("a/Thing");
    struct It { const char* n; jobject l; Object* o; }; std::vector<It> its; jobject cl = (jobject)env->FindClass("a/Thing");
    auto thing = std::make_shared<Thing>(); thing->clazz = e.GetClass("a/Thing"); auto thing2 = std::make_shared<Thing>(); thing2->clazz = thing->clazz;
    env->ThrowNew((jclass)cl, "x"); jobject thr = (jobject)env->ExceptionOccurred(); env->ExceptionClear();
    jmethodID mid = env->GetMethodID((jclass)cl, "m", "()V"); jfieldID fid = env->GetFieldID((jclass)cl, "f", "I"); jobject rm = env->ToReflectedMethod((jclass)cl, mid, false), rf = env->ToReflectedField((jclass)cl, fid, false); CHECK(rm && rf);
    { auto m = e.GetClass("java/lang/reflect/Method"); ((Object*)rm)->clazz = m; ((Object*)rf)->clazz = e.GetClass("java/lang/reflect/Field"); }
    for(auto o : { (jobject)(Object*)thing.get(), (jobject)(Object*)thing2.get(), cl, (jobject)env->NewStringUTF("abc"), (jobject)env->NewIntArray(3), (jobject)env->NewObjectArray(2, (jclass)cl, nullptr), env->NewDirectByteBuffer(&e, 7), thr, rm, rf }) its.push_back({ "", o, (Object*)o });
    its[0].n = "object"; its[1].n = "object 2"; its[2].n = "class"; its[3].n = "string"; its[4].n = "int array"; its[5].n = "object array"; its[6].n = "byte buffer"; its[7].n = "throwable"; its[8].n = "method"; its[9].n = "field";
    jobject dead; { auto d = std::make_shared<Object>(); dead = env->NewWeakGlobalRef((jobject)d.get()); }
    std::vector<jobject> hs; std::vector<Object*> rs; std::vector<const char*> ns; for(auto& i : its) for(int k = 0; k < 3; k++) { hs.push_back(k == 0 ? i.l : k == 1 ? env->NewGlobalRef(i.l) : (jobject)env->NewWeakGlobalRef(i.l)); rs.push_back(i.o); ns.push_back(i.n); }
    hs.push_back(nullptr); rs.push_back(nullptr); ns.push_back("null"); hs.push_back(dead); rs.push_back(nullptr); ns.push_back("collected");
    for(size_t a = 0; a < hs.size(); a++) for(size_t b = 0; b < hs.size(); b++) { drv::kase("IsSameObject %s/%zu %s/%zu", ns[a], a % 3, ns[b], b % 3); CHECK((bool)env->IsSameObject(hs[a], hs[b]) == (rs[a] == rs[b])); }
#define KIND(T, n) { drv::kase("cast %s/%zu to " #T, ns[a], a % 3); std::shared_ptr<T> r; bool t = THROWS(r = (JNITypes<std::shared_ptr<T>>::JNICast(&e, hs[a]))); T* want = rs[a] ? dynamic_cast<T*>(rs[a]) : nullptr; if(rs[a] && !want) CHECK(t); else { CHECK(!t); CHECK(r.get() == want); } }
    for(size_t a = 0; a < hs.size(); a++) {
        KIND(Object, 0) KIND(String, 1) KIND(Class, 2) KIND(Throwable, 3) KIND(ByteBuffer, 4) KIND(Array<jint>, 5) KIND(Array<jbyte>, 6) KIND(Array<Object>, 7) KIND(Array<void>, 8) KIND(Thing, 9) KIND(jnivm::Method, 10)
        drv::kase("queries on %s/%zu", ns[a], a % 3); CHECK((Object*)env->NewLocalRef(hs[a]) == rs[a]);
        if(rs[a]) { auto c = rs[a]->clazz.lock(); auto r = env->GetObjectClass(hs[a]); if(c) CHECK((Object*)r == (Object*)c.get()); else { CHECK(true); }
            CHECK((bool)env->IsInstanceOf(hs[a], (jclass)c.get()) == true || !c); }
        else { CHECK(!env->IsInstanceOf(hs[a], (jclass)cl)); CHECK(env->GetObjectClass(hs[a]) != nullptr); }
        CHECK((Object*)env->FromReflectedMethod(hs[a]) == (rs[a] == its[8].o ? rs[a] : nullptr)); CHECK((Object*)env->FromReflectedField(hs[a]) == (rs[a] == its[9].o ? rs[a] : nullptr));
    }
    for(int k = 0; k < 3; k++) { drv::kase("operations through handle kind %d", k); auto h = [&](int i) { return hs[i * 3 + k]; };
        CHECK(env->GetStringLength((jstring)h(3)) == 3); CHECK(env->GetStringUTFLength((jstring)h(3)) == 3); CHECK(env->GetArrayLength((jarray)h(4)) == 3); CHECK(env->GetArrayLength((jarray)h(5)) == 2);
        jint v[3] = { k, 2, 3 }, w[3]; env->SetIntArrayRegion((jintArray)h(4), 0, 3, v); env->GetIntArrayRegion((jintArray)its[4].l, 0, 3, w); CHECK(!memcmp(v, w, sizeof v)); CHECK(env->GetIntArrayElements((jintArray)h(4), nullptr) == ((Array<jint>*)its[4].o)->getArray());
        for(int j = 0; j < 3; j++) { env->SetObjectArrayElement((jobjectArray)h(5), 1, hs[j]); CHECK((Object*)env->GetObjectArrayElement((jobjectArray)h(5), 1) == rs[0]);
            auto na = env->NewObjectArray(1, (jclass)h(2), hs[j]); CHECK((Object*)env->GetObjectArrayElement(na, 0) == rs[0]); CHECK(!dynamic_cast<Weak*>(rs[0])); }
        CHECK(env->GetDirectBufferAddress(h(6)) == &e); CHECK(env->GetDirectBufferCapacity(h(6)) == 7); CHECK(env->GetMethodID((jclass)h(2), "m", "()V") == mid); CHECK(env->GetFieldID((jclass)h(2), "f", "I") == fid);
        env->Throw((jthrowable)h(7)); CHECK((Object*)env->ExceptionOccurred() == its[7].o); env->ExceptionClear(); }
}
