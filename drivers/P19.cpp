#include "drv.h"
using namespace jnivm;
void drive() {
    VM vm; auto& e = *vm.GetEnv(); auto env = vm.GetJNIEnv(); struct B { jobject h[3]; void* a; jlong c; }; std::vector<B> bs; char st[64];
    void* as[] = { nullptr, st, st + 1, (void*)1, (void*)~0ull, (void*)0x8000000000000000ull, (void*)0x123456789abcull }; jlong cs[] = { 0, 1, -1, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x123456789abcll, (jlong)0x7fffffffffffffffll, (jlong)(-0x7fffffffffffffffll - 1) };
    std::vector<jlong> cv(cs, cs + sizeof cs / sizeof *cs); for(int i = 0; i < (drv::thorough ? 200 : 20); i++) { jlong r = (jlong)(((uint64_t)drv::rng() << 32) | drv::rng()) >> drv::rnd(63); cv.push_back(r); cv.push_back(r & ~0xfffll); cv.push_back(r & ~0xffffffll); }
    std::vector<void*> av(as, as + sizeof as / sizeof *as); for(int i = 0; i < 3; i++) av.push_back((void*)((((uint64_t)drv::rng() << 32) | drv::rng()) & (i ? ~0xfffull : ~0ull)));
    for(auto a : av) for(auto c : cv) { drv::kase("buffer %p capacity %lld", a, (long long)c); size_t n = e.localframe.front().size(); jobject o = env->NewDirectByteBuffer(a, c); CHECK(o); CHECK(e.localframe.front().size() == n + 1 && (jobject)e.localframe.front().back().get() == o);
        for(size_t i = bs.size() > 80 ? bs.size() - 80 : 0; i < bs.size(); i++) CHECK(bs[i].h[0] != o); bs.push_back({ { o, env->NewGlobalRef(o), (jobject)env->NewWeakGlobalRef(o) }, a, c });
        for(size_t i = bs.size() > 80 ? bs.size() - 80 : 0; i < bs.size(); i++) { auto& b = bs[i]; for(auto h : b.h) { CHECK(env->GetDirectBufferAddress(h) == b.a); CHECK(env->GetDirectBufferCapacity(h) == b.c); } } }
    drv::kase("other type"); auto s = env->NewStringUTF("x"); CHECK(THROWS(env->GetDirectBufferAddress((jobject)s))); CHECK(THROWS(env->GetDirectBufferCapacity(env->NewGlobalRef((jobject)s))));
}
