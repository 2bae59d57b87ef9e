#include "strs.h"
using namespace jnivm;
static void regions(JNIEnv* env, jstring s, const U16& u, size_t st, size_t ln) {
    std::vector<jchar> b(ln + 2, 0x5a5a); env->GetStringRegion(s, (jsize)st, (jsize)ln, b.data() + 1);
    CHECK(b[0] == 0x5a5a); CHECK(b[ln + 1] == 0x5a5a); CHECK(std::equal(b.begin() + 1, b.end() - 1, u.begin() + st));
    std::string e = enc(u, st, ln); std::vector<char> c(e.size() + 3, 0x5a); env->GetStringUTFRegion(s, (jsize)st, (jsize)ln, c.data() + 1);
    CHECK(c[0] == 0x5a); CHECK(c[e.size() + 2] == 0x5a); CHECK(!memcmp(c.data() + 1, e.data(), e.size())); CHECK(c[e.size() + 1] == 0);
}
void drive() {
    VM vm; auto env = vm.GetJNIEnv();
    drv::kase("null"); CHECK(env->GetStringLength(nullptr) == 0); CHECK(env->GetStringUTFLength(nullptr) == 0);
    { auto s = env->NewStringUTF(nullptr); CHECK(s && env->GetStringLength(s) == 0 && env->GetStringUTFLength(s) == 0); }
    for(int i = 0; i < (drv::thorough ? 4000 : 500); i++) {
        env->PushLocalFrame(4); U16 u = rnds(i < 40 ? i / 3 : drv::rnd(i % 20 ? 24 : 300)); if(i % 9 == 5) for(auto& c : u) c = 'a' + c % 26;
        drv::kase("string of %zu units, iteration %d", u.size(), i); std::string e = enc(u); jstring s = env->NewStringUTF(e.c_str());
        CHECK(*(String*)(Object*)s == e.c_str());
        if(e.find('\0') != std::string::npos) { env->PopLocalFrame(nullptr); continue; }
        jobject hs[] = { s, env->NewGlobalRef(s), env->NewWeakGlobalRef(s) };
        jstring h = (jstring)hs[i % 3];
        CHECK(env->GetStringLength(h) == (jsize)u.size()); CHECK(env->GetStringUTFLength(h) == (jsize)e.size());
        for(auto p : { env->GetStringChars(h, nullptr), env->GetStringCritical(h, nullptr) }) CHECK(std::equal(u.begin(), u.end(), p));
        { auto p = env->GetStringChars(h, nullptr); env->ReleaseStringChars(h, p); auto q = env->GetStringCritical(h, nullptr); env->ReleaseStringCritical(h, q); }
        auto up = env->GetStringUTFChars(h, nullptr); CHECK(up && e == up); env->ReleaseStringUTFChars(h, up);
        size_t n = u.size(); if(n <= 9) { for(size_t a = 0; a <= n; a++) for(size_t l = 0; a + l <= n; l++) { drv::kase("string of %zu units (iteration %d) region %zu+%zu", n, i, a, l); regions(env, h, u, a, l); } }
        else for(int k = 0; k < 8; k++) { size_t a = k == 0 ? 0 : drv::rnd((unsigned)n + 1), l = k == 1 ? n - a : drv::rnd((unsigned)(n - a) + 1); drv::kase("string of %zu units (iteration %d) region %zu+%zu", n, i, a, l); regions(env, h, u, a, l); }
        CHECK(*(String*)(Object*)s == e); env->DeleteGlobalRef(hs[1]); env->DeleteWeakGlobalRef((jweak)hs[2]); env->PopLocalFrame(nullptr);
    }
}
