#include "strs.h"
#include "internal/stringUtil.h"
using namespace jnivm;
static std::string ofs(jstring s) { return *(jnivm::String*)(jnivm::Object*)s; }
void drive() {
    for(unsigned c = 0; c < 65536; c++) {
        drv::kase("code unit U+%04X", c); std::string e = enc((jchar)c);
        CHECK(JCharToUTFLength((jchar)c) == (int)e.size());
        for(int len = 0; len <= 5; len++) {
            std::vector<char> b(len + 2, 0x55); char* p = b.data() + 1; int r = -1; bool t = THROWS(r = JCharToUTF((jchar)c, p, len));
            if(len < (int)e.size()) { CHECK(t); for(char x : b) CHECK(x == 0x55); }
            else { CHECK(!t); CHECK(r == (int)e.size()); CHECK(!memcmp(p, e.data(), e.size())); for(int i = (int)e.size(); i < len + 1; i++) CHECK(p[i] == 0x55); CHECK(b[0] == 0x55); }
        }
        std::vector<char> ex(e.begin(), e.end()); ex.push_back(0); int sz = -1;
        CHECK(UTFToJCharLength(ex.data()) == (int)e.size()); CHECK(UTFToJChar(ex.data(), sz) == c); CHECK(sz == (int)e.size());
    }
    auto malformed = [](const unsigned char* b, int n) { // exactly sized heap buffer: reading past it is caught
        std::vector<char> v(b, b + n); v.push_back(0); auto u = [&](int i) { return i < (int)v.size() ? (unsigned char)v[i] : 0u; };
        auto ct = [&](int i) { return (u(i) & 0xC0) == 0x80; };
        int want = u(0) < 0x80 ? 1 : (u(0) & 0xE0) == 0xC0 ? (ct(1) ? 2 : 0) : (u(0) & 0xF0) == 0xE0 ? (ct(1) && ct(2) ? 3 : 0) : 0;
        int r = -1, sz = -1; bool t = THROWS(r = UTFToJCharLength(v.data())); CHECK(t == (want == 0)); if(want) CHECK(r == want);
        t = THROWS(UTFToJChar(v.data(), sz)); CHECK(t == (want == 0)); if(want) CHECK(sz == want);
    };
    for(unsigned a = 1; a < 256; a++) { unsigned char b[3] = { (unsigned char)a }; drv::kase("bytes %02x", a); malformed(b, 1);
        for(unsigned c = 1; c < 256; c += drv::thorough ? 1 : 7) { b[1] = c; drv::kase("bytes %02x %02x", a, c); malformed(b, 2);
            for(unsigned d : { 1u, 0x40u, 0x7fu, 0x80u, 0xbfu, 0xc0u, 0xffu }) { b[2] = d; drv::kase("bytes %02x %02x %02x", a, c, d); malformed(b, 3); } } }
    drv::kase("null input"); int z; CHECK(THROWS(UTFToJCharLength(nullptr))); CHECK(THROWS(UTFToJChar(nullptr, z)));
    VM vm; auto env = vm.GetJNIEnv();
    for(int i = 0; i < (drv::thorough ? 20000 : 1500); i++) {
        env->PushLocalFrame(4); U16 u = rnds(i < 60 ? i / 4 : drv::rnd(400)); drv::kase("NewString of %zu units (iteration %d)", u.size(), i);
        auto s = env->NewString(u.empty() ? (jchar*)u.data() : u.data(), (jsize)u.size()); CHECK(s != nullptr); if(s) CHECK(ofs(s) == enc(u));
        env->PopLocalFrame(nullptr);
    }
    drv::kase("NewString of all units"); U16 all(65536); for(unsigned c = 0; c < 65536; c++) all[c] = c; CHECK(ofs(env->NewString(all.data(), 65536)) == enc(all));
}
