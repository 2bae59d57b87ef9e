#include "drv.h"
#include <jnivm/internal/skipJNIType.h>
#include <jnivm/internal/jValuesfromValist.h>
using namespace jnivm;
// the end of the type at p, by the JNI grammar
static size_t typeEnd(const std::string& s, size_t p) {
    while(p < s.size() && (s[p] == '[' || s[p] == '(')) p++;
    if(p >= s.size()) return s.size();
    if(s[p] == 'L') { size_t q = s.find(';', p); return q == std::string::npos ? s.size() : q + 1; }
    return p + 1;
}
// exact-size heap copy: a read behind the terminator is caught by the sanitizer
struct Exact { char* p; explicit Exact(const std::string& s) : p((char*)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); } ~Exact() { free(p); } };
struct NoNul { char* p; size_t n; explicit NoNul(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~NoNul() { free(p); } };
static void skip(const std::string& s) {
    NoNul b(s);
    for(size_t p = 0; p <= s.size(); p++) { drv::kase("SkipJNIType \"%.200s\" at %zu", s.c_str(), p); CHECK(SkipJNIType(b.p + p, b.p + b.n) == b.p + typeEnd(s, p)); }
}
// a va_list whose arguments all live in one memory area (System V x86-64: registers exhausted)
#if defined(__x86_64__)
struct VaArea { unsigned gp = 48, fp = 176; void* over; void* save; };
static std::vector<jvalue> marshal(std::vector<uint64_t>& a, const char* sig) { va_list l; VaArea v; v.over = a.data(); v.save = a.data(); memcpy(&l, &v, sizeof v < sizeof l ? sizeof v : sizeof l); return JValuesfromValist(l, sig); }
#endif
static uint64_t word(double d) { uint64_t r; memcpy(&r, &d, 8); return r; }
static void marshalAny(const std::string& s) {
    drv::kase("JValuesfromValist \"%.300s\"", s.c_str()); Exact b(s); std::vector<uint64_t> args(s.size() + 1, 0);
    bool unterminated = false; size_t p = 1; for(; p < s.size() && s[p] != ')'; ) { size_t q = p; while(q < s.size() && s[q] == '[') q++; if(q < s.size() && s[q] == 'L' && s.find(';', q) == std::string::npos) unterminated = true; p = s[p] == '(' ? p + 1 : typeEnd(s, p); }
    bool bad = s.empty() || s[0] != '(' || unterminated, thrown = false;
    try { auto r = marshal(args, b.p); CHECK(r.size() <= s.size()); } catch(const std::invalid_argument&) { thrown = true; }
    CHECK(thrown == bad);
}
static const char* LETTERS = "ZBSCIJFD";
static std::string cls() { std::string r = "L"; for(int i = 0, n = 1 + drv::rnd(6); i < n; i++) r += "abcLIZ/$["[drv::rnd(i && i + 1 < n ? 8 : 6)]; return r + ";"; }
static std::string type() { std::string r; while(!drv::rnd(4)) r += '['; return drv::rnd(3) ? r + LETTERS[drv::rnd(8)] : r + cls(); }
static void marshalWf(int n) {
    std::string s = "("; std::vector<std::string> ts; std::vector<uint64_t> a; std::vector<jvalue> want;
    for(int i = 0; i < n; i++) { auto t = type(); ts.push_back(t); s += t; jvalue v{}; uint64_t r = ((uint64_t)drv::rng() << 32) ^ drv::rng(); if(drv::rnd(2)) r = (uint64_t)((int64_t)r >> drv::rnd(64)); uint64_t w = r;
        switch(t[0]) { case 'Z': v.z = (jboolean)(int)r; break; case 'B': v.b = (jbyte)(int)r; break; case 'S': v.s = (jshort)(int)r; break; case 'C': v.c = (jchar)(int)r; break; case 'I': v.i = (jint)r; break; case 'J': v.j = (jlong)r; break;
            case 'F': v.f = (float)(int)r / (drv::rnd(2) ? 3 : 1); w = word((double)v.f); break; case 'D': v.d = (double)(int64_t)r / (drv::rnd(2) ? 7 : 1); w = word(v.d); break; default: v.l = (jobject)r; }
        a.push_back(w); want.push_back(v); }
    s += ")" + (drv::rnd(4) ? type() : std::string("V")); drv::kase("JValuesfromValist well-formed %.400s", s.c_str()); Exact b(s); auto copy = a; copy.push_back(0); auto r = marshal(copy, b.p);
    CHECK(r.size() == want.size()); if(r.size() != want.size()) return;
    for(int i = 0; i < n; i++) { bool ok = false; switch(ts[i][0]) { case 'Z': ok = r[i].z == want[i].z; break; case 'B': ok = r[i].b == want[i].b; break; case 'S': ok = r[i].s == want[i].s; break; case 'C': ok = r[i].c == want[i].c; break; case 'I': ok = r[i].i == want[i].i; break; case 'J': ok = r[i].j == want[i].j; break; case 'F': ok = r[i].f == want[i].f; break; case 'D': ok = r[i].d == want[i].d; break; default: ok = r[i].l == want[i].l; } CHECK(ok); }
}
static void declare(const std::string& s) {
    VM vm; auto env = vm.GetJNIEnv(); std::set<std::string> want, got; for(auto& c : vm.classes) want.insert(c.first);
    for(size_t p = 0; p < s.size(); p++) if(s[p] == 'L') { size_t q = s.find(';', p); if(q == std::string::npos) break; want.insert(s.substr(p + 1, q - p - 1)); p = q; }
    drv::kase("Declare \"%.300s\"", s.c_str()); Exact b(s); Declare(env, b.p); for(auto& c : vm.classes) got.insert(c.first); CHECK(got == want);
}
void drive() {
    std::string al = "[L;(Iab)V"; int deep = drv::thorough ? 6 : 5;
    for(int n = 0; n <= deep; n++) { std::vector<int> ix(n); while(true) { std::string s; for(int i : ix) s += al[i]; skip(s); marshalAny("(" + s); if(n < 4) marshalAny(s); int k = 0; while(k < n && ++ix[k] == (int)al.size()) ix[k++] = 0; if(k == n) break; } }
    for(int c = 0; c < 256; c++) { skip(std::string(1, (char)c)); skip(std::string("[") + (char)c); if(c) { marshalAny(std::string("(") + (char)c + ")V"); marshalAny(std::string("(I") + (char)c); } }
    for(int i = 0, n = drv::thorough ? 40000 : 6000; i < n; i++) { std::string s; for(int k = drv::rnd(40); k; k--) s += "[L;(IJab)V/ZFD"[drv::rnd(14)]; skip(s); marshalAny((drv::rnd(9) ? "(" : "") + s); marshalWf(i % 23); }
    for(int d : {1, 2, 255, 256, 4000}) { std::string s(d, '['); skip(s.size() > 300 ? s.substr(0, 300) : s); Exact b("(" + s + "I" + s + "La;I)V"); std::vector<uint64_t> a{1, 2, 3, 4}; drv::kase("deep array %d", d); auto r = marshal(a, b.p); CHECK(r.size() == 3 && r[0].l == (jobject)1 && r[1].l == (jobject)2 && r[2].i == 3); }
    declare(""); declare("L"); declare("La"); declare("La;"); declare("La;L"); declare("La;Lb"); declare("(I[La/b;J[[Lc;)Ld/e/f;"); declare("LLL;"); declare("LaL;Lb;"); declare("I;J;"); declare("(Lx/");
    for(int i = 0, n = drv::thorough ? 1500 : 250; i < n; i++) { std::string s; for(int k = drv::rnd(8); k; k--) switch(drv::rnd(5)) { case 0: s += "([IJZ)"[drv::rnd(6)]; break; case 1: s += "[[La/b/c;"; break; case 2: s += "L" + std::string(1 + drv::rnd(3), "abc"[drv::rnd(3)]) + ";"; break; case 3: s += "Lp/" + std::string(1, "Labc"[drv::rnd(4)]) + ";"; break; default: s += "I"; } declare(s); s.resize(s.size() - drv::rnd(s.size() + 1)); declare(s); }
}
