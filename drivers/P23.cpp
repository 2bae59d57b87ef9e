#include "drv.h"
#include <baron/baron.h>
#include <thread>
using namespace jnivm;
// a loader that records every call; which names open and which hooks are exported is drawn per case
struct Ev { char k; void* h; int which; bool load; void* vm; void* res; bool operator==(const Ev& o) const { return k == o.k && h == o.h && which == o.which && load == o.load && vm == o.vm && res == o.res; } };
static std::vector<Ev> tr; struct H { std::string path; bool program; int loader; bool open; }; static std::map<void*, H> handles; static uintptr_t nexth = 0x1000; static unsigned salt; static bool anyname;
static unsigned hash(const std::string& s) { unsigned h = salt; for(char c : s) h = h * 31 + (unsigned char)c; return h >> 4; }
static bool opens(const char* p) { return !p || hash(p) % 3 != 0; }
static bool has(const std::string& p, const std::string& sym) { return hash(p + "!" + sym) % 3 != 0; }
// hooks: one function per slot, a slot per handle opened in a case
enum { N = 48 }; struct Slot { void* h; bool bad; }; static Slot slots[N]; static int nslot;
static void alive(JavaVM* v) { void* e = nullptr; CHECK(v->GetEnv(&e, JNI_VERSION_1_6) == JNI_OK); CHECK(e); if(e) CHECK(((JNIEnv*)e)->FindClass("java/lang/Object")); }
template<int I> static jint onload(JavaVM* v, void* r) { alive(v); tr.push_back({ 'L', slots[I].h, 0, true, v, r }); return I % 2 ? JNI_VERSION_1_6 : 0; }
template<int I> static void onunload(JavaVM* v, void* r) { alive(v); tr.push_back({ 'U', slots[I].h, 0, false, v, r }); }
template<int I> struct Fill { static void f(void** l, void** u) { l[I] = (void*)onload<I>; u[I] = (void*)onunload<I>; Fill<I - 1>::f(l, u); } };
template<> struct Fill<-1> { static void f(void**, void**) { } };
static void* loads[N], *unloads[N];
template<int L> static void* open_(const char* p, int) { void* h = opens(p) ? (void*)(nexth += 16) : nullptr; if(h) { handles[h] = { p ? p : "", !p, L, true }; slots[nslot++ % N].h = h; } tr.push_back({ p ? 'o' : 'O', h, L, false, nullptr, nullptr }); return h; }
static void* sym(int L, void* h, const char* s) { auto f = handles.find(h); if(f == handles.end() || !f->second.open) { drv::fail("x/P23.cpp", 0, "dlsym of a handle that is not open"); return nullptr; } CHECK(f->second.loader == L); int i = -1; for(int k = 0; k < N; k++) if(slots[k].h == h) i = k; std::string n = s; auto& p = f->second;
    if(n == "JNI_OnLoad" || n == "JNI_OnUnload") { if(p.program) return nullptr; return has(p.path, n) ? (n == "JNI_OnLoad" ? loads : unloads)[i] : nullptr; }
    if(p.program && n.compare(0, 11, "JNI_OnLoad_") == 0) { p.path = n.substr(11); return has(p.path, "JNI_OnLoad_") ? loads[i] : nullptr; }
    if(p.program && n.compare(0, 13, "JNI_OnUnload_") == 0) { CHECK(n.substr(13) == p.path); return has(p.path, "JNI_OnUnload_") ? unloads[i] : nullptr; }
    if(hash(n) % 5 == 0) return nullptr; return nullptr; }
template<int L> static void* sym_(void* h, const char* s) { return sym(L, h, s); }
template<int L> static int close_(void* h) { auto f = handles.find(h); if(f == handles.end() || !f->second.open) { drv::fail("x/P23.cpp", 0, "dlclose of a handle that is not open"); return -1; } CHECK(f->second.loader == L); f->second.open = false; tr.push_back({ 'c', h, L, false, nullptr, nullptr }); return L; }
static FakeJni::LibraryOptions options(int l) { return l == 0 ? FakeJni::LibraryOptions(open_<0>, sym_<0>, close_<0>) : l == 1 ? FakeJni::LibraryOptions(open_<1>, sym_<1>, close_<1>) : FakeJni::LibraryOptions(open_<2>, sym_<2>, close_<2>); }
struct Lib { void* h = nullptr; int loader; bool program = false; };
static bool plain(const std::string& p) { return !p.empty() && p.find('/') == std::string::npos && p.find('.') == std::string::npos; }
static std::vector<Ev> expectload(const std::string& p, int l, void* vm, Lib& lib) { std::vector<Ev> e; lib.loader = l; uintptr_t h = nexth; // computed before the call
    if(opens(p.c_str())) { lib.h = (void*)(h + 16); e.push_back({ 'o', lib.h, l, false, nullptr, nullptr }); if(has(p, "JNI_OnLoad")) e.push_back({ 'L', lib.h, 0, true, vm, nullptr }); return e; }
    e.push_back({ 'o', nullptr, l, false, nullptr, nullptr }); if(!plain(p)) return e; lib.h = (void*)(h + 16); lib.program = true; e.push_back({ 'O', lib.h, l, false, nullptr, nullptr }); if(has(p, "JNI_OnLoad_")) e.push_back({ 'L', lib.h, 0, true, vm, nullptr }); return e; }
static std::vector<Ev> expectunload(const std::string& p, const Lib& lib, void* vm) { std::vector<Ev> e; if(!lib.h) return e; if(has(p, lib.program ? "JNI_OnUnload_" : "JNI_OnUnload")) e.push_back({ 'U', lib.h, 0, false, vm, nullptr }); e.push_back({ 'c', lib.h, lib.loader, false, nullptr, nullptr }); return e; }
static const char* names[] = { "", "m", "libm.so", "/usr/lib/libm.so", "plain", "plain2", "a.b", "dir/x", "JNI", "verylongplainlibraryname_with_underscores_and_digits_0123456789", "m ", ".", "/" };
static std::string path() { if(anyname && drv::rnd(3) == 0) { std::string s; for(int n = 1 + drv::rnd(5); n-- > 0;) s += "ab./_"[drv::rnd(5)]; return s; } return names[drv::rnd(13)]; }
template<class T> static void history(const char* kind) {
    salt = drv::rng(); anyname = drv::rnd(2); handles.clear(); tr.clear(); nslot = 0; for(auto& s : slots) s.h = nullptr; std::map<std::string, Lib> libs; auto v = new T(); JavaVM* vm = v;
    for(int s = 0, n = drv::rnd(24); s < n && nslot < N - 2; s++) { auto p = path(); int l = drv::rnd(3); tr.clear(); bool att = drv::rnd(5) < 3, had = libs.count(p); drv::kase("%s step %d: %s '%s' (%sattached, %s, %s)", kind, s, att ? "attach" : "remove", p.c_str(), had ? "" : "not ", opens(p.c_str()) ? "opens" : "does not open", plain(p) ? "plain" : "path"); std::vector<Ev> e; auto o = drv::rnd(2) ? "" : "opt";
        if(att) { if(!had) { Lib x; e = expectload(p, l, vm, x); libs[p] = x; } if(p.empty() && drv::rnd(2)) v->attachLibrary("", o, options(l)); else v->attachLibrary(p, o, options(l)); }
        else { if(had) { e = expectunload(p, libs[p], vm); libs.erase(p); } v->removeLibrary(p, o); }
        CHECK(tr == e); }
    tr.clear(); drv::kase("%s: destruction with %d libraries", kind, (int)libs.size()); delete v; std::vector<Ev> seen = tr; size_t total = 0;
    for(auto& q : libs) { auto e = expectunload(q.first, q.second, vm); total += e.size(); std::vector<Ev> mine; for(auto& x : seen) if(q.second.h && x.h == q.second.h) mine.push_back(x); CHECK(mine == e); }
    CHECK(seen.size() == total); for(auto& h : handles) CHECK(!h.second.open);
}
struct Fj : FakeJni::Jvm { }; struct Bj : Baron::Jvm { };
void drive() { Fill<N - 1>::f(loads, unloads); for(int it = 0; it < (drv::thorough ? 3000 : 300); it++) { history<Fj>("FakeJni::Jvm"); history<Bj>("Baron::Jvm"); } }
