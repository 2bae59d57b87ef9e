#include "drv.h"
#include <baron/baron.h>
#include <jnivm/env.h>
#include <jnivm/class.h>
#include <jnivm/method.h>
#include <jnivm/field.h>
using namespace jnivm;
struct J : Baron::Jvm { J() { } J(std::function<void(Baron::Jvm*)> f) : Baron::Jvm(f) { } VM& vm() { return *this; } std::shared_ptr<ENV> mine() { return ((VM*)this)->GetEnv(); } };
typedef std::string S;
struct Rule { S n, s, c; };
struct Model { std::set<S> classes; std::vector<Rule> m, f; };
static bool lax(const S& a, const S& b) { return a.empty() || b.empty() || a == b; }
static bool denied(const std::vector<Rule>& r, const S& n, const S& s, const S& c) { for(auto& x : r) if(lax(x.n, n) && lax(x.s, s) && lax(x.c, c)) return true; return false; }
static const char* N[] = { "", "a", "b", "ab", "abc", "<init>", "longer_name_of_a_member" }; static const char* MS[] = { "", "()V", "(I)V", "(Ljava/lang/String;)Ljava/lang/Object;" }; static const char* FS[] = { "", "I", "J", "Ljava/lang/String;" }; static const char* C[] = { "", "p/A", "p/A$I", "B", "p/q/C", "p/AB", "java/lang/String" };
template<size_t n> static const char* pick(const char* (&a)[n], bool null) { int k = drv::rnd(n + (null ? 2 : 0)); return k >= (int)n ? nullptr : a[k]; }
static S str(const char* s) { return s ? s : ""; }
static void rule(Baron::Jvm* j, Model& m) { int k = drv::rnd(5), old = drv::rnd(3) == 0; auto n = pick(N, true), c = pick(C, true);
    if(k == 0) { auto c = C[1 + drv::rnd(6)]; drv::kase("deny class %s", c); if(old) j->blacklistClass(c); else j->denyClass(c); m.classes.insert(c); }
    else if(k < 3) { auto s = pick(MS, true); if(drv::rnd(3) && !(n && *n) && !(s && *s) && !(c && *c)) return; drv::kase("deny method %s %s %s", str(n).c_str(), str(s).c_str(), str(c).c_str()); if(old) j->blacklistMethod(n, s, c); else if(c && !*c && drv::rnd(2)) j->denyMethod(n, s); else j->denyMethod(n, s, c); m.m.push_back({ str(n), str(s), str(c) }); }
    else { auto s = pick(FS, true); if(drv::rnd(3) && !(n && *n) && !(s && *s) && !(c && *c)) return; drv::kase("deny field %s %s %s", str(n).c_str(), str(s).c_str(), str(c).c_str()); if(old) j->blacklistField(n, s, c); else if(c && !*c && drv::rnd(2)) j->denyField(n, s); else j->denyField(n, s, c); m.f.push_back({ str(n), str(s), str(c) }); } }
struct Count { size_t c, m, f; bool operator==(const Count& o) const { return c == o.c && m == o.m && f == o.f; } };
static Count count(J* j) { Count r{ j->vm().classes.size(), 0, 0 }; for(auto& c : j->vm().classes) { r.m += c.second->methods.size(); r.f += c.second->fields.size(); } return r; }
static void history() {
    Model m; std::unique_ptr<J> j; int early = drv::rnd(3); if(early) j.reset(new J([&](Baron::Jvm* b) { for(int i = drv::rnd(4); i-- > 0;) rule(b, m); })); else j.reset(new J()); auto env = j->mine(); auto e = env->GetJNIEnv(); struct Id { bool st, fld; S c, n, s; bool operator<(const Id& o) const { return std::tie(st, fld, c, n, s) < std::tie(o.st, o.fld, o.c, o.n, o.s); } }; std::map<Id, void*> ids; std::map<S, jclass> known;
    for(int step = 0; step < 60; step++) { int op = drv::rnd(10); if(drv::rnd(4) == 0) rule(j.get(), m);
        auto n = pick(N, true), c = pick(C, true), ms = pick(MS, true), fs = pick(FS, true); S rs; for(auto& r : m.m) rs += "[" + r.n + "," + r.s + "," + r.c + "]"; S rf; for(auto& r : m.f) rf += "[" + r.n + "," + r.s + "," + r.c + "]";
        if(op == 0) { drv::kase("query method %s %s %s rules %.300s", str(n).c_str(), str(ms).c_str(), str(c).c_str(), rs.c_str()); bool d = denied(m.m, str(n), str(ms), str(c)); CHECK(j->isMethodDenied(n, ms, c) == d); CHECK(j->isMethodBlacklisted(n, ms, c) == d); if(c && !*c) CHECK(j->isMethodDenied(n, ms) == d); continue; }
        if(op == 1) { drv::kase("query field %s %s %s rules %.300s", str(n).c_str(), str(fs).c_str(), str(c).c_str(), rf.c_str()); bool d = denied(m.f, str(n), str(fs), str(c)); CHECK(j->isFieldDenied(n, fs, c) == d); CHECK(j->isFieldBlacklisted(n, fs, c) == d); if(c && !*c) CHECK(j->isFieldDenied(n, fs) == d); continue; }
        if(op == 2) { auto q = C[drv::rnd(7)]; drv::kase("query class %s", q); CHECK(j->isClassDenied(q) == !!m.classes.count(q)); CHECK(j->isClassBlacklisted(q) == !!m.classes.count(q)); continue; }
        auto cn = C[1 + drv::rnd(6)]; auto before = count(j.get()); bool exists = j->vm().classes.count(cn), dc = m.classes.count(cn); drv::kase("find class %s (%s, %s)", cn, exists ? "exists" : "new", dc ? "denied" : "allowed");
        jclass cl = nullptr; if(drv::rnd(2)) cl = e->FindClass(cn); else { auto x = j->findClass(cn); cl = (jclass)x.get(); } auto after = count(j.get());
        if(!exists && dc) { CHECK(!cl); CHECK(after == before); continue; } CHECK(cl); if(!cl) return; if(known.count(cn)) CHECK(known[cn] == cl); known[cn] = cl; if(exists) CHECK(after == before); CHECK(S(((Class*)cl)->nativeprefix) == cn); CHECK(j->vm().classes.count(cn));
        if(S(cn) == "java/lang/String") continue;
        bool fld = op >= 7, st = op % 2; S mn = N[1 + drv::rnd(6)], sig = fld ? FS[1 + drv::rnd(3)] : MS[1 + drv::rnd(3)]; if(mn == "<init>" && (fld || st)) continue; Id id{ st, fld, cn, mn, sig }; bool has = ids.count(id), d = denied(fld ? m.f : m.m, mn, sig, cn); before = count(j.get()); drv::kase("find %s%s %s.%s %s (%s, %s) rules %.250s", st ? "static " : "", fld ? "field" : "method", cn, mn.c_str(), sig.c_str(), has ? "exists" : "new", d ? "denied" : "allowed", (fld ? rf : rs).c_str());
        void* r = fld ? st ? (void*)e->GetStaticFieldID(cl, mn.c_str(), sig.c_str()) : (void*)e->GetFieldID(cl, mn.c_str(), sig.c_str()) : st ? (void*)e->GetStaticMethodID(cl, mn.c_str(), sig.c_str()) : (void*)e->GetMethodID(cl, mn.c_str(), sig.c_str()); after = count(j.get());
        if(has) { CHECK(r == ids[id]); CHECK(after == before); } else if(d) { CHECK(!r); CHECK(after == before); } else { CHECK(r); if(!r) continue; if(fld) { CHECK(((Field*)r)->name == mn); CHECK(((Field*)r)->type == sig); CHECK(after.f == before.f + 1); } else { if(mn != "<init>") { CHECK(((Method*)r)->name == mn); CHECK(((Method*)r)->signature == sig); } CHECK(after.m == before.m + 1); } ids[id] = r; for(auto& o : ids) if(o.second == r) CHECK(!(o.first < id) && !(id < o.first)); } }
    j->mine(); env = nullptr; ((JavaVM*)j.get())->DetachCurrentThread();
}
void drive() { for(int it = 0; it < (drv::thorough ? 20000 : 1500); it++) history(); }
