#include "drv.h"
using namespace jnivm;
typedef std::vector<std::vector<Object*>> Model; // outermost first
static Model view(ENV& e) { Model m; for(auto& f : e.localframe) { m.emplace_back(); for(auto& o : f) m.back().push_back(o.get()); } std::reverse(m.begin(), m.end()); return m; }
void drive() {
    for(int it = 0; it < (drv::thorough ? 3000 : 250); it++) {
        VM vm; auto& e = *vm.GetEnv(); auto env = vm.GetJNIEnv(); Model m = view(e); CHECK(m.size() == 1);
        std::vector<std::shared_ptr<Object>> objs; for(int i = 0; i < 4; i++) objs.push_back(std::make_shared<Object>());
        std::vector<jobject> hs; std::vector<Object*> rs; auto add = [&](jobject h, Object* r) { hs.push_back(h); rs.push_back(r); };
        add(nullptr, nullptr); for(auto& o : objs) { add((jobject)o.get(), o.get()); auto g = env->NewGlobalRef((jobject)o.get()), w = env->NewWeakGlobalRef((jobject)o.get()); add(g, o.get()); add(w, o.get()); }
        { auto dead = std::make_shared<Object>(); auto w = env->NewWeakGlobalRef((jobject)dead.get()); dead.reset(); add(w, nullptr); }
        m = view(e);
        for(int st = 0; st < 40; st++) {
            int op = drv::rnd(10), k = drv::rnd((unsigned)hs.size()); drv::kase("history %d step %d op %d handle %d frames %zu", it, st, op, k, m.size());
            if(op <= 1) { int cap = drv::rnd(3) * 17; CHECK(env->PushLocalFrame(cap) == 0); m.emplace_back(); }
            else if(op <= 3) { jobject r = env->PopLocalFrame(hs[k]); m.pop_back(); if(m.empty()) m.emplace_back(); if(rs[k]) { m.back().push_back(rs[k]); CHECK((Object*)r == rs[k]); } else CHECK(!r || r == hs[k]); }
            else if(op <= 6) { jobject r = env->NewLocalRef(hs[k]); CHECK((Object*)r == rs[k]); if(rs[k]) m.back().push_back(rs[k]); }
            else if(op == 7) { CHECK(env->EnsureLocalCapacity(drv::rnd(60)) == 0); }
            else { env->DeleteLocalRef(hs[k]); if(rs[k]) for(size_t f = m.size(); f-- > 0;) { auto p = std::find(m[f].begin(), m[f].end(), rs[k]); if(p != m[f].end()) { m[f].erase(p); break; } } }
            CHECK(view(e) == m);
            for(auto& f : e.freeframes) CHECK(f.empty());
        }
    }
    drv::kase("references handed out are strong and recorded in the innermost frame"); VM vm; auto& e = *vm.GetEnv(); auto env = vm.GetJNIEnv(); size_t n;
    auto fresh = [&](const char* what, std::function<jobject()> mk) { for(int d = 0; d < 3; d++) { drv::kase("%s in frame depth %d", what, d); env->PushLocalFrame(d); auto m = view(e); jobject o = mk(); auto v = view(e); CHECK(o); CHECK(v.size() == m.size());
        if(o && v.size() == m.size()) { CHECK(std::find(v.back().begin(), v.back().end(), (Object*)o) != v.back().end()); v.back() = m.back(); CHECK(v == m); } } for(int d = 0; d < 3; d++) env->PopLocalFrame(nullptr); };
    auto cl = env->FindClass("a/B"); (void)n;
    fresh("NewStringUTF", [&] { return (jobject)env->NewStringUTF("x"); }); fresh("NewString", [&] { jchar c = 'x'; return (jobject)env->NewString(&c, 1); });
    fresh("NewIntArray", [&] { return (jobject)env->NewIntArray(3); }); fresh("NewObjectArray", [&] { return (jobject)env->NewObjectArray(2, cl, nullptr); });
    fresh("NewDirectByteBuffer", [&] { return env->NewDirectByteBuffer(&cl, 1); }); fresh("FindClass", [&] { return (jobject)env->FindClass("a/C"); });
    auto arr = env->NewObjectArray(1, cl, (jobject)cl); fresh("GetObjectArrayElement", [&] { return env->GetObjectArrayElement(arr, 0); });
    env->ThrowNew(cl, "m"); fresh("ExceptionOccurred", [&] { return (jobject)env->ExceptionOccurred(); });
}
