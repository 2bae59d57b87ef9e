#include "drv.h"
using namespace jnivm;
void drive() {
    for(int it = 0; it < (drv::thorough ? 2000 : 200); it++) {
        VM vm; auto env = vm.GetJNIEnv(); std::vector<std::shared_ptr<Object>> objs; for(int i = 0; i < 3; i++) objs.push_back(std::make_shared<Object>());
        struct Ref { jobject h; int kind; Object* o; }; std::vector<Ref> live; std::vector<Object*> base; for(auto& g : vm.globals) base.push_back(g.get());
        jobject dead; { auto d = std::make_shared<Object>(); dead = env->NewWeakGlobalRef((jobject)d.get()); live.push_back({ dead, 3, nullptr }); }
        auto view = [&] { std::vector<Object*> v; for(auto& g : vm.globals) v.push_back(g.get()); return v; };
        for(int st = 0; st < 30; st++) {
            auto before = view(); int op = drv::rnd(4); jobject src; Object* o; int pick = drv::rnd((unsigned)(objs.size() + live.size() + 2));
            if(pick < (int)objs.size()) { src = (jobject)objs[pick].get(); o = objs[pick].get(); } else if((pick -= (int)objs.size()) < (int)live.size()) { src = live[pick].h; o = live[pick].o; } else { src = pick % 2 ? dead : nullptr; o = nullptr; }
            drv::kase("history %d step %d op %d live %zu", it, st, op, live.size()); CHECK(env->GetObjectRefType(nullptr) == JNIInvalidRefType);
            if(op < 2) {
                jobject r = op ? env->NewWeakGlobalRef(src) : env->NewGlobalRef(src); auto after = view();
                if(!o) { CHECK(!r); CHECK(after == before); }
                else { CHECK(r); for(auto& l : live) CHECK(l.h != r); CHECK(std::find(before.begin(), before.end(), (Object*)r) == before.end()); before.push_back((Object*)r); CHECK(after == before); CHECK(env->IsSameObject(r, (jobject)o));
                    CHECK(op ? (dynamic_cast<Weak*>((Object*)r) && dynamic_cast<Weak*>((Object*)r)->wrapped.lock().get() == o) : (dynamic_cast<Global*>((Object*)r) && dynamic_cast<Global*>((Object*)r)->wrapped.get() == o)); live.push_back({ r, op ? 3 : 2, o }); }
            } else if(!live.empty() && drv::rnd(5)) {
                int k = drv::rnd((unsigned)live.size()); if(live[k].h == dead) continue; bool right = drv::rnd(4), weak = (live[k].kind == 3) == right; bool th = THROWS(weak ? env->DeleteWeakGlobalRef((jweak)live[k].h) : env->DeleteGlobalRef(live[k].h)); auto after = view();
                if(!right) { CHECK(th); CHECK(after == before); } else { CHECK(!th); before.erase(std::find(before.begin(), before.end(), (Object*)live[k].h)); CHECK(after == before); live.erase(live.begin() + k); }
            } else { env->DeleteGlobalRef(nullptr); env->DeleteWeakGlobalRef(nullptr); CHECK(view() == before); }
            for(auto& l : live) { CHECK(env->GetObjectRefType(l.h) == (jobjectRefType)l.kind); CHECK(env->IsSameObject(l.h, (jobject)l.o)); }
            for(auto& ob : objs) CHECK(env->GetObjectRefType((jobject)ob.get()) == JNILocalRefType);
        }
        drv::kase("strength %d", it); std::weak_ptr<Object> w0, w1; jobject g, wk; { auto a = std::make_shared<Object>(), b = std::make_shared<Object>(); w0 = a; w1 = b; g = env->NewGlobalRef((jobject)a.get()); wk = env->NewWeakGlobalRef((jobject)b.get()); }
        CHECK(!w0.expired()); CHECK(w1.expired()); CHECK(env->IsSameObject(wk, nullptr)); CHECK(!env->NewGlobalRef(wk)); CHECK(!env->NewLocalRef(wk)); env->DeleteGlobalRef(g); CHECK(w0.expired()); env->DeleteWeakGlobalRef((jweak)wk);
    }
}
