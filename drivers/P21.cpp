// P21: random histories of hook calls against a model: members keep place and identity, IDs call the implementation hooked last
#include "calls.h"
#include <jnivm/field.h>
#include <jnivm/method.h>
#include <internal/field.hpp>
namespace {
    struct Ob : Extends<> { int m1 = 0, m2 = 0; int fa(int x) { return 900000 + x; } int fb(int x) { return 901000 + x; } std::shared_ptr<String> fs(std::shared_ptr<String> s) { return s; } };
    int var1, var2, last, lastset; void* lastrecv;
    struct Key { bool meth, st; std::string name, sig; bool operator<(const Key& o) const { return std::tie(meth, st, name, sig) < std::tie(o.meth, o.st, o.name, o.sig); } };
    struct Impl { int call = -1, get = -1, set = -1; };
    struct Sim { std::vector<Key> methods, fields; std::map<Key, Impl> impl; std::map<Key, void*> ids;
        Impl& at(const Key& k) { auto i = impl.find(k); if(i == impl.end()) { (k.meth ? methods : fields).push_back(k); } return impl[k]; } };
}
static void history(jnivm::VM& vm, int n, int len) {
    auto env = vm.GetJNIEnv(); auto e = ENV::FromJNIEnv(env); auto c = e->GetClass<Ob>(("h/K" + std::to_string(n)).data()).get(); auto d = e->GetClass(("h/D" + std::to_string(n)).data()).get();
    vm.typecheck.erase(typeid(Ob)); vm.typecheck.emplace(typeid(Ob), std::static_pointer_cast<Class>(c->shared_from_this()));
    Sim s; auto sync = [&] { for(auto& m : c->methods) s.at({ true, m->_static, m->name, m->signature }); for(auto& f : c->fields) s.at({ false, f->_static, f->name, f->type }); }; sync();
    d->Hook(e, "x", +[](int) -> int { return 5; }); d->Hook(e, "a", +[]() -> int { return 6; }); auto dm = d->methods; std::vector<std::shared_ptr<jnivm::MethodHandle>> dh; for(auto& m : dm) dh.push_back(m->nativehandle);
    auto o = std::make_shared<Ob>(); o->clazz = std::static_pointer_cast<Class>(c->shared_from_this()); auto J = (jobject)(Object*)o.get(); jclass kc = (jclass)c;
    const char* names[] = { "a", "b", "aa", "", "<x>" }; std::map<Key, void*> ids;
    auto put = [&](bool st, const char* nm, const char* sig, int id) { s.at({ true, st, nm, sig }).call = id; };
    for(int step = 0; step < len; step++) {
        const char* nm = names[drv::rnd(5)]; int id = n * 1000 + step, op = drv::rnd(21); drv::kase("history %d step %d: operation %d on %s", n, step, op, nm);
        auto bm = c->methods; auto bf = c->fields;
        switch(op) {
        case 0: c->Hook(e, nm, [id](int x) -> int { return id + x; }); put(true, nm, "(I)I", id); break;
        case 1: c->Hook(e, nm, [id](ENV*, int x) -> int { return id + x; }); put(true, nm, "(I)I", id); break;
        case 2: c->Hook(e, nm, [id](ENV*, Class* k, int x) -> int { lastrecv = k; return id + x; }); put(true, nm, "(Ljava/lang/Class;I)I", id); put(true, nm, "(I)I", id); break;
        case 3: c->Hook(e, nm, [id](Class* k, int x) -> int { lastrecv = k; return id + x; }); put(true, nm, "(Ljava/lang/Class;I)I", id); put(true, nm, "(I)I", id); break;
        case 4: c->HookInstanceFunction(e, nm, [id](ENV*, Object* r, int x) -> int { lastrecv = r; return id + x; }); put(false, nm, "(Ljava/lang/Object;I)I", id); put(false, nm, "(I)I", id); break;
        case 5: c->HookInstanceFunction(e, nm, [id](int x) -> int { return id + x; }); put(false, nm, "(I)I", id); break;
        case 6: c->HookInstance(e, nm, [id](Ob* r, int x) -> int { lastrecv = (Object*)r; return id + x; }); { auto sg = "(L" + c->nativeprefix + ";I)I"; put(false, nm, sg.data(), id); } put(false, nm, "(I)I", id); break;
        case 7: c->Hook(e, nm, &Ob::fa); put(false, nm, "(I)I", 900000); break;
        case 8: c->Hook(e, nm, &Ob::fb); put(false, nm, "(I)I", 901000); break;
        case 9: c->Hook(e, nm, [id](jlong) -> void { last = id; }); put(true, nm, "(J)V", id); break;
        case 20: c->Hook(e, nm, [id](int x) -> jlong { return id + x + 1; }); put(true, nm, "(I)J", id); break;
        case 10: c->HookGetterFunction(e, nm, [id]() -> int { return id; }); s.at({ false, true, nm, "I" }).get = id; break;
        case 11: c->HookSetterFunction(e, nm, [id](int v) { lastset = id; last = v; }); s.at({ false, true, nm, "I" }).set = id; break;
        case 12: c->HookInstanceGetterFunction(e, nm, [id](ENV*, Object*) -> int { return id; }); s.at({ false, false, nm, "I" }).get = id; break;
        case 13: c->HookInstanceSetterFunction(e, nm, [id](ENV*, Object*, int v) { lastset = id; last = v; }); s.at({ false, false, nm, "I" }).set = id; break;
        case 14: c->Hook(e, nm, &var1); s.at({ false, true, nm, "I" }).get = s.at({ false, true, nm, "I" }).set = -2; break;
        case 15: c->Hook(e, nm, &var2); s.at({ false, true, nm, "I" }).get = s.at({ false, true, nm, "I" }).set = -3; break;
        case 16: c->Hook(e, nm, &Ob::m1); s.at({ false, false, nm, "I" }).get = s.at({ false, false, nm, "I" }).set = -4; break;
        case 17: c->HookInstanceProperty(e, nm, &Ob::m2); s.at({ false, false, nm, "I" }).get = s.at({ false, false, nm, "I" }).set = -5; break;
        case 18: c->HookGetterFunction(e, nm, [id](ENV*, Class*) -> std::shared_ptr<String> { return std::make_shared<String>(std::to_string(id)); }); s.at({ false, true, nm, "Ljava/lang/String;" }).get = id; break;
        case 19: if(*nm && *nm != '<') { jmethodID m = drv::rnd(2) ? env->GetMethodID(kc, nm, "(I)I") : env->GetStaticMethodID(kc, nm, "(I)I"); CHECK(m); for(auto& x : c->methods) if((jmethodID)x.get() == m) s.at({ true, x->_static, x->name, x->signature }); } break;
        }
        // the tables
        CHECK(c->methods.size() == s.methods.size() && c->fields.size() == s.fields.size()); if(c->methods.size() != s.methods.size() || c->fields.size() != s.fields.size()) return;
        for(size_t i = 0; i < bm.size(); i++) CHECK(c->methods[i] == bm[i]);
        for(size_t i = 0; i < bf.size(); i++) CHECK(c->fields[i] == bf[i]);
        for(size_t i = 0; i < s.methods.size(); i++) { auto& m = c->methods[i]; auto& k = s.methods[i]; CHECK(m->name == k.name && m->signature == k.sig && m->_static == k.st); if(!ids.count(k)) ids[k] = m.get(); CHECK(ids[k] == m.get()); }
        for(size_t i = 0; i < s.fields.size(); i++) { auto& m = c->fields[i]; auto& k = s.fields[i]; CHECK(m->name == k.name && m->type == k.sig && m->_static == k.st); if(!ids.count(k)) ids[k] = m.get(); CHECK(ids[k] == m.get()); }
        CHECK(d->methods == dm); for(size_t i = 0; i < dm.size(); i++) CHECK(dm[i]->nativehandle == dh[i]);
        // implementations behind the IDs
        for(auto& p : s.impl) { auto& k = p.first; auto& im = p.second; void* q = ids[k];
            if(k.meth && im.call >= 0) { int x = drv::rnd(100); lastrecv = nullptr;
                if(k.sig == "(I)I") { jint r = k.st ? env->CallStaticIntMethod(kc, (jmethodID)q, x) : env->CallIntMethod(J, (jmethodID)q, x); CHECK(r == im.call + x); CHECK(!lastrecv || lastrecv == (k.st ? (void*)c : (void*)(Object*)o.get())); }
                else if(k.sig == "(I)J") { CHECK(env->CallStaticLongMethod(kc, (jmethodID)q, x) == im.call + x + 1); }
                else if(k.sig == "(J)V") { last = -1; env->CallStaticVoidMethod(kc, (jmethodID)q, (jlong)3); CHECK(last == im.call); }
                else { jint r = k.st ? env->CallStaticIntMethod(kc, (jmethodID)q, (jobject)d, x) : env->CallIntMethod(J, (jmethodID)q, J, x); CHECK(r == im.call + x); CHECK(!lastrecv || lastrecv == (k.st ? (void*)d : (void*)(Object*)o.get())); }
            }
            if(!k.meth && k.sig == "I") { var1 = 71; var2 = 72; o->m1 = 73; o->m2 = 74; auto val = [&](int g) { return g == -2 ? var1 : g == -3 ? var2 : g == -4 ? o->m1 : g == -5 ? o->m2 : g; };
                if(im.get != -1) { jint r = k.st ? env->GetStaticIntField(kc, (jfieldID)q) : env->GetIntField(J, (jfieldID)q); CHECK(r == val(im.get)); }
                if(im.set != -1) { lastset = -1; last = -1; int x = 500 + drv::rnd(99); if(k.st) env->SetStaticIntField(kc, (jfieldID)q, x); else env->SetIntField(J, (jfieldID)q, x); if(im.set >= 0) CHECK(lastset == im.set && last == x); else CHECK(lastset == -1 && val(im.set) == x); }
                CHECK((var1 != 71) + (var2 != 72) + (o->m1 != 73) + (o->m2 != 74) == (im.set < -1 ? 1 : 0)); }
        }
    }
}
void drive() {
    jnivm::VM vm; auto env = vm.GetJNIEnv();
    for(int n = 0; n < (drv::thorough ? 600 : 60); n++) { env->PushLocalFrame(16); history(vm, n, 40); env->PopLocalFrame(nullptr); }
}
