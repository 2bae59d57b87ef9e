// Uses of the accessor wrapper templates of the library headers (no code of its own): every value type and accessor shape
#include <jnivm.h>
namespace inst {
    using namespace jnivm; using O = std::shared_ptr<Object>;
    template<class F, class...X> using FW = Wrap<F, X...>;
    template<class w, class R = typename Function<typename w::T>::Return> using FC = typename w::template WrapperClasses<typename w::Wrapper>;
    template<class J, class R> struct Acc {
        struct Hold : Object { R m; void set(R); };
        using G0 = FW<R(*)()>; using GE = FW<R(*)(ENV*), ENV*>; using GEC = FW<R(*)(ENV*, Class*), ENV*, Class*>; using GC = FW<R(*)(Class*), Class*>; using GEO = FW<R(*)(ENV*, Object*), ENV*, Object*>; using GO = FW<R(*)(Object*), Object*>;
        using S0 = FW<void(*)(R)>; using SE = FW<void(*)(ENV*, R), ENV*>; using SEC = FW<void(*)(ENV*, Class*, R), ENV*, Class*>; using SC = FW<void(*)(Class*, R), Class*>; using SEO = FW<void(*)(ENV*, Object*, R), ENV*, Object*>; using SO = FW<void(*)(Object*, R), Object*>;
        using P = FW<R*>; using MP = FW<R Hold::*>; using MS = FW<void (Hold::*)(R)>;
        static J sget_plain(typename FC<G0>::StaticGetter& f, ENV* e, Class* c) { return f.StaticGet(e, c, nullptr, {}); }
        static J sget_env(typename FC<GE>::StaticGetter& f, ENV* e, Class* c) { return f.StaticGet(e, c, nullptr, {}); }
        static J sget_env_class(typename FC<GEC>::StaticGetter& f, ENV* e, Class* c) { return f.StaticGet(e, c, nullptr, {}); }
        static J sget_class(typename FC<GC>::StaticGetter& f, ENV* e, Class* c) { return f.StaticGet(e, c, nullptr, {}); }
        static J iget_env_object(typename FC<GEO>::InstanceGetter& f, ENV* e, jobject o) { return f.InstanceGet(e, o, nullptr, {}); }
        static J iget_object(typename FC<GO>::InstanceGetter& f, ENV* e, jobject o) { return f.InstanceGet(e, o, nullptr, {}); }
        static void sset_plain(typename FC<S0>::StaticSetter& f, ENV* e, Class* c, const jvalue* v) { f.StaticSet(e, c, v, {}); }
        static void sset_env(typename FC<SE>::StaticSetter& f, ENV* e, Class* c, const jvalue* v) { f.StaticSet(e, c, v, {}); }
        static void sset_env_class(typename FC<SEC>::StaticSetter& f, ENV* e, Class* c, const jvalue* v) { f.StaticSet(e, c, v, {}); }
        static void sset_class(typename FC<SC>::StaticSetter& f, ENV* e, Class* c, const jvalue* v) { f.StaticSet(e, c, v, {}); }
        static void iset_env_object(typename FC<SEO>::InstanceSetter& f, ENV* e, jobject o, const jvalue* v) { f.InstanceSet(e, o, v, {}); }
        static void iset_object(typename FC<SO>::InstanceSetter& f, ENV* e, jobject o, const jvalue* v) { f.InstanceSet(e, o, v, {}); }
        static J sget_variable(typename FC<P>::StaticGetter& f, ENV* e, Class* c) { return f.StaticGet(e, c, nullptr, {}); }
        static void sset_variable(typename FC<P>::StaticSetter& f, ENV* e, Class* c, const jvalue* v) { f.StaticSet(e, c, v, {}); }
        static J iget_member(typename FC<MP>::InstanceGetter& f, ENV* e, jobject o) { return f.InstanceGet(e, o, nullptr, {}); }
        static void iset_member(typename FC<MP>::InstanceSetter& f, ENV* e, jobject o, const jvalue* v) { f.InstanceSet(e, o, v, {}); }
        static void iset_memfn(typename FC<MS>::InstanceSetter& f, ENV* e, jobject o, const jvalue* v) { f.InstanceSet(e, o, v, {}); }
    };
    template struct Acc<jboolean, jboolean>; template struct Acc<jbyte, jbyte>; template struct Acc<jchar, jchar>; template struct Acc<jshort, jshort>; template struct Acc<jint, jint>; template struct Acc<jlong, jlong>; template struct Acc<jfloat, jfloat>; template struct Acc<jdouble, jdouble>; template struct Acc<jobject, O>;
}
