// Uses of the hook wrapper templates of the library headers (no code of its own): every return type and parameter type
#include <jnivm.h>
namespace inst {
    using namespace jnivm; using O = std::shared_ptr<Object>;
    template<class F, class...X> using W = Wrap<F, X...>;
    template<class w, class R = typename Function<typename w::T>::Return> using WC = typename w::template WrapperClasses<typename w::Wrapper>;
#define PR jboolean, jbyte, jchar, jshort, jint, jlong, jfloat, jdouble, O
    template<class J, class R> struct Hook {
        struct Hold : Object { R method(PR); };
        using Plain = W<R(*)(PR)>; using Env = W<R(*)(ENV*, PR), ENV*>; using Cls = W<R(*)(ENV*, Class*, PR), ENV*, Class*>; using Cl0 = W<R(*)(Class*, PR), Class*>; using Obj = W<R(*)(ENV*, Object*, PR), ENV*, Object*>; using Mem = W<R (Hold::*)(PR)>; using Ob0 = W<R(*)(Object*, PR), Object*>;
        static J static_plain(typename WC<Plain>::StaticFunction& f, ENV* e, Class* c, const jvalue* v) { return f.StaticInvoke(e, c, v, {}); }
        static J static_env(typename WC<Env>::StaticFunction& f, ENV* e, Class* c, const jvalue* v) { return f.StaticInvoke(e, c, v, {}); }
        static J static_env_class(typename WC<Cls>::StaticFunction& f, ENV* e, Class* c, const jvalue* v) { return f.StaticInvoke(e, c, v, {}); }
        static J static_class(typename WC<Cl0>::StaticFunction& f, ENV* e, Class* c, const jvalue* v) { return f.StaticInvoke(e, c, v, {}); }
        static J instance_env_object(typename WC<Obj>::InstanceFunction& f, ENV* e, jobject o, const jvalue* v) { return f.InstanceInvoke(e, o, v, {}); }
        static J instance_object(typename WC<Ob0>::InstanceFunction& f, ENV* e, jobject o, const jvalue* v) { return f.InstanceInvoke(e, o, v, {}); }
        static J instance_member(typename WC<Mem>::InstanceFunction& f, ENV* e, jobject o, const jvalue* v) { return f.InstanceInvoke(e, o, v, {}); }
        static J nonvirtual_env_object(typename WC<Obj>::InstanceFunction& f, ENV* e, jobject o, const jvalue* v) { return f.NonVirtualInstanceInvoke(e, o, v, {}); }
        static J nonvirtual_object(typename WC<Ob0>::InstanceFunction& f, ENV* e, jobject o, const jvalue* v) { return f.NonVirtualInstanceInvoke(e, o, v, {}); }
    };
    template struct Hook<jboolean, jboolean>; template struct Hook<jbyte, jbyte>; template struct Hook<jchar, jchar>; template struct Hook<jshort, jshort>; template struct Hook<jint, jint>; template struct Hook<jlong, jlong>; template struct Hook<jfloat, jfloat>; template struct Hook<jdouble, jdouble>; template struct Hook<void, void>; template struct Hook<jobject, O>;
}
