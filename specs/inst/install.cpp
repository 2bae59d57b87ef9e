// Uses of the hooking functions of jnivm::Class (no code of its own): every value type, every shape of function, accessor and variable
#include <jnivm.h>
namespace inst {
    using namespace jnivm; using O = std::shared_ptr<Object>; using S = std::shared_ptr<String>; using Id = const std::string&;
#define PR P...
    struct Hold : Object {};
    template<class R, class...P> struct Fun {
        static void plain(Class* c, ENV* e, Id n, R(*f)(PR)) { c->Hook(e, n, std::move(f)); }
        static void env(Class* c, ENV* e, Id n, R(*f)(ENV*, PR)) { c->Hook(e, n, std::move(f)); }
        static void jenv(Class* c, ENV* e, Id n, R(*f)(JNIEnv*, PR)) { c->Hook(e, n, std::move(f)); }
        static void env_class(Class* c, ENV* e, Id n, R(*f)(ENV*, Class*, PR)) { c->Hook(e, n, std::move(f)); }
        static void class0(Class* c, ENV* e, Id n, R(*f)(Class*, PR)) { c->Hook(e, n, std::move(f)); }
        static void none(Class* c, ENV* e, Id n, R(*f)()) { c->Hook(e, n, std::move(f)); }
        static void memfn(Class* c, ENV* e, Id n, R (Hold::*f)(PR)) { c->Hook(e, n, std::move(f)); }
        static void memfn_none(Class* c, ENV* e, Id n, R (Hold::*f)()) { c->Hook(e, n, std::move(f)); }
        static void i_memfn(Class* c, ENV* e, Id n, R (Hold::*f)(PR)) { c->HookInstance(e, n, std::move(f)); }
        static void i_plain(Class* c, ENV* e, Id n, R(*f)(PR)) { c->HookInstanceFunction(e, n, std::move(f)); }
        static void i_env(Class* c, ENV* e, Id n, R(*f)(ENV*, PR)) { c->HookInstanceFunction(e, n, std::move(f)); }
        static void i_env_object(Class* c, ENV* e, Id n, R(*f)(ENV*, Object*, PR)) { c->HookInstanceFunction(e, n, std::move(f)); }
        static void i_object(Class* c, ENV* e, Id n, R(*f)(Object*, PR)) { c->HookInstanceFunction(e, n, std::move(f)); }
        static void i_env_hold(Class* c, ENV* e, Id n, R(*f)(ENV*, Hold*, PR)) { c->HookInstanceFunction(e, n, std::move(f)); }
        static void i_hold(Class* c, ENV* e, Id n, R(*f)(Hold*, PR)) { c->HookInstance(e, n, std::move(f)); }
    };
    template<class R> struct Get {
        static void plain(Class* c, ENV* e, Id n, R(*f)()) { c->HookGetterFunction(e, n, std::move(f)); }
        static void env(Class* c, ENV* e, Id n, R(*f)(ENV*)) { c->HookGetterFunction(e, n, std::move(f)); }
        static void env_class(Class* c, ENV* e, Id n, R(*f)(ENV*, Class*)) { c->HookGetterFunction(e, n, std::move(f)); }
        static void class0(Class* c, ENV* e, Id n, R(*f)(Class*)) { c->HookGetterFunction(e, n, std::move(f)); }
        static void i_plain(Class* c, ENV* e, Id n, R(*f)()) { c->HookInstanceGetterFunction(e, n, std::move(f)); }
        static void i_env_object(Class* c, ENV* e, Id n, R(*f)(ENV*, Object*)) { c->HookInstanceGetterFunction(e, n, std::move(f)); }
        static void i_object(Class* c, ENV* e, Id n, R(*f)(Object*)) { c->HookInstanceGetterFunction(e, n, std::move(f)); }
    };
    template<class R> struct Set {
        static void plain(Class* c, ENV* e, Id n, void(*f)(R)) { c->HookSetterFunction(e, n, std::move(f)); }
        static void env(Class* c, ENV* e, Id n, void(*f)(ENV*, R)) { c->HookSetterFunction(e, n, std::move(f)); }
        static void env_class(Class* c, ENV* e, Id n, void(*f)(ENV*, Class*, R)) { c->HookSetterFunction(e, n, std::move(f)); }
        static void class0(Class* c, ENV* e, Id n, void(*f)(Class*, R)) { c->HookSetterFunction(e, n, std::move(f)); }
        static void i_plain(Class* c, ENV* e, Id n, void(*f)(R)) { c->HookInstanceSetterFunction(e, n, std::move(f)); }
        static void i_env_object(Class* c, ENV* e, Id n, void(*f)(ENV*, Object*, R)) { c->HookInstanceSetterFunction(e, n, std::move(f)); }
        static void i_object(Class* c, ENV* e, Id n, void(*f)(Object*, R)) { c->HookInstanceSetterFunction(e, n, std::move(f)); }
        static void i_memfn(Class* c, ENV* e, Id n, void(Hold::*f)(R)) { c->HookInstanceSetterFunction(e, n, std::move(f)); }
    };
    template<class R> struct Prop {
        static void variable(Class* c, ENV* e, Id n, R* f) { c->Hook(e, n, std::move(f)); }
        static void member(Class* c, ENV* e, Id n, R Hold::* f) { c->Hook(e, n, std::move(f)); }
        static void i_variable(Class* c, ENV* e, Id n, R* f) { c->HookInstance(e, n, std::move(f)); }
        static void i_member(Class* c, ENV* e, Id n, R Hold::* f) { c->HookInstance(e, n, std::move(f)); }
        static void ip_member(Class* c, ENV* e, Id n, R Hold::* f) { c->HookInstanceProperty(e, n, std::move(f)); }
    };
#define FOR(T) template struct T<jboolean>; template struct T<jbyte>; template struct T<jchar>; template struct T<jshort>; template struct T<jint>; template struct T<jlong>; template struct T<jfloat>; template struct T<jdouble>; template struct T<O>; template struct T<S>;
#define FUN(R) template struct Fun<R, O, R, jlong>;
    FUN(jboolean) FUN(jbyte) FUN(jchar) FUN(jshort) FUN(jint) FUN(jlong) FUN(jfloat) FUN(jdouble) FUN(O) FUN(S) template struct Fun<void, jint, O>;
    FOR(Get) FOR(Set) FOR(Prop)
}
