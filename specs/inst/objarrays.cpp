// Uses of the object-array templates of the library headers (no code of its own): plain, derived and library element classes
#include <jnivm.h>
namespace inst {
    struct A : jnivm::Extends<> {}; struct B : jnivm::Extends<A> {};
    template<class T> void use(jnivm::ENV* env) { std::make_shared<jnivm::Array<T>>(1); jnivm::JNITypes<std::shared_ptr<jnivm::Array<T>>>::GetJNISignature(env); }
    void instantiate(jnivm::ENV* env) { use<A>(env); use<B>(env); use<jnivm::Class>(env); }
}
