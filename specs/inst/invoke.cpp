// Uses of the Method::invoke templates of the library headers (no code of its own)
#include <jnivm.h>
namespace inst {
    using namespace jnivm; using O = std::shared_ptr<Object>;
    struct Invoke {
        static jvalue class_none(Method& m, JNIEnv& e, Class* c) { return m.invoke(e, c); }
        static jvalue object_none(Method& m, JNIEnv& e, Object* c) { return m.invoke(e, c); }
        static jvalue class_all(Method& m, JNIEnv& e, Class* c, jboolean z, jbyte b, jchar h, jshort s, jint i, jlong j, jfloat f, jdouble d, O o) { return m.invoke(e, c, z, b, h, s, i, j, f, d, o); }
        static jvalue object_all(Method& m, JNIEnv& e, Object* c, jboolean z, jbyte b, jchar h, jshort s, jint i, jlong j, jfloat f, jdouble d, O o) { return m.invoke(e, c, z, b, h, s, i, j, f, d, o); }
    };
}
