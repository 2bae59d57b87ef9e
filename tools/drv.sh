#!/bin/bash
# development helper: builds and runs one driver as check.py does: tools/drv.sh P10 [seed] [tier]; R=<repo copy>
R=${R:-/repo}; o=${OBJ:-/tmp/drvobj}; mkdir -p $o; F="-std=c++17 -g1 -O0 -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -w -DEnableJNIVMGC -DJNI_DEBUG -DJNI_RETURN_NON_ZERO -DJNIVM_FAKE_JNI_SYNTAX=0 -I$R/include -I$R/src/jnivm -I$R/src -I/verif/drivers"
for f in $R/src/jnivm/*.cpp $R/src/jnivm/internal/*.cpp $R/src/jnivm/internal/codegen/*.cpp $R/src/fake-jni/*.cpp $R/src/baron/*.cpp; do b=$o/$(echo $f|tr / _).o; [ $b -nt $f ] && [ -z "$(find $R/include $R/src -newer $b -name '*.h*' | head -1)" ] || clang++ $F -c $f -o $b & done; wait
clang++ $F -c /verif/drivers/$1.cpp -o $o/drv.o || exit 2; clang++ -fsanitize=address -rdynamic $o/*.o -o $o/driver -ldl -lpthread || exit 2
cd $o; ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1 DRV_DIR=$o ./driver ${2:-1} ${3:-quick}
