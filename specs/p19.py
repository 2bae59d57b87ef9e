"""P19: direct byte buffers"""
from common import *
FILES=core_files()
BB='jnivm::ByteBuffer'
def g_new(ex):
    world(ex); adr=Const('adr',ex.sort(fieldty(ex,BB,'buffer'))); cap=Const('cap',I); ex.assume(And(cap>=-2**63,cap<2**63)); s0=ex.old()
    r=noexc(ex,lambda: jni(ex,'NewDirectByteBuffer',adr,cap)); ex.reach()
    ex.post(r>Int('alloc!0'),'a new object'); ex.post(ex.isa(BB,r),'a byte buffer'); ex.post(get(ex,BB,'buffer',r)==adr,'address stored unchanged'); ex.post(get(ex,BB,'capacity',r)==cap,'64-bit capacity stored unchanged')
    pushed(ex,s0,[r]); unchanged_except(ex,s0,{LF:[ex.W.E]})
def rd(entry,field,what):
    def body(ex):
        world(ex); h,ro=handle_to(ex,'buf',BB); s0=ex.old(); r0=Const('r0',I); ex.assume(r0==ro); want=get(ex,BB,field,r0)
        r=noexc(ex,lambda: jni(ex,entry,h)); ex.reach(); ex.post(r==want,what); unchanged_except(ex,s0,{})
    return Goal(entry,body,cfg=cfg())
def rej(entry):
    def body(ex):
        world(ex); h=handle(ex,'other'); ro=resolved(ex,h)
        for x in(h,wrapped(ex,WEAK,h),wrapped(ex,GLOB,h)): ex.isa(BB,x)
        ex.assume(And(ro!=0,Not(isa_res(ex,BB,h)))); s0=ex.old()
        try: jni(ex,entry,h)
        except CppThrow: ex.reach(); unchanged_except(ex,s0,{}); return
        ex.reach(); ex.post(BoolVal(False),'a handle to an object of another type is rejected')
    return Goal(entry+' (other type)',body,cfg=cfg())
def goals(P): return unpack_for(P,[BB])+[Goal('NewDirectByteBuffer',g_new,cfg=cfg()),rd('GetDirectBufferAddress','buffer','the address given'),rd('GetDirectBufferCapacity','capacity','the capacity given'),rej('GetDirectBufferAddress'),rej('GetDirectBufferCapacity')]
