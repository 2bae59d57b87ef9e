"""Primitive and object arrays: shared pieces of the specifications"""
from common import *
AV='jnivm::impl::Array<void, void, true>'; AO='jnivm::impl::Array<jnivm::Object, void, false>'
PRIM=[('Boolean','unsigned char','Z'),('Byte','signed char','B'),('Char','unsigned short','C'),('Short','short','S'),('Int','int','I'),('Long','long','J'),('Float','float','F'),('Double','double','D')]
def AT(t): return 'jnivm::impl::Array<%s, void, true>'%t
def esort(t): return F64 if t=='double' else F32 if t=='float' else I
def elems(ex,t): return ex.mem(t,esort(t))
def data(ex,r,store=None): return ex.void2ptr(get(ex,AV,'data',r))
def arr(ex,t,name='a'):
    """a handle to an array of n elements of type t"""
    h,r0=handle_to(ex,name,AT(t)); r=Const(name+'_o',I); ex.assume(r==r0); n=get(ex,AV,'length',r); p=data(ex,r)
    ex.assume(And(n>=0,n<2**31,Ptr.off(p)>=0)); ex.assume(And(Ptr.blk(p)>0,Ptr.blk(p)<=ex.alloc,Select(ex.blksize(),Ptr.blk(p))>=Ptr.off(p)+n))
    return h,r,n,p
