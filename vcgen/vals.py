"""Sorts, values and locations of the symbolic semantics."""
import z3
from z3 import (Int, IntVal, Bool, BoolVal, And, Or, Not, Implies, If, Function, IntSort, BoolSort, ArraySort, Select, Store, ForAll, Exists, Const, K)

class PathEnd(Exception): pass
class Restart(Exception): pass
class Unsupported(Exception): pass
class ReturnExc(Exception):
    def __init__(s, v): s.v = v
class BreakExc(Exception): pass
class ContinueExc(Exception): pass
class CppThrow(Exception):
    def __init__(s, ty, val, ref=None): s.ty = ty; s.val = val; s.ref = ref   # ty: type name or None (unknown); ref: exception identity

I = IntSort(); B = BoolSort()
Str = z3.DeclareSort('Str')
F64 = z3.DeclareSort('F64'); F32 = z3.DeclareSort('F32')
JV = z3.DeclareSort('JV')
VL = z3.DeclareSort('VaList')
_d = z3.Datatype('CS'); _d.declare('null'); _d.declare('mk', ('s', Str), ('o', I)); CSs = _d.create()
_d = z3.Datatype('Ptr'); _d.declare('mkp', ('blk', I), ('off', I)); Ptr = _d.create()
_reg = {}
def _dget(self, n):
    if n.startswith('_') or n in ('ast','ctx'): raise AttributeError(n)
    c = self.__dict__.get('_regc')
    if c is None:
        c = _reg.get(z3.Z3_get_symbol_string(self.ctx_ref(), z3.Z3_get_sort_name(self.ctx_ref(), self.ast))); self.__dict__['_regc'] = c
    if c is None or n not in c.__dict__: raise AttributeError(n)
    return c.__dict__[n]
z3.DatatypeSortRef.__getattr__ = _dget
PNULL = Ptr.mkp(IntVal(0), IntVal(0))
TBL = ArraySort(I, I)
slen = Function('slen', Str, I); sat = Function('sat', Str, I, I)
sub = Function('sub', Str, I, I, Str)      # sub(s, from, len)
cat = Function('cat', Str, Str, Str)
nonul = Function('nonul', Str, B)
bytestr = [Function('str%d' % k, *([I] * k + [Str])) for k in range(0, 5)]
f32_of = Function('f64_to_f32', F64, F32); f64_of = Function('f32_to_f64', F32, F64)
p2v = Function('p2v', Ptr, I); v2p = Function('v2p', I, Ptr)
memstr = Function('memstr', ArraySort(I, I), I, I, Str)
alive = Function('alive', I, B)

_vecs = {}
def VecSort(el):
    k = el.sexpr()
    if k not in _vecs:
        d = z3.Datatype('Vec_%d_%s' % (len(_vecs), ''.join(c if c.isalnum() else '_' for c in k)[:40])); d.declare('mkv', ('len', I), ('arr', ArraySort(I, el))); s = d.create(); s.elem = el; _vecs[k] = s; _reg[s.name()] = s
    return _vecs[k]
_maps = {}
def MapSort(kk, vv):
    k = (kk.sexpr(), vv.sexpr())
    if k not in _maps:
        d = z3.Datatype('Map_%d' % len(_maps)); d.declare('mkm', ('dom', ArraySort(kk, B)), ('val', ArraySort(kk, vv))); s = d.create(); s.kk = kk; s.vv = vv; _maps[k] = s; _reg[s.name()] = s
    return _maps[k]
_structs = {}
def StructSort(name, fields):
    fields = [(f + '_' if f in ('name', 'sort', 'kind', 'ast', 'ctx') else f, x) for f, x in fields]
    """fields: [(n, sort)]"""
    if name not in _structs:
        d = z3.Datatype('S_' + ''.join(c if c.isalnum() else '_' for c in name)); d.declare('mks', *fields) if fields else d.declare('mks'); s = d.create(); s.fnames = [f[0] for f in fields]; _structs[name] = s; _reg[s.name()] = s
    return _structs[name]

_fn = {}
def func(name, *sorts):
    k = (name,) + tuple(s.sexpr() for s in sorts)
    if k not in _fn: _fn[k] = Function(name, *sorts)
    return _fn[k]

# ---- python-level values
class PtrTo:
    """address of a location that is not in the modelled heap"""
    def __init__(s, lv): s.lv = lv
class Lambda:
    def __init__(s, fn, caps, this, node, frame): s.fn = fn; s.caps = caps; s.this = this; s.node = node; s.frame = frame
class MemPtr:
    """&Class::field"""
    def __init__(s, rec, field): s.rec = rec; s.field = field
class FnPtr:
    def __init__(s, fn): s.fn = fn
class Iter:
    """position in a vector-like container; rev: index counts from the end (forward_list)"""
    def __init__(s, lv, idx, rev=False): s.lv = lv; s.idx = idx; s.rev = rev
class MapIter:
    def __init__(s, lv, key, end): s.lv = lv; s.key = key; s.end = end   # end: z3 Bool: is end()
class VaList:
    """id: the argument sequence, lv holding the cursor"""
    def __init__(s, id, cur): s.id = id; s.cur = cur
class Stream:
    pass
class InitL:
    def __init__(s, vals): s.vals = vals
class Opaque:
    def __init__(s, what): s.what = what
class Rec:
    """object with identity (a glvalue or temporary of a class type)"""
    def __init__(s, ref, ty): s.ref = ref; s.ty = ty

# ---- locations
class LV: pass
class StoreLV(LV):
    """a location held directly in the store under a key (locals, globals, ghosts)"""
    def __init__(s, key, ty): s.key = key; s.ty = ty
    def load(s, ex): 
        v = ex.store[s.key]
        if v is None: v = ex.fresh_of(s.ty, 'uninit'); ex.store[s.key] = v
        return v
    def put(s, ex, v): ex.store[s.key] = v
    def __repr__(s): return 'StoreLV%r' % (s.key,)
class HeapLV(LV):
    """heap map `key`, indexed by object reference"""
    def __init__(s, key, ref, ty, sort): s.key = key; s.ref = ref; s.ty = ty; s.sort = sort
    def load(s, ex):
        a = ex.hmap(s.key, s.sort); v = Select(a, s.ref)
        v = z3.simplify(v) if z3.is_app(a) and a.num_args() else v
        ex.on_read(v, s.ty); return v
    def put(s, ex, v): ex.store[('H', s.key)] = Store(ex.hmap(s.key, s.sort), s.ref, v); ex.touched(s.key, s.ref)
class ElemLV(LV):
    def __init__(s, base, idx, ty): s.base = base; s.idx = idx; s.ty = ty
    def load(s, ex):
        v = s.base.load(ex); so = v.sort(); r = z3.simplify(Select(so.arr(v), s.idx)); ex.on_read(r, s.ty); return r
    def put(s, ex, x):
        v = s.base.load(ex); so = v.sort(); s.base.put(ex, so.mkv(so.len(v), Store(so.arr(v), s.idx, x)))
class MapValLV(LV):
    def __init__(s, base, key, ty): s.base = base; s.key = key; s.ty = ty
    def load(s, ex):
        v = s.base.load(ex); r = Select(v.sort().val(v), s.key); r = z3.simplify(r); ex.on_read(r, s.ty); return r
    def put(s, ex, x):
        v = s.base.load(ex); so = v.sort(); s.base.put(ex, so.mkm(so.dom(v), Store(so.val(v), s.key, x)))
class StructLV(LV):
    def __init__(s, base, idx, ty): s.base = base; s.idx = idx; s.ty = ty
    def load(s, ex):
        v = s.base.load(ex); r = z3.simplify(v.sort().accessor(0, s.idx)(v)); ex.on_read(r, s.ty); return r
    def put(s, ex, x):
        v = s.base.load(ex); so = v.sort(); n = so.constructor(0).arity()
        s.base.put(ex, so.constructor(0)(*[x if k == s.idx else so.accessor(0, k)(v) for k in range(n)]))
class TblLV(LV):
    def __init__(s, base, idx, ty): s.base = base; s.idx = idx; s.ty = ty
    def load(s, ex): return z3.simplify(Select(s.base.load(ex), IntVal(s.idx)))
    def put(s, ex, x): s.base.put(ex, Store(s.base.load(ex), IntVal(s.idx), x))
class MemLV(LV):
    def __init__(s, key, ptr, ty, sort): s.key = key; s.ptr = ptr; s.ty = ty; s.sort = sort
    def load(s, ex):
        a = ex.mem(s.key, s.sort); v = Select(Select(a, Ptr.blk(s.ptr)), Ptr.off(s.ptr)); v = z3.simplify(v); ex.on_read(v, s.ty); return v
    def put(s, ex, x):
        a = ex.mem(s.key, s.sort); b = z3.simplify(Ptr.blk(s.ptr)); o = z3.simplify(Ptr.off(s.ptr))
        ex.store[('M', s.key)] = Store(a, b, Store(Select(a, b), o, x)); ex.touched('mem.' + s.key, b)
class JVLV(LV):
    """member of a jvalue"""
    def __init__(s, base, f, ty): s.base = base; s.f = f; s.ty = ty
    def load(s, ex):
        r = ex.jv_get(s.base.load(ex), s.f, s.ty); return r
    def put(s, ex, x): s.base.put(ex, ex.jv_mk(s.f, x, s.ty))
class TmpLV(LV):
    def __init__(s, v, ty): s.v = v; s.ty = ty
    def load(s, ex): return s.v
    def put(s, ex, v): s.v = v
class CharLV(LV):
    def __init__(s, cs, ty): s.cs = cs; s.ty = ty
    def load(s, ex): return ex.char_at(s.cs)
    def put(s, ex, v): raise Unsupported('write through const char*')
class StrElemLV(LV):
    def __init__(s, base, idx, ty): s.base = base; s.idx = idx; s.ty = ty
    def load(s, ex): v = s.base.load(ex); return ex.str_at(v, s.idx)
    def put(s, ex, x):
        v = s.base.load(ex); s.base.put(ex, ex.str_set(v, s.idx, x))
