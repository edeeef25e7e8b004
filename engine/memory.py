"""Memory model: objects with either byte-offset cells (Flat) or strided symbolic arrays (ArrC)."""
import z3
from fractions import Fraction
from terms import *
import terms as T

class Obj:
    n = 0
    __slots__ = ('id', 'name', 'size', 'fam', 'uninit', 'addr', 'kind', 'elem', 'initc')
    def __init__(s, name, size, kind='heap', fam=False):
        Obj.n += 1
        s.id = Obj.n; s.name = name; s.size = size; s.fam = fam; s.uninit = {}; s.addr = None; s.kind = kind; s.elem = None; s.initc = None
    def __repr__(s): return "<%s#%d>" % (s.name, s.id)

class Fn:
    """code pointer target"""
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __repr__(s): return "@" + s.name

class Ptr:
    """guarded alternatives (guard, obj|Fn|None, fam index, byte offset)"""
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts
    def __repr__(s): return "Ptr" + repr(s.alts)
NULL = Ptr(((True, None, None, 0),))
POISON = Fn('<uninitialised pointer>')
WILD = Ptr(((True, POISON, None, 0),))
def mkptr(obj, off=0, fi=None): return Ptr(((True, obj, fi, off),))
def isnullptr(p): return len(p.alts) == 1 and p.alts[0][1] is None

class PtrInt:
    """integer made from a pointer"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
class Cat:
    """little-endian concatenation of (size, value) pieces"""
    __slots__ = ('ps',)
    def __init__(s, ps): s.ps = ps
class FBits:
    """integer holding the bits of a float value"""
    __slots__ = ('v', 'n')
    def __init__(s, v, n): s.v = v; s.n = n
class Agg:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
class Undef:
    pass
UNDEF = Undef()

def key_of(x):
    if isinstance(x, Sym): return x.key()
    return x
def same(a, b):
    if a is b: return True
    if isinstance(a, Sym) and isinstance(b, Sym): return a.key() == b.key()
    if isnum(a) and isnum(b): return a == b and isreal(a) == isreal(b)
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return len(a.alts) == len(b.alts) and all(same(x[0], y[0]) and x[1] is y[1] and same(x[2], y[2]) and same(x[3], y[3]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, FBits) and isinstance(b, FBits): return a.n == b.n and same(a.v, b.v)
    if isinstance(a, Agg) and isinstance(b, Agg): return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, Cat) and isinstance(b, Cat): return len(a.ps) == len(b.ps) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.ps, b.ps))
    if isinstance(a, PtrInt) and isinstance(b, PtrInt): return same(a.p, b.p)
    return False

def v_ite(c, a, b):
    """if-then-else on any run-time value"""
    if isinstance(c, bool): return a if c else b
    if same(a, b): return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        alts = []
        nc = b_not(c)
        for g, p in ((c, a), (nc, b)):
            for (ga, o, fi, off) in p.alts:
                gg = b_and(g, ga)
                if gg is False: continue
                for k, (g2, o2, fi2, off2) in enumerate(alts):
                    if o2 is o and (o is None or isinstance(o, Fn) or (same(fi, fi2) and same(off, off2))):
                        alts[k] = (b_or(g2, gg), o, fi2, off2); break
                else:
                    # same object, different offset or family index: keep a single alternative
                    for k, (g2, o2, fi2, off2) in enumerate(alts):
                        if o2 is o and o is not None and not isinstance(o, Fn) and g is nc:
                            alts[k] = (b_or(g2, gg), o, (ite(c, fi2, fi) if fi is not None else None), ite(c, off2, off)); break
                    else:
                        alts.append((gg, o, fi, off))
        if len(alts) == 1: return Ptr(((True,) + alts[0][1:],))
        if len(alts) > 24: raise ToolLimit("too many pointer alternatives")
        return Ptr(tuple(alts))
    if isinstance(a, Agg) and isinstance(b, Agg):
        return Agg([v_ite(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Cat) and isinstance(b, Cat) and [p[0] for p in a.ps] == [p[0] for p in b.ps]:
        return Cat([(p[0], v_ite(c, p[1], q[1])) for p, q in zip(a.ps, b.ps)])
    if isinstance(a, FBits) and isinstance(b, FBits): return FBits(v_ite(c, a.v, b.v), a.n)
    if isinstance(a, FBits) and isinstance(b, (int, Sym)) and not isreal(b): return FBits(v_ite(c, a.v, symbits(b, a.n)), a.n)
    if isinstance(b, FBits) and isinstance(a, (int, Sym)) and not isreal(a): return FBits(v_ite(c, symbits(a, b.n), b.v), b.n)
    if isinstance(a, PtrInt) and isinstance(b, PtrInt): return PtrInt(v_ite(c, a.p, b.p))
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)): return b_ite(c, a, b)
    if isinstance(a, (Sym, int, Fraction)) and isinstance(b, (Sym, int, Fraction)): return ite(c, a, b)
    if isinstance(a, Ptr) and isnum(b) and b == 0: return v_ite(c, a, NULL)
    if isinstance(b, Ptr) and isnum(a) and a == 0: return v_ite(c, NULL, b)
    raise ToolLimit("ite of different kinds %s %s" % (type(a), type(b)))

# --- array chains -------------------------------------------------------------------------
class Node:
    __slots__ = ('memo',)
    def __init__(s): s.memo = {}
class AUninit(Node):
    __slots__ = ('name', 'ufs', 'gen')
    def __init__(s, name, gen=None): s.memo = {}; s.name = name; s.ufs = {}; s.gen = gen
class AConst(Node):
    __slots__ = ('val',)
    def __init__(s, val): s.memo = {}; s.val = val       # 0 means zero of any kind
class AStore(Node):
    __slots__ = ('prev', 'idx', 'val')
    def __init__(s, prev, idx, val): s.memo = {}; s.prev = prev; s.idx = idx; s.val = val
class ARange(Node):
    """elements lo<=i<hi (family index fi fixed) take f(i)"""
    __slots__ = ('prev', 'fi', 'lo', 'hi', 'f')
    def __init__(s, prev, fi, lo, hi, f): s.memo = {}; s.prev = prev; s.fi = fi; s.lo = lo; s.hi = hi; s.f = f
class AIte(Node):
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.memo = {}; s.c = c; s.a = a; s.b = b

UFS = {}
SORTED = {}
def reset_memory():
    UFS.clear(); SORTED.clear(); Obj.n = 0
RANGES = {}
def zero_of(kind):
    if kind == 'p': return NULL
    if kind[0] == 'f': return Fraction(0)
    if kind == ('i', 1): return False
    return 0
def uf_app(name, idx, kind, rng=None):
    real = kind[0] == 'f'
    k = (name, len(idx), real)
    if k not in UFS:
        UFS[k] = z3.Function(C.fresh(name), *([z3.IntSort()] * len(idx)), z3.RealSort() if real else z3.IntSort())
    e = UFS[k](*[z(i) for i in idx])
    if name in SORTED:
        v = atom_sym(e, real) if real else atom_sym(e, False, -(1 << 31), (1 << 31) - 1)
        L = SORTED[name]; kk = key_of(idx[0])
        if not any(kk == x for x, _, _ in L):
            at = T.C.atoms[next(iter(v.t))[0]]
            for _, j, f in L:
                ij, ii = z(j), z(idx[0])
                at.facts.append(z3.Implies(ij < ii, f < e)); at.facts.append(z3.Implies(ii < ij, e < f)); at.facts.append(z3.Implies(ii == ij, e == f))
            L.append((kk, idx[0], e)); T.C.resym[e.get_id()] = lambda S, i=idx[0]: uf_app(name, (S.sym(i),), kind, rng)
        return v
    if rng: return atom_sym(e, real, rng[0], rng[1])
    if real: return atom_sym(e, True)
    n = kind[1]
    return atom_sym(e, False, -(1 << (n - 1)), (1 << (n - 1)) - 1)
def fresh_of(name, kind):
    if kind == 'p': raise ToolLimit("arbitrary pointer " + name)
    if kind[0] == 'f': return fresh_real(name)
    n = kind[1]
    if n == 1: return z3.Bool(C.fresh(name))
    return fresh_int(name, -(1 << (n - 1)), (1 << (n - 1)) - 1)

def conv(val, kind):
    """stored value seen through a load of the given kind"""
    if val is UNDEF: return val
    if kind == 'p':
        if isinstance(val, Ptr): return val
        if isnum(val) and val == 0: return NULL
        if isinstance(val, PtrInt): return val.p
        raise ToolLimit("non-pointer loaded as pointer: %r" % (val,))
    if kind[0] == 'f':
        if isinstance(val, FBits): return val.v
        if isinstance(val, Sym) and val.real or isinstance(val, Fraction): return val
        if isnum(val) and val == 0: return Fraction(0)
        if isnum(val): return bits_to_float(val, kind[1])
        if isinstance(val, Sym): return symbits(val, kind[1])
        raise ToolLimit("int loaded as float")
    if isinstance(val, Ptr): return PtrInt(val)
    if isinstance(val, Fraction) or (isinstance(val, Sym) and val.real): return FBits(val, kind[1])
    if kind == ('i', 1):
        b = bool_of(val) if isinstance(val, (int, Sym)) else val
        if b is None: b = b_not(eq(val, 0))
        return b
    if isinstance(val, (bool, z3.BoolRef)): return from_bool(val)
    return val

def symbits(v, n):
    """integer that is a choice between constants, read as float bits"""
    if isnum(v): return bits_to_float(v, n)
    ats = {i for m in v.t for i in m}
    if len(ats) > 5 or any(T.C.atoms[i].boolsrc is None for i in ats): raise ToolLimit("int loaded as float")
    i = min(ats); res = []
    for x in (1, 0):
        t = {}
        for m, co in v.t.items():
            if i in m:
                if not x: continue
                m = tuple(j for j in m if j != i)
            t[m] = t.get(m, 0) + co
        res.append(symbits(norm(t, False), n))
    return ite(T.C.atoms[i].boolsrc, res[0], res[1])

def bits_to_float(v, n):
    import struct
    v &= (1 << n) - 1
    if n == 32: f = struct.unpack('<f', struct.pack('<I', v))[0]
    elif n == 64: f = struct.unpack('<d', struct.pack('<Q', v))[0]
    elif n == 16: f = struct.unpack('<e', struct.pack('<H', v))[0]
    else: raise ToolLimit("float width")
    if f != f: raise ToolLimit("NaN constant")
    if f in (float('inf'), float('-inf')):
        return T.inf() if f > 0 else neg(T.inf())
    return Fraction(f)

def idx_eq(a, b):
    r = True
    for x, y in zip(a, b): 
        r = b_and(r, eq(x, y))
        if r is False: return False
    return r

def aread(node, idx, kind):
    k = (tuple(key_of(i) for i in idx), kind)
    m = node.memo.get(k)
    if m is not None: return m
    # iterative descent to keep recursion shallow
    stack = []
    cur = node
    while True:
        if isinstance(cur, AStore):
            c = idx_eq(idx, cur.idx)
            if c is False: cur = cur.prev; continue
            if c is True: res = conv(cur.val, kind); break
            stack.append((c, cur)); cur = cur.prev; continue
        if isinstance(cur, ARange):
            c = True
            if cur.fi is not None: c = eq(idx[0], cur.fi)
            c = b_and(c, le(cur.lo, idx[-1]), lt(idx[-1], cur.hi))
            if c is False: cur = cur.prev; continue
            if c is True: res = conv(cur.f(idx, kind), kind); break
            stack.append((c, cur)); cur = cur.prev; continue
        if isinstance(cur, AIte):
            res = v_ite(cur.c, aread(cur.a, idx, kind), aread(cur.b, idx, kind)); break
        if isinstance(cur, AConst):
            res = zero_of(kind) if isnum(cur.val) and cur.val == 0 else conv(cur.val, kind); break
        if isinstance(cur, AUninit):
            if cur.gen is not None: res = conv(cur.gen(idx, kind), kind)
            else:
                if kind == 'p': res = WILD
                elif kind == ('i', 1): res = b_not(eq(uf_app(cur.name + '_b', idx, ('i', 8), (0, 1)), 0))
                else: res = uf_app("%s_%s%d" % (cur.name, kind[0], kind[1]), idx, kind)
            break
        raise ToolLimit("array node")
    for c, n in reversed(stack):
        try: v = conv(n.val, kind) if isinstance(n, AStore) else conv(n.f(idx, kind), kind)
        except ToolLimit:       # element of another type: no information about the value read
            v = WILD if kind == 'p' else fresh_of('mistyped', kind)
        try: res = v_ite(c, v, res)
        except ToolLimit:       # mixed pointer/number contents: keep the number side, forget the other
            if kind == 'p': raise
            if isinstance(v, (Sym, int)): res = ite(c, v, fresh_of('mistyped', kind))
            elif isinstance(res, (Sym, int)): res = ite(c, fresh_of('mistyped', kind), res)
            else: raise
    node.memo[k] = res
    return res

# --- contents -----------------------------------------------------------------------------
class Flat:
    __slots__ = ('cells', 'init')
    def __init__(s, cells, init): s.cells = cells; s.init = init     # init: 'u' uninitialised, 'z' zero
    def copy(s): return Flat(dict(s.cells), s.init)
class ArrC:
    __slots__ = ('stride', 'fields', 'init', 'name')
    def __init__(s, stride, fields, init, name): s.stride = stride; s.fields = fields; s.init = init; s.name = name
    def copy(s): return ArrC(s.stride, dict(s.fields), s.init, s.name)
    def field(s, inner, obj):
        f = s.fields.get(inner)
        if f is None:
            k = ('fld', inner)
            f = obj.uninit.get(k)
            if f is None:
                f = AConst(0) if s.init == 'z' else AUninit("%s_%d.%d" % (s.name, obj.id, inner))
                obj.uninit[k] = f
        return f

def merge_content(c, a, b, obj):
    """content = c ? a : b"""
    if a is b: return a
    if isinstance(a, Flat) and isinstance(b, Flat):
        cells = {}
        for off in set(a.cells) | set(b.cells):
            x, y = a.cells.get(off), b.cells.get(off)
            if x is not None and y is not None and x[0] == y[0]:
                if x[1] is y[1]: cells[off] = x
                else:
                    try: cells[off] = (x[0], v_ite(c, x[1], y[1]))
                    except ToolLimit: pass       # unreadable afterwards
                continue
            if x is not None and y is not None: continue
            one, first = (x, True) if x is not None else (y, False)
            other = b if first else a
            # is the other side's range untouched there?
            if any(o < off + one[0] and off < o + other.cells[o][0] for o in other.cells): continue
            if other.init == 'z': ov = 0
            else:
                cells[off] = (one[0], MaybeUninit(c if first else b_not(c), one[1])) if not isinstance(one[1], MaybeUninit) else one
                continue
            v = one[1]
            if isinstance(v, Ptr): ov = NULL
            elif isinstance(v, (bool, z3.BoolRef)): ov = False
            elif isreal(v): ov = Fraction(0)
            try: cells[off] = (one[0], v_ite(c, v, ov) if first else v_ite(c, ov, v))
            except ToolLimit: pass
        return Flat(cells, a.init)
    if isinstance(a, ArrC) and isinstance(b, ArrC):
        if a.stride is None: st = b.stride
        elif b.stride is None: st = a.stride
        elif a.stride != b.stride: raise ToolLimit("stride mismatch at merge")
        else: st = a.stride
        fields = {}
        for k in set(a.fields) | set(b.fields):
            x, y = a.field(k, obj), b.field(k, obj)
            fields[k] = x if x is y else AIte(c, x, y)
        return ArrC(st, fields, a.init, a.name)
    raise ToolLimit("merge of different contents")

class MaybeUninit:
    """value v when guard holds, otherwise uninitialised memory"""
    __slots__ = ('g', 'v')
    def __init__(s, g, v): s.g = g; s.v = v
