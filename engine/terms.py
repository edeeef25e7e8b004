"""Symbolic numbers (polynomials over z3 atoms with intervals), booleans, and conversion to z3."""
import z3, math
from fractions import Fraction
from math import gcd

class ToolLimit(Exception):
    """The verifier cannot decide this (unsupported construct, budget); never a violation."""

class Ctx:
    def __init__(self):
        self.atoms = []      # list of Atom
        self.by_ast = {}     # z3 ast id -> atom index
        self.ncnt = {}
        self.itecache = {}
        self.cmpcache = {}
        self.reach = {}
        self.cmpinfo = {}; self.resym = {}; self.iteinfo = {}
        self.log = []
        self.monos = {}; self.monoast = {}
        self.kinds = {}
    def fresh(self, base):
        n = self.ncnt.get(base, 0); self.ncnt[base] = n + 1
        r = base if n == 0 else "%s!%d" % (base, n)
        self.log.append(r)
        return r
C = Ctx()
def reset():
    C.__init__()
def inf():
    """a real larger than every finite double (stands for +infinity)"""
    return atom_sym(z3.Real("INF"), True, Fraction(2) ** 1024, None)

class Atom:
    __slots__ = ('i', 'e', 'real', 'lo', 'hi', 'facts', 'boolsrc', 'named')
    def __init__(s, i, e, real, lo, hi):
        s.i = i; s.e = e; s.real = real; s.lo = lo; s.hi = hi; s.facts = []; s.boolsrc = None; s.named = None

def mk_atom(e, real, lo=None, hi=None):
    k = e.get_id()
    i = C.by_ast.get(k)
    if i is None:
        i = len(C.atoms); C.atoms.append(Atom(i, e, real, lo, hi)); C.by_ast[k] = i
    else:
        a = C.atoms[i]
        if lo is not None and (a.lo is None or lo > a.lo): a.lo = lo
        if hi is not None and (a.hi is None or hi < a.hi): a.hi = hi
    return C.atoms[i]

def atom_sym(e, real, lo=None, hi=None):
    a = mk_atom(e, real, lo, hi)
    return Sym({(a.i,): 1}, real)

def fresh_int(name, lo, hi):
    return atom_sym(z3.Int(C.fresh(name)), False, lo, hi)
def fresh_real(name, lo=None, hi=None):
    return atom_sym(z3.Real(C.fresh(name)), True, lo, hi)

MAXTERMS = 1500

class Sym:
    __slots__ = ('t', 'real', '_lo', '_hi', '_z', '_iv', '_key')
    def __init__(s, t, real):
        s.t = t; s.real = real; s._z = None; s._iv = False; s._key = None
    def key(s):
        if s._key is None: s._key = (s.real, frozenset(s.t.items()))
        return s._key
    def _calc(s):
        lo = hi = 0
        for m, c in s.t.items():
            l, h = mono_iv(m)
            if c < 0: l, h = h, l
            lo = None if (lo is None or l is None) else lo + c * l
            hi = None if (hi is None or h is None) else hi + c * h
            if lo is None and hi is None: break
        s._lo, s._hi = lo, hi; s._iv = True
    @property
    def lo(s):
        if not s._iv: s._calc()
        return s._lo
    @property
    def hi(s):
        if not s._iv: s._calc()
        return s._hi
    def const(s): return s.t.get((), 0)
    def __repr__(s): return str(z(s))

def mono_iv(m):
    lo, hi = 1, 1
    if len(m) == 2 and m[0] == m[1]:
        a = C.atoms[m[0]]
        if a.lo is None or a.hi is None: return 0, None
        h = max(a.lo * a.lo, a.hi * a.hi)
        l = 0 if a.lo <= 0 <= a.hi else min(a.lo * a.lo, a.hi * a.hi)
        return l, h
    for i in m:
        a = C.atoms[i]
        al, ah = a.lo, a.hi
        if al is None or ah is None or lo is None or hi is None:
            # only the sign of nonnegative products is tracked
            if lo is not None and al is not None and lo >= 0 and al >= 0:
                lo, hi = lo * al, None
                continue
            return None, None
        ps = (lo * al, lo * ah, hi * al, hi * ah)
        lo, hi = min(ps), max(ps)
    return lo, hi

def isnum(x): return isinstance(x, (int, Fraction)) and not isinstance(x, bool)
def norm(t, real):
    if not t: return Fraction(0) if real else 0
    if len(t) == 1 and () in t:
        c = t[()]
        return Fraction(c) if real else c
    return Sym(t, real)
def terms(x):
    if isinstance(x, Sym): return x.t
    return {(): x} if x != 0 else {}
def isreal(x): return x.real if isinstance(x, Sym) else isinstance(x, Fraction)

def add(a, b, sb=1):
    if isnum(a) and isnum(b): return a + sb * b
    real = isreal(a) or isreal(b)
    t = dict(terms(a))
    for m, c in terms(b).items():
        n = t.get(m, 0) + sb * c
        if n == 0: t.pop(m, None)
        else: t[m] = n
    return norm(t, real)
def sub(a, b): return add(a, b, -1)
def neg(a):
    if isnum(a): return -a
    return Sym({m: -c for m, c in a.t.items()}, a.real)
def scale(a, k):
    if k == 0: return Fraction(0) if (isreal(a) or isinstance(k, Fraction)) else 0
    if isnum(a): return a * k
    if k == 1: return a
    return Sym({m: c * k for m, c in a.t.items()}, a.real)
def opaque(a):
    """the whole value as one atom"""
    if isnum(a) or (len(a.t) == 1 and () not in a.t and len(next(iter(a.t))) == 1 and next(iter(a.t.values())) == 1): return a
    return atom_sym(z(a), a.real, a.lo, a.hi)
def mul(a, b):
    if isnum(a) and isnum(b): return a * b
    if isnum(a):
        return scale(toreal(b) if isinstance(a, Fraction) else b, a)
    if isnum(b): return mul(b, a)
    if len(a.t) * len(b.t) > MAXTERMS:
        if len(a.t) > 40: a = opaque(a)
        if len(b.t) > 40: b = opaque(b)
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2))
            n = t.get(m, 0) + c1 * c2
            if n == 0: t.pop(m, None)
            else: t[m] = n
    return norm(t, a.real or b.real)
def toreal(a):
    if isinstance(a, int): return Fraction(a)
    if isinstance(a, Fraction): return a
    if a.real: return a
    return Sym(a.t, True)

def zmono(m, real):
    """a product of atoms as one constant; its definition is expanded only for nonlinear solving"""
    allint = all(not C.atoms[i].real for i in m)
    r = C.monos.get(m)
    if r is None:
        n = "m!" + "_".join(map(str, m))
        r = z3.Int(n) if allint else z3.Real(n)
        C.monos[m] = r; C.monoast[r.get_id()] = (m, allint, r)
    return z3.ToReal(r) if real and allint else r
def mono_def(m, allint):
    p = None
    for i in m:
        q = zatom(i, not allint); p = q if p is None else p * q
    return p
def zatom(i, real):
    a = C.atoms[i]
    if real and not a.real: return z3.ToReal(a.e)
    return a.e
def z(x):
    """to a z3 arithmetic term"""
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(x)
    if x._z is not None: return x._z
    ps = []
    for m in sorted(x.t):
        c = x.t[m]
        fs = [zatom(i, x.real) for i in m]
        if not fs: ps.append(z3.RealVal(c) if x.real else z3.IntVal(c)); continue
        p = fs[0] if len(fs) == 1 else zmono(m, x.real)
        if c != 1: p = (z3.RealVal(c) if x.real else z3.IntVal(c)) * p
        ps.append(p)
    r = ps[0] if len(ps) == 1 else z3.Sum(ps)
    x._z = r
    return r

# ---- booleans: python bool or z3 BoolRef
def b_not(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
            continue
        if not any(x.eq(o) for o in out): out.append(x)
    for x in out:
        n = b_not(x)
        if any(n.eq(o) for o in out): return False
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(out)
def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
            continue
        if not any(x.eq(o) for o in out): out.append(x)
    for x in out:
        n = b_not(x)
        if any(n.eq(o) for o in out): return True
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(out)
def b_xor(a, b):
    if isinstance(a, bool): return b_not(b) if a else b
    if isinstance(b, bool): return b_not(a) if b else a
    return z3.Xor(a, b)
def zb(a): return z3.BoolVal(a) if isinstance(a, bool) else a
def b_ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else b_not(c)
    if isinstance(a, bool): return b_or(c, b) if a else b_and(b_not(c), b)
    if isinstance(b, bool): return b_or(b_not(c), a) if b else b_and(c, a)
    if a.eq(b): return a
    return z3.If(c, a, b)

def _primitive(t, real):
    """divide by the positive content so that equal comparisons get equal terms"""
    if real:
        # scale to integers
        den = 1
        for c in t.values():
            d = Fraction(c).denominator; den = den * d // gcd(den, d)
        t = {m: int(Fraction(c) * den) for m, c in t.items()}
    g = 0
    for c in t.values(): g = gcd(g, abs(int(c)))
    return t, g
def cmp(op, a, b):
    """op in eq, lt, le"""
    d = sub(a, b)
    if isnum(d):
        return d == 0 if op == 'eq' else d < 0 if op == 'lt' else d <= 0
    lo, hi = d.lo, d.hi
    if op == 'lt':
        if hi is not None and hi < 0: return True
        if lo is not None and lo >= 0: return False
    elif op == 'le':
        if hi is not None and hi <= 0: return True
        if lo is not None and lo > 0: return False
    else:
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
    real = d.real
    t, _ = _primitive(d.t, real)
    # content of non-constant part
    g = 0
    for m, c in t.items():
        if m != (): g = gcd(g, abs(int(c)))
    c0 = int(t.get((), 0))
    if not real:
        # sum(g*m) + c0  op 0
        if op == 'eq':
            if c0 % g: return False
            c0 = c0 // g
        elif op == 'lt':   # g*S < -c0  <=> S < ceil(-c0/g)  <=> S <= ceil(-c0/g)-1
            ub = -((c0) // g) - 1 if c0 % g == 0 else (-c0) // g
            op = 'le'; c0 = -ub
        else:
            ub = (-c0) // g; c0 = -ub
        t = {m: int(c) // g for m, c in t.items() if m != ()}
        if c0: t[()] = c0
    else:
        g2 = gcd(g, abs(c0)) or 1
        t = {m: int(c) // g2 for m, c in t.items()}
    key = (op, real, frozenset(t.items()))
    r = C.cmpcache.get(key)
    if r is not None: return r
    if op == 'eq':
        # orient canonically
        lead = min(m for m in t if m != ())
        if t[lead] < 0:
            t = {m: -c for m, c in t.items()}
            key2 = (op, real, frozenset(t.items()))
            r = C.cmpcache.get(key2)
            if r is not None: return r
            key = key2
    pos = {m: c for m, c in t.items() if c > 0}
    ng = {m: -c for m, c in t.items() if c < 0}
    cast = (lambda q: {m: Fraction(c) for m, c in q.items()}) if real else (lambda q: q)
    zp, zn = z(norm(cast(pos), real)), z(norm(cast(ng), real))
    # single boolean-source atom comparisons stay propositional
    nz = [m for m in t if m != ()]
    if len(nz) == 1 and len(nz[0]) == 1 and C.atoms[nz[0][0]].boolsrc is not None and not real:
        a = C.atoms[nz[0][0]]; c = t[nz[0]]; k = t.get((), 0)
        f = lambda v: (c * v + k == 0) if op == 'eq' else (c * v + k <= 0)
        r = b_ite(a.boolsrc, f(1), f(0))
        if not isinstance(r, bool): C.cmpcache[key] = r
        return r
    r = (zp == zn) if op == 'eq' else (zp < zn) if op == 'lt' else (zp <= zn)
    C.cmpcache[key] = r
    C.cmpinfo[r.get_id()] = (op, norm(cast(t), real), r)
    return r
def eq(a, b): return cmp('eq', a, b)
def lt(a, b): return cmp('lt', a, b)
def le(a, b): return cmp('le', a, b)

def from_bool(b):
    if isinstance(b, bool): return 1 if b else 0
    e = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    a = mk_atom(e, False, 0, 1); a.boolsrc = b
    return Sym({(a.i,): 1}, False)
def bool_of(x):
    """value of an i1-like int: nonzero, for x in {0,1}"""
    if isnum(x): return x != 0
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if len(m) == 1 and C.atoms[m[0]].boolsrc is not None: return C.atoms[m[0]].boolsrc
    return None
def lo_of(x): return x if isnum(x) else x.lo
def hi_of(x): return x if isnum(x) else x.hi
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isnum(a) and isnum(b) and a == b: return a
    if isinstance(a, Sym) and isinstance(b, Sym) and a.key() == b.key(): return a
    real = isreal(a) or isreal(b)
    if real: a, b = toreal(a), toreal(b)
    if not real and isnum(a) and isnum(b) and (a, b) in ((1, 0), (0, 1)):
        return from_bool(c if a == 1 else b_not(c))
    if not real and isnum(a) and isnum(b):
        # keeps the common divisor of the two values visible
        return add(b, scale(from_bool(c), a - b)) if a > b else add(a, scale(from_bool(b_not(c)), b - a))
    if not real:
        d = sub(a, b)
        if isnum(d): return add(b, scale(from_bool(c), d)) if d > 0 else add(a, scale(from_bool(b_not(c)), -d))
        g = 0
        for x in (a, b):
            for k in terms(x).values(): g = math.gcd(g, abs(int(k)))
        if g > 1:
            dv = lambda x: x // g if isnum(x) else norm({m: int(k) // g for m, k in x.t.items()}, False)
            return scale(ite(c, dv(a), dv(b)), g)
    l = [lo_of(a), lo_of(b)]; h = [hi_of(a), hi_of(b)]
    lo = None if None in l else min(l); hi = None if None in h else max(h)
    if z3.is_not(c): c, a, b = c.arg(0), b, a
    r = atom_sym(z3.If(c, z(a), z(b)), real, lo, hi)
    C.iteinfo[next(iter(r.t))[0]] = (c, a, b)
    return r

def floor_real(x):
    """floor of a real as an Int value"""
    if isinstance(x, Fraction): return x.numerator // x.denominator
    if isinstance(x, int): return x
    ip, fp = {}, {}
    for m, c in x.t.items():
        if m == (): continue
        if Fraction(c).denominator == 1 and all(not C.atoms[i].real for i in m): ip[m] = int(c)
        else: fp[m] = c
    c0 = x.t.get((), 0)
    k = c0.numerator // c0.denominator if isinstance(c0, Fraction) else c0
    fr = c0 - k
    base = norm({**ip, **({(): k} if k else {})}, False)
    if not fp: return base
    rest = dict(fp)
    if fr: rest[()] = fr
    r = Sym(rest, True)
    lo = None if r.lo is None else (Fraction(r.lo).numerator // Fraction(r.lo).denominator)
    hi = None if r.hi is None else (Fraction(r.hi).numerator // Fraction(r.hi).denominator)
    if lo is not None and lo == hi: return add(base, lo)
    return add(base, atom_sym(z3.ToInt(z(r)), False, lo, hi))

def divmod_floor(x, k):
    """floor division of an int value by a positive python int -> (q, r)"""
    if isnum(x): return x // k, x % k
    if k == 1: return x, 0
    qp, rp = {}, {}
    for m, c in x.t.items():
        if m == (): continue
        q, r = divmod(c, k)
        if r and 2 * r > k: q, r = q + 1, r - k
        if q and r == 0: qp[m] = q
        elif q:
            qp[m] = q; rp[m] = r
        else: rp[m] = r
    c0 = x.t.get((), 0)
    q0, r0 = divmod(c0, k)
    if q0: qp[()] = q0
    base = norm(qp, False)
    if r0: rp[()] = r0
    rest = norm(rp, False)
    if isnum(rest): return base, rest
    lo, hi = rest.lo, rest.hi
    if lo is not None and hi is not None and lo // k == hi // k:
        return add(base, lo // k), sub(rest, (lo // k) * k)
    ql = None if lo is None else lo // k
    qh = None if hi is None else hi // k
    qa = atom_sym(z(rest) / z3.IntVal(k), False, ql, qh)
    ra = sub(rest, scale(qa, k))
    # give the solver the bound of the remainder through the quotient atom
    a = C.atoms[next(iter(qa.t))[0]]
    if not a.facts:
        a.facts.append(z3.And(z3.IntVal(k) * a.e <= z(rest), z(rest) < z3.IntVal(k) * a.e + k))
    return add(base, qa), ra

# ---- facts reachable from an expression
def atoms_in(e, seen=None, monos=None):
    """indices of atoms occurring in a z3 expression (transitively through facts)"""
    out = set(); stack = [e]; seen = set() if seen is None else seen
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen: continue
        seen.add(k)
        mo = C.monoast.get(k)
        if mo is not None:
            if monos is not None: monos[k] = mo
            for i in mo[0]: stack.append(C.atoms[i].e)
            continue
        i = C.by_ast.get(k)
        if i is not None and i not in out:
            out.add(i)
            stack.extend(C.atoms[i].facts)
        stack.extend(x.children())
    return out
def facts_for(exprs):
    seen = set(); ids = set(); monos = {}
    for e in exprs: ids |= atoms_in(e, seen, monos)
    fs = []
    for i in ids:
        a = C.atoms[i]
        if a.boolsrc is None:
            if a.lo is not None: fs.append(a.e >= (z3.RealVal(a.lo) if a.real else z3.IntVal(int(a.lo))))
            if a.hi is not None: fs.append(a.e <= (z3.RealVal(a.hi) if a.real else z3.IntVal(int(a.hi))))
        fs.extend(a.facts)
    for m, allint, r in monos.values():
        lo, hi = mono_iv(m)
        cv = (lambda v: z3.IntVal(int(v))) if allint else (lambda v: z3.RealVal(v))
        if lo is not None: fs.append(r >= cv(lo))
        if hi is not None: fs.append(r <= cv(hi))
    return fs
def expand(fs):
    """replace product constants by the products they stand for"""
    for _ in range(12):
        monos = {}; seen = set(); stack = list(fs)
        while stack:
            x = stack.pop(); k = x.get_id()
            if k in seen: continue
            seen.add(k)
            mo = C.monoast.get(k)
            if mo is not None: monos[k] = mo; continue
            stack.extend(x.children())
        if not monos: return fs
        pr = [(r, mono_def(m, ai)) for m, ai, r in monos.values()]
        fs = [z3.substitute(f, pr) for f in fs]
    return fs

# ---- substitution of one integer atom
def mentions(e, v, cache):
    k = e.get_id(); r = cache.get(k)
    if r is not None: return r[0]
    stack = [(e, False)]
    while stack:
        x, done = stack.pop(); i = x.get_id()
        if i in cache: continue
        if x.eq(v): cache[i] = (True, x); continue
        mo = C.monoast.get(i)
        ch = [C.atoms[q].e for q in mo[0]] if mo is not None else x.children()
        if done: cache[i] = (any(cache[c.get_id()][0] for c in ch), x); continue
        stack.append((x, True))
        for c in ch:
            if c.get_id() not in cache: stack.append((c, False))
    return cache[k][0]
class Subst:
    def __init__(s, ka, val): s.ka = ka; s.val = val; s.vz = z(val); s.mc = {}; s.am = {}; s.em = {}
    def sym(s, x):
        if isnum(x): return x
        r = 0 if not x.real else Fraction(0)
        for m, c in x.t.items():
            p = Fraction(c) if x.real else c
            for i in m:
                a = C.atoms[i]
                if i == s.ka.i: p = mul(p, toreal(s.val) if x.real else s.val); continue
                if not mentions(a.e, s.ka.e, s.mc):
                    p = mul(p, Sym({(i,): 1}, x.real)); continue
                q = s.atom(i)
                p = mul(p, toreal(q) if x.real else q)
            r = add(r, p)
        return r
    def atom(s, i):
        q = s.am.get(i)
        if q is None:
            a = C.atoms[i]
            if a.boolsrc is not None: q = from_bool(subst_bool(a.boolsrc, s.ka, s.val, s))
            elif a.e.get_id() in C.resym:
                q = C.resym[a.e.get_id()](s)
            else:
                ne = s.rebuild(a.e)
                q = atom_sym(ne, a.real, a.lo, a.hi)
                na = C.atoms[next(iter(q.t))[0]]
                if a.facts and not na.facts and na is not a: na.facts.extend(s.expr(f) for f in a.facts)
            s.am[i] = q
        return q
    def rebuild(s, e):
        ch = [s.expr(c) for c in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD: return z3.Sum(ch)
        if k == z3.Z3_OP_AND: return z3.And(ch)
        if k == z3.Z3_OP_OR: return z3.Or(ch)
        return e.decl()(*ch) if ch else e
    def expr(s, e):
        r = s.em.get(e.get_id())
        if r is not None: return r[0]
        if not mentions(e, s.ka.e, s.mc): r = e
        elif e.eq(s.ka.e): r = s.vz
        else:
            mo = C.monoast.get(e.get_id())
            if mo is not None: r = z(s.sym(Sym({mo[0]: 1}, not mo[1])))
            else:
                i = C.by_ast.get(e.get_id())
                r = z(s.atom(i)) if i is not None else s.rebuild(e)
        s.em[e.get_id()] = (r, e)
        return r
def subst_sym(x, ka, val, mc=None, memo=None):
    """x with the atom ka (an int atom) replaced by the value val"""
    if isnum(x): return x
    return Subst(ka, val).sym(x)
def subst_bool(b, ka, val, S=None):
    if isinstance(b, bool): return b
    if S is None: S = Subst(ka, val)
    if not mentions(b, ka.e, S.mc): return b
    inf = C.cmpinfo.get(b.get_id())
    if inf is not None and not isinstance(inf[1], (int, Fraction)):
        d = S.sym(inf[1])
        return cmp(inf[0], d, Fraction(0) if inf[1].real else 0)
    if z3.is_not(b): return b_not(subst_bool(b.arg(0), ka, val, S))
    if z3.is_and(b): return b_and(*[subst_bool(c, ka, val, S) for c in b.children()])
    if z3.is_or(b): return b_or(*[subst_bool(c, ka, val, S) for c in b.children()])
    e = S.expr(b)
    r = z3.simplify(e)
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return e

def consts_of(e, out, seen):
    """names of uninterpreted constants in a z3 expression, through atom facts"""
    stack = [e]
    while stack:
        x = stack.pop(); k = x.get_id()
        if k in seen: continue
        seen.add(k)
        mo = C.monoast.get(k)
        if mo is not None: stack.extend(C.atoms[i].e for i in mo[0]); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    return out
