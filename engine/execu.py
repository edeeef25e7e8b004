"""Guarded symbolic execution of LLVM IR with path merging; produces proof obligations."""
import json, re, sys, time, os
import z3
from fractions import Fraction
from math import gcd
from terms import *
import terms as T
from memory import *
import memory as MM

sys.setrecursionlimit(20000)

class PC:
    __slots__ = ('parent', 'cond', 'depth', '_l')
    def __init__(s, parent, cond): s.parent = parent; s.cond = cond; s.depth = parent.depth + 1 if parent else 0; s._l = None
    def lst(s):
        out = []; n = s
        while n is not None:
            if n.cond is not True: out.append(n.cond)
            n = n.parent
        out.reverse(); return out
ROOT = PC(None, True)

class State:
    __slots__ = ('pc', 'mem')
    def __init__(s, pc, mem): s.pc = pc; s.mem = mem
    def copy(s): return State(s.pc, dict(s.mem))
    def assume(s, c):
        if c is True: return s
        s.pc = PC(s.pc, c); return s

class Obligation:
    __slots__ = ('pc', 'cond', 'label', 'loc', 'kind', 'status', 'model', 'time', 'backend', 'taint')
    def __init__(s, pc, cond, label, loc, kind, taint):
        s.pc = pc; s.cond = cond; s.label = label; s.loc = loc; s.kind = kind; s.status = None; s.model = None; s.time = 0; s.backend = None; s.taint = taint

class Module:
    def __init__(s, path):
        s.types = None; s.globals = {}; s.fnline = {}; s.fn = {}; s.dem = {}
        s.lines = open(path).read().split('\n')
        for i, l in enumerate(s.lines):
            if not l: continue
            if l.startswith('{"T"'): s.types = json.loads(l)['T']
        # keys are sorted alphabetically by llvm::json, so parse cheaply with regexes
        for i, l in enumerate(s.lines):
            if not l or l.startswith('{"T"'): continue
            m = re.match(r'\{"F":"((?:[^"\\]|\\.)*)"', l)
            if m: s.fnline[json.loads('"' + m.group(1) + '"')] = i; continue
            m = re.match(r'\{"G":"((?:[^"\\]|\\.)*)"', l)
            if m: s.globals[json.loads('"' + m.group(1) + '"')] = i
    def func(s, name):
        f = s.fn.get(name)
        if f is None:
            i = s.fnline.get(name)
            if i is None: return None
            f = s.fn[name] = json.loads(s.lines[i])
            if 'bb' in f:
                f['loopof'] = {}
                for h, bs, d in f['loops']: f['loopof'][h] = (h, set(bs), d)
                f['byheader'] = {l[0]: l for l in f['loops']}
        return f
    def glob(s, name):
        i = s.globals.get(name)
        if i is None: return None
        if isinstance(i, int): i = s.globals[name] = json.loads(s.lines[i])
        return i

CMPSWAP = {}
SIZES = {'float': 4, 'double': 8, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2,
         'signed char': 1}

class Engine:
    def __init__(s, mod, opts=None):
        s.m = mod; s.opts = opts or {}
        s.obls = []; s.globobj = {}; s.assumptions = set(); s.funcs = {}; s.covers = {}
        s.names = {}          # input name -> value (for models)
        s.havocs = []         # (name, uf-name/kind info) for models
        s.cases = s.opts.get('cases', {}); s.casedom = {}
        s.quick_to = s.opts.get('quick_to', 400)
        s.ninstr = 0; s.maxinstr = s.opts.get('maxinstr', 600000)
        s.deadline = s.opts.get('deadline'); s.nqueries = 0; s.solver_time = 0.0
        s.taint = None; s.allow_throw = False; s.throws = []; s.depth = 0
        s.vcache = {}; s.lemmas = []; s.nd = {}
        s.implied = {}
        s.loopcap = s.opts.get('loopcap', 80)
        s.trace = s.opts.get('trace')
        s.callcontracts = {}
        s.stack = []
        s.loopinv = s.opts.get('loopinv', {})
        s._ctors = None; s.ginit0 = {}; s.initing = set(); s.pending_fams = {}
        s.infmode = 0; s.objs = {}; s.order = []; s.lincache = {}; s.hcache = {}

    # ---------------- solver
    def check(s, forms, to, model=False, lin=False):
        s.nqueries += 1; t0 = time.time()
        fs = [zb(f) for f in forms]
        facts = facts_for(fs)
        if lin:
            fs = [f for f in fs if s.islin(f)]; facts = [f for f in facts if s.islin(f)]
        else:
            k = len(facts); ex = expand(facts + fs); facts, fs = ex[:k], ex[k:]
        sol = z3.SimpleSolver() if lin else z3.Solver()
        sol.set('timeout', int(to))
        sol.add(facts); sol.add(fs)
        r = sol.check()
        s.solver_time += time.time() - t0
        m = sol.model() if (model and r == z3.sat) else None
        return r, m
    def islin(s, e):
        k = e.get_id(); r = s.lincache.get(k)
        if r is not None: return r[0]
        r = True; stack = [e]; seen = set()
        while stack:
            x = stack.pop(); i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(x):
                d = x.decl().kind()
                if d == z3.Z3_OP_MUL and sum(0 if z3.is_rational_value(c) or z3.is_int_value(c) else 1 for c in x.children()) > 1: r = False; break
                if d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV) and not (z3.is_int_value(x.arg(1)) or z3.is_rational_value(x.arg(1))): r = False; break
                if d in (z3.Z3_OP_INT2BV, z3.Z3_OP_BV2INT): r = False; break
            stack.extend(x.children())
        s.lincache[k] = (r, e); return r
    def unsat(s, forms, to):
        """quick linear attempt, then the full set"""
        forms = [zb(f) for f in forms]
        r, _ = s.check(forms, to, lin=True)
        if r == z3.unsat: return True
        facts = facts_for(forms)
        allf = forms + facts
        if r == z3.sat and all(s.islin(f) for f in allf) and not has_monos(allf): return False
        r, _ = s.check(forms, to)
        return r == z3.unsat
    # ---- bounds of polynomials in mixed-radix (Horner) form: if X >= 0 and E <= e then X*E <= e*X
    def horner(s, ctx, d, depth=0):
        """d <= 0 follows from the path condition (ctx: list of formulas)"""
        if isnum(d): return d <= 0
        if d.hi is not None and d.hi <= 0: return True
        c = le(d, Fraction(0) if d.real else 0)
        if c is True: return True
        if c is False: return False
        if s.check(ctx + [b_not(c)], 2000, lin=True)[0] == z3.unsat: return True
        if depth >= 5: return False
        cand = {}
        for m in d.t:
            if len(m) > 1:
                for i in set(m): cand[i] = cand.get(i, 0) + 1
        for X in sorted(cand, key=lambda i: -cand[i])[:6]:
            a = T.C.atoms[X]; sg = 1
            if a.hi is not None and a.hi <= 0: sg = -1
            elif not (a.lo is not None and a.lo >= 0):
                if s.horner_valid(ctx, ('np', X), lambda: s.check(ctx + [a.e > 0], 1000, lin=True)[0] == z3.unsat): sg = -1
                elif not s.horner_valid(ctx, ('nn', X), lambda: s.check(ctx + [a.e < 0], 1000, lin=True)[0] == z3.unsat): continue
            E, R = {}, {}
            for m, co in d.t.items():
                if X in m:
                    l = list(m); l.remove(X); E[tuple(l)] = E.get(tuple(l), 0) + co
                else: R[m] = co
            E = norm(E, d.real); R = norm(R, d.real)
            if isnum(E): continue
            xs = Sym({(X,): sg}, d.real)
            if sg < 0: E = neg(E)
            # lift through: is R + e*X <= 0 for some e, and E <= e?
            for e in (-1, 0) if not d.real else (0,):
                if depth < 5 and s.horner(ctx, add(R, scale(xs, Fraction(e) if d.real else e)), depth + 2) and s.horner(ctx, sub(E, e), depth + 1): return True
        return False
    def horner_valid(s, ctx, key, f):
        k = (key, tuple(x.get_id() for x in ctx)); r = s.hcache.get(k)
        if r is None: r = (f(), ctx); s.hcache[k] = r
        return r[0]
    def prove_nl(s, ctx, g):
        """goal structure on top of horner"""
        if isinstance(g, bool): return g
        if s.check(ctx + [b_not(g)], 2000, lin=True)[0] == z3.unsat: return True
        if z3.is_and(g): return all(s.prove_nl(ctx, c) for c in g.children())
        if z3.is_or(g):
            ch = g.children()
            for k, c in enumerate(ch):
                if s.cmpof(c) is None and not z3.is_and(c): continue
                if s.prove_nl(ctx + [b_not(o) for j, o in enumerate(ch) if j != k], c): return True
            return False
        d = s.cmpof(g)
        return d is not None and s.horner(ctx, d)
    def radix_lemmas(s, ctx, exprs):
        """d = A + X*E with |A| < X:  d == 0 implies A == 0 and E == 0 (premises checked under ctx)"""
        out = []; done = set(); todo = []
        seen = set(); stack = list(exprs)
        while stack:
            x = stack.pop(); k = x.get_id()
            if k in seen: continue
            seen.add(k)
            inf = T.C.cmpinfo.get(k)
            if inf is not None and inf[0] == 'eq' and not inf[1].real and any(len(m) > 1 for m in inf[1].t): todo.append(inf[1])
            i = T.C.by_ast.get(k)
            if i is not None: stack.extend(T.C.atoms[i].facts)
            stack.extend(x.children())
        n = 0
        while todo and n < 40:
            d = todo.pop()
            if d.key() in done: continue
            done.add(d.key()); n += 1
            atoms_ = {}
            for m in d.t:
                if len(m) > 1:
                    for i in set(m): atoms_[i] = atoms_.get(i, 0) + 1
            for X in sorted(atoms_, key=lambda i: -atoms_[i])[:5]:
                E, A = {}, {}
                for m, co in d.t.items():
                    if X in m:
                        l = list(m); l.remove(X); E[tuple(l)] = co
                    else: A[m] = co
                E = norm(E, False); A = norm(A, False)
                if isnum(A) and A != 0: continue
                xs = Sym({(X,): 1}, False)
                a = T.C.atoms[X]
                if a.hi is not None and a.hi <= 0: xs = neg(xs)
                if not isnum(A) and any(len(m) > 1 for m in A.t): continue
                pre = b_and(lt(A, xs), lt(neg(A), xs))
                if pre is not True and s.check(ctx + [zb(b_not(pre))], 2000, lin=True)[0] != z3.unsat: continue
                c = b_and(eq(E, 0), eq(A, 0))
                out.append(zb(b_or(b_not(eq(d, 0)), c)))
                if not isnum(E) and any(len(m) > 1 for m in E.t): todo.append(E)
                break
        return out
    def cmpof(s, g):
        """d with g <=> d <= 0"""
        ng = False
        if z3.is_not(g): ng = True; g = g.arg(0)
        inf = T.C.cmpinfo.get(g.get_id())
        if inf is None: return None
        op, d, _ = inf
        if op == 'le' and not ng: return d
        if op == 'le' and ng and not d.real: return add(neg(d), 1)
        if op == 'lt' and ng: return neg(d)
        return None
    def known(s, pc, c):
        """c was shown to follow from the path condition at an earlier point of this path"""
        for q, _ in s.implied.get(c.get_id(), ()):
            n = pc
            while n.depth > q.depth: n = n.parent
            if n is q: return True
        return False
    def learn(s, pc, c):
        if not isinstance(c, bool): s.implied.setdefault(c.get_id(), []).append((pc, c))
    def valid(s, st, c, to=None):
        if isinstance(c, bool): return c
        k = (id(st.pc), c.get_id())
        r = s.vcache.get(k)
        if r is None and (s.known(st.pc, c) or z3.is_and(c) and all(s.known(st.pc, x) for x in c.children())): return True
        if r is None:
            l = st.pc.lst()
            if z3.is_false(zb(c)): r = False
            elif has_monos([c]): r = s.prove_nl(l, c) or s.unsat(l + [b_not(c)], to or s.quick_to)
            else: r = s.unsat(l + [b_not(c)], to or s.quick_to)
            if r:
                s.learn(st.pc, c)
                if z3.is_and(c):
                    for x in c.children(): s.learn(st.pc, x)
            r = (r, st.pc, c); s.vcache[k] = r
        return r[0]
    def feasible(s, pc, to=None, full=False):
        l = pc.lst()
        if any(c is False for c in l): return False
        if not l: return True
        k = ('f', full, id(pc))
        r = s.vcache.get(k)
        if r is None:
            if full: u = s.unsat(l, to or s.quick_to)
            else: u = s.check(l, to or s.quick_to, lin=True)[0] == z3.unsat
            r = (not u, pc); s.vcache[k] = r
        return r[0]
    def oblige(s, st, c, label, loc, kind='safety'):
        """record an obligation and continue as if it holds"""
        if c is True:
            if kind == 'assert': s.obls.append(Obligation(st.pc, True, label, loc, kind, None))
            return
        o = Obligation(st.pc, c, label, loc, kind, s.taint); s.obls.append(o)
        if c is False: st.assume(False); return
        if kind != 'assert':
            if s.islin(c):
                if s.valid(st, c):
                    o.status = 'proved'; o.backend = 'z3'
                    if has_monos([c]): st.assume(c)
                    return
                st.assume(c)
            return
        if s.islin(c):
            if not has_monos([c]) and s.valid(st, c): o.status = 'proved'; o.backend = 'z3-linear'; return
            st.assume(c)

    # ---------------- types / constants
    def kind(s, ty):
        t = s.m.types[ty]
        if t[0] == 'p': return 'p'
        if t[0] == 'i': return ('i', t[1])
        if t[0] == 'f': return ('f', t[1])
        return None
    def tsize(s, ty):
        t = s.m.types[ty]
        if t[0] == 'p': return 8
        if t[0] == 'i': return max(1, (t[1] + 7) // 8)
        if t[0] == 'f': return t[1] // 8
        return t[1]
    def const(s, c):
        k = c[0]
        if k == 'i':
            v = int(c[2])
            return bool(v & 1) if c[1] == 1 else v
        if k == 'f': return bits_to_float(int(c[2]), c[1])
        if k == 'n': return NULL
        if k == 'g': return s.gptr(c[1])
        if k == 'ge':
            p = s.const(c[1]); return s.padd(p, c[2])
        if k == 'u': return s.undef(c[1])
        if k == 'z': return s.zero(c[1])
        if k == 'ce':
            if c[1] == 'ptrtoint': return PtrInt(s.const(c[2]))
            if c[1] in ('bitcast', 'addrspacecast'): return s.const(c[2])
            if c[1] == 'inttoptr':
                v = s.const(c[2])
                if isinstance(v, PtrInt): return v.p
        if k == 'agg': return Agg([s.const(x) for x in c[2]])
        if k == 'str': return Agg(list(bytes.fromhex(c[1])))
        raise ToolLimit("constant " + str(c)[:80])
    def undef(s, ty):
        t = s.m.types[ty]
        if t[0] == 's': return Agg([s.undef(x) for x in t[3]])
        if t[0] in ('vec', 'a'): return Agg([s.undef(t[3]) for _ in range(t[2])])
        return UNDEF
    def zero(s, ty):
        t = s.m.types[ty]
        if t[0] == 's': return Agg([s.zero(x) for x in t[3]])
        if t[0] in ('vec', 'a'): return Agg([s.zero(t[3]) for _ in range(t[2])])
        return zero_of(s.kind(ty))
    def gptr(s, name):
        p = s.globobj.get(name)
        if p is not None: return p
        if name in s.m.fnline:
            p = Ptr(((True, Fn(name), None, 0),)); s.globobj[name] = p; return p
        g = s.m.glob(name)
        if g is None: raise ToolLimit("unknown global " + name)
        o = Obj("@" + name, g['sz'], 'global'); o.initc = g; s.objs[o.id] = o
        p = s.globobj[name] = mkptr(o); return p
    def ctors(s):
        if s._ctors is None:
            s._ctors = {}
            g = s.m.glob('llvm.global_ctors')
            for e in (g['init'][2] if g and g['init'][0] == 'agg' else []):
                if e[2][2][0] == 'g': s._ctors[e[2][2][1]] = e[2][1][1]
        return s._ctors
    def ginit(s, o):
        c = s.ginit0.get(o.id)
        if c is not None: return c
        fn = s.ctors().get(o.initc.get('G'))
        if fn is not None and o.id not in s.initing:
            # dynamically initialised static member: its initial content is what its initialiser leaves
            s.initing.add(o.id)
            st = State(ROOT, {})
            try:
                r, st = s.callname(fn, [], {'fn': ['g', fn], 'rt': 0}, st, None)
                for k, v in st.mem.items():
                    if isinstance(k, tuple): continue
                    if s.objs[k].initc is not None: s.ginit0[k] = v
                    else: s.pending_fams[k] = v
                if o.id in s.ginit0: return s.ginit0[o.id]
            except ToolLimit as x:
                if s.opts.get('debugsum'): print('static initialiser', fn, x)
            finally: s.initing.discard(o.id)
        g = o.initc; cells = {}
        init = 'u'
        if 'init' in g:
            init = 'z'
            if g['sz'] > 65536: raise ToolLimit("large global " + o.name)
            s.fill_init(cells, 0, g['init'], g['ty'])
        else: s.assumptions.add("external global %s holds arbitrary content" % o.name)
        return Flat(cells, init)
    def fill_init(s, cells, off, c, ty):
        t = s.m.types[ty]
        if c[0] == 'z' or c[0] == 'u': return
        if c[0] == 'str':
            if t[0] == 'a' and t[4] == 1:
                for i, b in enumerate(bytes.fromhex(c[1])): cells[off + i] = (1, b if b < 128 else b - 256)
                return
        if c[0] == 'agg':
            if t[0] == 's':
                for x, o, ty2 in zip(c[2], t[2], t[3]): s.fill_init(cells, off + o, x, ty2)
            else:
                for i, x in enumerate(c[2]): s.fill_init(cells, off + i * t[4], x, t[3])
            return
        try: v = s.const(c)
        except ToolLimit: return
        if isinstance(v, bool): v = int(v)
        cells[off] = (s.tsize(ty), v)

    # ---------------- memory access
    def content(s, st, o):
        c = st.mem.get(o.id)
        if c is None:
            if o.initc is not None: c = s.ginit(o)
            elif o.id in s.pending_fams: c = s.pending_fams[o.id]
            elif isnum(o.size) and o.size <= 2048 and not o.fam: c = Flat({}, 'u')
            else: c = ArrC(None, {}, 'u', o.name)
            st.mem[o.id] = c
        return c
    def padd(s, p, d):
        if isnum(d) and d == 0: return p
        if not isinstance(p, Ptr): 
            if p is UNDEF: return UNDEF
            raise ToolLimit("pointer arithmetic on non-pointer")
        return Ptr(tuple((g, o, fi, add(off, d)) for g, o, fi, off in p.alts))
    def alloc(s, st, name, size, init='u', arr=False):
        o = Obj(name, size); s.objs[o.id] = o
        if isnum(size) and size <= (256 if arr else 2048): st.mem[o.id] = Flat({}, init)
        else: st.mem[o.id] = ArrC(None, {}, init, name)
        return o
    def access(s, st, p, n, loc, what):
        """check validity; returns list of (guard, obj, fi, off)"""
        if isinstance(p, PtrInt): p = p.p
        if not isinstance(p, Ptr):
            if isnum(p) and p == 0: p = NULL
            else: raise ToolLimit("access through non-pointer at %s" % (loc,))
        out = []
        for g, o, fi, off in p.alts:
            if o is None or isinstance(o, Fn):
                s.oblige(st, b_not(g), "no %s through null/invalid pointer" % what, loc)
                continue
            fr_ = st.mem.get(('freed', o.id))
            if fr_ is not None and fr_ is not False: s.oblige(st, b_not(b_and(g, fr_)), "no %s of freed memory" % what, loc)
            if o.kind == 'dead': s.oblige(st, b_not(g), "no %s of a dead local variable" % what, loc)
            if o.size is not None:
                c = b_and(le(0, off), le(add(off, n), o.size))
                if c is not True: s.oblige(st, b_or(b_not(g), c), "%s inside the object's storage" % what, loc)
            out.extend(s.split_off(st, g, o, fi, off))
        return out
    def split_off(s, st, g, o, fi, off):
        """an offset with parts that do not fit the element stride is split over the possible values of those parts"""
        if isnum(off): return [(g, o, fi, off)]
        c = s.content(st, o)
        if not isinstance(c, ArrC) or not c.stride: return [(g, o, fi, off)]
        bad = {m: k for m, k in terms(off).items() if m != () and int(k) % c.stride}
        if not bad: return [(g, o, fi, off)]
        base = st.pc.lst() + ([g] if g is not True else []); out = []; work = [(True, off)]
        while work:
            gi, v = work.pop()
            m = next((m for m, k in terms(v).items() if m != () and int(k) % c.stride), None)
            if m is None: out.append((gi, v)); continue
            a = T.C.atoms[m[0]]; inf = T.C.iteinfo.get(m[0]) if len(m) == 1 else None
            if len(m) == 1 and a.boolsrc is not None: inf = (a.boolsrc, 1, 0)
            if inf is None or len(out) + len(work) > 40: return [(g, o, fi, off)]
            k = terms(v)[m]; rest = sub(v, norm({m: k}, False))
            for cc, x in ((inf[0], inf[1]), (b_not(inf[0]), inf[2])):
                gg = b_and(gi, cc)
                if gg is False or s.unsat(base + ([gg] if gg is not True else []), 4000): continue
                work.append((gg, add(rest, T.scale(x, k))))
        if len(out) == 1: out = [(True, out[0][1])]
        return [(b_and(g, gi), o, fi, v) for gi, v in out]
    def arr_index(s, c, o, off, st):
        """byte offset -> (stride known content) (index, inner)"""
        if c.stride is None:
            gs = 0
            for m, k in terms(off).items():
                if m != (): gs = gcd(gs, abs(int(k)))
            es = o.elem or 0
            if not es and isinstance(o.size, Sym):
                for m, k in o.size.t.items():
                    if m != (): es = gcd(es, abs(int(k)))
                if es > 256: es = 0
            st_ = es or gs
            if gs and st_ % gs and gs % st_ : st_ = gcd(gs, st_)
            if not st_: st_ = s.accsize
            c.stride = st_ 
        k = c.stride
        q = {}
        for m, co in terms(off).items():
            if m == (): continue
            if int(co) % k:
                raise ToolLimit("offset not a multiple of the element stride (%s, %d)" % (off, k))
            q[m] = int(co) // k
        c0 = terms(off).get((), 0)
        qi, inner = divmod(int(c0), k)
        if qi: q[()] = qi
        return norm(q, False), inner
    def load(s, st, p, ty, loc):
        t = s.m.types[ty]
        if t[0] == 's': return Agg([s.load(st, s.padd(p, o), x, loc) for o, x in zip(t[2], t[3])])
        if t[0] in ('a', 'vec'): return Agg([s.load(st, s.padd(p, i * t[4]), t[3], loc) for i in range(t[2])])
        kd = s.kind(ty); n = s.tsize(ty)
        if kd is None: raise ToolLimit("load type")
        al = s.access(st, p, n, loc, "read")
        if not al: return UNDEF
        vals = [(g, s.load1(st, o, fi, off, n, kd)) for g, o, fi, off in al]
        r = vals[-1][1]
        if len(vals) == 2: return s.choose(st, vals[0][0], vals[0][1], r)
        for g, v in reversed(vals[:-1]): r = v_ite(g, v, r)
        return r
    def choose(s, st, c, a, b):
        """c ? a : b, as one of the two where the path condition makes them agree (clamping with min/max)"""
        if isinstance(c, bool) or not (isnum(a) or isinstance(a, Sym)) or not (isnum(b) or isinstance(b, Sym)): return v_ite(c, a, b)
        if any(len(m) > 1 for x in (a, b) if not isnum(x) for m in x.t): return v_ite(c, a, b)
        e = eq(a, b)
        if e is True: return a
        if e is False or not s.islin(c): return v_ite(c, a, b)
        k = ('choose', id(st.pc), c.get_id(), e.get_id()); r = s.vcache.get(k)
        if r is None:
            l = st.pc.lst(); ne = b_not(e); w = None
            if s.check(l + [b_not(c), ne], 300, lin=True)[0] == z3.unsat: w = 0
            elif s.check(l + [c, ne], 300, lin=True)[0] == z3.unsat: w = 1
            r = (w, st.pc, c, e); s.vcache[k] = r
        return a if r[0] == 0 else b if r[0] == 1 else v_ite(c, a, b)
    def load1(s, st, o, fi, off, n, kd):
        c = s.content(st, o)
        if isinstance(c, Flat) and not isnum(off):
            offs = s.sym_off(st, o, off, n)
            if offs is None: c = s.content(st, o)
        if isinstance(c, Flat):
            if isnum(off): return s.flat_read(st, c, o, int(off), n, kd)
            # symbolic offset into a small object: enumerate compatible cells
            res = None
            for x in offs:
                cond = eq(off, x)
                if cond is False: continue
                try: v = s.flat_read(st, c, o, x, n, kd)
                except ToolLimit: continue
                res = v if res is None else v_ite(cond, v, res)
            if res is None: return UNDEF
            return res
        s.accsize = n
        idx, inner = s.arr_index(c, o, off, st)
        ix = (fi, idx) if o.fam else (idx,)
        # wider access over several narrower elements (copies of aggregates)
        f = c.field(inner, o)
        if c.stride < n and c.stride and n % c.stride == 0 and kd != 'p':
            ps = []
            for j in range(n // c.stride):
                ix2 = (fi, add(idx, j)) if o.fam else (add(idx, j),)
                ps.append((c.stride, aread(f, ix2, ('i', 8 * c.stride))))
            return Cat(ps)
        return s.settle(st, aread(f, ix, kd), f)
    def settle(s, st, v, node):
        """drop the cases of a read that the path rules out (elements written or not by a summarised loop)"""
        if isinstance(v, Ptr):
            return s.prune_ptr(st, v) if len(v.alts) > 1 and any(isinstance(a[1], Fn) for a in v.alts) else v
        if not isinstance(v, Sym) or not isinstance(node, (ARange, AStore, AIte)): return v
        n = 0; p = node
        while isinstance(p, (AStore, ARange)) and n < 3:
            if isinstance(p, ARange): break
            p = p.prev; n += 1
        if not isinstance(p, ARange): return v
        for _ in range(4):
            if len(v.t) != 1: return v
            m, k = next(iter(v.t.items()))
            inf = T.C.iteinfo.get(m[0]) if len(m) == 1 and k == 1 else None
            if inf is None: return v
            key = ('settle', id(st.pc), m[0]); r = s.vcache.get(key)
            if r is None:
                l = st.pc.lst(); c = inf[0]
                d = None
                if not isinstance(c, bool):
                    if s.unsat(l + [b_not(c)], 1500): d = True
                    elif s.unsat(l + [c], 1500): d = False
                r = (d, st.pc); s.vcache[key] = r
            if r[0] is None: return v
            v = inf[1] if r[0] else inf[2]
            if not isinstance(v, Sym): return v
        return v
    def prune_ptr(s, st, v):
        """drop pointer alternatives that cannot occur here"""
        if not isinstance(v, Ptr) or len(v.alts) == 1: return v
        al = [a for a in v.alts if not s.unsat(st.pc.lst() + [zb(a[0])], 700)]
        if len(al) == len(v.alts) or not al: return v
        return Ptr(((True,) + al[0][1:],)) if len(al) == 1 else Ptr(tuple(al))
    def flat_read(s, st, c, o, off, n, kd):
        x = c.cells.get(off)
        if x is not None and x[0] == n:
            v = x[1]
            if isinstance(v, MaybeUninit):
                v = v_ite(v.g, conv(v.v, kd), s.uninit(o, off, n, kd))
            if isinstance(v, Cat): return s.uncat(v, kd)
            return conv(v, kd)
        ov = [(k, z_) for k, (z_, _) in c.cells.items() if k < off + n and off < k + z_]
        if not ov:
            if c.init == 'z': return zero_of(kd)
            return s.uninit(o, off, n, kd)
        # assemble from narrower cells, or extract from a wider one
        if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1] >= off + n:
            k, zs = ov[0]; v = c.cells[k][1]
            if isinstance(v, MaybeUninit): v = v.v
            return conv(s.extract(v, zs, off - k, n), kd)
        if kd == 'p': raise ToolLimit("partial pointer read")
        ps = []; q = off
        while q < off + n:
            x = c.cells.get(q)
            if x is None:
                # gap: find next
                nx = min([k for k in c.cells if k > q and k < off + n] or [off + n])
                ps.append((nx - q, 0 if c.init == 'z' else s.uninit(o, q, nx - q, ('i', 8 * (nx - q))))); q = nx; continue
            if q + x[0] > off + n: raise ToolLimit("straddling read")
            v = x[1]
            if isinstance(v, MaybeUninit): v = v.v
            if isinstance(v, Cat): ps.extend(v.ps)
            else: ps.append((x[0], v))
            q += x[0]
        return s.uncat(Cat(ps), kd)
    def uncat(s, v, kd):
        if len(v.ps) == 1: return conv(v.ps[0][1], kd)
        if all(isnum(p[1]) and not isinstance(p[1], Fraction) for p in v.ps) and kd != 'p':
            r = 0; sh = 0
            for n, x in v.ps: r |= (x & ((1 << 8 * n) - 1)) << sh; sh += 8 * n
            if kd[0] == 'f': return bits_to_float(r, kd[1])
            return r - (1 << sh) if r >> (sh - 1) else r
        if kd == 'p' or kd[0] == 'f': raise ToolLimit("pieces read as " + str(kd))
        return v
    def extract(s, v, zs, o, n):
        if isinstance(v, Cat):
            q = 0; ps = []
            for sz, x in v.ps:
                if q >= o and q + sz <= o + n: ps.append((sz, x))
                elif q < o + n and o < q + sz: raise ToolLimit("piece split")
                q += sz
            return ps[0][1] if len(ps) == 1 else Cat(ps)
        if isnum(v) and not isinstance(v, Fraction):
            r = (v >> (8 * o)) & ((1 << 8 * n) - 1)
            return r - (1 << 8 * n) if r >> (8 * n - 1) else r
        if isinstance(v, Fraction) and v == 0: return 0
        if isinstance(v, Ptr) and isnullptr(v): return 0
        if isinstance(v, Sym) and not v.real:
            if o == 0: return s.wrap(v, 8 * n, None)
            return s.wrap(divmod_floor(v, 1 << (8 * o))[0], 8 * n, None)
        raise ToolLimit("partial read of a value")
    def uninit(s, o, off, n, kd):
        k = (off, n, kd)
        v = o.uninit.get(k)
        if v is None:
            if kd == 'p': v = WILD
            else: v = fresh_of("uninit_%s_%d_%d" % (o.name, o.id, off), kd)
            o.uninit[k] = v
        return v
    def wr(s, st, o):
        c = s.content(st, o).copy(); st.mem[o.id] = c; return c
    def store(s, st, p, v, ty, loc):
        t = s.m.types[ty]
        if t[0] == 's' or t[0] in ('a', 'vec'):
            if v is UNDEF: return
            offs = zip(t[2], t[3]) if t[0] == 's' else [(i * t[4], t[3]) for i in range(t[2])]
            for (o, x), y in zip(offs, v.v): s.store(st, s.padd(p, o), y, x, loc)
            return
        n = s.tsize(ty)
        s.storev(st, p, v, n, loc)
    def storev(s, st, p, v, n, loc):
        if isinstance(v, (bool, z3.BoolRef)): v = from_bool(v)
        al = s.access(st, p, n, loc, "write")
        for g, o, fi, off in al:
            if o.initc is not None and o.initc.get('const'): s.oblige(st, b_not(g), "no write to constant data", loc)
            s.store1(st, g if len(p.alts) > 1 else True, o, fi, off, v, n)
    def to_array(s, st, o, stride):
        c = st.mem[o.id]; stride = int(stride)
        f = {}
        for off in sorted(c.cells):
            n, v = c.cells[off]
            if isinstance(v, MaybeUninit): v = v_ite(v.g, v.v, s.uninit(o, off, n, 'p' if isinstance(v.v, Ptr) else ('f', 8 * n) if isreal(v.v) else ('i', 8 * n)))
            i, inner = divmod(int(off), stride)
            if n > stride: raise ToolLimit("wide cell in array %s size %s stride %d cell %d+%d" % (o, o.size, stride, off, n))
            prev = f.get(inner)
            if prev is None: prev = AConst(0) if c.init == 'z' else AUninit("%s_%d.%d" % (o.name, o.id, inner))
            f[inner] = AStore(prev, (i,), v)
        st.mem[o.id] = ArrC(stride, f, c.init, o.name)
        for inner, node in f.items():
            pass
    def sym_off(s, st, o, off, n):
        m0 = gcd(*[abs(int(k)) for m, k in off.t.items() if m != ()])
        base = int(off.const()) % m0
        offs = [x for x in range(base, max(int(o.size) - n + 1, 0), m0)]
        if len(offs) > 12 and m0 < 4:
            try: return [c[0] for _, c in s.candidates(st, (off,))]
            except ToolLimit: pass
        if len(offs) > 12 and o.kind == 'heap' and o.initc is None:
            s.to_array(st, o, m0); return None
        if len(offs) > 130: raise ToolLimit("symbolic offset into flat object")
        return offs
    def store1(s, st, g, o, fi, off, v, n):
        c = s.wr(st, o)
        if isinstance(c, Flat) and not isnum(off):
            offs = s.sym_off(st, o, off, n)
            if offs is None: c = s.wr(st, o)
        if isinstance(c, Flat):
            if isnum(off):
                s.flat_write(st, c, o, int(off), n, v, g); return
            for x in offs:
                cond = b_and(g, eq(off, x))
                if cond is False: continue
                s.flat_write(st, c, o, x, n, v, cond)
            return
        s.accsize = n
        idx, inner = s.arr_index(c, o, off, st)
        if isinstance(v, Cat):
            q = 0
            for sz, x in v.ps:
                s.store1(st, g, o, fi, add(off, q), x, sz); q += sz
            return
        if v is UNDEF:
            v = None
        f = c.field(inner, o)
        ix = (fi, idx) if o.fam else (idx,)
        if v is None: nf = AStore(f, ix, fresh_int("undef", None, None))
        else: nf = AStore(f, ix, v)
        c.fields[inner] = nf if g is True else AIte(g, nf, f)
    def flat_write(s, st, c, o, off, n, v, g=True):
        if isinstance(v, Cat):
            q = off
            for sz, x in v.ps: s.flat_write(st, c, o, q, sz, x, g); q += sz
            return
        if g is not True:
            old = c.cells.get(off)
            if old is not None and old[0] == n:
                if v is UNDEF: return
                ov = old[1]
                if isinstance(ov, MaybeUninit): c.cells[off] = (n, MaybeUninit(b_or(ov.g, g), v_ite(g, v, ov.v)))
                else: c.cells[off] = (n, v_ite(g, v, ov))
                return
            ov = [k for k, (z_, _) in c.cells.items() if k < off + n and off < k + z_]
            if not ov:
                if c.init == 'z':
                    c.cells[off] = (n, v_ite(g, v, zero_of('p' if isinstance(v, Ptr) else ('f', 32) if isreal(v) else ('i', 8))))
                else: c.cells[off] = (n, MaybeUninit(g, v))
                return
            raise ToolLimit("guarded partial overwrite %s %s+%s over %s" % (o, off, n, [(k, c.cells[k]) for k in ov]))
        x = c.cells.get(off)
        if x is not None and x[0] == n:
            if v is UNDEF: del c.cells[off]
            else: c.cells[off] = (n, v)
            return
        s.flat_clear(c, off, n)
        if v is not UNDEF: c.cells[off] = (n, v)
    def flat_clear(s, c, off, n):
        for k in [k for k, (z_, _) in c.cells.items() if k < off + n and off < k + z_]:
            zs, v = c.cells[k]
            if k >= off and k + zs <= off + n: del c.cells[k]; continue
            del c.cells[k]
            if isinstance(v, MaybeUninit): v = v.v
            try:
                if k < off: c.cells[k] = (off - k, s.extract(v, zs, 0, off - k))
                if k + zs > off + n: c.cells[off + n] = (k + zs - off - n, s.extract(v, zs, off + n - k, k + zs - off - n))
            except ToolLimit:
                pass
        if c.init == 'z':
            # absent cells mean zero; keep the cleared range explicit
            pass
    def candidates(s, st, vals, most=12):
        """the possible values of a few integer terms under the path condition, with their guards"""
        out = []; used = []
        while True:
            sy = [v for v in vals if not isnum(v)]
            if not sy: return [(True, tuple(int(v) for v in vals))]
            r, m = s.check(st.pc.lst() + used, 4000, model=True)
            if r == z3.unsat: break
            if r != z3.sat or len(out) >= most: raise ToolLimit("memcpy with unbounded offsets")
            cv = tuple(int(v) if isnum(v) else m.eval(z(v), model_completion=True).as_long() for v in vals)
            g = True
            for v, c in zip(vals, cv):
                if not isnum(v): g = b_and(g, eq(v, c))
            out.append((g, cv)); used.append(b_not(g))
        if len(out) == 1: out = [(True, out[0][1])]
        return out
    def memcpy(s, st, d, sp, n, loc):
        if isnum(n) and n == 0: return
        sa = s.access(st, sp, n, loc, "read"); da = s.access(st, d, n, loc, "write")
        if len(sa) != 1 or len(da) != 1: raise ToolLimit("memcpy with ambiguous pointers")
        _, so, sfi, soff = sa[0]; _, do, dfi, doff = da[0]
        sc = s.content(st, so)
        if isinstance(sc, Flat) and isinstance(s.content(st, do), Flat) and not (isnum(soff) and isnum(doff) and isnum(n)):
            # small objects, offsets that are not literal: split over their possible values
            cand = s.candidates(st, (soff, doff, n))
            outs = []
            for g, (a, b, c) in cand:
                st2 = State(PC(st.pc, g) if g is not True else st.pc, dict(st.mem))
                if c: s.memcpy(st2, mkptr(do, b, dfi), mkptr(so, a, sfi), c, loc)
                outs.append((g, st2.mem))
            s.content(st, do)
            res = outs[-1][1].get(do.id)
            for g, m in reversed(outs[:-1]): res = merge_content(g, m.get(do.id), res, do)
            st.mem[do.id] = res
            return
        if isinstance(sc, Flat) and isnum(soff) and isnum(n):
            soff = int(soff); dc = s.content(st, do)
            if isinstance(dc, Flat) and isnum(doff):
                src = sc.copy(); dc = s.wr(st, do); doff = int(doff)
                items = []
                for k in sorted(src.cells):
                    zs, v = src.cells[k]
                    if k >= soff and k + zs <= soff + n: items.append((k, zs, v))
                    elif k < soff + n and soff < k + zs:
                        a = max(k, soff); b = min(k + zs, soff + n)
                        items.append((a, b - a, s.extract(v.v if isinstance(v, MaybeUninit) else v, zs, a - k, b - a)))
                s.flat_clear(dc, doff, n)
                if src.init == 'z' or dc.init == 'z':
                    # fill gaps explicitly
                    q = soff
                    fin = []
                    for a, zs, v in items + [(soff + n, 0, None)]:
                        if a > q:
                            fin.append((q, a - q, None))
                        if zs: fin.append((a, zs, v))
                        q = a + zs
                    for a, zs, v in fin:
                        if v is not None: dc.cells[doff + a - soff] = (zs, v); continue
                        for j in range(a, a + zs):
                            if src.init == 'z':
                                if dc.init != 'z': dc.cells[doff + j - soff] = (1, 0)
                            else: dc.cells[doff + j - soff] = (1, s.uninit(so, j, 1, ('i', 8)))
                    return
                for a, zs, v in items: dc.cells[doff + a - soff] = (zs, v)
                return
            # flat -> array: store piecewise
            for k in sorted(sc.cells):
                zs, v = sc.cells[k]
                if k >= soff and k + zs <= soff + n:
                    s.store1(st, True, do, dfi, add(doff, k - soff), v.v if isinstance(v, MaybeUninit) else v, zs)
            return
        dc = s.content(st, do)
        if isinstance(sc, ArrC) and isinstance(dc, Flat) and isnum(n) and isnum(doff) and sc.stride:
            dc = s.wr(st, do)
            q = 0
            # copy element fields by the source's known field layout
            idx, inner = s.arr_index(sc, so, soff, st)
            inners = sorted(sc.fields)
            if not inners: raise ToolLimit("copy out of an array of unknown layout")
            while q < n:
                ii = (inner + q) % sc.stride
                szs = [x for x in inners if x > ii]
                w = min((szs[0] if szs else sc.stride) - ii, n - q)
                if ii not in sc.fields: q += w; continue
                ix = add(idx, (inner + q) // sc.stride)
                f = sc.fields[ii]; w2 = s.fieldwidth(f) or w
                if w2 > n - q: raise ToolLimit("partial element copy")
                kd = s.fieldkind(f, w2)
                s.flat_write(st, dc, do, int(doff) + q, w2, aread(f, ((sfi, ix) if so.fam else (ix,)), kd))
                q += w2
            return
        if isinstance(sc, ArrC) and isinstance(dc, ArrC):
            if sc.stride is None and dc.stride is None:
                sc.stride = dc.stride = s.copy_stride(so, do, n)
            if sc.stride is None: sc.stride = dc.stride
            if dc.stride is None: dc.stride = sc.stride
            if sc.stride != dc.stride: raise ToolLimit("copy between different strides")
            k = sc.stride
            qn, rn = divmod_floor(n, k)
            if not (isnum(rn) and rn == 0): raise ToolLimit("copy size not a multiple of the stride")
            si, sin = s.arr_index(sc, so, soff, st); di, din = s.arr_index(dc, do, doff, st)
            if sin != din: raise ToolLimit("misaligned copy")
            dc = s.wr(st, do)
            inners = set(sc.fields) | set(dc.fields) | {0}
            for f in inners:
                srcf = sc.field(f, so); prev = dc.field(f, do)
                si2 = si if f >= sin else add(si, 1); di2 = di if f >= din else add(di, 1)
                def rd(ix, kd, srcf=srcf, si2=si2, di2=di2, sfi=sfi, fam=so.fam):
                    e = add(sub(ix[-1], di2), si2)
                    return aread(srcf, ((sfi, e) if fam else (e,)), kd)
                dc.fields[f] = ARange(prev, dfi, di2, add(di2, qn), rd)
            return
        raise ToolLimit("memcpy between %s and %s: %s+%s -> %s+%s, %s bytes" % (type(sc).__name__, type(dc).__name__, so, soff, do, doff, n))
    def copy_stride(s, so, do, n):
        for o in (so, do):
            if o.elem: return o.elem
        return 4
    def fieldwidth(s, f):
        n = f
        while True:
            if isinstance(n, (AStore, ARange)):
                n = n.prev; continue
            if isinstance(n, AIte): n = n.b; continue
            if isinstance(n, AUninit) and n.gen is not None: return getattr(n.gen, 'width', None)
            return None
    def fieldkind(s, f, w):
        n = f
        while True:
            if isinstance(n, AStore):
                v = n.val
                if isinstance(v, Ptr): return 'p'
                if isreal(v): return ('f', 8 * w)
                return ('i', 8 * w)
            if isinstance(n, AUninit) and n.gen is not None: return n.gen.kind
            if isinstance(n, ARange): n = n.prev; continue
            if isinstance(n, AIte): n = n.b; continue
            return ('i', 8 * w)
    def memset(s, st, d, v, n, loc):
        if isnum(n) and n == 0: return
        if not (isnum(v)): raise ToolLimit("memset with symbolic byte")
        for g, o, fi, off in s.access(st, d, n, loc, "write"):
            if g is not True and len(d.alts) > 1:
                c = s.content(st, o); old = c.copy(); s.memset1(st, o, fi, off, v, n)
                st.mem[o.id] = merge_content(g, s.content(st, o), old, o)
            else: s.memset1(st, o, fi, off, v, n)
    def memset1(s, st, o, fi, off, v, n):
        c = s.wr(st, o)
        if isinstance(c, Flat) and isnum(off) and isnum(n):
            s.flat_clear(c, int(off), int(n))
            if v == 0 and c.init == 'z': return
            if v == 0:
                # 8-byte zero cells; readers of other widths extract from them
                q = int(off); e = q + int(n)
                while q < e:
                    w = 8 if q % 8 == 0 and e - q >= 8 else 4 if q % 4 == 0 and e - q >= 4 else 1
                    c.cells[q] = (w, 0); q += w
            else:
                for q in range(int(off), int(off) + int(n)): c.cells[q] = (1, v)
            return
        if isinstance(c, ArrC) and v == 0:
            # whole-object clears
            if isnum(off) and off == 0 and o.size is not None and same(o.size, n) and not o.fam:
                st.mem[o.id] = ArrC(c.stride, {k: AConst(0) for k in c.fields}, 'z', c.name)
                # untouched fields must not resurrect the uninitialised base
                st.mem[o.id].fields = {k: AConst(0) for k in set(c.fields) | {k[1] for k in o.uninit if isinstance(k, tuple) and k[0] == 'fld'}}
                return
            if c.stride is None: c.stride = o.elem or 4
            i, inn = s.arr_index(c, o, off, st); qn, rn = divmod_floor(n, c.stride)
            if inn == 0 and isnum(rn) and rn == 0:
                for f in set(c.fields) | {0}:
                    c.fields[f] = ARange(c.field(f, o), fi, i, add(i, qn), lambda ix, kd: zero_of(kd))
                return
        raise ToolLimit("memset form")

    # ---------------- integers
    def wrap(s, x, n, st):
        """bring an int value into the signed n-bit range (two's complement)"""
        h = 1 << (n - 1)
        if isnum(x):
            x &= (1 << n) - 1
            return x - (1 << n) if x >= h else x
        lo, hi = x.lo, x.hi
        if lo is not None and hi is not None and lo >= -h and hi < h: return x
        if st is not None:
            if s.valid(st, b_and(le(-h, x), lt(x, h))): return s.clip(x, -h, h - 1)
        q, r = divmod_floor(add(x, h), 1 << n)
        return s.clip(sub(r, h), -h, h - 1)
    def clip(s, x, lo, hi):
        """x is known to lie in [lo,hi]"""
        if isnum(x): return x
        l, h = x.lo, x.hi
        if l is not None and l >= lo and h is not None and h <= hi: return x
        # only narrow if it is a single atom; otherwise remember on the Sym itself
        y = Sym(x.t, x.real); y._lo = max(l, lo) if l is not None else lo; y._hi = min(h, hi) if h is not None else hi; y._iv = True
        return y
    def uns(s, x, n, st):
        """unsigned reading of a signed-representation value"""
        if isnum(x): return x & ((1 << n) - 1)
        if isinstance(x, (PtrInt, Cat, FBits)): x = s.toint(x)
        lo = x.lo
        if lo is not None and lo >= 0: return x
        if s.valid(st, le(0, x)): return s.clip(x, 0, (1 << (n - 1)) - 1)
        if s.valid(st, lt(x, 0)): return add(x, 1 << n)
        return ite(lt(x, 0), add(x, 1 << n), x)
    def toint(s, v):
        if isinstance(v, (bool, z3.BoolRef)): return from_bool(v)
        if isinstance(v, PtrInt):
            p = v.p; res = None
            for g, o, fi, off in p.alts:
                if o is None: a = off
                elif isinstance(o, Fn): raise ToolLimit("function address arithmetic")
                else:
                    if o.fam: raise ToolLimit("address of family object")
                    if o.addr is None: o.addr = fresh_int("addr_" + o.name, 4096, (1 << 47))
                    a = add(o.addr, off)
                res = a if res is None else ite(g, a, res)
            return res
        if isinstance(v, Cat):
            r = 0; sh = 0
            for i, (n, x) in enumerate(v.ps):
                x = s.toint(x)
                u = x if i == len(v.ps) - 1 else (ite(lt(x, 0), add(x, 1 << (8 * n)), x) if not (isnum(x)) else x & ((1 << 8 * n) - 1))
                r = add(r, scale(u, 1 << sh)); sh += 8 * n
            return r
        if isinstance(v, FBits): raise ToolLimit("float bits used as an integer")
        if v is UNDEF: return fresh_int("undef", None, None)
        return v
    def arith(s, op, a, b, n, ins, st, loc):
        if n == 1:
            a_ = a if isinstance(a, (bool, z3.BoolRef)) else bool_of(a); b_ = b if isinstance(b, (bool, z3.BoolRef)) else bool_of(b)
            if op == 'and': return b_and(a_, b_)
            if op == 'or': return b_or(a_, b_)
            if op in ('xor', 'add', 'sub'): return b_xor(a_, b_)
            raise ToolLimit("i1 " + op)
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            r = s.ptrdiff(a.p, b.p)
            if r is not None: return r
        if op in ('add', 'sub') and isinstance(a, PtrInt) and not isinstance(b, PtrInt):
            return PtrInt(s.padd(a.p, s.toint(b) if op == 'add' else neg(s.toint(b))))
        if isinstance(a, Cat) and isnum(b):
            if op == 'lshr' and b % 8 == 0:
                ps = list(a.ps); k = b // 8
                while k and ps and ps[0][0] <= k: k -= ps[0][0]; ps.pop(0)
                if k == 0:
                    if len(ps) == 1:
                        v = ps[0][1]; w = ps[0][0]
                        return Cat([(w, v)] + [(1, 0)] * (n // 8 - w))
                    return Cat(ps + [(1, 0)] * (b // 8))
        if op == 'shl' and isinstance(a, Cat) and isnum(b) and b % 8 == 0:
            k = b // 8; ps = [(k, 0)]; tot = k
            for sz, v in a.ps:
                if tot + sz > n // 8:
                    if isnum(v) and v == 0: continue
                    break
                ps.append((sz, v)); tot += sz
            else:
                return Cat(ps)
            if tot == n // 8: return Cat(ps)
        if op == 'or' and isinstance(a, Cat) and isinstance(b, Cat):
            m = s.orcat(a, b)
            if m is not None: return m
        a, b = s.toint(a), s.toint(b)
        if op in ('and', 'or', 'xor'):
            def flag(x):
                if isnum(x): return bool(x) if x in (0, 1) else None
                if len(x.t) == 1:
                    (m_, c_), = x.t.items()
                    if len(m_) == 1 and c_ == 1: return T.C.atoms[m_[0]].boolsrc
                return None
            fa, fb = flag(a), flag(b)
            if fa is not None and fb is not None:
                return T.from_bool(b_and(fa, fb) if op == 'and' else b_or(fa, fb) if op == 'or' else b_xor(fa, fb))
        if op in ('add', 'sub', 'mul'):
            r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
            if isnum(r): return s.wrap(r, n, None)
            h = 1 << (n - 1)
            lo, hi = r.lo, r.hi
            if lo is not None and hi is not None and lo >= -h and hi < h: return r
            if ins.get('nsw'):
                c = b_and(le(-h, r), lt(r, h))
                s.oblige(st, c, "no signed overflow in %s" % op, loc)
                return s.clip(r, -h, h - 1)
            return s.wrap(r, n, st)
        if op == 'sdiv':
            if isnum(b) and b != 0:
                if ins.get('ex'):
                    q, r = divmod_floor(a, abs(b)); return q if b > 0 else neg(q)
                if isnum(a): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
                k = abs(b)
                if lo_of(a) is not None and lo_of(a) >= 0 or s.valid(st, le(0, a)): q = divmod_floor(a, k)[0]
                elif s.valid(st, le(a, 0)): q = neg(divmod_floor(neg(a), k)[0])
                else: q = ite(le(0, a), divmod_floor(a, k)[0], neg(divmod_floor(neg(a), k)[0]))
                return q if b > 0 else neg(q)
            s.oblige(st, b_not(eq(b, 0)), "no division by zero", loc)
            return s.gdiv(a, b, st)[0]
        if op == 'srem':
            if isnum(b) and b != 0:
                k = abs(b)
                if isnum(a): r = abs(a) % k; return r if a >= 0 else -r
                if lo_of(a) is not None and lo_of(a) >= 0 or s.valid(st, le(0, a)): return divmod_floor(a, k)[1]
                return ite(le(0, a), divmod_floor(a, k)[1], neg(divmod_floor(neg(a), k)[1]))
            s.oblige(st, b_not(eq(b, 0)), "no division by zero", loc)
            return s.gdiv(a, b, st)[1]
        if op in ('udiv', 'urem'):
            ua, ub = s.uns(a, n, st), s.uns(b, n, st)
            if isnum(ub) and ub > 0:
                q, r = divmod_floor(ua, ub); return s.wrap(q if op == 'udiv' else r, n, st)
            s.oblige(st, b_not(eq(b, 0)), "no division by zero", loc)
            q, r = s.gdiv(ua, ub, st)
            return s.wrap(q if op == 'udiv' else r, n, st)
        if op == 'shl':
            if isnum(b): return s.arith('mul', a, 1 << b, n, ins, st, loc) if b < n - 1 else s.wrap(scale(a, 1 << b), n, None)
            p = s.pow2(b, n, st, loc)
            return s.arith('mul', a, p, n, ins, st, loc)
        if op == 'ashr':
            if isnum(b): return divmod_floor(a, 1 << b)[0]
            return s.fdivsym(a, s.pow2(b, n, st, loc), st)[0]
        if op == 'lshr':
            ua = s.uns(a, n, st)
            if isnum(b): return s.wrap(divmod_floor(ua, 1 << b)[0], n, st)
            return s.fdivsym(ua, s.pow2(b, n, st, loc), st)[0]
        if op == 'and':
            if isnum(a): a, b = b, a
            if isnum(b):
                if isnum(a): return a & b
                if b == 0: return 0
                if b == -1: return a
                if b > 0 and (b & (b + 1)) == 0:
                    if lo_of(a) is not None and lo_of(a) >= 0 and hi_of(a) is not None and hi_of(a) <= b: return a
                    return divmod_floor(a, b + 1)[1]
                if b < 0 and (-b & (-b - 1)) == 0: return sub(a, divmod_floor(a, -b)[1])
                if b == -(1 << (n - 1)): return ite(lt(a, 0), b, 0)
                if b > 0 and (b & (b - 1)) == 0:      # single bit
                    q = divmod_floor(a, b)[0]; return scale(divmod_floor(q, 2)[1], b)
                if b == (1 << (n - 1)) - 1: return ite(lt(a, 0), add(a, 1 << (n - 1)), a)
            r = s.bvop('and', a, b, n)
            return r
        if op == 'or':
            if isnum(a): a, b = b, a
            if isnum(b):
                if isnum(a): return a | b
                if b == 0: return a
                if b == -(1 << (n - 1)): return ite(lt(a, 0), a, add(a, b))
                # disjoint low bits
                if b > 0:
                    k = 1 << b.bit_length(); q, r = divmod_floor(a, k)
                    if isnum(r) and (r & b) == 0: return add(a, b)
            return s.bvop('or', a, b, n)
        if op == 'xor':
            if isnum(a): a, b = b, a
            if isnum(b):
                if isnum(a): return a ^ b
                if b == -1: return sub(-1, a)
                if b == 0: return a
            return s.bvop('xor', a, b, n)
        raise ToolLimit("op " + op)
    def orcat(s, a, b):
        def bytesof(c):
            out = []
            for sz, v in c.ps:
                if isnum(v) and v == 0: out += [(0, None)] * sz
                else: out.append((sz, v)); out += [('c', None)] * (sz - 1)
            return out
        x, y = bytesof(a), bytesof(b)
        L = max(len(x), len(y)); x += [(0, None)] * (L - len(x)); y += [(0, None)] * (L - len(y))
        ps = []; i = 0
        while i < L:
            if x[i][0] == 0 and y[i][0] == 0: ps.append((1, 0)); i += 1; continue
            if x[i][0] not in (0, 'c') and all(y[j][0] == 0 for j in range(i, i + x[i][0])): ps.append(x[i]); i += x[i][0]; continue
            if y[i][0] not in (0, 'c') and all(x[j][0] == 0 for j in range(i, i + y[i][0])): ps.append(y[i]); i += y[i][0]; continue
            return None
        return Cat(ps)
    def bvop(s, op, a, b, n):
        if n > 64: raise ToolLimit("wide bit op")
        x, y = z3.Int2BV(z(a), n), z3.Int2BV(z(b), n)
        r = x & y if op == 'and' else x | y if op == 'or' else x ^ y
        return atom_sym(z3.BV2Int(r, True), False, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    def pow2(s, b, n, st, loc):
        s.oblige(st, b_and(le(0, b), lt(b, n)), "shift amount in range", loc)
        lo, hi = lo_of(b), hi_of(b)
        if lo is None or hi is None or hi - lo > 64: lo, hi = 0, n - 1
        lo = max(0, lo); hi = min(n - 1, hi)
        r = 1 << hi
        for k in range(hi - 1, lo - 1, -1): r = ite(eq(b, k), 1 << k, r)
        return r
    def fdivsym(s, a, b, st):
        """floor division by positive symbolic b"""
        if isnum(b): return divmod_floor(a, b)
        q = atom_sym(z(a) / z(b), False)
        at = T.C.atoms[next(iter(q.t))[0]]
        if not at.facts:
            bq = mul(b, q); at.facts.append(zb(b_and(le(bq, a), lt(a, add(bq, b)))))
        la, ha = lo_of(a), hi_of(a)
        if la is not None and la >= 0: at.lo = 0; at.hi = ha
        return q, sub(a, mul(q, b))
    def gdiv(s, a, b, st):
        """C division for symbolic divisor"""
        if s.valid(st, b_and(le(0, a), lt(0, b))): return s.fdivsym(a, b, st)
        q = fresh_int("sdivq", None, None); r = sub(a, mul(q, b))
        at = T.C.atoms[next(iter(q.t))[0]]
        az, bz, rz = z(a), z(b), z(r)
        absb = z3.If(bz < 0, -bz, bz)
        at.facts.append(z3.Implies(bz != 0, z3.And(z3.If(az >= 0, z3.And(rz >= 0, rz < absb), z3.And(rz <= 0, -rz < absb)))))
        return q, r
    def ptrdiff(s, p, q):
        r = None
        if len(p.alts) == 1 and len(q.alts) == 1:
            _, o1, f1, x1 = p.alts[0]; _, o2, f2, x2 = q.alts[0]
            if o1 is o2 and not isinstance(o1, Fn): return sub(x1, x2)
            return None
        # same object in every compatible pair
        for g1, o1, f1, x1 in p.alts:
            for g2, o2, f2, x2 in q.alts:
                g = b_and(g1, g2)
                if g is False: continue
                if o1 is not o2: return None
                d = sub(x1, x2); r = d if r is None else ite(g, d, r)
        return r
    def ptrcmp(s, pred, p, q, st):
        if p is UNDEF or q is UNDEF: return z3.Bool(T.C.fresh('undefcmp'))
        res = None; tot = False
        for g1, o1, f1, x1 in p.alts:
            for g2, o2, f2, x2 in q.alts:
                g = b_and(g1, g2)
                if g is False: continue
                if o1 is None and o2 is None: c = True if pred in ('eq', 'uge', 'ule', 'sge', 'sle') else False
                elif o1 is POISON or o2 is POISON: c = z3.Bool(T.C.fresh('undefcmp'))
                elif isinstance(o1, Fn) or isinstance(o2, Fn):
                    e = isinstance(o1, Fn) and isinstance(o2, Fn) and o1.name == o2.name
                    c = e if pred == 'eq' else not e if pred == 'ne' else None
                elif o1 is o2:
                    if o1.fam and not same(f1, f2):
                        fe = eq(f1, f2)
                        if pred == 'eq': c = b_and(fe, eq(x1, x2))
                        elif pred == 'ne': c = b_not(b_and(fe, eq(x1, x2)))
                        else: raise ToolLimit("order of family pointers")
                    else:
                        c = {'eq': eq, 'ne': lambda a, b: b_not(eq(a, b)), 'ult': lt, 'ule': le,
                             'ugt': lambda a, b: lt(b, a), 'uge': lambda a, b: le(b, a), 'slt': lt, 'sle': le,
                             'sgt': lambda a, b: lt(b, a), 'sge': lambda a, b: le(b, a)}[pred](x1, x2)
                else:
                    if pred == 'eq': c = False
                    elif pred == 'ne': c = True
                    elif o1 is None: c = pred in ('ult', 'ule', 'slt', 'sle')
                    elif o2 is None: c = pred in ('ugt', 'uge', 'sgt', 'sge')
                    else: return cmp_int(s, pred, s.toint(PtrInt(p)), s.toint(PtrInt(q)), 64, st)
                if c is None: raise ToolLimit("pointer comparison")
                res = c if res is None else b_ite(g, c, res)
        return res

def has_monos(fs):
    seen = set(); stack = list(fs)
    while stack:
        x = stack.pop(); k = x.get_id()
        if k in seen: continue
        seen.add(k)
        if k in T.C.monoast: return True
        stack.extend(x.children())
    return False
def cmp_int(s, pred, a, b, n, st):
    if pred == 'eq': return eq(a, b)
    if pred == 'ne': return b_not(eq(a, b))
    if pred[0] == 'u':
        a, b = s.uns(a, n, st), s.uns(b, n, st)
    op = pred[1:]
    if op == 'lt': return lt(a, b)
    if op == 'le': return le(a, b)
    if op == 'gt': return lt(b, a)
    return le(b, a)
