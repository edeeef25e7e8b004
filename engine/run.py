"""Block/region executor, instruction semantics and trusted library contracts."""
import re, time, hashlib
import z3
from fractions import Fraction
from terms import *
import terms as T
from memory import *
import memory as MM
from execu import *
import execu

class PathEnd(Exception):
    """the current path cannot continue"""

class Edge:
    __slots__ = ('st', 'phi')
    def __init__(s, st, phi): s.st = st; s.phi = phi

def anc(a, b):
    while a is not b:
        if a.depth > b.depth: a = a.parent
        elif b.depth > a.depth: b = b.parent
        else: a = a.parent; b = b.parent
    return a
def suffix(pc, a):
    cs = []
    while pc is not a:
        cs.append(pc.cond); pc = pc.parent
    cs.reverse()
    return b_and(*cs)

class NotSummable(Exception): pass
def mentions_sym(x, ka):
    if isnum(x): return False
    mc = {}
    return any(mentions(T.C.atoms[i].e, ka.e, mc) for m in x.t for i in m)
class WVal:
    """value stored by the generic iteration (conditionally: otherwise the old element)"""
    def __init__(s, g, val, old, idx): s.g = g; s.raw = val; s.old = old; s.idx = idx
    def __call__(s, kd):
        if s.g is True: return conv(s.raw, kd)
        return v_ite(s.g, conv(s.raw, kd), aread(s.old, s.idx, kd))
def self_val(s, t, st):
    g, val, old, idx = t
    return WVal(g, val, old, idx)
class Frame:
    __slots__ = ('f', 'env', 'allocas', 'rets', 'name')
    def __init__(s, f): s.f = f; s.env = {}; s.allocas = []; s.rets = []; s.name = f['F']

class Exec(Engine):
    # ------------------------------------------------------------------ merging
    def merge_states(s, sts):
        """-> (state, [cond per input])"""
        if len(sts) == 1: return sts[0], [True]
        a = sts[0].pc
        for t in sts[1:]: a = anc(a, t.pc)
        conds = [suffix(t.pc, a) for t in sts]
        keep = [i for i, c in enumerate(conds) if c is not False]
        if not keep: raise PathEnd()
        tot = b_or(*[conds[i] for i in keep])
        pc = a if tot is True else PC(a, tot)
        mem = None
        # fold from the last: result = c0 ? m0 : (c1 ? m1 : ... m_last)
        mem = dict(sts[keep[-1]].mem)
        for i in reversed(keep[:-1]):
            c = conds[i]; m = sts[i].mem
            if m is mem: continue
            for k in set(m) | set(mem):
                x = m.get(k); y = mem.get(k)
                if x is y: continue
                if isinstance(k, tuple):
                    mem[k] = s.merge_side(k, c, x, y); continue
                o = s.objs[k]
                if x is None or y is None:
                    if o.initc is not None:
                        init = s.ginit(o)
                        x = x or init; y = y or init
                    else:
                        mem[k] = x if x is not None else y; continue
                if type(x) is not type(y):
                    ar = x if isinstance(x, ArrC) else y
                    if ar.stride is None: raise ToolLimit("merge of different contents")
                    tmp = State(pc, {k: x if ar is y else y}); s.to_array(tmp, o, ar.stride)
                    if ar is y: x = tmp.mem[k]
                    else: y = tmp.mem[k]
                mem[k] = merge_content(c, x, y, o)
        return State(pc, mem), conds
    def merge_side(s, k, c, x, y):
        if k[0] == 'freed': return b_ite(c, False if x is None else x, False if y is None else y)
        if same(x, y): return x
        if k[0] == 'str':
            if x == y: return x
            return None
        raise ToolLimit("merge of side table " + k[0])
    def merge_edges(s, edges):
        if len(edges) == 1: return edges[0].st, edges[0].phi
        st, conds = s.merge_states([e.st for e in edges])
        phi = {}
        for k in edges[0].phi:
            r = None
            for e, c in reversed(list(zip(edges, conds))):
                if c is False: continue
                try: r = e.phi[k] if r is None else v_ite(c, e.phi[k], r)
                except ToolLimit as ex:
                    raise ToolLimit("%s (phi)" % ex)
            phi[k] = r
        return st, phi

    # ------------------------------------------------------------------ functions
    def call(s, f, args, st, loc):
        if s.depth > s.opts.get('maxdepth', 60): raise ToolLimit("call depth at " + f['dem'])
        name = f['F']
        for rx, con in s.opts.get('contracts', {}).items():
            if re.search(rx, f['dem']):
                if 'stub' not in con: return s.by_contract(f, con, args, st, loc), st
                s.assumptions.add("calls of %s are checked against its contract (%s in the contract file), proved in %s" % (f['dem'].split('(')[0], con['stub'], con['where']))
                name = con['stub']; f = s.m.func(name); break
        s.funcs.setdefault(name, [f['dem'], f.get('file'), f.get('line'), 0])[3] += 1
        fr = Frame(f)
        for a, v in zip(f['args'], args):
            if 'byval' in a:
                o = s.alloc(st, 'byval', a['byval']); fr.allocas.append(o)
                s.memcpy(st, mkptr(o), v, a['byval'], loc); v = mkptr(o)
            fr.env[a['id']] = v
        s.depth += 1; s.stack.append(f['dem'])
        try:
            s.region(fr, list(range(len(f['bb']))), 0, [Edge(st, {})], None)
        except ToolLimit:
            if not s.failstack: s.failstack = list(s.stack)
            raise
        finally:
            s.depth -= 1; s.stack.pop()
        if not fr.rets: raise PathEnd()
        rst, phi = s.merge_edges(fr.rets)
        for o in fr.allocas:
            rst.mem.pop(o.id, None); o.kind = 'dead'
        return phi.get('r'), rst

    def by_contract(s, f, con, args, st, loc):
        """a call of a pure real function checked against its own contract: the result is a function of the argument
        values, about which only the postconditions (proved for the function elsewhere) are known"""
        xs = []
        for k, v in zip(con['sig'], args):
            if k in ('pf', 'pd'):
                n = 4 if k == 'pf' else 8
                al = s.access(st, s.ptr(v), n, loc, "read"); kd = ('f', 8 * n)
                vals = [(g, s.load1(st, o, fi, off, n, kd)) for g, o, fi, off in al]
                r = vals[-1][1]
                for g, w in reversed(vals[:-1]): r = v_ite(g, w, r)
                v = r
            xs.append(opaque(toreal(s.fl(v))) if not isnum(v) else toreal(v))
        s.assumptions.add("calls of %s are checked against its contract (%s), proved in %s" % (f['dem'].split('(')[0], con['name'], con['where']))
        uf = UFS.setdefault(('real', con['name'], len(xs)), z3.Function('uf_' + con['name'], *([z3.RealSort()] * (len(xs) + 1))))
        r = atom_sym(uf(*[z(x) for x in xs]), True); a = T.C.atoms[next(iter(r.t))[0]]
        if not a.facts:
            for c in con['ensures']:
                c = c(xs, r)
                if c is not True: a.facts.append(zb(c))
        return r
    def region(s, fr, blocks, header, entry, loop):
        """execute the blocks (RPO order) of a function body or one loop iteration; returns {outside target: edges}"""
        f = fr.f; inset = set(blocks) if loop is not None else None
        pend = {header: entry}; out = {}
        skip = set()
        for b in blocks:
            if b in skip: continue
            es = pend.pop(b, None)
            if b != header and b in f['byheader']:
                lb = f['byheader'][b]
                skip.update(lb[1])
                if es:
                    ex = s.loop(fr, lb, es)
                    for t, l in ex.items():
                        if inset is not None and (t not in inset or t == header): out.setdefault(t, []).extend(l)
                        else: pend.setdefault(t, []).extend(l)
                continue
            if b == header and loop is None and b in f['byheader']:
                # entry block being a loop header cannot happen in LLVM IR
                pass
            if not es: continue
            try:
                st, phi = s.merge_edges(es)
            except PathEnd: continue
            fr.env.update(phi)
            try: nx = s.block(fr, b, st)
            except PathEnd: continue
            for t, e in nx:
                if inset is not None and (t not in inset or t == header): out.setdefault(t, []).append(e)
                else: pend.setdefault(t, []).append(e)
        return out

    def loop(s, fr, lb, entry):
        h, bl, d = lb
        bl = sorted(bl)
        exits = {}; edges = entry; n = 0
        desc = "%s:%s" % (fr.f['dem'][:80], h)
        prev = None; trysum = True; snaps = []
        while edges:
            n += 1
            if n == 18 and len(edges) == 1 and edges[0].st.pc is prev_pc and snaps and not exits:
                # a long loop with a constant trip count: summarise it from its start
                r = None
                try: r = s.summarise(fr, lb, bl, snaps[0], snaps[1])
                except NotSummable as x:
                    if s.opts.get('debugsum'): print('  no summary from the start for', desc, ':', x)
                if r is not None: return r
            if n == s.loopcap and len(edges) == 1 and edges[0].st.pc is prev_pc:
                # a long loop with a constant trip count: summarise it as well
                r = None
                try: r = s.summarise(fr, lb, bl, prevc, edges[0], n - 2)
                except NotSummable as x:
                    if s.opts.get('debugsum'): print('  no summary for', desc, ':', x)
                if r is not None:
                    for t, l in r.items(): exits.setdefault(t, []).extend(l)
                    return exits
            if n > s.loopcap:
                if not (len(edges) == 1 and edges[0].st.pc is prev_pc and n < 5000):
                    raise ToolLimit("loop without a bound within reach in " + desc)
            if s.deadline and time.time() > s.deadline: raise ToolLimit("time budget (loop in %s)" % desc)
            if trysum and n >= 2:
                trysum = n < 4
                try: st0, phi0 = s.merge_edges(edges)
                except PathEnd: break
                edges = [Edge(st0, phi0)]
                r = None
                if prev is not None and edges[0].st.pc is not prev.st.pc:
                    try: r = s.summarise(fr, lb, bl, prev, edges[0], n - 2)
                    except NotSummable as x:
                        if s.opts.get('debugsum'): print('  no summary for', desc, ':', x)
                if r is not None:
                    exits = ex_prev
                    for t, l in r.items(): exits.setdefault(t, []).extend(l)
                    return exits
            if trysum or n == 1:
                try: st0, phi0 = s.merge_edges(edges)
                except PathEnd: break
                prev = Edge(State(st0.pc, dict(st0.mem)), dict(phi0)); edges = [Edge(st0, phi0)]
                ex_prev = {t: list(l) for t, l in exits.items()}
            prev_pc = edges[0].st.pc
            if n <= 2 and len(edges) == 1: snaps.append(Edge(State(edges[0].st.pc, dict(edges[0].st.mem)), dict(edges[0].phi)))
            if n == s.loopcap - 1: prevc = Edge(State(edges[0].st.pc, dict(edges[0].st.mem)), dict(edges[0].phi))
            ex = s.region(fr, bl, h, edges, lb)
            back = ex.pop(h, [])
            for t, l in ex.items(): exits.setdefault(t, []).extend(l)
            edges = [e for e in back if s.feasible(e.st.pc, s.quick_to, n > 1)]
        return exits

    # ---- quantified loop invariants: induction variables advance by a constant step and iteration k only
    # writes elements with index base+k.  Invariant at the head of iteration k: induction variables are
    # init + k*step, k <= T for a bound T read off the continuation condition, and every element base+j with
    # j < k holds f(j).  The generic iteration is executed under exactly that invariant and must re-establish it.
    def summarise(s, fr, lb, bl, e0, e1, peeled=0):
        h = lb[0]
        st0, st1 = e0.st, e1.st
        for e in (e0, e1):
            for pid, v in e.phi.items(): e.phi[pid] = s.prune_ptr(e.st, v)
        # induction values in SSA form
        ind = {}
        for pid, v0 in e0.phi.items():
            ind[pid] = s.step(v0, e1.phi[pid])
        # induction values living in memory cells
        cells = []
        for k in set(st0.mem) | set(st1.mem):
            if isinstance(k, tuple): continue
            x, y = st0.mem.get(k), st1.mem.get(k)
            if x is y or y is None or x is None: continue
            if isinstance(x, Flat):
                if not isinstance(y, Flat): raise NotSummable("content kind")
                for off in set(x.cells) | set(y.cells):
                    u, w = x.cells.get(off), y.cells.get(off)
                    if u is w: continue
                    if u is None or w is None or u[0] != w[0]: raise NotSummable("cell layout %s+%s" % (s.objs[k], off))
                    if same(u[1], w[1]): continue
                    try: stp = s.step(u[1], w[1])
                    except NotSummable:
                        # elements of a small heap object written one after the other: treat it as an array
                        if s.objs[k].kind != 'heap' or len({q[0] for q in x.cells.values()}) != 1 or len(x.cells) < 2: raise
                        for q in (st0, st1):
                            q.mem[k] = q.mem[k].copy(); s.to_array(q, s.objs[k], u[0])
                        cells = [q for q in cells if q[0] != k]
                        break
                    cells.append((k, off, u[0], u[1], stp))
        if not any(isinstance(x, tuple) and (x[1] != 0) for x in ind.values()) and not cells: raise NotSummable("no induction variable")
        kv = fresh_int("it", 0, None); ka = T.C.atoms[next(iter(kv.t))[0]]
        bound = None; fwrites = {}; famctx = {}; log0 = len(T.C.log)
        for phase in (1, 2, 3):
            saved = (s.obls, s.throws, s.covers)
            a0 = len(T.C.atoms)
            if phase < 3: s.obls = []; s.throws = []; s.covers = {}
            try:
                st = State(st0.pc, dict(st0.mem))
                st.assume(le(0, kv))
                for t in (bound or ()): st.assume(le(kv, t))
                for (k, off, n, v, stp) in cells:
                    c = st.mem[k].copy(); c.cells[off] = (n, s.at(v, stp, kv)); st.mem[k] = c
                for (oid, fld), (fi, lo, f, stride) in fwrites.items():
                    c = st.mem.get(oid)
                    if c is None: c = s.content(st, s.objs[oid])
                    c = c.copy(); st.mem[oid] = c
                    if c.stride is None: c.stride = stride
                    c.fields[fld] = ARange(c.field(fld, s.objs[oid]), fi, lo, add(lo, kv), f)
                phi = {pid: s.at(v0, ind[pid], kv) for pid, v0 in e0.phi.items()}
                hpc = st.pc; hmem = dict(st.mem)
                ex = s.region(fr, bl, h, [Edge(st, dict(phi))], lb)
                back = ex.pop(h, [])
                if not back: raise NotSummable("no back edge")
                bst, bphi = s.merge_edges(back)
            finally:
                if phase < 3: s.obls, s.throws, s.covers = saved
            # the induction step
            k1 = add(kv, 1)
            for pid, v0 in e0.phi.items():
                want = s.at(v0, ind[pid], k1)
                if not s.sameval(bst, bphi[pid], want): raise NotSummable("phi not inductive")
            for (k, off, n, v, stp) in cells:
                c = bst.mem[k].cells.get(off)
                if c is None or not s.sameval(bst, c[1], s.at(v, stp, k1)): raise NotSummable("cell not inductive")
            for k in set(hmem) | set(bst.mem):
                if isinstance(k, tuple):
                    if hmem.get(k) is not bst.mem.get(k) and not (k[0] == 'freed'): raise NotSummable("side effect " + k[0])
                    continue
                x, y = hmem.get(k), bst.mem.get(k)
                if x is y or x is None or y is None: continue
                if isinstance(x, Flat):
                    for off in set(x.cells) | set(y.cells):
                        u, w = x.cells.get(off), y.cells.get(off)
                        if u is w or any(q[0] == k and q[1] == off for q in cells): continue
                        if u is None or w is None or u[0] != w[0] or not same(u[1], w[1]): raise NotSummable("cell changed in the generic iteration")
            conds = suffix(bst.pc, hpc)
            newobjs = [k for k in bst.mem if not isinstance(k, tuple) and k not in hmem and s.objs[k].kind == 'heap']
            if phase == 1:
                bound = s.bounds_of(conds, kv, ka, st0)
                continue
            # element writes of this iteration
            w = s.writes_of(hmem, bst.mem, kv, ka, a0, bst, newobjs)
            hidden = set(T.C.log[log0:])
            for key, v in w.items(): s.no_hidden(v[2].raw, hidden); s.no_hidden(v[2].g, hidden); s.no_hidden(v[1], hidden)
            for k in newobjs:
                if s.referenced(k, w):
                    c = bst.mem[k]
                    if isinstance(c, Flat):
                        for n_, v_ in c.cells.values(): s.no_hidden(v_, hidden)
                    else:
                        for node in c.fields.values(): s.no_hidden_node(node, hidden)
            if phase == 2:
                fwrites = s.mk_writes(w, ka, kv, newobjs, bst, famctx, False)
                continue
            for key, (fi, idx, val, stride) in w.items():
                if key not in fwrites: raise NotSummable("write set differs")
            if set(w) != set(fwrites): raise NotSummable("write set differs")
            w2 = s.mk_writes(w, ka, kv, newobjs, bst, famctx, True)
            probe = fresh_int("pr", None, None)
            for key in w:
                for kd in s.probe_kinds(w[key][2]):
                    x, y = w2[key][2]((add(w2[key][1], probe),), kd), fwrites[key][2]((add(fwrites[key][1], probe),), kd)
                    if not same(x, y):
                        if s.opts.get('debugsum'): print('   value', key, str(x)[:400], '<>', str(y)[:400])
                        raise NotSummable("element value not inductive")
                if not (same(w2[key][1], fwrites[key][1]) and same(w2[key][0], fwrites[key][0])): raise NotSummable("element base not inductive")
            # the bound is re-established
            for t in bound:
                if not s.valid(bst, le(k1, t), 3000): raise NotSummable("bound not inductive")
            # facts carried to the exits: the continuation condition held in the previous iteration and for witnesses
            try: s.no_hidden(conds, set(T.C.log[log0:])); prevc = subst_bool(conds, ka, sub(kv, 1)); okc = True
            except NotSummable: prevc = True; okc = False
            for t, l in ex.items():
                for e in l:
                    e.st.assume(b_or(le(kv, 0), prevc))
                    for wit in ({key_of(w): w for x in s.witnesses for w in (x, sub(x, peeled))}.values() if okc else ()):
                        e.st.assume(b_or(b_not(b_and(le(0, wit), lt(wit, kv))), subst_bool(conds, ka, wit)))
            s.final_count(fr, bl, ex, kv, ka, bound, st0, fwrites, cells, hmem)
            s.nsums = getattr(s, 'nsums', 0) + 1
            return ex
    def final_count(s, fr, bl, ex, kv, ka, bound, st0, fwrites, cells, hmem):
        """where every exit leaves after exactly t iterations, state that in the values themselves"""
        edges = [e for l in ex.values() for e in l]
        if not edges or not bound: return
        for t in bound:
            if all(s.valid(e.st, eq(kv, t), 2000) for e in edges): break
        else: return
        def sb(v):
            if isinstance(v, Sym) and not mentions_sym(v, ka): return v
            try: return s.subst(v, ka, t, {})
            except NotSummable: return v
        for e in edges:
            e.phi = {k: sb(v) for k, v in e.phi.items()}
            for (k, off, n, v, stp) in cells:
                c = e.st.mem.get(k)
                if isinstance(c, Flat) and off in c.cells:
                    c = c.copy(); c.cells[off] = (c.cells[off][0], sb(c.cells[off][1])); e.st.mem[k] = c
            for (oid, fld), (fi, lo, f, stride) in fwrites.items():
                c = e.st.mem.get(oid); h = hmem.get(oid)
                if c is None or h is None or c.fields.get(fld) is not h.fields.get(fld): continue
                nd = c.fields[fld]
                if not isinstance(nd, ARange): continue
                c = c.copy(); c.fields[fld] = ARange(nd.prev, nd.fi, nd.lo, add(lo, t), nd.f); e.st.mem[oid] = c
        for b in bl:
            for i in fr.f['bb'][b]:
                if 'id' in i and i['id'] in fr.env: fr.env[i['id']] = sb(fr.env[i['id']])
    def no_hidden(s, v, hidden):
        """the value may not depend on a constant invented inside the generic iteration"""
        es = []
        if isinstance(v, Sym): es = [T.C.atoms[i].e for m in v.t for i in m]
        elif isinstance(v, z3.ExprRef): es = [v]
        elif isinstance(v, Ptr):
            for g, o, fi, off in v.alts:
                for q in (g, fi, off): s.no_hidden(q, hidden)
            return
        elif isinstance(v, FBits): return s.no_hidden(v.v, hidden)
        elif isinstance(v, MaybeUninit): return s.no_hidden(v.v, hidden)
        elif isinstance(v, (Cat, Agg, PtrInt)): raise NotSummable("value kind")
        seen = set()
        for e in es:
            if consts_of(e, set(), seen) & hidden:
                if s.opts.get('debugsum'): print('   unknowns', consts_of(e, set(), set()) & hidden, str(e)[:400])
                raise NotSummable("value depends on a per-iteration unknown")
    def no_hidden_node(s, n, hidden):
        while True:
            if isinstance(n, AStore):
                s.no_hidden(n.val, hidden)
                for q in n.idx: s.no_hidden(q, hidden)
                n = n.prev; continue
            if isinstance(n, ARange):
                pr = fresh_int("pr", None, None)
                try: s.no_hidden(n.f((pr,), ('f', 32)), hidden)
                except ToolLimit: s.no_hidden(n.f((pr,), ('i', 32)), hidden)
                s.no_hidden(n.lo, hidden); s.no_hidden(n.hi, hidden)
                n = n.prev; continue
            if isinstance(n, AIte): s.no_hidden(n.c, hidden); s.no_hidden_node(n.a, hidden); n = n.b; continue
            return
    def probe_kinds(s, v):
        if isinstance(v, WVal): v = v.raw
        if isinstance(v, MaybeUninit): v = v.v
        if isinstance(v, (bool, z3.BoolRef)): return [('i', 8)]
        if isinstance(v, FBits): return [('f', v.n)]
        if isinstance(v, Ptr): return ['p']
        if isreal(v): return [('f', 32)]
        return [('i', 32)]
    def sameval(s, st, a, b):
        if same(a, b): return True
        if isinstance(a, (Sym, int, Fraction)) and isinstance(b, (Sym, int, Fraction)) and not isinstance(a, bool) and not isinstance(b, bool):
            return s.valid(st, eq(a, b), 2000)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == 1 and len(b.alts) == 1:
            x, y = a.alts[0], b.alts[0]
            return x[1] is y[1] and (x[2] is y[2] or same(x[2], y[2])) and s.sameval(st, x[3], y[3])
        return False
    def step(s, a, b):
        """constant step from a to b: ('i',d) ints, ('p',d) pointers, ('c',) unchanged"""
        if same(a, b): return ('c', 0)
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)): raise NotSummable("boolean loop variable")
        if isinstance(a, (Sym, int)) and isinstance(b, (Sym, int)):
            d = sub(b, a)
            if isnum(d) and not isinstance(d, Fraction): return ('i', d)
            if s.opts.get('debugsum'): print('   step', str(a)[:300], '->', str(b)[:300])
            raise NotSummable("non-constant step")
        if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] is b.alts[0][1] and same(a.alts[0][2], b.alts[0][2]):
            d = sub(b.alts[0][3], a.alts[0][3])
            if isnum(d): return ('p', d)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == len(b.alts) and all(same(x[0], y[0]) and x[1] is y[1] and same(x[2], y[2]) for x, y in zip(a.alts, b.alts)):
            ds = {(sub(y[3], x[3]) if x[1] is not None and not isinstance(x[1], Fn) else 'n') for x, y in zip(a.alts, b.alts)} - {'n'}
            if len(ds) == 1 and isnum(next(iter(ds))): return ('p', ds.pop())
        if s.opts.get('debugsum'): print('   step', str(a)[:300], '->', str(b)[:300])
        raise NotSummable("non-inductive loop variable")
    def at(s, v, stp, k):
        if stp[0] == 'c': return v
        if stp[0] == 'i': return add(v, scale(k, stp[1]))
        if len(v.alts) > 1: return Ptr(tuple((g, o, fi, off if o is None or isinstance(o, Fn) else add(off, scale(k, stp[1]))) for g, o, fi, off in v.alts))
        g, o, fi, off = v.alts[0]
        return Ptr(((True, o, fi, add(off, scale(k, stp[1]))),))
    def bounds_of(s, conds, kv, ka, st0):
        out = []
        cs = [conds]
        flat = []
        while cs:
            c = cs.pop()
            if isinstance(c, bool): continue
            if z3.is_and(c): cs.extend(c.children()); continue
            flat.append(c)
        for c in flat:
            ng = False
            if z3.is_not(c): ng = True; c = c.arg(0)
            inf = T.C.cmpinfo.get(c.get_id())
            if inf is None: continue
            op, d, _ = inf
            if isnum(d) or d.real or any(ka.i in m and m != (ka.i,) for m in d.t) or (ka.i,) not in d.t: continue
            if any(m != (ka.i,) and any(mentions(T.C.atoms[i].e, ka.e, {}) for i in m) for m in d.t): continue
            al = d.t[(ka.i,)]; be = norm({m: c2 for m, c2 in d.t.items() if m != (ka.i,)}, False)
            if op == 'eq' and ng and abs(al) == 1: t = neg(be) if al == 1 else be
            elif op == 'le' and not ng and al == 1: t = add(neg(be), 1)
            elif op == 'le' and ng and al == -1: t = be
            elif op == 'le' and not ng and al > 1: t = add(divmod_floor(neg(be), al)[0], 1)
            elif op == 'le' and ng and al < -1: t = add(divmod_floor(sub(be, 1), -al)[0], 1)
            else: continue
            if s.valid(st0, le(0, t), 3000): out.append(t)
        if not out and s.opts.get('debugsum'): print('   no bound from', str(conds)[:300])
        return out
    def writes_of(s, m0, m1, kv, ka, a0, st, newobjs):
        """{(obj, field): (fi, index, value, stride)} of one iteration"""
        out = {}
        for k in set(m0) | set(m1):
            if isinstance(k, tuple): continue
            x, y = m0.get(k), m1.get(k)
            if x is y or y is None or k in newobjs: continue
            if not isinstance(y, ArrC): continue
            o = s.objs[k]
            if x is None:
                if o.kind == 'stack': continue
                x = ArrC(y.stride, {}, y.init, y.name)
            for fld in set(x.fields) | set(y.fields):
                u, w = x.field(fld, o), y.field(fld, o)
                if u is w: continue
                idx, val, g = s.one_write(u, w)
                out[(k, fld)] = (idx[0] if o.fam else None, idx[-1], (g, val, u, idx), y.stride)
        return {k: (v[0], v[1], self_val(s, v[2], st), v[3]) for k, v in out.items()}
    def one_write(s, old, new):
        """new = old with one element (conditionally) replaced"""
        g = True; idx = None; val = None
        n = new
        if isinstance(n, AStore):
            # several stores to the same element: the last one counts
            p = n.prev
            while isinstance(p, AStore) and idx_eq(p.idx, n.idx) is True: p = p.prev
            if p is old: return n.idx, n.val, True
            if isinstance(p, AIte):
                i2, v2, g2 = s.one_write(old, p)
                if idx_eq(i2, n.idx) is True: return n.idx, n.val, True
            raise NotSummable("several elements written per iteration")
        if isinstance(n, AIte):
            if n.b is old or n.a is old:
                i, v, g = s.one_write(old, n.a if n.b is old else n.b)
                c = n.c if n.b is old else b_not(n.c)
                return i, v, b_and(c, g)
            ia, va, ga = s.one_write(old, n.a); ib, vb, gb = s.one_write(old, n.b)
            if idx_eq(ia, ib) is not True: raise NotSummable("different elements on different paths")
            if ga is True and gb is True: return ia, v_ite(n.c, va, vb), True
            raise NotSummable("conditional writes on both paths")
        raise NotSummable("write form " + type(n).__name__)
    def mk_writes(s, w, ka, kv, newobjs, bst, famctx, check):
        fams = {}
        out = {}
        newrefs = [k for k in sorted(newobjs) if s.referenced(k, w)]
        if check and len(newrefs) != len(famctx): raise NotSummable("new objects differ")
        for nk, k in enumerate(newrefs):
            o = s.objs[k]; c = bst.mem[k]
            F = famctx.get(nk)
            if F is None:
                F = Obj(o.name + "_each", o.size, 'heap', True); F.elem = c.stride if isinstance(c, ArrC) else None; s.objs[F.id] = F; famctx[nk] = F
            elif not same(F.size, o.size): raise NotSummable("per-iteration size")
            fams[k] = F
        for k, F in fams.items():
            c = bst.mem[k]
            if isinstance(F.size, Sym) and mentions_sym(F.size, ka): raise NotSummable("per-iteration size")
            if isinstance(c, Flat):
                szs = {n for n, v in c.cells.values()} or {1}
                st_ = min(szs)
                if c.init != 'u' and c.init != 'z': raise NotSummable("new object content")
                # element size: all cells equal width
                if len(szs) > 1: raise NotSummable("mixed new object content")
                cont = ArrC(st_, {}, c.init, F.name)
                def gen(ix, kd, c=c, st_=st_, o=s.objs[k]):
                    r = None
                    for off, (n, v) in c.cells.items():
                        v = s.subst(v, ka, ix[0], {})
                        r = v if r is None else v_ite(eq(ix[1], off // st_), conv(v, kd), conv(r, kd))
                    return r if r is not None else uf_app("new_%d" % o.id, ix, kd)
                cont.fields[0] = AUninit(F.name, gen)
            else:
                cont = ArrC(c.stride, {}, c.init, F.name)
                for fld, node in c.fields.items():
                    cont.fields[fld] = AUninit(F.name, lambda ix, kd, node=node: s.subst(aread(node, (ix[1],), kd), ka, ix[0], {}))
            if check:
                # the content found under the full invariant must be the one assumed for earlier iterations
                old = s.pending_fams[F.id]
                if old.stride != cont.stride or set(old.fields) != set(cont.fields) or old.init != cont.init: raise NotSummable("new object layout differs")
                p1, p2 = fresh_int("pr", None, None), fresh_int("pr", None, None)
                for fld in cont.fields:
                    ok = False
                    for kd in ((('f', 8 * cont.stride),) if cont.stride in (4, 8) else ()) + (('i', 8 * min(8, cont.stride)), 'p'):
                        try: x, y = aread(old.fields[fld], (p1, p2), kd), aread(cont.fields[fld], (p1, p2), kd); ok = same(x, y)
                        except ToolLimit: continue
                        if not ok and F.size is not None:
                            tmp = bst.copy(); tmp.assume(le(0, p2)); tmp.assume(le(scale(add(p2, 1), cont.stride), F.size))
                            ok = s.sameval(tmp, x, y)
                        if not ok and s.opts.get('debugsum'): print('   content', str(x)[:1500], '<>', str(y)[:1500])
                        if not ok: raise NotSummable("new object content not inductive")
                        break
                    if not ok: raise NotSummable("new object content")
                continue
            s.pending_fams[F.id] = cont
        for key, (fi, idx, val, stride) in w.items():
            d = sub(idx, kv)
            if mentions_sym(d, ka) or (fi is not None and mentions_sym(fi, ka)): raise NotSummable("element index does not advance by one (%s)" % idx)
            cache = {}
            def f(ix, kd, val=val, d=d, cache=cache):
                j = sub(ix[-1], d); kk = (key_of(j), kd)
                r = cache.get(kk)
                if r is None: r = cache[kk] = s.subst(val(kd), ka, j, fams)
                return r
            out[key] = (fi, d, f, stride)
        return out
    def referenced(s, k, w):
        for key, (fi, idx, val, stride) in w.items():
            v = val.raw
            if isinstance(v, Ptr) and any(isinstance(o, Obj) and o.id == k for g, o, f, off in v.alts): return True
        return False
    def subst(s, v, ka, j, fams):
        if isinstance(v, (int, Fraction)) or v is UNDEF: return v
        if isinstance(v, Sym): return subst_sym(v, ka, j, {}, {})
        if isinstance(v, z3.BoolRef): return subst_bool(v, ka, j)
        if isinstance(v, Ptr):
            al = []
            for g, o, fi, off in v.alts:
                g = subst_bool(g, ka, j)
                if g is False: continue
                if isinstance(o, Obj) and o.id in fams: o, fi = fams[o.id], j
                elif fi is not None: fi = subst_sym(fi, ka, j, {}, {})
                al.append((g, o, fi, subst_sym(off, ka, j, {}, {}) if isinstance(off, Sym) else off))
            return Ptr(tuple(al))
        if isinstance(v, FBits): return FBits(s.subst(v.v, ka, j, fams), v.n)
        if isinstance(v, MaybeUninit): return s.subst(v.v, ka, j, fams)
        raise NotSummable("value kind " + type(v).__name__)

    def phis_of(s, fr, frm, to):
        ph = {}
        for i in fr.f['bb'][to]:
            if i['op'] != 'phi': break
            for b, v in i['in']:
                if b == frm: ph[i['id']] = s.val(fr, v); break
        return ph
    def goto(s, fr, frm, to, st): return (to, Edge(st, s.phis_of(fr, frm, to)))

    def val(s, fr, v):
        if v[0] == 'l':
            x = fr.env.get(v[1])
            if x is None: raise ToolLimit("value used before definition in " + fr.name)
            return x
        if v[0] == 'm' or v[0] == 'asm': return None
        return s.const(v)

    def block(s, fr, b, st):
        ins = fr.f['bb'][b]; env = fr.env
        for i in ins:
            s.ninstr += 1
            op = i['op']
            if op == 'phi': continue
            loc = (i.get('fl'), i.get('ln'))
            s.loc = loc
            if op == 'br':
                t = i['t']
                if len(t) == 1: return [s.goto(fr, b, t[0], st)]
                c = s.boolv(s.val(fr, i['c']))
                return s.branch(fr, b, st, [(c, t[0]), (b_not(c), t[1])])
            if op == 'switch':
                x = s.toint(s.val(fr, i['c'])); alts = []; rest = True
                for k, t in i['cs']:
                    c = eq(x, int(k)); alts.append((c, t)); rest = b_and(rest, b_not(c))
                alts.append((rest, i['d']))
                # merge alternatives with the same target
                m = {}
                for c, t in alts: m[t] = b_or(m.get(t, False), c)
                return s.branch(fr, b, st, [(c, t) for t, c in m.items()])
            if op == 'ret':
                a = i.get('a')
                if s.feasible_cheap(st): fr.rets.append(Edge(st, {'r': s.val(fr, a[0])} if a else {}))
                return []
            if op == 'unreachable': return []
            if op == 'call':
                r, st = s.docall(fr, i, st, loc)
                if 'id' in i: env[i['id']] = r
                continue
            r = s.instr(fr, i, op, st, loc)
            if 'id' in i: env[i['id']] = r
        raise ToolLimit("block without terminator")
    def feasible_cheap(s, st): return True
    def branch(s, fr, b, st, alts):
        out = []
        live = [(c, t) for c, t in alts if c is not False]
        if len(live) == 1 and live[0][0] is True:
            return [s.goto(fr, b, live[0][1], st)]
        for c, t in live:
            if c is not True and s.known(st.pc, c): return [s.goto(fr, b, t, st)]
        for k, (c, t) in enumerate(live):
            if c is not True and k < len(live) - 1 and s.known(st.pc, b_not(c)): continue
            n = State(PC(st.pc, c), dict(st.mem)) if c is not True else st
            if not (k == len(live) - 1 and not out) and not s.feasible(n.pc):
                s.learn(st.pc, b_not(c)); continue
            out.append(s.goto(fr, b, t, n))
        # a single feasible side: its condition is implied
        if len(out) == 1 and len(live) == 2: pass
        return out
    def boolv(s, v):
        if isinstance(v, (bool, z3.BoolRef)): return v
        if v is UNDEF: return z3.Bool(T.C.fresh('undef'))
        if isinstance(v, (int, Sym)):
            b = bool_of(v)
            return b if b is not None else b_not(eq(v, 0))
        raise ToolLimit("boolean expected")

    # ------------------------------------------------------------------ instructions
    def isvec(s, ty): return s.m.types[ty][0] in ('vec',)
    def num(s, v):
        if isinstance(v, (bool, z3.BoolRef)): return from_bool(v)
        return v
    def fl(s, v):
        if v is UNDEF: return fresh_real('undef')
        if isinstance(v, FBits): return v.v
        if isnum(v): return Fraction(v)
        return v
    def instr(s, fr, i, op, st, loc):
        V = lambda k: s.val(fr, i['a'][k])
        if op == 'alloca':
            n = s.toint(V(0)) if i.get('a') else 1
            o = s.alloc(st, 'stack', i['sz'] * n if isnum(n) else scale(n, i['sz'])); o.kind = 'stack'; fr.allocas.append(o)
            return mkptr(o)
        if op == 'load': return s.load(st, s.ptr(V(0)), i['ty'], loc)
        if op == 'store': s.store(st, s.ptr(V(1)), V(0), i['vt'], loc); return None
        if op == 'getelementptr':
            p = s.val(fr, i['b'])
            if p is UNDEF: return UNDEF
            p = s.ptr(p)
            d = i['c']
            for x, sc, ty in i['idx']:
                v = s.val(fr, x)
                if isinstance(v, Agg): raise ToolLimit("vector gep")
                d = add(d, scale(s.toint(v), sc))
            return s.padd(p, d)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor'):
            t = s.m.types[i['ty']]; a, b = V(0), V(1)
            if t[0] == 'vec':
                n = s.m.types[t[3]][1]
                return Agg([s.arith(op, x, y, n, i, st, loc) for x, y in zip(s.aggv(a, t), s.aggv(b, t))])
            if a is UNDEF or b is UNDEF:
                return s.arith(op, s.toint(a), s.toint(b), t[1], {}, st, loc) if t[1] > 1 else z3.Bool(T.C.fresh('undef'))
            return s.arith(op, a, b, t[1], i, st, loc)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t = s.m.types[i['ty']]; a, b = V(0), V(1)
            if t[0] == 'vec': return Agg([s.fop(op, x, y, st, loc) for x, y in zip(s.aggv(a, t), s.aggv(b, t))])
            return s.fop(op, a, b, st, loc)
        if op == 'fneg':
            a = V(0)
            if isinstance(a, Agg): return Agg([neg(s.fl(x)) for x in a.v])
            return neg(s.fl(a))
        if op == 'icmp':
            a, b = V(0), V(1); t = s.m.types[i['at']]
            if t[0] == 'vec':
                n = s.m.types[t[3]][1]
                return Agg([s.icmp(i['p'], x, y, n, st) for x, y in zip(a.v, b.v)])
            return s.icmp(i['p'], a, b, 64 if t[0] == 'p' else t[1], st)
        if op == 'fcmp':
            a, b = V(0), V(1)
            if isinstance(a, Agg): return Agg([s.fcmp(i['p'], x, y) for x, y in zip(a.v, b.v)])
            return s.fcmp(i['p'], a, b)
        if op == 'select':
            c, a, b = V(0), V(1), V(2)
            if isinstance(c, Agg): return Agg([v_ite(s.boolv(x), y, w) for x, y, w in zip(c.v, a.v, b.v)])
            c = s.boolv(c)
            if not isinstance(c, bool) and isinstance(a, Ptr) and isinstance(b, Ptr) and not same(a, b):
                if not s.feasible(PC(st.pc, c)): return b
                if not s.feasible(PC(st.pc, b_not(c))): return a
            return s.choose(st, c, a, b)
        if op in ('zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            a = V(0); ts, td = s.m.types[i['at']], s.m.types[i['ty']]
            if ts[0] == 'vec' and td[0] == 'vec' and ts[2] == td[2]:
                es, ed = s.m.types[ts[3]], s.m.types[td[3]]
                return Agg([s.cast(op, x, es, ed, st, loc) for x in s.aggv(a, ts)])
            return s.cast(op, a, ts, td, st, loc)
        if op == 'extractvalue':
            v = V(0)
            for k in i['k']: v = UNDEF if v is UNDEF else v.v[k]
            return v
        if op == 'insertvalue':
            return s.insv(V(0), V(1), i['k'], i['ty'])
        if op == 'extractelement':
            k = V(1)
            if not isnum(k): raise ToolLimit("dynamic extractelement")
            return V(0).v[k]
        if op == 'insertelement':
            k = V(2); a = list(s.aggv(V(0), s.m.types[i['ty']]))
            a[k] = V(1); return Agg(a)
        if op == 'shufflevector':
            a, b = V(0), V(1); t = s.m.types[i['at']]
            al = list(s.aggv(a, t)) + list(s.aggv(b, t))
            return Agg([UNDEF if k < 0 else al[k] for k in i['k']])
        if op == 'atomicrmw':
            p = s.ptr(V(0)); old = s.load(st, p, i['ty'], loc); v = V(1); k = i['rmw']
            n = s.m.types[i['ty']][1]
            if k == 'xchg': nv = v
            elif k in ('add', 'sub', 'and', 'or', 'xor'): nv = s.arith(k, old, v, n, {}, st, loc)
            else: raise ToolLimit("atomicrmw " + k)
            s.store(st, p, nv, i['ty'], loc); return old
        if op == 'cmpxchg':
            p = s.ptr(V(0)); ty = i['at']; t = s.m.types[i['ty']]; vt = t[3][0]
            old = s.load(st, p, vt, loc); c = s.icmp('eq', old, V(1), s.m.types[vt][1], st)
            s.store(st, p, v_ite(c, V(2), old), vt, loc)
            return Agg([old, c])
        if op == 'fence': return None
        if op == 'landingpad': raise PathEnd()
        raise ToolLimit("instruction " + op)
    def aggv(s, a, t):
        if a is UNDEF: return [UNDEF] * t[2]
        return a.v
    def insv(s, a, v, k, ty):
        t = s.m.types[ty]
        if a is UNDEF: a = s.undef(ty)
        l = list(a.v)
        if len(k) == 1: l[k[0]] = v
        else: l[k[0]] = s.insv(l[k[0]], v, k[1:], t[3][k[0]] if t[0] == 's' else t[3])
        return Agg(l)
    def ptr(s, p):
        if isinstance(p, PtrInt): return p.p
        if isnum(p) and p == 0: return NULL
        if p is UNDEF: raise ToolLimit("undefined pointer")
        return p
    def icmp(s, pred, a, b, n, st):
        if n == 1 and not isinstance(a, Ptr):
            a, b = s.boolv(a), s.boolv(b)
            if pred == 'eq': return b_not(b_xor(a, b))
            if pred == 'ne': return b_xor(a, b)
            a, b = from_bool(a), from_bool(b)
            if pred[0] == 's': a, b = neg(a), neg(b)
            return cmp_int(s, 's' + pred[1:], a, b, 8, st)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt): a, b = a.p, b.p
        if isinstance(a, PtrInt) and isnum(b) and b == 0: a, b = a.p, NULL
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a = NULL if isnum(a) and a == 0 else a; b = NULL if isnum(b) and b == 0 else b
            if isinstance(a, PtrInt): a = a.p
            if isinstance(b, PtrInt): b = b.p
            return s.ptrcmp(pred, a, b, st)
        if pred in ('eq', 'ne') and isinstance(a, FBits) and isinstance(b, FBits):
            r = eq(a.v, b.v); return r if pred == 'eq' else b_not(r)
        if pred in ('eq', 'ne') and isinstance(a, Cat) and isinstance(b, Cat) and [p[0] for p in a.ps] == [p[0] for p in b.ps]:
            r = True
            for (n1, x), (n2, y) in zip(a.ps, b.ps): r = b_and(r, s.icmp('eq', x, y, 8 * n1, st))
            return r if pred == 'eq' else b_not(r)
        return cmp_int(s, pred, s.toint(a), s.toint(b), n, st)
    def fcmp(s, p, a, b):
        if p == 'true': return True
        if p == 'false': return False
        if p == 'ord': return True
        if p == 'uno': return False
        a, b = s.fl(a), s.fl(b)
        p = p[1:]
        if p == 'eq': return eq(a, b)
        if p == 'ne': return b_not(eq(a, b))
        if p == 'lt': return lt(a, b)
        if p == 'le': return le(a, b)
        if p == 'gt': return lt(b, a)
        return le(b, a)
    def fop(s, op, a, b, st, loc):
        a, b = toreal(s.fl(a)), toreal(s.fl(b))
        if op == 'fadd': return add(a, b)
        if op == 'fsub': return sub(a, b)
        if op == 'fmul': return mul(a, b)
        if op == 'fdiv':
            if isnum(b):
                if b == 0:
                    s.oblige(st, False, "no floating division by zero", loc); return fresh_real('div0')
                return scale(a, Fraction(1) / b)
            c = b_not(eq(b, Fraction(0)))
            if c is not True and s.nzf and s.nonzero(st, b): c = True; s.nzk.add(b.key())
            if c is not True and not s.valid(st, c):
                d = s.clear_denominators(st, b)
                if d is not b and s.valid(st, b_not(eq(d, Fraction(0)))): c = True
            if c is not True and not s.valid(st, c):
                if s.opts.get('fdivz', 'oblige') == 'oblige':
                    s.oblige(st, c, "no floating division by zero", loc)
                else:
                    s.assumptions.add("division by zero yields an arbitrary real")
            return s.rdiv(a, b)
        raise ToolLimit(op)
    def rdiv(s, a, b):
        # canonical quotient: a * inv(b)
        k = ('inv', b.key())
        q = s.memo.get(k)
        if q is None:
            q = fresh_real("inv")
            at = T.C.atoms[next(iter(q.t))[0]]
            at.facts.append(z3.Implies(z(b) != 0, z(mul(q, b)) == 1))
            # sign helps linear reasoning
            at.facts.append(z3.Implies(z(b) > 0, at.e > 0)); at.facts.append(z3.Implies(z(b) < 0, at.e < 0))
            if b.lo is not None and b.lo > 0: at.lo = Fraction(0) if b.hi is None else 1 / Fraction(b.hi); at.hi = 1 / Fraction(b.lo)
            s.memo[k] = q
            s.invs = getattr(s, 'invs', [])
            if s.opts.get('divcong'):
                for b2, q2 in s.invs[-6:]: at.facts.append(z3.Implies(z(b) == z(b2), at.e == z(q2)))
            s.invs.append((b, q))
        r = mul(a, q)
        # cancel b * inv(b) when b is a single monomial
        if isinstance(r, Sym) and isinstance(b, Sym) and len(b.t) == 1:
            (m, c), = b.t.items(); qa = next(iter(q.t))[0]
            t = {}
            for mm, cc in r.t.items():
                l = list(mm); n = 0
                while qa in l:
                    l2 = list(l); ok = True
                    for x in m:
                        if x in l2: l2.remove(x)
                        else: ok = False; break
                    if not ok: break
                    l2.remove(qa); l = l2; n += 1
                mm2 = tuple(l); t[mm2] = t.get(mm2, 0) + cc / (Fraction(c) ** n)
            r = norm({k2: v for k2, v in t.items() if v != 0}, True)
        return r
    def fptoi(s, a, n, st, loc, signed=True):
        a = toreal(s.fl(a))
        if isnum(a):
            q = abs(a.numerator) // a.denominator; q = q if a >= 0 else -q
            if not -(1 << (n - 1)) <= q < (1 << n): s.oblige(st, False, "float to integer conversion in range", loc)
            return s.wrap(q, n, None)
        fl_ = floor_real(a)
        if (a.lo is not None and a.lo >= 0): r = fl_
        else:
            isint = len(a.t) == len(terms(fl_)) and eq(a, toreal(fl_)) is True
            if isint: r = fl_
            elif s.valid(st, le(Fraction(0), a)): r = fl_
            else: r = ite(le(Fraction(0), a), fl_, neg(floor_real(neg(a))))
        if isnum(r): return r
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if not (r.lo is not None and r.lo >= lo and r.hi is not None and r.hi <= hi):
            s.oblige(st, b_and(le(lo, r), le(r, hi)), "float to integer conversion in range", loc)
            r = s.clip(r, lo, hi)
        return r if signed else s.wrap(r, n, st)
    def cast(s, op, a, ts, td, st, loc):
        if op in ('freeze', 'addrspacecast'): return a
        if op == 'bitcast':
            if ts == td: return a
            if td[0] == 'f' and ts[0] == 'i': return conv(a, ('f', td[1]))
            if td[0] == 'i' and ts[0] == 'f': return FBits(a, td[1])
            if a is UNDEF: return UNDEF
            if ts[0] == 'vec' and td[0] in ('i', 'f'):
                es = s.m.types[ts[3]]; return s.uncat(Cat([(es[1] // 8, x) for x in a.v]), (td[0], td[1]))
            if td[0] == 'vec' and ts[0] in ('i', 'f'):
                es = s.m.types[td[3]]; w = es[1] // 8
                return Agg([conv(s.extract(a, ts[1] // 8, k * w, w), (es[0], es[1])) for k in range(td[2])])
            raise ToolLimit("bitcast")
        if op == 'ptrtoint': return PtrInt(s.ptr(a)) if a is not UNDEF else UNDEF
        if op == 'inttoptr':
            if isinstance(a, PtrInt): return a.p
            if isnum(a) and a == 0: return NULL
            raise ToolLimit("inttoptr")
        if op in ('fpext', 'fptrunc'): return s.fl(a)
        if op in ('sitofp', 'uitofp'):
            a = s.num(a); 
            if ts[1] == 1: 
                return toreal(a if op == 'uitofp' else neg(a))
            a = s.toint(a)
            if op == 'uitofp': a = s.uns(a, ts[1], st)
            return toreal(a)
        if op in ('fptosi', 'fptoui'):
            if td[1] == 1: return b_not(eq(toreal(s.fl(a)), Fraction(0)))
            return s.fptoi(a, td[1], st, loc, op == 'fptosi')
        if a is UNDEF: return UNDEF
        if op == 'zext':
            if ts[1] == 1: return from_bool(s.boolv(a))
            if isinstance(a, PtrInt): raise ToolLimit("zext of pointer")
            if isinstance(a, (Cat, FBits)):
                ps = a.ps if isinstance(a, Cat) else [(a.n // 8, a)]
                return Cat(list(ps) + [(1, 0)] * ((td[1] - ts[1]) // 8))
            return s.uns(a, ts[1], st)
        if op == 'sext':
            if ts[1] == 1: return neg(from_bool(s.boolv(a)))
            return s.toint(a)
        if op == 'trunc':
            if isinstance(a, Cat) and td[1] % 8 == 0:
                try:
                    x = s.extract(a, ts[1] // 8, 0, td[1] // 8)
                    return x
                except ToolLimit: pass
            a = s.num(a)
            if isinstance(a, FBits): raise ToolLimit("trunc of float bits")
            a = s.toint(a)
            if td[1] == 1:
                b = bool_of(a)
                if b is not None: return b
                if isnum(a): return bool(a & 1)
                r = divmod_floor(a, 2)[1]
                return eq(r, 1)
            return s.wrap(a, td[1], st)
        raise ToolLimit("cast " + op)

    # ------------------------------------------------------------------ calls
    def docall(s, fr, i, st, loc):
        fn = i['fn']
        if fn[0] == 'g': return s.callname(fn[1], [s.val(fr, a) for a in i['a']], i, st, loc)
        if fn[0] == 'asm': return UNDEF, st
        p = s.ptr(s.val(fr, fn)) if fn[0] == 'l' else s.const(fn)
        args = [s.val(fr, a) for a in i['a']]
        al = p.alts
        if len(al) == 1:
            o = al[0][1]
            if not isinstance(o, Fn):
                s.oblige(st, False, "indirect call through a valid function pointer", loc); raise PathEnd()
            return s.callname(o.name, args, i, st, loc)
        edges = []
        for g, o, fi, off in al:
            n = State(PC(st.pc, g), dict(st.mem)) if g is not True else st.copy()
            if not s.feasible(n.pc): continue
            if not isinstance(o, Fn):
                s.oblige(n, False, "indirect call through a valid function pointer", loc); continue
            try:
                r, n = s.callname(o.name, args, i, n, loc)
                edges.append(Edge(n, {'r': r}))
            except PathEnd: continue
        if not edges: raise PathEnd()
        st, phi = s.merge_edges([e for e in edges])
        return phi['r'], st
    def callname(s, name, args, i, st, loc):
        if s.deadline and time.time() > s.deadline: raise ToolLimit("time budget")
        if s.ninstr > s.maxinstr: raise ToolLimit("instruction budget")
        h = s.builtin(name)
        if h is not None:
            r = h(s, st, args, i, loc)
            if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], State): return r
            return r, st
        f = s.m.func(name)
        if f is None or 'decl' in f:
            dem = f['dem'] if f else name
            raise ToolLimit("external function without a contract: " + dem)
        return s.call(f, args, st, loc)
    def builtin(s, name):
        h = s.bcache.get(name, 0)
        if h != 0: return h
        h = BY_NAME.get(name)
        if h is None:
            f = s.m.func(name); dem = f['dem'] if f else name
            for rx, g, always in BY_RX:
                if (always or (f and 'decl' in f)) and rx.match(dem): h = g; break
        s.bcache[name] = h
        return h
    def clear_denominators(s, st, d):
        """0 if the polynomial d in reciprocal atoms inv(b) vanishes after multiplying with the (nonzero) denominators"""
        old = T.MAXTERMS; T.MAXTERMS = 400000
        try: return s.clear_denominators1(st, d)
        finally: T.MAXTERMS = old
    def clear_denominators1(s, st, d):
        for b, q in reversed(getattr(s, 'invs', [])):
            if isnum(d) or not isinstance(b, Sym): return d
            qa = next(iter(q.t))[0]
            k = max((m.count(qa) for m in d.t), default=0)
            if not k: continue
            if not (s.nzf and b.key() in s.nzk) and not s.valid(st, b_not(eq(b, Fraction(0)))): return d
            pw = [Fraction(1)]
            for _ in range(k): pw.append(mul(pw[-1], b))
            parts = [dict() for _ in range(k + 1)]
            for m, c in d.t.items():
                n = m.count(qa); r = tuple(x for x in m if x != qa); parts[n][r] = parts[n].get(r, 0) + c
            d = Fraction(0)
            for n, pt in enumerate(parts):
                if pt: d = add(d, mul(norm(pt, True), pw[k - n]))
            if not isnum(d) and len(d.t) > 60000: return d
        return d
    nzf = (); nzk = set()
    def nonzero(s, st, d):
        """d != 0 because, denominators cleared, it is a product of factors known to be nonzero"""
        if isnum(d): return d != 0
        d = s.clear_denominators(st, d)
        for f in reversed(s.nzf):
            if isnum(d): break
            q = poly_div(d, f)
            if q is None or not s.valid(st, b_not(eq(f, Fraction(0)))): continue
            while q is not None:
                d = q
                if isnum(d): break
                q = poly_div(d, f)
        if isnum(d): return d != 0
        return False
    def oblige(s, st, c, label, loc, kind='safety'):
        if s.nzf and not isinstance(c, bool) and z3.is_not(c):
            inf = T.C.cmpinfo.get(c.arg(0).get_id())
            if inf is not None and inf[0] == 'eq' and inf[1].real and s.nonzero(st, inf[1]):
                o = Obligation(st.pc, c, label, loc, kind, s.taint); o.status = 'proved'; o.backend = 'polynomial algebra'; s.obls.append(o)
                st.assume(c); return
        return super().oblige(st, c, label, loc, kind)
    def collapse(s, st, d):
        for rnd in range(3):
            if isnum(d): return d
            ch = False
            for i in sorted({i for m in d.t for i in m if T.C.atoms[i].real and i in T.C.iteinfo}):
                c, a, b = T.C.iteinfo[i]
                for v, e in ((a, c), (b, b_not(c))):
                    if s.valid(st, e, 2000):
                        d = T.subst_sym(d, T.C.atoms[i], v); ch = True; break
                if isnum(d): return d
            if not ch: break
        if isnum(d) or not getattr(s, 'invs', None): return s.collapse1(st, d)
        d1 = s.clear_denominators(st, d)
        if isnum(d1) and d1 == 0: return d1
        return s.collapse1(st, d)
    def collapse1(s, st, d):
        """the polynomial d with atoms that are provably equal under the path condition identified"""
        if isnum(d): return d
        if not any(len(m) > 1 or T.C.atoms[m[0]].e.num_args() and T.C.atoms[m[0]].e.decl().name().startswith('uf_') for m in d.t if m): return d
        def tops(x, out):
            stack = [x]; seen = set()
            while stack:
                e = stack.pop(); k = e.get_id()
                if k in seen: continue
                seen.add(k)
                mo = T.C.monoast.get(k)
                if mo is not None: stack.extend(T.C.atoms[i].e for i in mo[0]); continue
                i = T.C.by_ast.get(k)
                if i is not None:
                    uf = e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED
                    if uf and T.C.atoms[i].real and not e.decl().name().startswith('uf_'): reads.add(i)
                    if e.num_args() and not T.C.atoms[i].real and not uf: out.add(i)
                    if not uf: continue
                stack.extend(e.children())
        models = []
        def value(m, e):
            """e under the model, with every array read taken as a generic function of its index"""
            done = {}; pr = []
            def rd(x):
                k = x.get_id()
                if k in done: return
                done[k] = x
                for c in x.children(): rd(c)
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    h = str([x.decl().name()] + [m.eval(z3.substitute(c, pr) if pr else c, model_completion=True) for c in x.children()])
                    h = int(hashlib.md5(h.encode()).hexdigest()[:7], 16)
                    k = x.sort().kind()
                    pr.append((x, z3.BoolVal(h & 1 == 1) if k == z3.Z3_BOOL_SORT else z3.RealVal(h) if k == z3.Z3_REAL_SORT else z3.IntVal(h)))
            rd(e)
            return str(m.eval(z3.substitute(e, pr) if pr else e, model_completion=True))
        vals = {}
        def differ(i, j):
            """some recorded model of the linear path facts tells the two atoms apart"""
            for n, m in enumerate(models):
                for q in (i, j):
                    if (n, q) not in vals: vals[n, q] = value(m, expand([T.C.atoms[q].e])[0])
                if vals[n, i] != vals[n, j]: return True
            return False
        def newmodel(c):
            try: r, m = s.check(st.pc.lst() + c, 1000, model=True, lin=True)
            except z3.Z3Exception: return
            if m is not None: models.append(m)
        newmodel([])
        def unify(ids, d, most):
            ids = sorted(ids); reps = []; n = 0
            for j in ids:
                aj = T.C.atoms[j]; hit = None
                for i in reps:
                    ai = T.C.atoms[i]
                    if ai.real != aj.real or ai.e.decl().name() != aj.e.decl().name(): continue
                    if n >= most: break
                    if differ(i, j): continue
                    n += 1
                    q = eq(Sym({(i,): 1}, ai.real), Sym({(j,): 1}, aj.real))
                    if s.valid(st, q, 400): hit = i; break
                    newmodel([b_not(q)])
                if hit is None: reps.append(j)
                else:
                    d = T.subst_sym(d, aj, Sym({(hit,): 1}, T.C.atoms[hit].real))
                    if isnum(d): return d
            return d
        for rnd in range(2):
            inner = set(); reads = set()
            for m in d.t:
                for i in m:
                    a = T.C.atoms[i]
                    if a.real and a.e.num_args():
                        for c in a.e.children(): tops(c, inner)
            if rnd == 0 and len(inner) > 1: d = unify(inner, d, 200)
            if isnum(d): return d
        if reads: d = unify(reads, d, 400)
        if isnum(d): return d
        reals = {i for m in d.t for i in m if T.C.atoms[i].e.num_args()}
        return unify(reals, d, 200)
    def run_harness(s, name):
        s.bcache = {}; s.memo = {}; s.failstack = None; s.witnesses = []
        T.MAXTERMS = s.opts.get('maxterms', 1500)
        f = s.m.func(name)
        st = State(ROOT, {})
        try: s.call(f, [], st, None)
        except PathEnd: pass

def poly_div(d, f):
    """the polynomial q with d == q*f, or None"""
    if isnum(f): return None
    ids = sorted({i for m in d.t for i in m} | {i for m in f.t for i in m})
    if {i for m in f.t for i in m} - {i for m in d.t for i in m}: return None
    pos = {i: k for k, i in enumerate(ids)}
    def vec(m):
        v = [0] * len(ids)
        for i in m: v[pos[i]] += 1
        return tuple(v)
    p = {vec(m): c for m, c in d.t.items()}; g = {vec(m): c for m, c in f.t.items()}
    lg = max(g); q = {}
    import heapq
    heap = [tuple(-x for x in v) for v in p]; heapq.heapify(heap)
    while p:
        lp = tuple(-x for x in heapq.heappop(heap))
        if lp not in p: continue
        t = tuple(a - b for a, b in zip(lp, lg))
        if min(t) < 0: return None
        c = p[lp] / Fraction(g[lg]); q[t] = c
        if len(q) > 20000: return None
        for v, k in g.items():
            w = tuple(a + b for a, b in zip(v, t)); n = p.get(w, 0) - c * k
            if n == 0: p.pop(w, None)
            else:
                if w not in p: heapq.heappush(heap, tuple(-x for x in w))
                p[w] = n
    out = {}
    for t, c in q.items():
        m = []
        for k, n in enumerate(t): m += [ids[k]] * n
        out[tuple(sorted(m))] = c
    return norm(out, d.real)
BY_NAME = {}; BY_RX = []
def bn(*names):
    def d(f):
        for n in names: BY_NAME[n] = f
        return f
    return d
def brx(rx, always=False):
    def d(f):
        BY_RX.append((re.compile(rx), f, always)); return f
    return d
def cstr(s, st, p):
    p = s.ptr(p)
    if len(p.alts) != 1 or p.alts[0][1] is None: raise ToolLimit("string pointer")
    _, o, fi, off = p.alts[0]
    c = s.content(st, o); out = []
    if not isinstance(c, Flat): raise ToolLimit("string content")
    off = int(off)
    while True:
        x = s.flat_read(st, c, o, off, 1, ('i', 8))
        if not isnum(x): raise ToolLimit("symbolic string")
        if x == 0: break
        out.append(x & 255); off += 1
    return bytes(out).decode('latin1')

# ---- contract vocabulary
def T_int(n, lo, hi): return atom_sym(z3.Int(n), False, lo, hi)
@bn('vc_int')
def _(s, st, a, i, loc):
    n = T.C.fresh(cstr(s, st, a[0])); v = T_int(n, s.toint(a[1]), s.toint(a[2])) if isnum(a[1]) and isnum(a[2]) else None
    if v is None:
        v = T_int(n, lo_of(a[1]), hi_of(a[2])); st.assume(b_and(le(a[1], v), le(v, a[2])))
    s.names[n] = v; s.order.append(('int', n)); return v
@bn('vc_intn')
def _(s, st, a, i, loc):
    n = T.C.fresh(cstr(s, st, a[0])); v = T_int(n, s.toint(a[1]), s.toint(a[2]))
    s.names[n] = v; s.nd[n] = (s.toint(a[3]), s.toint(a[4])); s.order.append(('int', n)); return v
@bn('vc_real')
def _(s, st, a, i, loc):
    n = T.C.fresh(cstr(s, st, a[0])); v = atom_sym(z3.Real(n), True, a[1], a[2]); s.names[n] = v; s.order.append(('real', n)); return v
@bn('vc_bool')
def _(s, st, a, i, loc):
    n = T.C.fresh(cstr(s, st, a[0])); v = z3.Bool(n); s.names[n] = v; s.order.append(('bool', n)); return v
@bn('vc_case', 'vc_casen')
def _(s, st, a, i, loc):
    n = cstr(s, st, a[0]); s.casedom[n] = (a[1], a[2]); 
    if n not in s.cases: s.cases[n] = a[1]
    s.order.append(('case', n))
    return s.cases[n]
@bn('vc_assume')
def _(s, st, a, i, loc):
    c = s.boolv(a[0]); st.assume(c)
    if c is False or not s.feasible(st.pc): raise PathEnd()
@bn('vc_assert')
def _(s, st, a, i, loc): s.oblige(st, s.boolv(a[0]), cstr(s, st, a[1]), loc, 'assert')
@bn('vc_hint')
def _(s, st, a, i, loc):
    c = s.boolv(a[0]); o = Obligation(st.pc, c, 'hint', loc, 'hint', s.taint)
    if c is not True: s.obls.append(o); st.assume(c)
    return True
@bn('vc_assert_close')
def _(s, st, a, i, loc):
    x, y, t = toreal(s.fl(a[0])), toreal(s.fl(a[1])), s.fl(a[2])
    d = s.collapse(st, sub(x, y)); lab = cstr(s, st, a[3])
    if isnum(d):
        c = le(abs(d), t)
        if d == 0 and x is not y: st.assume(eq(x, y))
    else:
        c = b_and(le(d, t), le(neg(t), d))
        o = Obligation(st.pc, c, lab, loc, 'assert', s.taint)
        if c is not True: o.model = ('eqfirst', eq(d, Fraction(0)))
        s.obls.append(o); st.assume(c); return
    s.oblige(st, c, lab, loc, 'assert')
@bn('vc_assert_ge')
def _(s, st, a, i, loc):
    x, y, t = toreal(s.fl(a[0])), toreal(s.fl(a[1])), toreal(s.fl(a[2]))
    c = le(sub(y, t), x); lab = cstr(s, st, a[3])
    o = Obligation(st.pc, c, lab, loc, 'assert', s.taint)
    if c is not True and c is not False: o.model = ('eqfirst', le(y, x))
    s.obls.append(o)
    if c is not False: st.assume(c)
@bn('vc_cover')
def _(s, st, a, i, loc): s.covers.setdefault(cstr(s, st, a[0]), []).append(st.pc)
def _name(s, x, real):
    if isnum(x): return x
    x2 = opaque(x)
    if x2 is x: return x
    k = ('name', x.key()); v = s.memo.get(k)
    if v is None:
        v = (fresh_real if real else fresh_int)("nm", x.lo, x.hi)
        at = T.C.atoms[next(iter(v.t))[0]]; at.facts.append(at.e == z(x)); s.memo[k] = v
    return v
@bn('vc_fn3')
def _(s, st, a, i, loc):
    nm = cstr(s, st, a[0]); f = UFS.setdefault(('fn3', nm), z3.Function('fn_' + nm, *([z3.IntSort()] * 3 + [z3.RealSort()])))
    return atom_sym(f(*[z(s.toint(x)) for x in a[1:4]]), True, Fraction(-10**6), Fraction(10**6))
@bn('vc_name')
def _(s, st, a, i, loc): return _name(s, s.toint(a[0]), False)
@bn('vc_namer')
def _(s, st, a, i, loc): return _name(s, toreal(s.fl(a[0])), True)
@bn('vc_witness')
def _(s, st, a, i, loc): s.witnesses.append(s.toint(a[0]))
@bn('vc_symbolic')
def _(s, st, a, i, loc): return True
@bn('vc_nonzero')
def _(s, st, a, i, loc):
    x = toreal(s.fl(a[0])); c = b_not(eq(x, Fraction(0)))
    if isnum(x): return
    s.oblige(st, c, 'factor is nonzero', loc, 'hint')
    st.assume(c); s.nzf = list(s.nzf) + [x]
@bn('vc_lemma')
def _(s, st, a, i, loc): st.assume(s.boolv(a[0])); s.assumptions.add("lemma instance at %s" % (loc,))
@bn('vc_allow_throw')
def _(s, st, a, i, loc): s.allow_throw = s.boolv(a[0])
@bn('vc_havoc', 'vc_havoc_in', 'vc_havoc_sorted')
def havoc(s, st, a, i, loc):
    p = s.ptr(a[0]); n, stride, kd = s.toint(a[1]), s.toint(a[2]), s.toint(a[3])
    lo = hi = None
    if len(a) > 5: lo, hi, nm = a[4], a[5], cstr(s, st, a[6])
    else: nm = cstr(s, st, a[4])
    nm = T.C.fresh(nm)
    if s.calleename(i) == 'vc_havoc_sorted': MM.SORTED.setdefault(nm, [])
    kind = {102: ('f', 32), 100: ('f', 64), 105: ('i', 32), 98: ('i', 8), 108: ('i', 64), 99: ('i', 8), 104: ('i', 16)}[kd]
    w = kind[1] // 8
    rng = (0, 1) if kd == 98 else ((lo, hi) if kind[0] == 'f' else (int(lo), int(hi))) if lo is not None else None
    if isnum(n) and n == 0: return
    s.havocs.append((nm, kind, n))
    al = s.access(st, p, add(scale(sub(n, 1), stride), w), loc, "write")
    for g, o, fi, off in al: havoc1(s, st, True if len(al) == 1 else g, o, fi, off, n, stride, w, nm, kind, rng)
def havoc1(s, st, g, o, fi, off, n, stride, w, nm, kind, rng):
    c = s.content(st, o)
    base = off
    if isinstance(c, Flat):
        c = s.wr(st, o)
        for k in range(int(n)):
            v = uf_app(nm, (k,), kind, rng)
            s.flat_write(st, c, o, int(off) + k * int(stride), w, v, g)
        return
    c = s.wr(st, o)
    if c.stride is None: c.stride = int(stride)
    if c.stride != stride: raise ToolLimit("havoc stride %s vs %s" % (c.stride, stride))
    ei, inner = s.arr_index(c, o, off, st)
    f = c.field(inner, o)
    nf = ARange(f, fi, ei, add(ei, n), lambda ix, k2, nm=nm, ei=ei: uf_app(nm, (sub(ix[-1], ei),), kind, rng))
    c.fields[inner] = nf if g is True else AIte(g, nf, f)
@bn('vc_havoc_ptrs')
def _(s, st, a, i, loc):
    """firstptr, n, stride, firstflag, nelem, elemsize, kind, name"""
    p = s.ptr(a[0]); n, stride, fp, ne, es, kd, nm = s.toint(a[1]), s.toint(a[2]), s.ptr(a[3]), s.toint(a[4]), s.toint(a[5]), s.toint(a[6]), cstr(s, st, a[7])
    nm = T.C.fresh(nm)
    kind = {102: ('f', 32), 100: ('f', 64), 105: ('i', 32), 98: ('i', 8)}[kd]
    fam = Obj(nm + "_data", scale(ne, es), 'heap', True); fam.elem = es; s.objs[fam.id] = fam
    st.mem[fam.id] = ArrC(es, {0: AUninit(nm, lambda ix, k2: uf_app(nm, ix, kind))} if kind[1] // 8 == es else {}, 'u', nm + "_data")
    if kind[1] // 8 != es:
        w = kind[1] // 8
        for k in range(es // w):
            st.mem[fam.id].fields[k * w] = AUninit(nm, lambda ix, k2, k=k: uf_app("%s.%d" % (nm, k), ix, kind))
    s.havocs.append((nm, kind, (n, ne)))
    (g, o, fi, off), = s.access(st, p, add(scale(sub(n, 1), stride), 8), loc, "write")
    (g2, o2, fi2, off2), = s.access(st, fp, 1, loc, "write")
    fl = nm + "_flag"; s.havocs.append((fl, ('i', 8), n))
    def flag(e): return uf_app(fl, (e,), ('i', 8), (0, 1))
    def mk(e):
        b = b_not(eq(flag(e), 0))
        if b is True: return Ptr(((True, fam, e, 0),))
        if b is False: return NULL
        return Ptr(((b, fam, e, 0), (b_not(b), None, None, 0)))
    c = s.content(st, o)
    if isinstance(c, Flat):
        c = s.wr(st, o)
        for k in range(int(n)):
            s.flat_write(st, c, o, int(off) + k * stride, 8, mk(k)); s.flat_write(st, c, o, int(off2) + k * stride, 1, flag(k))
        return
    c = s.wr(st, o)
    if c.stride is None: c.stride = stride
    ei, inner = s.arr_index(c, o, off, st); ei2, inner2 = s.arr_index(c, o2, off2, st)
    c.fields[inner] = ARange(c.field(inner, o), None, ei, add(ei, n), lambda ix, k2, ei=ei: mk(sub(ix[-1], ei)))
    c.fields[inner2] = ARange(c.field(inner2, o2), None, ei2, add(ei2, n), lambda ix, k2, ei2=ei2: flag(sub(ix[-1], ei2)))

# ---- run-time support
def _nop(s, st, a, i, loc): return None
def nopf(s, st, a, i, loc):
    t = s.m.types[i['rt']]
    if t[0] == 'i': return 0 if t[1] > 1 else False
    if t[0] == 'p': return a[0] if a and isinstance(a[0], Ptr) else NULL
    if t[0] == 'f': return Fraction(0)
    return None
for n in ['_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '__cxa_atexit', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy',
          'pthread_mutexattr_init', 'pthread_mutexattr_settype', 'pthread_mutexattr_destroy', '__cxa_end_catch', '__cxa_free_exception', '__cxa_guard_release', 'pthread_mutex_trylock',
          'pthread_cond_init', 'pthread_cond_destroy', 'pthread_cond_signal', 'pthread_cond_broadcast']:
    BY_NAME[n] = nopf
@bn('__cxa_guard_acquire')
def _(s, st, a, i, loc):
    v = s.load1_byte(st, a[0])
    s.storev(st, s.ptr(a[0]), 1, 1, loc)
    return 0 if v == 1 else 1
def load1_byte(s, st, p):
    p = s.ptr(p); _, o, fi, off = p.alts[0]
    return s.load1(st, o, fi, off, 1, ('i', 8))
Exec.load1_byte = load1_byte
@brx(r'llvm\.(dbg|lifetime|assume|experimental\.noalias|stackrestore|invariant|prefetch|va_)')
def _(s, st, a, i, loc): return None
@brx(r'llvm\.stacksave')
def _(s, st, a, i, loc): return NULL
@brx(r'llvm\.(memcpy|memmove)')
def _(s, st, a, i, loc): s.memcpy(st, s.ptr(a[0]), s.ptr(a[1]), s.toint(a[2]), loc)
@brx(r'llvm\.memset')
def _(s, st, a, i, loc): s.memset(st, s.ptr(a[0]), s.toint(a[1]), s.toint(a[2]), loc)
@bn('memcpy', 'memmove')
def _(s, st, a, i, loc): s.memcpy(st, s.ptr(a[0]), s.ptr(a[1]), s.toint(a[2]), loc); return a[0]
@bn('memset')
def _(s, st, a, i, loc): s.memset(st, s.ptr(a[0]), s.toint(a[1]), s.toint(a[2]), loc); return a[0]
@brx(r'llvm\.(smin|smax|umin|umax)')
def _(s, st, a, i, loc):
    f = s.calleename(i); x, y = s.toint(a[0]), s.toint(a[1]); n = s.m.types[i['rt']][1]
    c = s.icmp(('slt' if 'smin' in f else 'sgt' if 'smax' in f else 'ult' if 'umin' in f else 'ugt'), x, y, n, st)
    return v_ite(c, x, y)
Exec.calleename = lambda s, i: i['fn'][1]
@brx(r'llvm\.abs')
def _(s, st, a, i, loc): x = s.toint(a[0]); return v_ite(lt(x, 0), neg(x), x)
@bn('abs', 'labs', 'llabs')
def _(s, st, a, i, loc): x = s.toint(a[0]); return v_ite(lt(x, 0), neg(x), x)
@brx(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow')
def _(s, st, a, i, loc):
    f = s.calleename(i); n = int(f.rsplit('i', 1)[1]); x, y = s.toint(a[0]), s.toint(a[1])
    un = '.u' in f
    if un: x, y = s.uns(x, n, st), s.uns(y, n, st)
    r = add(x, y) if 'add' in f else sub(x, y) if 'sub' in f else mul(x, y)
    lo, hi = (0, (1 << n) - 1) if un else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    return Agg([s.wrap(r, n, st), b_not(b_and(le(lo, r), le(r, hi)))])
def fun1(g):
    return lambda s, st, a, i, loc: g(s, st, toreal(s.fl(a[0])), loc)
def f_floor(s, st, x, loc): return toreal(floor_real(x))
def f_ceil(s, st, x, loc): return toreal(neg(floor_real(neg(x))))
def f_abs(s, st, x, loc):
    if isnum(x): return abs(x)
    return ite(lt(x, Fraction(0)), neg(x), x)
def f_sqrt(s, st, x, loc):
    if isnum(x):
        import math
        if x < 0: s.oblige(st, False, "square root of a non-negative number", loc); return Fraction(0)
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
        return Fraction(math.sqrt(x))
    k = ('sqrt', x.key()); v = s.memo.get(k)
    if v is None:
        v = fresh_real("sqrt", Fraction(0)); at = T.C.atoms[next(iter(v.t))[0]]
        at.facts.append(z3.Implies(z(x) >= 0, z(mul(v, v)) == z(x))); s.memo[k] = v
    s.oblige(st, le(Fraction(0), x), "square root of a non-negative number", loc)
    return v
def f_round(s, st, x, loc): return toreal(ite(le(Fraction(0), x), floor_real(add(x, Fraction(1, 2))), neg(floor_real(add(neg(x), Fraction(1, 2))))))
def f_trunc(s, st, x, loc): return toreal(ite(le(Fraction(0), x), floor_real(x), neg(floor_real(neg(x)))))
for nm, g in (('floor', f_floor), ('ceil', f_ceil), ('fabs', f_abs), ('sqrt', f_sqrt), ('round', f_round), ('trunc', f_trunc)):
    BY_NAME[nm] = BY_NAME[nm + 'f'] = fun1(g)
    BY_RX.append((re.compile(r'llvm\.%s\.' % nm), fun1(g), False))
@brx(r'llvm\.fmuladd|llvm\.fma')
def _(s, st, a, i, loc): return add(mul(toreal(s.fl(a[0])), toreal(s.fl(a[1]))), toreal(s.fl(a[2])))
@brx(r'llvm\.(minnum|maxnum)')
def _(s, st, a, i, loc):
    x, y = toreal(s.fl(a[0])), toreal(s.fl(a[1]))
    return ite(lt(x, y), x, y) if 'minnum' in s.calleename(i) else ite(lt(x, y), y, x)
@bn('fmin', 'fminf')
def _(s, st, a, i, loc): x, y = toreal(s.fl(a[0])), toreal(s.fl(a[1])); return ite(lt(x, y), x, y)
@bn('fmax', 'fmaxf')
def _(s, st, a, i, loc): x, y = toreal(s.fl(a[0])), toreal(s.fl(a[1])); return ite(lt(x, y), y, x)
@brx(r'llvm\.copysign|copysign')
def _(s, st, a, i, loc):
    x, y = toreal(s.fl(a[0])), toreal(s.fl(a[1])); x = f_abs(s, st, x, loc)
    return ite(lt(y, Fraction(0)), neg(x), x)
def ufun(nm, facts=None):
    def g(s, st, a, i, loc):
        xs = [toreal(s.fl(x)) for x in a]
        if all(isnum(x) for x in xs):
            import math
            try: return Fraction(getattr(math, nm)(*[float(x) for x in xs]))
            except Exception: pass
        s.assumptions.add("%s is an unspecified total function of reals" % nm)
        f = UFS.setdefault(('real', nm, len(xs)), z3.Function('uf_' + nm, *([z3.RealSort()] * (len(xs) + 1))))
        v = atom_sym(f(*[z(toreal(x)) for x in xs]), True)
        return v
    return g
for nm in ('exp', 'log', 'pow', 'sin', 'cos', 'tan', 'log2', 'log10', 'exp2', 'atan', 'atan2', 'acos', 'asin', 'fmod'):
    BY_NAME[nm] = BY_NAME[nm + 'f'] = ufun(nm)
@brx(r'llvm\.(exp|log|pow|sin|cos)\.')
def _(s, st, a, i, loc): return ufun(s.calleename(i).split('.')[1])(s, st, a, i, loc)
@brx(r'llvm\.is\.fpclass')
def _(s, st, a, i, loc): return False
@bn('__assert_fail')
def _(s, st, a, i, loc):
    s.oblige(st, False, "assert(%s)" % cstr(s, st, a[0])[:60], loc); raise PathEnd()
@bn('abort', 'exit', '_ZSt9terminatev', '__clang_call_terminate', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt20__throw_length_errorPKc',
    '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_out_of_rangePKc', '_ZSt16__throw_bad_castv', '_ZSt19__throw_logic_errorPKc', '_ZSt25__throw_bad_function_callv')
def throwfn(s, st, a, i, loc):
    n = i['fn'][1] if i['fn'][0] == 'g' else 'abort'
    s.do_throw(st, n, loc); raise PathEnd()
def do_throw(s, st, what, loc):
    if s.allow_throw is True: s.throws.append((st.pc, what)); return
    if what in ('_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt20__throw_length_errorPKc'):
        s.assumptions.add("memory allocation succeeds (requests stay below the library's length limits)"); return
    s.oblige(st, False, "no unexpected exception (%s)" % what, loc)
Exec.do_throw = do_throw
@bn('__cxa_allocate_exception')
def _(s, st, a, i, loc): return mkptr(s.alloc(st, 'exc', s.toint(a[0])))
@bn('__cxa_throw')
def _(s, st, a, i, loc):
    t = a[1].alts[0][1] if isinstance(a[1], Ptr) else None
    s.do_throw(st, "throw " + (t.name if t is not None else '?'), loc); raise PathEnd()
@bn('__cxa_begin_catch', '__cxa_rethrow')
def _(s, st, a, i, loc): raise PathEnd()
@bn('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZnwmSt11align_val_t')
def _(s, st, a, i, loc):
    n = s.toint(a[0])
    return mkptr(s.alloc(st, 'heap', n, 'u', s.calleename(i).startswith('_Zna') if i['fn'][0] == 'g' else False))
@bn('calloc')
def _(s, st, a, i, loc): return mkptr(s.alloc(st, 'heap', mul(s.toint(a[0]), s.toint(a[1])), 'z'))
@bn('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(s, st, a, i, loc):
    if a[0] is UNDEF: raise ToolLimit("free of an undefined pointer")
    p = s.ptr(a[0])
    for g, o, fi, off in p.alts:
        if o is None: continue
        if isinstance(o, Fn): s.oblige(st, b_not(g), "free of a valid pointer", loc); continue
        if o.fam: s.assumptions.add("deallocation of havoced per-element arrays is not tracked"); continue
        c = eq(off, 0)
        if c is not True: s.oblige(st, b_or(b_not(g), c), "free of the start of an allocation", loc)
        k = ('freed', o.id); old = st.mem.get(k, False)
        if old is not False: s.oblige(st, b_not(b_and(g, old)), "no double free", loc)
        st.mem[k] = b_or(old, g)
# ---- std::string members that live in the library, for strings with known text
def str_get(s, st, p):
    p = s.ptr(p)
    q = s.load(st, p, s.ptrty(), None); n = s.toint(s.load1(st, p.alts[0][1], p.alts[0][2], add(p.alts[0][3], 8), 8, ('i', 64)))
    if not isnum(n): raise ToolLimit("string of unknown length")
    return bytes_get(s, st, q, n)
def bytes_get(s, st, q, n):
    q = s.ptr(q); n = s.toint(n)
    if not isnum(n): raise ToolLimit("string of unknown length")
    if n == 0: return b''
    if len(q.alts) != 1 or q.alts[0][1] is None: raise ToolLimit("ambiguous string")
    _, o, fi, off = q.alts[0]; out = []
    for k in range(int(n)):
        x = s.load1(st, o, fi, add(off, k), 1, ('i', 8))
        if not isnum(x): raise ToolLimit("string of unknown text")
        out.append(int(x) & 255)
    return bytes(out)
def str_set(s, st, p, b):
    p = s.ptr(p); g, o, fi, off = p.alts[0]
    if len(b) <= 15: d = s.padd(p, 16)
    else:
        d = mkptr(s.alloc(st, 'heap', len(b) + 1, 'u')); s.store1(st, True, o, fi, add(off, 16), len(b), 8)
    s.store1(st, True, o, fi, off, d, 8); s.store1(st, True, o, fi, add(off, 8), len(b), 8)
    _, o2, f2, off2 = d.alts[0]
    for k, x in enumerate(b + b'\0'): s.store1(st, True, o2, f2, add(off2, k), x if x < 128 else x - 256, 1)
S_ = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
def strfn(name, always=False):
    def d(f):
        def g(s, st, a, i, loc):
            s.assumptions.add("library contract: std::string"); return f(s, st, a, i, loc)
        BY_RX.append((re.compile(re.escape(S_) + name), g, always)); return f
    return d
@strfn(r'_M_append\(')
def _(s, st, a, i, loc): str_set(s, st, a[0], str_get(s, st, a[0]) + bytes_get(s, st, a[1], a[2])); return a[0]
@strfn(r'_M_assign\(')
def _(s, st, a, i, loc): str_set(s, st, a[0], str_get(s, st, a[1])); return None
@strfn(r'_M_replace\(')
def _(s, st, a, i, loc):
    b = str_get(s, st, a[0]); x, n = int(s.toint(a[1])), int(s.toint(a[2]))
    str_set(s, st, a[0], b[:x] + bytes_get(s, st, a[3], a[4]) + b[x + n:]); return a[0]
@strfn(r'_M_replace_aux\(')
def _(s, st, a, i, loc):
    b = str_get(s, st, a[0]); x, n = int(s.toint(a[1])), int(s.toint(a[2]))
    str_set(s, st, a[0], b[:x] + bytes([int(a[4]) & 255]) * int(a[3]) + b[x + n:]); return a[0]
@strfn(r'_M_create\(')
def _(s, st, a, i, loc):
    n = s.load1(st, a[1].alts[0][1], a[1].alts[0][2], a[1].alts[0][3], 8, ('i', 64))
    return mkptr(s.alloc(st, 'heap', add(n, 1), 'u', True))
@strfn(r'reserve\(')
def _(s, st, a, i, loc): return None
@strfn(r'compare\(char const\*\) const')
def _(s, st, a, i, loc):
    x, y = str_get(s, st, a[0]), cstr(s, st, a[1]).encode('latin1'); return (x > y) - (x < y)
@brx(r'std::(runtime_error|logic_error|domain_error|out_of_range|length_error|invalid_argument)::')
def _(s, st, a, i, loc): return nopf(s, st, a, i, loc)
@bn('strlen')
def _(s, st, a, i, loc):
    return len(cstr(s, st, a[0]))
@bn('strcmp')
def _(s, st, a, i, loc):
    x, y = cstr(s, st, a[0]), cstr(s, st, a[1]); return (x > y) - (x < y)
@bn('memcmp', 'bcmp')
def _(s, st, a, i, loc):
    n = s.toint(a[2])
    if not isnum(n) or n > 64: raise ToolLimit("memcmp size")
    r = True
    for k in range(n):
        x = s.load1_byte(st, s.padd(s.ptr(a[0]), k)); y = s.load1_byte(st, s.padd(s.ptr(a[1]), k))
        r = b_and(r, eq(s.toint(x), s.toint(y)))
    return ite(r, 0, 1)
@bn('__dynamic_cast')
def _(s, st, a, i, loc):
    """Itanium RTTI: single-inheritance chains at offset 0"""
    p = s.ptr(a[0])
    if isnullptr(p): return NULL
    if len(p.alts) != 1: raise ToolLimit("dynamic_cast of ambiguous pointer")
    v = s.load(st, p, s.ptrty(), loc)
    vt = v.alts[0][1]; off = v.alts[0][3]
    ti = s.load(st, s.padd(v, -8), s.ptrty(), loc)
    top = s.load1(st, vt, None, add(off, -16), 8, ('i', 64))
    want = s.ptr(a[2]).alts[0][1].name
    seen = s.bases(ti.alts[0][1].name, 0)
    base = s.padd(p, top)
    for nm, o in seen:
        if nm == want: return s.padd(base, o)
    return NULL
def bases(s, ti, off):
    out = [(ti, off)]
    g = s.m.glob(ti)
    if g is None or 'init' not in g: return out
    fs = [x for x in g['init'][2]] if g['init'][0] == 'agg' else []
    gn = lambda c: c[1] if c[0] == 'g' else gn(c[1]) if c[0] == 'ge' else None
    kind = gn(fs[0]) if fs else None
    if kind and 'si_class' in kind: out += s.bases(gn(fs[2]), off)
    elif kind and 'vmi_class' in kind:
        k = 4
        while k + 1 < len(fs):
            fl = int(fs[k + 1][2])
            if fl & 1: raise ToolLimit("virtual base in dynamic_cast")
            out += s.bases(gn(fs[k]), off + (fl >> 8)); k += 2
    return out
Exec.bases = bases
def ptrty(s):
    for k, t in enumerate(s.m.types):
        if t[0] == 'p': return k
Exec.ptrty = ptrty
# streams and formatted text have no effect on the properties
@brx(r'(std::(basic_)?ostream|std::operator<<|std::basic_ostream|std::(__cxx11::)?basic_(o|i)?stringstream|std::basic_ios|std::ios_base|std::endl|std::flush|std::locale)')
def _(s, st, a, i, loc):
    if s.m.types[i['rt']][0] == 'p': return a[0] if a and isinstance(a[0], Ptr) else NULL
    return nopf(s, st, a, i, loc)
@brx(r'std::allocator<|std::__new_allocator<|std::exception::')
def _(s, st, a, i, loc): return nopf(s, st, a, i, loc)

@brx(r'imath_float_to_half\(float\)', True)
def _(s, st, a, i, loc):
    v = toreal(s.fl(a[0]))
    s.assumptions.add("half values are treated as reals of half's finite range (rounding not modelled)")
    s.oblige(st, b_and(lt(Fraction(-65520), v), lt(v, Fraction(65520))), "conversion to half stays finite", loc)
    if isnum(v) and v == 0: return 0
    return FBits(v, 16)
@brx(r'imath_half_to_float\(', True)
def _(s, st, a, i, loc):
        try: return conv(a[0], ('f', 16))
        except ToolLimit as x: raise ToolLimit("%s: %r" % (x, a[0] if not isinstance(a[0], Sym) else z(a[0])))
@brx(r'llvm\.expect')
def _(s, st, a, i, loc): return a[0]
@bn('__gxx_personality_v0')
def _(s, st, a, i, loc): return 0
# ---- trusted contracts of the standard library's sequence algorithms (element-wise, trivially copyable elements)
def elem_of(dem):
    """element type name of a pointer parameter list such as 'void std::fill<float*, float>(float*, ...'"""
    m = re.search(r'<([^<>]*(?:<[^<>]*>)?[^<>]*?)\s*(?:const)?\*', dem)
    return m.group(1).strip() if m else None
def span_bytes(s, a, b):
    d = s.ptrdiff(s.ptr(b), s.ptr(a))
    if d is None: raise ToolLimit("range over different objects")
    return d
def fill_elems(s, st, p, nbytes, proto, esize, loc):
    """every element of [p,p+nbytes) takes the content of the prototype object"""
    if isnum(nbytes) and nbytes == 0: return
    p = s.ptr(p)
    (g0, o, fi, off), = s.access(st, p, nbytes, loc, "write")
    c = s.wr(st, o)
    pc_, = [x for x in s.access(st, s.ptr(proto), esize, loc, "read")]
    _, po, pfi, poff = pc_
    src = s.content(st, po)
    cells = {}
    if isinstance(src, Flat) and isnum(poff):
        for k, (n, v) in src.cells.items():
            if k >= poff and k + n <= poff + esize: cells[int(k - poff)] = (n, v)
        zero = src.init == 'z'
    else:
        zero = False
        idx, inner = s.arr_index(src, po, poff, st)
        for f, node in src.fields.items():
            if 0 <= f - inner < esize: cells[f - inner] = (None, None, node, (pfi, idx) if po.fam else (idx,))
    if isinstance(c, Flat):
        n = int(nbytes) // esize
        for q in range(n):
            for k, t in cells.items():
                if len(t) == 2: s.flat_write(st, c, o, int(off) + q * esize + k, t[0], t[1])
                else:
                    nx = min([j for j in cells if j > k] + [esize]); w = s.fieldwidth(t[2]) or nx - k
                    s.flat_write(st, c, o, int(off) + q * esize + k, w, aread(t[2], t[3], s.fieldkind(t[2], w)))
        return
    if c.stride is None: c.stride = esize
    if c.stride != esize: raise ToolLimit("fill stride")
    i0, inner = s.arr_index(c, o, off, st)
    q, r = divmod_floor(nbytes, esize)
    for k, t in cells.items():
        f = c.field(inner + k, o)
        if len(t) == 2:
            v = t[1]
            if isinstance(v, MaybeUninit): v = v.v
            c.fields[inner + k] = ARange(f, fi, i0, add(i0, q), lambda ix, kd, v=v: v)
        else:
            c.fields[inner + k] = ARange(f, fi, i0, add(i0, q), lambda ix, kd, t=t: aread(t[2], t[3], kd))
def tysize(s, name):
    name = name.replace('const', '').strip()
    if name in SIZES: return SIZES[name]
    m = re.match(r'Imath_3_\d+::Vec([234])<([^<>]*)>$', name)
    if m: return int(m.group(1)) * tysize(s, m.group(2))
    if name.endswith('*'): return 8
    if name.endswith('half'): return 2
    return None
def trivial(s, name): return tysize(s, name) is not None
def demof(s, i): return s.m.func(i['fn'][1])['dem']
def lib(rx):
    """library contract, applied only when the element type is trivial"""
    def d(f):
        r = re.compile(rx)
        def g(s, st, a, i, loc):
            dem = demof(s, i); e = elem_of(dem); sz = tysize(s, e) if e else None
            if sz is None:
                # let the library's own code run
                return s.call(s.m.func(i['fn'][1]), a, st, loc)
            s.assumptions.add("library contract: " + re.sub(r'<.*', '', dem)[:60])
            return f(s, st, a, i, loc, sz)
        BY_RX.append((r, g, True))
        return f
    return d
@lib(r'[^(]*\bstd::fill<[^(]*\*, ')
def _(s, st, a, i, loc, sz): fill_elems(s, st, a[0], span_bytes(s, a[0], a[1]), a[2], sz, loc)
@lib(r'[^(]*\bstd::(fill_n|uninitialized_fill_n)<[^(]*\*, ')
def _(s, st, a, i, loc, sz):
    n = s.toint(a[1]); n = ite(lt(n, 0), 0, n)
    b = scale(n, sz); fill_elems(s, st, a[0], b, a[2], sz, loc); return s.padd(s.ptr(a[0]), b)
@lib(r'[^(]*\bstd::__uninitialized_default_n<[^(]*\*, ')
def _(s, st, a, i, loc, sz):
    b = scale(s.toint(a[1]), sz)
    dem = demof(s, i); e = elem_of(dem)
    # value initialisation: scalars become zero; class types run their default constructor (trivial for Imath vectors)
    if e in SIZES: s.memset(st, s.ptr(a[0]), 0, b, loc)
    return s.padd(s.ptr(a[0]), b)
@lib(r'[^(]*\bstd::__uninitialized_default_n_a<[^(]*\*, ')
def _(s, st, a, i, loc, sz):
    b = scale(s.toint(a[1]), sz); e = elem_of(demof(s, i))
    if e in SIZES: s.memset(st, s.ptr(a[0]), 0, b, loc)
    return s.padd(s.ptr(a[0]), b)
@lib(r'[^(]*\bstd::(copy|move|uninitialized_copy|__relocate_a|__uninitialized_copy_a|__uninitialized_move_if_noexcept_a|__uninitialized_move_a)<[^(]*\*')
def _(s, st, a, i, loc, sz):
    n = span_bytes(s, a[0], a[1])
    s.memcpy(st, s.ptr(a[2]), s.ptr(a[0]), n, loc); return s.padd(s.ptr(a[2]), n)
@lib(r'[^(]*\bstd::(_Destroy|_Destroy_aux<true>::__destroy)<')
def _(s, st, a, i, loc, sz): return None
