"""One harness x one case: symbolic execution, discharge, counterexample extraction.  Runs in its own process."""
import sys, os, time, traceback, json, subprocess, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import terms as T, memory as MM, execu, run
from fractions import Fraction

def num(v):
    if v is None: return None
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return float(v.as_fraction())
    if z3.is_algebraic_value(v): return float(v.approx(12).as_fraction())
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    return None

def extract(e, m):
    """model -> replay lines"""
    out = []
    for k, v in e.cases.items(): out.append("S %s %d" % (k, v))
    for n, v in e.names.items():
        x = num(m.eval(T.zb(v) if not isinstance(v, (T.Sym, int, Fraction)) else T.z(v), model_completion=True))
        if x is None: continue
        out.append("S %s %s" % (n, x if isinstance(x, int) else repr(x)))
    byname = {}
    for (nm, ar, real), f in MM.UFS.items():
        if isinstance(nm, str): byname.setdefault(nm, []).append(f)
    for h in e.havocs:
        names = [h[0]]
        for nm in list(byname):
            if nm == h[0] or (nm.startswith(h[0] + '.') ): 
                for f in byname[nm]:
                    fi = m[f]
                    if fi is None: continue
                    try:
                        for ent in fi.as_list()[:-1]:
                            ix = [num(a) for a in ent[:-1]]; val = num(ent[-1])
                            if None in ix or val is None: continue
                            i = ix[0] if len(ix) == 1 else ix[0] * 1000003 + ix[1]
                            out.append("A %s %d %r" % (nm, i, float(val)))
                        d = num(fi.else_value())
                        if d is not None: out.append("D %s %r" % (nm, float(d)))
                    except Exception: pass
    return out

def smt_cvc5(forms, facts, to):
    s = z3.Solver(); s.add(facts); s.add(forms)
    txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt); p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(to), '--nl-ext-tplanes', p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=to / 1000 + 10)
        return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    except Exception: return 'unknown'
    finally: os.unlink(p)

def prove(e, forms, neg, tos):
    """-> ('proved', backend) / ('refuted', model) / ('unknown', why)"""
    fs = forms + [neg]
    fz = [T.zb(f) for f in fs]
    facts = T.facts_for(fz)
    lin = [f for f in fz if e.islin(f)]
    t = tos
    s = z3.SimpleSolver(); s.set('timeout', int(t * 300)); s.add([f for f in facts if e.islin(f)]); s.add(lin)
    if s.check() == z3.unsat: return 'proved', 'z3-linear'
    if execu.has_monos([fz[-1]]) and e.prove_nl(forms, T.b_not(neg)): return 'proved', 'z3-linear+products'
    if execu.has_monos(fz):
        lm = e.radix_lemmas(forms, fz)
        if lm:
            s = z3.SimpleSolver(); s.set('timeout', int(t * 500)); s.add([f for f in T.facts_for(fz + lm) if e.islin(f)]); s.add(lin); s.add(lm)
            if s.check() == z3.unsat: return 'proved', 'z3-linear+radix'
            fz = fz + lm; facts = T.facts_for(fz)
    k = len(facts); ex = T.expand(facts + fz); facts, fz = ex[:k], ex[k:]
    last = None
    for k, mk in enumerate((lambda: z3.Solver(), lambda: z3.Tactic('qfnra-nlsat').solver() if False else z3.SimpleSolver())):
        s = mk(); s.set('timeout', int(t * 1000))
        if k == 1: s.set('smt.random_seed', 7) if False else None
        s.add(facts); s.add(fz); r = s.check()
        if r == z3.unsat: return 'proved', 'z3'
        if r == z3.sat: return 'refuted', s.model()
        last = s.reason_unknown()
    # cone of influence: drop path conjuncts that share no atoms with the goal (one step)
    r = smt_cvc5(fz, facts, t * 1000)
    if r == 'unsat': return 'proved', 'cvc5'
    return 'unknown', last or 'cvc5 ' + r

def small_model(e, forms, neg, to):
    """a counterexample inside the natively representable input sizes"""
    fs = [T.zb(f) for f in forms + [neg]]
    nb = []
    for n, (lo, hi) in e.nd.items():
        v = e.names.get(n)
        if isinstance(v, T.Sym): nb += [T.z(v) >= lo, T.z(v) <= hi]
    for bound in (True, False):
        s = z3.Solver(); s.set('timeout', int(to * 1000))
        s.add(T.expand(T.facts_for(fs) + fs))
        if bound: s.add(nb)
        if s.check() == z3.sat: return s.model(), bound
    return None, False

def work(js, harness, cases, opts, q):
    t0 = time.time()
    res = {'harness': harness, 'cases': dict(cases), 'obls': [], 'tool': None, 'funcs': {}, 'assume': [], 'covers': {}, 'casedom': {}, 'solver': 0, 'queries': 0, 'instr': 0}
    try:
        m = execu.Module(js)
        e = run.Exec(m, dict(opts, cases=dict(cases), deadline=t0 + opts.get('budget', 300)))
        try:
            e.run_harness('vch_' + harness)
        except execu.ToolLimit as x:
            res['tool'] = "%s (at %s:%s in %s)" % (x, os.path.basename(str((getattr(e, 'loc', None) or ('?', 0))[0])), (getattr(e, 'loc', None) or ('?', 0))[1], ' > '.join(z[:60] for z in (e.failstack or [])[-3:]))
        res['casedom'] = e.casedom; res['instr'] = e.ninstr
        res['funcs'] = {k: v[:3] for k, v in e.funcs.items()}
        tos = opts.get('timeout', 20)
        budget_end = t0 + opts.get('budget', 300) + opts.get('solvebudget', 200)
        seen = {}
        for o in e.obls:
            t1 = time.time()
            if o.cond is True: o.status = 'proved'; o.backend = 'syntactic'
            if o.status == 'proved':
                res['obls'].append([o.label, o.kind, list(o.loc or ()), 'proved', o.backend, 0.0, None]); continue
            key = (id(o.pc), o.cond if isinstance(o.cond, bool) else o.cond.get_id())
            if key in seen: res['obls'].append([o.label, o.kind, list(o.loc or ())] + seen[key]); continue
            pcl = o.pc.lst(); neg = T.b_not(o.cond); r = None
            if neg is True: neg = z3.BoolVal(True)
            if isinstance(o.model, tuple):
                st, x = prove(e, pcl, T.b_not(o.model[1]), tos / 2)
                if st == 'proved': r = ['proved', x]
            if r is None and time.time() > budget_end: r = ['unknown', 'time budget']
            if r is None:
                st, x = prove(e, pcl, neg, tos); r = [st, x]
            rep = None
            if r[0] == 'refuted':
                mdl, small = small_model(e, pcl, neg, min(tos, 10))
                rep = {'lines': extract(e, mdl if mdl is not None else r[1]), 'small': small}
                r[1] = 'z3'
            rr = [r[0], str(r[1]), round(time.time() - t1, 2), rep]
            seen[key] = rr; res['obls'].append([o.label, o.kind, list(o.loc or ())] + rr)
        for k, pcs in e.covers.items():
            ok = False
            for pc in pcs:
                c, _ = e.check(pc.lst(), 5000)
                if c != z3.unsat: ok = True; break
            res['covers'][k] = ok
        res['assume'] = sorted(e.assumptions); res['solver'] = round(e.solver_time, 2); res['queries'] = e.nqueries
        res['throws'] = len(e.throws)
    except Exception as x:
        res['tool'] = 'internal: ' + ''.join(traceback.format_exception_only(type(x), x)).strip() + ' ' + ' | '.join(l.strip() for l in traceback.format_exc(limit=-4).split('\n')[-9:-2])
    res['time'] = round(time.time() - t0, 2)
    q.send(res); q.close()
