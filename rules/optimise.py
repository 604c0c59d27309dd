"""P35: what one run of constant optimisation does."""
from fractions import Fraction
from sa.core import *
from sa.rulelib import *
from sa.algebra import RF, V, C, Unknown
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, strip, rets, run, terms_of
from rules.simplify import last, impossible, ended, deref, arg_where, calls_in
from rules.choice import loops_in, num, plain, less, atoms
from rules.schedule import under_upd, opt
from rules.measures import facts_of, values, all_inner
from rules.browser import bare
from rules.settings import get


def core(t):
    """the optional a value was taken out of, or was wrapped in"""
    while True:
        t = deref(t)
        if t.op == 'vf' and t.a[1] in ('Some', 'Continue', 'Ok'):
            t = t.a[0]
        elif t.op == 'agg' and last(t.a[0]) in ('Some', 'Continue') and len(t.a) == 3:
            t = t.a[2]
        elif is_call(t, 'unwrap', 'expect', 'branch', 'ok'):
            t = t.a[1]
        else:
            return t


def rf(t):
    """a real term as a rational function of its parts"""
    t = strip(deref(t))
    if t.op == 'const':
        v = num(t)
        if v is None:
            raise Unknown('constant')
        return C(Fraction(v))
    if t.op in ('Add', 'Sub', 'Mul', 'Div'):
        a, b = rf(t.a[0]), rf(t.a[1])
        return a + b if t.op == 'Add' else a - b if t.op == 'Sub' else a * b if t.op == 'Mul' else a / b
    if t.op == 'Neg':
        return -rf(t.a[0])
    if is_call(t, 'mul_add') and len(t.a) >= 4:
        return rf(t.a[1]) * rf(t.a[2]) + rf(t.a[3])
    if is_call(t, 'add', 'sub', 'mul', 'div') and len(t.a) in (3, 4):
        a, b = rf(t.a[1]), rf(t.a[2])
        return {'add': a + b, 'sub': a - b, 'mul': a * b}[last(t.a[0])] if last(t.a[0]) != 'div' else a / b
    if is_call(t, 'neg'):
        return -rf(t.a[1])
    c = core(t)
    if c.op == 'fld' and bare(c.a[0]).op == 'arg':
        return V(f'{bare(c.a[0]).id}.{c.a[2]}')
    return V(f't{c.id}')


def finite(fs, t):
    """the facts say that a value is finite"""
    return any(is_call(f, 'is_finite') and core(f.a[1]) is t for f in fs)


def none_or_wild(fs, t):
    """the facts say that a value is missing or not finite"""
    for f in fs:
        if f.op == 'is' and f.a[1] in ('None', 'Break') and core(f.a[0]) is t:
            return True
        if f.op == 'isnt' and f.a[1] in ('Some', 'Continue') and core(f.a[0]) is t:
            return True
        if f.op == 'not' and is_call(f.a[0], 'is_finite') and core(f.a[0].a[1]) is t:
            return True
    return False


# ---------------------------------------------------------------- the objective
def lem_objective(kind):
    def lem(c, fn):
        F = c.ctx.flow(fn, ('loss_only', 'loss_and_grad'))
        n = 0
        for p in rets(F):
            if impossible(p.facts):
                continue
            ls = loops_in(p)
            writes = [(e, en) for e, en in budget_writes(p.items)]
            if any(True for L in ls for b in L.body for _ in budget_writes(b.items)):
                return 'a trial is counted more than once'
            if len(writes) != 1 or not plus_one(rebuild(writes[0][0].value, writes[0][1]), 'f_calls'):
                return 'a trial is not counted as exactly one evaluation'
            r = core(rebuild(p.ret, p.env))
            if r.op == 'agg' and last(r.a[0]) == 'None':
                if not any(f.op == 'is' and f.a[1] == 'None' and is_call(core(f.a[0]), 'from_f64') for f in facts_of(p)):
                    return 'a trial can fail without being evaluated'
                continue
            if not is_call(r, kind):
                return f'the value is {show(r)[:80]}'
            expr = deref(next(deref(a) for a in r.a[1:] if isinstance(a, T) and 'expr' in show(a)[:80] and not is_fld(deref(a), 'plan')))
            n += 1
            m = written(F, p, ls)
            if m:
                return m
            if kind == 'loss_and_grad' and not any(deref(a) is mk_arg(F, 3) for a in r.a[1:] if isinstance(a, T)):
                return 'the gradient goes elsewhere'
        return None if n else 'no path'
    return lem


def stores(items):
    """writes through references, outside inner loops"""
    return [(e, en) for e, _, en in (it for it in items if not isinstance(it, Loop)) if e.k == 'write' and not isinstance(e.root, int)]


def budget_writes(items):
    for it in items:
        if isinstance(it, Loop):
            for b in it.body:
                yield from budget_writes(b.items)
        elif it[0].k == 'write' and it[0].path and it[0].path[-1][-1] == 'f_calls':
            yield it[0], it[2]


def plus_one(v, name):
    v = strip(v)
    if is_call(v, 'saturating_add', 'wrapping_add'):
        v = mk('Add', v.a[1], v.a[2])
    return v.op == 'Add' and any(constant(x) == 1 for x in v.a[:2]) and any(is_fld(bare(x), name) for x in v.a[:2])


def written(F, p, ls):
    """every constant of the expression is set to the trial point's entry"""
    for L in ls:
        src = bare(rebuild(L.src, p.env)) if L.src is not None else None
        if src is None or not ended(p.facts, L):
            continue
        ok = True
        for b in L.body:
            if b.end != 'back':
                ok = False
                continue
            ws = stores(b.items)
            hit = [e for e, en in ws if from_point(rebuild(e.value, en), L) and all(s[0] != 'i' or over_range(rebuild(s[1], en), L) for s in e.path or ())]
            if len(hit) != 1 or len(ws) != 1 and any(not from_point(rebuild(e.value, en), L) and in_consts(e) for e, en in ws):
                ok = False
        if ok and mentions_consts(src) or ok and any(in_consts(e) for b in L.body for it in b.items if not isinstance(it, Loop) for e in (it[0],) if e.k == 'write'):
            if covers(src, p, F):
                return None
    return 'not every constant is set to the trial point'


def in_consts(e):
    return any(len(s) > 2 and s[2] == 'consts' for s in e.path or ()) or mentions_consts(e.root if isinstance(e.root, T) else None)


def mentions_consts(t):
    return isinstance(t, T) and any(is_fld(x, 'consts') for x in terms_of(t))


def from_point(v, L):
    v = core(strip(v))
    if is_call(v, 'from_f64', 'from', 'cast'):
        x = bare(strip(v.a[1]))
    else:
        x = bare(v)
    if x.op == 'elem':
        return x.a[0].op == 'arg' and x.a[1] == L.site
    if x.op == 'idx':
        return bare(x.a[0]).op == 'arg' and over_range(x.a[1], L)
    return False


def over_range(i, L):
    i = bare(i)
    return i.op in ('elem', 'pos') and i.a[1] == L.site


def covers(src, p, F):
    """the loop goes over all constants and all entries of the point"""
    src = bare(src)
    if is_call(src, 'enumerate'):
        src = bare(src.a[1])
    if is_call(src, 'zip'):
        a, b = bare(src.a[1]), bare(src.a[2])
        return whole(a) and whole(b)
    if src.op == 'agg' and last(src.a[0]) == 'Range':
        n = bare(strip(src.a[3]))
        return constant(src.a[2]) == 0 and (n.op == 'len' and whole(n.a[0]) or is_call(n, 'len') and whole(n.a[1]))
    return whole(src)


def whole(t):
    t = bare(t)
    while is_call(t, 'iter_mut', 'iter', 'copied', 'cloned', 'into_iter', 'enumerate'):
        t = bare(t.a[1])
    return t.op == 'arg' or is_fld(t, 'consts')


# ---------------------------------------------------------------- line search
def lem_axpy(c, fn):
    F = c.ctx.flow(fn, ())
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        ls = [L for L in loops_in(p) if any(stores(b.items) for b in L.body)]
        if len(ls) != 1 or not ended(p.facts, ls[0]):
            return f'{len(ls)} passes over the point'
        L = ls[0]
        for b in L.body:
            if b.end != 'back':
                return 'the pass can stop early'
            ws = stores(b.items)
            if len(ws) != 1:
                return f'{len(ws)} writes per entry'
            v = rebuild(ws[0][0].value, ws[0][1])
            at = lambda k: [x for x in terms_of(v) if x.op in ('elem', 'idx') and bare(x.a[0]) is mk_arg(F, k)]
            x, s = at(2), at(4)
            if len(set(x)) != 1 or len(set(s)) != 1:
                return f'an entry becomes {show(v)[:100]}'
            if rf(v) != rf(x[0]) + rf(mk_arg(F, 3)) * rf(s[0]):
                return f'an entry becomes {show(v)[:100]}'
            n += 1
    return None if n else 'no path'


class Search:
    def __init__(self, c, fn):
        self.F = c.ctx.flow(fn, ('axpy_into', 'quadratic_step', 'cubic_step', 'inf_norm'))
        self.ls = arg_where(self.F, lambda t: 'BackTracking' in t)
        self.inp = mk_arg(self.F, arg_where(self.F, lambda t: 'LineSearchInput' in t))
        self.out = mk_arg(self.F, arg_where(self.F, lambda t: t.startswith('&') and 'mut [f64]' in t))

        self.cond, self.seen = set(), []

    def field(self, t, f):
        t = bare(t)
        return is_fld(t, f) and bare(t.a[0]) is self.inp

    def steps(self, items, env, known, facts=()):
        """follow the point being built and the values taken at it: known = [(step, value at its point, is it still the point)]"""
        known, cur = list(known), None
        for it in items:
            if isinstance(it, Loop):
                more = self.loop(it, env, known, facts)
                if any(last(e.cn or '') == 'axpy_into' for b in it.body for e, _, _ in calls_in(b.items)):
                    known, cur = [(s, w, False) for s, w, _ in known], None
                known += more
                continue
            e, _, en = it
            if e.k != 'call':
                if e.k == 'write' and isinstance(e.root, T) and bare(e.root) is self.out:
                    known, cur = [(s, w, False) for s, w, _ in known], None
                continue
            ln = last(e.cn or '')
            if ln == 'axpy_into':
                a = [rebuild(x, en) for x in e.args]
                if not (under_upd(a[0]) is self.out or self.is_out(a[0])) or not self.field(a[1], 'x') or not self.field(a[3], 's'):
                    raise Bad('a trial point is not x + step * direction')
                cur = bare(a[2])
                known = [(s, w, False) for s, w, _ in known]
            elif ln in ('call_mut', 'call', 'call_once'):
                known.append((cur, core(rebuild(e.res, en)), True))
        return known

    def is_out(self, t):
        seen, todo = set(), [deref(t)]
        while todo:
            x = under_upd(todo.pop())
            if x in seen:
                continue
            seen.add(x)
            if x is self.out:
                continue
            if x.op != 'phi' and x not in self.F.phi_ops:
                return False
            todo += [v for _, v in self.F.phi_ops[x]]
        return True

    def round_before(self, L, w):
        """the first rounds of the same loop, followed apart, all end with the value missing or not finite"""
        n = 0
        for M in self.seen:
            if M.site != L.site or M is L:
                continue
            for b in M.body:
                if b.end == 'back' and not impossible(b.facts) and any(core(v) is w for v in values(self.F, M, b).values()):
                    if not none_or_wild(facts_of(b) + list(b.facts), w):
                        return False
                    n += 1
        return n > 0

    def loop(self, L, env, known, facts):
        """loop variables that stay a step and the value at the point of that step"""
        if L not in self.seen:
            self.seen.append(L)
        accs = list(L.accs or ())
        ent = {k: bare(rebuild(v, env)) for k, v in L.entries.items()}
        steps = accs + list({s for s, _, _ in known if s is not None and s not in accs})
        good = []
        for a in steps:
            for v in accs:
                ev = core(ent[v]) if v in ent else None
                if a is v or ev is None:
                    continue
                st = [t for s, w, t in known if s is ent.get(a, a) and w is ev]
                if not st and not (ev.op == 'agg' and last(ev.a[0]) == 'None'):
                    if not none_or_wild(facts, ev) and not self.round_before(L, ev):
                        continue
                    self.cond.add(v)
                for track in (True, False):
                    if track and st and not any(st):
                        continue
                    if all(self.kept(L, b, a, v, track) for b in L.body if b.end == 'back' and not impossible(b.facts)):
                        good.append((a, v, track))
                        break
        return good

    def kept(self, L, b, a, v, track):
        fs = facts_of(b) + list(b.facts)
        nv = values(self.F, L, b)
        na, nw = bare(nv.get(a, a)), core(nv.get(v, v))
        if none_or_wild(fs, nw):
            self.cond.add(v)
            return True
        return any(s is na and w is nw and (t or not track) for s, w, t in self.steps(b.items, b.env, [(a, v, track)], fs))


def lem_search(c, fn):
    S = Search(c, fn)
    F = S.F
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = deref(rebuild(p.ret, p.env))
        if r.op == 'agg' and last(r.a[0]) == 'None':
            continue
        if not (r.op == 'agg' and last(r.a[0]) == 'Some'):
            return f'the search returns {show(r)[:80]}'
        r = bare(r.a[2])
        a, v = bare(r.a[2]), r.a[3]
        S.seen = []
        known = S.steps(p.items, p.env, [], facts_of(p) + list(p.facts))
        w = core(v)
        if not any(a is s and w is x for s, x, _ in known):
            return 'the step and the value returned are not those of one trial'
        if not any(a is s and w is x and t for s, x, t in known):
            return 'the point left behind is not the accepted one'
        rhs = V(f'{S.inp.id}.phi0') + V(f'{mk_arg(F, S.ls).id}.c1') * rf(a) * V(f'{S.inp.id}.dphi0')
        fs = facts_of(p)
        if not any(f.op in ('le', 'lt') and len(f.a) > 2 and f.a[2] == 'f' and armijo(f.a[0], f.a[1], w, rhs, S) for f in fs):
            return 'a step is accepted without a sufficient decrease'
        if w in S.cond and not finite(fs, w):
            return 'a value may be missing'
        n += 1
    # trials are bounded
    for p in rets(F):
        for L in all_inner(p):
            s = bare(rebuild(L.src, p.env)) if L.src is not None else None
            if s is None or not (s.op == 'agg' and last(s.a[0]) == 'Range'):
                return 'trials are not bounded'
            calls = any(last(e.cn or '') == 'call_mut' for b in L.body for it in b.items if not isinstance(it, Loop) for e in (it[0],) if e.k == 'call')
            if calls and any(is_fld(bare(x), 'iterations') for x in s.a[2:]) and not (constant(s.a[2]) == 0 and is_fld(bare(s.a[3]), 'iterations')):
                return f'the search goes over {show(s)[:80]}'
    return None if n else 'no path'


def armijo(l, r, w, rhs, S):
    try:
        if core(l) is not w:
            return rf(l) - rf(r) == V(f't{w.id}') - rhs
        return rf(r) == rhs
    except Unknown:
        return False


# ---------------------------------------------------------------- the two minimisers
def limited(fs, opts, bud=None):
    """the facts say that the evaluation limit is absent or not yet reached"""
    for f in fs:
        if f.op == 'eq' and any(constant(x) == 0 for x in f.a[:2]) and any(is_limit(x) for x in f.a[:2]):
            return True
        if f.op == 'lt' and is_calls(f.a[0]) and is_limit(f.a[1]):
            return True
        if f.op == 'le' and constant(f.a[1]) == 0 and is_limit(f.a[0]):
            return True
        if f.op == 'lt' and is_limit(f.a[0]) and constant(f.a[1]) == 1:
            return True
        if f.op == 'not' and f.a[0].op == 'le' and is_limit(f.a[0].a[0]) and is_calls(f.a[0].a[1]):
            return True
    return False


def is_limit(t):
    t = bare(strip(t))
    return is_fld(t, 'f_calls_limit') or t.op == 'fld' and 'f_calls_limit' in str(t.a[2])


def is_calls(t):
    t = bare(strip(t))
    return is_fld(t, 'f_calls')


def lem_trial(c, fn):
    """the function handed to the line search: nothing at the limit, else the value at the trial point"""
    F = c.ctx.flow(fn, ('f_only', 'fg'))
    n = 0
    pt = arg_where(F, lambda t: '[f64]' in t)
    for p in rets(F):
        if impossible(p.facts):
            continue
        cs = [(e, en) for e, _, en in (it for it in p.items if not isinstance(it, Loop)) if e.k == 'call' and last(e.cn or '') in ('f_only', 'fg')]
        if loops_in(p) or len(cs) > 1:
            return 'a trial is evaluated more than once'
        fs = facts_of(p)
        r = core(rebuild(p.ret, p.env))
        if cs:
            if not limited(fs, None):
                return 'a trial is evaluated beyond the evaluation limit'
            e, en = cs[0]
            if bare(rebuild(e.args[1], en)) is not mk_arg(F, pt):
                return 'another point is evaluated'
            if r.op == 'agg' and last(r.a[0]) == 'None':
                if not none_or_wild(fs, core(e.res)):
                    return 'a value is dropped'
                continue
            if r is not core(rebuild(e.res, en)):
                return f'the value is {show(r)[:80]}'
            n += 1
        elif not (r.op == 'agg' and last(r.a[0]) == 'None'):
            return f'the value is {show(r)[:80]}'
    return None if n else 'no path'


def evals(items):
    """calls of the objective and of the line search outside inner loops"""
    return [(e, en) for e, _, en in (it for it in items if not isinstance(it, Loop)) if e.k == 'call' and last(e.cn or '') in ('fg', 'f_only', 'backtracking_linesearch')]


def paired(F, x, v, known):
    x, v = pt(x), core(v)
    return any(x is a and v is b for a, b in known)


def pt(t):
    """the point meant by a vector or a single number"""
    t = bare(t)
    while True:
        if is_call(t, 'to_vec', 'clone', 'to_owned', 'as_slice', 'as_ref', 'deref') and len(t.a) >= 2:
            t = bare(t.a[1])
        elif t.op == 'upd' and last(t.a[0]) in ('copy_from_slice', 'clone_from_slice') and len(t.a) > 4:
            t = bare(t.a[4])
        elif t.op == 'agg' and t.a[0] == 'array' and len(t.a) == 3:
            t = bare(t.a[2])
        elif is_call(t, 'into_vec', 'from_elem', 'box_new', 'new') and len(t.a) >= 2 and t.a[1] is not None and isinstance(t.a[1], T) and (not is_call(t, 'from_elem') or len(t.a) > 2 and constant(t.a[2]) == 1):
            t = bare(t.a[1])
        else:
            return t


def follow(F, items, env, known, S):
    known = list(known)
    for it in items:
        if isinstance(it, Loop):
            known += inductive(F, it, env, known, S)
            continue
        e, _, en = it
        if e.k == 'call' and last(e.cn or '') == 'fg':
            known.append((pt(rebuild(e.args[1], en)), core(rebuild(e.res, en))))
    return known


def inductive(F, L, env, known, S):
    accs = list(L.accs or ())
    ent = {k: rebuild(v, env) for k, v in L.entries.items()}
    good = []
    for a in accs:
        for v in accs:
            if a is v or a not in ent or v not in ent:
                continue
            if not (paired(F, ent[a], ent[v], known) or S.start(ent[a], ent[v])):
                continue
            ok = True
            for b in L.body:
                if b.end != 'back' or impossible(b.facts):
                    continue
                nv = values(F, L, b)
                k2 = follow(F, b.items, b.env, [(a, v)], S)
                if not paired(F, nv.get(a, a), nv.get(v, v), k2):
                    ok = False
                    break
            if ok:
                good.append((a, v))
    return good


class Start:
    def start(self, x, v):
        v = num(core(v))
        return v is not None and v == float('inf')


def lem_minimiser(c, fn):
    F = c.ctx.flow(fn, ('fg', 'f_only', 'backtracking_linesearch', 'matvec', 'dot', 'inf_norm'))
    n = rounds = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        top = {}
        for L in loops_in(p):
            s = bare(rebuild(L.src, p.env)) if L.src is not None else None
            busy = [b for b in L.body if evals(b.items)]
            if any(evals(q.items) for b in L.body for M in all_inner(b) for q in M.body):
                return 'the objective is evaluated in a loop within an iteration'
            if not busy:
                continue
            if not (s is not None and s.op == 'agg' and last(s.a[0]) == 'Range' and constant(s.a[2]) == 0 and is_fld(bare(s.a[3]), 'iterations')):
                return 'iterations are not bounded by the configured number'
            top[L.site] = L
            for b in busy:
                if not limited(facts_of(b) + list(b.facts), None):
                    return 'an iteration begins at the evaluation limit'
                m = searched(F, b, S_known(F, p, L))
                if m:
                    return m
                rounds += 1
        es = evals(p.items)
        inside = [(e, en) for e, en in es if last(e.cn) == 'backtracking_linesearch']
        if inside and not limited(facts_of(p) + list(p.facts), None):
            return 'an iteration begins at the evaluation limit'
        r = deref(rebuild(p.ret, p.env))
        if not (r.op == 'agg' and last(r.a[0]) == 'Some'):
            continue
        r = bare(r.a[2])
        got = dict(zip(r.a[1], r.a[2:]))
        known = follow(F, p.items, p.env, [], Start())
        if not paired(F, got['minimizer'], got['minimum'], known) and not Start().start(got['minimizer'], got['minimum']):
            return 'the value returned is not the one at the point returned'
        if not is_calls(got['f_calls']):
            return f'the evaluations reported are {show(got["f_calls"])[:80]}'
        m = from_start(F, p)
        if m:
            return m
        n += 1
    if not rounds:
        return 'no iteration understood'
    return None if n else 'no path'


def S_known(F, p, L):
    return None


def searched(F, b, known):
    """each line search leaves the current point along a direction in which the objective falls, from its value there"""
    fs = facts_of(b) + list(b.facts)
    for e, en in evals(b.items):
        if last(e.cn) != 'backtracking_linesearch':
            continue
        a = [bare(rebuild(x, en)) for x in e.args]
        inp = next(x for x in a if x.op == 'agg' and 'LineSearchInput' in x.a[0])
        g = dict(zip(inp.a[1], inp.a[2:]))
        if num(g['alpha0']) is None or num(g['alpha0']) <= 0:
            return f'the search starts with step {show(g["alpha0"])[:60]}'
        d = bare(g['dphi0'])
        if not less(fs, lambda x: bare(x) is d, lambda x: num(x) == 0):
            return 'the search may follow a direction in which the objective rises'
    return None


def from_start(F, p):
    """the first evaluation is at the starting point"""
    for it in p.items:
        if isinstance(it, Loop):
            for b in it.body:
                for e, en in evals(b.items):
                    x = pt(rebuild(e.args[1], en))
                    x = pt(rebuild(it.entries[x], p.env)) if x in it.entries else x
                    return None if x.op == 'arg' else f'the first point evaluated is {show(x)[:80]}'
        elif it[0].k == 'call' and last(it[0].cn or '') == 'fg':
            x = pt(rebuild(it[0].args[1], it[2]))
            return None if x.op == 'arg' else f'the first point evaluated is {show(x)[:80]}'
    return None


# ---------------------------------------------------------------- starts
def lem_dispatch(c, fn):
    F = c.ctx.flow(fn, ('newton_1d_minimize', 'bfgs_minimize', 'fg', 'f_only'))
    st = arg_where(F, lambda t: '[f64]' in t)
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = deref(rebuild(p.ret, p.env))
        if is_call(r, 'newton_1d_minimize'):
            x = bare(r.a[1])
            if not (x.op == 'idx' and bare(x.a[0]) is mk_arg(F, st) and constant(x.a[1]) == 0):
                return f'the search starts from {show(x)[:80]}'
            if not any(f.op == 'eq' and any(constant(x) == 1 for x in f.a[:2]) for f in facts_of(p)):
                return 'only the first constant is optimised'
        elif is_call(r, 'bfgs_minimize'):
            if bare(r.a[1]) is not mk_arg(F, st):
                return f'the search starts from {show(r.a[1])[:80]}'
        else:
            return f'the result is {show(r)[:80]}'
        ob = next((bare(x) for x in r.a[1:] if isinstance(x, T) and bare(x).op == 'agg' and 'ConstObjective' in bare(x).a[0]), None)
        if ob is None:
            return 'the objective is not the loss of the expression'
        g = dict(zip(ob.a[1], ob.a[2:]))
        mem = mk_arg(F, arg_where(F, lambda t: 'PopMember' in t))
        if not (is_fld(bare(g['expr']), 'expr') and bare(bare(g['expr']).a[0]) is mem and is_fld(bare(g['plan']), 'plan') and bare(bare(g['plan']).a[0]) is mem):
            return 'the objective is not the loss of the member being optimised'
        n += 1
    return None if n else 'no path'


RUNS = ('optimize_from_start', 'newton_1d_minimize', 'bfgs_minimize')


def starts(items):
    return [(e, en) for e, _, en in (it for it in items if not isinstance(it, Loop)) if e.k == 'call' and last(e.cn or '') in RUNS]


def consts_of(t, p, F):
    """the member's constants as real numbers"""
    t = plain(bare(t))
    if is_call(t, 'collect'):
        t = t.a[1]
    return t


def lem_starts(c, fn):
    F = c.ctx.flow(fn, RUNS + ('loss_only', 'evaluate', 'standard_normal', 'ensure_n_rows'))
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        ls = [L for L in loops_in(p) if any(starts(b.items) for b in L.body)]
        top = starts(p.items)
        if not top and not ls:
            continue
        if any(starts(q.items) for L in loops_in(p) for b in L.body for M in all_inner(b) for q in M.body):
            return 'starts are nested'
        if len(ls) > 1:
            return f'{len(ls)} loops of restarts'
        s0 = [a for e, en in top for a in [bare(rebuild(e.args[1], en))]]
        # the first start
        if not top:
            return 'there is no start from the current constants'
        e, en = top[0]
        x0 = plain(bare(rebuild(e.args[1], en)))
        if not current(F, p, x0):
            return f'the first start is {show(x0)[:100]}'
        for e, en in top:
            m = configured([rebuild(a, en) for a in e.args], p)
            if m:
                return m
        if not ls:
            if len(top) != 1:
                return f'{len(top)} starts without a loop of restarts'
            if not any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and is_restarts(bare(f.a[0].a[0])) for f in facts_of(p)):
                return 'restarts are left out'
            n += 1
            continue
        L = ls[0]
        if not is_restarts(bare(rebuild(L.src, p.env))):
            return f'the restarts go over {show(rebuild(L.src, p.env))[:80]}'
        if not ended(p.facts, L):
            return 'the restarts can stop early'
        if len(top) != 1 and not peeled(F, top[1:], L):
            return f'{len(top)} starts outside the loop of restarts'
        for b in L.body:
            if impossible(b.facts):
                continue
            if b.end != 'back':
                return 'the restarts can stop early'
            ss = starts(b.items)
            if len(ss) != 1:
                return f'{len(ss)} starts in one restart'
            e, en = ss[0]
            a = [rebuild(x, en) for x in e.args]
            m = configured(a, p) or scaled(F, b, a[1], x0, en)
            if m:
                return m
        n += 1
    return None if n else 'no path'


def peeled(F, extra, L):
    return False


def is_restarts(s):
    return s.op == 'agg' and last(s.a[0]) == 'Range' and constant(s.a[2]) == 0 and is_fld(bare(strip(s.a[3])), 'optimizer_nrestarts')


def configured(args, p):
    def record(a):
        a = bare(a)
        return a.op == 'agg' and 'OptimOptions' in a.a[0] or a.op == 'with' and any(q and q[0][0] == 'f' and q[0][2] == 'f_calls_limit' for q, _ in a.a[1])
    o = next((bare(a) for a in args if record(a)), None)
    if o is None:
        return 'the limits given to the optimiser are not understood'
    for f, name in (('iterations', 'optimizer_iterations'), ('f_calls_limit', 'optimizer_f_calls_limit')):
        v = get(o, f)
        if not is_fld(bare(strip(v)), name):
            return f'the optimiser is given {show(v)[:60]} as its {f}'
    return None


def current(F, p, x):
    """x lists the member's constants in order, as real numbers"""
    x = plain(bare(x))
    for L in loops_in(p):
        if x in (L.accs or ()):
            if not ended(p.facts, L) or not empty_vec(rebuild(L.entries[x], p.env)):
                return False
            s = bare(rebuild(L.src, p.env))
            if not is_consts(s):
                return False
            for b in L.body:
                if impossible(b.facts):
                    continue
                v = values(F, L, b).get(x)
                if v is None or v.op != 'upd' or last(v.a[0]) != 'push' or deref(v.a[3]) is not x or not as_real(v.a[4], s, L):
                    return False
            return True
    return False


def empty_vec(t):
    t = bare(t)
    return is_call(t, 'new', 'with_capacity', 'from_iter', 'collect')


def is_consts(s):
    s = plain(bare(s))
    s = bare(under_upd(s))
    return is_fld(s, 'consts')


def as_real(v, s, L):
    v = core(strip(v))
    if is_call(v, 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'map_or'):
        v = core(v.a[1])
    if is_call(v, 'to_f64', 'into', 'from'):
        v = core(v.a[1])
        return v.op == 'elem' and v.a[1] == L.site
    return num(v) == 0 and v.op == 'const'


def scaled(F, b, x, x0, env):
    """x is x0 with every entry multiplied by 1 + 0.5 * a fresh normal draw"""
    x = bare(x)
    inner = [M for M in b.items if isinstance(M, Loop)]
    for M in inner:
        s = bare(rebuild(M.src, b.env)) if M.src is not None else None
        if s is None:
            continue
        base = plain(bare(under_upd(s)))
        if x in (M.accs or ()):
            # built entry by entry
            if not ended(b.facts, M):
                continue
            if plain(under_upd(s)) is not x0:
                return f'a restart is built from {show(s)[:80]}'
            ok = True
            for q in M.body:
                v = values(F, M, q).get(x)
                if v is None or v.op != 'upd' or last(v.a[0]) != 'push' or not factor(v.a[4], mk('elem', x0, M.site), q):
                    return 'a restart is not the current constants scaled at random'
            return None
        if base is x0 and plain(bare(under_upd(x))) is x0:
            if not ended(b.facts, M):
                return 'only some constants are scaled'
            for q in M.body:
                if q.end != 'back':
                    return 'only some constants are scaled'
                ws = stores(q.items)
                if len(ws) != 1:
                    return f'a constant is changed {len(ws)} times'
                v = rebuild(ws[0][0].value, ws[0][1])
                el = [y for y in terms_of(v) if y.op == 'elem' and y.a[1] == M.site]
                if len(set(el)) != 1 or not factor(v, el[0], q):
                    return 'a restart is not the current constants scaled at random'
            return None
    return f'a restart begins at {show(x)[:80]}'


def factor(v, el, q):
    ds = [y for y in set(terms_of(v)) if is_call(y, 'standard_normal')]
    if len(ds) != 1:
        return False
    own = {deref(e.res) for e, _, en in (it for it in q.items if not isinstance(it, Loop)) if e.k == 'call' and last(e.cn or '') == 'standard_normal'}
    own |= {rebuild(r, q.env) for r in own}
    if ds[0] not in own:
        return False
    return rf(v) == rf(el) * (C(1) + C(Fraction(1, 2)) * rf(ds[0]))


def lem_budget(c):
    """evaluations are counted nowhere else"""
    ad = c.p.adt('EvalBudget')
    fs = {f for f in c.ctx.writers('EvalBudget', 'f_calls')}
    return fs


@rule('P35',
      'Paths and loop summaries on MIR: the objective sets every constant from the trial point, calls the loss once and adds one to the '
      'evaluation count; loop invariants pair each step of the line search with the value taken at the point of that step, and every '
      'accepted pair carries the sufficient-decrease test (compared as rational functions) on its path; invariants pair the point and '
      'value each minimiser returns with one evaluation; iterations are loops over 0..configured number whose every evaluating path '
      'carries the limit test; the driver runs one start from the current constants and one loop over 0..configured restarts, each '
      'from the current constants scaled by 1 + half a fresh normal draw.',
      ['floating-point arithmetic is compared as real arithmetic', 'the random generator is uniform on the ranges it is asked for'])
def p35(c):
    def go(key, f, lem):
        m = run(lem, c, f)
        c.ob(key, m is None, f['id'], m)

    obj = [f for f in c.p.fns.values() if 'ConstObjective' in f['n']]
    for nm, kind in (('f_only', 'loss_only'), ('fg', 'loss_and_grad')):
        fs = [f for f in obj if f['n'].endswith('::' + nm)]
        c.need(len(fs) == 1, f'objective {nm} not found')
        go('objective ' + nm, fs[0], lem_objective(kind))
    go('trial points', c.p.fn('optim::axpy_into'), lem_axpy)
    go('line search', c.p.fn('optim::backtracking_linesearch'), lem_search)
    for nm in ('bfgs_minimize', 'newton_1d_minimize'):
        f = c.p.fn('optim::' + nm)
        go(nm, f, lem_minimiser)
        cl = [x for x in c.p.fns.values() if x['id'].startswith(f['id'] + '::{closure')]
        cl = [x for x in cl if any(last(y) == 'f_only' for y in callee_names(c, x))]
        c.need(len(cl) >= 1, f'{nm}: the function given to the line search is not found')
        for x in cl:
            go(nm + ' trials', x, lem_trial)
    go('one run', [f for f in c.p.fns.values() if f['n'].endswith('::optimize_from_start')][0], lem_dispatch)
    go('starts', c.p.fn('constant_optimization::optimize_constants'), lem_starts)


def callee_names(c, f):
    F = c.ctx.flow(f, ('f_only', 'fg'))
    return [e.cn for _, e in F.events() if e.k == 'call' and e.cn]
