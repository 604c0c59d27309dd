"""P36: what the browser front end reports."""
from sa.core import *
from sa.rulelib import *
from sa.algebra import Unknown, RF, V, A, C, Sum, Sqrt, LoopPaths, LoopEval, over_regions, ACC
from sa.fold import subst
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T, show, const
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, strip, lin, plus, empty, terms_of, rets, run
from rules.simplify import last, accs_of, calls_in, arg_where, impossible, ended, deref, pushed
from rules.choice import num, atoms, loops_in
from rules.browser import bare, nf, results, piece, peel, okpart, fn_named


# ---------------------------------------------------------------- error measures
class RowEval(LoopEval):
    """sums over the rows; branches of an iteration that cannot be decided must agree"""

    def iteration(self, h, sib):
        raise Unknown('several iterations')

    outer = {}

    def __init__(self, *a):
        super().__init__(*a)
        self.pending = {}

    def maybe(self, f):
        try:
            return self.holds(f)
        except Unknown:
            return True

    def ev(self, t):
        if t.op == 'acc':
            ph = ACC[t][0]
            k = self.var(ph)
            if k in self.pending:
                return self.pending[k]
        if t.op == 'fld' and t.a[0].op == 'acc':
            k = (self.var(ACC[t.a[0]][0]), t.a[1:])
            return self.pending[k] if k in self.pending else self.acc(t.a[0], t.a[1:])
        if t.op == 'fld' and t.a[0].op == 'agg' and t.a[2] in t.a[0].a[1]:
            return self(t.a[0].a[2 + t.a[0].a[1].index(t.a[2])])
        if is_call(t, 'sum') and len(t.a) > 1 and isinstance(t.a[1], T):
            vs = {self(v) for v in self.element(t.a[1])}
            if len(vs) != 1:
                raise Unknown('a sum of different things')
            return Sum(vs.pop(), self.n)
        return super().ev(t)

    def element(self, t):
        """what a sequence over the rows yields"""
        t = bare(t)
        if self.name(t):
            return {mk('elem', t, 'row')}
        if is_call(t, 'zip', 'zip_eq'):
            return {mk('agg', 'tuple', ('0', '1'), a, b) for a in self.element(t.a[1]) for b in self.element(t.a[2])}
        if is_call(t, 'map'):
            return {v for a in self.element(t.a[1]) for v in results(self.c, t.a[2], [a])}
        if is_call(t, 'iter', 'copied', 'cloned', 'into_iter'):
            return self.element(t.a[1])
        raise Unknown(f'a sum over {show(t)[:60]}')

    def var(self, ph):
        """the variable and the loop head (all copies of it)"""
        n, k = self.lp.F.phi_key[ph]
        return self.lp.F.n[n].b, k

    def acc(self, t, proj=None):
        ph, entry = ACC[t]
        me = V(f'#acc{t.id}' + (f'.{proj[1]}' if proj else ''))
        k = self.var(ph)
        if proj:
            # one component of a tuple that is carried around
            k = (k, proj)
            entry = mk('fld', entry, *proj)
        self.pending[k] = me
        try:
            v = self.around(t, ph, proj)
        except RecursionError:
            raise Unknown('too deep')
        finally:
            del self.pending[k]
            self.memo.clear()
        if v == me:
            return self(entry)
        g = v - me
        from sa.algebra import KEY
        if any(str(KEY[a]).find(f'#acc{t.id}' + (f'.{proj[1]}' if proj else '') + '\'') >= 0 for q in (g.n, g.d) for m in q for a, _ in m):
            raise Unknown('an accumulator that is not a sum')
        return self(entry) + Sum(g, self.n)

    def around(self, t, ph, proj=None):
        F = self.lp.F
        h = F.phi_key[ph][0]
        sib = self.lp.sib.get(t, {ph: t})
        ways = {}
        for p, fs, env in self.lp.body(h):
            back = dict(F.phi_ops[ph]).get(p[-2]) if p[-1] == h else None
            if back is None:
                # another copy of the loop head: its own accumulator of the same variable
                k = F.phi_key[ph][1]
                back = next((dict(o).get(p[-2]) for q, o in F.phi_ops.items() if F.phi_key[q] == (p[-1], k)), None)
                if back is None:
                    raise Unknown('no value comes back to the loop header')
            ways.setdefault(subst(subst(subst(back, env), sib), self.outer), []).append(fs)
        vals = set()
        for back, fss in ways.items():
            if len(ways) == 1 or any(all(self.maybe(subst(subst(f, sib), self.outer)) for f in fs) for fs in fss):
                vals.add(self(mk('fld', back, *proj) if proj else back))
        if len(vals) != 1 or not all(isinstance(v, RF) for v in vals):
            raise Unknown(f'{len(vals)} ways to go around a loop')
        return vals.pop()


def rows_of(F, D, Y):
    """name of the per-row sequence a term stands for"""
    def name(t):
        t = bare(t)
        while t.op in ('vf',) and t.a[1] == 'Some':
            t = bare(t.a[0])
        if is_call(t, 'unwrap_or', 'unwrap', 'expect', 'unwrap_or_default', 'as_slice', 'to_slice'):
            return name(t.a[1])
        if t is Y:
            return 'yhat'
        if t.op == 'fld' and t.a[0] is D and t.a[2] in ('y', 'weights'):
            return 'y' if t.a[2] == 'y' else 'w'
        if is_call(t, 'iter', 'copied', 'cloned', 'into_iter'):
            return name(t.a[1])
        return None
    return name


def together(t, name):
    t = bare(t)
    if is_call(t, 'zip', 'zip_eq', 'enumerate', 'izip') and len(t.a) >= 2:
        return all(together(x, name) for x in t.a[1:] if isinstance(x, T))
    return name(t) is not None


MEASURES = ('n', 'mse', 'mae', 'rmse', 'r2', 'corr')


def structural(f):
    return f.op in ('is', 'isnt') or is_call(f.a[0] if f.op == 'not' and isinstance(f.a[0], T) else f, 'is_empty')


def lem_metrics(c, fn):
    F = c.ctx.flow(fn, ())
    D = mk_arg(F, arg_where(F, lambda t: 'Dataset' in t))
    Y = mk_arg(F, arg_where(F, lambda t: 'f64' in t and 'Dataset' not in t))
    name = rows_of(F, D, Y)
    lp = LoopPaths(F, 4000)
    allp = [(p, fs, env, v) for p, fs, env, v in lp.paths() if v is not None]
    n = V('n')

    def leaf(t):
        if t.op == 'elem':
            b = name(t.a[0])
            if b:
                return V(b + '[i]')
        if t.op == 'idx' and t.a[1].op in ('elem', 'pos'):
            b = name(t.a[0])
            if b and whole(t.a[1]):
                return V(b + '[i]')
        if (is_call(t, 'len') and together(t.a[1], name)) or t.op == 'len' and together(t.a[0], name):
            return n
        if t.op == 'fld' and t.a[0] is D and t.a[2] == 'n_rows':
            return n
        return None

    def whole(ix):
        s = bare(ix.a[0])
        if s.op == 'agg' and last(s.a[0]) == 'Range':
            return constant(s.a[2]) == 0 and leaf(s.a[3]) == n
        return ix.op == 'pos' and together(s, name)

    def evaluator(r, weighted):
        ev = RowEval(r, leaf, lp, n)
        ev.name, ev.c = name, c
        o = ev.is_

        def is_(t, v):
            b = name(t)
            if b == 'w':
                return (v == 'Some') == weighted
            if b:
                return v == 'Some'
            if t.op == 'next':
                raise Unknown('next')
            return o(t, v)
        ev.is_ = is_
        h = ev.holds

        def holds(f):
            if is_call(f, 'is_empty') and name(f.a[1]):
                return False
            return h(f)
        ev.holds = holds
        return ev

    e = V('yhat[i]') - V('y[i]')
    y, yh, w = V('y[i]'), V('yhat[i]'), V('w[i]')

    def expected(r, what, weighted):
        W = w if weighted else C(1)
        tot = Sum(W, n)
        ab = e if r.sign(e) > 0 else -e
        if weighted and r.sign(tot) < 0:
            return None
        if what == 'n':
            return n
        if what == 'mse':
            return Sum(W * e * e, n) / tot
        if what == 'mae':
            return Sum(W * ab, n) / tot
        if what == 'rmse':
            return Sqrt(Sum(W * e * e, n) / tot)
        if what == 'r2':
            ym = Sum(W * y, n) / tot
            sst = Sum(W * (y - ym) * (y - ym), n)
            if r.sign(sst) < 0:
                return None
            return C(1) - Sum(W * e * e, n) / sst
        if what == 'corr':
            my, mh = Sum(y, n) / n, Sum(yh, n) / n
            vy, vh = Sum((y - my) * (y - my), n), Sum((yh - mh) * (yh - mh), n)
            if r.sign(vy) < 0 or r.sign(vh) < 0:
                return None
            return Sum((yh - mh) * (y - my), n) / (Sqrt(vy) * Sqrt(vh))
    done = 0
    for weighted in (False, True):
        ev0 = evaluator(None, weighted)
        envs, groups = {}, {}
        for p, fs, env, v in allp:
            if any(structural(f) and not ev0.maybe(f) for f in fs):
                continue
            if v.op != 'agg':
                raise Unknown(f'returns {show(v)[:60]}')
            key = tuple(sorted((k.id, x.id) for k, x in env.items()))
            envs[key] = env
            for what in MEASURES:
                if what not in v.a[1]:
                    raise Unknown(f'does not report {what}')
                groups.setdefault(what, {}).setdefault((v.a[2 + v.a[1].index(what)], key), []).append(fs)
        for what in MEASURES:
            def chk(r):
                s = expected(r, what, weighted)
                if s is None:
                    return None
                ev = evaluator(r, weighted)
                got = set()
                for (v, env), fss in groups[what].items():
                    ev.outer = env = envs[env]
                    ev.memo.clear()
                    if len(groups[what]) == 1 or any(all(ev.maybe(f) for f in fs) for fs in fss):
                        ev.memo.clear()
                        got.add(ev(v))
                if not got:
                    raise Unknown('no path applies')
                for g in got:
                    g = g if isinstance(g, RF) else C(g)
                    if (g - s).n and not (what == 'corr' and not (g * g - s * s).n and (g + s).n):
                        return f'{what} is {g}, expected {s}'
                return None
            for r, m in over_regions(chk, ('n',)):
                done += 1
                if m:
                    return ('weighted ' if weighted else '') + m[:300]
    c.note(f'error measures compared in {done} regions')
    return None


def lem_extremes(c, fn):
    F = c.ctx.flow(fn, ())
    D = mk_arg(F, arg_where(F, lambda t: 'Dataset' in t))
    Y = mk_arg(F, arg_where(F, lambda t: 'f64' in t and 'Dataset' not in t))
    name = rows_of(F, D, Y)
    seen = set()
    for p in rets(F):
        if impossible(p.facts):
            continue
        if any(f.op == 'is' and f.a[1] == 'None' and name(f.a[0]) in ('y', 'yhat') for f in (rebuild(f, p.env) for f in p.facts)):
            continue                     # data is contiguous
        r = rebuild(p.ret, p.env)
        for which in ('min_abs_err', 'max_abs_err'):
            t = r.a[2 + r.a[1].index(which)]
            k = which[:3]
            while is_call(t, 'unwrap_or', 'min', 'max') and len(t.a) > 2:
                t = t.a[1]
            if constant(t) == 0 or num(t) == 0:
                # no finite error was seen
                ph = [f for f in p.facts if f.op == 'not' and is_call(f.a[0], 'is_finite') or is_call(f, 'is_infinite')]
                if k == 'max' or not ph:
                    return f'{which} is 0'
                t = (ph[0].a[0] if ph[0].op == 'not' else ph[0]).a[1]
            if t.op != 'phi':
                return f'{which} is {show(t)[:80]}'
            m = extreme(F, p, t, k, name)
            if m:
                return f'{which}: {m}'
            seen.add(k)
    return None if seen == {'min', 'max'} else 'an extreme error is not reported'


def signed(f, d, neg):
    """the fact makes d (or -d) non-negative"""
    inv = f.op == 'not'
    f = f.a[0] if inv else f
    if f.op not in ('lt', 'le') or not any(num(x) == 0 for x in f.a[:2] if isinstance(x, T)):
        return False
    if num(f.a[1]) == 0 and f.a[0] is d:
        return neg != inv
    return num(f.a[0]) == 0 and f.a[1] is d and neg == inv


def extreme(F, p, t, k, name):
    def residual(x, fs=()):
        x = strip(x)
        d = x.a[1] if is_call(x, 'abs') else None
        if d is None:
            d, neg = (x.a[0], True) if x.op == 'Neg' else (x, False)
            if not any(signed(f, d, neg) for f in fs):
                return False
        if d.op != 'Sub' and not is_call(d, 'sub'):
            return False
        a, b = (d.a[0], d.a[1]) if d.op == 'Sub' else (d.a[1], d.a[2])
        q = []
        for z in (a, b):
            z = deref(z)
            if z.op not in ('elem', 'idx'):
                return False
            q.append(name(z.a[0]))
        return sorted(map(str, q)) == ['y', 'yhat']
    for L in loops_in(p):
        if t not in (L.accs or ()):
            continue
        if not ended(p.facts, L):
            return 'the rows are not all looked at'
        e0 = L.entries[t]
        v0 = str(e0.a[0]) if e0.op == 'const' else show(e0)
        if k == 'min' and not ('inf' in v0.lower() or 'MAX' in v0):
            return f'starts at {v0[:40]}'
        if k == 'max' and num(e0) is None and 'inf' not in v0.lower() or k == 'max' and (num(e0) or 0) > 0:
            return f'starts at {v0[:40]}'
        for b in L.body:
            if impossible(b.facts):
                continue
            v = accs_of(F, L, b).get(t, t)
            fs = atoms(tuple(rebuild(f, b.env) for f in b.facts))
            if is_call(v, k) and any(x is t for x in v.a[1:]) and any(isinstance(x, T) and residual(x, fs) for x in v.a[1:]):
                continue
            up = v is not t
            if up and not residual(v, fs):
                return f'becomes {show(v)[:60]}'
            ok = False
            for f in fs:
                g, inv = (f.a[0], True) if f.op == 'not' else (f, False)
                if g.op not in ('lt', 'le'):
                    continue
                x, y = g.a[0], g.a[1]
                # better: residual < t (min) / t < residual (max)
                if residual(x, fs) and y is t:
                    less = not inv
                elif x is t and residual(y, fs):
                    less = inv
                else:
                    continue
                ok = ok or (less == (k == 'min')) == up
            if not ok:
                return 'a row is taken or passed over for another reason'
        return None
    return f'{show(t)[:60]} is not gathered over the rows'


# ---------------------------------------------------------------- evaluation of a member
def eng(t, *names):
    """t is self.engine.<names>"""
    t = bare(t)
    for n in reversed(names):
        if not is_fld(t, n):
            return False
        t = bare(t.a[0])
        while t.op == 'fld' and not is_fld(t, 'engine'):
            t = bare(t.a[0])             # parts of the engine
    return is_fld(t, 'engine') and bare(t.a[0]).op == 'arg'


def lem_member(c, fn, metrics):
    EV = 'eval_plan_array_into'
    F = c.ctx.flow(fn, (EV, metrics['id'].split('::')[-1]))
    idp, wh = [mk_arg(F, k) for k in range(1, F.f.argc + 1) if 'String' in F.f.locals[k]['ty'] or 'str' in F.f.locals[k]['ty']][:2]
    good = missing = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        fs = atoms(tuple(rebuild(f, p.env) for f in p.facts))
        r = rebuild(p.ret, p.env)
        if any(x.op == 'agg' and last(x.a[0]) == 'WasmEvalResult' for x in terms_of(r)):
            res = [x for x in terms_of(r) if x.op == 'agg' and last(x.a[0]) == 'WasmEvalResult'][0]
            g = lambda n: deref(res.a[2 + res.a[1].index(n)])
            yh, me = g('yhat'), g('metrics')
            if not (yh.op == 'upd' and last(yh.a[0]) == EV):
                return f'the predictions are {show(yh)[:80]}'
            call = [e for e in terms_of(mk('agg', '', (), *[f for f in fs])) if is_call(e, EV)]
            a = [x for x in yh.a[3:]]
            base, plan, expr, X = a[0], a[1], a[2], bare(a[3])
            if not is_fld(X, 'x'):
                return f'the expression is evaluated on {show(X)[:80]}'
            D = bare(X.a[0])
            if not (is_call(base, 'from_elem') and len(base.a) >= 3 and (is_fld(strip(base.a[2]), 'n_rows') or is_call(strip(base.a[2]), 'len'))):
                return f'predictions are stored in {show(base)[:60]}'
            nr = strip(base.a[2])
            if bare(nr.a[0] if nr.op == 'fld' else bare(nr.a[1]).a[0]) is not D:
                return 'predictions are not one per row of the data'
            if not (is_fld(plan, 'plan') and is_fld(expr, 'expr') and bare(plan.a[0]) is bare(expr.a[0])):
                return 'plan and expression belong to different members'
            M = bare(plan.a[0])
            if not (me.op == 'call' and last(me.a[0]) == metrics['id'].split('::')[-1] and {bare(x) for x in me.a[1:] if isinstance(x, T)} == {D, bare(yh)}):
                return f'the measures are {show(me)[:80]}'
            if not any(is_call(f, EV) for f in fs):
                return 'a failed evaluation is reported as a result'
            which = None
            for f in fs:
                if f.op == 'eq' and wh in [bare(x) for x in f.a[:2] if isinstance(x, T)]:
                    o = [x for x in f.a[:2] if isinstance(x, T) and bare(x) is not wh]
                    which = str(o[0].a[0]).strip('"') if o and o[0].op == 'const' else None
            if which == 'train':
                if not eng(D, 'dataset'):
                    return f'"train" evaluates on {show(D)[:80]}'
            elif which == 'val':
                if not (D.op == 'vf' and D.a[1] == 'Some' and is_fld(bare(D.a[0]), 'val_dataset')):
                    return f'"val" evaluates on {show(D)[:80]}'
            else:
                return f'{which} data is evaluated'
            if not any(f.op == 'eq' and len(f.a) > 1 and isid(f.a[0], M, f.a[1], idp) for f in fs):
                return f'the evaluated member {show(M)[:80]} need not have the given id'
            good += 1
        elif any(is_call(f, EV) or f.op == 'not' and is_call(f.a[0], EV) for f in fs):
            continue
        elif any(f.op == 'is' and f.a[1] == 'Err' for f in fs):
            continue
        elif any(f.op == 'is' and f.a[1] == 'None' and is_fld(bare(f.a[0]), 'val_dataset') for f in fs):
            continue
        elif sum(f.op == 'ne' and wh in [bare(x) for x in f.a[:2] if isinstance(x, T)] for f in fs) >= 2:
            continue
        else:
            # not found: no member of the hall and not the best
            if not any(f.op == 'ne' and (isid(f.a[0], None, f.a[1], idp, 'best')) for f in fs) and not any(
                    ended(p.facts, L) and L.src is not None and any(is_call(x, 'chain') and any(is_call(bare(y), 'once') and eng(bare(y).a[1], 'best') for y in x.a[1:] if isinstance(y, T))
                                                                    for x in terms_of(L.src)) for L in loops_in(p)):
                return 'the best member is not found'
            ok = False
            for L in loops_in(p):
                if L.src is not None and 'best_by_complexity' in show(L.src) and ended(p.facts, L):
                    ok = all(any(f.op == 'ne' and isid(f.a[0], bare(mk('elem', bare(L.src), L.site)), f.a[1], idp) for f in
                                 atoms(tuple(rebuild(f, b.env) for f in b.facts))) or
                             any(f.op == 'is' and f.a[1] == 'None' for f in b.facts) for b in L.body if not impossible(b.facts))
            if not ok:
                return 'a member of the hall of fame is not found'
            missing += 1
    return None if good >= 2 and missing else 'members are not looked up'


def isid(a, M, b, idp, kind=None):
    """a and b are the parsed id and the member's id"""
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and isinstance(y, T):
            x, y = strip(x), strip(y)
            if y.op == 'vf' and y.a[1] == 'Ok' and is_call(y.a[0], 'parse') and bare(y.a[0].a[1]) is idp:
                z = x
                while z.op == 'fld' and str(z.a[2]) in ('0', 'id'):
                    z = bare(z.a[0])
                if z is x:
                    continue
                if kind == 'best':
                    return eng(z, 'best')
                if z is M:
                    return True
    return False


# ---------------------------------------------------------------- fronts and summaries
def same_member(agg, M, engine, names):
    """every field of the summary comes from the member M"""
    M = bare(M)
    for n, v in zip(agg.a[1], agg.a[2:]):
        v = bare(v)
        if n == 'id':
            v = displayed(v)
            ok = is_fld(v, '0') and is_fld(bare(v.a[0]), 'id') and bare(bare(v.a[0]).a[0]) is M or is_fld(v, 'id') and bare(v.a[0]) is M
        elif n == 'equation':
            ok = is_call(v, 'string_tree') and is_fld(bare(v.a[1]), 'expr') and bare(bare(v.a[1]).a[0]) is M and naming(v.a[2], engine)
        else:
            ok = is_fld(v, n) and bare(v.a[0]) is M
        if not ok:
            return f'{n} is {show(v)[:100]}'
    return None


def displayed(v):
    """what a text shows, when it shows just one value"""
    while True:
        v = bare(v)
        if is_call(v, 'to_string', 'format', 'must_use', 'from') and len(v.a) >= 2:
            v = v.a[1]
        elif is_call(v, 'new') and 'Arguments' in v.a[0] and len(v.a) >= 3 and v.a[1].op == 'const' and v.a[1].a[0] == 'b"\\xc0\\x00"':
            a = deref(v.a[2])
            if a.op != 'agg' or len(a.a) != 3 or not is_call(deref(a.a[2]), 'new_display'):
                return v
            v = deref(a.a[2]).a[1]
        else:
            return v


def owner(t):
    """the record a field belongs to"""
    t = bare(t)
    while t.op == 'fld' and not is_fld(t, 'engine'):
        t = bare(t.a[0])
    return t


def naming(o, engine):
    o = deref(o)
    if o.op != 'agg' or 'variable_names' not in o.a[1]:
        return False
    v = deref(o.a[2 + o.a[1].index('variable_names')])
    if v.op == 'agg' and last(v.a[0]) == 'Some':
        v = bare(v.a[2])
    return is_fld(v, 'variable_names') and is_fld(bare(v.a[0]), 'dataset') and owner(v.a[0]) is engine


def topk(p, fs, src, k, front):
    """the last k of the front, all of them when there are fewer"""
    b, lo, hi = piece(src)
    if not front(b):
        return f'members come from {show(b)[:80]}'
    if hi is not None:
        return 'the front is cut at the accurate end'
    n = mk('len', bare(b))
    n2 = [x for x in terms_of(src) | {y for f in fs for y in terms_of(f)} if (is_call(x, 'len') and bare(x.a[1]) is bare(b)) or (x.op == 'len' and bare(x.a[0]) is bare(b))]
    k = bare(k)

    def is_n(t):
        return t in n2 or t is n
    if lo == {}:
        for f in fs:
            if f.op in ('le', 'lt') and is_n(strip(f.a[0])) and bare(f.a[1]) is k:
                return None
        return 'more than the wanted number are reported'
    if len(lo) == 1:
        (t, w), = lo.items()
        if w == 1 and isinstance(t, T) and is_call(t, 'saturating_sub') and is_n(strip(t.a[1])) and bare(t.a[2]) is k:
            return None
    if len(lo) == 2 and all(isinstance(t, T) for t in lo):
        pos = [t for t, w in lo.items() if w == 1]
        ng = [t for t, w in lo.items() if w == -1]
        if len(pos) == 1 and len(ng) == 1 and is_n(pos[0]) and bare(ng[0]) is k:
            for f in fs:
                if f.op in ('le', 'lt') and bare(f.a[0]) is k and is_n(strip(f.a[1])):
                    return None
    return f'the reported part starts at {[(show(t)[:50] if isinstance(t, T) else t, w) for t, w in lo.items()]}'


def points(F, p, fs, t, k, engine, front):
    t = deref(t)
    from rules.browser import bare as _b
    if t.op == 'phi':
        for L in loops_in(p):
            if t in (L.accs or ()) and empty(L.entries[t]) and ended(p.facts, L):
                m = topk(p, fs, L.src, k, front)
                if m:
                    return m
                for b in L.body:
                    if impossible(b.facts):
                        continue
                    base, v = pushed(accs_of(F, L, b).get(t, t))
                    v = rebuild(v, b.env) if base is t else v
                    if base is not t:
                        return 'a member of the front is left out'
                    el = [x for x in terms_of(v) if x.op == 'elem' and x.a[1] == L.site]
                    if v.op != 'agg' or not el:
                        return f'reports {show(v)[:80]}'
                    m = same_member(v, el[0], engine, None)
                    if m:
                        return m
                return None
    return f'the front is reported as {show(t)[:80]}'


def reported(r):
    """what is handed to the page"""
    xs = [x for x in terms_of(r) if is_call(x, 'to_value')]
    return deref(xs[0].a[1]) if xs else None


def lem_best(c, fn):
    F = c.ctx.flow(fn, ('pareto_front', 'string_tree'))
    S, k = mk_arg(F, 1), mk_arg(F, arg_where(F, lambda t: t == 'usize'))
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = rebuild(p.ret, p.env)
        v = reported(r)
        if v is None:
            return f'returns {show(r)[:80]}'
        fs = atoms(tuple(rebuild(f, p.env) for f in p.facts))
        E = mk('fld', S, [x.a[1] for f in fs | {r} for x in terms_of(f) if is_fld(x, 'engine')][0], 'engine')
        m = points(F, p, fs, v, k, E, lambda b: is_call(b, 'pareto_front') and is_fld(bare(b.a[1]), 'hall') and owner(b.a[1]) is E)
        if m:
            return m
        n += 1
    return None if n else 'no equations are reported'


def lem_step(c, fn):
    F = c.ctx.flow(fn, ('SearchEngine::step', 'pareto_front', 'string_tree'))
    S, k = mk_arg(F, 1), mk_arg(F, arg_where(F, lambda t: t == 'usize'))
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = rebuild(p.ret, p.env)
        v = reported(r)
        if v is None or v.op != 'agg':
            return f'returns {show(r)[:80]}'
        fs = atoms(tuple(rebuild(f, p.env) for f in p.facts))
        g = dict(zip(v.a[1], v.a[2:]))
        b = deref(g['best'])
        if b.op != 'agg':
            return f'the best member is {show(b)[:60]}'
        cx = bare(b.a[2 + b.a[1].index('complexity')])
        if not (is_fld(cx, 'complexity') and is_fld(bare(cx.a[0]), 'best')):
            return f'the best member is {show(cx)[:80]}'
        M = bare(cx.a[0])
        E = owner(M)
        if not (E.op == 'upd' and last(E.a[0]) == 'step' and is_fld(bare(E.a[3]), 'engine') and bare(E.a[4]) is k):
            return f'the report is made from {show(E)[:80]}'
        m = same_member(b, M, E, None)
        if m:
            return 'best: ' + m
        for nm, alias in (('total_cycles', ('total_cycles',)), ('cycles_completed', ('cycles_completed', 'cycles_started')), ('total_evals', ('total_evals', 'total_num_evals'))):
            t = bare(g[nm])
            if not (t.op == 'fld' and t.a[2] in alias and owner(t) is E):
                return f'{nm} is {show(t)[:80]}'
        K = [x for x in terms_of(mk('agg', '', (), *fs)) | terms_of(v) if is_fld(x, 'pareto_k') and bare(x.a[0]) is S]
        if not K:
            return 'the size of the front is not limited'
        m = points(F, p, fs, g['pareto_points'], K[0], E, lambda b: is_call(b, 'pareto_front') and is_fld(bare(b.a[1]), 'hall') and owner(b.a[1]) is E)
        if m:
            return m
        n += 1
    return None if n else 'nothing is reported'


@rule('P36', 'error measures summed symbolically over the rows of the loops of the function that fills the measures record, compared with their formulas in every sign region; '
      'member look-up, evaluation and front reports read path by path over MIR', [
    'real arithmetic, at least one row, positive total weight, contiguous data (rule P25)', 'degenerate cases with zero variance are not compared',
    'pareto_front lists the front from simple to accurate (rule P04)'])
def p36(c):
    ctor = c.ctx.constructors('WasmMetrics')
    ctor = [f for f in ctor if f.split('::')[-1] not in ('clone', 'deserialize', 'visit_map', 'visit_seq', 'default')]
    c.need(len(ctor) == 1, f'{len(ctor)} functions fill the measures record')
    f = c.p.fns[ctor[0]]
    for key, lem in (('measures', lem_metrics), ('extremes', lem_extremes)):
        m = guarded(lem, c, f)
        c.ob(key, m is None, f['id'], m)
    for key, suf, lem, extra in (('member', 'evaluate_member', lem_member, (f,)), ('best', 'best_equations', lem_best, ()), ('step', 'WasmSearch::step', lem_step, ())):
        g = wasm_method(c, suf)
        m = guarded(lem, c, g, *extra)
        c.ob(key, m is None, g['id'], m)


def wasm_method(c, suf):
    n = suf.split('::')[-1]
    xs = [f for f in c.p.fns.values() if f['id'].startswith('symbolic_regression_wasm::') and f['id'].split('::')[-1] == n and '{impl' in f['id']
          and 'closure' not in f['id'] and 'WasmSearch' in str(f.get('locals', [{}, {}])[1].get('ty', ''))]
    if len(xs) != 1:
        raise Missing(f'{len(xs)} functions named {n}')
    return xs[0]


def guarded(lem, *a):
    try:
        return run(lem, *a)
    except Unknown as e:
        return f'formula not decided: {e}'
