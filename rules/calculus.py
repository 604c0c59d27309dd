"""Built-in operators and losses: named formulas and their derivatives."""
from sa.core import *
from sa.rulelib import *
from sa.algebra import *
from sa import algebra as alg
from sa.term import mk, T
from rules import rule


def spec_clamp(r, x, lo, hi):
    if r.sign(hi - lo) < 0:
        return None
    if r.sign(x - lo) < 0:
        return lo
    return hi if r.sign(hi - x) < 0 else x


SPEC = {
    'cos': lambda r, x: Cos(x), 'sin': lambda r, x: Sin(x), 'tan': lambda r, x: Sin(x) / Cos(x),
    'asin': lambda r, x: Asin(x), 'acos': lambda r, x: UN['acos'](x), 'atan': lambda r, x: Atan(x),
    'sinh': lambda r, x: Sinh(x), 'cosh': lambda r, x: Cosh(x), 'tanh': lambda r, x: Sinh(x) / Cosh(x),
    'asinh': lambda r, x: UN['asinh'](x), 'acosh': lambda r, x: UN['acosh'](x), 'atanh': lambda r, x: UN['atanh'](x),
    'sec': lambda r, x: C(1) / Cos(x), 'csc': lambda r, x: C(1) / Sin(x), 'cot': lambda r, x: Cos(x) / Sin(x),
    'exp': lambda r, x: Exp(x), 'log': lambda r, x: Ln(x), 'ln': lambda r, x: Ln(x),
    'log2': lambda r, x: Ln(x) / Ln(C(2)), 'log10': lambda r, x: Ln(x) / Ln(C(10)),
    'log1p': lambda r, x: Ln(C(1) + x), 'exp2': lambda r, x: Exp(x * Ln(C(2))), 'expm1': lambda r, x: Exp(x) - C(1),
    'sqrt': lambda r, x: Sqrt(x), 'cbrt': lambda r, x: Cbrt(x),
    'abs': lambda r, x: x if r.sign(x) > 0 else -x, 'abs2': lambda r, x: x * x, 'inv': lambda r, x: C(1) / x,
    'sign': lambda r, x: C(r.sign(x)), 'identity': lambda r, x: x, 'neg': lambda r, x: -x,
    'add': lambda r, x, y: x + y, 'sub': lambda r, x, y: x - y, 'mul': lambda r, x, y: x * y,
    'div': lambda r, x, y: x / y, 'pow': lambda r, x, y: Pow(x, y), 'atan2': lambda r, y, x: A('atan2', y, x),
    'min': lambda r, x, y: x if r.sign(x - y) < 0 else y, 'max': lambda r, x, y: y if r.sign(x - y) < 0 else x,
    'fma': lambda r, x, y, z: x * y + z, 'clamp': spec_clamp,
}
INFIX = {('+', 2): 'add', ('-', 2): 'sub', ('*', 2): 'mul', ('/', 2): 'div', ('-', 1): 'neg', ('+', 1): 'identity',
         ('^', 2): 'pow', ('**', 2): 'pow'}


def arg_leaf(F, xs, idx=None):
    A1, A2 = arg(F, 1), arg(F, 2)

    def leaf(t):
        if t is A2 and idx is not None:
            return idx
        if t.op == 'const' and isinstance(t.a[0], int) and not isinstance(t.a[0], bool) and len(t.a) > 1 and t.a[1] in ('usize', 'i32', 'u8'):
            return None
        k = position(t, A1, A2, idx)
        if k is not None and 0 <= k < len(xs):
            return xs[k]
        return None
    return leaf


def int_of(t, A2, idx):
    """integer value of an index expression over the argument index"""
    if t is A2:
        return idx
    if t.op == 'const':
        try:
            return int(t.a[0])
        except ValueError:
            return None
    if t.op == 'cast':
        return int_of(t.a[0], A2, idx)
    if t.op == 'bin' or t.op in ('Add', 'Sub', 'Mul', 'Rem'):
        o = t.a[0] if t.op == 'bin' else t.op
        a, b = [int_of(x, A2, idx) for x in (t.a[1:3] if t.op == 'bin' else t.a[:2])]
        if a is None or b is None:
            return None
        return {'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'Rem': a % b if b else None}.get(o)
    return None


def position(t, base, A2=None, idx=None):
    """index of an element of the array argument"""
    if t.op == 'idx' and strip(t.a[0]) is base:
        return int_of(t.a[1], A2, idx)
    if t.op == 'fld' and strip(t.a[0]) is base and str(t.a[2]).isdigit():
        return int(t.a[2])
    return None


def strip(t):
    while t.op in ('ref', 'refm') and isinstance(t.a[0], T) and not t.a[1]:
        t = t.a[0]
    return t


def arg(F, k):
    from rules.engine import mk_arg
    return mk_arg(F, k)


def constant(c, items, name):
    """value term of an associated constant of the impl"""
    f = items.get(name)
    if f is None:
        return None
    rs = {v for _, v in c.ctx.flow(f, ()).returns()}
    return rs.pop() if len(rs) == 1 else None


def string(t):
    if t is None:
        return None
    if t.op == 'agg' and t.a[0].endswith('::Some'):
        return string(t.a[2])
    if t.op == 'const':
        return str(t.a[0]).strip('"')
    return None


def truth(t):
    return t is not None and t.op == 'const' and str(t.a[0]) in ('1', 'true', 'True')


def settle(c, key, where, fn, positive=(), what=''):
    """run fn(region) -> None (fine) or a message, over all regions"""
    n = 0
    try:
        for r, m in over_regions(fn, positive):
            n += 1
            if m:
                c.fail(key, where, f'{m} [{r}]')
                return n
    except Unknown as e:
        c.fail(key, where, f'formula not decided: {e}')
        return n
    c.ob(key, True, where, f'{what}: {n} regions')
    return n


@rule('P30', 'Value and partial derivatives of every built-in operator are taken from the bodies of its eval and '
             'partial functions, path by path, put in normal form (rational functions over elementary atoms, split by the '
             'sign of every difference a comparison looks at) and compared: eval with the function the operator\'s name '
             'denotes, partial(k) with the chain-rule derivative of eval in argument k, swapped and regrouped arguments '
             'where commutativity or associativity is declared.',
      ['real arithmetic: rounding, overflow and NaN propagation are not modelled',
       'measure-zero sets (ties between arguments, kinks) are not compared'])
def p30(c):
    n = 0
    names = {}
    for im in c.p.impls:
        if not im.get('trait', '').endswith('traits::Operator') or im['crate'] != 'dynamic_expressions':
            continue
        items = {i.split('::')[-1]: c.p.fns[i] for i in im['items'] if i in c.p.fns}
        ev, pa = items.get('eval'), items.get('partial')
        c.need(ev is not None and pa is not None, f'operator {im["self"]} without eval or partial body')
        ty = im['self'].split('::')[-1]
        ar = int(im['tref'].rstrip('>').split(',')[-1])
        n += 1
        w = f'{im["s"][0]}:{im["s"][1]}'
        E, P = c.ctx.flow(ev, ()), c.ctx.flow(pa, ())
        xs = [V(f'x{k}') for k in range(ar)]
        try:
            EP, PP = retpaths(E), retpaths(P)
        except Unknown as e:
            c.fail(f'formula:{ty}', w, f'formula not decided: {e}')
            continue
        el = arg_leaf(E, xs)

        def ev_at(r, ys):
            return value(EP, r, arg_leaf(E, ys))
        name = string(constant(c, items, 'NAME'))
        infix = constant(c, items, 'INFIX')
        infix = string(infix) if infix is not None and infix.op == 'agg' and infix.a[0].endswith('::Some') else None
        c.need(name is not None, f'the name of {ty} is not a constant')
        c.ob(f'name-unique:{name}/{ar}', (name, ar) not in names, w, f'operators {names.get((name, ar))} and {ty} share the name {name}')
        names[(name, ar)] = ty
        if infix is not None:
            c.ob(f'infix:{ty}', INFIX.get((infix, ar), name) == name, w, f'{ty} (named {name}) is written {infix}')
        if name in SPEC:
            def chk(r):
                v = ev_at(r, xs)
                s = SPEC[name](r, *xs)
                if s is None:
                    return None
                if v is None:
                    return 'eval does not return'
                return None if not (v - s).n else f'{name} evaluates to {v}, expected {s}'
            try:
                settle(c, f'value:{ty}', w, chk, what=f'{name} computes its function')
            except TypeError:
                c.fail(f'value:{ty}', w, f'{name} has {ar} arguments')
        else:
            c.note(f'operator {name} has no named formula; only its derivatives are compared')
        for k in range(ar):
            def chk(r):
                v = ev_at(r, xs)
                if v is None:
                    return 'eval does not return'
                p = value(PP, r, arg_leaf(P, xs, k))
                if p is None:
                    return f'the partial derivative in argument {k} does not return'
                d = diff(v, f'x{k}')
                return None if not (d - p).n else f'd {name}/d arg{k} is {d}, the code returns {p}'
            settle(c, f'partial:{ty}:{k}', w, chk, what=f'derivative of {name} in argument {k}')
        if truth(constant(c, items, 'COMMUTATIVE')):
            def chk(r):
                if ar < 2:
                    return None
                a, b = ev_at(r, xs), ev_at(r, [xs[1], xs[0]] + xs[2:])
                return None if not (a - b).n else f'{name} is declared commutative: {a} against {b}'
            settle(c, f'commutative:{ty}', w, chk, what=f'{name} commutes')
        if truth(constant(c, items, 'ASSOCIATIVE')):
            def chk(r):
                if ar != 2:
                    return f'{name} with {ar} arguments is declared associative'
                x, y, z = V('x0'), V('x1'), V('x2')
                a, b = ev_at(r, [ev_at(r, [x, y]), z]), ev_at(r, [x, ev_at(r, [y, z])])
                return None if not (a - b).n else f'{name} is declared associative: {a} against {b}'
            settle(c, f'associative:{ty}', w, chk, what=f'{name} associates')
    c.floor('built-in operators', n, 40)


# ---------------------------------------------------------------- losses
def field_params(F):
    """leaf naming the fields of self"""
    A1 = arg(F, 1)

    def leaf(t):
        if t.op == 'fld' and strip(t.a[0]) is A1:
            return V(str(t.a[2]))
        return None
    return leaf


def point_formula(c, ty, meth, params=None):
    """fn(region, yhat, y) -> RF of a pointwise loss method; params: field -> RF"""
    f = impl_method(c, ty, 'PointwiseLoss', meth)
    F = c.ctx.flow(f, ())
    ps = retpaths(F)
    A1, A2, A3 = arg(F, 1), arg(F, 2), arg(F, 3)

    def at(r, yh, y):
        def leaf(t):
            if t is A2:
                return yh
            if t is A3:
                return y
            if t.op == 'fld' and strip(t.a[0]) is A1:
                k = str(t.a[2])
                return (params or {}).get(k, V(k))
            return None
        return value(ps, r, leaf)
    return at


def impl_of(c, ty, trait):
    r = [im for im in c.p.impls if im.get('trait', '').endswith(trait) and strip_generics(im['self']).split('::')[-1] == ty and im['crate'] == 'symbolic_regression']
    c.need(len(r) == 1, f'{len(r)} implementations of {trait} for {ty}')
    return r[0]


def impl_method(c, ty, trait, meth):
    im = impl_of(c, ty, trait)
    for i in im['items']:
        if i.split('::')[-1] == meth and i in c.p.fns:
            return c.p.fns[i]
    raise Missing(f'{ty} has no {meth}')


def row_leaf(c, F, sub, weighted, self_leaf=None):
    """names the per-row inputs of a LossFn method: sub maps parameter terms to row names"""
    def base_of(t):
        t = strip(t)
        if t in sub:
            return sub[t]
        if t.op == 'vf' and t.a[1] == 'Some' and strip(t.a[0]) in sub:
            return sub[strip(t.a[0])]
        return None

    def full_range(t):
        from rules.exchange import range_len
        return t.op == 'call' or t.op == 'agg'

    def leaf(t):
        if t.op == 'elem':
            b = base_of(t.a[0])
            if b is not None:
                return V(b + '[i]')
        if t.op == 'idx':
            b = base_of(t.a[0])
            if b is not None and is_row_index(t.a[1], base_of):
                return V(b + '[i]')
        if is_call(t, 'len') and base_of(t.a[1]) is not None:
            return V('n')
        if is_call(t, 'len') and zip_of(t.a[1], base_of):
            return V('n')
        if self_leaf is not None:
            return self_leaf(t)
        return None
    leaf.base_of = base_of
    return leaf


def zip_of(t, base_of):
    t = strip(t)
    if t.op == 'call' and t.a[0].split('::')[-1] in ('zip', 'zip_eq', 'iter', 'iter_mut', 'copied', 'cloned', 'into_iter', 'enumerate'):
        return all(zip_of(x, base_of) for x in t.a[1:] if isinstance(x, T))
    return base_of(t) is not None


def is_row_index(t, base_of):
    """position of an element of a loop over 0..len of a row array, or of enumerate"""
    if t.op == 'fld' and str(t.a[2]) == '0' and t.a[0].op == 'elem':
        s = t.a[0].a[0]
        return is_call(s, 'enumerate') and zip_of(s.a[1], base_of)
    if t.op == 'elem':
        s = strip(t.a[0])
        if s.op == 'agg' and s.a[0].endswith('Range') and len(s.a) == 4:
            lo, hi = s.a[2], s.a[3]
            return lo.op == 'const' and str(lo.a[0]) == '0' and is_call(hi, 'len') and zip_of(hi.a[1], base_of)
    return False


class LossModel:
    """formula of a LossFn implementation for given rows"""

    def __init__(self, c, ty):
        self.c, self.ty = c, ty
        self.loss_fn = impl_method(c, ty, 'LossFn', 'loss')
        self.grad_fn = impl_method(c, ty, 'LossFn', 'dloss_dyhat')
        self.lp = {}

    def lps(self, which):
        if which not in self.lp:
            F = self.c.ctx.flow(self.loss_fn if which == 'loss' else self.grad_fn, ())
            self.lp[which] = (F, LoopPaths(F))
            self.lp[which][1].all = self.lp[which][1].paths()
        return self.lp[which]

    def evaluator(self, r, which, weighted, inner=None):
        F, lp = self.lps(which)
        A = {k: arg(F, k) for k in range(1, 6)}
        sub = {A[2]: 'yhat', A[3]: 'y', A[4]: 'w'}
        if which == 'grad':
            sub[A[5]] = 'out'
        model = self

        def extra(t):
            if t.op == 'call' and t.a[0].split('::')[-1] in ('point_loss', 'point_dloss_dyhat'):
                recv = strip(t.a[1])
                ok = recv.op == 'fld' and strip(recv.a[0]) is A[1]
                a, b = ev(t.a[2]), ev(t.a[3])
                if recv.op == 'agg' and '::' in recv.a[0]:
                    par = {nm: ev(x) for nm, x in zip(recv.a[1], recv.a[2:])}
                    return point_formula(model.c, recv.a[0].split('::')[-1], t.a[0].split('::')[-1], par)(r, a, b)
                if not ok:
                    raise Unknown(f'loss of another object: {show(recv)[:60]}')
                m = t.a[0].split('::')[-1]
                if inner is not None:
                    return inner[m](r, a, b)
                return A_('opaque', 'dpl' if m == 'point_dloss_dyhat' else 'pl', a, b)
            if t.op == 'call' and t.a[0].split('::')[-1] == 'loss' and len([x for x in t.a[1:] if isinstance(x, T)]) == 4:
                # loss of another loss object on the same rows
                o, a, b, w = [strip(x) for x in t.a[1:5]]
                if a is A[2] and b is A[3] and w is A[4]:
                    return object_formula(model.c, o, r, weighted)
                raise Unknown('loss of other rows')
            return None
        leaf0 = row_leaf(self.c, F, sub, weighted, extra)

        def leaf(t):
            return leaf0(t)
        ev = LoopEval(r, leaf, lp, V('n'))
        o_is = ev.is_

        def is_(t, v):
            if strip(t) is A[4]:
                return (v == 'Some') == weighted
            return o_is(t, v)
        ev.is_ = is_
        o_holds = ev.holds
        base_of = leaf0.base_of

        def holds(f):
            if f.op == 'lt' and is_row_index(f.a[0], base_of) and is_call(f.a[1], 'len') and zip_of(f.a[1].a[1], base_of):
                return True
            return o_holds(f)
        ev.holds = holds
        return ev

    def pick(self, ev, which):
        F, lp = self.lps(which)
        hits = []
        for p, fs, env, v in lp.all:
            if all(holds_row(ev, f) for f in fs):
                hits.append((p, env, v))
        if len(hits) != 1:
            raise Unknown(f'{len(hits)} paths of {self.ty} apply')
        return hits[0]

    def loss(self, r, weighted, inner=None):
        ev = self.evaluator(r, 'loss', weighted, inner)
        p, env, v = self.pick(ev, 'loss')
        if v is None:
            raise Unknown('loss does not return')
        ev.memo.clear()
        return ev(v)

    def grad(self, r, weighted):
        """value stored in out for a row"""
        ev = self.evaluator(r, 'grad', weighted)
        F, lp = self.lps('grad')
        p, env, v = self.pick(ev, 'grad')
        out = arg(F, 5)
        vals = []
        for x in p:
            if not lp.header(x):
                continue
            sib = {k: t for k, t in env.items() if t.op == 'acc' and F.phi_key[k][0] == x}
            bp, benv = ev.iteration(x, {**sib})
            for y in bp[:-1]:
                for e in F.n[y].events:
                    if e.k == 'write' and writes_row(e, out):
                        if not covers_rows(F, e, x, out):
                            raise Unknown('only part of the gradient is written')
                        vals.append((x, ev(subst(subst(subst(e.value, benv), sib), env))))
                    elif e.k == 'write' and isinstance(e.root, T) and mentions(e.root, lambda z: z is out):
                        raise Unknown(f'gradient written at {show(e.root)[:80]}')
        for x in p:
            if lp.header(x):
                continue
            for e in F.n[x].events:
                if e.k == 'call' and e.cn.split('::')[-1] == 'fill' and mentions(e.args[0], lambda z: z is out):
                    vals.append((x, ev(subst(e.args[1], env))))
        if not vals:
            raise Unknown('the gradient is not written')
        return vals[-1][1]


def A_(*k):
    return alg.A(*k)


def holds_row(ev, f):
    """a path fact in the generic case: iterators run to their end, sums are not zero"""
    if f.op == 'is' and f.a[0].op == 'next':
        return f.a[1] == 'None'
    return ev.holds(f)


def writes_row(e, out):
    r = e.root
    return isinstance(r, T) and r.op in ('elem', 'idx') and mentions(r, lambda z: z is out) and not e.path or \
        (r is out and any(x[0] == 'i' or x[0] == 'idx' for x in e.path))


def covers_rows(F, e, h, out):
    """the written element runs over all rows: elem of iter_mut over out (possibly zipped), in the loop at h"""
    r = e.root
    if r.op == 'elem':
        s = strip(r.a[0])
        return s is out or (is_call(s, 'iter_mut') and strip(s.a[1]) is out)
    if r.op == 'idx' or r is out:
        return True
    return False


def object_formula(c, o, r, weighted):
    """formula of a constructed loss object"""
    o = unwrap_arc(o)
    ty = o.a[0].split('::')[-1]
    inner = None
    if len(o.a) > 2:
        L = o.a[2]
        if L.op != 'agg':
            raise Unknown(f'loss object {show(o)[:80]}')
        lt = L.a[0].split('::')[-1]
        params = {n: V(n) for n in L.a[1]}
        inner = {m: point_formula(c, lt, m, params) for m in ('point_loss', 'point_dloss_dyhat')}
    return LossModel(c, ty).loss(r, weighted, inner)


def unwrap_arc(o):
    o = strip(o)
    while o.op == 'call' and o.a[0].split('::')[-1] in ('new', 'from', 'into', 'deref', 'as_ref', 'clone') and len(o.a) > 1:
        o = strip(o.a[1])
    if o.op != 'agg':
        raise Unknown(f'loss object {show(o)[:80]}')
    return o


alg.DOPAQUE['pl'] = ('dpl', None)
YH, Y, W = V('yhat[i]'), V('y[i]'), V('w[i]')


def spec_abs(r, x):
    return x if r.sign(x) > 0 else -x


def spec_quantile(r, p):
    u = Y - YH
    return p * u if r.sign(u) > 0 else (p - C(1)) * u


def spec_eps(r, e):
    d = spec_abs(r, YH - Y) - e
    return d if r.sign(d) > 0 else C(0)


def spec_huber(r, d):
    a = spec_abs(r, YH - Y)
    return (YH - Y) * (YH - Y) / C(2) if r.sign(a - d) < 0 else d * (a - d / C(2))


LOSS = {
    'Mse': (None, lambda r: (YH - Y) * (YH - Y)), 'Rmse': (None, lambda r: (YH - Y) * (YH - Y)),
    'Mae': (None, lambda r: spec_abs(r, YH - Y)),
    'Huber': ('delta', spec_huber), 'LogCosh': (None, lambda r: Ln(Cosh(YH - Y))),
    'Lp': ('p', lambda r, p: Exp(p * Ln(spec_abs(r, YH - Y)))),
    'Quantile': ('tau', spec_quantile), 'EpsilonInsensitive': ('eps', spec_eps),
}
PARSE = {'mse': ('Mse', None), 'mae': ('Mae', None), 'rmse': ('Rmse', None), 'huber': ('Huber', None), 'logcosh': ('LogCosh', None),
         'lp': ('Lp', None), 'quantile': ('Quantile', None), 'epsilon-insensitive': ('EpsilonInsensitive', None),
         'epsilon_insensitive': ('EpsilonInsensitive', None), 'eps-insensitive': ('EpsilonInsensitive', None),
         'eps_insensitive': ('EpsilonInsensitive', None)}
POS = ('delta', 'eps', 'n')
alg.POSITIVE |= {alg.atom('v', 'n'), alg.atom('sum', W)}


@rule('P17', 'Formulas of every loss are taken from the code path by path (accumulating loops become sums over rows) and '
             'put in normal form: each pointwise gradient is compared with the derivative of its pointwise loss, each '
             'averaged loss with sum(w*l)/sum(w) or the plain mean, the stored gradient of every row with the derivative of '
             'that formula, and each selectable loss kind with the formula its name denotes and its own parameter.',
      ['real arithmetic; parameters delta and eps positive; kinks and all-zero weights are not compared',
       'row arrays have equal lengths (asserted by the code)'])
def p17(c):
    # pointwise: gradient = derivative of the loss
    n = 0
    for im in c.p.impls:
        if not im.get('trait', '').endswith('PointwiseLoss') or im['crate'] != 'symbolic_regression':
            continue
        ty = strip_generics(im['self']).split('::')[-1]
        w = f'{im["s"][0]}:{im["s"][1]}'
        n += 1
        try:
            L, G = point_formula(c, ty, 'point_loss'), point_formula(c, ty, 'point_dloss_dyhat')
        except Unknown as e:
            c.fail(f'point-gradient:{ty}', w, f'formula not decided: {e}')
            continue

        def chk(r):
            a, b = L(r, YH, Y), G(r, YH, Y)
            if a is None or b is None:
                return 'does not return'
            d = diff(a, 'yhat[i]')
            return None if not (d - b).n else f'derivative of {ty} is {d}, the code returns {b}'
        settle(c, f'point-gradient:{ty}', w, chk, POS, what=f'{ty} gradient')
    c.floor('pointwise losses', n, 7)
    # aggregate: mean with weights; gradient = derivative
    m = 0
    for im in c.p.impls:
        if not im.get('trait', '').endswith('::LossFn') or im['crate'] != 'symbolic_regression':
            continue
        ty = strip_generics(im['self']).split('::')[-1]
        w = f'{im["s"][0]}:{im["s"][1]}'
        m += 1
        M = LossModel(c, ty)
        for weighted in (False, True):
            tag = 'weighted' if weighted else 'plain'

            def chk(r):
                a = M.loss(r, weighted)
                b = M.grad(r, weighted)
                d = diff(a, 'yhat[i]')
                return None if not (d - b).n else f'the {tag} loss {a} has gradient {d} in a row, the code stores {b}'
            settle(c, f'gradient:{ty}:{tag}', w, chk, POS, what=f'{ty} {tag} gradient')
            if ty == 'MeanLoss':
                P = A_('opaque', 'pl', YH, Y)
                spec = A_('sum', W * P) / A_('sum', W) if weighted else A_('sum', P) / V('n')

                def chk(r):
                    a = M.loss(r, weighted)
                    return None if not (a - spec).n else f'the {tag} mean is {a}'
                settle(c, f'mean:{ty}:{tag}', w, chk, POS, what=f'{ty} {tag} mean')
    c.floor('aggregate losses', m, 2)
    # kinds
    F = c.ctx.flow('loss_functions::make_loss', ())
    K = arg(F, 1)
    ps = retpaths(F)
    variants = [v['n'] for v in c.p.adt('loss_functions::LossKind')['vs']]
    for v in variants:
        where = F.f.where if hasattr(F.f, 'where') else ''
        if v not in LOSS:
            c.note(f'loss kind {v} has no named formula')
            continue
        pn, spec = LOSS[v]
        objs = set()
        for fs, o in ps:
            if o is None:
                continue
            ok = True
            for f in fs:
                if f.op == 'is' and strip(f.a[0]) is K:
                    ok &= f.a[1] == v
                elif f.op == 'not' and f.a[0].op == 'is' and strip(f.a[0].a[0]) is K:
                    ok &= f.a[0].a[1] != v
                elif f.op == 'is' and is_call(f.a[0], 'from'):
                    ok &= f.a[1] == 'Some'
            if ok:
                objs.add(o)
        if len(objs) != 1:
            c.fail(f'kind:{v}', 'loss_functions.rs', f'{len(objs)} loss objects for {v}')
            continue
        o = objs.pop()

        def chk(r):
            u = unwrap_arc(o)
            par = {}
            inner = None
            if len(u.a) > 2:
                L = u.a[2]
                if L.op != 'agg':
                    return f'{v} builds {show(u)[:80]}'
                lt = L.a[0].split('::')[-1]

                def pl(t):
                    if t.op == 'vf' and t.a[1] == v and strip(t.a[0]) is K:
                        return V(str(t.a[2]))
                    if t.op == 'fld' and t.a[0].op == 'dc':
                        return V(str(t.a[2]))
                    return None
                par = {nm: Eval(r, pl)(x) for nm, x in zip(L.a[1], L.a[2:])}
                inner = {q: point_formula(c, lt, q, par) for q in ('point_loss', 'point_dloss_dyhat')}
            s = spec(r, V(pn)) if pn else spec(r)
            for weighted in (False, True):
                a = LossModel(c, u.a[0].split('::')[-1]).loss(r, weighted, inner)
                e = (Sum(W * s, V('n')) / A_('sum', W)) if weighted else Sum(s, V('n')) / V('n')
                if v == 'Rmse':
                    e = Sqrt(e)
                if (a - e).n:
                    return f'{v} computes {a}, expected {e}'
            return None
        settle(c, f'kind:{v}', 'symbolic_regression/src/loss_functions.rs', chk, POS, what=f'{v}')
    c.floor('loss kinds', len(variants), 8)
    # names
    F = c.ctx.flow('LossKind::parse', ())
    seen = {}
    for fs, o in retpaths(F):
        lit = None
        for f in fs:
            if f.op == 'eq':
                for x in f.a[:2]:
                    if x.op == 'const' and str(x.a[0]).startswith('"'):
                        lit = str(x.a[0]).strip('"')
        if o is None:
            continue
        if o.op == 'agg' and o.a[0].endswith('::Some') and o.a[2].op == 'agg':
            kind = o.a[2].a[0].split('::')[-1]
            if lit is None:
                c.fail('parse:unknown', 'loss_functions.rs', f'an unknown loss name gives {kind}')
                continue
            seen[lit] = kind
            exp = PARSE.get(lit, (None,))[0]
            c.ob(f'parse:{lit}', exp is None or exp == kind, 'symbolic_regression/src/loss_functions.rs', f'the name {lit} selects {kind}')
        elif o.op == 'agg' and o.a[0].endswith('::None'):
            c.ob(f'parse:none:{lit}', lit is None, 'symbolic_regression/src/loss_functions.rs', f'the name {lit} is rejected')
        else:
            c.fail('parse:form', 'loss_functions.rs', f'a loss name gives {show(o)[:80]}')
    for l in PARSE:
        c.ob(f'parse-known:{l}', l in seen, 'symbolic_regression/src/loss_functions.rs', f'the loss name {l} is not recognised')
