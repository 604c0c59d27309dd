"""P39: how the cost of a member follows from its loss, its complexity and the settings."""
from fractions import Fraction
from sa.core import *
from sa.rulelib import *
from sa.algebra import C, V, Unknown
from sa.walk import Loop, rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg, ENG
from rules.evolve import cases, case_guarded
from rules.wellformed import constant, strip, rets, run, terms_of
from rules.simplify import last, impossible, deref, arg_where
from rules.choice import num, plain
from rules.measures import facts_of
from rules.browser import bare
from rules.optimise import core, finite

CONV = ('from', 'from_f64', 'from_usize', 'from_u64', 'cast', 'to_f64', 'try_from')
FLOOR = Fraction(1, 100)


class Terms:
    """the parts a cost is built from"""
    def __init__(self, c, F, fn):
        n = fn['argc']
        ty = {k: fn['locals'][k]['ty'] for k in range(1, n + 1)}
        def only(pred):
            ks = [k for k in ty if pred(ty[k])]
            c.need(len(ks) == 1, 'parameters of the cost function not understood')
            return ks[0]
        self.part = {
            mk_arg(F, only(lambda t: t == 'usize')): 'complexity',
            mk_arg(F, only(lambda t: t == 'f64')): 'parsimony',
            mk_arg(F, only(lambda t: t == 'T')): 'loss',
            mk_arg(F, only(lambda t: 'Option<' in t)): 'baseline'}
        self.of = {v: k for k, v in self.part.items()}
        self.switch = mk_arg(F, only(lambda t: t == 'bool'))

    def leaf(self, t):
        """a part, or a number, behind conversions"""
        t = core(strip(deref(t)))
        while t.op == 'call' and last(t.a[0]) in CONV and len(t.a) >= 2 and isinstance(t.a[1], T):
            t = core(strip(deref(t.a[1])))
        return t

    def value(self, t):
        """a term as a rational function of the parts"""
        t = strip(deref(t))
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div'}.get(last(t.a[0])) if t.op == 'call' and len(t.a) in (3, 4) else t.op
        if op in ('Add', 'Sub', 'Mul', 'Div'):
            a, b = (self.value(x) for x in (t.a[:2] if t.op != 'call' else t.a[1:3]))
            return a + b if op == 'Add' else a - b if op == 'Sub' else a * b if op == 'Mul' else a / b
        if is_call(t, 'mul_add') and len(t.a) >= 4:
            return self.value(t.a[1]) * self.value(t.a[2]) + self.value(t.a[3])
        if is_call(t, 'recip'):
            return C(1) / self.value(t.a[1])
        if is_call(t, 'max') and len(t.a) >= 3 and {self.value(y) == C(FLOOR) for y in t.a[1:3]} == {True, False} and V('baseline') in [self.value(y) for y in t.a[1:3]]:
            return V('clamped')
        x = self.leaf(t)
        if x in self.part:
            return V(self.part[x])
        if is_call(x, 'zero'):
            return C(0)
        if is_call(x, 'one'):
            return C(1)
        v = num(x)
        if v is None:
            raise Unknown(f'{show(x)[:60]} in a cost')
        v = Fraction(v)
        return C(FLOOR if v == Fraction(0.01) else v)

    def lost(self, fs, part):
        """the facts say that a number of the configuration has no counterpart in the scalar type"""
        a = self.of[part]
        for f in fs:
            if f.op == 'is' and f.a[1] == 'None' or f.op == 'isnt' and f.a[1] == 'Some':
                t = core(f.a[0])
                if t is not a and t.op == 'call' and self.leaf(t) is a:
                    return True
        return False

    def usable(self, fs):
        """the facts say that the baseline is in use, finite and not below the floor"""
        b = self.of['baseline']
        on = any(plain(f) is self.switch for f in fs)
        return on and finite(fs, b) and any(f.op in ('le', 'lt') and self.isfloor(f.a[0]) and core(f.a[1]) is b or
                                            f.op == 'not' and f.a[0].op in ('lt', 'le') and core(f.a[0].a[0]) is b and self.isfloor(f.a[0].a[1]) for f in fs)

    def inuse(self, fs):
        return any(plain(f) is self.switch for f in fs) and finite(fs, self.of['baseline'])

    def isfloor(self, t):
        try:
            return self.value(t) == C(FLOOR)
        except Unknown:
            return False

    def unusable(self, fs):
        b = self.of['baseline']
        for f in fs:
            if f.op == 'not':
                g = f.a[0]
                if plain(g) is self.switch or is_call(g, 'is_finite') and core(g.a[1]) is b:
                    return True
                if g.op in ('le', 'lt') and self.isfloor(g.a[0]) and core(g.a[1]) is b:
                    return True
            if f.op == 'is' and f.a[1] == 'None' and core(f.a[0]) is b:
                return True
            if f.op == 'isnt' and f.a[1] == 'Some' and core(f.a[0]) is b:
                return True
            if f.op in ('lt', 'le') and core(f.a[0]) is b and self.isfloor(f.a[1]):
                return True
        return False


def lem_rule(c, fn):
    F = c.ctx.flow(fn, ())
    K = Terms(c, F, fn)
    n = set()
    for p in rets(F):
        fs = facts_of(p) + list(p.facts)
        if impossible(p.facts):
            continue
        r = K.value(rebuild(p.ret, p.env))
        pa = C(0) if K.lost(fs, 'parsimony') else V('parsimony')
        cx = C(0) if K.lost(fs, 'complexity') else V('complexity')
        lo = V('loss')
        with_b, without = lo / V('baseline') + pa * cx, lo / C(FLOOR) + pa * cx
        if r == with_b:
            if not K.usable(fs):
                return 'the loss is divided by a baseline that is not in use, not finite or too small'
            n.add('baseline')
        elif r == lo / V('clamped') + pa * cx:
            if not K.inuse(fs):
                return 'the loss is divided by a baseline that is not in use or not finite'
            n |= {'baseline', 'floor'}
        elif r == without:
            if not K.unusable(fs):
                return 'a usable baseline is left out'
            n.add('floor')
        else:
            return f'the cost is {show(rebuild(p.ret, p.env))[:160]}'
    return None if len(n) == 2 else 'a case is missing'


OPQ = ('loss_to_cost', 'eval_plan_array_into', 'compute_complexity', 'ensure_n_rows', 'optimize_constants', 'check_constraints', 'simplify_expr',
       'mutate_once', 'compress_constants', 'sample_mutation', 'condition_mutation_weights')


def lem_use(c, fn):
    """every call of the rule gets the member's own loss and complexity and the settings, and its result is that member's cost"""
    F = c.ctx.flow(fn, OPQ)
    lc = c.p.fn('loss_functions::loss_to_cost')
    ty = [lc['locals'][k]['ty'] for k in range(1, lc['argc'] + 1)]
    n = 0
    for i, e in F.events():
        if e.k != 'call' or last(e.cn or '') != 'loss_to_cost':
            continue
        n += 1
        a = dict(zip(('loss' if t == 'T' else 'complexity' if t == 'usize' else 'parsimony' if t == 'f64' else 'use' if t == 'bool' else 'baseline' for t in ty), e.args))
        for k, f, owner in (('parsimony', 'parsimony', 'Options'), ('use', 'use_baseline', 'Options'), ('baseline', 'baseline_loss', 'TaggedDataset')):
            v = bare(a[k])
            if not is_fld(v, f) or last(str(v.a[1])) != owner:
                return f'{k} of a cost is {show(a[k])[:100]}'
        if is_call(strip(bare(a['complexity'])), 'len') or constant(a['complexity']) is not None:
            return 'the complexity of a cost is made up'
    return None if n else 'the cost is not computed here'


def lem_stores(c, fn):
    """a stored cost is computed by the rule from what is stored beside it, infinite, or copied together with the loss"""
    F = c.ctx.flow(fn, OPQ)
    def of(e):
        if e.k == 'write' and e.path and len(e.path[-1]) > 2 and e.path[-1][0] == 'f' and e.path[-1][2] in ('loss', 'cost', 'complexity'):
            return e.path[-1][2]
    ws = [(i, e) for i, e in F.events() if of(e)]
    for i, e in ws:
        if of(e) != 'cost':
            continue
        v = deref(e.value)
        for x in (F.phi_closure(v) if v.op == 'phi' else [v]):
            x = deref(x)
            if x.op == 'phi':
                continue
            if is_call(x, 'infinity', 'max_value') or is_fld(x, 'cost') or x.op == 'const' and num(x) == float('inf'):
                continue
            if not is_call(x, 'loss_to_cost'):
                return f'a cost of {show(x)[:100]} is stored'
            same = lambda q: q.root is e.root and q.path[:-1] == e.path[:-1]
            for k in ('loss', 'complexity'):
                want = [y for y in x.a[1:] if isinstance(y, T)]
                if not any(of(q) == k and same(q) and any(deref(q.value) is deref(y) for y in want) for _, q in ws) and \
                   not any(is_fld(deref(y), k) for y in want):
                    return f'the {k} a cost is computed from is not the one stored with it'
    return None


def lem_setup(c, fn):
    """the baseline is computed exactly when asked for, from this dataset with the configured loss"""
    F = c.ctx.flow(fn, ENG + ('sr_default', 'optimize_constants', 'evaluate') if 'bench' in fn['n'] else ENG)
    n = 0
    data = set()
    for i, e in F.events():
        if e.k != 'call' or last(e.cn or '') != 'baseline_loss_from_zero_expression':
            continue
        n += 1
        if not any(is_fld(x, 'loss') and last(str(x.a[1])) == 'Options' for x in terms_of(e.args[1])):
            return f'the baseline is a loss of {show(e.args[1])[:80]}'
        data.add(e.args[0])
        p = F.guard_path([i], lambda f: is_fld(plain(f), 'use_baseline'))
        if p is not None:
            return 'the baseline is computed without being asked for'
    for i, e in F.events():
        if e.k == 'call' and (e.cn or '').endswith('TaggedDataset::new'):
            d, v = e.args[0], e.args[1]
        elif e.k == 'write' and e.value is not None and e.value.op == 'agg' and last(e.value.a[0]) == 'TaggedDataset':
            d, v = fld(F, e.value, 'data'), fld(F, e.value, 'baseline_loss')
        else:
            continue
        for (x,), via in cases(F, v, None):
            if x.op == 'phi' or is_fld(x, 'baseline_loss'):
                continue
            has = mentions(x, lambda y: is_call(y, 'baseline_loss_from_zero_expression'))
            if has and under_refs(d) not in {under_refs(y) for y in data}:
                return f'the baseline is taken of another dataset than {show(d)[:60]}'
            if not has and not (x.op == 'agg' and last(x.a[0]) == 'None'):
                return f'the baseline is {show(x)[:80]}'
            if has and not is_call(core(x), 'baseline_loss_from_zero_expression'):
                return f'the baseline is {show(x)[:80]}'
            want = (lambda f: is_fld(plain(f), 'use_baseline')) if has else (lambda f: f.op == 'not' and is_fld(plain(f.a[0]), 'use_baseline'))
            if case_guarded(F, via, i, want) is not None:
                return 'the baseline is in use exactly when it was not asked for' if not has else 'the baseline is in use without being asked for'
    return None if n else 'no baseline'


@rule('P39',
      'Path-by-path rational-function comparison of the cost function under the facts of each branch; who-calls and who-writes queries '
      'over the typed program for the cost function and the stored cost, with the arguments of every call and the losses and complexities '
      'stored beside it; guard analysis of every place that computes the baseline.',
      ['floating-point arithmetic is compared as real arithmetic', 'the body of the baseline function is rule P25'])
def p39(c):
    def go(key, f, lem):
        m = run(lem, c, f)
        c.ob(key, m is None, f['id'], m)

    lc = c.p.fn('loss_functions::loss_to_cost')
    go('cost', lc, lem_rule)
    users = sorted(x for x in c.ctx.callers().get(lc['id'], ()) if not test_fn(c, x))
    c.floor('callers of the cost function', len(users), 2)
    for u in users:
        go('use', c.p.fns[u], lem_use)
    ws = sorted(x for x in c.ctx.writers('PopMember', 'cost') if not test_fn(c, x))
    c.floor('functions that store a cost', len(ws), 3)
    for u in ws:
        go('stores', c.p.fns[u], lem_stores)
    b = c.p.fn('loss_functions::baseline_loss_from_zero_expression')
    us = sorted(x for x in c.ctx.callers().get(b['id'], ()) if not test_fn(c, x))
    c.floor('callers of the baseline function', len(us), 2)
    for u in us:
        go('baseline', c.p.fns[u], lem_setup)


def under_refs(t):
    t = deref(t)
    while t.op in ('ref', 'refm') and not t.a[1] and isinstance(t.a[0], T):
        t = deref(t.a[0])
    return t


def test_fn(c, x):
    return '::tests::' in c.p.fns[x]['n']
