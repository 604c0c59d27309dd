"""P42: the random draws of the crate are made from the stated distributions."""
import math
from fractions import Fraction
from sa.core import *
from sa.rulelib import *
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T, show
from sa import algebra as alg
from sa.algebra import A, C, V, RF, Unknown
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, exact, lin, plus, rets, run, params
from rules.simplify import last, deref
from rules.printing import terms

TINY = 1e-9


def facts_of(p):
    return [rebuild(f, p.env) for f in p.facts] + list(p.facts)


def is_draw(t, *ns):
    if is_call(t, *ns) and len(t.a) >= 2 and t.a[0].split('::')[-2:][0] == 'Rng':
        return True
    return 'usize' in ns and is_call(t, *HELP)


HELP = ('usize_range', 'usize_range_inclusive')


def bounds(t):
    """(lowest, highest) value of a range, both linear forms"""
    t = deref(t)
    if t.op == 'agg' and last(t.a[0]) == 'Range':
        return lin(t.a[2]), plus(lin(t.a[3]), {1: -1})
    if t.op == 'agg' and last(t.a[0]) == 'RangeTo':
        return {}, plus(lin(t.a[2]), {1: -1})
    if is_call(t, 'RangeInclusive::new') or is_call(t, 'new') and 'RangeInclusive' in t.a[0]:
        return lin(t.a[1]), lin(t.a[2])
    return None


def clean(d):
    return {k: v for k, v in d.items() if v}


def same(a, b):
    return clean(plus(a, b, -1)) == {}


def neg(d):
    return {k: -v for k, v in d.items()}


def own_rng(F, t):
    """the generator handed in, however often drawn from"""
    t = deref(t)
    while isinstance(t, T):
        if t.op == 'upd':
            t = deref(t.a[3])
        elif t.op == 'phi':
            ins = {deref(v) for _, v in F.phi_ops[t]} - {t}
            rest = set()
            for v in ins:
                while isinstance(v, T) and v.op == 'upd':
                    v = deref(v.a[3])
                if v is not t:
                    rest.add(v)
            if len(rest) != 1:
                return False
            t = rest.pop()
        else:
            break
    return isinstance(t, T) and t.op == 'arg'


# ---- integers ----
def lem_range(c, fn, closed):
    F = c.ctx.flow(fn, ())
    R = mk_arg(F, params(F, lambda t: 'Range' in t)[0])
    if closed:
        lo = lambda t: is_call(t, 'start') and deref(t.a[1]) is R or t.op == 'fld' and is_call(t.a[0], 'into_inner') and deref(t.a[0].a[1]) is R and str(t.a[-1]) == '0'
        hi = lambda t: is_call(t, 'end') and deref(t.a[1]) is R or t.op == 'fld' and is_call(t.a[0], 'into_inner') and deref(t.a[0].a[1]) is R and str(t.a[-1]) == '1'
    else:
        lo = lambda t: t.op == 'fld' and t.a[0] is R and str(t.a[-1]) == 'start'
        hi = lambda t: t.op == 'fld' and t.a[0] is R and str(t.a[-1]) == 'end'

    def named(d):
        out = {}
        for k, v in d.items():
            n = 1 if k == 1 else 'lo' if lo(deref(k)) else 'hi' if hi(deref(k)) else k
            out[n] = out.get(n, 0) + v
        return clean(out)
    LO, HI = {'lo': 1}, {'hi': 1} if closed else {'hi': 1, 1: -1}
    n = 0
    for p in rets(F):
        v = lin(exact(rebuild(p.ret, p.env)))
        n += 1
        if same(named(v), LO):
            # the first of the range alone is right only when the range has no second value
            if not any(f.op in ('le', 'lt') and hi(deref(f.a[0])) and lo(deref(f.a[1])) or f.op == 'eq' and {lo(deref(f.a[0])), hi(deref(f.a[0]))} == {True, False} and (lo(deref(f.a[1])) or hi(deref(f.a[1])))
                       or is_call(f, 'is_empty') and deref(f.a[1]) is R for f in facts_of(p) if len(f.a) > 1 and isinstance(f.a[1], T)):
                return 'a range of several numbers always gives its first'
            continue
        ds = [k for k in v if k != 1 and is_draw(deref(k), 'usize')]
        if len(ds) != 1 or v[ds[0]] != 1:
            return f'the number is {show(rebuild(p.ret, p.env))[:80]}'
        d = deref(ds[0])
        if not own_rng(F, d.a[1]):
            return 'the number does not come from the generator handed in'
        off = named({k: x for k, x in v.items() if k is not ds[0]})
        if deref(d.a[2]) is R:
            b = (LO, HI)
        else:
            b = bounds(d.a[2])
            if b is None:
                return f'numbers are drawn from {show(d.a[2])[:80]}'
            b = named(b[0]), named(b[1])
        if not same(plus(b[0], off), LO) or not same(plus(b[1], off), HI):
            return f'numbers are drawn from {show(d.a[2])[:80]}'
    return None if n else 'no number is drawn'


def lem_choose(c, fn):
    F = c.ctx.flow(fn, HELP)
    S = mk_arg(F, params(F, lambda t: '[' in t)[0])
    n = 0
    for p in rets(F):
        r = deref(rebuild(p.ret, p.env))
        if r.op == 'agg' and last(r.a[0]) == 'None':
            if not any(f.op == 'eq' and empty_len(f, S) or is_call(f, 'is_empty') and deref(f.a[1]) is S or beyond(f, S) for f in facts_of(p)):
                return 'nothing is chosen from a list that has elements'
            continue
        if is_draw(r, 'choice'):
            if deref(r.a[2]) is not S or not own_rng(F, r.a[1]):
                return 'something else is chosen from'
            n += 1
            continue
        x = deref(r.a[2]) if r.op == 'agg' and last(r.a[0]) == 'Some' else r
        if x.op == 'idx':
            base, i = x.a[0], x.a[1]
        elif is_call(x, 'get') and x is r:
            base, i = x.a[1], x.a[2]
        else:
            return f'the chosen element is {show(r)[:80]}'
        i = exact(deref(i))
        if deref(base) is not S:
            return 'the element is taken from another list'
        b = bounds(i.a[2]) if is_draw(i, 'usize') and own_rng(F, i.a[1]) else None
        if b is None or clean(b[0]) or not whole(b[1], S):
            return f'the element is number {show(i)[:80]}'
        n += 1
    return None if n else 'nothing is chosen'


def beyond(f, S):
    """a position drawn from the list's own is not in it: cannot be"""
    if f.op == 'not' and f.a[0].op == 'lt':
        n, i = f.a[0].a[1], f.a[0].a[0]
    elif f.op == 'le':
        n, i = f.a[0], f.a[1]
    elif f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'get') and deref(f.a[0].a[1]) is S:
        n, i = None, f.a[0].a[2]
    else:
        return False
    i = exact(deref(i))
    if not is_draw(i, 'usize') or n is not None and not len_of(n, S):
        return False
    b = bounds(i.a[2])
    return b is not None and whole(b[1], S)


def len_of(t, S):
    t = exact(deref(t))
    return t.op == 'len' and deref(t.a[0]) is S or is_call(t, 'len') and deref(t.a[1]) is S


def empty_len(f, S):
    return any(len_of(a, S) and constant(exact(b)) == 0 for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])) if isinstance(a, T) and isinstance(b, T))


def whole(d, S, k=-1):
    """the number of elements of S, plus k"""
    d = clean(d)
    ks = [x for x in d if x != 1]
    return len(ks) == 1 and d[ks[0]] == 1 and len_of(ks[0], S) and d.get(1, 0) == k


def lem_shuffle(c, fn):
    F = c.ctx.flow(fn, HELP)
    S = mk_arg(F, params(F, lambda t: '[' in t)[0])
    n = 0
    for p in rets(F):
        ls = [x for x in p.items if isinstance(x, Loop)]
        whole_ = [it for it in p.items if not isinstance(it, Loop) and it[0].k == 'call' and is_draw_event(it[0], 'shuffle')]
        if whole_ and not ls:
            if len(whole_) != 1 or deref(rebuild(whole_[0][0].args[1], whole_[0][2])) is not S:
                return 'something else is shuffled'
            n += 1
            continue
        if not ls:
            if not any(f.op in ('le', 'lt', 'eq') and short(f, S) or is_call(f, 'is_empty') and deref(f.a[1]) is S for f in facts_of(p)):
                return 'a list of several elements is left as it is'
            continue
        if len(ls) != 1:
            return 'more than one pass over the list'
        L = ls[0]
        src = deref(L.src) if L.src is not None else None
        while src is not None and is_call(src, 'rev', 'into_iter', 'by_ref'):
            src = deref(src.a[1])
        b = bounds(src) if src is not None else None
        if b is None:
            return f'positions are taken from {show(L.src)[:80]}'
        for q in L.body:
            if q.end != 'back':
                continue
            sw = [it for it in q.items if not isinstance(it, Loop) and it[0].k == 'call' and is_swap(it[0])]
            if any(isinstance(x, Loop) for x in q.items) or len(sw) != 1:
                return 'a round does not swap exactly two elements'
            a, d = (exact(deref(rebuild(x, sw[0][2]))) for x in sw[0][0].args[1:3])
            if not on(F, rebuild(sw[0][0].args[0], sw[0][2]), S):
                return 'elements of something else are swapped'
            if is_draw(a, 'usize'):
                a, d = d, a
            if not (a.op == 'elem' and a.a[1] == L.site and is_draw(d, 'usize') and own_rng(F, d.a[1])):
                return f'positions {show(a)[:40]} and {show(d)[:60]} are swapped'
            r = bounds(d.a[2])
            if r is None:
                return f'the partner is drawn from {show(d.a[2])[:80]}'
            me = {a: 1}
            low = not clean(r[0]) and same(named_elem(r[1], L.site, a), me)
            high = same(named_elem(r[0], L.site, a), me) and whole(r[1], S)
            if low:
                # position i with a partner in 0..=i: every i from 1 to the last
                ok = clean(b[0]) in ({}, {1: 1}) and whole(b[1], S)
            elif high:
                # position i with a partner in i..n: every i from 0 to the last but one
                ok = not clean(b[0]) and (whole(b[1], S) or whole(b[1], S, -2))
            else:
                return f'the partner is drawn from {show(d.a[2])[:80]}'
            if not ok:
                return f'not every position gets a partner: {show(L.src)[:80]}'
            n += 1
    return None if n else 'nothing is shuffled'


def named_elem(d, site, me):
    return {(me if isinstance(k, T) and deref(k).op == 'elem' and deref(k).a[1] == site else k): v for k, v in d.items()}


def is_swap(e):
    return e.cn is not None and e.cn.split('::')[-1] == 'swap'


def is_draw_event(e, n):
    return e.cn is not None and e.cn.split('::')[-1] == n and 'Rng' in e.cn


def on(F, t, S, seen=None):
    """the list itself, however often its elements were swapped"""
    seen = set() if seen is None else seen
    t = deref(t)
    if t in seen:
        return True
    seen.add(t)
    if t is S:
        return True
    if t.op == 'upd':
        return last(t.a[0]) == 'swap' and on(F, t.a[3], S, seen)
    if t.op == 'phi':
        return all(on(F, v, S, seen) for _, v in F.phi_ops[t])
    return False


def short(f, S):
    """the list has at most one element"""
    a, b = f.a[0], f.a[1]
    if not (isinstance(a, T) and isinstance(b, T)):
        return False
    if len_of(a, S):
        k = constant(exact(b))
        return k is not None and (f.op == 'le' and k <= 1 or f.op == 'lt' and k <= 2 or f.op == 'eq' and k <= 1)
    return f.op == 'eq' and len_of(b, S) and constant(exact(a)) in (0, 1)


# ---- real formulas ----
class Real:
    """value of a float term as a rational function over draws, parameters and opaque functions"""

    def __init__(self, leaf):
        self.leaf = leaf

    def __call__(self, t):
        t = deref(t)
        x = self.leaf(t)
        if x is not None:
            return x
        o = t.op
        if o == 'const':
            return C(Fraction(float(str(t.a[0])))) if not isinstance(t.a[0], (int, float)) else C(Fraction(t.a[0]))
        if o == 'cast':
            return self(t.a[0])
        if o in ('Add', 'Sub', 'Mul', 'Div'):
            a, b = self(t.a[0]), self(t.a[1])
            return a + b if o == 'Add' else a - b if o == 'Sub' else a * b if o == 'Mul' else a / b
        if o == 'Neg':
            return -self(t.a[0])
        if o == 'call':
            n = last(t.a[0])
            a = [self(x) for x in t.a[1:] if isinstance(x, T)]
            if n in ('from', 'into', 'to_f64', 'clone'):
                return a[0]
            if n == 'recip':
                return C(1) / a[0]
            if n in ('powi', 'powf') and a[1].const() is not None and a[1].const().denominator == 1:
                return a[0].ipow(int(a[1].const()))
            if n == 'mul_add':
                return a[0] * a[1] + a[2]
            if n in ('add', 'sub', 'mul', 'div') and len(a) == 2:
                return a[0] + a[1] if n == 'add' else a[0] - a[1] if n == 'sub' else a[0] * a[1] if n == 'mul' else a[0] / a[1]
            if n == 'neg':
                return -a[0]
            k = a[0].const() if a else None
            if n == 'ln' and k is not None and k > 0:
                return C(Fraction(math.log(k)))
            if n == 'sqrt' and k is not None and k >= 0:
                return C(Fraction(math.sqrt(k)))
            if n in ('ln', 'sqrt', 'exp', 'sin', 'cos', 'abs', 'floor', 'max', 'min', 'log'):
                return A('r' + n, *a)
        raise Bad(f'{show(t)[:60]} in a formula')


def near(a, b):
    """equal up to rounding of the constants"""
    d = a - b
    return all(abs(float(v)) < TINY for v in d.n.values())


def draws_in(t, *ns):
    return {x for x in terms(t) if is_draw(x, *ns)}


def lem_normal(c, fn):
    F = c.ctx.flow(fn, ())
    n = 0
    for p in rets(F):
        if any(isinstance(x, Loop) for x in p.items):
            return 'the formula is computed in a loop'
        r = rebuild(p.ret, p.env)
        ds = sorted(draws_in(r, 'f64'), key=lambda t: str(t.a[2]))
        if len(ds) != 2:
            return f'{len(ds)} uniform numbers are used'
        if not all(own_rng(F, d.a[1]) for d in ds):
            return 'a number does not come from the generator handed in'
        one = C(1)
        ok = False
        got = None
        for a, b in (ds, ds[::-1]):
            def leaf(t):
                if t is a:
                    return V('u1')
                if t is b:
                    return V('u2')
                if is_call(t, 'max') and len(t.a) >= 3:
                    x, y = deref(t.a[1]), deref(t.a[2])
                    for x, y in ((x, y), (y, x)):
                        if x is a and y.op == 'const' and 0 < float(str(y.a[0])) <= 1e-9:
                            return V('u1')
                return None
            ev = Real(leaf)
            got = ev(r)
            for u in (V('u1'), one - V('u1')):
                for tr in ('rcos', 'rsin'):
                    th = C(Fraction(2.0) * Fraction(math.pi)) * V('u2')
                    if match(got, [('rsqrt', lambda x: near_arg(x, C(-2) * A('rln', u))), (tr, lambda x: near_arg(x, th))]):
                        ok = True
            # the logarithm must stay finite: 1 - u, or u kept off zero
            raw = any(is_call(t, 'ln') and deref(t.a[1]) is a for t in terms(r))
            if ok and raw:
                return 'the logarithm of a number that can be zero'
            if ok:
                break
        if not ok:
            return f'the formula is {show(r)[:120]}'
        n += 1
    return None if n else 'nothing is drawn'


def near_arg(x, want):
    return near(x, want)


def match(rf, fs):
    """rf is the product of one function value per entry of fs, up to sign"""
    if rf.d != alg.ONE or len(rf.n) != 1:
        return False
    (m, k), = rf.n.items()
    if abs(abs(float(k)) - 1) > TINY or len(m) != len(fs) or any(e != 1 for _, e in m):
        return False
    left = list(fs)
    for a, _ in m:
        hit = None
        for i, (n, chk) in enumerate(left):
            key = alg.KEY[a]
            if key[0] == n and chk(key[1]):
                hit = i
                break
        if hit is None:
            return False
        left.pop(hit)
    return not left


def lem_poisson(c, fn):
    F = c.ctx.flow(fn, ('log_factorial',))
    M = mk_arg(F, params(F, lambda t: t == 'f64')[0])
    small = large = 0
    for p in rets(F):
        fs = facts_of(p)
        r = rebuild(p.ret, p.env)
        ls = [x for x in p.items if isinstance(x, Loop)]
        if not ls and constant(exact(r)) == 0:
            if not any(f.op == 'not' and is_call(f.a[0], 'is_finite') and deref(f.a[0].a[1]) is M or cmp_const(f, M) for f in fs):
                return 'a positive mean gives no events'
            continue
        if not ls:
            return f'the number of events is {show(r)[:60]}'
        if any(is_draw(x, 'f64') for x in terms(r)) or any(is_call(x, 'floor') for x in terms(r)):
            e = lem_ptrs(c, F, p, r, M)
            if e:
                return 'large means: ' + e
            if not any(b is not None and b >= 10 for b in (side(f, M, True) for f in fs)):
                return 'the transformed rejection is used for means below 10'
            large += 1
        else:
            e = lem_knuth(c, F, p, r, M)
            if e:
                return 'small means: ' + e
            if not any(b is not None and b <= 600 for b in (side(f, M, False) for f in fs)):
                return 'the product is used for means whose exp(-mean) underflows'
            small += 1
    if not small and not large:
        return 'nothing is drawn'
    return None


def cmp_const(f, M):
    """mean at most zero"""
    flip = f.op == 'not'
    if flip:
        f = f.a[0]
    if f.op not in ('le', 'lt'):
        return False
    a, b = (deref(x) for x in (f.a[:2] if not flip else f.a[:2][::-1]))
    return a is M and b.op == 'const' and float(str(b.a[0])) <= 0.0


def side(f, M, low):
    """the constant the mean is at least (low) or at most"""
    flip = f.op == 'not'
    if flip:
        f = f.a[0]
    if f.op not in ('le', 'lt') or not all(isinstance(x, T) for x in f.a[:2]):
        return None
    a, b = (deref(x) for x in (f.a[:2] if not flip else f.a[:2][::-1]))
    k, m = (a, b) if low else (b, a)
    return float(str(k.a[0])) if m is M and k.op == 'const' else None


def lem_knuth(c, F, p, r, M):
    """k numbers are multiplied until the product falls to exp(-mean): k - 1 events"""
    ls = [x for x in p.items if isinstance(x, Loop)]
    if len(ls) != 1:
        return 'more than one loop'
    L = ls[0]

    def limit(t):
        t = deref(t)
        return is_call(t, 'exp') and (lambda x: x.op == 'Neg' and deref(x.a[0]) is M or is_call(x, 'neg') and deref(x.a[1]) is M)(deref(t.a[1]))
    stop = [f.a[0] for f in facts_of(p) if f.op in ('le', 'lt') and isinstance(f.a[1], T) and limit(f.a[1])]
    stop += [f.a[0].a[1] for f in facts_of(p) if f.op == 'not' and f.a[0].op in ('le', 'lt') and isinstance(f.a[0].a[0], T) and limit(f.a[0].a[0])]
    if not stop:
        return 'the draw does not stop when the product falls to exp(-mean)'

    def factors(t):
        """(the product carried by the loop or None, number of fresh numbers in it)"""
        t = deref(t)
        if t.op == 'Mul':
            a, b = factors(t.a[0]), factors(t.a[1])
            if a is None or b is None or a[0] is not None and b[0] is not None:
                return None
            return (a[0] or b[0], a[1] | b[1]) if not a[1] & b[1] else None
        if t.op == 'phi':
            return t, frozenset()
        if t.op == 'const' and float(str(t.a[0])) == 1.0:
            return None, frozenset()
        if is_draw(t, 'f64') and own_rng(F, t.a[1]):
            return None, frozenset([t])
        return None
    f = factors(stop[0])
    if f is None or f[0] is None or f[0] not in L.accs:
        return f'the product is {show(stop[0])[:80]}'
    P, last_ = f[0], len(f[1])
    e0 = factors(L.entries[P])
    if e0 is None or e0[0] is not None:
        return f'the product starts at {show(L.entries[P])[:60]}'
    K = lin(exact(r))
    ks = [k for k in K if k != 1]
    if len(ks) != 1 or K[ks[0]] != 1 or deref(ks[0]).op != 'phi':
        return f'the number of events is {show(r)[:60]}'
    kp = deref(ks[0])
    k0 = lin(exact(L.entries[kp]))
    if set(clean(k0)) - {1}:
        return 'the count does not start at a number'
    for q in L.body:
        if q.end != 'back':
            continue
        pv = factors(rebuild(dict(F.phi_ops[P])[q.nodes[-2]], q.env))
        kv = lin(exact(rebuild(dict(F.phi_ops[kp])[q.nodes[-2]], q.env)))
        if pv is None or pv[0] is not P or len(pv[1]) != 1:
            return 'a round does not multiply by one fresh number'
        if not same(kv, {**lin(kp), 1: 1}):
            return 'a round does not count one'
    # after n whole rounds the product has e0 + n + last numbers and the count is k0 + n + const
    if k0.get(1, 0) + K.get(1, 0) != len(e0[1]) + last_ - 1:
        return 'the number of events is not one less than the numbers multiplied'
    return None


def lem_ptrs(c, F, p, r, M):
    ls = [x for x in p.items if isinstance(x, Loop)]
    if len(ls) != 1 or any(isinstance(x, Loop) for q in ls[0].body for x in q.items):
        return 'more than one loop'
    L = ls[0]
    fl = {x for x in terms(r) if is_call(x, 'floor')}
    x = exact(deref(r))
    if len(fl) != 1 or x is not next(iter(fl)):
        return f'the number of events is {show(r)[:80]}'
    K = next(iter(fl))
    us_ = draws_in(K, 'f64')
    if len(us_) != 1:
        return 'the candidate is not made from one uniform number'
    U = us_.pop()
    alld = {d for q in L.body for f in facts_of(q) for d in draws_in(f, 'f64')} | {d for f in facts_of(p) for d in draws_in(f, 'f64')}
    vs = alld - {U}
    if len(vs) != 1 or not all(own_rng(F, d.a[1]) for d in alld):
        return 'the acceptance test does not use one further uniform number'
    W = vs.pop()

    def leaf(t):
        if t is U:
            return V('U')
        if t is W:
            return V('v')
        if t is M:
            return V('mean')
        if t is K:
            return V('k')
        if is_call(t, 'log_factorial'):
            a = exact(deref(t.a[1]))
            if a is K:
                return V('lf')
            raise Bad(f'the factorial of {show(a)[:40]}')
        return None
    ev = Real(leaf)
    sq, k, v, m = A('rsqrt', V('mean')), V('k'), V('v'), V('mean')
    f = lambda x: C(Fraction(x))
    b = f(0.931) + f(2.53) * sq
    a = f(-0.059) + f(0.02483) * b
    inv = f(1.1239) + f(1.1328) / (b - f(3.4))
    vr = f(0.9277) - f(3.6224) / (b - C(2))
    u = V('U') - f(0.5)

    ab = {A('rabs', u), A('rabs', -u)}
    arg = ev(K.a[1])
    us = None
    for x in ab:
        y = f(0.5) - x
        if near(arg, (C(2) * a / y + b) * u + m + f(0.43)):
            us = y
    if us is None:
        return f'the candidate is the floor of {show(K.a[1])[:120]}'
    conds = [('pos', us), ('k', k), ('big', us - f(0.07)), ('vr', vr - v), ('small', f(0.013) - us), ('over', v - us)]
    conds.append(('log', -m + k * A('rln', m) - V('lf') - A('rln', v * inv / (a / (us * us) + b))))

    def cond(g):
        """(condition, holds) of a comparison, or None when it says nothing about the candidate"""
        flip = False
        while g.op == 'not':
            g, flip = g.a[0], not flip
        if g.op not in ('le', 'lt') or not (isinstance(g.a[0], T) and isinstance(g.a[1], T)):
            return None
        if not any(t is U or t is W for t in terms(g)):
            return None
        d = ev(g.a[1]) - ev(g.a[0])
        for n, want in conds:
            if near(d, want):
                return n, not flip
            if near(d, -want):
                return n, flip
        raise Bad(f'test {show(g)[:100]}')
    N = [n for n, _ in conds]

    def outcome(w):
        if not w['pos'] or not w['k']:
            return False
        if w['big'] and w['vr']:
            return True
        if w['small'] and w['over']:
            return False
        return w['log']
    seen = 0
    for q, got in [(q, False) for q in L.body if q.end == 'back'] + [(p, True)]:
        known = {}
        for g in q.facts:
            x = cond(g)
            if x is None:
                continue
            if known.get(x[0], x[1]) != x[1]:
                known = None
                break
            known[x[0]] = x[1]
        if known is None:
            continue
        free = [n for n in N if n not in known]
        for i in range(1 << len(free)):
            w = dict(known)
            for j, n in enumerate(free):
                w[n] = bool(i >> j & 1)
            if w['big'] and (w['small'] or not w['pos']) or not w['small'] and not w['pos']:
                continue            # us cannot be like that
            seen += 1
            if outcome(w) != got:
                return ('a candidate is taken' if got else 'a candidate is dropped') + ' when ' + ', '.join(f'{n}={w[n]}' for n in N)
    return None if seen else 'no candidate is taken'


def lem_log_factorial(c, fn):
    F = c.ctx.flow(fn, ())
    Kt = mk_arg(F, 1)
    n = 0
    for p in rets(F):
        r = deref(rebuild(p.ret, p.env))
        fs = facts_of(p)
        if r.op == 'const' and float(str(r.a[0])) == 0.0:
            if not any(f.op in ('lt', 'le', 'eq') and exact(f.a[0]) is Kt and (constant(exact(f.a[1])) is not None) and constant(exact(f.a[1])) - (f.op == 'lt') <= 1 for f in fs):
                return 'the logarithm of a larger factorial is 0'
            n += 1
            continue
        if is_call(r, 'sum') or r.op == 'phi':
            L = [x for x in p.items if isinstance(x, Loop)]
            if len(L) != 1:
                return 'the sum is not one loop'
            L = L[0]
            b = bounds(L.src)
            if b is None or clean(b[0]) not in ({1: 1}, {1: 2}) or not same(b[1], {Kt: 1}):
                return f'logarithms are summed over {show(L.src)[:60]}'
            if r.op == 'phi':
                e = deref(L.entries.get(r, Kt))
                if not (e.op == 'const' and float(str(e.a[0])) == 0.0):
                    return 'the sum does not start at 0'
                for q in L.body:
                    if q.end == 'back':
                        v = deref(rebuild(dict(F.phi_ops[r])[q.nodes[-2]], q.env))
                        if not (v.op == 'Add' and any(deref(a) is r and ln_elem(z, L.site) for a, z in (v.a[:2], v.a[:2][::-1]))):
                            return 'a round does not add the logarithm of its number'
            else:
                s = deref(r.a[1])
                fn_ = s.a[2] if is_call(s, 'map') else None
                while is_call(s, 'map', 'into_iter'):
                    s = deref(s.a[1])
                if fn_ is None or bounds(s) is None:
                    return 'the sum is over something else'
                lns = [it for q in L.body for it in q.items if not isinstance(it, Loop) and it[0].k == 'call' and it[0].cn and it[0].cn.endswith('::ln')]
                if not lns or any(not (lambda z: z.op == 'elem' and z.a[1] == L.site)(exact(deref(rebuild(it[0].args[0], it[2])))) for it in lns):
                    return 'something else than the logarithm of each number is added'
                e = closure_is_ln(c, fn_)
                if e:
                    return e
            n += 1
            continue
        low = [constant(exact(f.a[0])) + (f.op == 'lt') for f in fs if f.op in ('le', 'lt') and isinstance(f.a[1], T) and exact(f.a[1]) is Kt and constant(exact(f.a[0])) is not None]
        if not low or max(low) < 8:
            return 'the series is used for small numbers'
        ev = Real(lambda t: V('k') if t is Kt else None)
        got = ev(r)
        ok = False
        for sh in (0, 1):
            # ln Gamma(x) at x = k + 1, or ln k! from the series at x = k
            x = V('k') + C(sh)
            ln = A('rln', x)
            h = C(Fraction(1, 2))
            base = (x - h) * ln - x + h * C(Fraction(math.log(2 * math.pi))) if sh else (x + h) * ln - x + h * C(Fraction(math.log(2 * math.pi)))
            co = [Fraction(1, 12), Fraction(-1, 360), Fraction(1, 1260), Fraction(-1, 1680), Fraction(1, 1188)]
            s = base
            for i, q in enumerate(co):
                s = s + C(q) / x.ipow(2 * i + 1)
                if i >= 1 and near(got, s):
                    ok = True
        if not ok:
            return f'the series is {show(r)[:140]}'
        n += 1
    return None if n else 'no value'


def ln_elem(t, site):
    t = deref(t)
    return is_call(t, 'ln') and (lambda z: z.op == 'elem' and z.a[1] == site)(exact(deref(t.a[1])))


def closure_is_ln(c, t):
    if not isinstance(t, T):
        return None
    fs = [f for f in c.p.fns.values() if any(isinstance(a, str) and f['id'] == a.split('{}')[0].replace('closure:', '') or f['n'] == a for a in t.a if isinstance(a, str))]
    for f in fs[:1]:
        F = c.ctx.flow(f, ())
        for p in rets(F):
            r = deref(rebuild(p.ret, p.env))
            if not (is_call(r, 'ln') and exact(deref(r.a[1])).op == 'arg'):
                return f'{show(r)[:60]} is added'
    return None


@rule('P42', 'Over every path of the helpers in random.rs: a number in a range is one draw of the generator handed in, from an interval which, moved by '
      'what is added, is the range itself (the first of the range only when there is no second); the chosen element has a position drawn from all '
      'positions of the same list; every round of the shuffle swaps its position i with one drawn from 0..=i (i from 1 to the last) or i..n (i from the '
      'first), which yields each order exactly once; the normal draw is sqrt(-2 ln u1) cos(2 pi u2) of two different draws, as a rational function of '
      'opaque functions; Knuth\'s Poisson draw counts one less than the numbers multiplied until the product falls to exp(-mean); for large means the '
      'tests passed on every accepting and rejecting path are compared, over all truth assignments, with Hormann\'s PTRS, each test being recognised by '
      'its algebra; ln k! is the sum of logarithms or Stirling\'s series.',
      ['fastrand draws uniformly', 'boundary values of probability zero do not matter', 'constants agree to 1e-9'])
def p42(c):
    M = 'random::'
    L = [('usize_range', lambda c, f: lem_range(c, f, False)), ('usize_range_inclusive', lambda c, f: lem_range(c, f, True)), ('choose', lem_choose), ('shuffle', lem_shuffle),
         ('standard_normal', lem_normal), ('poisson_sample', lem_poisson), ('log_factorial', lem_log_factorial)]
    k = 0
    for n, lem in L:
        fs = [f for f in c.p.fns.values() if f['n'].endswith(M + n)]
        if not fs:
            c.note(f'no helper {n}')
            continue
        k += 1
        e = run(lem, c, fs[0])
        c.ob(f'draw:{n}', not e, 'symbolic_regression/src/random.rs', f'{n}: {e}')
    c.floor('draws', k, 4)
