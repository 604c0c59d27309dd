"""P43: random expressions grow from evenly chosen leaves up to the requested size."""
from sa.core import *
from sa.rulelib import *
from sa.algebra import Unknown
from sa.walk import Loop, rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, strip, rets, run, terms_of, lin, plus, params
from rules.simplify import last, impossible, ended, deref, arg_where
from rules.choice import loops_in, all_loops
from rules.measures import facts_of, values
from rules.browser import bare
from rules.places import OPQ, OPS, LEAF, is_draw, bounds, len_of, kinds, draws
from rules.cost import test_fn


def minus(f):
    """(fact without its negation, negated)"""
    n = False
    while f.op == 'not':
        f, n = f.a[0], not n
    return f, n


def coin(f):
    """the outcome of a fair coin, and the draw"""
    f, n = minus(f)
    if is_call(f, 'bool') and 'Rng' in f.a[0]:
        return f, not n
    if f.op in ('lt', 'le') and all(isinstance(x, T) for x in f.a[:2]):
        for a, b, s in ((f.a[0], f.a[1], True), (f.a[1], f.a[0], False)):
            a, b = deref(a), deref(b)
            if is_call(a, 'f64', 'f32') and b.op == 'const' and float(str(b.a[0]).rstrip('f3264_') or 0) == 0.5:
                return a, s != n
    return None


def core(t):
    """under conversions and their checks"""
    t = strip(deref(t))
    while True:
        if is_call(t, 'unwrap', 'expect', 'unwrap_or_else', 'from', 'into', 'try_into', 'try_from', 'from_f64', 'clone'):
            t = strip(deref(t.a[1]))
        elif t.op == 'vf' and t.a[1] in ('Some', 'Ok'):
            t = strip(deref(t.a[0]))
        else:
            return t


def lem_leaf(c, fn):
    """a leaf is a variable or a constant with even chance; any feature; a constant from the standard normal"""
    F = c.ctx.flow(fn, ('usize_range', 'usize_range_inclusive', 'standard_normal', 'choose'))
    us = params(F, lambda t: t == 'usize')
    nf = mk_arg(F, us[0])
    sides = {}
    for p in rets(F):
        fs = [f for f in facts_of(p) if not impossible([f])]
        cs = {coin(f) for f in fs} - {None}
        if impossible(p.facts):
            continue
        if len(cs) != 1:
            return 'the kind of a leaf is not decided by one fair coin'
        (d, side), = cs
        r = deref(rebuild(p.ret, p.env))
        if r.op != 'agg':
            return f'a leaf is {show(r)[:60]}'
        k = last(r.a[0]) if last(r.a[0]) in ('Var', 'Const') else None
        if k == 'Var':
            v = core(r.a[2])
            if not is_draw(v) or constant(bounds(v)[0]) != 0 or strip(deref(bounds(v)[1])) is not nf:
                return f'the feature of a leaf is {show(v)[:80]}'
        elif k == 'Const':
            vals = [deref(rebuild(it[0].args[1], it[2])) for it in p.items if not isinstance(it, Loop) and it[0].k == 'call' and it[0].cn and it[0].cn.split('::')[-1] == 'push']
            if len(vals) != 1:
                return 'a constant leaf does not store one value'
            v = core(vals[0])
            if not is_call(v, 'standard_normal'):
                return f'the value of a constant leaf is {show(vals[0])[:80]}'
        else:
            return f'a leaf is {show(r)[:60]}'
        sides.setdefault(side, set()).add(k)
    if sorted(map(sorted, sides.values())) != [['Const'], ['Var']]:
        return 'the two sides of the coin do not give a variable and a constant'
    return None


def parts(x, fn='min'):
    x = strip(deref(x))
    return frozenset().union(*(parts(y, fn) for y in x.a[1:3])) if is_call(x, fn) else frozenset([x])


def grow(c, fn, rounds):
    """every round replaces an evenly chosen leaf by an operator that fits the room left; it ends only for a stated reason"""
    F = c.ctx.flow(fn, OPQ + ('random_leaf', 'total_ops_up_to', 'compress_constants'))
    us = params(F, lambda t: t == 'usize')
    size = mk_arg(F, us[-1])
    n_ops = mk_arg(F, us[1]) if rounds else None
    n = 0
    for p in rets(F):
        if impossible(p.facts) or impossible(facts_of(p)):
            continue
        outer = [L for L in (x for x in p.items if isinstance(x, Loop)) if any(is_leafy(b) for b in L.body)]
        if len(outer) != 1:
            if not rounds and not outer and any(stops(f, None, size, None) for f in facts_of(p)):
                continue
            return 'operators are not added by one loop'
        L = outer[0]
        ns = None
        for b in L.body:
            if b.end != 'back' or impossible(b.facts) or impossible(facts_of(b)):
                continue
            e = one_round(c, F, p, L, b, size)
            if isinstance(e, str):
                return e
            ns = e
            n += 1
        if ns is None:
            return 'no operator is ever added'
        N, lists = ns
        if not rounds:
            e = rebuild(L.entries[N], p.env)
            if not any(is_call(t, 'random_leaf') for t in terms_of(e)):
                return 'the expression does not start from a random leaf'
        else:
            src = bare(rebuild(L.src, p.env)) if L.src is not None else None
            lohi = None
            if src is not None and src.op == 'agg' and last(src.a[0]) == 'Range':
                lohi = plus(lin(src.a[3]), lin(src.a[2]), -1)
            elif src is not None and is_call(src, 'new') and 'RangeInclusive' in src.a[0]:
                lohi = plus(plus(lin(src.a[2]), lin(src.a[1]), -1), {1: 1})
            if lohi is None or {k: v for k, v in lohi.items() if v} != {n_ops: 1}:
                return f'the rounds are {show(L.src)[:60]}'
            if ended(facts_of(p) + list(p.facts), L):
                continue
        if not any(stops(f, N, size, lists) for f in facts_of(p) + list(p.facts)):
            return 'the expression stops growing although there is room and an operator that fits'
    return None if n else 'nothing is grown'


def is_leafy(b):
    return any(any(not isinstance(i, Loop) and i[0].k == 'call' and i[0].cn and i[0].cn.endswith('random_leaf') for i in q) for q in seqs(b.items))


def seqs(items):
    yield items
    for it in items:
        if isinstance(it, Loop):
            for b in it.body:
                yield from seqs(b.items)


def limit(t, size):
    """the requested size (at least one)"""
    ps = parts(t, 'max')
    return size in ps and all(x is size or constant(x) in (0, 1) for x in ps)


def room(t, N, size):
    """requested size less the nodes there are"""
    t = strip(deref(t))
    if t.op == 'Sub':
        a, b = t.a[0], t.a[1]
    elif is_call(t, 'saturating_sub', 'wrapping_sub'):
        a, b = t.a[1], t.a[2]
    else:
        return False
    return limit(a, size) and (N is None or nodes_len(b, N))


def nodes_len(t, N):
    h = len_of(t)
    return h is not None and (bare(h) is N or bare(h).op == 'upd' and False)


def fits(t, N, size, exact=False):
    """min(room, D)"""
    ps = parts(t)
    return any(room(x, N, size) for x in ps) and all(room(x, N, size) or constant(x) is None and x.op != 'arg' and not is_call(x) for x in ps)


def stops(f, N, size, lists):
    """there is no room, no operator that fits, or no leaf"""
    f, n = minus(f)
    if f.op not in ('eq', 'le', 'lt', 'ne') or not all(isinstance(x, T) for x in f.a[:2]):
        return False
    a, b = f.a[0], f.a[1]
    op = f.op
    if n:
        op = {'eq': 'ne', 'ne': 'eq', 'le': 'gt', 'lt': 'ge'}[op]
    if op == 'gt':
        a, b, op = b, a, 'lt'
    elif op == 'ge':
        a, b, op = b, a, 'le'
    if op == 'ne':
        return False
    zero = lambda t: room(t, N, size) or is_call(strip(deref(t)), 'total_ops_up_to') and (N is None or fits(strip(deref(t)).a[2], N, size)) or \
        len_of(t) is not None and lists is not None and bare(len_of(t)) in lists
    if op == 'eq':
        return any(zero(x) and constant(y) == 0 or limit(x, size) and N is not None and nodes_len(y, N) for x, y in ((a, b), (b, a)))
    if zero(a) and constant(b) == (0 if op == 'le' else 1):
        return True
    if op == 'le':
        return limit(a, size) and (N is None and constant(b) == 1 or N is not None and nodes_len(b, N)) or N is None and strip(a) is size and constant(b) in (0, 1)
    return False


def one_round(c, F, p, L, b, size):
    fs = facts_of(b) + list(b.facts)
    new = values(F, L, b)
    cand = [t for t in L.accs if t in new and any(t2.op == 'upd' and last(t2.a[0]) in ('splice', 'insert', 'extend', 'extend_from_slice', 'push', 'truncate', 'drain', 'remove') for t2 in terms_of(new[t]))
            and any(is_call(x, 'sample_op') for x in terms_of(new[t]))]
    ar = set()
    ds = set()
    for t in cand:
        ar |= {x for x in terms_of(new[t]) if is_call(x, 'sample_arity')}
    N = None
    for t in cand:
        for x in all_loops(b.items):
            s = bare(rebuild(x.src, b.env)) if x.src is not None else None
            while s is not None and is_call(s, 'iter', 'enumerate', 'into_iter', 'copied', 'cloned'):
                s = bare(s.a[1])
            if s is not None and (s is t or s.op == 'agg' and last(s.a[0]) == 'Range' and nodes_len(s.a[3], t)):
                N = t
    if N is None:
        return 'a round does not look at the nodes there are'
    if len(ar) != 1:
        return 'a round does not add one operator'
    a = ar.pop()
    if not fits(a.a[3] if len(a.a) > 3 else a.a[2], N, size):
        return f'the operator may have {show(a.a[3])[:80]} operands'
    # the leaf that is replaced
    lists = set()
    idx = [x for x in terms_of(new[N]) if x.op == 'idx' and is_draw(strip(deref(x.a[1])))]
    if not idx:
        return 'the place of the new operator is not drawn'
    for x in idx:
        d = strip(deref(x.a[1]))
        h = len_of(bounds(d)[1])
        lst = bare(x.a[0])
        if constant(bounds(d)[0]) != 0 or h is None or bare(h) is not lst:
            return f'the place is drawn from {show(d.a[2])[:60]}'
        lists.add(lst)
    if len(lists) != 1 or len({x for x in idx}) != 1:
        return 'more than one place is drawn'
    lst = next(iter(lists))
    e = leaves_listed(F, b, lst, N)
    if e:
        return e
    sp = [t for t in terms_of(new[N]) if t.op == 'upd' and last(t.a[0]) == 'splice' and bare(t.a[3]) is N]
    for t in sp:
        r = bare(t.a[4])
        at = idx[0]
        if is_call(r, 'new') and 'RangeInclusive' in r.a[0]:
            ok = deref(r.a[1]) is at and deref(r.a[2]) is at
        elif r.op == 'agg' and last(r.a[0]) == 'Range':
            ok = deref(r.a[2]) is at and {k: v for k, v in plus(lin(r.a[3]), lin(at), -1).items() if v} == {1: 1}
        else:
            ok = False
        if not ok:
            return f'nodes {show(r)[:60]} are replaced'
    # operands are fresh random leaves
    leaf = lambda x: any(t.op == 'agg' and last(t.a[0]) in ('Var', 'Const') and 'PNode' in t.a[0] for t in terms_of(x))
    if leaf(new[N]):
        return 'an operand is not a random leaf'
    for y in all_loops(b.items):
        for q in y.body:
            if q.end == 'back' and not impossible(q.facts) and any(leaf(v) for v in values(F, y, q).values()):
                return 'an operand is not a random leaf'
    return N, frozenset(lists)


def leaves_listed(F, b, lst, N):
    """the list holds the positions of all leaves and nothing else"""
    for x in all_loops(b.items):
        if lst not in (x.accs or ()):
            continue
        e = bare(rebuild(x.entries[lst], b.env)) if lst in x.entries else None
        if e is None or not is_call(e, 'new', 'with_capacity', 'default'):
            return 'the list of leaves does not start empty'
        if not ended(facts_of(b) + list(b.facts), x):
            return 'the search for leaves can stop early'
        got, left = set(), set()
        for q in x.body:
            if impossible(q.facts) or impossible(facts_of(q)):
                continue
            if q.end != 'back':
                return 'the search for leaves can stop early'
            node = lambda t: (lambda y: y.op == 'elem' and y.a[1] == x.site or y.op == 'idx' and bare(y.a[0]) is N and bare(y.a[1]).op in ('pos', 'elem') and bare(y.a[1]).a[1] == x.site)(bare(t))
            k = kinds(facts_of(q) + list(q.facts), node)
            v = bare(values(F, x, q).get(lst, lst))
            if v is lst:
                left |= k
                continue
            if not (v.op == 'upd' and last(v.a[0]) == 'push' and bare(v.a[3]) is lst):
                return f'the list of leaves becomes {show(v)[:60]}'
            y = strip(deref(v.a[4]))
            if not (y.op in ('pos', 'elem') and y.a[1] == x.site):
                return f'the place listed is {show(y)[:60]}'
            got |= k
        if got & OPS or left - OPS or not got:
            return f'the list holds the {sorted(got)} nodes'
        return None
    return 'the list of leaves is not built here'


def lem_add(c, fn):
    """an operator is put above the root or at a leaf with even chance"""
    F = c.ctx.flow(fn, ('append_random_op_in_place', 'prepend_random_op_in_place'))
    sides = {}
    for p in rets(F):
        if impossible(p.facts):
            continue
        cs = {coin(f) for f in facts_of(p)} - {None}
        if len(cs) != 1:
            return 'the place is not decided by one fair coin'
        (_, side), = cs
        r = deref(rebuild(p.ret, p.env))
        if not is_call(r, 'append_random_op_in_place', 'prepend_random_op_in_place'):
            return f'the answer is {show(r)[:60]}'
        for k in range(2, F.f.argc + 1):
            if root_arg(F, r.a[k]) is not mk_arg(F, k):
                return f'{show(r.a[k])[:60]} is handed on'
        sides.setdefault(side, set()).add(last(r.a[0]))
    if sorted(map(sorted, sides.values())) != [['append_random_op_in_place'], ['prepend_random_op_in_place']]:
        return 'the two sides of the coin do not give both ways of adding'
    return None


def root_arg(F, t):
    t = deref(t)
    while isinstance(t, T) and t.op == 'upd':
        t = deref(t.a[3])
    return t


def capped(t):
    """the values t is the least of, each taken as at least one"""
    t = strip(deref(t))
    if is_call(t, 'min'):
        return capped(t.a[1]) | capped(t.a[2])
    if is_call(t, 'max'):
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if constant(strip(deref(a))) == 1:
                return capped(b)
    return {t}


def users(c, fn):
    return [c.p.fns[u] for u in sorted(c.ctx.callers().get(fn['id'], ())) if not test_fn(c, u)]


def lem_sizes(c, fn, kind):
    """the size asked for"""
    n = 0
    for u in users(c, fn):
        F = c.ctx.flow(u, (fn['n'].split('::')[-1], 'usize_range', 'usize_range_inclusive'))
        for i, e in F.events():
            if e.k != 'call' or not e.cn or e.cn.split('::')[-1] != fn['n'].split('::')[-1]:
                continue
            n += 1
            if not is_fld(deref(e.args[1]), 'operators'):
                return f'operators are {show(e.args[1])[:60]}'
            f = strip(deref(e.args[2]))
            if not (is_fld(f, 'n_features') or f.op == 'arg'):
                return f'the number of features is {show(f)[:60]}'
            if kind == 'random':
                d = deref(e.args[3])
                if not is_call(d, 'usize_range', 'usize_range_inclusive'):
                    return f'the size is {show(d)[:60]}'
                r = deref(d.a[2])
                if is_call(r, 'new') and 'RangeInclusive' in r.a[0]:
                    lo, hi = r.a[1], strip(deref(r.a[2]))
                elif r.op == 'agg' and last(r.a[0]) == 'Range':
                    h = {k: v for k, v in plus(lin(r.a[3]), {1: -1}).items() if v}
                    if len(h) != 1 or 1 in h:
                        return f'the size is drawn from {show(r)[:60]}'
                    lo, hi = r.a[2], next(iter(h))
                else:
                    return f'the size is drawn from {show(r)[:60]}'
                if constant(lo) != 1:
                    return f'the size is drawn from {show(r)[:60]}'
                ps = capped(hi)
                if not any(y.op == 'arg' and y.a[1] != '' or is_fld(y, 'curmaxsize') for y in ps) or any(y.op != 'arg' and not is_fld(y, 'maxsize') and not is_fld(y, 'curmaxsize') for y in ps):
                    return f'the size is at most {show(hi)[:80]}'
            else:
                if constant(strip(deref(e.args[3]))) != 3:
                    return f'{show(e.args[3])[:60]} operators are added to the first expressions'
                if not is_fld(strip(deref(e.args[4])), 'maxsize'):
                    return f'the first expressions are limited by {show(e.args[4])[:60]}'
    return None if n else 'no expression is asked for'


@rule('P43', 'random_expr and random_expr_append_ops: over every round of the growing loop, the list the place is drawn from holds exactly the positions of '
      'the leaves of the nodes there are (fold over them), the draw is over the whole list, the operator drawn there has at most min(requested size - nodes, '
      'D) operands, and the nodes replaced are that leaf; over every way out of the loop, the facts say there is no room, no operator that fits, no leaf, or (for '
      'appending) all rounds are done. random_leaf and add_node_in_place branch on one fair coin into their two cases; a constant leaf is a standard '
      'normal draw, a variable one any feature. Sizes asked for by the callers: uniform in 1..=size limit in force; three operators at the start.',
      ['the draws are those of P42; operators of an arity those of P40'])
def p43(c):
    def go(key, f, lem):
        m = run(lem, c, f)
        c.ob(key, m is None, f['id'], m)
    M = lambda n: c.p.fn('mutation_functions::' + n)
    go('leaf', M('random_leaf'), lem_leaf)
    go('add', M('add_node_in_place'), lem_add)
    go('random_expr', M('random_expr'), lambda c, f: grow(c, f, False))
    go('random_expr_append_ops', M('random_expr_append_ops'), lambda c, f: grow(c, f, True))
    go('size of a random expression', M('random_expr'), lambda c, f: lem_sizes(c, f, 'random'))
    go('first expressions', M('random_expr_append_ops'), lambda c, f: lem_sizes(c, f, 'first'))
