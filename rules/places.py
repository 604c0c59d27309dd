"""P40: where a mutation strikes, and what the three point mutations do there."""
from fractions import Fraction
from sa.core import *
from sa.rulelib import *
from sa.algebra import C, V, Unknown
from sa.walk import Loop, rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, strip, rets, run, terms_of, lin
from rules.simplify import last, impossible, ended, deref, arg_where, calls_in
from rules.choice import loops_in, all_loops, num, plain
from rules.schedule import under_upd
from rules.measures import facts_of, values
from rules.browser import bare
from rules.optimise import core, over_range

OPQ = ('usize_range', 'subtree_sizes', 'subtree_range', 'child_ranges', 'compress_constants', 'random_leaf', 'sample_arity', 'sample_op', 'nops',
       'total_ops_up_to', 'standard_normal', 'remap_subtree_consts')
KINDS = frozenset(('Var', 'Const', 'Op2', 'Op'))
LEAF, OPS = frozenset(('Var', 'Const')), frozenset(('Op2', 'Op'))


def is_draw(t):
    return t.op == 'call' and last(t.a[0]) in ('usize_range', 'usize') and len(t.a) >= 3 and isinstance(t.a[2], T) and deref(t.a[2]).op == 'agg'


def bounds(d):
    """(low, past the end) of a draw"""
    r = deref(d.a[2])
    if r.op == 'agg' and last(r.a[0]) == 'Range':
        return r.a[2], r.a[3]
    raise Bad(f'a draw from {show(r)[:60]}')


def draws(p):
    """draws made on a path, in order, with those of loops"""
    out = []
    def go(items, env):
        for it in items:
            if isinstance(it, Loop):
                for b in it.body:
                    go(b.items, b.env)
            elif it[0].k == 'call' and it[0].res is not None:
                t = rebuild(it[0].res, it[2])
                if is_draw(t) and t not in out:
                    out.append(t)
    go(p.items, p.env)
    return out


def len_of(t):
    t = strip(deref(t))
    return under_upd(t.a[0]) if t.op == 'len' else under_upd(t.a[1]) if is_call(t, 'len') else None


def all_nodes(t):
    t = bare(t)
    while is_call(t, 'iter', 'enumerate', 'into_iter', 'copied', 'cloned'):
        t = bare(t.a[1])
    return is_fld(t, 'nodes')


def kinds(fs, is_node):
    """the kinds a node can still have"""
    k = KINDS
    for f in fs:
        if f.op in ('is', 'isnt') and is_node(f.a[0]):
            s = {'Var': {'Var'}, 'Const': {'Const'}, 'Op': OPS}.get(f.a[1])
            if s is None:
                continue
            k = k & s if f.op == 'is' else k - s
        if f.op in ('eq', 'ne') and len(f.a) >= 2 and isinstance(f.a[0], T) and isinstance(f.a[1], T):
            x, y = strip(f.a[0]), strip(f.a[1])
            for u, v in ((x, y), (y, x)):
                if v.op == 'vf' and v.a[1] == 'Op' and v.a[2] in ('arity', '0') and is_node(v.a[0]) and constant(u) is not None:
                    s = {'Op2'} if constant(u) == 2 else {'Op'} if constant(u) > 2 else frozenset()
                    if constant(u) == 2:
                        k = k & s if f.op == 'eq' else k - s
    return k


def goes_over_nodes(src):
    src = bare(src)
    if all_nodes(src):
        return True
    return src.op == 'agg' and last(src.a[0]) == 'Range' and constant(src.a[2]) == 0 and len_of(src.a[3]) is not None and all_nodes(len_of(src.a[3]))


def listed(F, p, L):
    """(loop, variable) that builds the list of positions L by pushing, from an empty list"""
    for x in all_loops(p.items):
        if L in (x.accs or ()):
            e = bare(rebuild(x.entries[L], p.env)) if L in x.entries else None
            if e is not None and (is_call(e, 'new', 'with_capacity', 'default') or e.op == 'phi'):
                return x
    return None


def grows(F, x, L, b):
    """what one round appends: None, or the position"""
    v = values(F, x, b).get(L, L)
    v = bare(v)
    if v is L:
        return None
    if v.op == 'upd' and last(v.a[0]) == 'push' and bare(v.a[3]) is L:
        return strip(deref(v.a[4]))
    raise Bad(f'the list of places becomes {show(v)[:80]}')


def candidates(F, p, L):
    """which nodes a list of positions holds"""
    x = listed(F, p, L)
    if x is None:
        raise Bad('the list of places is not built here')
    if not ended(facts_of(p) + list(p.facts), x):
        raise Bad('the search for places can stop early')
    src = rebuild(x.src, p.env)
    if not goes_over_nodes(src):
        return children_list(F, p, L, x, src)
    got, left = set(), set()
    inner = False
    for b in x.body:
        if impossible(b.facts) or impossible(facts_of(b)):
            continue
        if b.end != 'back':
            raise Bad('the search for places can stop early')
        fs = facts_of(b) + list(b.facts)
        node = lambda t: here(t, x.site)
        k = kinds(fs, node)
        v = grows(F, x, L, b)
        about = lambda t: child_node(t, x.site)
        sub = list(all_loops(b.items))
        if sub or any(f.op in ('is', 'isnt') and about(f.a[0]) for f in fs):
            inner = True
            hit = kinds(fs, about) <= OPS
            if hit != (v is not None):
                raise Bad('an operator is listed by something other than an operand that is an operator')
            if hit and not over_range(v, x):
                raise Bad(f'the place listed is {show(v)[:60]}')
            for y in sub:
                src = bare(rebuild(y.src, b.env))
                while is_call(src, 'iter', 'into_iter', 'enumerate'):
                    src = bare(src.a[1])
                if not is_call(src, 'child_ranges') or not (hit or ended(fs, y)):
                    raise Bad('not every operand is looked at')
                for q in y.body:
                    if q.end == 'back' and kinds(facts_of(q) + list(q.facts), about) & OPS:
                        raise Bad('an operand that is an operator is passed over')
            if not sub and not hit:
                raise Bad('not every operand is looked at')
            continue
        if v is None:
            left |= k if not arity_zero(fs, x.site) else set()
        else:
            if not over_range(v, x):
                raise Bad(f'the place listed is {show(v)[:60]}')
            got |= k
    if inner:
        if got or left & OPS:
            raise Bad('the list of places mixes kinds')
        return 'operators over operators'
    if got & left:
        raise Bad(f'some {sorted(got & left)} nodes are places and others are not')
    return frozenset(got)


def arity_zero(fs, site):
    return any(f.op == 'eq' and len(f.a) >= 2 and any(isinstance(u, T) and constant(u) == 0 for u in f.a[:2]) and any(isinstance(u, T) and strip(u).op == 'vf' and strip(u).a[2] in ('arity', '0') for u in f.a[:2]) for f in fs)


def here(t, site):
    t = bare(t)
    return t.op == 'elem' and t.a[1] == site and all_nodes(t.a[0]) or t.op == 'idx' and all_nodes(t.a[0]) and bare(t.a[1]).op in ('elem', 'pos') and bare(t.a[1]).a[1] == site


def child_node(t, site=None):
    """a node at the end of the range of an operand (of the node a loop is at)"""
    t = bare(t)
    if not (t.op == 'idx' and all_nodes(t.a[0])):
        return False
    cs = [x for x in terms_of(t.a[1]) if is_call(x, 'child_ranges')]
    return bool(cs) and (site is None or all(bare(x.a[2]).op in ('pos', 'elem') and bare(x.a[2]).a[1] == site for x in cs))


def children_list(F, p, L, x, src):
    """operands (of one operator) that are operators"""
    src = bare(src)
    while is_call(src, 'iter', 'enumerate', 'into_iter'):
        src = bare(src.a[1])
    if not is_call(src, 'child_ranges'):
        raise Bad(f'places are looked for in {show(src)[:60]}')
    for b in x.body:
        if impossible(b.facts) or impossible(facts_of(b)):
            continue
        if b.end != 'back':
            raise Bad('the search for places can stop early')
        k = kinds(facts_of(b) + list(b.facts), lambda t: child_node(t))
        v = grows(F, x, L, b)
        if (v is None) != (not k & OPS) or v is not None and not k <= OPS:
            raise Bad('an operand is listed by something other than being an operator')
        if v is not None and not over_range(v, x):
            raise Bad(f'the operand listed is {show(v)[:60]}')
    return 'operands that are operators'


def arity_of(t):
    t = strip(deref(t))
    return t.op == 'vf' and t.a[1] == 'Op' and t.a[2] in ('arity', '0') or is_call(t, 'sample_arity') or \
        len_of(t) is not None and is_call(bare(len_of(t)), 'child_ranges')


def what(F, p, d, nf):
    """what a draw chooses among"""
    lo, hi = bounds(d)
    if constant(lo) != 0:
        raise Bad(f'a draw starts at {show(lo)[:40]}')
    h = len_of(hi)
    if h is not None and not is_call(bare(h), 'child_ranges'):
        if all_nodes(h):
            return 'nodes'
        return candidates(F, p, h)
    if arity_of(hi):
        return 'operand'
    if strip(deref(hi)) is nf or is_fld(strip(deref(hi)), 'n_features'):
        return 'feature'
    raise Bad(f'a draw below {show(hi)[:60]}')


def seen_terms(p):
    out = set()
    def go(items, env):
        for it in items:
            if isinstance(it, Loop):
                for b in it.body:
                    out.update(rebuild(f, b.env) for f in b.facts)
                    go(b.items, b.env)
                continue
            e, _, en = it
            if e.value is not None and isinstance(e.value, T):
                out.add(rebuild(e.value, en))
            for a in e.args or ():
                if isinstance(a, T):
                    out.add(rebuild(a, en))
            for s in e.path or ():
                if s[0] == 'i' and isinstance(s[1], T):
                    out.add(rebuild(s[1], en))
    go(p.items, p.env)
    out.update(rebuild(f, p.env) for f in p.facts)
    out.add(rebuild(p.ret, p.env))
    return out


def as_is(p, d, kind):
    """the number drawn is used as it is"""
    used = False
    done = set()
    todo = list(seen_terms(p))
    while todo:
        t = todo.pop()
        if t in done:
            continue
        done.add(t)
        for x in t.a:
            if not isinstance(x, T):
                if isinstance(x, tuple):
                    todo += [y for q in x if isinstance(q, tuple) for y in q if isinstance(y, T)]
                continue
            todo.append(x)
            if x is not d:
                continue
            if t.op in ('upd',):
                continue
            if t.op in ('eq', 'ne'):
                used = True
                continue
            used = True
            if t.op in ('Rem', 'Div', 'Mul', 'BitAnd', 'Shr', 'Shl') or kind != 'nodes' and t.op in ('Add', 'Sub') or \
                    t.op == 'call' and last(t.a[0]) in ('min', 'max', 'saturating_sub', 'clamp', 'rem_euclid', 'wrapping_sub', 'saturating_add'):
                raise Bad('the number drawn is changed before it is used')
    return used


def gives_up(p, nf):
    """the path says why there is nothing to do"""
    for f in facts_of(p) + list(p.facts):
        if f.op in ('eq', 'le', 'lt', 'not', 'isnt', 'is'):
            ts = [x for x in f.a if isinstance(x, T)]
            if f.op == 'eq' and any(constant(x) == 0 for x in ts):
                o = [strip(deref(x)) for x in ts if constant(x) != 0]
                for x in o:
                    L = len_of(x)
                    if L is not None or is_call(x, 'nops', 'total_ops_up_to') or arity_of(x):
                        return True
            if is_call(f, 'is_empty'):
                return True
            if f.op in ('lt', 'le') and len(ts) >= 2 and len_of(ts[0]) is not None and constant(ts[1]) == (1 if f.op == 'lt' else 0):
                return True
            if f.op in ('le', 'lt') and len(ts) >= 2 and strip(ts[0]) is nf and constant(ts[1]) is not None and constant(ts[1]) - (f.op == 'lt') <= 1:
                return True
            if f.op == 'isnt' and f.a[0].op == 'idx' and all_nodes(f.a[0].a[0]):
                return True
            if f.op == 'is' and f.a[0].op == 'idx' and all_nodes(f.a[0].a[0]) and f.a[1] in ('Var', 'Const', 'Op'):
                pass
            if f.op == 'le' and len(ts) >= 2 and strip(ts[0]) is nf and strip(ts[1]).op == 'vf':
                return True
            if f.op == 'eq' and len(ts) >= 2 and all(any(is_call(y, 'subtree_range') for y in terms_of(x)) for x in ts[:2]):
                return True
    return False


def lem_place(expect, tries=False):
    def lem(c, fn):
        F = c.ctx.flow(fn, OPQ)
        nf = mk_arg(F, arg_where(F, lambda t: t == 'usize')) if any(fn['locals'][k]['ty'] == 'usize' for k in range(1, fn['argc'] + 1)) else None
        n = 0
        for p in rets(F):
            if impossible(p.facts) or impossible(facts_of(p)):
                continue
            ds = draws(p)
            r = strip(deref(p.ret))
            if fn['locals'][0]['ty'] == 'bool' and constant(r) == 0:
                if not gives_up(p, nf) and not (tries and len(ds) >= len(expect)):
                    return 'gives up although there is a place to change'
                continue
            got = [what(F, p, d, nf) for d in ds]
            if got != list(expect):
                return f'the draws choose among {[sorted(g) if isinstance(g, frozenset) else g for g in got]}'
            for d, g in zip(ds, got):
                if not as_is(p, d, g):
                    return 'a number is drawn and not used'
                if under_arg(d.a[1]) is None:
                    return 'a number is not drawn from the generator given'
            for t in {x for s in seen_terms(p) for x in terms_of(s)}:
                if t.op == 'idx':
                    L = under_upd(t.a[0])
                    if L in {len_of(bounds(d)[1]) for d in ds} and not all_nodes(L) and bare(t.a[1]) not in ds and not (bare(t.a[1]).op in ('elem', 'pos')):
                        return f'the place is {show(t)[:80]}'
            n += 1
        return None if n else 'never succeeds'
    return lem


def under_arg(t):
    """the generator a draw was made with is one that was passed in"""
    t = under_upd(deref(t))
    return t if t.op in ('arg', 'phi', 'fld') else None


def node_at(t):
    """the draw that picked the node"""
    t = bare(t)
    if t.op == 'idx' and all_nodes(t.a[0]):
        i = bare(t.a[1])
        if i.op == 'idx' and is_draw(bare(i.a[1])):
            return i
    return None


def changes(F, p, what_):
    """writes to the expression on a path"""
    out = []
    def go(items, env):
        for it in items:
            if isinstance(it, Loop):
                for b in it.body:
                    go(b.items, b.env)
                continue
            e, _, en = it
            if e.k == 'write' and isinstance(e.root, T) and bare(e.root).op == 'arg' and e.path:
                out.append((e, en))
            elif e.k == 'call' and last(e.cn or '') in ('push', 'insert', 'remove', 'swap', 'clear', 'truncate', 'splice', 'compress_constants', 'reverse', 'sort'):
                a = deref(rebuild(e.args[0], en))
                if is_fld(under_upd(a), 'nodes') or is_fld(under_upd(a), 'consts') or e.cn.endswith('compress_constants'):
                    raise Bad(f'{last(e.cn)} changes more than one entry')
    go(p.items, p.env)
    return out


def target(e, en, field):
    """index of the entry of expr.<field> that is written"""
    path = e.path
    if len(path) > 2 and path[1][0] == 'i' and path[-1][-1] in ('op', '1'):
        path = path[:2]
    if len(path) == 2 and path[0][0] == 'f' and path[0][2] == field and path[1][0] == 'i':
        return strip(deref(rebuild(path[1][1], en)))
    if is_fld(e.root, field) and len(path) == 1 and path[0][0] == 'i':
        return strip(deref(rebuild(path[0][1], en)))
    return None


def lem_constant(c, fn):
    F = c.ctx.flow(fn, OPQ)
    temp = mk_arg(F, arg_where(F, lambda t: t == 'f64'))
    seen = {}
    def rf(t, env):
        t = strip(deref(t))
        if t in env:
            return env[t]
        k = num(t)
        if k is not None:
            return C(Fraction(k))
        o = t.op
        if t.op == 'call' and len(t.a) in (3, 4):
            o = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div'}.get(last(t.a[0]), o)
        if o in ('Add', 'Sub', 'Mul', 'Div'):
            a, b = [rf(x, env) for x in (t.a[1:3] if t.op == 'call' else t.a[:2])]
            return a + b if o == 'Add' else a - b if o == 'Sub' else a * b if o == 'Mul' else a / b
        if o == 'Neg' or is_call(t, 'neg'):
            return -rf(t.a[0] if o == 'Neg' else t.a[1], env)
        if is_call(t, 'recip'):
            return C(1) / rf(t.a[1], env)
        if is_call(t, 'powf', 'pow'):
            base, ex = rf(t.a[1], env), strip(deref(t.a[2]))
            if base != C(Fraction(1.1)) + V('factor') * V('heat'):
                raise Bad(f'the largest change is {show(t.a[1])[:80]}')
            neg = ex.op == 'Neg'
            u = strip(deref(ex.a[0])) if neg else ex
            if not is_unit(u):
                raise Bad(f'the exponent is {show(ex)[:60]}')
            exps.add(u)
            return C(1) / V('power') if neg else V('power')
        if is_fld(t, 'perturbation_factor'):
            return V('factor')
        if is_call(t, 'max') and len(t.a) >= 3:
            a = [strip(deref(x)) for x in t.a[1:3]]
            if temp in a and any(num(x) == 0 for x in a):
                return V('heat')
        if t is temp and heat:
            return V('heat') if heat == 'positive' else C(0)
        x = core(t)
        if x.op == 'call' and last(x.a[0]) in ('from', 'from_f64', 'cast'):
            return rf(x.a[1], env)
        raise Unknown(f'{show(t)[:60]} in a factor')
    for p in rets(F):
        fs = facts_of(p) + list(p.facts)
        if impossible(p.facts) or impossible(fs):
            continue
        ws = changes(F, p, 'consts')
        if constant(strip(deref(p.ret))) == 0:
            if ws:
                return 'a constant is changed and failure reported'
            continue
        if len(ws) != 1:
            return f'{len(ws)} entries are changed'
        e, en = ws[0]
        i = target(e, en, 'consts')
        if i is None:
            return 'something other than one constant is changed'
        j = i
        if not (j.op == 'vf' and j.a[1] == 'Const' and node_at(j.a[0]) is not None):
            return f'the constant changed is number {show(i)[:80]}'
        v = rebuild(e.value, en)
        old = [x for x in terms_of(v) if x.op == 'idx' and is_fld(bare(x.a[0]), 'consts')]
        if len({(x.a[0], strip(deref(x.a[1]))) for x in old}) != 1 or strip(deref(old[0].a[1])) is not i:
            return 'the constant is not scaled from its own value'
        heat = None
        for f in fs:
            if f.op in ('lt', 'le') and len(f.a) >= 2 and num(f.a[0]) == 0 and strip(deref(f.a[1])) is temp:
                heat = 'positive'
            if f.op in ('lt', 'le') and len(f.a) >= 2 and num(f.a[1]) == 0 and strip(deref(f.a[0])) is temp:
                heat = 'none'
        exps = set()
        q = rf(v, {x: V('old') for x in old}) / V('old')
        if len(exps) != 1:
            return 'the factor has no random exponent'
        up = [q == s * V('power') for s in (C(1), C(-1))]
        dn = [q == s / V('power') for s in (C(1), C(-1))]
        if not any(up + dn):
            return f'the factor is {show(v)[:120]}'
        coin = [f for f in fs if is_coin(f) or f.op == 'not' and is_coin(f.a[0])]
        flip = [f for f in fs if f.op in ('lt', 'le') and any(isinstance(x, T) and is_fld(strip(deref(x)), 'probability_negate_constant') for x in f.a)]
        nflip = [f.a[0] for f in fs if f.op == 'not' and f.a[0].op in ('lt', 'le') and any(isinstance(x, T) and is_fld(strip(deref(x)), 'probability_negate_constant') for x in f.a[0].a)]
        cs = {f.op != 'not' for f in coin}
        side = {is_fld(strip(deref(f.a[0])), 'probability_negate_constant') for f in flip} | {not is_fld(strip(deref(f.a[0])), 'probability_negate_constant') for f in nflip}
        if len(cs) != 1 or len(side) != 1:
            return 'the factor does not follow one coin and one draw for the sign'
        dr = {strip(deref(x)) for f in flip + nflip for x in f.a if isinstance(x, T) and not is_fld(strip(deref(x)), 'probability_negate_constant')}
        if len(dr) != 1 or not is_unit(next(iter(dr))) or dr & exps:
            return 'the sign is not decided by a draw of its own'
        seen.setdefault((cs.pop(), side.pop()), set()).add((any(up), up[0] or dn[0]))
    if set(seen) != {(a, b) for a in (True, False) for b in (True, False)} or any(len(v) != 1 for v in seen.values()):
        return 'a case of size or sign is missing'
    g = {k: next(iter(v)) for k, v in seen.items()}
    if len(set(g.values())) != 4 or g[True, True][0] != g[True, False][0] or g[True, True][1] != g[False, True][1]:
        return 'size and sign do not follow their own draws'
    return None


def ends(t):
    """(low, the smallest of which is high, whether high is excluded) of a range of numbers"""
    t = bare(t)
    if is_call(t, 'new') and 'RangeInclusive' in t.a[0]:
        lo, hi, up = t.a[1], t.a[2], 0
    elif t.op == 'agg' and last(t.a[0]) in ('Range', 'RangeInclusive'):
        lo, hi, up = t.a[2], t.a[3], last(t.a[0]) == 'Range'
    else:
        return t

    def parts(x):
        x = strip(deref(x))
        return frozenset().union(*(parts(y) for y in x.a[1:3])) if is_call(x, 'min') else frozenset([x])
    return strip(lo), parts(hi), up


def same_range(a, b):
    """two ranges of numbers with the same ends, nested minima flattened"""
    return ends(a) == ends(b)


def lem_total(c, fn):
    """the operators of every arity up to the given one are counted"""
    F = c.ctx.flow(fn, ('nops',))
    up_to = mk_arg(F, 2)
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        t = strip(deref(rebuild(p.ret, p.env)))
        src = None
        if is_call(t, 'sum') and is_call(bare(t.a[1]), 'map'):
            src = bare(t.a[1]).a[1]
            inner = bare(src)
            cut = next((x for x in terms_of(src) if x.op == 'agg' and last(x.a[0]) == 'RangeTo'), None)
            if cut is not None and any(is_fld(x, 'ops_by_arity') for x in terms_of(src)) and not any(is_call(x, 'skip', 'step_by', 'filter') for x in terms_of(src)):
                if up_to not in ends(mk('agg', 'Range', None, cut, cut.a[2]))[1]:
                    return f'{show(cut)[:60]} arities are counted'
                n += 1
                continue
            if is_call(inner, 'take') and any(is_fld(x, 'ops_by_arity') for x in terms_of(inner.a[1])) and not any(is_call(x, 'skip', 'rev', 'step_by', 'filter') for x in terms_of(inner.a[1])):
                if strip(deref(inner.a[2])) is not up_to:
                    return f'{show(inner.a[2])[:60]} arities are counted'
                n += 1
                continue
        else:
            for L in loops_in(p):
                if t in (L.accs or ()):
                    src = rebuild(L.src, p.env)
        if src is None or not sums_ops(c, F, p, t, src):
            return f'{show(t)[:80]} is not a count of operators'
        e = ends(src)
        if isinstance(e, T) or constant(e[0]) != 1 or e[2] or up_to not in e[1] or not all(x is up_to or constant(x) is None and x.op != 'arg' for x in e[1]):
            return f'operators are counted for the arities {show(src)[:80]}'
        n += 1
    return None if n else 'nothing is counted'


def sums_ops(c, F, p, t, src):
    """t is the number of operators of all arities in src"""
    t = strip(deref(t))
    if is_call(t, 'sum') and is_call(bare(t.a[1]), 'map'):
        m = bare(t.a[1])
        cl = deref(m.a[2])
        g = c.p.fns.get(cl.a[0].split('closure:', 1)[1]) if cl.op == 'agg' and 'closure:' in cl.a[0] else None
        if g is None or not same_range(m.a[1], src):
            return False
        G = c.ctx.flow(g, ('nops',))
        return all(is_call(strip(v), 'nops') and strip(deref(strip(v).a[2])).op == 'arg' for _, v in G.returns())
    for L in loops_in(p):
        if t in (L.accs or ()) and same_range(rebuild(L.src, p.env), src) and constant(rebuild(L.entries[t], p.env)) == 0:
            return all(per_arity(values(F, L, b).get(t, t), t, 'Add', L) for b in L.body if b.end == 'back')
    return False


def per_arity(v, acc, op, L):
    v = strip(v)
    if v.op != op:
        return False
    a, b = strip(v.a[0]), strip(v.a[1])
    if op == 'Add' and b is acc:
        a, b = b, a
    return a is acc and is_call(b, 'nops') and strip(deref(b.a[2])).op == 'elem' and strip(deref(b.a[2])).a[1] == L.site


def lem_arity(c, fn):
    """an arity is drawn in proportion to its number of operators"""
    F = c.ctx.flow(fn, ('usize_range', 'nops'))
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        ds = draws(p)
        if len(ds) != 1 or constant(bounds(ds[0])[0]) != 0:
            return 'not one draw among all operators'
        d = ds[0]
        v = strip(rebuild(p.ret, p.env))
        ok = False
        for L in loops_in(p):
            if v.op != 'elem' or v.a[1] != L.site:
                continue
            src = bare(rebuild(L.src, p.env))
            if not sums_ops(c, F, p, bounds(d)[1], src):
                return f'the draw is below {show(bounds(d)[1])[:80]}'
            for a in L.accs:
                e = strip(rebuild(L.entries[a], p.env)) if a in L.entries else None
                fall = lambda t: is_call(strip(t), 'nops') and strip(deref(strip(t).a[2])) is v
                if e is d:
                    hit = any(f.op == 'lt' and strip(f.a[0]) is a and fall(f.a[1]) for f in p.facts)
                    rounds = [b for b in L.body if b.end == 'back' and not impossible(b.facts)]
                    ok |= hit and all(per_arity(values(F, L, b).get(a, a), a, 'Sub', L) for b in rounds)
                elif e is not None and constant(e) == 0:
                    hit = any(f.op == 'lt' and strip(f.a[0]) is d and strip(f.a[1]).op == 'Add' and a in strip(f.a[1]).a[:2] for f in p.facts)
                    rounds = [b for b in L.body if b.end == 'back' and not impossible(b.facts)]
                    ok |= hit and all(per_arity(values(F, L, b).get(a, a), a, 'Add', L) for b in rounds)
        if not ok:
            return 'an arity is not drawn in proportion to its operators'
        n += 1
    return None if n else 'nothing is drawn'


def lem_op(c, fn):
    """an operator of an arity is drawn evenly"""
    F = c.ctx.flow(fn, ('usize_range',))
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        v = strip(rebuild(p.ret, p.env))
        while is_call(v, 'clone'):
            v = strip(deref(v.a[1]))
        i = bare(v.a[1]) if v.op == 'idx' else None
        if i is None or not is_draw(i) or constant(bounds(i)[0]) != 0 or len_of(bounds(i)[1]) is None or bare(len_of(bounds(i)[1])) is not bare(v.a[0]):
            return f'an operator is drawn as {show(v)[:80]}'
        n += 1
    return None if n else 'nothing is drawn'


def is_unit(t):
    return is_call(t, 'f64', 'random') and isinstance(t.a[1], T)


def is_coin(f):
    return is_call(f, 'bool')


def lem_operator(c, fn):
    F = c.ctx.flow(fn, OPQ)
    n = 0
    for p in rets(F):
        if impossible(p.facts) or impossible(facts_of(p)):
            continue
        ws = changes(F, p, 'nodes')
        if constant(strip(deref(p.ret))) == 0:
            if ws:
                return 'a node is changed and failure reported'
            continue
        m, i, v = one_node(ws)
        if m:
            return m
        if v.op == 'agg' and last(v.a[0]) == 'Op':
            ar, op = [strip(deref(x)) for x in v.a[2:4]]
        elif len(ws[0][0].path) > 2 and ws[0][0].path[-1][-1] in ('op', '1'):
            op = strip(v)
            ar = next((strip(deref(x.a[3])) for x in terms_of(op) if is_call(x, 'sample_op')), op)
        else:
            return f'the operator becomes {show(v)[:80]}'
        if not (ar.op == 'vf' and ar.a[2] in ('arity', '0') and node_at(ar.a[0]) is i):
            return f'the arity becomes {show(ar)[:80]}'
        s = [x for x in terms_of(op) if is_call(x, 'sample_op')]
        if len(s) != 1 or not is_fld(op, 'id') or bare(op.a[0]) is not s[0] or strip(deref(s[0].a[3])) is not ar:
            return f'the operator becomes {show(op)[:80]}'
        n += 1
    return None if n else 'never succeeds'


def one_node(ws):
    if len(ws) != 1:
        return f'{len(ws)} entries are changed', None, None
    e, en = ws[0]
    i = target(e, en, 'nodes')
    if i is None:
        # a write through a reference to one node
        return 'something other than one node is changed', None, None
    if not (i.op == 'idx' and is_draw(bare(i.a[1]))):
        return f'the node changed is number {show(i)[:80]}', None, None
    return None, i, deref(rebuild(e.value, en))


def lem_feature(c, fn):
    F = c.ctx.flow(fn, OPQ)
    n = 0
    for p in rets(F):
        fs = facts_of(p) + list(p.facts)
        if impossible(p.facts) or impossible(fs):
            continue
        ws = changes(F, p, 'nodes')
        if constant(strip(deref(p.ret))) == 0:
            if ws:
                return 'a node is changed and failure reported'
            continue
        m, i, v = one_node(ws)
        if m:
            return m
        if not (v.op == 'agg' and last(v.a[0]) == 'Var'):
            return f'the variable becomes {show(v)[:80]}'
        d = strip(deref(v.a[2]))
        while not is_draw(d) and (d.op == 'vf' and d.a[1] in ('Ok', 'Some') or d.op == 'call' and last(d.a[0]) in ('try_into', 'try_from', 'from', 'into', 'unwrap', 'expect')):
            d = strip(deref(d.a[0] if d.op == 'vf' else d.a[1]))
        if not is_draw(d):
            return f'the feature becomes {show(d)[:80]}'
        def old(x):
            x = strip(deref(x))
            return x.op == 'vf' and x.a[1] == 'Var' and node_at(x.a[0]) is i
        if not any(f.op == 'ne' and any(isinstance(x, T) and old(x) for x in f.a) and any(isinstance(x, T) and strip(deref(x)) is d for x in f.a) for f in fs):
            return 'the feature may stay the same'
        n += 1
    return None if n else 'never succeeds'


@rule('P40',
      'Path-by-path dataflow on MIR of every mutation and of crossover: each draw is classified by what its range counts (a list of places '
      'built by a loop whose rounds are read off as which node kinds are listed, all nodes, the operands of an operator, the features) and must be the expected '
      'one, start at zero, and be used unchanged; paths that report failure must carry a fact that nothing can be changed; the writes of '
      'the three point mutations are compared with the chosen place, the factor as a rational function of the drawn power.',
      ['the random generator is uniform on the ranges it is asked for', 'the shapes built are rule P34'])
def p40(c):
    def go(key, f, lem):
        m = run(lem, c, f)
        c.ob(key, m is None, f['id'], m)
    M = lambda n: c.p.fn('mutation_functions::' + n)
    K = frozenset
    for n, expect, tries in (
            ('mutate_constant_in_place', [K(['Const'])], False), ('mutate_operator_in_place', [OPS], False),
            ('mutate_feature_in_place', [K(['Var']), 'feature'], True), ('swap_operands_in_place', [K(['Op2'])], False),
            ('rotate_tree_in_place', ['operators over operators', 'operands that are operators', 'operand'], False),
            ('insert_random_op_in_place', ['nodes', 'operand'], False), ('prepend_random_op_in_place', ['operand'], False),
            ('append_random_op_in_place', [LEAF], False), ('delete_random_op_in_place', [OPS, 'operand'], False),
            ('crossover_trees', ['nodes', 'nodes'], False)):
        go(n, M(n), lem_place(expect, tries))
    go('arity', c.p.fn('Operators::sample_arity'), lem_arity)
    go('operators up to an arity', c.p.fn('Operators::total_ops_up_to'), lem_total)
    go('operator of an arity', c.p.fn('Operators::sample_op'), lem_op)
    go('constant', M('mutate_constant_in_place'), lem_constant)
    go('operator', M('mutate_operator_in_place'), lem_operator)
    go('feature', M('mutate_feature_in_place'), lem_feature)
