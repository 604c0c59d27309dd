"""Exchange of members between populations; determinism."""
from sa.core import *
from sa.rulelib import *
from sa import fold
from sa.term import mk, T
from rules import rule
from rules.hof import arg_of_type
from rules.evolve import is_const
from rules.engine import is_none, mk_arg
from rules.limits import APPLY, leaf_sources, outer_skips, skip_none, num, same, must_facts


def comparator(c, cl, key):
    """+1 when closure term cl(a, b) compares key(a) with key(b) ascending, -1 descending, None otherwise"""
    ctx = c.ctx
    if not (isinstance(cl, T) and cl.op == 'agg' and cl.a[0].startswith('closure:')):
        return None
    name = cl.a[0][8:]
    fs = [f for f in c.p.fns.values() if f['n'] == name or short(f['n']) == short(name)]
    if len(fs) != 1:
        return None
    F = ctx.flow(fs[0], ())
    n = len(F.f.args) if hasattr(F.f, 'args') else 3
    A, B = mk_arg(F, 2), mk_arg(F, 3)
    return order_of(F, A, B, key)


def order_of(F, A, B, key):
    from_ = lambda t, X: mentions(t, lambda z: z is X)
    sgn = set()

    def leaf(v, via, i):
        if v.op == 'vf' and v.a[1] == 'Some':
            v = v.a[0]
        nm = lastname(v)
        if nm in ('unwrap', 'expect', 'unwrap_or'):
            return leaf(v.a[1], via, i)
        if nm == 'reverse':
            x = leaf(v.a[1], via, i)
            return -x if x else None
        if nm in ('partial_cmp', 'total_cmp', 'cmp'):
            a, b = strip_refs(v.a[1]), strip_refs(v.a[2])
            if key(a) and key(b):
                if from_(a, A) and from_(b, B) and not from_(a, B) and not from_(b, A):
                    return 1
                if from_(a, B) and from_(b, A) and not from_(a, A) and not from_(b, B):
                    return -1
        return None
    for i, v in F.returns():
        for (b,), via in cases(F, v, None, depth=0):
            s = leaf(b, via, i)
            if s is None:
                fs = must_facts(F, via, i)
                if any(f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'partial_cmp') for f in fs):
                    continue
                # written out with comparisons
                o = b.a[0].split('::')[-1] if b.op == 'agg' else None
                want = {'Less': 1, 'Greater': -1}.get(o)
                if o == 'Equal' or want is None:
                    if o == 'Equal':
                        continue
                    return None
                for f in fs:
                    if want == -1 and f.op == 'not' and f.a[0].op == 'lt' and key(f.a[0].a[0]) and key(f.a[0].a[1]):
                        # not smaller: greater, or equal or incomparable
                        if from_(f.a[0].a[0], A) and from_(f.a[0].a[1], B):
                            s = 1
                        elif from_(f.a[0].a[0], B) and from_(f.a[0].a[1], A):
                            s = -1
                    if f.op == 'lt' and key(f.a[0]) and key(f.a[1]):
                        if from_(f.a[0], A) and from_(f.a[1], B):
                            s = want
                        elif from_(f.a[0], B) and from_(f.a[1], A):
                            s = -want
                if s is None:
                    return None
            sgn.add(s)
    return sgn.pop() if len(sgn) == 1 else None


def adds(F, cont):
    """(node, event, value, whole): values added to a container term (through its joins); whole = a collection is added.
    None when the container also changes in another way"""
    out, seen, st = [], set(), [cont]
    byk = {}
    for i, e in F.events():
        if e.k == 'call' and e.args:
            byk.setdefault(((e.cn or '').split('::')[-1], e.args[0], e.args[1] if len(e.args) > 1 else None), []).append((i, e))
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x.op == 'phi':
            st += [v for _, v in F.phi_ops.get(x, [])]
        elif x.op == 'upd' and x.a[0].split('::')[-1] in ('push', 'extend', 'append', 'extend_from_slice') and x.a[2] == 0:
            nm = x.a[0].split('::')[-1]
            ev = byk.get((nm, x.a[3], x.a[4]), [])
            if not ev:
                return None
            out += [(i, e, x.a[4], nm != 'push') for i, e in ev]
            st.append(x.a[3])
        elif x.op == 'upd' and x.a[0].split('::')[-1] in ('reserve', 'sort_by', 'shrink_to_fit') and x.a[2] == 0:
            st.append(x.a[3])
        elif x.op == 'call' and x.a[0].split('::')[-1] in ('new', 'with_capacity', 'default'):
            pass
        elif x.op == 'call' and x.a[0].split('::')[-1] in ('collect', 'to_vec', 'into_iter', 'cloned'):
            out.append((None, None, x.a[1], True))
        else:
            return None
    return out


def trips(F, node):
    """terms that bound how often `node` runs: one per enclosing loop, None for a loop without a recognised bound"""
    b = F.n[node].b
    out = []
    srcs = {}
    for h, s, ent in loops(F):
        srcs.setdefault(F.n[h].b, s)
    for h, body in F.loop_bodies().items():
        if b not in body:
            continue
        # innermost-only iteration points whose block lies in this loop but in no smaller one containing node
        bound = None
        for hb, s in srcs.items():
            if hb in body and not any(hb in b2 and b2 < body for b2 in F.loop_bodies().values()):
                bound = range_len(F, s) or bound
        if bound is None:
            for f in F.n[node].facts:
                if f.op == 'lt' and f.a[0].op == 'phi' and f.a[0] in F.phi_key and F.n[F.phi_key[f.a[0]][0]].b in body:
                    ops = [v for _, v in F.phi_ops[f.a[0]]]
                    if all(num(v) == 0 or v is f.a[0] or v.op == 'Add' and num(v.a[0]) == 1 and v.a[1] is f.a[0] for v in ops) and any(num(v) == 0 for v in ops):
                        bound = f.a[1]
        out.append(bound)
    return out


def range_len(F, s):
    s = uniq(F, s)
    if s.op == 'agg' and s.a[0].endswith('Range') and num(s.a[2]) == 0:
        return s.a[3]
    n = lastname(s)
    if n == 'take':
        return s.a[2]
    if n in ('repeat_n',):
        return s.a[2]
    if n in ('map', 'into_iter', 'rev', 'enumerate', 'iter', 'filter', 'skip'):
        return range_len(F, s.a[1])
    return None


def min_of(F, t, node, a, b):
    """t is a (exactly one value satisfying `a`) limited by values satisfying `b`"""
    if t.op != 'phi':
        ps = min_parts(t)
        return any(a(p) for p in ps) and all(a(p) or b(p) for p in ps)
    n = 0
    for (x,), via in cases(F, t, None, depth=0):
        if a(x):
            n += 1
            continue
        if min_of(F, x, node, a, b):
            n += 1
            continue
        if not b(x):
            return False
        fs = set()
        for pr, _ in via:
            if pr != -1:
                fs |= set(F.n[pr].facts) | {f for s, l in F.n[pr].succ for f in F.edge_fset(pr, s, l)}
        if not any(f.op in ('lt', 'le') and f.a[0] is x and a(f.a[1]) or f.op == 'not' and f.a[0].op in ('lt', 'le') and a(f.a[0].a[0]) and f.a[0].a[1] is x for f in fs):
            return False
    return n > 0


def min_parts(t):
    t2 = t
    if lastname(t2) == 'min':
        return min_parts(t2.a[1]) + min_parts(t2.a[2])
    return [t]


def best_pool(F, t):
    """position term of the entry of best_sub_pops that t lies in, or None"""
    while isinstance(t, T):
        u = uniq(F, t)
        if u is not t:
            t = u
            continue
        if t.op == 'elem':
            for x in leaf_sources(F, t.a[0]) or []:
                if from_field(F, x, 'best_sub_pops') and not best_pool(F, x):
                    return mk('pos', x, t.a[1])
                r = best_pool(F, x)
                if r is not None:
                    return r
            return None
        if t.op == 'idx':
            if from_field(F, t.a[0], 'best_sub_pops') and best_pool(F, t.a[0]) is None:
                return t.a[1]
            t = t.a[0]
        elif t.op in ('fld', 'vf', 'with', 'dc', 'ref', 'refm', 'next'):
            t = t.a[0]
        elif t.op == 'call' and lastname(t) in ('iter', 'cloned', 'clone', 'as_slice', 'deref', 'into_iter', 'copied', 'to_vec'):
            t = t.a[1]
        else:
            return None
    return None


@rule('P27',
      'Value analysis on inlined MIR of the result handler: every call that moves members into a population passes the population of the '
      'handled result with that population\'s own random stream and counters; the call under the migration switch passes a collection '
      'whose every addition is an element of another population\'s selection (index compared different from this one\'s), with every '
      'such selection added (loop coverage), and the migration fraction; the call under the hall-of-fame switch passes the Pareto front of '
      'the hall of fame and its own fraction; no path with a switch on misses its call, none with it off reaches it. In the routine '
      'that moves them: every store into the population replaces one whole member by a clone of a drawn migrant that differs only in '
      'identity, birth and parent, inside a loop whose trip count is a minimum over the population size, the number of migrants and the draw, and '
      'is guarded by a positive fraction; nothing else is changed. The selection: ascending-order comparator on cost (closure analysed '
      'separately), truncated to the configured number, elements of that population only.',
      ['the Poisson sampler returns a count for its mean; the stable sort orders by the comparator'])
def p27(c):
    ctx = c.ctx
    A = ctx.flow('apply_task_result', APPLY[:-1])
    opt, res, pools, hall = (arg_of_type(A, x) for x in ('Options', 'SearchTaskResult', 'PopPools', 'HallOfFame'))
    w0 = A.where(0)
    st = lambda t, n: must_derive(A, t, lambda x: is_fld(x, n) and arg_root(x) is res)
    isopt = lambda t, n: is_fld(t, n) and t.a[0] is opt
    kinds = {'migration': [], 'hof_migration': []}
    allm = calls_named(A, 'migrate_into')
    for i, e in allm:
        a = e.args
        c.ob('P27.population', st(a[0], 'pop'), e.at_(), f'members are moved into {show(a[0])[:80]}, not the population of the result')
        for k, n in ((3, 'rng'), (4, 'next_id'), (5, 'next_birth')):
            c.ob('P27.' + n, st(a[k], n), e.at_(), f'migration uses {show(a[k])[:80]} as {n}')
        m = a[1]
        if must_derive(A, m, lambda x: is_call(x, 'pareto_front')):
            kinds['hof_migration'].append(i)
            for x in deep(A, m):
                if is_call(x, 'pareto_front'):
                    c.ob('P27.hall', must_derive(A, x.a[1], lambda z: z is hall), e.at_(), f'the front comes from {show(x.a[1])[:80]}')
            c.ob('P27.hall-fraction', isopt(a[2], 'fraction_replaced_hof'), e.at_(), f'hall-of-fame migration uses fraction {show(a[2])[:80]}')
            p = A.guard_path([i], lambda f: isopt(f, 'hof_migration'))
            c.ob('P27.hall-switch', p is None, e.at_(), 'hall-of-fame migration happens although it is off: ' + fmt(A, p))
            continue
        kinds['migration'].append(i)
        c.ob('P27.fraction', isopt(a[2], 'fraction_replaced'), e.at_(), f'migration uses fraction {show(a[2])[:80]}')
        p = A.guard_path([i], lambda f: isopt(f, 'migration'))
        c.ob('P27.switch', p is None, e.at_(), 'migration happens although it is off: ' + fmt(A, p))
        ads = adds(A, uniq(A, m))
        c.ob('P27.candidates', ads is not None and len(ads) > 0, e.at_(), f'the migrants are {show(m)[:120]}')
        acts, inner = set(), set()
        for j, ev, v, whole in ads or []:
            if j is None:
                c.fail('P27.others', e.at_(), f'the migrants include {show(v)[:100]}')
                continue
            for x in expand(A, v):
                pos = best_pool(A, x)
                c.ob('P27.others', pos is not None, ev.at_(), f'a migrant comes from {show(x)[:100]}, not from a selection of another population')
                if pos is None:
                    continue
                q = A.guard_path([j], lambda f: f.op == 'ne' and pos in f.a[:2] and any(is_fld(z, 'pop_idx') and z.a[0] is res for z in f.a[:2]))
                c.ob('P27.not-own', q is None, ev.at_(), 'migrants can come from the population itself: ' + fmt(A, q))
                lv = leaf_sources(A, uniq(A, x)) if whole else None
                if whole:
                    c.ob('P27.whole', bool(lv), ev.at_(), f'only part of a selection is offered: {show(x)[:100]}')
            (acts if whole else inner).add(j)
        own = lambda f: f.op == 'eq' and any(is_fld(z, 'pop_idx') and z.a[0] is res for z in f.a[:2])
        c.ob('P27.every', covers(A, acts, inner, own), w0, 'the selection of another population can be left out')
    for k, l in kinds.items():
        c.ob('P27.' + k, len(l) > 0, w0, f'no members are moved under {k}')
        p = A.path_avoiding(set(A.ret_nodes()), set(l), lambda x, y, lab: any(f.op == 'not' and isopt(f.a[0], k) for f in A.edge_facts(x, lab)))
        c.ob('P27.always', p is None, w0, f'{k} is on but no members are offered: ' + fmt(A, p))
    moves(c)
    selection(c)


def covers(F, acts, inner, excuse):
    """every entry of best_sub_pops is added (acts: a whole entry; inner: element by element)"""
    rets = set(F.ret_nodes())
    ex = lambda x, y, l: any(excuse(f) for f in F.edge_fset(x, y, l)) or skip_none(F)(x, y, l)
    good = set()
    ls = loops(F)
    for h, s, ent in ls:
        hs = {z for z in F.rpo if F.n[z].b == F.n[h].b}
        if any(a in F.reach_set(x) for a in inner for x in ent) and leaf_sources(F, s) is not None and all(best_pool(F, x) is not None for x in leaf_sources(F, s)):
            if all(x in inner or F.path_avoiding(rets | hs, inner, skip_none(F), x) is None for x in ent):
                good |= hs
    todo = acts | good
    for h, s, ent in ls:
        hs = {z for z in F.rpo if F.n[z].b == F.n[h].b}
        l = leaf_sources(F, s)
        if l is None or not todo or not any(hs & F.reach_set(a) for a in todo):
            continue
        if not (any(from_field(F, x, 'best_sub_pops') and best_pool(F, x) is None for x in l) or range_len(F, s) is not None):
            continue
        if all(x in todo or F.path_avoiding(rets | hs, todo, ex, x) is None for x in ent):
            return True
    return False


def moves(c):
    ctx = c.ctx
    F = ctx.flow('migrate_into', ('poisson_sample', 'usize_range', 'choose', 'usize_range_inclusive'))
    dst = arg_of_type(F, 'Population')
    migs = next((mk('arg', k, F.f.locals[k].get('n', '')) for k in range(1, 8) if 'PopMember' in F.f.locals[k]['ty'] and 'Population' not in F.f.locals[k]['ty']), None)
    frac = next((mk('arg', k, F.f.locals[k].get('n', '')) for k in range(1, 8) if F.f.locals[k]['ty'] == 'f64'), None)
    c.need(migs is not None and frac is not None, 'migrate_into has other parameters')
    isl = lambda t: is_call(t, 'len') and is_fld(whole(F, t.a[1]), 'members') and arg_root(whole(F, t.a[1])) is dst
    ism = lambda t: is_call(t, 'len') and t.a[1] is migs
    n = 0
    for i, e, sfx, v in muts(F, 'members', 'Population'):
        if v is None and (e.cn or '').split('::')[-1] in ('is_empty', 'len'):
            continue
        n += 1
        last = sfx[0] if len(sfx) == 1 else None
        c.ob('P27.replace', v is not None and last is not None and last[0] == 'i', e.at_(), 'migration changes the population other than by replacing a whole member')
        if v is None:
            continue
        for x in expand(F, v):
            b, ch = x, []
            while b.op == 'with':
                ch += [path_name(p) for p, _ in b.a[1]]
                b = b.a[0]
            drawn = lambda t: t.op == 'vf' and is_call(t.a[0], 'choose') and t.a[0].a[2] is migs or t.op in ('idx', 'elem') and t.a[0] is migs
            c.ob('P27.migrant', drawn(strip_refs(b)), e.at_(), f'a member is replaced by {show(b)[:100]}, not by a migrant')
            bad = set(ch) - {'id', 'birth', 'parent'}
            c.ob('P27.copy', not bad, e.at_(), f'a migrant is changed on the way: {sorted(bad)}')
        loc = last[1] if last and last[0] == 'i' else None
        ok = loc is not None and any((is_call(z, 'usize_range') and z.a[2].op == 'agg' and num(z.a[2].a[2]) == 0 and isl(z.a[2].a[3])) for z in ([loc] if isinstance(loc, T) else []))
        c.ob('P27.place', ok, e.at_(), f'the place of a migrant is {show(loc)[:100]}, not drawn over the whole population')
        tr = trips(F, i)
        parts = [p for b in tr if b is not None for p in min_parts(b)]
        c.ob('P27.bound-population', any(isl(p) for p in parts) and None not in tr, e.at_(), 'more members can be replaced than the population has')
        c.ob('P27.bound-migrants', any(ism(p) for p in parts) and None not in tr, e.at_(), 'more members can be replaced than there are migrants')
        ps = [p for p in parts if is_call(p, 'poisson_sample')]
        okm = len(ps) == 1 and len(tr) == 1 and len(parts) <= 3 and ps[0].a[2].op == 'Mul' and set_is(ps[0].a[2].a[:2], frac, isl)
        c.ob('P27.mean', okm, e.at_(), 'the number of replacements is not drawn with mean fraction times population size')
        p = F.guard_path([i], lambda f: f.op == 'not' and f.a[0].op in ('le', 'lt') and frac in f.a[0].a[:1] and num(f.a[0].a[1]) == 0 or f.op == 'lt' and num(f.a[0]) == 0 and f.a[1] is frac)
        c.ob('P27.positive', p is None, e.at_(), 'members are replaced with a fraction of zero: ' + fmt(F, p))
    c.floor('replacements', n, 1)
    # every iteration replaces one
    acts = {i for i, e, _, v in muts(F, 'members', 'Population') if v is not None}
    rets = set(F.ret_nodes())
    for h, s, ent in loops(F):
        hs = {z for z in F.rpo if F.n[z].b == F.n[h].b}
        if not any(a in F.reach_set(h) for a in acts):
            continue
        for x in ent:
            q = None if x in acts else F.path_avoiding(rets | hs, acts, lambda a, b, l: any(f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'choose') for f in F.edge_facts(a, l)), x)
            c.ob('P27.each', q is None, F.where(h), 'a drawn replacement does not happen: ' + fmt(F, q))
    # nothing is left out early
    drawn0 = lambda f: f.op == 'eq' and (num(f.a[0]) == 0 and (isl(f.a[1]) or ism(f.a[1]) or is_call(f.a[1], 'min', 'poisson_sample'))) or \
        f.op == 'le' and f.a[0] is frac and num(f.a[1]) == 0 or f.op == 'not' and (is_call(f.a[0], 'is_finite') or f.a[0].op == 'lt' and num(f.a[0].a[0]) == 0 and f.a[0].a[1] is frac)
    heads = {z for h, s, ent in loops(F) for z in F.rpo if F.n[z].b == F.n[h].b and any(a in F.reach_set(h) for a in acts)}
    heads |= {z for h in F.loop_bodies() for z in F.rpo if F.n[z].b == h}
    q = F.path_avoiding(rets, heads, lambda a, b, l: any(drawn0(f) for f in F.edge_fset(a, b, l)))
    c.ob('P27.no-skip', q is None, F.where(0), 'migration is skipped for another reason than having nothing to move: ' + fmt(F, q))


def path_name(p):
    """the field a partial overwrite changes"""
    for e in p:
        if e[0] == 'f':
            return e[2]
    return str(p)[:40]


def set_is(two, a, pred):
    cs = [x.a[0] if x.op == 'cast' else x for x in two]
    return len(cs) == 2 and (cs[0] is a and pred(cs[1]) or cs[1] is a and pred(cs[0]))


def selection(c):
    ctx = c.ctx
    F = ctx.flow('best_sub_pop', ())
    pop = arg_of_type(F, 'Population')
    topn = next((mk('arg', k, F.f.locals[k].get('n', '')) for k in range(1, 3) if F.f.locals[k]['ty'] == 'usize'), None)
    cost = lambda t: is_fld(t, 'cost')
    n = 0
    for i, e in F.events():
        nm = (e.cn or '').split('::')[-1] if e.k == 'call' else ''
        if nm.startswith('sort') or nm.startswith('select_nth'):
            n += 1
            ok = nm in ('sort_by', 'sort_unstable_by') and comparator(c, e.args[1], cost) == 1
            c.ob('P27.order', ok, e.at_(), f'the selection is not ordered by increasing cost ({nm})')
    c.floor('orderings', n, 1)
    for i, v in F.returns():
        for b in (v,):
            D = deep(F, b)
            srt = [x for x in D if x.op == 'upd' and x.a[0].split('::')[-1].startswith('sort')]
            c.ob('P27.sorted', len(srt) > 0, F.where(i), 'the selection is taken from an unsorted population')
            cut = [x for x in D if x.op == 'upd' and x.a[0].split('::')[-1] == 'truncate' or is_call(x, 'take')]
            ok = False
            for x in cut:
                t = x.a[4] if x.op == 'upd' else x.a[2]
                src = x.a[3] if x.op == 'upd' else x.a[1]
                ok |= min_of(F, t, i, lambda z: z is topn, lambda z: is_call(z, 'len')) and any(y in deep(F, src) for y in srt)
            c.ob('P27.count', ok and len(cut) == 1, F.where(i), 'the selection does not have the configured number of members')
            els = [x for x in D if is_fld(x, 'members')]
            rng = [x for x in D if x.op == 'agg' and 'Range' in x.a[0]]
            whole = all(num(x.a[2]) == 0 and x.a[0].endswith('::Range') and is_call(x.a[3], 'len') for x in rng)
            c.ob('P27.from-population', bool(els) and all(arg_root(x) is pop for x in els) and whole, F.where(i), 'the selection is not taken from the population')
            odd = {lastname(x) for x in D if x.op == 'call'} & {'skip', 'rev', 'filter', 'step_by', 'take_while', 'skip_while', 'filter_map'} | \
                {x.a[0].split('::')[-1] for x in D if x.op == 'upd'} & {'reverse', 'swap', 'remove', 'swap_remove', 'retain', 'pop', 'drain', 'dedup_by'}
            c.ob('P27.no-filter', not odd, F.where(i), f'the selection leaves out or reorders members: {sorted(map(str, odd))}')


# ---------------------------------------------------------------- P14
import re
HASH = re.compile(r'(^|[^\w])(Hash(Map|Set)|hash_(map|set)::)')
HITER = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'drain', 'retain', 'into_keys', 'into_values', 'extract_if', 'union',
         'intersection', 'difference', 'symmetric_difference', 'extend', 'collect', 'from_iter', 'eq', 'ne', 'hash_one')
OUTSIDE = [('time', re.compile(r'^(std|core|web_time|instant|chrono)::(time::)?(Instant|SystemTime|Utc|Local)\b')),
           ('environment', re.compile(r'^std::env::')),
           ('threads', re.compile(r'^(std::thread::(current|park|sleep|available_parallelism|yield_now|spawn|scope|Builder)|std::thread::ThreadId|rayon|num_cpus)')),
           ('the operating system', re.compile(r'^(std::fs|std::process|std::net|std::io::(stdin|Stdin|stderr|stdout|IsTerminal)|libc|getrandom)')),
           ('process-wide randomness', re.compile(r'^(fastrand::(?!Rng\b)|rand::|fastrand::Rng::new|std::hash::RandomState|std::collections::hash_map::RandomState|std::hash::random|std::collections::hash_map::DefaultHasher)')),
           ('shared mutable state', re.compile(r'^(std::sync::(atomic|Mutex|RwLock|OnceLock|LazyLock|Once|Condvar|nonpoison|poison|mpsc|mpmc)|std::cell::(OnceCell|LazyCell)|crossbeam|parking_lot|once_cell)')),
           ('per-thread state', re.compile(r'^std::thread::LocalKey::<T>::(with|set|get|take|replace|try_with|with_borrow|with_borrow_mut)')),
           ('addresses', re.compile(r'(::addr$|expose_provenance|::expose_addr|fmt::Pointer|ptr::(const_ptr|mut_ptr)::.*::addr)'))]
PAR_OK = ('threads', 'shared mutable state')


def operands(f):
    for body in [f] + f.get('prom', []):
        for b in body['blocks']:
            if b.get('c'):
                continue
            for s in b['st']:
                if s['k'] == '=':
                    r = s['r']
                    for o in [r.get(k) for k in 'oab'] + list(r.get('ops', [])):
                        if isinstance(o, dict):
                            yield o, s
                    if r['k'] == 'cast' and 'Expose' in str(r.get('c')):
                        yield dict(k='const', fn='addr', n='std::ptr::addr'), s
            t = b['t']
            if t['k'] == 'call':
                for o in [t['f']] + t['args']:
                    if isinstance(o, dict):
                        yield o, t


def outside_sources(f):
    """(category, callee, location) of values that do not come from the arguments"""
    for o, s in operands(f):
        if o.get('k') != 'const' or 'fn' not in o:
            continue
        n, rn, sf = o.get('n', ''), o.get('rn', '') or '', str(o.get('self') or '')
        last = n.split('::')[-1]
        if last in HITER and (HASH.search(n) or HASH.match(re.sub(r'^(&mut |&)?(std::collections::)?', '', sf)) or sf.startswith('std::collections::Hash') or HASH.search(sf.split('<')[0])):
            yield 'hash order', n, s
            continue
        if n == 'std::default::Default::default' and sf.endswith('fastrand::Rng'):
            yield 'process-wide randomness', n, s
            continue
        for cat, rx in OUTSIDE:
            if rx.search(n) or rx.search(rn.lstrip('<')) or n.startswith('std::io::IsTerminal') and cat == 'the operating system':
                yield cat, n, s
                break


def at(s):
    return ':'.join(str(x) for x in s.get('s') or [])


def displays(c):
    """functions that can only change the progress display: their only mutable input is the display and they return nothing"""
    out = set()
    for f in c.p.fns.values():
        if f['kind'] == 'Closure':
            continue
        a = f.get('argc', f.get('args'))
        n = a if isinstance(a, int) else len(a or [])
        tys = [f['locals'][k]['ty'] for k in range(1, n + 1)]
        ret = f['locals'][0]['ty']
        m = [t for t in tys if '&mut' in t or "&'a mut" in t]
        if any('SearchProgress' in t for t in tys) and ret == '()' and all('SearchProgress' in t for t in m) and not any('Cell<' in t for t in tys):
            out.add(f['id'])
        elif ret.endswith('SearchProgress') and not m:
            out.add(f['id'])
    return out


@rule('P14',
      'Whole-program effect query on MIR: in every function reachable from the stepwise engine and from the task and result handlers, each reference to '
      'an outside source of values (clock, environment, thread identity, operating system, process-wide or unseeded randomness, shared or '
      'per-thread mutable state, addresses, hash iteration order) is an obligation. It is discharged only if (a) the function is reachable only '
      'through routines whose sole mutable input is the progress display and which return nothing, and nothing else reads the display; (b) the '
      'iteration in hash order is shown insensitive to order (no value carried between iterations except a map keyed by the element, '
      'constant results); (c) per-thread scratch memory is cleared before it is read. The parallel coordinator may use threads and channels, nothing else. '
      'Value analysis: every random stream is created from the configured seed and constants or the population number, and per '
      'population from both; streams are never cloned.',
      ['operator and loss implementations of the user are deterministic', 'the named standard-library calls are the sources of nondeterminism; the progress bar library does not influence its caller'])
def p14(c):
    ctx = c.ctx
    eng = {f['id'] for f in c.p.fns.values() if short(f['n']).startswith('SearchEngine::')}
    tasks = {f['id'] for f in c.p.fns.values() if short(f['n']).split('::')[-1] in ('execute_task', 'apply_task_result', 'init_populations')}
    par = {f['id'] for f in c.p.fns.values() if short(f['n']).split('::')[-1] in ('equation_search_parallel', 'equation_search')}
    c.need(eng and len(tasks) >= 3 and par, 'engine functions not found')
    core, allp = ctx.reach(eng | tasks), ctx.reach(eng | tasks | par)
    c.floor('functions reachable from the engine', len(core), 150)
    ctx.analysed |= allp
    disp = displays(c)
    c.floor('display routines', len(disp), 3)
    n = 0
    for fid in sorted(allp):
        f = c.p.fns[fid]
        for cat, callee, s in outside_sources(f):
            n += 1
            w = at(s)
            if fid not in core and cat in PAR_OK:
                c.ob('P14.parallel', True, w)
                continue
            if ctx.only_via(fid, disp) is None:
                c.ob('P14.display', True, w)
                continue
            if cat == 'hash order':
                why = unordered_ok(c, f)
                c.ob('P14.hash-order', why is None, w, f'{short(f["n"])}: {callee} visits entries in hash order and {why}')
                continue
            if cat == 'per-thread state' and s.get('k') == 'call':
                why = scratch_ok(c, f)
                c.ob('P14.scratch', why is None, w, f'{short(f["n"])}: {why}')
                continue
            c.fail('P14.' + cat.replace(' ', '-'), w, f'{short(f["n"])} uses {callee} ({cat})')
    c.floor('uses of outside sources examined', n, 8)
    # the display never feeds back
    for f in c.p.fns.values():
        if f['id'] in disp or c.ctx.owner(f['id']) in disp:
            continue
        if f['id'] in allp:
            for b in f['blocks']:
                if b.get('c'):
                    continue
                for x in reads_of(b):
                    if any(isinstance(e, list) and e[0] == 'f' and e[1].split('::')[-1] == 'SearchProgress' for e in x[1]):
                        ok = ctx.only_via(f['id'], disp) is None
                        c.ob('P14.display-read', ok, short(f['n']), f'{short(f["n"])} reads the progress display')
                t = b['t']
                if t['k'] == 'call' and any('SearchProgress' in a and not a.startswith('&mut') for a in t.get('at', [])) and t.get('dt') not in ('()', '!') and 'rfn' in t['f'] | {} and t['f'].get('rfn') in c.p.fns:
                    ok = t['f']['rfn'] in disp or 'SearchProgress' in t.get('dt', '') or ctx.only_via(f['id'], disp) is None
                    # passing it on inside a structure is fine, getting something back is not
                    g = c.p.fns[t['f']['rfn']]
                    own = short(g['n']).startswith('SearchProgress::')
                    c.ob('P14.display-result', ok or not own, at(t), f'{short(f["n"])} uses a result of the progress display')
    seeds(c, allp, par)


def reads_of(b):
    def pl(o):
        if isinstance(o, dict) and o.get('k') in ('copy', 'move'):
            yield o['p']
    for s in b['st']:
        if s['k'] == '=':
            r = s['r']
            for o in [r.get(k) for k in 'oab'] + list(r.get('ops', [])):
                yield from pl(o)
            if r.get('p') is not None:
                yield r['p']
    t = b['t']
    if t['k'] == 'call':
        for o in t['args']:
            yield from pl(o)
    elif t['k'] == 'switch' and 'o' in t:
        yield from pl(t['o'])


def unordered_ok(c, f):
    """None if the result of f cannot depend on the order in which a hash map is visited"""
    o = c.p.fns[c.ctx.owner(f['id'])]
    F = c.ctx.flow(o, ())
    isord = lambda t: is_call(t, *HITER) and len(t.a) > 1
    srcs = []
    for i, e in F.events():
        if e.k == 'call' and e.cn and e.cn.split('::')[-1] in HITER and e.args:
            fo = F.f.blocks[F.n[i].b]['t'].get('f', {}) if F.f.blocks[F.n[i].b]['t']['k'] == 'call' else {}
            if HASH.search(e.cn) or HASH.search(str(fo.get('self') or '').split('<')[0]):
                srcs.append(e.res if e.res is not None else e.args[0])
    srcs = set(srcs)
    heads = [(h, s, ent) for h, s, ent in loops(F) if mentions(s, lambda t: t in srcs) and not mentions(s, lambda t: t.op == 'elem')]
    n0 = {x for _, s, _ in heads for x in walk(s) if x in srcs}
    if not heads or n0 != srcs:
        return 'not every use of it is a plain loop'
    bodies = F.loop_bodies()
    for h, s, ent in heads:
        hb = F.n[h].b
        mine = [b for b in bodies.values() if hb in b]
        if not mine:
            return 'the loop is not recognised'
        body = min(mine, key=len)
        inb = {x for x in F.rpo if F.n[x].b in body}
        maps = set()
        for x in inb:
            for e in F.n[x].events:
                if e.k == 'call' and e.cn and any(r.op == 'refm' for r in e.raw):
                    nm = e.cn.split('::')[-1]
                    if e.cn in ('Iterator::next', 'DoubleEndedIterator::next_back'):
                        continue
                    if nm in ('insert', 'entry', 'or_insert', 'or_insert_with') and HASH.search(e.cn):
                        v = e.args[2] if len(e.args) > 2 else None
                        k = e.args[1]
                        if v is not None and depends(F, v, lambda t: t is e.args[0] or t.op == 'phi' and t in F.phi_key and F.n[F.phi_key[t][0]].b == hb):
                            return 'inserts a value that depends on earlier iterations'
                        maps.add(e.args[0])
                        continue
                    if e.args and fresh(F, e.args[0], inb):
                        continue
                    return f'changes something in each iteration ({e.cn})'
        # values carried around the loop
        for ph, ops in F.phi_ops.items():
            key = F.phi_key.get(ph)
            if key is None or F.n[key[0]].b not in body:
                continue
            if any(m is ph or ph in deep(F, m) for m in maps):
                continue
            if F.n[key[0]].b == hb and any(p in inb for p, _ in ops) and any(v is not ph and v.op not in ('next',) for p, v in ops if p in inb) and \
                    not all(ph in F.phi_closure(v) or v in F.phi_closure(ph) and len(F.phi_closure(ph)) == 1 for p, v in ops):
                return 'carries a value from one iteration to the next'
        # leaving early only with constants
        for x in inb:
            for y, l in F.n[x].succ:
                if y in inb or any(fct.op == 'is' and fct.a[1] == 'None' and fct.a[0].op == 'next' and fct.a[0].a[0] is s for fct in F.edge_facts(x, l)):
                    continue
                for i, v in F.returns():
                    if i in F.reach_set(y) or i == y:
                        for (b,), via in cases(F, v, None):
                            if b.op != 'const' and any(p in F.reach_set(y) | {y} for p, _ in via if p != -1) and not any(z in F.reach_set(y) for z, _, _ in [q for q in loops(F) if q[0] != h and q[0] not in inb]):
                                return 'can leave early with a value that depends on the entry'
    return None


def fresh(F, t, inb):
    """the value was created inside these nodes"""
    seen, st, made = set(), [t], {}
    for i, e in F.events():
        if e.k == 'call' and e.res is not None:
            made.setdefault(e.res, set()).add(i)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            k = F.phi_key.get(x)
            if k is None or k[0] not in inb:
                return False
            st += [v for _, v in F.phi_ops.get(x, [])]
        elif x.op == 'upd' and len(x.a) > 3:
            st.append(x.a[3])
        elif x.op == 'call' and lastname(x) in ('new', 'with_capacity', 'default', 'to_vec', 'collect'):
            if not made.get(x) or not made[x] <= inb:
                return False
        else:
            return False
    return True


def scratch_ok(c, f):
    """per-thread scratch memory is cleared before anything reads it"""
    o = c.p.fns[c.ctx.owner(f['id'])]
    F = c.ctx.flow(o, ())
    loc = lambda t: is_call(t, 'borrow_mut', 'borrow') and mentions(t, lambda z: z.op == 'hofarg' and 'LocalKey' in z.a[0]) or t.op == 'hofarg' and 'LocalKey' in t.a[0]
    clears, uses = set(), set()
    for i, e in F.events():
        if e.k != 'call' or not e.args:
            continue
        nm = (e.cn or '').split('::')[-1]
        if nm in ('borrow_mut', 'borrow', 'with', 'deref_mut', 'deref', 'as_mut'):
            continue
        if any(mentions(a, loc) for a in e.args if isinstance(a, T)):
            if nm in ('clear', 'truncate') and loc(e.args[0]) and (nm == 'clear' or num(e.args[1]) == 0):
                clears.add(i)
            else:
                uses.add(i)
    if not clears:
        return 'per-thread memory is used without being cleared'
    p = F.path_avoiding(uses, clears)
    if p is not None:
        return 'per-thread memory is used before it is cleared: ' + fmt(F, p)
    for i, v in F.returns():
        if not any(i in F.reach_set(x) for x in clears):
            return 'per-thread memory is not cleared'
    return None


def seeds(c, allp, par):
    ctx = c.ctx
    want = {}
    for f, t in ctx.calls_of(lambda o: o['n'].endswith('fastrand::Rng::with_seed') or o['n'].endswith('Rng::with_seed') or o['n'].endswith('Rng::seed')):
        if f['id'] in allp:
            want.setdefault(ctx.owner(f['id']), []).append(t)
    c.floor('random streams created', sum(len(l) for l in want.values()), 3)
    for fid, l in want.items():
        F = ctx.flow(c.p.fns[fid], lambda g: short(g['n']).split('::')[-1] in ('from_expr', 'evaluate', 'consider', 'check_constraints', 'random_expr_append_ops',
                                                                            'best_sub_pop', 'init_populations', 'execute_task', 'apply_task_result', 'run_scoped_search')
                     or g['crate'] == 'dynamic_expressions', key='seeds')
        n = 0
        for i, e in F.events():
            if e.k != 'call' or not (e.cn or '').endswith(('Rng::with_seed', 'Rng::seed')):
                continue
            n += 1
            v = e.args[-1]
            leaves = seed_leaves(F, v)
            seedl = [x for x in leaves if is_fld(x, 'seed')]
            odd = [x for x in leaves if not (is_fld(x, 'seed') or x.op in ('const', 'pos', 'elem') or is_call(x, 'len'))]
            c.ob('P14.seed', bool(seedl) and not odd, e.at_(), f'a random stream starts from {show(v)[:100]}, not from the configured seed')
            inj = injective(F, v)
            c.ob('P14.seed-whole', inj, e.at_(), f'different seeds can start the same stream: {show(v)[:100]}')
            if any(depends(F, x, lambda z: z is e.res) for x in pop_rngs(F)):
                c.ob('P14.seed-population', any(x.op in ('pos', 'elem') for x in leaves), e.at_(), 'all populations start with the same random stream')
        c.ob('P14.seed-found', n >= len(l), short(c.p.fns[fid]['n']), f'{len(l)} random streams created, {n} analysed')
    for f, t in ctx.calls_of(lambda o: o['n'] == 'std::clone::Clone::clone' and str(o.get('self', '')).endswith('fastrand::Rng')):
        if f['id'] in allp:
            c.fail('P14.clone', at(t), f'{short(f["n"])} duplicates a random stream')


def pop_rngs(F):
    out = []
    for i, e in F.events():
        for x in (e.args if e.k == 'call' else [e.value] if e.k == 'write' and e.value is not None else []):
            if isinstance(x, T):
                for z in walk(x):
                    if z.op == 'agg' and z.a[0].split('::')[-1] == 'PopState' and 'rng' in z.a[1]:
                        out.append(z.a[2 + list(z.a[1]).index('rng')])
    return out


def seed_leaves(F, v, seen=None):
    seen = seen if seen is not None else set()
    if not isinstance(v, T) or v in seen:
        return []
    seen.add(v)
    if v.op == 'phi':
        return [y for _, x in F.phi_ops.get(v, []) for y in seed_leaves(F, x, seen)]
    if v.op in ('Add', 'Sub', 'Mul', 'BitXor', 'BitOr', 'BitAnd', 'Shl', 'Shr', 'cast', 'Not', 'Neg'):
        return [y for x in v.a if isinstance(x, T) for y in seed_leaves(F, x, seen)]
    if v.op == 'call' and lastname(v).startswith(('wrapping_', 'rotate_', 'overflowing_')) or v.op == 'call' and lastname(v) in ('swap_bytes', 'reverse_bits'):
        return [y for x in v.a[1:] if isinstance(x, T) for y in seed_leaves(F, x, seen)]
    return [v]


def injective(F, v):
    """distinct seeds give distinct values (everything else fixed)"""
    v = uniq(F, v)
    if is_fld(v, 'seed'):
        return True
    has = lambda x: any(is_fld(z, 'seed') for z in seed_leaves(F, x))
    if v.op in ('BitXor', 'Add', 'Sub') or v.op == 'call' and lastname(v) in ('wrapping_add', 'wrapping_sub'):
        ops = [x for x in v.a[(1 if v.op == 'call' else 0):] if isinstance(x, T)]
        h = [x for x in ops if has(x)]
        return len(h) == 1 and injective(F, h[0])
    if v.op == 'call' and lastname(v) in ('rotate_left', 'rotate_right', 'swap_bytes', 'reverse_bits'):
        return injective(F, v.a[1])
    if v.op == 'call' and lastname(v) == 'wrapping_mul':
        k = [num(x) for x in v.a[1:] if isinstance(x, T) and not has(x)]
        h = [x for x in v.a[1:] if isinstance(x, T) and has(x)]
        return len(h) == 1 and len(k) == 1 and k[0] is not None and int(k[0]) % 2 == 1 and injective(F, h[0])
    if v.op == 'cast':
        return str(v.a[1]) == str(v.a[2]) and injective(F, v.a[0])
    return False
