"""Hall of fame, best member, Pareto front, member evaluation."""
from sa.core import *
from sa.rulelib import *
from rules import rule

HOF = 'HallOfFame'


def cc_fact(expr, options=None, size=None):
    """predicate: fact is a positive check_constraints(expr, options, size)"""
    def p(f):
        return is_call(f, 'check_constraints') and f.a[1] is expr and (options is None or f.a[2] is options) \
            and (size is None or f.a[3] is size)
    return p


def member_arg(F, name):
    for i in range(1, F.f.argc + 1):
        if F.f.locals[i].get('n') == name:
            return mk('arg', i, name)
    raise Missing(f'{F.root["n"]}: no parameter {name}')


def arg_of_type(F, tysub):
    r = [i for i in range(1, F.f.argc + 1) if tysub in F.f.locals[i]['ty']]
    if len(r) != 1:
        raise Missing(f'{F.root["n"]}: expected one parameter of type {tysub}, found {len(r)}')
    return mk('arg', r[0], F.f.locals[r[0]].get('n', ''))


def usize_arg(F, n=0):
    r = [i for i in range(1, F.f.argc + 1) if F.f.locals[i]['ty'] == 'usize']
    if len(r) <= n:
        raise Missing(f'{F.root["n"]}: no usize parameter')
    return mk('arg', r[n], F.f.locals[r[n]].get('n', ''))


@rule('P01',
      'Inlined control-flow graph of the hall-of-fame admission function with value numbering: on every path to a '
      'write of a slot the constraint check of that member (same options, same size limit) returned true, the slot '
      'index is the member\'s complexity, the value written is that member, and the slot was empty or held a strictly '
      'higher cost; every path that leaves without writing took a branch that excuses it. Whole-program field-write '
      'query: no other function writes or replaces slots.',
      ['check_constraints itself is decided by P02', 'comparison with NaN is false (IEEE), so NaN never displaces'])
def p01(c):
    ctx = c.ctx
    fn = ctx.fn('HallOfFame::consider')
    F = ctx.flow(fn, ('check_constraints',))
    m = arg_of_type(F, 'PopMember')
    o = arg_of_type(F, 'Options')
    sz = usize_arg(F)
    expr = [t for t in (f for i, e in calls_named(F, 'check_constraints') for f in [e.args[0]])]
    ws = [(i, e, s, v) for i, e, s, v in muts(F, 'best_by_complexity', HOF)]
    slot_w = [w for w in ws if w[2] and w[2][0][0] == 'i']
    c.floor('slot writes in consider', len(slot_w), 1)
    for i, e, s, v in ws:
        w = e.at_()
        if not (s and s[0][0] == 'i'):
            c.fail('P01.whole-table-write', w, 'consider changes the table other than by a slot write')
            continue
        idx = s[0][1]
        c.ob('P01.slot-index', is_fld(idx, 'complexity') and idx.a[0] is m, w,
             f'slot index is {show(idx)}, not the member\'s complexity')
        if v is None:
            # a mutating call on the slot (replace / insert) with the member as argument
            val_ok = e.k == 'call' and any(a is m for a in e.args)
        else:
            val_ok = v.op == 'agg' and v.a[0].endswith('Some') and v.a[2] is m or (len(s) > 1 and v is m)
        c.ob('P01.slot-value', val_ok, w, f'value stored is {show(v) if v is not None else e}')
        p = F.guard_path([i], lambda f: is_call(f, 'check_constraints') and is_fld(f.a[1], 'expr') and f.a[1].a[0] is m
                         and f.a[2] is o and f.a[3] is sz)
        c.ob('P01.checked', p is None, w, 'slot write reachable without a successful constraint check: ' + fmt(F, p))
        p = F.guard_path([i], lambda f: improves(f, m) or (f.op == 'is' and f.a[1] == 'None' and mentions_loc(f.a[0], 'best_by_complexity')))
        c.ob('P01.strictly-cheaper', p is None, w,
             'slot write reachable without (slot empty or strictly lower cost): ' + fmt(F, p))

    def excuse(f):
        if f.op == 'not' and is_call(f.a[0], 'check_constraints'):
            return True
        if f.op == 'eq' and any(is_fld(x, 'complexity') for x in f.a[:2]) and any(x.op == 'const' and x.a[0] == 0 for x in f.a[:2]):
            return True
        if f.op == 'lt' and is_fld(f.a[0], 'complexity') and f.a[1].op == 'const' and f.a[1].a[0] == 1:
            return True
        if f.op == 'le' and is_call(f.a[0], 'len') and is_fld(f.a[1], 'complexity'):
            return True
        # a stored member that is not strictly worse
        if f.op == 'not' and improves(f.a[0], m):
            return True
        if f.op == 'is' and f.a[0].op == 'call' and f.a[0].a[0] == 'PartialOrd::partial_cmp' and f.a[1] == 'None':
            return True
        if f.op in ('le', 'lt', 'eq') and any(is_fld(x, 'cost') for x in f.a[:2]) and not improves(f, m):
            return True
        return False
    rets = F.ret_nodes()
    p = F.path_avoiding(rets, {w[0] for w in slot_w}, lambda x, s, l: any(excuse(f) for f in F.edge_fset(x, s, l)))
    c.ob('P01.admits', p is None, fmt(F, p) if p else F.where(0),
         'consider can return without storing a member that passed every test: ' + fmt(F, p))
    # update_from_members forwards every member with the same limits
    G = ctx.flow('HallOfFame::update_from_members', ('HallOfFame::consider',))
    acts = calls_named(G, 'HallOfFame::consider')
    c.floor('consider calls in update_from_members', len(acts), 1)
    go, gs = arg_of_type(G, 'Options'), usize_arg(G)
    for i, e in acts:
        c.ob('P01.forward-args', e.args[2] is go and e.args[3] is gs and e.args[1].op in ('elem', 'idx', 'vf'), e.at_(), f'forwards {e}')
    n, p = each_iteration(G, lambda s: True, {i for i, _ in acts})
    c.ob('P01.forward-all', n >= 1 and p is None, G.where(0), 'a member can be skipped: ' + fmt(G, p))
    # sole writers of the table
    roots = {fn['id'], ctx.fn('HallOfFame::new')['id']}
    adt = c.p.adt(HOF)['n']
    n = 0
    for fid, sites in ctx.writers(adt, 'best_by_complexity', ('assign', 'mutref')).items():
        n += len(sites)
        if ctx.only_via(fid, roots) is None:
            continue
        G = ctx.flow(c.p.fns[fid], lambda f: True, key='all')
        for i, e, s, v in muts(G, 'best_by_complexity', HOF):
            ok = reevaluates(G, e)
            c.ob(f'P01.sole-writer:{short(c.p.fns[fid]["n"])}', ok, e.at_(),
                 f'{short(c.p.fns[fid]["n"])} changes hall-of-fame slots outside consider: {e}')
    c.floor('hall-of-fame write sites', n, 2)
    # constructors build empty tables only
    for fid in ctx.constructors(adt):
        G = ctx.flow(c.p.fns[fid], ())
        for i, v in G.returns():
            for t in walk(v):
                if t.op == 'agg' and t.a[0].split('::')[-1] == HOF:
                    tab = t.a[2]
                    some = any(x.op == 'agg' and x.a[0].endswith('Some') for x in deep(G, tab))
                    c.ob(f'P01.new-empty', not some, G.where(i), 'a hall of fame is created with entries already in it')
                    slots(c, G, fid, tab, G.where(i))


def slots(c, G, fid, tab, where):
    """a new table has a slot for every complexity up to the largest size"""
    from rules.wellformed import lin
    n = None
    for t in deep(G, tab):
        if is_call(t, 'from_elem', 'repeat_n', 'take', 'resize', 'resize_with') or t.op == 'upd' and t.a[0].split('::')[-1] in ('resize', 'resize_with'):
            k = 4 if t.op == 'upd' else 1 if is_call(t, 'repeat_n') else 2
            n = lin(t.a[k]) if n is None and len(t.a) > k and isinstance(t.a[k], T) else n
        elif t.op == 'agg' and t.a[0].split('::')[-1] == 'Range' and n is None:
            n = {k: v for k, v in lin(t.a[3]).items()} if t.a[2].op == 'const' and t.a[2].a[0] == 0 else n
        elif is_call(t, 'RangeInclusive::new') and n is None and t.a[1].op == 'const' and t.a[1].a[0] == 0:
            n = dict(lin(t.a[2]))
            n[1] = n.get(1, 0) + 1
    if n is None:
        c.note('number of slots of a new hall of fame not followed')
        return
    ks = [k for k in n if k != 1 and n[k]]
    if len(ks) != 1 or n[ks[0]] != 1:
        c.ob('P01.slots', False, where, f'a new hall of fame has {n} slots')
        return
    extra = n.get(1, 0)

    def up_to_maxsize(t, extra, seen=()):
        d = {k: v for k, v in lin(t).items() if v}
        e = extra + d.pop(1, 0)
        return len(d) == 1 and all(v == 1 and is_fld(k, 'maxsize') for k, v in d.items()) and e >= 1
    if ks[0].op != 'arg':
        c.ob('P01.slots', up_to_maxsize(ks[0], extra), where, f'a new hall of fame has {n} slots')
        return
    pos = [k for k in range(1, G.f.argc + 1) if ks[0].a[0] == k]
    m = 0
    short_ = c.p.fns[fid]['n'].split('::')[-1]
    for u in sorted(c.ctx.callers().get(fid, ())):
        F = c.ctx.flow(c.p.fns[u], lambda f: True, key='all')
        for i, e in F.events():
            if e.k == 'call' and e.cn and e.cn.split('::')[-1] == short_ and HOF in e.cn and pos:
                m += 1
                a = e.args[pos[0] - 1]
                c.ob('P01.slots', up_to_maxsize(a, extra), e.at_(), f'a hall of fame has slots for complexities below {show(a)[:60]} + {extra}: a member of the largest size has none')
    c.floor('new halls of fame', m, 1)


def improves(f, m):
    """fact: m.cost < <stored>.cost (strict)"""
    return f.op == 'lt' and is_fld(f.a[0], 'cost') and f.a[0].a[0] is m and is_fld(f.a[1], 'cost') and mentions_loc(f.a[1].a[0], 'best_by_complexity')


def reevaluates(G, e):
    """a mutable use of stored members that only re-evaluates them in place"""
    if e.k == 'call' and (e.cn or '').split('::')[-1] in ('evaluate', 'iter_mut', 'flatten', 'into_iter', 'next', 'by_ref'):
        return True
    return False


@rule('P03',
      'Inlined flow of the Pareto-front function: the only values appended are stored members whose loss is strictly '
      'below the running minimum (initialised to +infinity), the running minimum is only ever set to that member\'s '
      'loss under the same comparison, every appended member lowers it and every member that does is appended, and '
      'members are visited in table order.',
      ['a NaN loss compares false and is never appended'])
def p03(c):
    ctx = c.ctx
    F = ctx.flow('HallOfFame::pareto_front', ())
    pushes = [(i, e) for i, e in F.events() if e.k == 'call' and e.cn == 'Vec::push']
    c.floor('append sites', len(pushes), 1)
    elems = {e.args[1] for i, e in pushes}

    def lower(f, m):
        return f.op == 'lt' and is_fld(f.a[0], 'loss') and f.a[0].a[0] is m and is_min(F, f.a[1])
    for i, e in pushes:
        m = e.args[1]
        c.ob('P03.source', mentions_loc(m, 'best_by_complexity'), e.at_(), f'appends {show(m)}, not a stored member')
        c.ob('P03.strict', fact_has(F.n[i].facts, lambda f: lower(f, m)), e.at_(),
             'a member is appended without its loss being strictly below every earlier one')
    # running minimum: the phi compared against
    mins = set()
    for i in F.rpo:
        for f in F.n[i].facts:
            if f.op == 'lt' and is_fld(f.a[0], 'loss'):
                mins.add(f.a[1])
    c.floor('running minimum', len(mins), 1)
    for t in mins:
        alts = [x for x in expand(F, t)]
        for x in alts:
            ok = is_call(x, 'infinity') or is_call(x, 'max_value') or any(is_fld(x, 'loss') and x.a[0] is m for m in elems) or x.op == 'undef'
            if is_call(x, 'max_value'):
                ok = False
            c.ob('P03.minimum-values', ok, F.where(0), f'running minimum can be {show(x)}')
        c.ob('P03.minimum-tracks', any(is_fld(x, 'loss') for x in alts), F.where(0), 'the running minimum is never lowered')
    # every lower member is appended and lowers the minimum
    acts = {i for i, _ in pushes}
    n, p = each_iteration(F, lambda s: mentions_loc(s, 'best_by_complexity'), acts,
                          lambda f: (f.op == 'not' and f.a[0].op == 'lt' and is_fld(f.a[0].a[0], 'loss'))
                          or (f.op == 'is' and f.a[1] == 'None') or (f.op in ('le', 'lt') and is_fld(f.a[1], 'loss')))
    c.ob('P03.complete', n >= 1 and p is None, F.where(0), 'a member with a lower loss can be left out: ' + fmt(F, p))
    for h, src, ent in loops(F):
        if mentions_loc(src, 'best_by_complexity'):
            bad = [t for t in walk(src) if is_call(t, 'rev', 'skip', 'take', 'step_by', 'skip_while')]
            c.ob('P03.order', not bad, F.where(h), f'members are visited as {show(src)}')


def is_min(F, t):
    return t.op == 'phi' or is_call(t, 'infinity')


@rule('P04',
      'Inlined flow of member evaluation: every path that reports success passed both the evaluator\'s completion flag '
      'and a finiteness test of the loss just computed, and stores exactly that loss and the cost derived from it; every '
      'path that reports failure stores infinity in both; complexity is recomputed from the current nodes on all paths; '
      'the evaluation buffer is resized to the dataset before use; the loss is computed from the dataset\'s targets and '
      'weights. Sibling evaluation in the constant optimiser must pass the same tests before it yields a loss.',
      ['completion flags of the evaluator are decided by P20'])
def p04(c):
    ctx = c.ctx
    OP = ('eval_plan_array_into', 'compute_complexity', 'loss_to_cost', 'ensure_n_rows')
    F = ctx.flow('PopMember::evaluate', OP)
    me = mk('arg', 1, 'self')
    ds = arg_of_type(F, 'TaggedDataset')
    evs = calls_named(F, 'eval_plan_array_into')
    losses = [(i, e) for i, e in F.events() if e.k == 'call' and (e.cn or '').endswith('LossFn::loss')]
    c.floor('evaluation calls', len(evs), 1)
    c.floor('loss calls', len(losses), 1)
    # path rules on the write events instead of the joined state
    W = {k: [(i, e) for i, e in F.events() if e.k == 'write' and e.path and e.path[-1][0] == 'f' and e.path[-1][2] == k and e.root is me] for k in ('loss', 'cost', 'complexity')}
    for k in W:
        c.floor(f'writes of {k}', len(W[k]), 1)
    lossres = Alts(F, {e.res for _, e in losses})
    okflag = {e.res for _, e in evs}
    tr, fa = ret_nodes_by_value(F)
    c.ob('P04.returns-known', tr is not None, F.where(0), 'the verdict returned is not a value the analysis can follow')
    if tr is None:
        return

    def finite(f):
        return is_call(f, 'is_finite') and f.a[1] in lossres
    for node, edge in tr:
        for nm, pred in (('completion', lambda f: f in okflag), ('finite-loss', finite)):
            p = F.guard_path([node], pred)
            c.ob(f'P04.success-{nm}', p is None, F.where(node), f'success is reported on a path without the {nm} test: ' + fmt(F, p))
        for k, good in (('loss', lambda v: v in lossres), ('cost', lambda v: is_call(v, 'loss_to_cost')),
                        ('complexity', lambda v: is_call(v, 'compute_complexity'))):
            ws = {i for i, e in W[k] if good(e.value)}
            p = F.path_avoiding([node], ws)
            c.ob(f'P04.success-{k}', p is None, F.where(node), f'success without storing a fresh {k}: ' + fmt(F, p))
            badw = {i for i, e in W[k] if not good(e.value)}
            for b in badw:
                # a stale/other value may be written first but must be overwritten
                p = F.path_avoiding([node], ws, start=b) if b not in ws else None
                c.ob(f'P04.success-{k}-last', p is None, F.where(b), f'success leaves a {k} that is not the one just computed')
    for node, edge in fa:
        for k in ('loss', 'cost'):
            ws = {i for i, e in W[k] if is_call(e.value, 'infinity')}
            p = F.path_avoiding([node], ws)
            c.ob(f'P04.failure-{k}', p is None, F.where(node), f'failure is reported without {k} = infinity: ' + fmt(F, p))
            for b in {i for i, e in W[k] if not is_call(e.value, 'infinity')}:
                p = F.path_avoiding([node], ws, start=b) if b not in ws else None
                c.ob(f'P04.failure-{k}-last', p is None, F.where(b), f'failure leaves a stale {k}')
        ws = {i for i, e in W['complexity'] if is_call(e.value, 'compute_complexity')}
        p = F.path_avoiding([node], ws)
        c.ob('P04.failure-complexity', p is None, F.where(node), 'complexity is not refreshed: ' + fmt(F, p))
    for i, e in W['complexity']:
        ok = is_call(e.value, 'compute_complexity') and is_fld(e.value.a[1], 'nodes') and is_fld(e.value.a[1].a[0], 'expr')
        c.ob('P04.complexity-source', ok, e.at_(), f'complexity is {show(e.value)}')
    for i, e in W['cost']:
        if is_call(e.value, 'loss_to_cost'):
            t = e.value
            lc = ctx.fn('loss_to_cost')
            names = [lc['locals'][k + 1].get('n') for k in range(lc['argc'])]
            want = {'loss': lambda a: a in lossres, 'complexity': lambda a: is_call(a, 'compute_complexity'),
                    'parsimony': lambda a: is_fld(a, 'parsimony'), 'use_baseline': lambda a: is_fld(a, 'use_baseline'),
                    'baseline': lambda a: is_fld(a, 'baseline_loss'), 'baseline_loss': lambda a: is_fld(a, 'baseline_loss')}
            for nme, a in zip(names, t.a[1:]):
                if nme in want:
                    c.ob(f'P04.cost-arg', want[nme](a), e.at_(), f'cost computed with {nme} = {show(a)}')
    # buffer sized before evaluation
    sizes = {i for i, e in calls_named(F, 'ensure_n_rows', 'Vec::resize')}
    for i, e in evs:
        p = F.path_avoiding([i], sizes)
        c.ob('P04.buffer-sized', p is None, e.at_(), 'evaluation into a buffer that was not sized for this dataset')
        c.ob('P04.eval-args', is_fld(e.args[1], 'plan') and e.args[1].a[0] is me and is_fld(e.args[2], 'expr') and e.args[2].a[0] is me
             and has_fld(e.args[3], 'x'), e.at_(), f'evaluates {show(e.args[1])} / {show(e.args[2])} on {show(e.args[3])}')
    for i, e in losses:
        check_loss_args(c, 'P04', F, e)
    # sizing helper really sizes
    E = ctx.flow('Evaluator::ensure_n_rows', ())
    rs = {i for i, e in calls_named(E, 'Vec::resize')}
    n_arg = usize_arg(E)
    for i, e in calls_named(E, 'Vec::resize'):
        c.ob('P04.resize-target', e.args[1] is n_arg, e.at_(), f'buffer resized to {show(e.args[1])}')
    p = E.path_avoiding(E.ret_nodes(), rs, lambda x, s, l: any(f.op == 'eq' and n_arg in f.a[:2] and any(is_call(q, 'len') for q in f.a[:2]) for f in E.edge_fset(x, s, l)))
    c.ob('P04.resize-always', p is None, E.where(0), 'the buffer can keep a wrong length: ' + fmt(E, p))
    # sibling: the optimiser's evaluation
    for nm in ('EvalWorkspace::loss_only', 'EvalWorkspace::loss_and_grad'):
        G = ctx.flow(nm, ('eval_plan_array_into', 'eval_grad_tree_array'))
        ls = [(i, e) for i, e in G.events() if e.k == 'call' and (e.cn or '').endswith('LossFn::loss')]
        c.floor(f'loss calls in {nm}', len(ls), 1)
        res = Alts(G, {e.res for _, e in ls})
        okf = {e.res for _, e in calls_named(G, 'eval_plan_array_into')}
        okg = {e.res for _, e in calls_named(G, 'eval_grad_tree_array')}
        for i, e in ls:
            check_loss_args(c, 'P04', G, e)
        for i, v in G.returns():
            pass
        some = {i for i, e in some_writes(G)}
        c.floor(f'Some results in {nm}', len(some), 1)
        for i in some:
            p = G.guard_path([i], lambda f: is_call(f, 'is_finite') and f.a[1] in res)
            c.ob(f'P04.sibling-finite', p is None, G.where(i), f'{nm} yields a loss without a finiteness test: ' + fmt(G, p))
            p = G.guard_path([i], lambda f: f in okf or (f.op == 'fld' and f.a[2] == '2' and f.a[0] in okg))
            c.ob(f'P04.sibling-complete', p is None, G.where(i), f'{nm} yields a loss of an incomplete evaluation: ' + fmt(G, p))


def some_writes(F):
    """nodes where the return place is assigned a Some(..) aggregate"""
    out = []
    for i in F.rpo:
        for s in F.f.blocks[F.n[i].b]['st']:
            if s['k'] == '=' and s['p'][0] == 0 and not s['p'][1] and s['r']['k'] == 'agg' and s['r'].get('v') == 'Some':
                out.append((i, s))
    return out


class Alts:
    """a set of terms; a phi belongs to it when all its alternatives do"""

    def __init__(self, F, ts):
        self.F, self.ts = F, ts

    def __contains__(self, t):
        return all(x in self.ts for x in expand(self.F, t))

    def __iter__(self):
        return iter(self.ts)


def me_adt(c):
    return c.p.adt('PopMember')['n']


def ret_nodes_by_value(F):
    """(nodes from which `true` is certain to be returned, nodes for `false`): nodes assigning the return place"""
    tr, fa = [], []
    for i in F.rpo:
        nd = F.n[i]
        for s in F.f.blocks[nd.b]['st']:
            if s['k'] == '=' and s['p'][0] == 0 and not s['p'][1]:
                r = s['r']
                if r['k'] == 'use' and r['o']['k'] == 'const' and 'val' in r['o']:
                    (tr if r['o']['val'] else fa).append((i, None))
                else:
                    v = F.resolve(nd.outst, F.read_whole(nd.outst, 0, ()))
                    if v.op == 'const' and isinstance(v.a[0], int):
                        (tr if v.a[0] else fa).append((i, None))
                    else:
                        # value known per path through the exploded state
                        st = nd.val
                        o = r.get('o', {})
                        key = (o['p'][0],) if isinstance(o.get('p'), list) and not o['p'][1] else None
                        b = st.get(key) if key else None
                        if b and b[0] == 'b':
                            (tr if b[1] else fa).append((i, None))
                        else:
                            return None, None
    return tr, fa


def check_loss_args(c, pid, F, e):
    a = e.args
    c.ob(f'{pid}.loss-targets', has_fld(a[2], 'y'), e.at_(), f'loss computed against {show(a[2])}')
    wt = a[3]
    srcs = deep(F, wt)
    if wt.op == 'agg' and wt.a[0].endswith('None'):
        # None may be passed only where the dataset has no weights
        nodes = [i for i in F.rpo if e in F.n[i].events]
        p = F.guard_path(nodes, lambda f: f.op == 'is' and f.a[1] == 'None' and has_fld(f.a[0], 'weights'))
        c.ob(f'{pid}.loss-weights', p is None, e.at_(), 'loss computed without weights although the dataset may have them')
    else:
        c.ob(f'{pid}.loss-weights', any(x.op == 'fld' and x.a[2] == 'weights' for x in srcs), e.at_(), f'loss computed with weights {show(wt)}')


@rule('P02',
      'Inlined flow of the constraint checker: no path returns true without passing the size test, the depth test (or the '
      'exact condition under which size implies depth), the per-argument limits of every operator node, and the nesting '
      'limits of every operator node; loops over nodes, arguments and rules have no exit to true except exhaustion. Both '
      'the default and the custom complexity branch are covered, and the custom branch\'s own limit loop.',
      ['subtree sizes are decided by P34, depth, nestedness counts and complexities by P38'])
def p02(c):
    ctx = c.ctx
    F = ctx.flow('check_constraints', ('count_depth', 'subtree_sizes', 'compute_custom_complexity_checked', 'uses_default_complexity', 'child_ranges', 'nestedness_vec'))
    ex, o = arg_of_type(F, 'PostfixExpr'), arg_of_type(F, 'Options')
    sz = usize_arg(F)
    tr, fa = ret_nodes_by_value(F)
    c.need(tr, 'check_constraints: cannot follow the returned verdict')
    goals = [i for i, _ in tr]
    w = F.where(goals[0])

    def is_nodes_len(t):
        return is_call(t, 'len') and is_fld(t.a[1], 'nodes') and t.a[1].a[0] is ex

    def custom_total(t):
        return t.op == 'vf' and is_call(t.a[0], 'compute_custom_complexity_checked')

    def size_ok(f):
        return (f.op == 'le' and f.a[1] is sz and (is_nodes_len(f.a[0]) or custom_total(f.a[0])))
    p = F.guard_path(goals, size_ok)
    c.ob('P02.size', p is None, w, 'a tree can be accepted without the size test: ' + fmt(F, p))

    def dflt(f, pos=True):
        return is_call(f, 'uses_default_complexity') if pos else f.op == 'not' and is_call(f.a[0], 'uses_default_complexity')

    def depth_ok(f):
        return f.op == 'le' and is_call(f.a[0], 'count_depth') and is_fld(f.a[1], 'maxdepth')

    def size_implies(f):
        return f.op == 'le' and f.a[0] is sz and is_fld(f.a[1], 'maxdepth')
    for nm, exc in (('size-implies-depth', size_implies), ('default-complexity', dflt)):
        p = F.guard_path(goals, lambda f: depth_ok(f) or exc(f))
        c.ob(f'P02.depth-{nm}', p is None, w, 'a tree can be accepted without the depth test: ' + fmt(F, p))
    # the length is only a valid size under default complexity; the custom total otherwise
    p = F.guard_path(goals, lambda f: dflt(f) or (f.op == 'le' and f.a[1] is sz and custom_total(f.a[0])))
    c.ob('P02.custom-size', p is None, w, 'under custom complexities the tree size limit is not tested: ' + fmt(F, p))
    # argument limits: default branch
    arg_empty = lambda f: (f.op == 'eq' and any(is_call(x, 'len', 'HashMap::is_empty') and has_fld(x, 'op_constraints') for x in f.a[:2])) or \
        (is_call(f, 'is_empty') and has_fld(f, 'op_constraints'))
    nest_empty = lambda f: is_call(f, 'is_empty') and has_fld(f, 'nested_constraints')

    def exhausted(pred):
        return lambda f: f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and pred(f.a[0].a[0])

    def over_nodes(src):
        return any(is_fld(t, 'nodes') for t in walk(src)) and not any(is_call(t, 'skip', 'take', 'step_by', 'rev', 'skip_while', 'take_while') for t in walk(src))
    # which node loops look up argument limits / nesting rules
    def loops_with(pred):
        out = []
        for h, src, ent in loops(F):
            body = set()
            for s in ent:
                body |= {s} | F.reachable_from(s, {h})
            if any(e.k == 'call' and pred(e) for b in body for e in F.n[b].events):
                out.append((h, src, ent))
        return out
    def within(t, n):
        """t is a part of the field n"""
        while isinstance(t, T) and t.op in ('fld', 'ref', 'vf', 'call', 'with'):
            if is_fld(t, n):
                return True
            t = t.a[1] if t.op == 'call' and len(t.a) > 1 else t.a[0] if t.op != 'call' else None
        return False
    argget = lambda e: e.cn in ('HashMap::get', 'Index::index') and within(e.args[0], 'op_constraints')
    nestget = lambda e: e.cn in ('HashMap::get', 'Index::index') and within(e.args[0], 'nested_constraints')
    for nm, get, empty, extra in (('args', argget, arg_empty, lambda f: dflt(f, False)), ('nested', nestget, nest_empty, lambda f: False)):
        ls = [l for l in loops_with(get) if over_nodes(l[1])]
        c.floor(f'{nm} node loops', len(ls), 1)
        hs = {l[0] for l in ls}
        srcs = {F_src(F, l[0]) for l in ls}
        p = F.guard_path(goals, lambda f: empty(f) or extra(f) or (f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and f.a[0] in srcs))
        c.ob(f'P02.{nm}-all-nodes', p is None, w, f'a tree can be accepted before every node was tested against the {nm} limits: ' + fmt(F, p))
        inner_srcs = set()

        def is_none_get(f):
            return f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'HashMap::get')

        def not_op(f):
            return (f.op == 'is' and f.a[1] in ('Var', 'Const')) or (f.op == 'isnt' and f.a[1] == 'Op')
        for h, src, ent in ls:
            body = set()
            for s in ent:
                body |= {s} | F.reachable_from(s, {h})
            inner = [(h2, s2, e2) for h2, s2, e2 in loops(F) if h2 in body and h2 != h]
            c.floor(f'{nm} inner loops', len(inner), 1)
            isrc = {F_src(F, l[0]) for l in inner}
            for s in ent:
                p = F.path_avoiding({h} | set(goals), (), lambda x, t, l: any(
                    is_none_get(f) or not_op(f) or (f.op == 'is' and f.a[1] == 'None' and f.a[0] in isrc) for f in F.edge_fset(x, t, l)), s)
                c.ob(f'P02.{nm}-every-rule', p is None, F.where(s), f'a node can be passed without testing all its {nm} limits: ' + fmt(F, p))
            for h2, s2, e2 in inner:
                if nm == 'args':
                    ok = lambda f: (f.op == 'is' and f.a[1] == 'None') or (f.op == 'le' and is_limit(f.a[1]) and in_full(f) and depends(F, f.a[0], lambda x: is_call(x, 'subtree_sizes')))
                    rng = s2
                    full = not any(is_call(t, 'skip', 'take', 'step_by') for t in walk(s2)) and range_from_zero(s2)
                    c.ob('P02.args-range', full, F.where(h2), f'argument positions tested: {show(s2)}')
                else:
                    ok = lambda f: f.op == 'le' and is_limit(f.a[1]) and in_full(f)
                    c.ob('P02.nested-range', not any(is_call(t, 'skip', 'take', 'step_by') for t in walk(s2)), F.where(h2), f'nesting rules tested: {show(s2)}')
                for s in e2:
                    p = F.path_avoiding({h2, h} | set(goals), (), lambda x, t, l: any(ok(f) for f in F.edge_fset(x, t, l)), s)
                    c.ob(f'P02.{nm}-limit', p is None, F.where(s), f'a {nm} limit can be exceeded without rejection: ' + fmt(F, p))
    # custom branch hands the limits to the complexity pass
    for i, e in calls_named(F, 'compute_custom_complexity_checked'):
        a = e.args[2]
        ok = any(x.op == 'agg' and x.a[0].endswith('Some') and has_fld(x, 'op_constraints') for x in expand(F, a))
        c.ob('P02.custom-limits-passed', ok and all(not (x.op == 'agg' and x.a[0].endswith('None')) for x in expand(F, a)), e.at_(), f'argument limits passed as {show(a)}')
    G = ctx.flow('compute_custom_complexity_checked', ())
    lim = [(i, f) for i in G.rpo for s, l in G.n[i].succ for f in G.edge_fset(i, s, l)
           if f.op == 'le' and is_limit(f.a[1])]
    c.floor('custom limit comparisons', len(lim), 1)
    # the innermost loop containing the comparison: every iteration passes it or finds no limit
    hs = []
    bodies = []
    for h, src, ent in loops(G):
        body = set()
        for s in ent:
            body |= {s} | G.reachable_from(s, {h})
        if any(i in body for i, f in lim):
            bodies.append((len(body), h, src, ent))
    okf = lambda f: (f.op == 'is' and f.a[1] == 'None' and not (f.a[0].op == 'next')) or (f.op == 'le' and is_limit(f.a[1]) and in_full(f))
    if bodies:
        _, h, src, ent = min(bodies, key=lambda x: x[0])
        hs.append(h)
        c.ob('P02.custom-range', range_from_zero(src), G.where(h), f'argument positions tested: {show(src)}')
        for s in ent:
            p = G.path_avoiding({h} | set(G.ret_nodes()) - set(none_ret(G)), (), lambda x, t, l: any(okf(f) for f in G.edge_fset(x, t, l)), s)
            c.ob('P02.custom-limit', p is None, G.where(s), 'an argument limit can be exceeded under custom complexity: ' + fmt(G, p))
        inner = F_src(G, h)
        outer = [x for x in bodies if x[1] != h]
        c.floor('custom node loop', len(outer), 1)
        for _, h2, src2, ent2 in outer:
            c.ob('P02.custom-nodes', not any(is_call(t, 'skip', 'take', 'step_by') for t in walk(src2)), G.where(h2), f'nodes tested: {show(src2)}')
            for s in ent2:
                p = G.path_avoiding({h2}, (), lambda x, t, l: any(
                    (f.op == 'is' and f.a[1] == 'None' and (f.a[0] is inner or f.a[0].op == 'arg' or is_call(f.a[0], 'HashMap::get')))
                    or (f.op == 'is' and f.a[1] in ('Var', 'Const')) or (f.op == 'isnt' and f.a[1] == 'Op') for f in G.edge_fset(x, t, l)), s)
                c.ob('P02.custom-every-node', p is None, G.where(s), 'an operator node is passed without testing its limits: ' + fmt(G, p))
    c.floor('custom limit loops', len(hs), 1)


def F_src(F, h):
    for e in F.n[h].events:
        if e.k == 'call' and e.cn in ('Iterator::next',) and e.res is not None:
            return e.res
    return None


def none_ret(F):
    """return nodes at which None is certain to be returned"""
    return [i for i, v in F.returns() if v.op == 'agg' and v.a[0].endswith('None')]


def is_limit(t):
    """a configured limit: a cast of a table entry"""
    while t.op == 'cast' or (t.op == 'call' and t.a[0].split('::')[-1] in ('from', 'into')):
        t = t.a[0] if t.op == 'cast' else t.a[1]
    if t.op in ('const',):
        return False
    return t.op in ('vf', 'idx', 'fld', 'elem') or is_call(t, 'clone')


def in_full(f):
    """both sides are compared without dropping high bits"""
    from rules.wellformed import narrows
    return not any(t.op == 'cast' and narrows(t) for x in f.a[:2] for t in walk(x))


def range_from_zero(src):
    for t in walk(src):
        if t.op == 'agg' and t.a[0].split('::')[-1] == 'Range':
            return t.a[2].op == 'const' and t.a[2].a[0] == 0 and not (t.a[3].op in ('Sub',))
    return not any(is_call(t, 'skip', 'take', 'step_by') for t in walk(src))
