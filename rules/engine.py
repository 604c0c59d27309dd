"""Search engine: phases, datasets, workers, the reported best."""
from sa.core import *
from sa.rulelib import *
from sa import fold
from sa.term import mk, T
from rules import rule
from rules.hof import arg_of_type, usize_arg
from rules.evolve import ctx_field, is_const

PH = ('optimize_and_simplify_population', 's_r_cycle', 'best_sub_pop', 'evaluate', 'make_batch_buffer', 'resample_from')


def full_arg(F):
    return arg_of_type(F, 'TaggedDataset')


def dataset_kind(F, v, full):
    """'full' for the whole dataset, 'batch' for a batch over it carrying the same baseline, else None"""
    if v is full:
        return 'full'
    if v.op == 'agg' and v.a[0].endswith('TaggedDataset'):
        base = fld(F, v, 'baseline_loss')
        data = fld(F, v, 'data')
        if not (base.op == 'fld' and base.a[2] == 'baseline_loss' and base.a[0] is full):
            return None
        if data.op == 'fld' and data.a[2] == 'data' and data.a[0] is full:
            return 'full'
        return 'batch'
    return None


@rule('P10',
      'Must-pass and value analysis on inlined flows: members are first evaluated on the dataset the search was given; the '
      'second phase of an iteration re-evaluates every member on it after the last change to any member, on every path; '
      'the members recorded during the cycle are re-evaluated on it on every path where batching is on; the selection '
      'offered to other populations is taken after that. A batch is used as the cycle\'s dataset only when batching is on '
      'and carries the full dataset\'s baseline.',
      ['evaluate computes the loss on the dataset it is given (P04)'])
def p10(c):
    ctx = c.ctx
    # initial members
    G = ctx.flow('init_populations', lambda g: short(g['n']).split('::')[-1] in
                 ('from_expr', 'evaluate', 'consider', 'check_constraints', 'random_expr_append_ops', 'best_sub_pop') or g['crate'] == 'dynamic_expressions', key='init')
    full = full_arg(G)
    n = 0
    for i, e in calls_named(G, 'PopMember::evaluate'):
        n += 1
        c.ob('P10.initial-dataset', e.args[1] is full, e.at_(), f'initial member evaluated on {show(e.args[1])[:100]}')
    from rules.population import pushed_kind
    for i, e in calls_named(G, 'Vec::push'):
        if pushed_kind(e) == 'PopMember':
            v = e.args[1]
            c.ob('P10.initial-evaluated', all(evaluated(x) for x in expand(G, v)), e.at_(), f'initial member stored unevaluated: {show(v)[:120]}')
    for i, e in calls_named(G, 'HallOfFame::consider'):
        v = e.args[1]
        c.ob('P10.initial-considered', all(evaluated(x) for x in expand(G, v)), e.at_(), f'unevaluated member offered to the hall of fame: {show(v)[:120]}')
    c.floor('initial evaluations', n, 1)
    # second phase
    F = ctx.flow('optimize_and_simplify_population', lambda g: g['crate'] == 'dynamic_expressions' or short(g['n']).split('::')[-1] in
                 ('optimize_constants', 'evaluate', 'rebuild_plan', 'ensure_n_rows'), key='phase2')
    pop = arg_of_type(F, 'Population')
    fd = ctx_field(F, 'IterationCtx', 'full_dataset')
    evs = [(i, e) for i, e in calls_named(F, 'PopMember::evaluate') if e.args[1] is fd]
    c.floor('full re-evaluations', len(evs), 1)
    for i, e in calls_named(F, 'PopMember::evaluate'):
        c.ob('P10.phase2-dataset', e.args[1] is fd, e.at_(), f'members re-evaluated on {show(e.args[1])[:100]}')
    acts = {i for i, _ in evs}
    src = lambda s: from_field(F, s, 'members', 'Population') and plain_source(s) or by_index(F, s)
    heads = set()
    for h, s, ent in loops(F):
        if not src(s):
            continue
        # the loop whose every iteration evaluates
        if all(x in acts or F.path_avoiding({h} | set(F.ret_nodes()), acts, None, x) is None for x in ent) and \
                any(a in F.reachable_from(h) for a in acts):
            heads.add(h)
    c.ob('P10.phase2-all', bool(heads), evs[0][1].at_() if evs else '', 'no loop re-evaluates every member on the full dataset')
    p = F.path_avoiding(set(F.ret_nodes()), heads)
    c.ob('P10.phase2-always', p is None, F.where(0), 'the second phase can end without re-evaluating members: ' + fmt(F, p))
    for i, e in F.events():
        if e.k == 'call' and (e.cn or '').split('::')[-1] not in ('evaluate',) and changes_member(e) and any(i in F.reachable_from(a) for a in acts):
            c.fail('P10.phase2-last', e.at_(), f'members are changed after their final evaluation: {str(e)[:160]}')
        if e.k == 'write' and (any(x[0] == 'f' and x[1].split('::')[-1] == 'PopMember' for x in e.path)) and any(i in F.reachable_from(a) for a in acts):
            c.fail('P10.phase2-last', e.at_(), f'members are changed after their final evaluation: {str(e)[:160]}')
    c.ob('P10.phase2-order', True, F.where(0))
    # one task
    T_ = ctx.flow('execute_task', PH)
    full = full_arg(T_)
    opt = arg_of_type(T_, 'Options')
    cyc = calls_named(T_, 's_r_cycle')
    sec = calls_named(T_, 'optimize_and_simplify_population')
    c.floor('cycle calls', len(cyc), 1)
    c.floor('second phase calls', len(sec), 1)
    rets = set(T_.ret_nodes())
    for what, cs in (('cycle', cyc), ('second', sec)):
        p = T_.path_avoiding(rets, {i for i, _ in cs})
        c.ob(f'P10.task-{what}', p is None, T_.where(0), f'a task can finish without its {what} phase: ' + fmt(T_, p))
        for i, e in cs:
            ds = [a for j, a in enumerate(e.args) if 'TaggedDataset' in e.at[j] and 'Ctx' not in e.at[j]]
            cx = [a for j, a in enumerate(e.args) if 'IterationCtx' in e.at[j]]
            c.ob(f'P10.{what}-full', bool(cx) and fld(T_, cx[0], 'full_dataset') is full, e.at_(), 'the phase is given another dataset as the full one')
            for d in ds:
                for (v,), via in cases(T_, d, None):
                    kd = dataset_kind(T_, v, full)
                    if kd == 'full':
                        c.ob(f'P10.{what}-dataset', True, e.at_())
                        continue
                    p = case_guarded(T_, via, i, lambda f: is_fld(f, 'batching'))
                    c.ob(f'P10.{what}-dataset', kd == 'batch' and p is None, e.at_(), f'the phase works on {show(v)[:120]} ' + fmt(T_, p))
    for i, e in sec:
        a = e.args[0]
        c.ob('P10.second-after-cycle', must_derive(T_, a, via_upd('s_r_cycle')), e.at_(), 'the second phase does not follow the cycle')
    # recorded members
    ev = [(i, e) for i, e in calls_named(T_, 'PopMember::evaluate') if e.args[1] is full and e.args[2] is opt]
    c.floor('recorded member re-evaluations', len(ev), 1)
    for i, e in calls_named(T_, 'PopMember::evaluate'):
        c.ob('P10.recorded-dataset', e.args[1] is full, e.at_(), f'recorded members re-evaluated on {show(e.args[1])[:100]}')
    acts = {i for i, _ in ev}
    rec = lambda s: mentions(s, lambda x: is_fld(x, 'best_by_complexity')) or any(is_call(x, 'members_mut', 'members') for x in walk(s))
    heads = set()
    for h, s, ent in loops(T_):
        if rec(s) and any(is_call(x, 's_r_cycle') for x in deep(T_, s)):
            ok = all(x in acts or T_.path_avoiding({h} | rets, acts, lambda a, b, l: any(f.op == 'is' and f.a[1] == 'None' for f in T_.edge_facts(a, l)), x) is None for x in ent)
            c.ob('P10.recorded-all', ok, T_.where(h), 'a recorded member can be skipped')
            heads.add(h)
    c.ob('P10.recorded-loop', bool(heads), T_.where(0), 'the recorded members are not re-evaluated')
    for i, e in cyc:
        p = T_.path_avoiding(rets, heads, lambda a, b, l: any(f.op == 'not' and is_fld(f.a[0], 'batching') for f in T_.edge_facts(a, l)), i)
        c.ob('P10.recorded-batching', p is None, e.at_(), 'with batching on, recorded members can keep their batch losses: ' + fmt(T_, p))
    # what the task reports
    for i, v in T_.returns():
        w = T_.where(i)
        for (b,), via in cases(T_, v, None, depth=0):
            b1 = fld(T_, b, 'best_sub_pop')
            ok = is_call(b1, 'best_sub_pop') and must_derive(T_, b1.a[1], via_upd('optimize_and_simplify_population'))
            c.ob('P10.selection-after', ok, w, f'the selection offered to other populations is {show(b1)[:120]}')
            bs = fld(T_, b, 'best_seen')
            c.ob('P10.recorded-reported', must_derive(T_, bs, lambda x: is_call(x, 's_r_cycle')), w, f'recorded members reported are {show(bs)[:100]}')
            st = fld(T_, b, 'pop_state')
            pp = fld(T_, st, 'pop')
            c.ob('P10.population-reported', must_derive(T_, pp, via_upd('optimize_and_simplify_population')), w, f'population handed back is {show(pp)[:120]}')


def evaluated(x):
    return x.op == 'upd' and x.a[0].split('::')[-1] == 'evaluate'


def plain_source(s):
    return not any(x.op == 'call' and x.a[0].split('::')[-1] in ('filter', 'skip', 'take', 'step_by', 'take_while', 'skip_while', 'filter_map') for x in walk(s))


def by_index(F, s):
    return s.op == 'agg' and s.a[0].endswith('Range') and is_const(s.a[2], 0) and any(is_call(x, 'len') for x in walk(s.a[3]))


def changes_member(e):
    for j, a in enumerate(e.raw):
        if a.op == 'refm' and any(x[0] == 'f' and x[1].split('::')[-1] == 'PopMember' for x in a.a[1]):
            return True
        if 'mut' in e.at[j] and 'PopMember' in e.at[j] and 'Vec' not in e.at[j] and 'Iter' not in e.at[j]:
            return True
    return False


# ---------------------------------------------------------------- P11
def in_rows(F, s, full):
    """a row number drawn below the full dataset's row count"""
    if is_call(s, 'usize') and s.op == 'call':
        r = s.a[2]
        return r.op == 'agg' and r.a[0].endswith('Range') and is_const(r.a[2], 0) and is_rows(F, r.a[3], full)
    return False


def is_rows(F, t, ds):
    """number of rows of dataset `ds`"""
    if is_fld(t, 'n_rows') and t.a[0] is ds:
        return True
    if is_call(t, 'len') and is_fld(t.a[1], 'y') and t.a[1].a[0] is ds:
        return True
    return False


def pushes_into(F, cont):
    """values pushed into a container term (through its loop phis)"""
    out, seen, st = [], set(), [cont]
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x.op == 'phi':
            st += [v for _, v in F.phi_ops.get(x, [])]
        elif x.op == 'upd':
            if x.a[0] == 'Vec::push':
                out.append(x.a[4])
                st.append(x.a[3])
            elif len(x.a) > 3:
                return None
        elif x.op == 'call' and x.a[0].split('::')[-1] in ('new', 'with_capacity'):
            pass
        elif x.op == 'call' and len(x.a) > 1 and isinstance(x.a[1], T):
            st.append(x.a[1])
        else:
            return None
    return out


def row_ok(F, s, full):
    if in_rows(F, s, full):
        return True
    b = s
    while b.op == 'fld':
        b = b.a[0]
    if b.op in ('elem', 'idx'):
        ps = pushes_into(F, b.a[0])
        if ps:
            for p in ps:
                q = p
                if s.op == 'fld' and p.op == 'tuple':
                    q = p.a[int(s.a[2])] if str(s.a[2]).isdigit() else p
                if not in_rows(F, q, full):
                    return False
            return True
    return False


@rule('P11',
      'Value analysis on the inlined resampling routine: in one iteration over all row positions of the batch, features, '
      'target and weight are copied from one and the same source row to one and the same position, the source row being '
      'drawn below the full dataset\'s row count; no path of an iteration omits one of the copies (weights only when '
      'there are none). On every batching path of a phase the batch is resampled from the full dataset before use, and '
      'has batch_size.max(1) rows, the full dataset\'s features, and weights exactly when that has them. Whole-program '
      'query: nothing else writes a dataset\'s features, target or weights.',
      ['fastrand::Rng::usize(0..n) is below n', 'ndarray assign copies element by element'])
def p11(c):
    ctx = c.ctx
    F = ctx.flow('Dataset::resample_from', ())
    me, full = [mk_arg(F, k) for k in (1, 2)]
    copies = {'x': [], 'y': [], 'weights': []}
    for i, e in F.events():
        if e.k == 'write' and e.root is me and e.path and e.path[0][0] == 'f':
            k = e.path[0][2]
            ix = [p[1] for p in e.path if p[0] == 'i']
            v = e.value
            if k not in copies:
                c.fail('P11.resample-shape', e.at_(), f'resampling changes the batch\'s {k}')
                continue
            src, six = strip_idx(v)
            ok = len(ix) == 1 and is_fld(src, k) and src.a[0] is full or \
                len(ix) == 1 and src.op == 'vf' and is_fld(src.a[0], k) and src.a[0].a[0] is full or \
                len(ix) == 1 and src.op in ('fld', 'vf', 'dc') and mentions(src, lambda z: is_fld(z, k) and z.a[0] is full)
            if k == 'x':
                d, s = tup(ix[0]) if len(ix) == 1 else (None, None), tup(six) if six is not None else (None, None)
                ok = ok and d is not None and len(d) == 2 and s is not None and len(s) == 2 and d[0] is s[0]
                if ok:
                    # the feature index must run over all features
                    copies['x'].append((i, d[1], s[1], d[0]))
            elif ok and six is not None:
                copies[k].append((i, ix[0], six, None))
            c.ob('P11.copy', bool(ok), e.at_(), f'batch {k} is filled with {show(v)[:120]}')
        if e.k == 'call' and e.cn and e.cn.split('::')[-1] in ('assign', 'copy_from_slice', 'clone_from_slice', 'zip_mut_with') and depends(F, e.args[0], lambda z: is_fld(z, 'x') and z.a[0] is me):
            d, s = e.args[0], e.args[1]
            ok = is_call(d, 'column_mut', 'column') and is_call(s, 'column') and is_fld(s.a[1], 'x') and s.a[1].a[0] is full
            if ok:
                copies['x'].append((i, d.a[2], s.a[2], None))
            c.ob('P11.copy', ok, e.at_(), f'batch features are filled with {show(s)[:120]}')
    copies = {k: [(i, uniq(F, d), uniq(F, s), f) for i, d, s, f in v] for k, v in copies.items()}
    for k, v in copies.items():
        c.floor(f'copies of {k}', len(v), 1)
    ds = {d for v in copies.values() for _, d, _, _ in v}
    ss = {s for v in copies.values() for _, _, s, _ in v}
    where = F.where(copies['y'][0][0])
    c.ob('P11.same-position', len(ds) == 1, where, f'features, target and weight go to different positions: {[show(x)[:60] for x in ds]}')
    c.ob('P11.same-row', len(ss) == 1, where, f'features, target and weight come from different rows: {[show(x)[:60] for x in ss]}')
    for s in ss:
        c.ob('P11.row-in-range', row_ok(F, s, full), where, f'source row {show(s)[:100]} is not drawn below the full row count')
    # every position, every iteration
    lead = None
    for h, src, ent in loops(F):
        acts = {i for i, _, _, _ in copies['y']}
        if not any(a in F.reachable_from(h) for a in acts):
            continue
        if not (src.op == 'agg' and src.a[0].endswith('Range') and is_const(src.a[2], 0) and is_rows(F, src.a[3], me)
                or pushes_into(F, src)):
            continue
        if not any(d.op == 'elem' and d.a[0] is src or d.op == 'fld' and d.a[0].op == 'elem' and d.a[0].a[0] is src for d in ds):
            continue
        lead = h
        rets = set(F.ret_nodes())
        for k, v in copies.items():
            ac = {i for i, _, _, _ in v}
            if k == 'x' and any(f is not None for _, _, _, f in v):
                # feature loop inside: its header stands for the copies
                for _, _, _, f in v:
                    for h2, s2, e2 in loops(F):
                        if f.op == 'elem' and f.a[0] is s2:
                            okr = s2.op == 'agg' and s2.a[0].endswith('Range') and is_const(s2.a[2], 0) and (is_fld(s2.a[3], 'n_features') or is_call(s2.a[3], 'nrows') or mentions(s2.a[3], lambda z: is_call(z, 'dim')))
                            c.ob('P11.all-features', okr and all(x in ac or F.path_avoiding({h2}, ac, None, x) is None for x in e2), F.where(h2), 'not every feature is copied')
                            ac = ac | {h2}
            exc = (lambda a, b, l: any(f.op == 'is' and f.a[1] == 'None' and has_fld(f.a[0], 'weights') for f in F.edge_facts(a, l))) if k == 'weights' else None
            for x in ent:
                p = None if x in ac else F.path_avoiding(rets | {h}, ac, exc, x)
                c.ob(f'P11.every-row-{k}', p is None, F.where(h), f'a row can miss its {k}: ' + fmt(F, p))
    c.ob('P11.every-row', lead is not None, where, 'the copies do not run over all rows of the batch')
    p = F.path_avoiding(set(F.ret_nodes()), {lead}) if lead is not None else None
    c.ob('P11.always', p is None, F.where(0), 'resampling can return without filling the batch: ' + fmt(F, p))
    # buffer
    B = ctx.flow('Dataset::make_batch_buffer', ())
    bf, bs = mk_arg(B, 1), mk_arg(B, 2)
    isbs = lambda t: t is bs or is_call(t, 'max') and t.a[1] is bs and is_const(t.a[2], 1) or is_call(t, 'max') and t.a[2] is bs and is_const(t.a[1], 1)
    for i, v in B.returns():
        w = B.where(i)
        for (b,), via in cases(B, v, None, depth=0):
            zx, zy, zw = [zeros(fld(B, b, k)) for k in ('x', 'y', 'weights')]
            t = tup(zx) if zx is not None else None
            c.ob('P11.buffer-x', t is not None and len(t) == 2 and is_fld(t[0], 'n_features') and t[0].a[0] is bf and isbs(t[1]), w, f'batch feature shape {show(zx)[:100] if zx is not None else None}')
            c.ob('P11.buffer-y', zy is not None and isbs(zy), w, 'batch target length is not the batch size')
            wv = fld(B, b, 'weights')
            if wv.op == 'agg' and wv.a[0].endswith('None') or is_none(wv):
                q = case_guarded(B, via, i, lambda f: f.op == 'is' and f.a[1] == 'None' and is_fld(f.a[0], 'weights'))
            else:
                q = case_guarded(B, via, i, lambda f: f.op == 'is' and f.a[1] == 'Some' and is_fld(f.a[0], 'weights'))
                c.ob('P11.buffer-w', zw is not None and isbs(zw), w, 'batch weight length is not the batch size')
            c.ob('P11.buffer-weights', q is None, w, 'batch has weights other than when the full dataset has: ' + fmt(B, q))
    # phases
    T_ = ctx.flow('execute_task', PH)
    full = full_arg(T_)
    fdata = lambda t: t.op == 'fld' and t.a[2] == 'data' and t.a[0] is full
    opt = arg_of_type(T_, 'Options')
    size = lambda t: is_call(t, 'max') and any(is_fld(a, 'batch_size') for a in t.a[1:3]) and any(is_const(a, 1) for a in t.a[1:3])
    n = 0
    for i, e in T_.events():
        if e.k != 'call' or (e.cn or '').split('::')[-1] not in ('s_r_cycle', 'optimize_and_simplify_population'):
            continue
        for j, a in enumerate(e.args):
            if 'TaggedDataset' not in e.at[j] or 'Ctx' in e.at[j]:
                continue
            for (v,), via in cases(T_, a, None):
                if dataset_kind(T_, v, full) == 'full':
                    q = case_guarded(T_, via, i, lambda f: f.op == 'not' and is_fld(f.a[0], 'batching'))
                    c.ob('P11.batching-uses-batch', q is None, e.at_(), 'with batching on the phase can run on the full dataset: ' + fmt(T_, q))
                    continue
                n += 1
                d = contents(T_, fld(T_, v, 'data'), via, i)
                ok = d.op == 'upd' and d.a[0].split('::')[-1] == 'resample_from' and fdata(d.a[4])
                c.ob('P11.resampled', ok, e.at_(), f'the phase\'s batch is {show(d)[:120]}')
                if not ok:
                    continue
                site = [x for x, y in calls_named(T_, 'resample_from') if y.args[0] is d.a[3]]
                for (b,), v2 in cases(T_, d.a[3], None):
                    b0 = b
                    while b0.op in ('vf', 'dc', 'fld') and b0.a[0].op in ('agg', 'phi', 'vf', 'dc'):
                        b0 = b0.a[0]
                    mkb = [x for x in walk(b) if is_call(x, 'make_batch_buffer')]
                    if mkb:
                        c.ob('P11.batch-new', fdata(mkb[0].a[1]) and (size(mkb[0].a[2]) or is_fld(mkb[0].a[2], 'batch_size')), e.at_(), f'the batch is made with {show(mkb[0].a[2])[:80]} rows')
                    else:
                        c.ob('P11.batch-kept', has_fld(b, 'batch_dataset') or b.op == 'loopphi' or b.op == 'upd' or mentions(b, lambda z: z.op == 'phi'), e.at_(), f'the batch is {show(b)[:100]}')
                        for what, rhs in (('n_rows', size), ('n_features', lambda t: is_fld(t, 'n_features'))):
                            good = lambda f: (f.op == 'eq' and any(is_fld(x, what) for x in f.a[:2]) and any(rhs(x) for x in f.a[:2])) or \
                                (what == 'n_rows' and f.op == 'is' and f.a[1] == 'None' and has_fld(f.a[0], 'batch_dataset')) or \
                                (f.op == 'is' and f.a[1] == 'None' and has_fld(f.a[0], 'batch_dataset'))
                            nodes = site or [i]
                            avoid = {x for x, y in calls_named(T_, 'make_batch_buffer')}
                            for s in nodes:
                                p = T_.guard_path([s], good, avoid)
                                c.ob(f'P11.batch-kept-{what}', p is None, e.at_(), f'an old batch of another {what} can be kept: ' + fmt(T_, p))
    c.floor('batched phases', n, 2)
    for i, e in calls_named(T_, 'make_batch_buffer'):
        c.ob('P11.batch-new', fdata(e.args[0]) and (size(e.args[1]) or is_fld(e.args[1], 'batch_size')), e.at_(), f'a batch is made from {show(e.args[0])[:60]} with {show(e.args[1])[:80]} rows')
    # nobody else writes dataset contents
    roots = {ctx.owner(ctx.fn(n)['id']) for n in ('Dataset::resample_from', 'Dataset::build_dataset')}
    for k in ('x', 'y', 'weights', 'n_rows', 'n_features'):
        for o, sites in ctx.writers('Dataset', k).items():
            esc = ctx.only_via(o, roots) if o not in roots else None
            c.ob('P11.immutable', esc is None, str(sites[0][1]), f'{ctx.p.fns[o]["n"]} changes a dataset\'s {k}')
    c.floor('writers of dataset contents', sum(len(ctx.writers('Dataset', k)) for k in ('x', 'y', 'weights')), 3)


def is_none(t):
    return t.op == 'agg' and t.a[0].split('::')[-1] == 'None' or t.op == 'none'


def tup(t):
    if t is None:
        return None
    if t.op == 'tuple':
        return [x for x in t.a if isinstance(x, T)]
    if t.op == 'agg' and t.a[0] in ('tuple', 'array'):
        return list(t.a[2:])
    return None


def strip_idx(v):
    if v.op == 'idx':
        return v.a[0], v.a[1]
    return v, None


def zeros(t):
    """shape of the all-zero array a term was made from"""
    for x in walk(t):
        if is_call(x, 'zeros', 'from_elem'):
            return x.a[1]
    return None


def mk_arg(F, k):
    return mk('arg', k, F.f.locals[k].get('n', ''))


# ---------------------------------------------------------------- P12 / P13
ENG = ('execute_task', 'apply_task_result', 'get_cur_maxsize', 'shuffle', 'normalize', 'cycles_remaining_start_for_next_dispatch',
       'init_populations', 'baseline_loss_from_zero_expression', 'SearchProgress::new', 'set_initial_evals', 'SearchProgress::finish',
       'RunningSearchStatistics::new', 'HallOfFame::new', 'TaggedDataset::new')


def names_field(F, t, name, seen=None):
    """t is the (possibly updated) content of a `.name` field of the search state"""
    seen = seen if seen is not None else set()
    while isinstance(t, T):
        if t in seen:
            return True
        seen.add(t)
        if is_fld(t, name):
            return True
        if t.op == 'phi':
            k = F.phi_key.get(t)
            if k:
                fs = [e[2] for e in k[1][1] if e[0] == 'f']
                if fs and fs[-1] == name:
                    return True
            ops = F.phi_ops.get(t)
            return bool(ops) and all(names_field(F, v, name, seen) for _, v in ops)
        if t.op == 'upd':
            t = t.a[3] if len(t.a) > 3 else t.a[1]
        elif t.op == 'with':
            t = t.a[0]
        elif t.op in ('ref', 'refm'):
            fs = [e[2] for e in t.a[1] if e[0] == 'f']
            return bool(fs) and fs[-1] == name
        else:
            return False
    return False


def engines(ctx):
    return [('parallel', ctx.flow('equation_search_parallel', ENG)), ('stepwise', ctx.flow('SearchEngine::step_one_cycle', ENG))]


def state_val(F, t, name, maker):
    """current content of the state's field: by field name, or (engine built in the same function) as made by `maker`"""
    return names_field(F, t, name) or must_derive(F, t, maker)


def index_of(t):
    """index of the indexing that yields t (through Some payloads)"""
    while isinstance(t, T) and t.op in ('vf', 'dc', 'fld'):
        t = t.a[0]
    return (t.a[0], t.a[1]) if isinstance(t, T) and t.op == 'idx' else (None, None)


@rule('P12',
      'Typestate of tasks over all paths of the coordinating code, with the spawned task and the catch_unwind body inlined: '
      'on every path a spawned task sends exactly one message (also when its work panics, which can happen only inside '
      'catch_unwind), the outstanding counter goes up once per spawn and down once per receive and is zero whenever an '
      'iteration ends, a reported panic cannot reach the result handling, every received result is applied. A population\'s '
      'state is taken at the index it is run under, returned by the task with that index, and stored there again; nothing '
      'else takes or replaces states (whole-program query).',
      ['std mpsc channels deliver every message once', 'rayon runs every spawned closure once'])
def p12(c):
    ctx = c.ctx
    F = ctx.flow('equation_search_parallel', ENG)
    sp = [(i, e) for i, e in F.events() if e.k == 'call' and e.t.get('spawned') and e.cn.split('::')[-1].startswith('spawn')]
    cu = [(i, e) for i, e in F.events() if e.k == 'call' and e.t.get('spawned') and e.cn == 'panic::catch_unwind']
    snd = [(i, e) for i, e in F.events() if e.k == 'call' and e.cn.split('::')[-1] in ('send', 'try_send', 'blocking_send')]
    rcv = [(i, e) for i, e in F.events() if e.k == 'call' and e.cn.split('::')[-1] in ('recv', 'recv_timeout', 'try_recv', 'recv_deadline')]
    work = calls_named(F, 'execute_task')
    app = calls_named(F, 'apply_task_result')
    for w, x in (('spawned tasks', sp), ('protected task bodies', cu), ('sends', snd), ('receives', rcv), ('task runs', work), ('result handlings', app)):
        c.floor(w, len(x), 1)
    S, R, W, A, N = [{i for i, _ in x} for x in (sp, rcv, work, app, snd)]
    rets = set(F.ret_nodes())
    for i, e in rcv:
        c.ob('P12.blocking-receive', e.cn.split('::')[-1] == 'recv', e.at_(), f'results are received with {e.cn}')
    # one report per task
    for i, e in sp:
        for s, _ in F.n[i].succ:
            p = None if s in N else F.path_avoiding(rets | R | (S - {i}) | {i}, N, None, s)
            c.ob('P12.reports', p is None, e.at_(), 'a task can end without reporting: ' + fmt(F, p))
    for i, e in snd:
        for s, _ in F.n[i].succ:
            p = F.path_avoiding(N, S, None, s) if s not in N else [s]
            c.ob('P12.reports-once', p is None, e.at_(), 'a task can report twice: ' + fmt(F, p))
        p = F.path_avoiding({i}, S)
        c.ob('P12.reports-from-task', p is None, e.at_(), 'a message is sent outside a task')
        ch = {x for v in (e.args[0],) for x in walk(v) if is_call(x, 'channel', 'sync_channel', 'unbounded', 'bounded')}
        ch2 = {x for _, r in rcv for x in walk(r.args[0]) if is_call(x, 'channel', 'sync_channel', 'unbounded', 'bounded')}
        c.ob('P12.same-channel', bool(ch) and ch == ch2, e.at_(), 'tasks report on another channel than the one received from')
    # panics only inside catch_unwind
    isok = lambda f: f.op == 'is' and f.a[1] == 'Ok' and is_call(f.a[0], 'catch_unwind')
    for i, e in work:
        for s0, _ in sp:
            p = F.guard_path([i], isok, (), s0)
            c.ob('P12.protected', p is None, e.at_(), 'a task\'s work runs outside catch_unwind: a panic would never be reported: ' + fmt(F, p))
    task_nodes = set()
    for i, _ in sp:
        q = [s for s, _ in F.n[i].succ]
        while q:
            x = q.pop()
            if x in task_nodes:
                continue
            task_nodes.add(x)
            if x in N:
                continue
            for s, l in F.n[x].succ:
                if not any(isok(f) for f in F.edge_facts(x, l)):
                    q.append(s)
    for x in sorted(task_nodes):
        for e in F.n[x].events:
            if e.k == 'call' and (e.cn.split('::')[0] == 'panicking' or e.cn.split('::')[-1] in ('unwrap_failed', 'expect_failed', 'panic_fmt', 'resume_unwind')):
                c.fail('P12.protected', e.at_(), f'a task can panic before reporting: {e.cn}')
    for i, e in snd:
        for (v,), via in cases(F, e.args[1], None):
            on_err = not any(is_call(x, 'execute_task') for x in deep(F, v))
            if on_err:
                ok = not (v.op == 'agg' and v.a[0].endswith('::Ok'))
                c.ob('P12.panic-reported', ok and F.guard_path([i], lambda f: f.op == 'is' and f.a[1] == 'Err' and is_call(f.a[0], 'catch_unwind') , (), sp[0][0]) is None or len(via) > 0 and ok,
                     e.at_(), f'a task reports {show(v)[:100]}')
    # results are applied, panics are re-raised
    for i, e in app:
        v = [a for j, a in enumerate(e.args) if 'SearchTaskResult' in e.at[j]]
        src = bool(v) and any(is_call(x, 'recv') for x in deep(F, v[0]))
        c.ob('P12.applies-received', src, e.at_(), f'the result applied is {show(v[0])[:120] if v else None}')
    for i, e in rcv:
        for s, _ in F.n[i].succ:
            p = None if s in A else F.path_avoiding(rets | R | S, A, None, s)
            c.ob('P12.every-result', p is None, e.at_(), 'a received result can be dropped: ' + fmt(F, p))
    for i, e in app:
        p = F.path_avoiding({i}, R)
        c.ob('P12.applied-once', p is None, e.at_(), 'a result is applied without receiving one')
        for s, _ in F.n[i].succ:
            p = F.path_avoiding(A, R, None, s)
            c.ob('P12.applied-once', p is None, e.at_(), 'a result can be applied twice: ' + fmt(F, p))
    # outstanding counter
    cnt = {}
    for i, e in F.events():
        if e.k == 'write' and e.value is not None and (e.value.op in ('Add', 'Sub') and any(is_const(x, 1) for x in e.value.a[:2]) or is_const(e.value, 0)):
            cnt.setdefault((e.root, e.path), []).append((i, e))
    good = None
    why = 'no counter of outstanding tasks'
    for loc, ws in cnt.items():
        up = {i for i, e in ws if e.value.op == 'Add'}
        dn = {i for i, e in ws if e.value.op == 'Sub'}
        if not dn or not up:
            continue
        if any(F.path_avoiding({x}, S) is not None for x in up) or any(F.path_avoiding({x}, R) is not None for x in dn):
            # an increment not preceded by a spawn / a decrement not preceded by a receive
            if not (all(F.path_avoiding(S, up, None, x) is None for x in [0])):
                continue
        bad = None
        for a, b, oth in ((S, up, R), (R, dn, S)):
            for x in a:
                # between this event and the next event of either kind (or the end) exactly one change
                for s, _ in F.n[x].succ:
                    after = F.path_avoiding(rets | S | R, b, None, s) if s not in b else None
                    if after is not None:
                        # the change may come just before instead
                        if F.path_avoiding({x}, b) is not None:
                            bad = 'the outstanding count is not changed with every ' + ('spawn' if a is S else 'receive') + ': ' + fmt(F, after)
            for y in b:
                for s, _ in F.n[y].succ:
                    q = F.path_avoiding(b, a, None, s) if s not in b else [s]
                    if q is not None:
                        bad = 'the outstanding count is changed twice for one ' + ('spawn' if a is S else 'receive')
        zero = lambda f: F_zero(F, f, loc)
        # after the last receive, an end of an iteration is reached only with nothing outstanding
        for x in S:
            p = F.path_avoiding(rets, set(), lambda a, b2, l: any(zero(f) for f in F.edge_fset(a, b2, l)), x)
            if p is not None:
                bad = 'the search can end with tasks outstanding: ' + fmt(F, p)
        if bad is None:
            good = loc
            break
        why = bad
    c.ob('P12.outstanding', good is not None, rcv[0][1].at_(), why)
    # take / run / put back
    for nm, G in engines(ctx):
        w = calls_named(G, 'execute_task')
        for i, e in w:
            st = [a for j, a in enumerate(e.args) if 'PopState' in e.at[j]]
            ix = [a for j, a in enumerate(e.args) if e.at[j] == 'usize']
            base, k = index_of(uniq(G, st[0])) if st else (None, None)
            ok = base is not None and any(k is x for x in ix[:1]) and (names_field(G, base, 'pops') or must_derive(G, base, lambda x: is_fld(x, 'pops')))
            c.ob(f'P12.{nm}-taken', ok, e.at_(), f'the task for population {show(ix[0])[:60] if ix else None} runs on {show(st[0])[:100] if st else None}')
            some = lambda f: f.op == 'is' and f.a[1] == 'Some' and f.a[0].op == 'idx' and st and index_of(st[0])[0] is not None and f.a[0].a[1] is k
            # once taken, it is run
            takes = [x for x, y in G.events() if y.k == 'write' and y.path and y.path[-1][0] == 'i' and any(z[0] == 'f' and z[2] == 'pops' for z in y.path) and is_none(y.value)]
            c.floor(f'{nm} takes', len(takes), 1)
            acts = {x for x, _ in w} | ({x for x, _ in sp} if G is F else set())
            for x in takes:
                for s, _ in G.n[x].succ:
                    p = None if s in acts else G.path_avoiding(set(G.ret_nodes()) | set(takes), acts, lambda a, b, l: any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'idx' for f in G.edge_facts(a, l)), s)
                    c.ob(f'P12.{nm}-taken-runs', p is None, G.where(x), 'a population can be taken and not run: ' + fmt(G, p))
            if G is not F:
                for x, _ in w:
                    ap = {y for y, _ in calls_named(G, 'apply_task_result')}
                    p = G.path_avoiding(set(G.ret_nodes()), ap, None, x)
                    c.ob('P12.stepwise-applied', p is None, e.at_(), 'a result can be dropped: ' + fmt(G, p))
    E = ctx.flow('execute_task', PH)
    ps, ix = arg_of_type(E, 'PopState'), usize_arg(E)
    for i, v in E.returns():
        c.ob('P12.returns-index', fld(E, v, 'pop_idx') is ix, E.where(i), f'the task returns index {show(fld(E, v, "pop_idx"))[:80]}')
        st = fld(E, v, 'pop_state')
        c.ob('P12.returns-state', must_derive(E, st, lambda x: x is ps), E.where(i), f'the task returns state {show(st)[:80]}')
    P_ = ctx.flow('apply_task_result', ('check_constraints', 'consider', 'migrate_into', 'pareto_front', 'on_cycle_complete', 'mark_completed', 'update_from_population', 'move_window'))
    res = arg_of_type(P_, 'SearchTaskResult')
    rets = set(P_.ret_nodes())
    for fieldn, src in (('pops', 'pop_state'), ('best_sub_pops', 'best_sub_pop')):
        ws = []
        for i, e in P_.events():
            if e.k == 'write' and any(x[0] == 'f' and x[2] == fieldn for x in e.path):
                if e.path[-1][0] != 'i':
                    if not any(x[0] == 'i' for x in e.path):
                        c.fail(f'P12.stored-{fieldn}', e.at_(), f'{fieldn} is overwritten')
                    continue
                v = e.value
                if v.op == 'agg' and v.a[0].endswith('Some'):
                    v = v.a[2]
                ok = is_fld(e.path[-1][1], 'pop_idx') and e.path[-1][1].a[0] is res and is_fld(v, src) and v.a[0] is res
                c.ob(f'P12.stored-{fieldn}', ok, e.at_(), f'{fieldn}[{show(e.path[-1][1])[:50]}] receives {show(e.value)[:80]}')
                ws.append(i)
        c.floor(f'stores to {fieldn}', len(ws), 1)
        p = P_.path_avoiding(rets, set(ws))
        c.ob(f'P12.stored-{fieldn}', p is None, P_.where(0), f'a result can be applied without storing its {src}: ' + fmt(P_, p))
    for G in [P_] + [g for _, g in engines(ctx)]:
        for fieldn in ('pops', 'best_sub_pops'):
            for i, e, suf, v in muts(G, fieldn, 'PopPools'):
                if e.k == 'call' and not suf:
                    c.fail('P12.owned', e.at_(), f'{fieldn} is rearranged: {str(e)[:120]}')
    roots = {ctx.owner(ctx.fn(n)['id']) for n in ('equation_search_parallel', 'SearchEngine::step_one_cycle', 'apply_task_result')}
    for o, sites in ctx.writers('PopPools', 'pops').items():
        esc = ctx.only_via(o, roots)
        c.ob('P12.owned', esc is None, str(sites[0][1]), f'{o} takes or replaces population states')
    for o, sites in ctx.writers('PopPools', 'best_sub_pops').items():
        c.ob('P12.owned', ctx.only_via(o, roots) is None, str(sites[0][1]), f'{o} replaces the selections offered to other populations')


def F_zero(F, f, loc):
    """fact: the counter at loc is 0"""
    if f.op in ('le', 'eq') and len(f.a) >= 2:
        a, b = f.a[0], f.a[1]
        for x, y in ((a, b), (b, a)):
            if is_const(y, 0) and (f.op == 'eq' or x is a) and x.op == 'phi' and F.phi_key.get(x, (0, None))[1] == (loc[0], loc[1]):
                return True
    return False


def roles(F, t):
    """t with parameters named by their role (type), so that engines with different signatures compare equal"""
    m = {}
    for i in range(1, F.f.argc + 1):
        ty = F.f.locals[i]['ty']
        r = 'dataset' if 'Dataset' in ty else 'options' if 'Options' in ty else ty
        m[mk('arg', i, F.f.locals[i].get('n', ''))] = mk('arg', 0, r)
    return fold.subst(t, m)


def alts(F, t):
    """alternatives of an initial value, as strings"""
    if t.op == 'phi':
        return sorted({y for x in F.phi_closure(t) for y in alts(F, x)})
    t = nosite(roles(F, t))
    return [show(t, -40)]


def nosite(t):
    """call terms without their site number"""
    na = []
    for x in t.a:
        if isinstance(x, T):
            na.append(nosite(x))
        elif t.op == 'call' and isinstance(x, int):
            continue
        else:
            na.append(x)
    return mk(t.op, *na)


SETUP = ('baseline_loss_from_zero_expression', 'RunningSearchStatistics::new', 'HallOfFame::new', 'init_populations', 'with_seed', 'set_initial_evals')


@rule('P13',
      'Two-engine comparison on inlined flows. Set-up: the values both engines pass to every set-up call (baseline, '
      'statistics, hall of fame, populations, ordering seed, number of cycles) are compared as terms, phis expanded, after '
      'naming parameters by role. Per task: in both engines the task receives the full dataset, the options, the next '
      'index of a freshly shuffled list of all populations, the size limit of the schedule at the cycles remaining at '
      'dispatch, and a normalised copy of the running statistics; results are handled with the same state. Cycle counters: '
      'one count per dispatch, one per handled result, on every path.',
      ['one worker: the parallel engine handles a result before it dispatches the next task'])
def p13(c):
    ctx = c.ctx
    Fp, Fs, Fn = ctx.flow('equation_search_parallel', ENG), ctx.flow('SearchEngine::step_one_cycle', ENG), ctx.flow('SearchEngine::new', ENG)
    # set-up
    for nm in SETUP:
        sig = []
        for F in (Fp, Fn):
            cs = [(i, e) for i, e in F.events() if e.k == 'call' and (e.cn == nm or e.cn.split('::')[-1] == nm)]
            vals = {}
            for i, e in cs:
                for j, a in enumerate(e.args):
                    for t in F.phi_closure(a) if a.op == 'phi' else [a]:
                        vals.setdefault(j, set()).update(alts(F, t))
            sig.append(({k: sorted(v) for k, v in vals.items()}, cs))
            p = F.path_avoiding(set(F.ret_nodes()), {i for i, _ in cs}) if nm not in ('baseline_loss_from_zero_expression',) else None
            c.ob(f'P13.setup-{nm.split("::")[0]}', bool(cs) and p is None, F.where(0), f'{nm} is not called on every path of the set-up')
        if nm == 'set_initial_evals':
            continue
        c.ob(f'P13.setup-{nm}', sig[0][0] == sig[1][0], sig[1][1][0][1].at_() if sig[1][1] else '',
             f'the engines set up {nm} differently: {diff(sig[0][0], sig[1][0])}')
    for F, n in ((Fp, 'parallel'), (Fn, 'stepwise')):
        for i, e in calls_named(F, 'init_populations'):
            for (d,), via in cases(F, e.args[0], None):
                has = mentions(d, lambda x: is_call(x, 'baseline_loss_from_zero_expression'))
                want = (lambda f: is_fld(f, 'use_baseline')) if has else (lambda f: f.op == 'not' and is_fld(f.a[0], 'use_baseline'))
                if d.op == 'phi':
                    continue
                p = case_guarded(F, via, i, want)
                c.ob('P13.baseline', p is None, e.at_(), 'the baseline is used other than when asked for: ' + fmt(F, p))
    tot = []
    for F in (Fp, Fn):
        s = set()
        for i, e in F.events():
            vs = [e.value] if e.k == 'write' and e.value is not None else []
            for v in vs:
                for x in walk(v):
                    if x.op == 'agg' and x.a[0].endswith('SearchCounters'):
                        s.update(show(roles(F, x), -40) for _ in (0,))
        for i, v in F.returns():
            for x in deep(F, v):
                if x.op == 'agg' and x.a[0].endswith('SearchCounters'):
                    s.add(show(roles(F, x), -40))
        for x in list(F.phi_ops):
            pass
        tot.append(s)
    where = Fn.where(0)
    ok = len(tot[0]) == 1 and tot[0] == tot[1]
    c.ob('P13.total-cycles', ok, where, f'the engines count cycles differently: {tot}')
    c.ob('P13.total-cycles-value', ok and all(k in list(tot[0])[0] for k in ('niterations', 'populations', 'Mul(')), where, f'cycles: {tot[0]}')
    # tasks
    for nm, F in (('parallel', Fp), ('stepwise', Fs)):
        mkr = {'stats': lambda x: is_call(x, 'RunningSearchStatistics::new', 'new') and 'RunningSearchStatistics' in x.a[0],
               'counters': lambda x: x.op == 'agg' and x.a[0].endswith('SearchCounters'),
               'hall': lambda x: is_call(x, 'HallOfFame::new'),
               'order_rng': lambda x: is_call(x, 'with_seed'),
               'pools': lambda x: is_call(x, 'init_populations'),
               'progress': lambda x: is_call(x, 'SearchProgress::new'),
               'options': lambda x: x.op == 'arg' and 'ptions' in F.f.locals[x.a[0]]['ty'],
               'task_order': lambda x: False}
        sv = lambda t, n: state_val(F, t, n, mkr[n])
        work = calls_named(F, 'execute_task')
        c.floor(f'{nm} task runs', len(work), 1)
        disp = {i for i, _ in calls_named(F, 'cycles_remaining_start_for_next_dispatch')}
        W = {i for i, _ in work}
        for i, e in work:
            w = e.at_()
            by = lambda s: [a for j, a in enumerate(e.args) if s in e.at[j]]
            us = [a for j, a in enumerate(e.args) if e.at[j] == 'usize']
            ds = by('TaggedDataset')[0]
            if nm == 'stepwise':
                okd = (is_call(ds, 'TaggedDataset::new') or ds.op == 'agg') and any(is_fld(x, 'dataset') for x in ds.a if isinstance(x, T)) and any(is_fld(x, 'baseline_loss') for x in ds.a if isinstance(x, T))
            else:
                ini = [a for _, y in calls_named(F, 'init_populations') for a in y.args[:1]]
                okd = any(ds is x for x in ini)
            c.ob('P13.task-dataset', okd, w, f'{nm}: the task runs on {show(ds)[:100]}')
            c.ob('P13.task-options', sv(by('Options')[0], 'options'), w, f'{nm}: the task gets options {show(by("Options")[0])[:80]}')
            m = us[1]
            okm = is_call(m, 'get_cur_maxsize') and sv(m.a[1], 'options') and is_fld(m.a[2], 'total_cycles') and sv(m.a[2].a[0], 'counters') and \
                is_call(m.a[3], 'cycles_remaining_start_for_next_dispatch') and sv(m.a[3].a[1], 'counters')
            c.ob('P13.task-limit', okm, w, f'{nm}: the size limit of a task is {show(m)[:160]}')
            st = by('RunningSearchStatistics')[0]
            oks = st.op == 'upd' and st.a[0].split('::')[-1] == 'normalize' and sv(st.a[3], 'stats')
            c.ob('P13.task-stats', oks, w, f'{nm}: the statistics of a task are {show(st)[:120]}')
            base, k = us[0].a[:2] if us[0].op == 'idx' else (None, None)
            oko = base is not None and (must_derive(F, base, via_upd('shuffle')) or all(is_fld(x, 'task_order') or must_derive(F, x, via_upd('shuffle')) for x in expand(F, base)))
            c.ob('P13.task-order', oko, w, f'{nm}: the population run is {show(us[0])[:100]}')
            # the position advances by one with every task, from 0
            if k is not None:
                loc = F.phi_key[k][1] if k.op == 'phi' and k in F.phi_key else None
                ws = [(x, y) for x, y in F.events() if y.k == 'write' and y.value is not None and y.value.op == 'Add' and any(z is k for z in y.value.a[:2]) and any(is_const(z, 1) for z in y.value.a[:2])]
                okk = bool(ws)
                c.ob('P13.task-position', okk, w, f'{nm}: the position {show(k)[:60]} does not advance by one')
                if ws:
                    ps = {x for x, _ in ws}
                    p = F.path_avoiding(W, ps)
                    c.ob('P13.task-position', p is None, w, f'{nm}: a task can run without advancing: ' + fmt(F, p))
                    locs = {(y.root, y.path) for _, y in ws}
                    for x, y in F.events():
                        if y.k == 'write' and (y.root, y.path) in locs and y.value is not None:
                            c.ob('P13.task-position', is_const(y.value, 0) or any(y.value is z.value for _, z in ws), y.at_(), f'{nm}: the position is set to {show(y.value)[:80]}')
            # one dispatch per task
            p = F.path_avoiding({i}, disp)
            c.ob('P13.dispatch-counted', p is None, w, f'{nm}: a task runs without counting its dispatch: ' + fmt(F, p))
            for x in disp:
                for s, _ in F.n[x].succ:
                    sp = {y for y, z in F.events() if z.k == 'call' and z.t.get('spawned') and z.cn.split('::')[-1].startswith('spawn')}
                    p = F.path_avoiding(disp, W | sp, None, s)
                    c.ob('P13.dispatch-counted', p is None, F.where(x), f'{nm}: a dispatch is counted twice: ' + fmt(F, p))
        # persistent statistics stay raw
        for i, e in calls_named(F, 'normalize'):
            a = e.raw[0]
            bad = a.op == 'refm' and (any(x[0] == 'f' and x[2] == 'stats' for x in a.a[1]))
            c.ob('P13.stats-copy', not bad, e.at_(), f'{nm}: the running statistics themselves are normalised')
        sh = calls_named(F, 'shuffle')
        c.floor(f'{nm} orderings', len(sh), 1)
        for i, e in sh:
            r, l = e.args[0], e.args[1]
            okl = is_call(l, 'collect') and l.a[1].op == 'agg' and l.a[1].a[0].endswith('Range') and is_const(l.a[1].a[2], 0) and is_call(l.a[1].a[3], 'len') and \
                (is_fld(l.a[1].a[3].a[1], 'pops') or names_field(F, l.a[1].a[3].a[1], 'pops'))
            c.ob('P13.order-all', okl, e.at_(), f'{nm}: the visiting order is a shuffle of {show(l)[:100]}')
            c.ob('P13.order-rng', sv(r, 'order_rng'), e.at_(), f'{nm}: the visiting order is drawn from {show(r)[:80]}')
        SH = {i for i, _ in sh}
        if nm == 'parallel':
            for h, s, ent in loops(F):
                if SH & F.reach_set(h) and s.op == 'agg' and s.a[0].endswith('Range'):
                    c.ob('P13.iterations', is_const(s.a[2], 0) and is_fld(s.a[3], 'niterations'), F.where(h), f'iterations run over {show(s)[:80]}')
                    for x in ent:
                        p = None if x in SH else F.path_avoiding(W | {h}, SH, None, x)
                        c.ob('P13.order-each-iteration', p is None, F.where(h), 'an iteration can run without a new order: ' + fmt(F, p))
                    break
            else:
                ks = {f.a[0] for x in F.rpo for t, l in F.n[x].succ for f in F.edge_facts(x, l)
                      if f.op == 'lt' and is_fld(f.a[1], 'niterations') and f.a[0].op == 'phi'}
                okw = False
                for k in ks:
                    vals = F.phi_closure(k)
                    ups = [v for v in vals if v.op == 'Add']
                    if all(is_const(v, 0) or v in ups for v in vals) and ups and all(any(is_const(z, 1) for z in v.a[:2]) and any(z.op == 'phi' and (z is k or k in phi_reach(F, z)) for z in v.a[:2]) for v in ups) and \
                            F.guard_path(SH, lambda f: f.op == 'lt' and f.a[0] is k and is_fld(f.a[1], 'niterations')) is None:
                        okw = all(F.path_avoiding(SH, set(), lambda a, b, l: any(f.op == 'lt' and f.a[0] is k for f in F.edge_facts(a, l)), s) is None for i in SH for s, _ in F.n[i].succ)
                c.ob('P13.iterations', okw, F.where(0), 'no loop over the iterations')
        else:
            for i in SH:
                p = F.guard_path([i], lambda f: f.op == 'lt' and is_fld(f.a[0], 'cur_iter') and is_fld(f.a[1], 'niterations'))
                c.ob('P13.iterations', p is None, F.where(i), 'stepwise: an iteration starts beyond niterations: ' + fmt(F, p))
                p = F.guard_path([i], lambda f: f.op in ('le', 'eq') and (any(is_call(x, 'len') and has_fld(x, 'task_order') for x in f.a[:2] if isinstance(x, T))))
                c.ob('P13.order-each-iteration', p is None, F.where(i), 'stepwise: a new order can start before the old one is done: ' + fmt(F, p))
            inc = {x for x, y in F.events() if y.k == 'write' and y.path and y.path[-1][0] == 'f' and y.path[-1][2] == 'cur_iter'}
            for x, y in F.events():
                if x in inc and y.k == 'write' and y.path and y.path[-1][0] == 'f' and y.path[-1][2] == 'cur_iter':
                    c.ob('P13.iterations', y.value.op == 'Add' and any(is_const(z, 1) for z in y.value.a[:2]) and any(is_fld(z, 'cur_iter') for z in y.value.a[:2] if isinstance(z, T)), y.at_(), f'the iteration number becomes {show(y.value)[:60]}')
            for i in SH:
                p1 = F.path_avoiding({i}, inc)
                p2 = F.path_avoiding(set(F.ret_nodes()) | W, inc, None, i)
                c.ob('P13.iterations', p1 is None or p2 is None, F.where(i), 'stepwise: an iteration is not counted: ' + fmt(F, p2))
            ws = [(x, y) for x, y in F.events() if y.k == 'write' and y.path and y.path[-1][0] == 'f' and y.path[-1][2] == 'task_order']
            for x, y in ws:
                if must_derive(F, y.value, via_upd('shuffle')):
                    continue
                for s, _ in F.n[x].succ:
                    p = None if s in SH or x in SH else F.path_avoiding(set(F.ret_nodes()) | W, SH, None, s)
                    c.ob('P13.order-each-iteration', p is None, y.at_(), 'stepwise: an order can be used unshuffled: ' + fmt(F, p))
        for i, e in calls_named(F, 'apply_task_result'):
            for key, ty in (('options', 'Options'), ('counters', 'SearchCounters'), ('stats', 'RunningSearchStatistics'), ('hall', 'HallOfFame'), ('progress', 'SearchProgress'), ('pools', 'PopPools')):
                a = [x for j, x in enumerate(e.args) if ty in e.at[j] and 'TaskResult' not in e.at[j]]
                c.ob(f'P13.result-{key}', len(a) == 1 and sv(a[0], key), e.at_(), f'{nm}: results are handled with {key} {show(a[0])[:80] if a else None}')
    # counters
    D = ctx.flow('SearchCounters::cycles_remaining_start_for_next_dispatch', ())
    M = ctx.flow('SearchCounters::mark_completed', ())
    for F, f, subf in ((D, 'cycles_started', 'cycles_started'), (M, 'cycles_completed', 'cycles_completed')):
        ws = [(i, e) for i, e in F.events() if e.k == 'write' and e.path and e.path[-1][0] == 'f' and e.path[-1][2] == f]
        for i, e in ws:
            c.ob('P13.counted-once', e.value.op == 'Add' and any(is_const(z, 1) for z in e.value.a[:2]) and any(is_fld(z, f) for z in e.value.a[:2]), e.at_(), f'{f} becomes {show(e.value)[:60]}')
        c.ob('P13.counted-once', len(ws) == 1 and F.path_avoiding(set(F.ret_nodes()), {ws[0][0]}) is None, F.where(0), f'{f} is not counted exactly once')
    for i, v in D.returns():
        ok = v.op == 'call' and v.a[0].endswith('saturating_sub') and is_fld(v.a[1], 'total_cycles') and is_fld(v.a[2], 'cycles_started') or v.op == 'Sub' and is_fld(v.a[0], 'total_cycles') and is_fld(v.a[1], 'cycles_started')
        c.ob('P13.remaining-at-dispatch', ok, D.where(i), f'cycles remaining at dispatch: {show(v)[:100]}')
    A = ctx.flow('apply_task_result', ('check_constraints', 'consider', 'migrate_into', 'pareto_front', 'on_cycle_complete', 'mark_completed', 'update_from_population', 'update_frequencies', 'move_window'))
    mc = {i for i, _ in calls_named(A, 'mark_completed')}
    p = A.path_avoiding(set(A.ret_nodes()), mc)
    c.ob('P13.completed-counted', bool(mc) and p is None, A.where(0), 'a result is handled without counting its cycle: ' + fmt(A, p))
    for i in mc:
        for s, _ in A.n[i].succ:
            p = A.path_avoiding(mc, set(), None, s)
            c.ob('P13.completed-counted', p is None, A.where(i), 'a cycle is counted twice')
    # the statistics follow every result
    for nm in ('update_from_population', 'move_window'):
        cs = calls_named(A, nm)
        if not cs and nm == 'update_from_population' and calls_named(A, 'update_frequencies'):
            continue    # counted member by member: P29 decides that
        p = A.path_avoiding(set(A.ret_nodes()), {i for i, _ in cs})
        c.ob(f'P13.stats-{nm}', bool(cs) and p is None, A.where(0), 'a result is handled without updating the statistics: ' + fmt(A, p))
    Z = ctx.flow('SearchEngine::is_finished', ())
    for i, v in Z.returns():
        ok = v.op == 'eq' and any(is_const(x, 0) for x in v.a[:2]) and any(is_call(x, 'saturating_sub') and is_fld(x.a[1], 'total_cycles') and is_fld(x.a[2], 'cycles_completed') for x in v.a[:2]) or \
            v.op == 'le' and is_fld(v.a[0], 'total_cycles') and is_fld(v.a[1], 'cycles_completed')
        c.ob('P13.finished', ok, Z.where(i), f'finished when {show(v)[:100]}')


def phi_reach(F, t):
    """phis a phi draws from"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or x.op != 'phi':
            continue
        seen.add(x)
        st += [v for _, v in F.phi_ops.get(x, [])]
    return seen


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f'argument {k}: {str(a.get(k))[:140]} / {str(b.get(k))[:140]}'
    return ''
