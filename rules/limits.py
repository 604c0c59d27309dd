"""Size limit, reported best, migration, determinism."""
from sa.core import *
from sa.rulelib import *
from sa import fold
from sa.term import mk, T
from rules import rule
from rules.hof import arg_of_type, usize_arg
from rules.evolve import ctx_field, is_const
from rules.engine import ENG, mk_arg, is_none, tup, full_arg, PH, pushes_into, state_val

# ---------------------------------------------------------------- monotonicity / sign domain
INC, DEC, CON, UNK = 'inc', 'dec', 'con', '?'
FLIP = {INC: DEC, DEC: INC, CON: CON, UNK: UNK}


def join(a, b):
    if a == CON:
        return b
    if b == CON or a == b:
        return a
    return UNK


def num(t):
    """numeric value of a constant, else None"""
    if not isinstance(t, T) or t.op != 'const':
        return None
    v = t.a[0]
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)):
        return v
    try:
        return float(v)
    except ValueError:
        return None


def nonneg(F, t, facts=()):
    """the value is at least 0 (NaN aside)"""
    if t.op == 'const':
        return num(t) is not None and num(t) >= 0
    if t.op == 'cast' and str(t.a[1]) in ('usize', 'u64', 'u32', 'u16', 'u8'):
        return True
    if t.op in ('Add', 'Mul', 'Div'):
        return nonneg(F, t.a[0], facts) and nonneg(F, t.a[1], facts)
    if t.op == 'cast':
        return nonneg(F, t.a[0], facts)
    n = lastname(t)
    if n in ('floor', 'ceil', 'round', 'trunc', 'sqrt', 'abs'):
        return n in ('abs', 'sqrt') or nonneg(F, t.a[1], facts)
    if n in ('saturating_sub', 'len'):
        return True
    if n in ('min',):
        return nonneg(F, t.a[1], facts) and nonneg(F, t.a[2], facts)
    if n in ('max',):
        return nonneg(F, t.a[1], facts) or nonneg(F, t.a[2], facts)
    if n == 'clamp':
        return nonneg(F, t.a[2], facts)
    for f in facts:
        if f.op in ('lt', 'le') and f.a[1] is t and num(f.a[0]) is not None and num(f.a[0]) >= 0:
            return True
    if t.op == 'arg' and F.f.locals[t.a[0]]['ty'] in ('usize', 'u64', 'u32'):
        return True
    if t.op == 'fld' and t.a[2] in ('maxsize', 'niterations', 'populations'):
        return True
    return False


def mono(F, t, x, facts=()):
    """how t changes as x grows (everything else fixed)"""
    if t is x:
        return INC
    if not mentions(t, lambda z: z is x or z.op == 'phi'):
        return CON
    m = lambda u: mono(F, u, x, facts)
    if t.op == 'Add':
        return join(m(t.a[0]), m(t.a[1]))
    if t.op == 'Sub':
        return join(m(t.a[0]), FLIP[m(t.a[1])])
    if t.op in ('Mul', 'Div'):
        a, b = t.a[:2]
        if nonneg(F, a, facts) and nonneg(F, b, facts):
            return join(m(a), m(b) if t.op == 'Mul' else FLIP[m(b)])
        if m(b) == CON and nonneg(F, b, facts):
            return m(a)
        return UNK
    if t.op == 'cast':
        return m(t.a[0])
    n = lastname(t)
    if n in ('floor', 'ceil', 'round', 'trunc'):
        return m(t.a[1])
    if n in ('min', 'max', 'saturating_add'):
        return join(m(t.a[1]), m(t.a[2]))
    if n in ('saturating_sub', 'wrapping_sub'):
        return join(m(t.a[1]), FLIP[m(t.a[2])])
    if n == 'clamp':
        return join(m(t.a[1]), join(m(t.a[2]), m(t.a[3])))
    return UNK


def at_most(F, t, hi, facts=(), d=0):
    """t <= hi in every case"""
    if t is hi:
        return True
    n = lastname(t)
    if n == 'min':
        return any(at_most(F, y, hi, facts, d + 1) for y in t.a[1:3])
    if n == 'max':
        return all(at_most(F, y, hi, facts, d + 1) for y in t.a[1:3])
    if n == 'clamp':
        return at_most(F, t.a[3], hi, facts, d + 1)
    if n in ('saturating_sub',):
        return at_most(F, t.a[1], hi, facts, d + 1)
    return any(f.op in ('lt', 'le') and f.a[0] is t and f.a[1] is hi for f in facts)


CHECKS = ('check_constraints', 'consider', 'update_from_members', 'next_generation', 'crossover_generation', 'reg_evol_cycle', 's_r_cycle',
          'optimize_and_simplify_population', 'condition_mutation_weights')


def is_limit(F, t):
    """the limit handed in: a usize parameter, or a curmaxsize field of a parameter"""
    if t.op == 'arg':
        return F.f.locals[t.a[0]]['ty'] == 'usize' and 'size' in (F.f.locals[t.a[0]].get('n') or 'size')
    return is_fld(t, 'curmaxsize') and arg_root(t).op in ('arg', 'sub')


@rule('P15',
      'Monotonicity, sign and bound domains over the value terms of the schedule function (every alternative is at most maxsize; an '
      'alternative other than maxsize requires warm-up to be on and the elapsed fraction to be within it; all alternatives grow with '
      'the elapsed cycles). Value numbering from dispatch to every use: both engines obtain the limit from the schedule for the cycles '
      'dispatched so far, the task passes it unchanged to both phases, every phase to every offspring check and hall-of-fame '
      'admission, and back with the result.',
      ['float arithmetic is treated as exact up to monotonicity (rounding is monotone)'])
def p15(c):
    ctx = c.ctx
    F = ctx.flow('get_cur_maxsize', ())
    opt = arg_of_type(F, 'Options')
    tot, rem = usize_arg(F, 0), usize_arg(F, 1)
    n = 0
    for i, v in F.returns():
        for (t,), via in cases(F, v, None):
            n += 1
            w = case_where(F, via, i)
            mx = [x for x in walk(t) if is_fld(x, 'maxsize') and x.a[0] is opt]
            c.ob('P15.bound', any(at_most(F, t, x, [g for g in must_facts(F, via, i)]) for x in mx), w, f'the limit {show(t)[:160]} is not bounded by maxsize')
            if any(t is x for x in mx):
                continue
            fs = must_facts(F, via, i)
            on = any(f.op == 'lt' and num(f.a[0]) == 0 and is_fld(f.a[1], 'warmup_maxsize_by') for f in fs)
            c.ob('P15.off', on, w, 'a limit other than maxsize without warm-up being on')
            early = [f for f in fs if f.op in ('lt', 'le') and has_fld(f, 'warmup_maxsize_by') and mentions(f, lambda z: z is rem)]
            ok = any(mono(F, f.a[0], rem, fs) in (DEC, CON) and mono(F, f.a[1], rem, fs) in (INC, CON) for f in early)
            c.ob('P15.over', ok, w, 'a limit other than maxsize after the warm-up')
            mo = mono(F, t, rem, fs)
            c.ob('P15.grows', mo == DEC, w, f'the limit {show(t)[:140]} does not grow as the remaining cycles shrink ({mo})')
            c.ob('P15.total', any(mentions(f, lambda z: z is tot) for f in early), w, 'the warm-up fraction ignores the total number of cycles')
    c.floor('limit alternatives', n, 2)
    # dispatch
    for F, nm in ((ctx.flow('equation_search_parallel', ENG), 'parallel'), (ctx.flow('SearchEngine::step_one_cycle', ENG), 'stepwise')):
        ws = calls_named(F, 'execute_task')
        c.floor(f'{nm} tasks', len(ws), 1)
        for i, e in ws:
            m = [a for j, a in enumerate(e.args) if e.at[j] == 'usize'][1]
            ok = is_call(m, 'get_cur_maxsize') and is_fld(m.a[2], 'total_cycles') and \
                (is_call(m.a[3], 'cycles_remaining_start_for_next_dispatch') or has_fld(m.a[3], 'cycles_started'))
            c.ob('P15.dispatch', ok, e.at_(), f'{nm}: the limit of a task is {show(m)[:140]}')
    # use: each function of the search hands its own limit on
    n = 0
    for name, opq in (('execute_task', PH), ('s_r_cycle', ('reg_evol_cycle', 'consider', 'update_from_members')),
                      ('reg_evol_cycle', ('next_generation', 'crossover_generation', 'best_of_sample')),
                      ('next_generation', lambda g: g['crate'] == 'dynamic_expressions' or short(g['n']).split('::')[-1] in ('check_constraints', 'evaluate', 'rebuild_plan') or 'mutation_functions' in g['n']),
                      ('crossover_generation', lambda g: g['crate'] == 'dynamic_expressions' or short(g['n']).split('::')[-1] in ('check_constraints', 'evaluate', 'rebuild_plan') or 'mutation_functions' in g['n']),
                      ('HallOfFame::update_from_members', ('consider',)), ('HallOfFame::consider', ('check_constraints',))):
        F = ctx.flow(name, opq, key='p15') if callable(opq) else ctx.flow(name, opq)
        k = 0
        for i, e in F.events():
            if e.k != 'call' or (e.cn or '').split('::')[-1] not in CHECKS:
                continue
            g = e.cn.split('::')[-1]
            lim = None
            if g in ('reg_evol_cycle', 's_r_cycle', 'optimize_and_simplify_population', 'next_generation', 'crossover_generation'):
                cx = [a for j, a in enumerate(e.args) if 'Ctx' in e.at[j] and 'Grad' not in e.at[j] and 'Eval' not in e.at[j]]
                lim = fld(F, cx[0], 'curmaxsize') if cx else None
            if lim is None:
                us = [a for j, a in enumerate(e.args) if e.at[j] == 'usize']
                lim = us[0] if us else None
            if lim is None:
                c.fail('P15.use', e.at_(), f'no limit is given to {g}')
                continue
            k += 1
            bad = [x for x in expand(F, lim) if not is_limit(F, x) or (name == 'execute_task' and x is usize_arg(F, 0) and 'idx' in x.a[1])]
            c.ob(f'P15.use:{name}', not bad, e.at_(), f'{g} is given the limit {show(lim)[:120]}')
        c.floor(f'uses of the limit in {name}', k, {'execute_task': 2, 's_r_cycle': 2, 'reg_evol_cycle': 2, 'next_generation': 1, 'crossover_generation': 1}.get(name, 1))
        n += k
        for i, e in F.events():
            if e.k == 'write' and e.path and e.path[-1][0] == 'f' and e.path[-1][2] == 'curmaxsize' and isinstance(e.root, T):
                c.ob('P15.unchanged', e.value is not None and is_limit(F, e.value), e.at_(), f'the limit is changed to {show(e.value)[:80]}')
    E = ctx.flow('execute_task', PH)
    us = [usize_arg(E, k) for k in range(2)]
    for i, v in E.returns():
        for (b,), via in cases(E, v, None, depth=0):
            m, q = fld(E, b, 'curmaxsize'), fld(E, b, 'pop_idx')
            c.ob('P15.reported', m.op == 'arg' and m is not q, E.where(i), f'the limit reported with the result is {show(m)[:80]}')
    A = ctx.flow('apply_task_result', APPLY)
    opt = arg_of_type(A, 'Options')
    k = 0
    for i, e in calls_named(A, 'HallOfFame::consider'):
        k += 1
        c.ob('P15.result', is_fld(e.args[3], 'curmaxsize'), e.at_(), f'results are admitted at the limit {show(e.args[3])[:80]}')
    c.floor('result admissions', k, 1)


APPLY = ('check_constraints', 'consider', 'migrate_into', 'pareto_front', 'on_cycle_complete', 'mark_completed', 'update_from_population', 'move_window', 'update_from_members')


def must_facts(F, via, ret):
    """facts that hold on every path realising this alternative"""
    out = set(F.n[ret].facts)
    for pr, node in via:
        if pr == -1:
            continue
        cand = None
        for l in [l for s, l in F.n[pr].succ if s == node]:
            s = set(F.edge_fset(pr, node, l))
            cand = s if cand is None else cand & s
        out |= cand or set()
        out |= set(F.n[pr].facts)
    return out


# ---------------------------------------------------------------- P16
def is_check(f, m, opt, lim):
    """fact 'm satisfies the constraints at the limit' (lim: predicate)"""
    return is_call(f, 'check_constraints') and is_fld(f.a[1], 'expr') and (m is None or f.a[1].a[0] is m) and f.a[2] is opt and lim(f.a[3])


def leaf_sources(F, s):
    """the collections an iteration source runs over completely, or None when elements can be skipped"""
    if s.op == 'phi':
        s2 = uniq(F, s)
        if s2 is s:
            out = []
            for x in F.phi_closure(s):
                r = leaf_sources(F, x)
                if r is None:
                    return None
                out += r
            return out
        s = s2
    n = lastname(s)
    if n == 'chain':
        a, b = leaf_sources(F, s.a[1]), leaf_sources(F, s.a[2])
        return None if a is None or b is None else a + b
    if n in ('flatten', 'iter', 'into_iter', 'iter_mut', 'rev', 'cloned', 'copied', 'as_ref', 'deref', 'members', 'collect', 'values'):
        return leaf_sources(F, s.a[1])
    if n in ('filter', 'skip', 'take', 'step_by', 'take_while', 'skip_while', 'filter_map', 'map_while', 'nth', 'last'):
        return None
    return [s]


def skip_none(F):
    """an edge on which the slot looked at is empty"""
    return lambda a, b, l: any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'elem' for f in F.edge_facts(a, l))


def every_elem(F, want, acts, excuse):
    """which of the wanted sources (name -> predicate) are covered by loops where every iteration acts or is excused.
    Returns (covered names, loop headers, first offending path)"""
    cov, heads, bad = set(), {}, None
    rets = set(F.ret_nodes())
    for h, s, ent in loops(F):
        ls = leaf_sources(F, s)
        if ls is None:
            continue
        names = {k for k, p in want.items() if any(p(x) for x in ls)}
        if not names:
            continue
        hs = {x for x in F.rpo if F.n[x].b == F.n[h].b}
        if not any(a in F.reach_set(h) and hs & F.reach_set(a) for a in acts):
            continue
        p = None
        for x in ent:
            if x in acts:
                continue
            q = F.path_avoiding(rets | hs, acts, lambda a, b, l: any(excuse(f) for f in F.edge_fset(a, b, l)) or skip_none(F)(a, b, l), x)
            if q is not None:
                p = q
                break
        if p is None:
            p = outer_skips(F, ls, hs)
        if p is None:
            cov |= names
            for k in names:
                heads.setdefault(k, set()).update(hs)
        else:
            bad = bad or p
    return cov, heads, bad


def outer_skips(F, ls, heads):
    """for an inner loop over a part of each element of an outer iteration: a path through the outer iteration that
    misses the inner loop, [] when outer elements can be skipped, None when everything is covered"""
    for x in ls:
        y = x
        while isinstance(y, T) and y.op in ('fld', 'vf', 'idx', 'dc', 'with', 'ref', 'refm') and isinstance(y.a[0], T):
            y = y.a[0]
        if y.op != 'elem':
            continue
        o = leaf_sources(F, y.a[0])
        if o is None:
            return [0]
        for h, s, ent in loops(F):
            if s is not y.a[0]:
                continue
            hs = {z for z in F.rpo if F.n[z].b == F.n[h].b}
            for z in ent:
                if z in heads:
                    continue
                q = F.path_avoiding(set(F.ret_nodes()) | hs, heads, skip_none(F), z)
                if q is not None:
                    return q
        q = outer_skips(F, o, heads)
        if q is not None:
            return q
    return None


@rule('P16',
      'Whole-program write query (the best member is assigned only where a result is handled and where a search starts, and never '
      'changed in place). Must-pass guards on inlined MIR: every assignment stores a clone of a member of the result whose constraint '
      'check at the task\'s limit succeeded and whose loss is strictly lower, or the current best fails the check; every iteration over '
      'the recorded members and over the members of the population that leaves the best alone took a branch that excuses it; every '
      'member is also offered to the hall of fame; both loops run on every path, before migration. Initial best: the same analysis of '
      'the selection loop, with the fallback only when no member was valid. Value analysis: the search result reports exactly these.',
      ['comparison with NaN is false'])
def p16(c):
    ctx = c.ctx
    A = ctx.flow('apply_task_result', APPLY[:-1])
    opt = arg_of_type(A, 'Options')
    res = arg_of_type(A, 'SearchTaskResult')
    pools = arg_of_type(A, 'PopPools')
    hall = arg_of_type(A, 'HallOfFame')
    w0 = A.where(0)
    inner = lambda t: arg_root(uniq(A, t)) is res or mentions(t, lambda z: z is res)
    want = {'recorded members': lambda s: inner(s) and has_fld(s, 'best_by_complexity') and has_fld(s, 'best_seen'),
            'population members': lambda s: inner(s) and is_fld(s, 'members')}
    lim = lambda t: is_fld(t, 'curmaxsize') and t.a[0] is res
    mxl = lambda t: is_fld(t, 'maxsize') and t.a[0] is opt or lim(t)
    isbest = lambda t, n: has_best(A, t, pools)
    # assignments
    ws = [(i, e) for i, e in A.events() if e.k == 'write' and any(x[0] == 'f' and x[2] == 'best' and x[1].split('::')[-1] == 'PopPools' for x in e.path)]
    c.floor('assignments of the best', len(ws), 1)
    acts = set()
    for i, e in ws:
        c.ob('P16.whole', e.path[-1][0] == 'f' and e.path[-1][2] == 'best', e.at_(), 'part of the best member is changed in place')
        for m in expand(A, e.value):
            ls = leaf_sources(A, m.a[0]) if m.op == 'elem' else None
            if ls and not any(p(x) for p in want.values() for x in ls) and m.op == 'elem':
                ls = None
            c.ob('P16.from-result', bool(ls), e.at_(), f'the best becomes {show(m)[:120]}, not a member of the result')
            p = A.guard_path([i], lambda f: is_check(f, m, opt, lim))
            c.ob('P16.valid', p is None, e.at_(), 'the best can become a member that was not checked at the task\'s limit: ' + fmt(A, p))
            p = A.guard_path([i], lambda f: f.op == 'lt' and is_fld(f.a[0], 'loss') and f.a[0].a[0] is m and is_fld(f.a[1], 'loss') and isbest(f.a[1].a[0], i)
                             or f.op == 'not' and is_check(f.a[0], None, opt, mxl) and isbest(f.a[0].a[1].a[0], i))
            c.ob('P16.better', p is None, e.at_(), 'a valid best can be replaced by a member that is not better: ' + fmt(A, p))
            acts.add(i)
    ex1 = lambda f: f.op == 'not' and is_check(f.a[0], None, opt, lim) and not isbest(f.a[0].a[1].a[0], 0)
    notlt = lambda f: f.op == 'not' and f.a[0].op == 'lt' and is_fld(f.a[0].a[0], 'loss') and is_fld(f.a[0].a[1], 'loss') and isbest(f.a[0].a[1].a[0], 0) and not isbest(f.a[0].a[0].a[0], 0)
    okb = lambda f: is_check(f, None, opt, mxl) and isbest(f.a[1].a[0], 0)
    for what, ex in (('a lower loss', lambda f: ex1(f) or notlt(f)), ('a violating best', lambda f: ex1(f) or okb(f))):
        cov, heads, bad = every_elem(A, want, acts, ex)
        for k in want:
            c.ob('P16.replaced', k in cov, w0, f'{k}: a valid member does not replace the best despite {what}: ' + fmt(A, bad))
            if k in cov:
                p = A.path_avoiding(set(A.ret_nodes()), heads[k])
                c.ob('P16.always', p is None, w0, f'{k} are not compared on every path: ' + fmt(A, p))
                mig = {i for i, _ in calls_named(A, 'migrate_into')}
                p = A.path_avoiding(mig, heads[k])
                c.ob('P16.before-migration', p is None, w0, f'{k} are compared only after migration: ' + fmt(A, p))
    # hall of fame
    cons = set()
    for i, e in calls_named(A, 'HallOfFame::consider'):
        c.ob('P16.hall', must_derive(A, e.args[0], lambda x: x is hall), e.at_(), f'members are offered to {show(e.args[0])[:80]}')
        c.ob('P16.hall-options', e.args[2] is opt and lim(e.args[3]), e.at_(), 'members are offered with other options or another limit')
        cons.add(i)
    cov, heads, bad = every_elem(A, want, cons, lambda f: False)
    for k in want:
        c.ob('P16.offered', k in cov, w0, f'not all {k} are offered to the hall of fame: ' + fmt(A, bad))
        if k in cov:
            p = A.path_avoiding(set(A.ret_nodes()), heads[k])
            c.ob('P16.offered-always', p is None, w0, f'{k} are not offered to the hall of fame on every path: ' + fmt(A, p))
    # nobody else
    roots = {A.root['id']} | {f['id'] for f in c.p.fns.values() if short(f['n']).split('::')[-1] == 'init_populations'}
    for fid, l in ctx.writers('PopPools', 'best').items():
        ok = fid in roots or ctx.only_via(fid, roots) is None
        c.ob('P16.writers', ok, str(l[0][1]), f'{c.p.fns[fid]["n"]} changes the best member')
    for fid in ctx.constructors('PopPools'):
        c.ob('P16.constructors', fid in roots, c.p.fns[fid]['n'], f'{c.p.fns[fid]["n"]} builds the pools')
    initial_best(c)
    # reported
    E = ctx.flow('equation_search_parallel', ENG)
    n = 0
    for F, nm in ((E, 'parallel'), (ctx.flow('SearchEngine::run_to_completion', ('step_one_cycle',)), 'stepwise')):
        for i, v in F.returns():
            for (b,), via in cases(F, v, None, depth=0):
                n += 1
                m, h = fld(F, b, 'best'), fld(F, b, 'hall_of_fame')
                ok = all(is_fld(x, 'best') or must_derive(F, x, lambda z: is_fld(z, 'best')) for x in expand(F, m))
                c.ob('P16.reported', ok, F.where(i), f'{nm}: the reported best is {show(m)[:100]}')
                okh = must_derive(F, h, lambda z: is_call(z, 'HallOfFame::new') or is_fld(z, 'hall'))
                c.ob('P16.reported-hall', okh, F.where(i), f'{nm}: the reported hall of fame is {show(h)[:100]}')
    for g, f in (('best', 'best'), ('hall_of_fame', 'hall')):
        F = ctx.flow('SearchEngine::' + g, ())
        for i, v in F.returns():
            n += 1
            ok = v.op in ('ref', 'refm') and path_fields(v.a[1])[-1:] == [f] or is_fld(v, f)
            c.ob('P16.accessor', ok, F.where(i), f'{g}() returns {show(v)[:80]}')
    c.floor('reports', n, 4)


def has_best(F, t, pools):
    """t is the current best member"""
    for x in F.phi_closure(t):
        if x.op == 'elem':
            continue
        if not (is_fld(x, 'best') and arg_root(x) is pools):
            return False
    return any(is_fld(x, 'best') for x in F.phi_closure(t))


def initial_best(c):
    ctx = c.ctx
    F = ctx.flow('init_populations', lambda g: short(g['n']).split('::')[-1] in
                 ('from_expr', 'evaluate', 'consider', 'check_constraints', 'random_expr_append_ops', 'best_sub_pop') or g['crate'] == 'dynamic_expressions', key='init')
    opt = arg_of_type(F, 'Options')
    lim = lambda t: is_fld(t, 'maxsize') and t.a[0] is opt
    fromm = lambda t: all(y.op == 'elem' and any(from_field(F, x, 'members') for x in (leaf_sources(F, y.a[0]) or [])) for y in expand(F, t))
    accs = {}
    for i, e in F.events():
        if e.k == 'write' and e.value is not None:
            v = e.value
            pay = v.a[2] if v.op == 'agg' and v.a[0].endswith('::Some') else v
            if fromm(pay):
                accs.setdefault((e.root, e.path), []).append((i, e, pay))
    vals = []
    for i, v in F.returns():
        for (b,), via in cases(F, v, None, depth=0):
            vals.append((i, fld(F, b, 'best'), via))
    c.need(vals, 'no initial best')
    # the accumulator: the one whose values reach the result
    reach = set()
    for _, v, _ in vals:
        reach |= deep(F, v)
    keys = {F.phi_key[x][1] for x in reach if x.op == 'phi' and x in F.phi_key}
    accs = {k: l for k, l in accs.items() if k in keys and any(p in reach for _, _, p in l)}
    accs = {k: l for k, l in accs.items() if any(F.guard_path([i], lambda f, p=p: is_check(f, None, opt, lim) and same(F, f.a[1].a[0], p)) is None for i, _, p in l)} or \
        {k: l for k, l in accs.items() if any(e.value.op == 'agg' for _, e, _ in l)} or accs
    c.ob('P16.initial', len(accs) == 1, F.where(0), f'{len(accs)} selections of the initial best')
    for k, l in accs.items():
        acc = lambda n: F.resolve(F.n[n].inst, F.read_whole(F.n[n].inst, *k))
        none = lambda n: is_none(acc(n))
        cur = lambda t: t.op == 'vf' and t.a[1] == 'Some' and t.a[0].op == 'phi' or t.op == 'phi' or t.op == 'elem'
        acts = set()
        for i, e, p in l:
            acts.add(i)
            q = F.guard_path([i], lambda f: is_check(f, None, opt, lim) and same(F, f.a[1].a[0], p))
            c.ob('P16.initial-valid', q is None, e.at_(), 'the initial best is not checked: ' + fmt(F, q))
            # once something was selected, only a strictly lower loss replaces it
            ex = lambda f: f.op == 'lt' and is_fld(f.a[0], 'loss') and same(F, f.a[0].a[0], p) and is_fld(f.a[1], 'loss') and cur(f.a[1].a[0])
            for j, _, _ in l:
                for x, lab in F.n[j].succ:
                    q = F.guard_path([i], ex, (), x) if x != i else [i]
                    c.ob('P16.initial-better', q is None, e.at_(), 'the initial best is replaced by a member that is not better: ' + fmt(F, q))
        for i, e in F.events():
            if e.k == 'write' and (e.root, e.path) == k and i not in acts and any(i in F.reach_set(a) for a in acts):
                c.fail('P16.initial-reset', e.at_(), f'the initial best is overwritten with {show(e.value)[:80]}')
        exc = lambda f: f.op == 'not' and (is_check(f.a[0], None, opt, lim) or f.a[0].op == 'lt' and is_fld(f.a[0].a[0], 'loss') and f.a[0].a[0].a[0].op == 'elem' and is_fld(f.a[0].a[1], 'loss') and cur(f.a[0].a[1].a[0]))
        cov, heads, bad = every_elem(F, {'m': lambda s: from_field(F, s, 'members')}, acts, exc)
        bad2 = None
        for h, s, ent in loops(F):
            if any(from_field(F, x, 'members') for x in (leaf_sources(F, s) or [])) and any(a in F.reach_set(h) for a in acts) and bad is not None:
                bad2 = bad
        c.ob('P16.initial-all', 'm' in cov and bad2 is None, F.where(0), 'a valid initial member is not compared: ' + fmt(F, bad2 or bad))
        # the fallback only when no member was valid
        for i, v, via in vals:
            pays = {y for _, _, p in l for y in expand(F, p)}
            if v.op == 'vf' and v.a[1] == 'Some' and all(is_none(x) or x.op == 'agg' and set(expand(F, x.a[2])) <= pays for x in F.phi_closure(v.a[0])):
                continue
            if all(x in pays for x in F.phi_closure(v)):
                continue
            pr = [n for n, _ in via if n != -1]
            ok = any(is_none(F.resolve(F.n[n].outst, F.read_whole(F.n[n].outst, *k))) for n in pr) or \
                case_guarded(F, via, i, lambda f: f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'phi') is None
            c.ob('P16.initial-fallback', ok and from_field(F, v, 'members'), case_where(F, via, i), f'{show(v)[:100]} is taken as best although valid members exist')


def same(F, a, b):
    """the same value, possibly seen through a join"""
    return a is b or bool(set(expand(F, a)) & set(expand(F, b)))
