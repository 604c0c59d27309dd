"""Evaluation plans, population replacement, identities."""
from sa.core import *
from sa.rulelib import *
from rules import rule
from rules.hof import arg_of_type, usize_arg

PE = 'PostfixExpr'
EVALS = ('eval_plan_array_into', 'eval_grad_tree_array', 'eval_diff_tree_array', 'eval_tree_array_into', 'eval_tree_array')


def nodes_of(F, ex):
    return F.proj1(ex, ('f', PE, 'nodes')) if ex.op != 'agg' else fld(F, ex, 'nodes')


def consts_of(F, ex):
    return F.proj1(ex, ('f', PE, 'consts')) if ex.op != 'agg' else fld(F, ex, 'consts')


def strip_view(t):
    """through slice/deref/clone views of a value"""
    while t.op == 'call' and t.a[0].split('::')[-1] in ('deref', 'as_slice', 'clone', 'as_ref', 'borrow', 'to_vec') and len(t.a) == 2:
        t = t.a[1]
    return t


def plan_matches(F, plan, ex):
    """plan is compiled from the nodes of ex (or both belong to one member)"""
    plan = strip_view(plan)
    if is_call(plan, 'compile_plan'):
        n, k = strip_view(plan.a[1]), plan.a[3]
        okn = n is nodes_of(F, ex) or n is F.proj1(ex, ('f', PE, 'nodes')) or n is fld(F, ex, 'nodes')
        okk = is_call(k, 'len') and strip_view(k.a[1]) in (consts_of(F, ex), F.proj1(ex, ('f', PE, 'consts')), fld(F, ex, 'consts'))
        return okn and okk
    if plan.op == 'fld' and plan.a[2] == 'plan':
        m = plan.a[0]
        n = nodes_of(F, ex)
        if ex.op == 'fld' and ex.a[2] == 'expr' and same_member(ex.a[0], m):
            return True
        og = node_origins(F, ex)
        if og and all(x.op == 'fld' and x.a[2] == 'expr' and same_member(x.a[0], m) for x in og):
            return True
        if n.op == 'fld' and n.a[2] == 'nodes' and n.a[0].op == 'fld' and n.a[0].a[2] == 'expr' and same_member(n.a[0].a[0], m):
            return True
    return False


def node_origins(F, ex):
    """expressions whose nodes ex holds: through joins and rewritten constants"""
    out, seen, st = [], set(), [ex]
    while st and len(seen) < 200:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            st += [v for _, v in F.phi_ops.get(x, [])]
        elif x.op == 'upd' and F.__dict__.get('consts_only') and F.consts_only(x):
            st.append(x.a[1] if len(x.a) == 2 else x.a[3])
        elif x.op == 'with' and not any(len(p) == 0 or p[0][0] != 'f' or p[0][2] == 'nodes' for p, _ in x.a[1]):
            st.append(x.a[0])
        else:
            out.append(x)
    return out


def consts_only(x):
    """havoc by the numeric optimiser: constants only (obligation P07.optimiser-keeps-nodes)"""
    return x.a[0].startswith('Objective::') or x.a[0].split('::')[-1].split('@')[0] in ('bfgs_minimize', 'newton_1d_minimize')


def same_member(a, b):
    return a is b or strip_upd(a, 'evaluate', 'optimize_constants') is strip_upd(b, 'evaluate', 'optimize_constants')


def plan_cases(F, plan, ex):
    """alternatives (plan, expr, via)"""
    syn = mk('agg', 'tuple', ('0', '1'), plan, ex)
    for (p, x), via in cases(F, syn, [('f', 'tuple', '0'), ('f', 'tuple', '1')]):
        yield p, x, via


def check_pair(c, F, key, node, plan, ex, w, what):
    """every alternative of (plan, expression) is coherent; an alternative whose expression went through a callee
    that reported `unchanged` may keep the old plan"""
    bad = None
    if plan_matches(F, plan, ex):
        return c.ob(key, True, w)
    for p, x, via in plan_cases(F, plan, ex):
        if plan_matches(F, p, x):
            continue
        # unchanged-result exit: not call(...) on every path
        y = x
        ok = False
        while y.op == 'upd' and len(y.a) > 3:
            call = y
            res = [e.res for i, e in F.events() if e.k == 'call' and e.res is not None and (e.cn or '') == call.a[0]
                   and any(a is call.a[3] for a in e.args)]
            if res and case_guarded(F, via, node, lambda f: f.op == 'not' and f.a[0] in res) is None:
                y = y.a[3]
                if plan_matches(F, p, y):
                    ok = True
                    break
                continue
            break
        if not ok:
            bad = bad or f'{what}: plan {show(p)[:160]} does not belong to expression {show(x)[:160]}'
    return c.ob(key, bad is None, w, bad or '')


def member_ty(t):
    t = t.replace("'_ ", '').replace('&', '').replace('mut ', '').strip()
    return t.split('<')[0].split('::')[-1] == 'PopMember'


def kernel_opaque(f):
    return f['crate'] == 'dynamic_expressions' or short(f['n']).split('::')[-1] in ('bfgs_minimize', 'newton_1d_minimize')


def plan_opaque(f):
    n = short(f['n']).split('::')[-1]
    return f['crate'] == 'dynamic_expressions' or n in ('evaluate', 'optimize_constants', 'check_constraints', 'consider', 'random_expr',
                                                       'random_expr_append_ops', 'crossover_trees', 'compute_complexity', 'bfgs_minimize', 'newton_1d_minimize') or n.endswith('_in_place')


def structural(F, e, s):
    """the event may change nodes or the number of constants below `.expr`"""
    if s and s[0][0] == 'f' and s[0][2] == 'consts':
        if len(s) > 1:
            return False
        if e.k == 'call' and (e.cn or '').split('::')[-1] in ('copy_from_slice', 'clone_from_slice', 'fill', 'iter_mut', 'as_mut_slice', 'deref_mut',
                                                              'swap_with_slice', 'get_mut', 'clone_from', 'clone_into'):
            return False
        if e.k == 'write':
            return False
    return True


@rule('P07',
      'Every function of the program that constructs a member or may change a member\'s expression or plan is analysed '
      '(whole-program field-write query over MIR). At every point where a member is handed on (returned, evaluated, '
      'optimised, stored, end of a loop iteration) its plan term must be compile_plan of the very nodes term and constant '
      'count its expression holds there, or both must be the unmodified fields of one member, or the changing callee must '
      'have reported `unchanged` on every path. Every call of an evaluation kernel must receive such a pair.',
      ['compile_plan compiles the nodes it is given (slots and bounds: P24)', 'simplify reports true whenever it changed something (P22)'])
def p07(c):
    ctx = c.ctx
    adt = c.p.adt('PopMember')['n']
    hosts = set(ctx.constructors(adt)) | set(ctx.writers(adt, 'expr')) | set(ctx.writers(adt, 'plan'))
    hosts = {h for h in hosts if not short(c.p.fns[h]['n']).split('::')[0].startswith('EvalWorkspace')}
    oc = ctx.fn('optimize_constants')
    bad = sorted(short(c.p.fns[x]['n']) for x in ctx.reach([oc['id']], arith) & set(ctx.writers('PostfixExpr', 'nodes')))
    c.ob('P07.optimiser-keeps-nodes', not bad, '', f'constant optimisation can reach code that rewrites nodes: {bad}')
    nsite = 0
    done = set()
    work = [(h, 0) for h in sorted(hosts)]
    np = 0
    while work:
        h, d = work.pop()
        if h in done:
            continue
        done.add(h)
        fn = c.p.fns[h]
        sub = Check(ctx, c.pid)
        n = analyse_plan(sub, fn)
        bad = [o for o in sub.obs if not o[1]]
        ups = sorted(ctx.callers().get(h, ()))
        if bad and d < 3 and ups and fn.get('vis') != 'Public':
            work += [(u, d + 1) for u in ups]
            continue
        nsite += n
        c.obs += sub.obs
    c.floor('plan hand-over points', nsite, 8)
    # evaluation kernels
    nk = 0
    for f, t in ctx.calls_of(lambda o: o['n'].split('::')[-1] in EVALS):
        if f['crate'] == 'dynamic_expressions':
            continue
        host = c.p.fns[ctx.owner(f['id'])]
        G = ctx.flow(host, kernel_opaque, key='kernel')
        for i, e in calls_named(G, *EVALS):
            a = [x for j, x in enumerate(e.args) if 'EvalPlan' in e.at[j]]
            b = [x for j, x in enumerate(e.args) if 'PostfixExpr' in e.at[j]]
            if not a or not b:
                continue
            nk += 1
            w = e.at_()
            if a[0].op == 'arg' and b[0].op == 'arg' or a[0].op == 'fld' and b[0].op == 'arg':
                # plan and expression come in separately: look at the callers
                for u in sorted(ctx.callers().get(host['id'], ())):
                    H = ctx.flow(c.p.fns[u], kernel_opaque, key='kernel')
                    H.consts_only = consts_only
                    for i2, e2 in calls_named(H, *EVALS):
                        a2 = [x for j, x in enumerate(e2.args) if 'EvalPlan' in e2.at[j]]
                        b2 = [x for j, x in enumerate(e2.args) if 'PostfixExpr' in e2.at[j]]
                        if a2 and b2:
                            check_pair(c, H, 'P07.kernel', i2, a2[0], b2[0], e2.at_(), 'evaluation')
                continue
            check_pair(c, G, 'P07.kernel', i, a[0], b[0], w, 'evaluation')
    c.floor('evaluation kernel calls', nk, 3)


def arith(f):
    """operator overloads: numbers only where the element type is a float parameter"""
    return (f.get('titem') or '').startswith('core::ops::arith')


def analyse_plan(c, fn):
    ctx = c.ctx
    F = ctx.flow(fn, plan_opaque, key='plan')
    F.consts_only = consts_only
    nm = short(fn['n'])
    n = 0
    # members handed to callees
    for i, e in F.events():
        if e.k != 'call':
            continue
        ln = (e.cn or '').split('::')[-1]
        if ln in ('drop', 'clone', 'fmt', 'drop_in_place', 'deref', 'borrow', 'is_some'):
            continue
        for j, a in enumerate(e.args):
            if member_ty(e.at[j]) and isinstance(a, T):
                pl, ex = fld(F, a, 'plan'), fld(F, a, 'expr')
                if pl.op == 'fld' and ex.op == 'fld' and same_member(pl.a[0], ex.a[0]):
                    n += 1
                    c.ob(f'P07.handed:{nm}', True, e.at_())
                    continue
                n += 1
                check_pair(c, F, f'P07.handed:{nm}', i, pl, ex, e.at_(), f'member passed to {ln}')
    # returned members
    rt = F.f.locals[0]['ty']
    for i, v in F.returns():
        comps = []
        if member_ty(rt):
            comps = [v]
        elif rt.startswith('('):
            k = 0
            depth = 0
            parts = []
            cur = ''
            for ch in rt[1:-1]:
                if ch in '<(':
                    depth += 1
                if ch in '>)':
                    depth -= 1
                if ch == ',' and depth == 0:
                    parts.append(cur)
                    cur = ''
                else:
                    cur += ch
            parts.append(cur)
            comps = [F.proj1(v, ('f', 'tuple', str(k))) for k, p in enumerate(parts) if member_ty(p.strip())]
        for m in comps:
            seen = set()
            for (b,), via in cases(F, mk('agg', 'tuple', ('0',), m), [('f', 'tuple', '0')]):
                pl, ex = fld(F, b, 'plan'), fld(F, b, 'expr')
                if (pl, ex, tuple(via)) in seen:
                    continue
                seen.add((pl, ex, tuple(via)))
                n += 1
                check_pair(c, F, f'P07.returned:{nm}', i, pl, ex, case_where(F, via, i), 'returned member')
    # members changed in place through references
    roots = {}
    for i, e, s, v in muts(F, 'expr', 'PopMember'):
        if not structural(F, e, s):
            continue
        for r, p in member_locs(e, 'expr'):
            roots.setdefault((r, p), []).append((i, e))
    for i, e, s, v in muts(F, 'plan', 'PopMember'):
        for r, p in member_locs(e, 'plan'):
            roots.setdefault((r, p), []).append((i, e))
    rets = F.ret_nodes()
    backs = F.back_edges()
    for (r, p), evs in roots.items():
        if not isinstance(r, T):
            continue
        pts = list(rets)
        if isinstance(r, T) and any(x.op in ('elem', 'next') for x in walk(r)):
            pts = [x for x, _ in backs] + pts
        for x in pts:
            if not any(x == i or x in F.reach_set(i) for i, _ in evs):
                continue
            st = F.n[x].outst
            pl = F.resolve(st, F.read_whole(st, r, p + (('f', 'PopMember', 'plan'),)))
            ex = F.resolve(st, F.read_whole(st, r, p + (('f', 'PopMember', 'expr'),)))
            n += 1
            check_pair(c, F, f'P07.in-place:{nm}', x, pl, ex, evs[0][1].at_(), 'member changed in place')
    return n


def member_locs(e, field):
    """(root, path to the member) of in-place changes below member.<field>"""
    out = []

    def cut(root, path):
        for k, x in enumerate(path):
            if x[0] == 'f' and x[2] == field and x[1].split('::')[-1] == 'PopMember':
                out.append((root, tuple(path[:k])))
                return
        # the member field may be inside the root term: elem(...)/fld chains ending above
        return
    if e.k == 'write':
        cut(e.root, e.path)
    else:
        for a in e.raw:
            if a.op == 'refm':
                cut(a.a[0], a.a[1])
    return out


# ------------------------------------------------------------------ population size and replacement
from sa import fold

GROW = ('push', 'insert', 'extend', 'append', 'extend_from_slice', 'resize', 'resize_with', 'extend_from_within', 'splice')
SHRINK = ('pop', 'remove', 'swap_remove', 'truncate', 'clear', 'drain', 'retain', 'retain_mut', 'dedup', 'dedup_by', 'dedup_by_key', 'split_off')
INPLACE = ('iter_mut', 'index_mut', 'get_mut', 'as_mut_slice', 'into_iter', 'deref_mut', 'swap', 'sort_by', 'sort_by_key', 'reverse', 'first_mut',
           'last_mut', 'next', 'get_unchecked_mut', 'chunks_mut', 'split_at_mut', 'select_nth_unstable_by', 'sort_unstable_by', 'sort_unstable_by_key')


def is_oldest_call(t, popv):
    return is_call(t, 'oldest_index')


def births(i):
    return None


def check_oldest(c):
    """oldest_index returns the position of a member with the lowest birth"""
    F = c.ctx.flow('Population::oldest_index', ())
    me = mk('arg', 1, F.f.locals[1].get('n', ''))
    ok = False
    why = ''
    for i, v in F.returns():
        ok, why = argmin_birth(F, v, me)
        c.ob('P08.oldest', ok, F.where(i), f'the replaced position is not that of the lowest birth: {why} ({show(v)[:160]})')


def argmin_birth(F, v, me):
    """v is the position of a minimum of birth over all members"""
    k = closure_min(F, v)
    if k is not None:
        return k
    x = v
    while x.op in ('fld', 'vf'):
        x = x.a[0]
    if x.op == 'phi':
        try:
            return argmin_fold(F, v, x)
        except fold.Unknown as e:
            return False, f'cannot follow {show(e.args[0])[:80]}'
    return False, 'unrecognised form'


def closure_min(F, v):
    """(min_by_key(enumerate(members), birth) as Some).0.0"""
    calls = [x for x in walk(v) if is_call(x, 'min_by_key', 'max_by_key', 'min_by', 'max_by', 'position', 'rposition')]
    if not calls:
        return None
    m = calls[0]
    if not is_call(m, 'min_by_key'):
        if is_call(m, 'min_by') and key_compare(F, m):
            return projects_index(v, m)
        return False, f'selected by {m.a[0]}'
    keys = closure_returns(F, m.a[2])
    if not keys or not all(is_fld(k, 'birth') for k in keys):
        return False, f'key is {[show(k)[:60] for k in keys]}'
    return projects_index(v, m)


def key_compare(F, m):
    return any(is_call(k, 'cmp') and is_fld(k.a[1], 'birth') and is_fld(k.a[2], 'birth') for k in closure_returns(F, m.a[2]))


def projects_index(v, m):
    src = m.a[1]
    whole = src
    skipped = [x for x in walk(src) if x.op == 'call' and x.a[0].split('::')[-1] in
               ('filter', 'skip', 'take', 'step_by', 'skip_while', 'take_while', 'rev', 'filter_map', 'chain', 'skip_last')]
    if skipped:
        return False, f'only some members are considered ({skipped[0].a[0]})'
    if not any(is_call(x, 'enumerate') for x in walk(src)):
        return False, 'no position is tracked'
    y = v
    path = []
    while y is not m and y.op in ('fld', 'vf'):
        path.append(y.a[2])
        y = y.a[0]
    return (y is m and path[0] == '0', f'takes {path}')


def closure_returns(F, clo):
    """result terms of a closure value passed to an iterator adaptor, from its own flow"""
    name = None
    for x in walk(clo):
        if x.op == 'closure':
            name = x.a[0]
        if x.op == 'agg' and x.a[0].startswith('closure:'):
            name = x.a[0][8:]
        if x.op == 'const' and isinstance(x.a[0], str) and x.a[0].startswith('closure:'):
            name = x.a[0][8:]
    if name is None or name not in F.p.fns:
        return []
    G = Flow(F.p, __import__('sa.inline', fromlist=['Inliner']).Inliner(F.p, opaque=lambda f: True).run(F.p.fns[name]))
    out = []
    for i, v in G.returns():
        out += expand(G, v)
    return out


def argmin_fold(F, v, ph):
    """explicit loop keeping the lowest birth"""
    root, path = F.phi_key[ph][1]
    L = fold.loop_of(F, root, path)
    for h, fs, last, env, h2 in L.steps():
        s0 = L.state(h, root, path)
        s1 = L.out(last, env, root, path)
        plain = isinstance(root, int) and F.f.locals[root]['ty'] == 'usize' and not path
        optix = 'Option<usize>' in F.f.locals[root]['ty'] if isinstance(root, int) else False
        for cur in (None, 0, 1, 2):
            if cur is not None and (s0.op == 'agg' and s0.a[0].endswith('None')):
                continue
            if cur is None and plain:
                continue
            for b in (0, 1, 2):
                if plain or optix:
                    # the state is a position; births are looked up
                    bt = {7: cur, 3: b}

                    def leaf(t):
                        if t is s0 and t.op == 'phi':
                            return (7 if plain else ('None',) if cur is None else ('Some', 7),)
                        if t.op == 'elem' and t.a[0].op == 'agg' and t.a[0].a[0].endswith('Range') or t.op == 'pos':
                            return (3,)
                        if t.op == 'fld' and t.a[2] == 'birth' and t.a[0].op == 'idx':
                            return (bt[fold.ev(t.a[0].a[1], leaf)],)
                        if t.op == 'fld' and t.a[2] == 'birth' and t.a[0].op == 'elem':
                            return (b,)
                        if t.op == 'is' and t.a[0].op == 'next':
                            return (t.a[1] == 'Some',)
                        return None
                    if not fold.feasible(fs, leaf):
                        continue
                    got = fold.ev(s1, leaf)
                    got = got[1] if isinstance(got, tuple) else got
                    if not (got == 3 if cur is None else bt.get(got) == min(b, cur)):
                        return False, f'birth {b} after lowest {cur} leaves position {got}'
                    continue
                def leaf(t):
                    if t is s0 and t.op == 'phi':
                        return (('None',) if cur is None else ('Some', (7, cur)),)
                    if t.op == 'fld' and t.a[2] == 'birth' and t.a[0].op == 'elem':
                        return (b,)
                    if t.op == 'pos':
                        return (3,)
                    if t.op == 'is' and t.a[0].op == 'next':
                        return (t.a[1] == 'Some',)
                    return None
                if not fold.feasible(fs, leaf):
                    continue
                got = fold.ev(s1, leaf)
                if cur is None:
                    ok = got == ('Some', (3, b))
                elif b < cur:
                    ok = got == ('Some', (3, b))
                elif b > cur:
                    ok = got == ('Some', (7, cur))
                else:
                    ok = got in (('Some', (7, cur)), ('Some', (3, b)))
                if not ok:
                    return False, f'birth {b} after lowest {cur} leaves {got}'
    for _, src, _ in loops(F):
        if not whole_source(src):
            return False, f'only some members are considered: {show(src)[:80]}'
    return True, ''


def whole_source(src):
    for x in walk(src):
        if x.op == 'call' and x.a[0].split('::')[-1] in ('skip', 'take', 'filter', 'step_by', 'skip_while', 'take_while'):
            if not (x.a[0].split('::')[-1] == 'skip' and is_const(x.a[2], 1)):
                return False
    if src.op == 'agg' and src.a[0].endswith('Range'):
        return is_call(src.a[3], 'len') and src.a[2].op == 'const' and src.a[2].a[0] in (0, 1)
    return True


def check_two_oldest(c):
    F = c.ctx.flow('Population::two_oldest_indices', ())
    rs = F.returns()
    c.need(rs, 'two_oldest_indices never returns')
    for i, v in rs:
        a, b = F.proj1(v, ('f', 'tuple', '0')), F.proj1(v, ('f', 'tuple', '1'))
        pa, pb = root_phi(a), root_phi(b)
        if pa is None or pb is None:
            ok, why = sorted_pair(F, a, b)
            c.ob('P08.two-oldest', ok, F.where(i), f'the two replaced positions: {why}')
            continue
        ra, rb = F.phi_key[pa][1], F.phi_key[pb][1]
        L = fold.loop_of(F, *ra)
        bad = two_fold(F, L, ra, rb)
        c.ob('P08.two-oldest', bad is None, F.where(i), f'the two replaced positions are not those of the two lowest births: {bad}')
        # what is returned
        env0 = {pa: ('Some', (5, 0)), pb: ('Some', (6, 1))}
        try:
            r = (fold.ev(a, lambda t: (env0[t],) if t in env0 else None), fold.ev(b, lambda t: (env0[t],) if t in env0 else None))
        except fold.Unknown as e:
            r = show(e.args[0])
        c.ob('P08.two-oldest-result', r in ((5, 6), (6, 5)), F.where(i), f'returns {r} for positions 5 and 6')
        srcs = [s for _, s, _ in loops(F)]
        c.ob('P08.two-oldest-all', bool(srcs) and all(whole_source(s) and not any(is_call(x, 'skip') for x in walk(s)) for s in srcs), F.where(i), f'only some members are considered: {[show(s)[:80] for s in srcs]}')


def root_phi(t):
    while t.op in ('fld', 'vf'):
        t = t.a[0]
    return t if t.op == 'phi' else None


def sorted_pair(F, a, b):
    """positions sorted by birth, first two taken"""
    s = [x for t in (a, b) for x in walk(t) if x.op == 'upd' and x.a[0].split('::')[-1] in ('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key')]
    if s and a.op == 'idx' and b.op == 'idx' and {show(a.a[1]), show(b.a[1])} == {'0', '1'}:
        return True, ''
    return False, f'cannot follow {show(a)[:80]}, {show(b)[:80]}'


def two_fold(F, L, ra, rb):
    """inductive step over all orderings of (lowest, second lowest, new) births"""
    n = 0
    for h, fs, last, env, h2 in L.steps():
        a0, b0 = L.state(h, *ra), L.state(h, *rb)
        a1, b1 = L.out(last, env, *ra), L.out(last, env, *rb)
        for first in (None, 0, 1, 2):
            for second in (None, 0, 1, 2):
                if second is not None and (first is None or second < first):
                    continue
                if first is not None and a0.op == 'agg' and a0.a[0].endswith('None') or second is not None and b0.op == 'agg' and b0.a[0].endswith('None'):
                    continue
                if first is None and a0.op == 'agg' and a0.a[0].endswith('Some'):
                    continue
                for b in (0, 1, 2):
                    vals = {a0: ('None',) if first is None else ('Some', (1, first)), b0: ('None',) if second is None else ('Some', (2, second))}

                    def leaf(t):
                        if t in vals and t.op == 'phi':
                            return (vals[t],)
                        if t.op == 'fld' and t.a[2] == 'birth' and t.a[0].op == 'elem':
                            return (b,)
                        if t.op == 'pos':
                            return (3,)
                        if t.op == 'is' and t.a[0].op == 'next':
                            return (t.a[1] == 'Some',)
                        if t.op in ('eq', 'ne') and all(x.op == 'agg' for x in t.a[:2]):
                            x, y = fold.ev(t.a[0], leaf), fold.ev(t.a[1], leaf)
                            return ((x == y) == (t.op == 'eq'),)
                        return None
                    if not fold.feasible(fs, leaf):
                        continue
                    n += 1
                    try:
                        g1, g2 = fold.ev(a1, leaf), fold.ev(b1, leaf)
                    except fold.Unknown as e:
                        return f'cannot follow {show(e.args[0])[:80]}'
                    ms = sorted([x for x in ((first, 1) if first is not None else None, (second, 2) if second is not None else None, (b, 3)) if x])
                    want1, want2 = ms[0][0], ms[1][0] if len(ms) > 1 else None
                    ok = g1[0] == 'Some' and g1[1][1] == want1 and (g2 == ('None',) if want2 is None else g2[0] == 'Some' and g2[1][1] == want2)
                    births = {1: first, 2: second, 3: b}
                    if ok:
                        idx = [g1[1][0]] + ([g2[1][0]] if g2[0] == 'Some' else [])
                        ok = len(set(idx)) == len(idx) and all(births.get(k) == v for k, v in [g1[1]] + ([g2[1]] if g2[0] == 'Some' else []))
                    if not ok:
                        return f'births ({first}, {second}) then {b} give {g1}, {g2}'
    return None if n >= 5 else 'no transitions found'


@rule('P08',
      'Whole-program query over every use of a population\'s member list: outside its constructor only elements are '
      'replaced, the list is never grown, shrunk or reassigned; initialisation pushes exactly one member per iteration of '
      '0..population_size and one population per iteration of 0..populations. In the evolution step every path of one '
      'iteration either replaces exactly the selected oldest position with the child returned (both positions for '
      'crossover), or takes the `rejected and skip failures` branches. The oldest / two-oldest selections are decided by an '
      'inductive case analysis over the orderings of births.',
      ['std Vec/iterator semantics'])
def p08(c):
    ctx = c.ctx
    adt = c.p.adt('Population')['n']
    n = 0
    for fid, sites in sorted(ctx.writers(adt, 'members').items()):
        fn = c.p.fns[fid]
        F = ctx.flow(fn, lambda g: True, key='all')
        for i, e, s, v in muts(F, 'members', 'Population'):
            n += 1
            nm = short(fn['n'])
            if e.k == 'call':
                ln = (e.cn or '').split('::')[-1]
                below = bool(s) or any(mentions_loc(a, 'members', 'Population') and a.op in ('elem', 'idx', 'vf') for a in e.raw)
                ok = below or ln in INPLACE
                c.ob(f'P08.size:{nm}', ok, e.at_(), f'{nm} calls {e.cn} on a population\'s member list')
            else:
                c.ob(f'P08.size:{nm}', bool(s) or e.root is not None and isinstance(e.root, T) and mentions_loc(e.root, 'members', 'Population'), e.at_(),
                     f'{nm} replaces a whole member list')
    for fid in ctx.constructors(adt):
        nm = short(c.p.fns[fid]['n'])
        c.ob(f'P08.built:{nm}', nm.split('::')[-1] in ('new', 'clone'), '', f'{nm} builds populations')
    c.floor('member list mutations', n, 4)
    check_init(c)
    check_oldest(c)
    check_two_oldest(c)
    check_replacement(c)


def check_init(c):
    ctx = c.ctx
    F = ctx.flow('init_populations', lambda g: short(g['n']).split('::')[-1] in
                 ('from_expr', 'evaluate', 'consider', 'check_constraints', 'random_expr_append_ops', 'best_sub_pop') or g['crate'] == 'dynamic_expressions', key='init')
    opt = arg_of_type(F, 'Options')
    for what, fname, tysub in (('members', 'population_size', 'PopMember'), ('populations', 'populations', 'PopState')):
        pushes = [(i, e) for i, e in calls_named(F, 'Vec::push') if pushed_kind(e) == tysub]
        acts = {i for i, _ in pushes}
        ok = False
        why = f'no loop over 0..{fname}'
        at = pushes[0][1].at_() if pushes else F.where(0)
        if not pushes:
            for i, e in calls_named(F, 'Iterator::collect', 'FromIterator::from_iter'):
                ok = ok or counted_collect(e.args[0], fname)
        for h, src, ent in loops(F) if pushes else ():
            if not full_range(src, fname):
                continue
            hit = False
            for s in ent:
                p = F.path_avoiding({h} | set(F.ret_nodes()), acts, None, s) if s not in acts else None
                if p is not None:
                    ok, why = False, f'an iteration can end without adding to the {what}: ' + fmt(F, p)
                    break
                hit = True
            else:
                if hit:
                    # at most once per iteration
                    again = [a for a in acts for b in acts if a in F.reachable_from(b, {h})]
                    ok, why = not again, 'added more than once per iteration'
        c.ob(f'P08.init-{what}', ok, at, f'initialisation does not create exactly {fname} {what}: {why}')


def pushed_kind(e):
    t = e.at[1]
    if t not in ('?', ''):
        return 'PopState' if 'PopState' in t else 'PopMember' if member_ty(t) else None
    if mentions(e.args[1], lambda x: x.op == 'agg' and x.a[0].endswith('PopState')):
        return 'PopState'
    if mentions(e.args[1], lambda x: is_call(x, 'from_expr') or x.op == 'agg' and x.a[0].endswith('PopMember')):
        return 'PopMember'
    return None


def full_range(src, fname):
    return src.op == 'agg' and src.a[0].endswith('Range') and is_const(src.a[2], 0) and is_fld(src.a[3], fname)


def counted_collect(t, fname):
    """collect over a one-to-one adaptor chain of 0..<fname>"""
    while t.op == 'call' and t.a[0].split('::')[-1] in ('map', 'into_iter', 'enumerate', 'inspect'):
        t = t.a[1]
    return full_range(t, fname)


def is_const(t, v):
    return isinstance(t, T) and t.op == 'const' and t.a[0] == v


def check_replacement(c):
    ctx = c.ctx
    F = ctx.flow('reg_evol_cycle', ('next_generation', 'crossover_generation', 'best_of_sample', 'two_oldest_indices', 'oldest_index'))
    pop = arg_of_type(F, 'Population')
    opt = None
    gens = {}
    for i, e in calls_named(F, 'next_generation', 'crossover_generation'):
        gens[e.res] = (i, e)
    c.floor('reproduction calls', len(gens), 2)
    heads = {h for h, s, e in loops(F)}
    ws = []
    for i, e, s, v in muts(F, 'members', 'Population'):
        if e.k == 'call':
            c.fail('P08.replace-form', e.at_(), f'the evolution step changes the population through {e.cn}')
            continue
        ok = bool(s) and s[0][0] == 'i' and len(s) == 1
        if not ok:
            c.fail('P08.replace-form', e.at_(), f'writes {e}')
            continue
        idx = s[0][1]
        child = None
        for g, (gi, ge) in gens.items():
            for k in range(2):
                if v is F.proj1(g, ('f', 'tuple', str(k))):
                    child = (g, k)
        if child is None:
            c.fail('P08.replace-child', e.at_(), f'stores {show(v)[:120]}, not a child just produced')
            continue
        g, k = child
        cross = 'crossover' in g.a[0]
        b = idx
        which = None
        if b.op == 'fld' and is_call(b.a[0], 'two_oldest_indices'):
            which, b = int(b.a[2]), b.a[0]
        okc = is_call(b, 'oldest_index' if not cross else 'two_oldest_indices')
        c.ob('P08.replace-index', okc, e.at_(), f'child stored at {show(idx)[:120]}')
        if okc:
            # the positions are determined after every earlier change of this iteration
            ci = [j for j, x in calls_named(F, 'oldest_index', 'two_oldest_indices') if x.res is b]
            stale = [j for j, w in [(j2, w2) for j2, w2, *_ in ws_all(F)] if j != i and ci and j in F.reachable_from(ci[0], {i} | heads) and i in F.reachable_from(j, heads)
                     and not cross]
            c.ob('P08.replace-fresh', bool(ci) and all(any(h in F.reachable_from(j) for h in heads) for j in ci) and not stale, e.at_(),
                 f'the position was determined outside this iteration: {show(idx)[:100]}')
        ws.append((i, g, k, which, idx))
    # every iteration: exactly the right writes
    for g, (gi, ge) in gens.items():
        cross = 'crossover' in g.a[0]
        need = [0, 1] if cross else [0]
        acc = F.proj1(g, ('f', 'tuple', '2' if cross else '1'))
        for k in need:
            acts = {i for i, g2, k2, _, _ in ws if g2 is g and k2 == k}
            goals = heads | set(F.ret_nodes())
            rej = lambda f: f.op == 'not' and f.a[0] is acc
            skip = lambda f: f.op == 'fld' and f.a[2] == 'skip_mutation_failures'
            p = F.path_avoiding(goals, acts, lambda x, s, l: any(rej(f) for f in F.edge_fset(x, s, l)), gi)
            q = F.path_avoiding(goals, acts, lambda x, s, l: any(skip(f) for f in F.edge_fset(x, s, l)), gi)
            c.ob(f'P08.replaced-{"crossover" if cross else "mutation"}-{k}', p is None and q is None, ge.at_(),
                 'a child that is accepted (or rejected while failures are kept) is dropped: ' + fmt(F, p or q))
            again = [a for a in acts for b in acts if a in F.reachable_from(b, heads)]
            c.ob(f'P08.once-{"crossover" if cross else "mutation"}-{k}', not again, ge.at_(), 'a child is stored twice in one iteration')
            # skipped failures are really skipped
            for i in acts:
                bad = F.path_avoiding({i}, set(), lambda x, s, l: any(f is acc or f.op == 'not' and f.a[0].op == 'fld' and f.a[0].a[2] == 'skip_mutation_failures'
                                                                     for f in F.edge_fset(x, s, l)), gi)
                c.ob(f'P08.skip-{"crossover" if cross else "mutation"}-{k}', bad is None, ge.at_(),
                     'a failed step replaces a member although failures are to be skipped: ' + fmt(F, bad))
        if cross:
            pos = {(k2, w) for i, g2, k2, w, _ in ws if g2 is g}
            c.ob('P08.two-positions', {k for k, _ in pos} == {0, 1} and len({w for _, w in pos}) == 2, ge.at_(), f'children stored at positions {pos}')


def ws_all(F):
    return [(i, e) for i, e, s, v in muts(F, 'members', 'Population') if e.k == 'write']


# ------------------------------------------------------------------ identities and births
from rules.evolve import OFF, ctx_field, final_cases, members_params


def lin(t):
    """t as (base term, constant offset)"""
    k = 0
    while True:
        if t.op == 'Add' and len(t.a) >= 2:
            a, b = t.a[0], t.a[1]
            if a.op == 'const' and isinstance(a.a[0], int):
                k, t = k + a.a[0], b
                continue
            if b.op == 'const' and isinstance(b.a[0], int):
                k, t = k + b.a[0], a
                continue
        if t.op == 'call' and t.a[0].split('::')[-1] in ('wrapping_add', 'saturating_add') and t.a[2].op == 'const':
            k, t = k + t.a[2].a[0], t.a[1]
            continue
        if t.op == 'cast':
            t = t.a[0]
            continue
        return t, k


def unwrap_id(t):
    return t.a[2] if t.op == 'agg' and t.a[0].endswith('MemberId') else F_proj(t, mk('fld', t, 'MemberId', '0'))


@rule('P09',
      'Counter discipline by value numbering: the identity and birth given to each child, initial member and migrant are '
      'the current values of the population\'s two counters plus distinct offsets, and on every path the counters leave '
      'advanced beyond every value handed out; parent links name the member the child was made from. Whole-program query: '
      'no other code writes identities, births or parents, the counters are only handed through by reference under their '
      'own names, and each population\'s identities start in a block of their own.',
      ['fewer than 2^32 members are created per population', 'a crossover that finds no valid children hands back copies of the two parents'])
def p09(c):
    ctx = c.ctx
    n = 0
    for fn, cx in (('next_generation', 'NextGenerationCtx'), ('crossover_generation', 'CrossoverCtx')):
        F = ctx.flow(fn, OFF)
        nid, nb = ctx_field(F, cx, 'next_id'), ctx_field(F, cx, 'next_birth')
        ms = members_params(F)
        k = len(ms)
        for i, cs, via in final_cases(F, [(nid, ()), (nb, ())], [('f', 'tuple', str(j)) for j in range(k + 1)]):
            w = case_where(F, via, i)
            acc, fid, fb = cs[k], cs[k + 1], cs[k + 2]
            used = {'id': [], 'birth': []}
            copies = [is_fld(fld(F, cs[j], 'id'), 'id') and fld(F, cs[j], 'id').a[0] is ms[j] for j in range(k)]
            if k == 2 and is_const(acc, 0) and all(copies):
                n += 1
                continue
            for j in range(k):
                b = cs[j]
                n += 1
                for what, base, fin in (('id', nid, fid), ('birth', nb, fb)):
                    v = fld(F, b, what)
                    x, o = lin(unwrap_id(v) if what == 'id' else v)
                    y, p = lin(fin)
                    c.ob(f'P09.{fn}-{what}', x is base and y is base and 0 <= o < p and o not in used[what], w,
                         f'{what} is {show(v)[:80]} and the counter ends at {show(fin)[:80]}')
                    used[what].append(o)
                par = fld(F, b, 'parent')
                okp = par.op == 'agg' and par.a[0].endswith('Some') and is_fld(par.a[2], 'id') and par.a[2].a[0] is ms[j]
                c.ob(f'P09.{fn}-parent', okp, w, f'parent is {show(par)[:100]}')
    c.floor('children', n, 6)
    # migration
    F = ctx.flow('migrate_into', ('usize_range', 'choose', 'poisson_sample'))
    args = {F.f.locals[i].get('n'): mk('arg', i, F.f.locals[i].get('n', '')) for i in range(1, F.f.argc + 1)}
    c.need('next_id' in args and 'next_birth' in args, 'migrate_into: counters expected')
    wr = [(i, e, s, v) for i, e, s, v in muts(F, 'members', 'Population') if e.k == 'write']
    c.floor('migrant writes', len(wr), 1)
    for i, e, s, v in wr:
        w = e.at_()
        for what, ctr in (('id', args['next_id']), ('birth', args['next_birth'])):
            val = fld(F, v, what)
            x, o = lin(unwrap_id(val) if what == 'id' else val)
            ok, why = advances(F, i, ctr, x, o)
            c.ob(f'P09.migrant-{what}', ok, w, f'{what} of a migrant is {show(val)[:80]}: {why}')
        par = fld(F, v, 'parent')
        src = v
        while src.op in ('with', 'upd'):
            src = src.a[0] if src.op == 'with' else src.a[3]
        okp = par.op == 'agg' and par.a[0].endswith('Some') and is_fld(par.a[2], 'id') and par.a[2].a[0] is src
        c.ob('P09.migrant-parent', okp, w, f'parent of a migrant is {show(par)[:100]}')
    # initial members
    G = ctx.flow('init_populations', lambda g: short(g['n']).split('::')[-1] in
                 ('from_expr', 'evaluate', 'consider', 'check_constraints', 'random_expr_append_ops', 'best_sub_pop') or g['crate'] == 'dynamic_expressions', key='init')
    made = calls_named(G, 'from_expr')
    c.floor('initial members', len(made), 1)
    st_aggs = [x for i, e in G.events() if e.k == 'call' and (e.cn or '').endswith('push') for x in walk(e.args[1]) if x.op == 'agg' and x.a[0].endswith('PopState')]
    c.need(st_aggs, 'no population state is built')
    for st in st_aggs:
        # (with no member built at all, the counters are still at their start)
        fins = [fld(G, st, cn) for cn in ('next_id', 'next_birth')]
        if any(f.op == 'phi' for f in fins):
            break
    for i, e in made:
        vals = {'id': unwrap_id(e.args[0]), 'birth': e.args[2]}
        c.ob('P09.initial-parent', e.args[1].op == 'agg' and e.args[1].a[0].endswith('None'), e.at_(), f'initial parent {show(e.args[1])[:60]}')
        for what, cn in (('id', 'next_id'), ('birth', 'next_birth')):
            x, o = lin(vals[what])
            fin = fld(G, st, cn)
            if fin.op != 'phi':
                c.fail(f'P09.initial-{what}-handed-on', e.at_(), f'the population continues its {what}s at {show(fin)[:80]}')
                continue
            loc = G.phi_key[fin][1]
            ok, why, ents = advances_at(G, i, loc, x, o)
            c.ob(f'P09.initial-{what}', ok, e.at_(), f'{what} of an initial member is {show(vals[what])[:80]}: {why}')
            if what == 'id':
                blk = [strip_block(v) for v in ents]
                c.ob('P09.block', bool(blk) and all(blk), e.at_(), f'identities of a population start at {[show(v)[:80] for v in ents]}')
    # the constructors keep what they are given
    F = ctx.flow('PopMember::from_expr', ('compile_plan',))
    for i, v in F.returns():
        for what, j in (('id', 1), ('parent', 2), ('birth', 3)):
            c.ob(f'P09.constructor-{what}', fld(F, v, what).op == 'arg' and fld(F, v, what).a[0] == j, F.where(i), f'constructed {what} is {show(fld(F, v, what))[:80]}')
    # nobody else
    allowed = {'id': {'migrate_into'}, 'parent': {'migrate_into'}, 'birth': {'migrate_into', 'optimize_constants', 'apply'}}
    ok_owner = {}
    for what, names in allowed.items():
        roots = set()
        for nm in names:
            roots |= {f['id'] for f in c.p.fns.values() if short(f['n']).split('::')[-1] == nm and f['kind'] != 'Closure'}
        for fid in ctx.writers(c.p.adt('PopMember')['n'], what):
            esc = fid in roots or only_through(ctx, fid, roots)
            c.ob(f'P09.sole-writer-{what}:{short(c.p.fns[fid]["n"])}', esc, '', f'{short(c.p.fns[fid]["n"])} rewrites the {what} of members')
    # the temporary of the optimise mutation never leaves with its identity
    for cn in ('next_id', 'next_birth'):
        for adt in ('PopState', 'IterationCtx', 'RegEvolCtx', 'NextGenerationCtx', 'CrossoverCtx', 'OptimizeConstantsCtx'):
            for fid, sites in ctx.writers(adt, cn).items():
                bad = [s for s in sites if s[0] == 'assign']
                if bad:
                    H = ctx.flow(c.p.fns[fid], lambda g: True, key='all')
                    for i, e, s, v in muts(H, cn, adt):
                        if e.k == 'write':
                            c.ob(f'P09.counter-reset:{short(c.p.fns[fid]["n"])}', v is not None and lin(v)[1] > 0, e.at_(), f'{cn} is set to {show(v)[:80]}')
    # counters passed on under their own names
    k = 0
    for f in c.p.fns.values():
        if f['crate'] != 'symbolic_regression':
            continue
        own = ctx.owner(f['id'])
        if not any(a in ('PopState', 'IterationCtx', 'RegEvolCtx', 'NextGenerationCtx', 'CrossoverCtx', 'OptimizeConstantsCtx') for a in agg_names(f)):
            continue
        H = ctx.flow(c.p.fns[own], lambda g: True, key='all')
        for i, e in H.events():
            for t in ([e.value] if e.k == 'write' and e.value is not None else list(e.raw or []) if e.k == 'call' else []):
                for x in walk(t):
                    if x.op == 'agg' and x.a[0].split('::')[-1] in ('IterationCtx', 'RegEvolCtx', 'NextGenerationCtx', 'CrossoverCtx', 'OptimizeConstantsCtx'):
                        for fn2, v in zip(x.a[1], x.a[2:]):
                            if fn2 in ('next_id', 'next_birth'):
                                k += 1
                                if x.a[0].endswith('OptimizeConstantsCtx') and not has_fld(v, 'next_id'):
                                    continue
                                c.ob(f'P09.passed-{fn2}:{short(c.p.fns[own]["n"])}', names_counter(v, fn2, H), e.at_(), f'{fn2} of {x.a[0].split("::")[-1]} is {show(v)[:80]}')
    c.floor('counter hand-overs', k, 4)
    for i, e in calls_named(ctx.flow('apply_task_result', lambda g: True, key='all'), 'migrate_into'):
        c.ob('P09.migrate-counters', names_counter(e.raw[4], 'next_id', F) and names_counter(e.raw[5], 'next_birth', F), e.at_(),
             f'migration gets counters {show(e.raw[4])[:80]}, {show(e.raw[5])[:80]}')


def agg_names(f):
    out = set()
    for b in f['blocks']:
        for s in b['st']:
            if s['k'] == '=' and s['r']['k'] == 'agg' and s['r']['a'] == 'adt':
                out.add(s['r']['adt'].split('::')[-1])
    return out


def names_counter(v, name, F):
    """a reference to a location called `name` (or, for the throw-away optimiser run, a local dummy)"""
    if v.op in ('ref', 'refm'):
        p = v.a[1]
        if p:
            return p[-1][0] == 'f' and p[-1][2] == name
        if isinstance(v.a[0], int):
            return F.f.locals[v.a[0]].get('n', '') not in ('next_id', 'next_birth') or F.f.locals[v.a[0]].get('n') == name
        v = v.a[0]
    if v.op == 'fld':
        return v.a[2] == name
    if v.op == 'arg':
        return v.a[1] == name
    if v.op == 'upd' or v.op == 'with' or v.op == 'phi':
        return True
    return v.op == 'const' or v.op in ('Add',)


def only_through(ctx, fid, roots):
    """every caller chain of fid within the program goes through one of the roots"""
    f = ctx.p.fns[fid]
    if f.get('vis') == 'Public':
        return False
    cs = ctx.callers().get(ctx.owner(fid), set())
    return bool(cs) and all(x in roots or only_through(ctx, x, roots) for x in cs)


def strip_block(v):
    """<population index> << 32"""
    x, k = lin(v)
    return x.op in ('Shl', 'Mul') and x.a[1].op == 'const' and (x.a[1].a[0] >= 32 if x.op == 'Shl' else x.a[1].a[0] >= 1 << 32) and \
        any(y.op in ('elem', 'pos') for y in walk(x.a[0]))


def advances_at(F, i, loc, x, o):
    """like advances, for a counter held in a local: (ok, why, values at loop entry)"""
    hs = [h for h in F.rpo if F.n[h].b in F.bodies and F.n[i].b in F.bodies[F.n[h].b] and i in F.reach_set(h)]
    inner = min((F.bodies[F.n[h].b] for h in hs), key=len, default=None)
    hs = [h for h in hs if F.bodies[F.n[h].b] == inner]
    if not hs:
        return False, 'not in a loop', []
    read = lambda st: F.resolve(st, F.read_whole(st, *loc))
    n = 0
    for h in hs:
        if i not in F.reachable_from(h, set(hs)) and i != h:
            continue
        h0 = read(F.n[h].inst)
        if h0 is not x:
            return False, f'the counter is {show(h0)[:60]} at the start of the iteration', []
        heads = F.all_heads(F.n[h].b)
        for p, fs, env in fold.paths(F, h, lambda s: s in heads or F.n[s].b not in F.bodies[F.n[h].b]):
            if i in p and p[-1] in heads:
                n += 1
                y, k = lin(fold.subst(read(F.n[p[-2]].outst), env))
                b, k0 = lin(x)
                if y.op == 'const' and b.op == 'const':
                    k, k0 = k + y.a[0], k0 + b.a[0]
                elif y is not b:
                    k = -1
                if not o + k0 < k:
                    return False, f'the counter ends the iteration at {show(y)[:60]}+{k}', []
    ents = []
    for h in F.all_heads(F.n[hs[0]].b):
        for q in F.rpo:
            if any(s == h for s, _ in F.n[q].succ) and F.n[q].b not in F.bodies[F.n[h].b]:
                ents += expand(F, read(F.n[q].outst))
    return (n > 0, '', ents)


def advances(F, i, ctr, x, o):
    """the value x+o used at node i is below the counter at the end of every iteration, and x is the counter at its start"""
    hs = [h for h in F.rpo if F.n[h].b in F.bodies and i in F.reach_set(h) and F.n[i].b in F.bodies[F.n[h].b]]
    if not hs:
        for r in F.ret_nodes():
            if r in F.reach_set(i):
                y, p = lin(F.resolve(F.n[r].outst, F.read_whole(F.n[r].outst, ctr, ())))
                if not (x is ctr and y is ctr and 0 <= o < p):
                    return False, f'the counter ends at {show(y)[:60]}+{p}'
        return True, ''
    n = 0
    for h in hs:
        h0 = F.resolve(F.n[h].inst, F.read_whole(F.n[h].inst, ctr, ()))
        if h0 is not x and not (x in expand(F, h0)):
            continue
        for p, s in F.back_edges():
            if s in hs and p in F.reach_set(i) or p == i:
                n += 1
                y, k = lin(F.resolve(F.n[p].outst, F.read_whole(F.n[p].outst, ctr, ())))
                if y is not x or not 0 <= o < k:
                    return False, f'the counter ends the iteration at {show(y)[:60]}+{k}'
        ents = [v for q, v in F.phi_ops.get(x, []) if q < 0 or F.n[q].b not in F.bodies[F.n[h].b]]
        if any(lin(v)[0] is not ctr for v in ents):
            return False, 'not the population\'s counter'
    return (n > 0, '' if n else 'not derived from the counter')
