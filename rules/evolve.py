"""Offspring, constant optimisation, population replacement, identities."""
from sa.core import *
from sa.rulelib import *
from rules import rule
from rules.hof import arg_of_type, usize_arg

OFF = ('check_constraints', 'PopMember::evaluate', 'compile_plan', 'MutationChoice::apply', 'condition_mutation_weights',
       'sample_mutation', 'compress_constants', 'compute_complexity', 'loss_to_cost', 'RunningSearchStatistics::freq',
       'crossover_trees')


def ctx_field(F, tysub, name):
    """value of field `name` of the context parameter"""
    a = arg_of_type(F, tysub)
    adt = tysub
    for ad in F.p.adts.values():
        if ad['n'].split('::')[-1] == tysub:
            adt = ad['n']
    return F.proj1(a, ('f', adt, name))


def is_const(t, v):
    return isinstance(t, T) and t.op == 'const' and t.a[0] == v


def members_params(F):
    r = [i for i in range(1, F.f.argc + 1) if 'PopMember' in F.f.locals[i]['ty']]
    return [mk('arg', i, F.f.locals[i].get('n', '')) for i in r]


def fieldv(F, b, adt, name):
    return F.proj1(b, ('f', adt, name))


def expr_unwritten(c, fn):
    """evaluating a member changes none of its structure (expression, plan, identity)"""
    F = c.ctx.flow(fn, ('eval_plan_array_into', 'compute_complexity', 'loss_to_cost'))
    me = mk('arg', 1, F.f.locals[1].get('n', ''))
    bad = []
    for i, e in F.events():
        if e.k == 'write' and e.root is me and e.path and e.path[0][0] == 'f' and e.path[0][2] not in ('complexity', 'loss', 'cost'):
            bad.append(e)
        if e.k == 'write' and e.root is me and not e.path:
            bad.append(e)
        if e.k == 'call':
            for j, a in enumerate(e.raw):
                if a.op == 'refm' and a.a[0] is me and (not a.a[1] or a.a[1][0][2] not in ('complexity', 'loss', 'cost')):
                    bad.append(e)
    return bad


def result_cases(F, fields):
    out = []
    for i, v in F.returns():
        for comps, via in cases(F, v, fields):
            out.append((i, comps, via))
    return out


@rule('P05',
      'Every alternative of the result of the mutation and crossover steps is enumerated (joint phi expansion of the '
      'inlined flow). For an alternative reported as accepted, every path realising it passed the constraint check on '
      'exactly the expression the child is built from, with the same options and the size limit in force, and the child '
      'was evaluated with a finite cost or its carried loss comes from the simplification-only exit; for a rejected one '
      'the child carries the parent\'s expression, complexity, loss and cost.',
      ['check_constraints is decided by P02', 'evaluation verdicts by P04',
       'simplification preserving values is not decided here'])
def p05(c):
    ctx = c.ctx
    F = ctx.flow('next_generation', OFF)
    mem = [m for m in members_params(F)]
    c.need(len(mem) == 1, 'next_generation: one member parameter expected')
    m = mem[0]
    opt, lim = ctx_field(F, 'NextGenerationCtx', 'options'), ctx_field(F, 'NextGenerationCtx', 'curmaxsize')
    ds = ctx_field(F, 'NextGenerationCtx', 'dataset')
    bad = expr_unwritten(c, 'PopMember::evaluate')
    c.ob('P05.evaluate-keeps-structure', not bad, bad[0].at_() if bad else '', f'evaluation changes the member: {bad[:1]}')
    na = nr = 0
    for i, (b, acc), via in result_cases(F, ('0', '1')):
        w = case_where(F, via, i)
        ex = fld(F, b, 'expr')
        if is_const(acc, 1):
            na += 1
            p = case_guarded(F, via, i, lambda f: is_call(f, 'check_constraints') and f.a[1] is ex and f.a[2] is opt and f.a[3] is lim)
            c.ob('P05.mutation-checked', p is None, w, f'an accepted mutation result is not constraint-checked ({show(ex)[:120]}): ' + fmt(F, p))
            accepted_values(c, F, i, b, via, m, ex, opt, ds, w)
        elif is_const(acc, 0):
            nr += 1
            rejected_values(c, F, b, m, w, 'P05.mutation-rejected')
        else:
            c.fail('P05.mutation-verdict', w, f'cannot follow the accepted flag: {show(acc)}')
    c.floor('accepted mutation results', na, 2)
    c.floor('rejected mutation results', nr, 2)
    # the value-preserving exit is produced by simplification of the parent's expression only
    for i, e in calls_named(F, 'MutationChoice::apply'):
        a = e.args[-1]
        c.ob('P05.mutation-input', fld(F, a, 'expr') is F.proj1(m, ('f', c.p.adt('PopMember')['n'], 'expr')) and fld(F, a, 'member') is m
             and fld(F, a, 'options') is opt and fld(F, a, 'dataset') is ds and fld(F, a, 'curmaxsize') is lim, e.at_(),
             f'mutation applied to {show(a)[:200]}')
    A = ctx.flow('MutationChoice::apply', lambda f: True, key='all')
    ni = 0
    for i, (ex, im), via in result_cases(A, [('f', '', 'expr'), ('f', '', 'return_immediately')]):
        w = case_where(A, via, i)
        if is_const(im, 0):
            continue
        ni += 1
        ok = ex.op == 'upd' and ex.a[0].split('::')[-1] == 'simplify_in_place' and fld(A, ex.a[3], '') is not None and strip_upd(ex, 'simplify_in_place').op == 'fld'
        c.ob('P05.exit-simplify-only', is_const(im, 1) and ok, w, f'a non-simplification mutation ({show(ex)[:100]}) claims to keep the loss')
    c.floor('value-preserving exits', ni, 1)
    # crossover
    G = ctx.flow('crossover_generation', OFF)
    ms = members_params(G)
    c.need(len(ms) == 2, 'crossover_generation: two member parameters expected')
    opt, lim = ctx_field(G, 'CrossoverCtx', 'options'), ctx_field(G, 'CrossoverCtx', 'curmaxsize')
    ds = ctx_field(G, 'CrossoverCtx', 'dataset')
    na = nr = 0
    for i, (b1, b2, acc), via in result_cases(G, ('0', '1', '2')):
        w = case_where(G, via, i)
        for n, (b, m) in enumerate(((b1, ms[0]), (b2, ms[1]))):
            ex = fld(G, b, 'expr')
            if is_const(acc, 1):
                na += 1
                p = case_guarded(G, via, i, lambda f: is_call(f, 'check_constraints') and f.a[1] is ex and f.a[2] is opt and f.a[3] is lim)
                c.ob(f'P05.crossover-checked-{n + 1}', p is None, w, 'an accepted crossover child is not constraint-checked: ' + fmt(G, p))
                ev = evals_of(b)
                c.ob(f'P05.crossover-evaluated-{n + 1}', len(ev) >= 1 and ds in ev[0].a[4:] and opt in ev[0].a[4:], w,
                     f'crossover child is not evaluated on the given dataset: {show(b)[:150]}')
            elif is_const(acc, 0):
                nr += 1
                rejected_values(c, G, b, m, w, f'P05.crossover-rejected-{n + 1}')
            else:
                c.fail('P05.crossover-verdict', w, f'cannot follow the accepted flag: {show(acc)}')
    c.floor('accepted crossover children', na, 2)
    c.floor('rejected crossover children', nr, 2)


def evals_of(b):
    """evaluate-updates applied to a member value, outermost first"""
    out = []
    while isinstance(b, T) and b.op in ('upd', 'with'):
        if b.op == 'upd':
            if b.a[0].split('::')[-1] == 'evaluate':
                out.append(b)
            b = b.a[3]
        else:
            b = b.a[0]
    return out


def rejected_values(c, F, b, m, w, key):
    for f in ('expr', 'complexity', 'loss', 'cost'):
        v = fld(F, b, f)
        ok = v.op == 'fld' and v.a[2] == f and v.a[0] is m
        c.ob(f'{key}-{f}', ok, w, f'a rejected child has {f} = {show(v)[:120]} instead of its parent\'s')


def accepted_values(c, F, i, b, via, m, ex, opt, ds, w):
    ev = evals_of(b)
    if ev:
        e = ev[0]
        c.ob('P05.mutation-evaluated', ds in e.a[4:] and opt in e.a[4:], w, 'mutation child evaluated on another dataset or with other options')
        ok_res = {x.res for _, x in calls_named(F, 'evaluate') if x.args and x.args[0] is e.a[3]}
        p = case_guarded(F, via, i, lambda f: f in ok_res)
        c.ob('P05.mutation-complete', p is None, w, 'a child whose evaluation failed is accepted: ' + fmt(F, p))
        if b.op == 'with':
            over = [p[0][2] for p, _ in b.a[1] if p and p[0][0] == 'f' and p[0][2] in ('expr', 'loss', 'cost', 'complexity', 'plan')]
            c.ob('P05.mutation-values-kept', not over, w, f'{over} of an accepted child overwritten after its evaluation')
        fin = lambda f: is_call(f, 'is_finite') and depends(F, f.a[1], lambda x: x is e)
        p = case_guarded(F, via, i, fin)
        c.ob('P05.mutation-finite-cost', p is None, w, 'a child with a non-finite cost is accepted: ' + fmt(F, p))
    else:
        # not evaluated: only the simplification exit may carry the loss over
        p = case_guarded(F, via, i, lambda f: f.op == 'fld' and f.a[2] == 'return_immediately')
        c.ob('P05.carried-loss-exit', p is None, w, 'an unevaluated child is accepted outside the value-preserving exit: ' + fmt(F, p))
        ls, cx, co = fld(F, b, 'loss'), fld(F, b, 'complexity'), fld(F, b, 'cost')
        c.ob('P05.carried-loss', ls.op == 'fld' and ls.a[2] == 'loss' and ls.a[0] is m, w, f'unevaluated child gets loss {show(ls)[:100]}')
        c.ob('P05.carried-complexity', is_call(cx, 'compute_complexity') and mentions(cx.a[1], lambda x: x is ex), w, f'complexity not recomputed: {show(cx)[:100]}')
        c.ob('P05.carried-cost', is_call(co, 'loss_to_cost') and co.a[1] is ls and co.a[2] is cx, w, f'cost not recomputed from loss and complexity: {show(co)[:150]}')




# ------------------------------------------------------------------ constant optimisation
OPTC = ('EvalWorkspace::loss_only', 'EvalWorkspace::optimize_from_start', 'EvalWorkspace::new', 'PopMember::evaluate',
        'bfgs_minimize', 'newton_1d_minimize', 'standard_normal', 'eval_plan_array_into', 'eval_grad_tree_array')


def final_cases(F, reads, retfields):
    """joint alternatives of result fields and of the final contents of some locations"""
    out = []
    for i, v in F.returns():
        st = F.n[i].outst
        comps = [F.proj1(v, f) for f in retfields] + [F.resolve(st, F.read_whole(st, r, p)) for r, p in reads]
        syn = mk('agg', 'tuple', tuple(str(n) for n in range(len(comps))), *comps)
        for cs, via in cases(F, syn, [('f', 'tuple', str(n)) for n in range(len(comps))]):
            out.append((i, cs, via))
    return out


def unchanged(F, v, root, path):
    """v is the entry contents of root.path"""
    return F.proj(root, path) is v


def under_eval(v):
    """the evaluate-update nearest to the outside of a member-derived value"""
    for x in walk(v):
        if x.op == 'upd' and x.a[0].split('::')[-1] == 'evaluate':
            return x
    return None


@rule('P06',
      'Inlined flow of constant optimisation. Every alternative of (verdict, final member contents) is enumerated: when no '
      'improvement is reported the constants, loss, cost and birth are the entry values on every path; when one is '
      'reported, every path took the strict comparison best < starting loss, the member was re-evaluated successfully '
      'after the constants were written and not modified since, and its birth is the fresh counter value. The recorded '
      'best value and best parameters are only updated together, from one optimiser result, under a strict comparison.',
      ['convergence and quality of the optimiser are numeric', 'comparisons with NaN are false'])
def p06(c):
    ctx = c.ctx
    F = ctx.flow('optimize_constants', OPTC)
    m = arg_of_type(F, 'PopMember')
    adt, pe = 'PopMember', 'PostfixExpr'
    fp = lambda n: ('f', adt, n)
    consts = (fp('expr'), ('f', pe, 'consts'))
    nodes = (fp('expr'), ('f', pe, 'nodes'))
    ds = ctx_field(F, 'OptimizeConstantsCtx', 'dataset')
    opt = ctx_field(F, 'OptimizeConstantsCtx', 'options')
    paths = {'consts': consts, 'loss': (fp('loss'),), 'cost': (fp('cost'),), 'birth': (fp('birth'),), 'nodes': nodes, 'plan': (fp('plan'),),
             'id': (fp('id'),), 'parent': (fp('parent'),)}
    names = list(paths)
    loss0 = {e.res for i, e in calls_named(F, 'loss_only')}
    fits = {e.res for i, e in calls_named(F, 'optimize_from_start', 'bfgs_minimize', 'newton_1d_minimize')}
    c.floor('optimiser runs', len(fits), 2)

    def start_loss(t):
        return all(x.op == 'vf' and x.a[0] in loss0 for x in expand(F, t))

    def is_min(t):
        return t.op == 'fld' and t.a[2] == 'minimum' and t.a[0].op == 'vf' and t.a[0].a[0] in fits
    nt = nf = 0
    for i, cs, via in final_cases(F, [(m, paths[n]) for n in names], [('f', 'tuple', '0')]):
        w = case_where(F, via, i)
        val = dict(zip(names, cs[1:]))
        for n in ('nodes', 'plan', 'id', 'parent'):
            v = val[n]
            c.ob(f'P06.keeps-{n}', keeps(F, v, m, paths[n]), w, f'{n} of the member after optimisation is {show(v)[:150]}')
        if is_const(cs[0], 0):
            nf += 1
            for n in ('consts', 'loss', 'cost', 'birth'):
                v = val[n]
                ok = unchanged(F, v, m, paths[n]) or keeps(F, v, m, paths[n], opaque_eval=(n != 'consts' and n != 'birth'))
                c.ob(f'P06.restored-{n}', ok, w, f'{n} is {show(v)[:150]} although no improvement is reported')
        elif is_const(cs[0], 1):
            nt += 1
            p = case_guarded(F, via, i, lambda f: f.op == 'lt' and start_loss(f.a[1]) and all(is_min(x) or start_loss(x) for x in expand(F, f.a[0])))
            c.ob('P06.improves', p is None, w, 'an optimisation is kept without a strict improvement of the loss: ' + fmt(F, p))
            ev = under_eval(val['loss'])
            okv = ev is not None and is_fld(val['loss'], 'loss') and val['loss'].a[0] is ev and is_fld(val['cost'], 'cost') and val['cost'].a[0] is ev
            c.ob('P06.reevaluated', okv and ds in ev.a[4:] and opt in ev.a[4:], w, f'loss after optimisation is {show(val["loss"])[:120]}')
            if okv:
                res = {x.res for _, x in calls_named(F, 'evaluate') if x.b == ev.a[1]}
                p = case_guarded(F, via, i, lambda f: f in res)
                c.ob('P06.complete', p is None, w, 'constants with a failed evaluation are kept: ' + fmt(F, p))
                cv = F.proj(ev, consts)
                c.ob('P06.consts-evaluated', val['consts'] is cv, w, f'constants changed after the evaluation: {show(val["consts"])[:120]}')
            b = val['birth']
            c.ob('P06.birth', b.op == 'fld' and b.a[2] == 'next_birth', w, f'birth of an optimised member is {show(b)[:100]}')
        else:
            c.fail('P06.verdict', w, f'cannot follow the improvement flag {show(cs[0])[:80]}')
    c.floor('improved outcomes', nt, 1)
    c.floor('unimproved outcomes', nf, 3)
    # the final constants come from the best parameters, and best value/parameters move together
    wr = [(i, e) for i, e in F.events() if e.k == 'write' and isinstance(e.root, T)
          and depends(F, e.root, lambda x: x is m) and (has_fld_loc(e, 'consts') or depends(F, e.root, has_consts))]
    c.floor('writes to the constants', len(wr), 2)
    # comparison best < start: find the running best value and the parameters joined with it
    runbest = set()
    for x in F.rpo:
        for s, l in F.n[x].succ:
            for f in F.edge_fset(x, s, l):
                if f.op == 'lt' and start_loss(f.a[1]) and f.a[0].op == 'phi':
                    runbest.add(f.a[0])
    c.floor('running best values', len(runbest), 1)
    src = set()
    for i, e in wr:
        src |= {x for x in deep(F, e.value) | deep(F, e.root) if x.op == 'phi'}
    pair = 0
    for bf in runbest:
        for bx in src:
            if bx is bf or F.phi_key[bx][0] != F.phi_key[bf][0]:
                continue
            if not any(y.op == 'fld' and y.a[2] == 'minimizer' for y in expand(F, bx)):
                continue
            pair += 1
            bad = paired(F, bx, bf, is_min, start_loss, fits)
            c.ob('P06.best-paired', bad is None, '', f'best parameters and best loss are not updated together: {bad}')
    c.floor('best value/parameter pairs', pair, 1)
    # strict improvement at every update of the running best
    n = 0
    for ph in phis_of(F, runbest):
        for pr, v in F.phi_ops[ph]:
            for x in ([v] if v.op != 'phi' else []):
                if is_min(x):
                    n += 1
                    p = case_guarded(F, [(pr, F.phi_key[ph][0])], pr, lambda f: f.op == 'lt' and f.a[0] is x)
                    c.ob('P06.best-strict', p is None, F.where(pr), 'running best replaced without a strict improvement: ' + fmt(F, p))
    c.floor('running best updates', n, 2)
    # the objective measured is that of the given dataset/options, starting at the member's constants
    for i, e in calls_named(F, 'EvalWorkspace::new'):
        c.ob('P06.objective', any(x is ds or (x.op == 'fld' and x.a[2] == 'data' and x.a[0] is ds) for x in e.args) and any(x is opt for x in e.args), e.at_(), f'{e}'[:200])


def has_consts(x):
    return x.op == 'fld' and x.a[2] == 'consts' or x.op == 'refm' and any(p[0] == 'f' and p[2] == 'consts' for p in x.a[1])


def has_fld_loc(e, name):
    return any(p[0] == 'f' and p[2] == name for p in e.path) or has_fld(e.root, name)


def keeps(F, v, root, path, opaque_eval=True):
    """v is the entry value of root.path, possibly below updates that do not touch that field"""
    names = [e[2] for e in path]
    x = v
    for n in reversed(names):
        if x.op == 'fld' and x.a[2] == n:
            x = x.a[0]
        else:
            return False
    while True:
        if x is root:
            return True
        if x.op == 'upd' and x.a[0].split('::')[-1] == 'evaluate' and opaque_eval and names[0] not in ('loss', 'cost', 'complexity'):
            x = x.a[3]
        elif x.op == 'upd' and x.a[0].split('::')[-1] in ('optimize_from_start', 'bfgs_minimize', 'newton_1d_minimize') and names[-1] != 'consts':
            x = x.a[3]
        elif x.op == 'with' and not any(p[0][0] == 'f' and p[0][2] == names[0] and (len(p) < 2 or len(names) < 2 or p[1][2] == names[1]) for p, _ in x.a[1]):
            x = x.a[0]
        elif x.op in ('phi', 'loopphi'):
            p = x if x.op == 'phi' else x.a[0]
            return all(y.op in ('phi', 'loopphi') or keeps_base(F, y, root, path) for y in expand(F, p))
        else:
            return False


def keeps_base(F, y, root, path):
    names = [e[2] for e in path]
    x = y
    n = 0
    while n < 50:
        n += 1
        if x is root:
            return True
        if x.op == 'upd' and x.a[0].split('::')[-1] in ('evaluate', 'optimize_from_start', 'bfgs_minimize', 'newton_1d_minimize'):
            if x.a[0].split('::')[-1] == 'evaluate' and names[0] in ('loss', 'cost', 'complexity'):
                return False
            if x.a[0].split('::')[-1] != 'evaluate' and names[-1] == 'consts':
                return False
            x = x.a[3]
        elif x.op == 'with':
            for p, _ in x.a[1]:
                if p[0][0] == 'f' and p[0][2] == names[0] and (len(p) < 2 or len(names) < 2 or p[1][2] == names[1]):
                    return False
            x = x.a[0]
        elif x.op == 'phi':
            return True
        else:
            return False
    return False


def phis_of(F, roots):
    seen = set()
    st = list(roots)
    while st:
        x = st.pop()
        if x.op != 'phi' or x in seen:
            continue
        seen.add(x)
        for _, v in F.phi_ops.get(x, []):
            st.append(v)
    return seen


def paired(F, bx, bf, is_min, start_loss, fits):
    """None when every alternative of (bx, bf) is (start, start loss) or fields of one optimiser result"""
    seen = set()
    st = [(bx, bf)]
    while st:
        x, f = st.pop()
        if (x, f) in seen:
            continue
        seen.add((x, f))
        if x.op == 'phi' and f.op == 'phi' and F.phi_key[x][0] == F.phi_key[f][0]:
            fx = dict(F.phi_ops[x])
            for pr, v in F.phi_ops[f]:
                st.append((fx.get(pr, x), v))
            continue
        if is_min(f):
            if x.op == 'fld' and x.a[2] == 'minimizer' and x.a[0] is f.a[0]:
                continue
            return f'{show(x)[:80]} / {show(f)[:80]}'
        if start_loss(f) and not (x.op == 'fld' and x.a[2] == 'minimizer'):
            continue
        if f.op == 'phi':
            # parameters joined elsewhere
            return f'{show(x)[:80]} / {show(f)[:80]}'
        return f'{show(x)[:80]} / {show(f)[:80]}'
    return None
