"""P37: what one iteration of a population does."""
from sa.core import *
from sa.rulelib import *
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, strip, lin, rets, run
from rules.simplify import last, accs_of, impossible, ended, deref, calls_in, arg_where
from rules.choice import loops_in, num, plain, less, flag_of
from rules.browser import bare


def opt(t, name):
    return is_fld(t, name) and is_fld(deref(t.a[0]), 'options') or is_fld(t, name) and deref(t.a[0]).op == 'arg'


def under_upd(t):
    """a place before the calls that may have changed it"""
    while True:
        t = deref(t)
        if t.op == 'upd' and len(t.a) > 3:
            t = t.a[3]
        elif t.op == 'with':
            t = t.a[0]
        elif is_call(t, 'into_iter', 'iter_mut', 'iter', 'deref', 'deref_mut', 'as_mut_slice') and len(t.a) >= 2:
            t = t.a[1]
        else:
            return t


def top_calls(items, *names):
    return [(e, en) for e, _, en in (it for it in items if not isinstance(it, Loop)) if e.k == 'call' and last(e.cn or '') in names]


def inner_calls(items, *names):
    return [e for it in items if isinstance(it, Loop) for q in it.body for e, _, _ in calls_in(q.items) if last(e.cn or '') in names]


def draw_vs(fs, draws, name):
    """True/False: a draw in this iteration exceeds / does not exceed the option; None when not decided by it"""
    for f in fs:
        g, pos = (f.a[0], True) if f.op == 'not' else (f, False)
        pos = not pos
        if g.op in ('lt', 'le') and len(g.a) >= 2:
            for x, y, up in ((g.a[0], g.a[1], True), (g.a[1], g.a[0], False)):
                # x <(=) y when up: option < draw
                if isinstance(x, T) and isinstance(y, T) and opt(bare(strip(x)), name) and bare(strip(y)) in draws:
                    return pos == up
    return None


def draws_of(items):
    return {deref(e.res): (e, en) for e, _, en in (it for it in items if not isinstance(it, Loop)) if e.k == 'call' and last(e.cn or '') in ('f64', 'f32') and 'Rng' in e.cn}


def lem_events(c, fn):
    """ceil(size / tournament) events, each one crossover with the configured probability, else one mutation"""
    F = c.ctx.flow(fn, ('best_of_sample', 'next_generation', 'crossover_generation', 'replace_oldest', 'replace_two_oldest'))
    P = mk_arg(F, arg_where(F, lambda t: 'Population' in t))
    n = 0
    GEN = ('next_generation', 'crossover_generation')
    for p in rets(F):
        if impossible(p.facts):
            continue
        ls = [L for L in loops_in(p) if any(last(e.cn or '') in GEN for b in L.body for e, _, _ in calls_in(b.items))]
        if top_calls(p.items, *GEN):
            return 'a step is taken outside the loop over steps'
        if len(ls) != 1:
            return f'{len(ls)} loops of steps'
        L = ls[0]
        if not ended(p.facts, L):
            return 'the steps can stop early'
        s = bare(rebuild(L.src, p.env))
        if not (s.op == 'agg' and last(s.a[0]) == 'Range' and constant(s.a[2]) == 0):
            return f'steps run over {show(s)[:80]}'
        if not ceil_ratio(s.a[3], P):
            return f'the number of steps is {show(s.a[3])[:120]}'
        kinds = set()
        for b in L.body:
            if impossible(b.facts):
                continue
            if b.end != 'back':
                return 'the steps can stop early'
            if inner_calls(b.items, *GEN):
                return 'a step can be repeated'
            gens = top_calls(b.items, *GEN)
            if len(gens) != 1:
                return f'{len(gens)} steps in one'
            e, en = gens[0]
            cross = last(e.cn) == 'crossover_generation'
            ds = {rebuild(r, b.env) for r in draws_of(b.items)} | set(draws_of(b.items))
            v = draw_vs([rebuild(f, b.env) for f in b.facts] + list(b.facts), ds, 'crossover_probability')
            if v is None:
                return 'crossover does not depend on a fresh draw and the configured probability'
            if v == cross:
                return 'crossover happens with the complementary probability'
            w = [bare(rebuild(x, b.env)) for x in e.args[:2 if cross else 1]]
            if not all(is_call(x, 'best_of_sample') for x in w):
                return f'the parent is {show(w[0])[:80]}'
            if cross and w[0] is w[1]:
                return 'both parents are the same draw'
            sites = [deref(x.res) for x, _ in top_calls(b.items, 'best_of_sample')]
            if len(sites) < len(w):
                return 'a parent is drawn outside the step'
            kinds.add(cross)
        if kinds != {True, False}:
            return 'only one kind of step is taken'
        n += 1
    return None if n else 'no path'


def ceil_ratio(t, P):
    """t = ceil(number of members / tournament size)"""
    t = strip(bare(t))
    if is_call(t, 'ceil'):
        t = strip(bare(t.a[1]))
        if t.op != 'Div':
            return False
        a, b = strip(bare(t.a[0])), strip(bare(t.a[1]))
    elif is_call(t, 'div_ceil'):
        a, b = strip(bare(t.a[1])), strip(bare(t.a[2]))
    elif t.op == 'Div':
        b = strip(bare(t.a[1]))
        l = dict(lin(t.a[0]))
        if l.pop(b, 0) != 1 or l.pop(1, 0) != -1 or len(l) != 1 or set(l.values()) != {1}:
            return False
        a = next(iter(l))
    else:
        return False
    m = a.a[0] if a.op == 'len' else a.a[1] if is_call(a, 'len') else None
    return m is not None and is_fld(bare(m), 'members') and bare(bare(m).a[0]) is bare(P) and opt(b, 'tournament_selection_n')


def at_least_one(t, fs):
    """max(1, configured number of cycles)"""
    t = bare(t)
    if is_call(t, 'max') and len(t.a) >= 3:
        xs = [bare(t.a[1]), bare(t.a[2])]
        return any(constant(x) == 1 for x in xs) and any(opt(x, 'ncycles_per_iteration') for x in xs)
    if is_call(t, 'clamp'):
        return False
    if opt(t, 'ncycles_per_iteration'):
        return less(fs, lambda x: constant(x) == 0, lambda x: bare(x) is t) or any(f.op == 'ne' and any(bare(x) is t for x in f.a[:2]) and any(constant(x) == 0 for x in f.a[:2]) for f in fs)
    if constant(t) == 1:
        return less(fs, lambda x: opt(bare(x), 'ncycles_per_iteration'), lambda x: constant(x) == 1, False) or any(
            f.op == 'eq' and any(opt(bare(x), 'ncycles_per_iteration') for x in f.a[:2]) and any(constant(x) == 0 for x in f.a[:2]) for f in fs)
    return False


def lem_cycles(c, fn):
    F = c.ctx.flow(fn, ('reg_evol_cycle', 'update_from_members', 'HallOfFame::new'))
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        if top_calls(p.items, 'reg_evol_cycle'):
            return 'a cycle is run outside the loop over cycles'
        ls = [L for L in loops_in(p) if any(last(e.cn or '') == 'reg_evol_cycle' for b in L.body for e, _, _ in calls_in(b.items))]
        if len(ls) != 1 or not ended(p.facts, ls[0]):
            return f'{len(ls)} loops of cycles' if len(ls) != 1 else 'the cycles can stop early'
        L = ls[0]
        s = bare(rebuild(L.src, p.env))
        fs = [rebuild(f, p.env) for f in p.facts]
        if not (s.op == 'agg' and last(s.a[0]) == 'Range' and constant(s.a[2]) == 0 and at_least_one(s.a[3], fs)):
            return f'cycles run over {show(s)[:100]}'
        for b in L.body:
            if impossible(b.facts):
                continue
            if b.end != 'back':
                return 'the cycles can stop early'
            if len(top_calls(b.items, 'reg_evol_cycle')) != 1 or inner_calls(b.items, 'reg_evol_cycle'):
                return 'a cycle is left out or repeated'
        n += 1
    return None if n else 'no path'


def members_of(s, P):
    s = under_upd(s)
    if s.op == 'phi':
        return None
    return is_fld(s, 'members') and under_upd(s.a[0]) is P


def walked(s, L):
    """(list, test for its current element) of a loop by element or by position"""
    t = bare(s)
    if t.op == 'agg' and last(t.a[0]) == 'Range' and constant(t.a[2]) == 0:
        n = bare(t.a[3])
        m = n.a[0] if n.op == 'len' else n.a[1] if is_call(n, 'len') else None
        if m is not None:
            i = mk('elem', t, L.site)

            def each(x):
                x = under_upd(x)
                return x.op == 'idx' and bare(x.a[1]) is i and is_fld(under_upd(x.a[0]), 'members') or x.op == 'idx' and bare(x.a[1]) is i and under_upd(x.a[0]).op == 'phi'
            return m, each
    return s, lambda x: under_upd(x).op == 'elem' and under_upd(x).a[1] == L.site


def through(F, s, P, seen=None):
    """the members of the population, possibly after earlier phases changed them in place"""
    seen = set() if seen is None else seen
    s = under_upd(s)
    if s in seen:
        return True
    seen.add(s)
    if s.op == 'phi':
        return all(through(F, v, P, seen) for _, v in F.phi_ops.get(s, [])) and bool(F.phi_ops.get(s))
    return is_fld(s, 'members') and (under_upd(s.a[0]) is P or through_pop(F, s.a[0], P, seen))


def through_pop(F, s, P, seen):
    s = under_upd(s)
    if s in seen:
        return True
    seen.add(s)
    if s.op == 'phi':
        return all(through_pop(F, v, P, seen) for _, v in F.phi_ops.get(s, [])) and bool(F.phi_ops.get(s))
    return s is P


def lem_phases(c, fn):
    """simplification of every member when enabled, then optimisation of each with the configured probability when enabled"""
    F = c.ctx.flow(fn, ('simplify_in_place', 'rebuild_plan', 'optimize_constants', 'ensure_n_rows', 'PopMember::evaluate', 'evaluate'))
    P = mk_arg(F, arg_where(F, lambda t: 'Population' in t))
    got = set()
    for p in rets(F):
        if impossible(p.facts):
            continue
        fs = [rebuild(f, p.env) for f in p.facts]
        if top_calls(p.items, 'simplify_in_place', 'optimize_constants'):
            return 'a member is treated outside the loops over members'
        simp, optd = flag_of(fs, 'should_simplify'), flag_of(fs, 'should_optimize_constants')
        some = None
        for f in fs:
            g, pos = (f.a[0], False) if f.op == 'not' else (f, True)
            if g.op in ('lt', 'le') and opt(bare(g.a[1]), 'optimizer_probability') and num(bare(g.a[0])) == 0:
                some = pos if g.op == 'lt' else some
            if g.op in ('lt', 'le') and opt(bare(g.a[0]), 'optimizer_probability') and num(bare(g.a[1])) == 0:
                some = not pos if g.op == 'le' else some
        at = {}
        for k, L in enumerate(loops_in(p)):
            for what in ('simplify_in_place', 'optimize_constants', 'evaluate'):
                if any(last(e.cn or '') == what for b in L.body for e, _, _ in calls_in(b.items)):
                    at.setdefault(what, []).append((k, L))
        for what, on in (('simplify_in_place', simp), ('optimize_constants', optd)):
            k = len(at.get(what, ()))
            verb = 'simplification' if what.startswith('simp') else 'constant optimisation'
            if on is None and what == 'optimize_constants' and some is False:
                on = False
            if on is None:
                return f'{verb} does not depend on its switch'
            if what == 'optimize_constants' and some is False:
                on = False
            if k != (1 if on else 0):
                return f'{verb} runs {k} times when switched {"on" if on else "off"}'
            if not k:
                continue
            L = at[what][0][1]
            if not ended(p.facts, L):
                return f'{verb} can stop early'
            src, each = walked(rebuild(L.src, p.env), L)
            if not through(F, src, P):
                return f'{verb} runs over {show(rebuild(L.src, p.env))[:80]}'
            for b in L.body:
                if impossible(b.facts):
                    continue
                if b.end != 'back':
                    return f'{verb} can stop early'
                if inner_calls(b.items, what):
                    return f'{verb} of a member is repeated'
                cs = top_calls(b.items, what)
                if what == 'simplify_in_place':
                    if len(cs) != 1:
                        return 'a member is not simplified'
                    a = under_upd(rebuild(cs[0][0].args[0], b.env))
                    if not (is_fld(a, 'expr') and each(a.a[0])):
                        return f'{show(a)[:80]} is simplified'
                else:
                    ds = set(draws_of(b.items)) | {rebuild(r, b.env) for r in draws_of(b.items)}
                    v = draw_vs([rebuild(f, b.env) for f in b.facts] + list(b.facts), ds, 'optimizer_probability')
                    if v is None:
                        return 'optimising a member does not depend on a fresh draw and the configured probability'
                    if (v is False) != (len(cs) == 1):
                        return 'members are optimised with the complementary probability' if cs or v is False else 'a member is optimised twice'
                    for e, _ in cs:
                        if not any(each(rebuild(x, b.env)) for x in e.args):
                            return 'another member is optimised'
            got.add(what)
        ks = [k for what in ('simplify_in_place', 'optimize_constants', 'evaluate') for k, _ in at.get(what, ())]
        if ks != sorted(ks):
            return 'the phases run in another order'
    return None if got == {'simplify_in_place', 'optimize_constants'} else 'a phase never runs'


def lem_task(c, fn):
    """one evolution phase, then one simplification and optimisation phase"""
    F = c.ctx.flow(fn, ('optimize_and_simplify_population', 's_r_cycle', 'best_sub_pop', 'evaluate', 'make_batch_buffer', 'resample_from'))
    n = 0
    W = Walk(F, lambda f, fs: None)
    for p in W.paths():
        if p.end != 'ret' or impossible(p.facts):
            continue
        if inner_calls(p.items, 's_r_cycle', 'optimize_and_simplify_population'):
            return 'a phase is repeated'
        order = [last(e.cn) for e, _ in top_calls(p.items, 's_r_cycle', 'optimize_and_simplify_population')]
        if order != ['s_r_cycle', 'optimize_and_simplify_population']:
            return f'the phases run are {order}'
        n += 1
    return None if n else 'no path'


@rule('P37',
      'Paths and loop summaries on MIR: in the task run for a population every path calls the evolution phase once and then the '
      'simplification and optimisation phase once; the evolution phase is one loop of max(1, configured) cycles, each exactly one '
      'call; a cycle is one loop of ceil(members / tournament size) steps, and every path through its body takes exactly one step, '
      'a crossover of two separate winners when a fresh draw does not exceed the configured probability and a mutation of one winner '
      'otherwise; under the switch of each later phase there is exactly one loop over all members, treating each exactly once '
      '(simplification) or exactly when a fresh draw is below the configured probability (optimisation), in that order.',
      ['the random generator is uniform on the ranges it is asked for'])
def p37(c):
    for key, suf, lem in (('task', 'search_utils::execute_task', lem_task), ('cycles', 'single_iteration::s_r_cycle', lem_cycles),
                          ('steps', 'regularized_evolution::reg_evol_cycle', lem_events), ('phases', 'single_iteration::optimize_and_simplify_population', lem_phases)):
        f = c.p.fn(suf)
        m = run(lem, c, f)
        c.ob(key, m is None, f['id'], m)
