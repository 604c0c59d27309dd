"""P25: what a dataset stores."""
from sa.core import *
from sa.rulelib import *
from sa.algebra import Unknown, RF, V, C, Sum, LoopPaths, over_regions
from sa.walk import rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, empty, rets
from rules.simplify import last, impossible, deref
from rules.browser import bare, nf, peel
from rules.report import RowEval, guarded, structural

FRESH = ('to_owned', 'into_owned', 'clone', 'to_standard_layout')


def stored(t, src, facts):
    """t holds the elements of src in standard layout"""
    t = deref(t)
    norm = False
    while True:
        if is_call(t, *FRESH) and len(t.a) >= 2:
            t = deref(t.a[1])
        elif is_call(t, 'as_standard_layout') and len(t.a) >= 2:
            norm = True
            t = deref(t.a[1])
        elif is_call(t, 'view') and len(t.a) >= 2:
            t = deref(t.a[1])
        else:
            break
    if t is not src:
        return False
    return norm or any(is_call(f, 'is_standard_layout') and deref(f.a[1]) is src for f in facts)


class Sizes:
    """which array dimension a term is"""

    def __init__(self, arrays):
        self.arrays = arrays

    def base(self, t):
        t = deref(t)
        while is_call(t, 'as_standard_layout', 'view', 'as_slice', *FRESH) and len(t.a) >= 2 or t.op == 'vf' and t.a[1] == 'Some' and is_call(t.a[0], 'as_slice'):
            t = deref(t.a[1] if t.op == 'call' else t.a[0])
        for k, s in self.arrays.items():
            if t is s:
                return k
        return None

    def of(self, t):
        t = deref(t)
        if t.op == 'len':
            b = self.base(t.a[0])
            return (b, 0) if b in ('y', 'w') else None
        if is_call(t, 'len', 'nrows', 'ncols') and len(t.a) >= 2:
            b = self.base(t.a[1])
            if b in ('y', 'w'):
                return (b, 0) if is_call(t, 'len') else None
            return {'nrows': ('x', 0), 'ncols': ('x', 1)}.get(last(t.a[0])) if b == 'x' else None
        if is_call(t, 'dim', 'raw_dim') and len(t.a) >= 2:
            b = self.base(t.a[1])
            return (b, 0) if b in ('y', 'w') else None
        if is_call(t, 'len_of') and len(t.a) >= 3:
            b = self.base(t.a[1])
            k = t.a[2].a[2] if t.a[2].op == 'agg' and last(t.a[2].a[0]) == 'Axis' else None
            return (b, constant(k)) if b and k is not None else None
        if t.op == 'fld' and is_call(t.a[0], 'dim') and str(t.a[2]).isdigit():
            b = self.base(t.a[0].a[1])
            return (b, int(t.a[2])) if b == 'x' else None
        if t.op == 'idx' and is_call(t.a[0], 'shape', 'dim', 'raw_dim'):
            b = self.base(t.a[0].a[1])
            k = constant(t.a[1])
            return (b, k) if b and k is not None else None
        return None


def lem_build(c, fn):
    F = c.ctx.flow(fn, ('compute_avg_y',))
    args = {}
    for k in range(1, fn['argc'] + 1):
        t = str(fn['locals'][k]['ty'])
        args[k] = t
    two = [k for k, t in args.items() if 'Dim<[usize; 2]>' in t]
    opt = [k for k, t in args.items() if 'Option' in t and 'Dim<[usize; 1]>' in t]
    one = [k for k, t in args.items() if 'Dim<[usize; 1]>' in t and k not in opt]
    if len(two) != 1 or len(one) != 1 or len(opt) > 1:
        raise Bad('the arguments are not one table, one target vector and optional weights')
    X, Y = mk_arg(F, two[0]), mk_arg(F, one[0])
    Wo = mk_arg(F, opt[0]) if opt else None
    names = [k for k, t in args.items() if 'String' in t]
    avg = [k for k, t in args.items() if 'Option' in t and k not in opt]
    n = 0
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        r = rebuild(p.ret, p.env)
        if not (r.op == 'agg' and last(r.a[0]) == 'Dataset'):
            raise Bad(f'returns {show(r)[:80]}')
        fld = dict(zip(r.a[1], r.a[2:]))
        some = None
        if Wo is not None:
            for f in fs:
                if f.op in ('is', 'isnt') and deref(f.a[0]) is Wo:
                    some = (f.a[1] == 'Some') == (f.op == 'is')
            if some is None:
                return 'a result does not depend on whether weights were given'
        W = mk('vf', Wo, 'Some') if some else None
        W = next((t for t in terms_in(r, fs) if t.op == 'fld' and t.a[0].op == 'vf' and t.a[0].a[0] is Wo and t.a[0].a[1] == 'Some'), W) if some else None
        if W is not None and not any(t is W for t in terms_in(r, fs)):
            W = next((t for t in terms_in(r, fs) if t.op == 'vf' and t.a[0] is Wo and t.a[1] == 'Some'), W)
        if not stored(fld['x'], X, fs):
            return f'the features are stored as {show(fld["x"])[:120]}'
        if not stored(fld['y'], Y, fs):
            return f'the targets are stored as {show(fld["y"])[:120]}'
        w = deref(fld['weights'])
        if some:
            if not (w.op == 'agg' and last(w.a[0]) == 'Some' and stored(w.a[2], W, fs)):
                return f'given weights are stored as {show(w)[:120]}'
        elif not (w.op == 'agg' and last(w.a[0]) == 'None' or Wo is not None and w is Wo):
            return f'weights that were not given are stored as {show(w)[:120]}'
        S = Sizes({'x': X, 'y': Y, **({'w': W} if some else {})})
        same = {}

        def root(k):
            while k in same:
                k = same[k]
            return k
        for f in fs:
            if f.op == 'eq':
                a, b = S.of(f.a[0]), S.of(f.a[1])
                if a and b and root(a) != root(b):
                    same[root(a)] = root(b)
        rows = root(('x', 1))
        if root(('y', 0)) != rows:
            return 'targets of another length than the rows are accepted'
        if some and root(('w', 0)) != rows:
            return 'weights of another length than the rows are accepted'
        if root(S.of(fld['n_features'])) != root(('x', 0)):
            return f'the number of features is {show(fld["n_features"])[:80]}'
        if root(S.of(fld['n_rows'])) != rows:
            return f'the number of rows is {show(fld["n_rows"])[:80]}'
        v = deref(fld['variable_names'])
        while is_call(v, 'clone', 'to_vec', 'to_owned'):
            v = deref(v.a[1])
        if names and v is not mk_arg(F, names[0]) or not names and not empty(v):
            return f'the variable names are {show(v)[:80]}'
        a = deref(fld['avg_y'])
        given = None
        if avg:
            A = mk_arg(F, avg[0])
            for f in fs:
                if f.op in ('is', 'isnt') and deref(f.a[0]) is A:
                    given = (f.a[1] == 'Some') == (f.op == 'is')
            if given is None:
                return 'the average does not depend on whether one was given'
        if given:
            if not (a.op == 'vf' and a.a[1] == 'Some' and a.a[0] is A or a.op == 'fld' and a.a[0].op == 'vf' and a.a[0].a[0] is A):
                return f'a given average is stored as {show(a)[:80]}'
        else:
            if not is_call(a, 'compute_avg_y'):
                raise Bad(f'the average is {show(a)[:80]}')
            if not sliced(a.a[1], Y, fs):
                return f'the average is over {show(a.a[1])[:100]}'
            b = deref(a.a[2])
            if some:
                # the slice view of standard layout data exists
                if is_call(b, 'as_slice', 'to_slice'):
                    ok = stored(b.a[1], W, fs)
                else:
                    ok = b.op == 'agg' and last(b.a[0]) == 'Some' and sliced(b.a[2], W, fs)
                if not ok:
                    return f'the average is weighted by {show(b)[:100]}'
            elif not (b.op == 'agg' and last(b.a[0]) == 'None' or b is Wo):
                return f'an unweighted average uses {show(b)[:100]}'
        n += 1
    if not n:
        raise Bad('no path builds a dataset')
    c.note(f'{fn["n"]}: {n} ways to build a dataset')
    return None


def sliced(t, src, fs):
    t = deref(t)
    while t.op == 'vf' and t.a[1] == 'Some' or is_call(t, 'unwrap', 'expect'):
        t = deref(t.a[0] if t.op == 'vf' else t.a[1])
    if is_call(t, 'as_slice', 'to_slice'):
        return stored(t.a[1], src, fs)
    return False


def terms_in(r, fs):
    seen = set()
    st = [r, *fs]
    while st:
        t = st.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        yield t
        for x in t.a:
            st.extend(x if isinstance(x, tuple) else (x,))


def lem_avg(c, fn):
    F = c.ctx.flow(fn, ())
    ks = [k for k in range(1, fn['argc'] + 1)]
    wk = [k for k in ks if 'Option' in str(fn['locals'][k]['ty'])]
    yk = [k for k in ks if k not in wk]
    if len(wk) != 1 or len(yk) != 1:
        raise Bad('the arguments are not targets and optional weights')
    Y, W = mk_arg(F, yk[0]), mk_arg(F, wk[0])

    def name(t):
        t = bare(t)
        while t.op == 'vf' and t.a[1] == 'Some':
            t = bare(t.a[0])
        if t is Y:
            return 'y'
        if t is W:
            return 'w'
        if is_call(t, 'iter', 'copied', 'cloned', 'into_iter', 'unwrap', 'expect'):
            return name(t.a[1])
        return None
    n = V('n')
    lp = LoopPaths(F, 4000)
    allp = [(p, fs, env, v) for p, fs, env, v in lp.paths() if v is not None]

    def together(t):
        t = bare(t)
        if is_call(t, 'zip', 'zip_eq', 'enumerate', 'izip', 'map') and len(t.a) >= 2:
            xs = t.a[1:2] if is_call(t, 'map', 'enumerate') else [x for x in t.a[1:] if isinstance(x, T)]
            return all(together(x) for x in xs)
        return name(t) is not None

    def whole(ix):
        s = bare(ix.a[0])
        if s.op == 'agg' and last(s.a[0]) == 'Range':
            return constant(s.a[2]) == 0 and leaf(s.a[3]) == n
        return ix.op == 'pos' and together(s)

    def leaf(t):
        if t.op == 'elem':
            b = name(t.a[0])
            if b:
                return V(b + '[i]')
        if t.op == 'idx' and t.a[1].op in ('elem', 'pos'):
            b = name(t.a[0])
            if b and whole(t.a[1]):
                return V(b + '[i]')
        if t.op == 'len' and together(t.a[0]) or is_call(t, 'len') and together(t.a[1]):
            return n
        if is_call(t, 'zero') and len(t.a) <= 2:
            return C(0)
        return None

    def evaluator(r, weighted):
        ev = RowEval(r, leaf, lp, n)
        ev.name, ev.c = name, c
        o, h = ev.is_, ev.holds

        def is_(t, v):
            b = name(t)
            if b == 'w':
                return (v == 'Some') == weighted
            if t.op == 'next':
                raise Unknown('next')
            return o(t, v)

        def holds(f):
            if is_call(f, 'is_empty') and name(f.a[1]):
                return False
            return h(f)
        ev.is_, ev.holds = is_, holds
        return ev
    for weighted in (False, True):
        def chk(r):
            want = Sum(V('w[i]') * V('y[i]'), n) / Sum(V('w[i]'), n) if weighted else Sum(V('y[i]'), n) / n
            got = set()
            for p, fs, env, v in allp:
                ev = evaluator(r, weighted)
                ev.outer = env
                if all(ev.maybe(f) for f in fs):
                    ev.memo.clear()
                    got.add(ev(v))
            if not got:
                raise Unknown('no path applies')
            for g in got:
                g = g if isinstance(g, RF) else C(g)
                if (g - want).n:
                    return f'the {"weighted " if weighted else ""}average is {g}'
        for r, m in over_regions(chk, ('n',)):
            if m:
                return m
    # no targets: zero, never a division by zero
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        no = any(f.op == 'eq' and {constant(f.a[0]), constant(f.a[1])} & {0} and any(leaf(deref(x)) == n for x in f.a[:2] if isinstance(x, T)) for f in fs) \
            or any(is_call(f, 'is_empty') and name(f.a[1]) == 'y' for f in fs)
        some = any(f.op == 'ne' and any(constant(x) == 0 for x in f.a[:2]) and any(leaf(deref(x)) == n for x in f.a[:2] if isinstance(x, T)) for f in fs) \
            or any(f.op == 'not' and is_call(f.a[0], 'is_empty') and name(f.a[0].a[1]) == 'y' for f in fs) \
            or any(f.op == 'lt' and constant(f.a[0]) == 0 and leaf(deref(f.a[1])) == n for f in fs)
        if no:
            r = rebuild(p.ret, p.env)
            if not (is_call(r, 'zero') or constant(r) == 0):
                return f'without rows the average is {show(r)[:60]}'
        elif not some:
            return 'without rows the average is computed by a division'
    return None


def lem_baseline(c, fn):
    F = c.ctx.flow(fn, ('eval_plan_array_into', 'compile_plan'))
    dk = [k for k in range(1, fn['argc'] + 1) if 'Dataset' in str(fn['locals'][k]['ty'])]
    lk = [k for k in range(1, fn['argc'] + 1) if k not in dk]
    if len(dk) != 1 or len(lk) != 1:
        raise Bad('the arguments are not a dataset and a loss')
    D, Lo = mk_arg(F, dk[0]), mk_arg(F, lk[0])
    isf = lambda t, n: (t := deref(t)).op == 'fld' and t.a[0] is D and t.a[2] == n

    def zero(t):
        return is_call(t, 'zero') or constant(t) == 0

    def evalcall(t):
        """buffer, plan, expr, x of an evaluation"""
        if is_call(t, 'eval_plan_array_into'):
            return t.a[1:5]
        if t.op == 'upd' and last(t.a[0]) == 'eval_plan_array_into':
            return t.a[3:7]
        return None

    def badeval(ev):
        buf, plan, ex, x = [deref(v) for v in ev]
        if not (is_call(buf, 'from_elem') and isf(buf.a[2], 'n_rows')):
            return f'the predictions are {show(buf)[:80]}'
        if not (is_call(plan, 'compile_plan') and isf(plan.a[2], 'n_features')):
            return f'the plan is {show(plan)[:80]}'
        if not (ex.op == 'agg' and last(ex.a[0]) == 'PostfixExpr'):
            return f'the expression is {show(ex)[:80]}'
        e = dict(zip(ex.a[1], ex.a[2:]))
        ns, cs = seqs(e['nodes']), seqs(e['consts'])
        if ns is None or cs is None or len(ns) != 1 or len(cs) != 1 or not zero(cs[0]) or not (ns[0].op == 'agg' and last(ns[0].a[0]) == 'Const' and constant(ns[0].a[2]) == 0):
            return f'the expression is {show(ex)[:120]}'
        if nf(plan.a[1]) is not nf(e['nodes']):
            return 'the plan is of another expression'
        k = deref(plan.a[3])
        if constant(k) != 1 and not (k.op == 'len' and nf(k.a[0]) is nf(e['consts']) or is_call(k, 'len') and nf(k.a[1]) is nf(e['consts'])):
            return f'the plan is for {show(k)[:60]} constants'
        x = deref(x)
        while is_call(x, 'view', 'to_owned', 'clone'):
            x = deref(x.a[1])
        if not isf(x, 'x'):
            return f'the expression is evaluated on {show(x)[:60]}'
        return None
    some = none = 0
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        r = rebuild(p.ret, p.env)
        okev = [f for f in fs if evalcall(f)]
        bad = [f for f in fs if f.op == 'not' and evalcall(f.a[0])]
        fin = [f for f in fs if is_call(f, 'is_finite')]
        inf = [f for f in fs if f.op == 'not' and is_call(f.a[0], 'is_finite') or is_call(f, 'is_nan', 'is_infinite')]
        if r.op == 'agg' and last(r.a[0]) == 'Some':
            v = r.a[2]
            if not okev:
                return 'the baseline can come from a failed evaluation'
            if not (is_call(v, 'LossFn::loss', 'loss') and deref(v.a[1]) is Lo):
                return f'the baseline is {show(v)[:80]}'
            if not any(f.a[1] is v for f in fin):
                return 'the baseline may not be a finite number'
            ev = evalcall(deref(v.a[2]))
            if ev is None:
                return f'the baseline is the loss of {show(v.a[2])[:80]}'
            m = badeval(ev)
            if m:
                return m
            if any(evalcall(f)[1:] != ev[1:] for f in okev[:1]):
                return 'another evaluation is tested'
            y = deref(v.a[3])
            while y.op == 'vf' and y.a[1] == 'Some' or is_call(y, 'as_slice', 'to_slice'):
                y = deref(y.a[0] if y.op == 'vf' else y.a[1])
            if not isf(y, 'y'):
                return f'the baseline is against {show(y)[:80]}'
            w = deref(v.a[4])
            o = [f for f in fs if f.op in ('is', 'isnt') and isf(f.a[0], 'weights')]
            given = any((f.a[1] == 'Some') == (f.op == 'is') for f in o)
            if w.op == 'agg' and last(w.a[0]) == 'Some':
                w, wrap = deref(w.a[2]), True
            if w.op == 'agg' and last(w.a[0]) == 'None':
                if given or not o:
                    return 'the weights are left out of the baseline'
            else:
                b = w
                while b.op == 'vf' and b.a[1] == 'Some' or is_call(b, 'as_slice', 'to_slice', 'and_then', 'as_ref') or b.op == 'fld' and b.a[0].op == 'vf':
                    b = deref(b.a[1] if b.op == 'call' else b.a[0])
                if not isf(b, 'weights'):
                    return f'the baseline is weighted by {show(w)[:80]}'
            some += 1
        elif r.op == 'agg' and last(r.a[0]) == 'None':
            if not bad and not inf:
                return 'a usable baseline is left out'
            none += 1
        else:
            raise Bad(f'returns {show(r)[:80]}')
    if not some:
        return 'there is never a baseline'
    return None


def seqs(t):
    t = deref(t)
    while is_call(t, 'into_vec', 'to_vec', 'from', 'into', 'clone', 'box_assume_init_into_vec_unsafe') and len(t.a) >= 2:
        t = deref(t.a[1])
    if t.op == 'agg' and t.a[0] == 'array':
        return [x for x in t.a[1:] if isinstance(x, T)]
    return None


@rule('P25', 'MIR: every construction of a dataset read path by path (value numbering with calls inlined); the average as a formula over sums of the rows in all sign regions; '
      'who-writes query over the typed program for every field; the baseline function path by path', [
    'ndarray: as_standard_layout keeps the elements and gives row-major order, dim and len are the sizes', 'real arithmetic for the average'])
def p25(c):
    clones = {f for f in c.ctx.constructors('Dataset') if f.split('::')[-1] == 'clone'}
    ctors = sorted(c.ctx.constructors('Dataset') - clones)
    c.need(ctors, 'nothing constructs a dataset')
    for k in ctors:
        f = c.p.fns[k]
        m = guarded(lem_build, c, f)
        c.ob('build ' + k.split('::')[-1], m is None, f['id'], m)
    f = c.p.fn('Dataset::compute_avg_y')
    m = guarded(lem_avg, c, f)
    c.ob('average', m is None, f['id'], m)
    for fld in ('x', 'y', 'weights', 'n_rows', 'n_features', 'variable_names', 'avg_y'):
        for w, at in sorted(c.ctx.writers('Dataset', fld).items()):
            if w in ctors or w in clones:
                continue
            # refilling a batch keeps every size: elements only (rule P11 says which)
            ok = fld in ('x', 'y', 'weights') and w.split('::')[-1] == 'resample_from'
            c.ob(f'writer {fld}', ok, w, f'changes {fld} of a finished dataset')
    for k in ('resample_from',):
        for g in (v for q, v in c.p.fns.items() if q.endswith('::' + k)):
            m = guarded(lem_refill, c, g)
            c.ob('refill', m is None, g['id'], m)
    g = c.p.fn('loss_functions::baseline_loss_from_zero_expression')
    m = guarded(lem_baseline, c, g)
    c.ob('baseline', m is None, g['id'], m)


def lem_refill(c, fn):
    """only elements of the arrays are written, no array or size is exchanged"""
    F = c.ctx.flow(fn, ())
    for i, e in F.events():
        if e.k == 'write' and e.path and any(x[0] == 'f' and x[1] == 'Dataset' for x in e.path) and not any(x[0] == 'i' for x in e.path):
            return f'{next(x[2] for x in e.path if x[0] == "f" and x[1] == "Dataset")} is replaced at {e.at_()}'
    return None
