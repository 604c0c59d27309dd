"""P26: the browser front end's tables and splits.  P36: its reported metrics."""
from sa.core import *
from sa.rulelib import *
from sa.algebra import Unknown
from sa.flow import neg
from sa.fold import subst
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T, show, const
from rules import rule
from rules.engine import mk_arg, tup
from rules.wellformed import Bad, constant, strip, lin, plus, empty, terms_of, rets, run
from rules.simplify import last, accs_of, calls_in, arg_where, impossible, ended, deref, pushed
from rules.choice import num, plain, atoms, loops_in, one

K = lambda d: mk('K', d)
LAZY = ('iter', 'into_iter', 'copied', 'cloned', 'as_slice', 'to_vec', 'clone', 'deref', 'as_ref', 'collect', 'view', 'to_owned', 'as_standard_layout',
        'from', 'from_vec', 'into', 'borrow', 'index')


def bare(t):
    """without wrappers that keep the sequence"""
    while True:
        t = deref(t)
        if is_call(t, *LAZY) and len(t.a) >= 2 and isinstance(t.a[1], T) and not (is_call(t, 'index') and len(t.a) > 2):
            t = t.a[1]
        elif is_call(t, 'index') and len(t.a) > 2 and t.a[2].op == 'agg' and last(t.a[2].a[0]) == 'RangeFull':
            t = t.a[1]
        elif t.op == 'vf' and t.a[1] == 'Some' and is_call(t.a[0], 'as_slice'):
            t = t.a[0].a[1]
        else:
            return t


def apply(c, clo, args):
    """the one value a closure returns for these arguments"""
    vs = results(c, clo, args)
    if len(vs) != 1:
        raise Bad('a closure has several results')
    return simp(vs.pop())


def results(c, clo, args):
    clo = deref(clo)
    if not (clo.op == 'agg' and clo.a[0].startswith('closure:')):
        raise Bad(f'{show(clo)[:60]} is not a closure')
    f = c.p.fns.get(clo.a[0][8:]) or c.p.fn(clo.a[0][8:])
    G = c.ctx.flow(f, ())
    env = {mk_arg(G, 1): clo, mk('arg', 1, 'env'): clo}
    for k, a in enumerate(args):
        env[mk_arg(G, 2 + k)] = a
    ps = rets(G)
    if any(isinstance(i, Loop) for p in ps for i in p.items):
        raise Bad('a closure loops')
    return {simp(subst(rebuild(p.ret, p.env), env)) for p in ps}


def simp(t):
    """project aggregates after substitution"""
    if not isinstance(t, T):
        return t
    a = tuple(simp(x) if isinstance(x, T) else x for x in t.a)
    if t.op == 'fld' and a[0].op == 'agg':
        fs = a[0].a[1]
        if fs and a[2] in fs:
            return a[0].a[2 + fs.index(a[2])]
        if str(a[2]).isdigit() and not fs:
            return a[0].a[2 + int(a[2])]
    if t.op == 'fld' and a[0].op == 'tuple' and str(a[2]).isdigit():
        return a[0].a[int(a[2])]
    return mk(t.op, *a) if a != t.a else t


class Sq:
    """a sequence: its length and its element at K(0)"""

    def __init__(self, n, v, alts=None):
        self.n, self.one = n, v
        self.alts = alts or [(v, ())]

    @property
    def v(self):
        if self.one is None:
            raise Bad('elements are not all made the same way')
        return self.one

    def at(self, i):
        return subst(self.v, {K(0): i})


def length(t):
    return mk('len', bare(t))


def seq(c, F, p, t, d=0):
    """the sequence a term yields"""
    t = bare(t)
    if d > 20:
        raise Bad('sequence too deep')
    if t.op == 'agg' and last(t.a[0]) == 'Range':
        if constant(t.a[2]) != 0:
            raise Bad(f'the range {show(t)[:60]} does not start at 0')
        return Sq(t.a[3], K(0))
    if is_call(t, 'map') and len(t.a) >= 3 and deref(t.a[2]).op == 'agg':
        s = seq(c, F, p, t.a[1], d + 1)
        return Sq(s.n, nf(apply(c, t.a[2], [s.v])))
    if is_call(t, 'enumerate'):
        s = seq(c, F, p, t.a[1], d + 1)
        return Sq(s.n, mk('agg', 'tuple', (), K(0), s.v))
    if is_call(t, 'from_iter'):
        return seq(c, F, p, t.a[1], d + 1)
    if is_call(t, 'select') and len(t.a) >= 4:
        s = seq(c, F, p, t.a[3], d + 1)
        if axis(t.a[2]) != 0:
            raise Bad('rows are selected along another axis')
        return Sq(s.n, mk('idx', nf(t.a[1]), s.v))
    if is_call(t, 'from_shape_fn') and tup(t.a[1]) is None:
        return Sq(t.a[1], nf(apply(c, t.a[2], [K(0)])))
    if t.op == 'phi':
        for L in loops_in(p):
            if t in (L.accs or ()):
                if not empty(L.entries[t]):
                    raise Bad('a sequence does not start empty')
                if not ended(p.facts, L):
                    raise Bad('a loop over a sequence can end early')
                s = seq(c, F, p, L.src, d + 1)
                alts = []
                for b in L.body:
                    if impossible(b.facts + tuple(f for f in p.facts if not any(y.op == 'next' for y in terms_of(f)))):
                        continue
                    base, v = pushed(accs_of(F, L, b).get(t, t))
                    if base is not t:
                        raise Bad('an element is left out or pushed twice')
                    alts.append((nf(unsite(v, L.site, s, K(0))), tuple(rebuild(f, b.env) for f in b.facts)))
                if not alts:
                    raise Bad('a sequence is never filled')
                return Sq(s.n, alts[0][0] if len({v for v, _ in alts}) == 1 else None, alts)
        raise Bad(f'{show(t)[:60]} is not understood')
    if t.op in ('arg', 'fld', 'vf', 'idx', 'K', 'upd'):
        return Sq(mk('len', t), mk('idx', t, K(0)))
    raise Bad(f'the sequence {show(t)[:80]} is not understood')


def axis(t):
    t = deref(t)
    if t.op == 'agg' and last(t.a[0]) == 'Axis':
        return constant(t.a[2])
    if is_call(t, 'Axis'):
        return constant(t.a[1])
    return None


def unsite(v, site, s, k):
    """v with the element of loop `site` written as the k-th of the sequence"""
    m = {}
    for x in terms_of(v):
        if x.op == 'elem' and x.a[1] == site:
            y = bare(x.a[0])
            if y.op == 'agg' and last(y.a[0]) == 'Range':
                m[x] = k
            elif y.op in ('arg', 'fld', 'vf', 'idx', 'upd', 'phi'):
                m[x] = mk('idx', y, k)
            elif s is not None:
                m[x] = subst(s.v, {K(0): k})
        elif x.op == 'pos' and x.a[1] == site:
            m[x] = k
    return simp(subst(v, m))


def nf(t):
    """wrappers removed everywhere"""
    if not isinstance(t, T):
        return tuple(nf(x) for x in t) if isinstance(t, tuple) else t
    u = bare(t)
    if u is not t:
        return nf(u)
    a = tuple(nf(x) if isinstance(x, (T, tuple)) else x for x in t.a)
    if t.op == 'agg' and t.a[0] in ('array', 'tuple') and len(a) == 4:
        a = ('tuple', ()) + a[2:]
    if is_call(t, 'index') and len(a) >= 3 and a[2].op in ('K', 'idx', 'agg') and not (a[2].op == 'agg' and 'Range' in a[2].a[0]):
        return mk('idx', a[1], a[2])
    if t.op == 'len' or is_call(t, 'len') and len(a) >= 2:
        return mk('len', a[0] if t.op == 'len' else a[1])
    return mk(t.op, *a) if a != t.a else t


class Fill:
    """a local array filled element by element: shape, element value at K(0), K(1), proof that every element is written"""

    def __init__(self, c, F, root, path, leaves, okrets, given=None):
        self.c, self.F = c, F
        n = len(path)
        W = [(i, e) for i, e in F.events() if e.k == 'write' and e.root == root and isinstance(e.path, tuple) and e.path[:n] == path
             and len(e.path) > n and e.path[n][0] == 'i']
        if not W:
            raise Bad(f'an array is never filled ')
        zs = {shape_of(x) for x in leaves if shape_of(x) is not None}
        bad = [x for x in leaves if shape_of(x) is None and x.op not in ('with', 'phi') and not (x.op == 'vf' and x.a[0].op == 'agg')]
        if bad:
            raise Bad(f'an array is also {show(bad[0])[:80]}')
        if not zs:
            raise Bad('an array of unknown shape')
        self.zs = zs
        vals = set()
        sites = None
        for i, e in W:
            if len(e.path) != n + 1:
                raise Bad('a nested store')
            ix = tup(e.path[n][1]) or [e.path[n][1]]
            ix = [uniq(F, x) for x in ix]
            v = e.value
            ss = []
            for d, x in enumerate(ix):
                if x.op not in ('elem', 'pos'):
                    raise Bad(f'an element is stored at {show(x)[:60]}')
                y = bare(x.a[0])
                if x.op == 'elem' and not (y.op == 'agg' and last(y.a[0]) == 'Range' and constant(y.a[2]) == 0):
                    raise Bad(f'an element is stored at {show(x)[:60]}')
                ss.append(x.a[1])
                v = unsite(v, x.a[1], None, K(d))
            if len(set(ss)) != len(ss) or sites not in (None, ss):
                raise Bad('two dimensions share one loop')
            sites = ss
            vals.add((i, nf(v)))
            # each loop runs over the whole dimension
            for d, x in enumerate(ix):
                y = bare(x.a[0])
                n_ = y.a[3] if y.op == 'agg' else mk('len', y)
                self.dims = getattr(self, 'dims', {})
                self.dims.setdefault(d, set()).add((i, nf(n_)))
        self.vals = vals
        self.cover([i for i, _ in W], sites, okrets, given, root, path)

    def cover(self, W, sites, okrets, given, root, path):
        F = self.F
        heads, ents = {}, {}
        for h, src, en in loops(F):
            for e in F.n[h].events:
                if e.k == 'call' and e.res is not None and e.res.op == 'next' and e.res.a[0] is src:
                    heads.setdefault(e.res.a[1], set()).add(h)
                    ents.setdefault(e.res.a[1], set()).update(en)
        for s in sites:
            if s not in heads:
                raise Bad('a filling loop is not found')

        def opt(t):
            t = deref(t)
            while t.op == 'with':
                t = t.a[0]
            return t is given or t.op == 'phi' and F.phi_key[t][1][0] == root or any(y is given for y in terms_of(t)) or \
                t.op == 'agg' and last(t.a[0]) in ('None', 'Some')
        none = lambda fs: any(f.op == 'is' and f.a[1] == 'None' and opt(f.a[0]) for f in fs)
        dead = {i for i in range(len(F.n)) if none(F.n[i].facts or ())} if given is not None else set()
        exc = (lambda a, b, l: b in dead or none(F.edge_fset(a, b, l))) if given is not None else None
        inner = {}
        for s in sites:
            inner[s] = [t for t in sites if t != s and any(F.path_avoiding(heads[t], heads[s], None, x) for x in ents[t])
                        and any(F.path_avoiding(heads[t], heads[s], None, x) for x in ents[s])]
        for s in sites:
            act = set(W)
            for t in inner[s]:
                act |= heads[t]
            for x in ents[s]:
                if x in act or x in dead:
                    continue
                p = F.path_avoiding(set(okrets) | heads[s], act, exc, x)
                if p is not None:
                    raise Bad('an element can be left at zero: ' + fmt(F, p))
            for x in ents[s]:
                p = x not in dead and F.path_avoiding(set(okrets), heads[s], exc, x) or None
                if p is not None:
                    raise Bad('filling can stop early: ' + fmt(F, p))
        outer = [s for s in sites if not any(s in inner[t] for t in sites)]
        for s in outer:
            p = F.path_avoiding(set(okrets), heads[s], exc)
            if p is not None:
                raise Bad('the array can be returned unfilled: ' + fmt(F, p))


def shape_of(t):
    t = deref(t)
    if is_call(t, 'zeros') and len(t.a) >= 2:
        return t.a[1]
    if is_call(t, 'from_elem') and 'ArrayBase' in t.a[0]:
        return t.a[1]
    return None


class Unfilled(Exception):
    """a path on which a filling loop makes no step: nothing to read"""


def visited(p):
    out = set(p.nodes)
    for i in p.items:
        if isinstance(i, Loop):
            for b in i.body:
                out |= visited(b)
    return out


class Arrays:
    """what an array returned on a path holds"""

    def __init__(self, c, F):
        self.c, self.F = c, F
        self.ok = []
        for i, v in F.returns():
            if any(not (x.op == 'agg' and last(x.a[0]) == 'Err') for x in (F.phi_closure(v) if v.op == 'phi' else [v])):
                self.ok.append(i)
        self.fills = {}
        self.zero = {}

    def fill(self, t, given=None):
        F = self.F
        while t.op == 'with':
            t = t.a[0]
        if t.op != 'phi':
            return None
        root, path = F.phi_key[t][1]
        k = (root, path)
        if k not in self.fills:
            leaves = set()
            for ph, (n, kk) in F.phi_key.items():
                if kk == k:
                    leaves |= {x for x in F.phi_closure(ph)}
            if not any(shape_of(x) is not None for x in leaves):
                return None
            self.fills[k] = Fill(self.c, F, root, path, leaves, self.ok, given)
        return self.fills[k]

    def get(self, p, t, nd, given=None):
        """(shape terms, element value at K(0..)) of array term t on path p"""
        t = deref(t)
        f = self.fill(t, given)
        base = t
        while base.op == 'with':
            base = base.a[0]
        if f is None and shape_of(t) is not None:
            for g in list(self.fills.values()):
                if any(z is shape_of(t) or rebuild(z, p.env) is shape_of(t) for z in g.zs):
                    f = g
        if f is not None:
            on = visited(p)
            vs = {nf(rebuild(v, p.env)) for i, v in f.vals if i in on}
            if not vs:
                raise Unfilled()
            if len(vs) != 1:
                raise Bad('elements are stored in different ways')
            own = {shape_of(x) for x in self.F.phi_closure(base)} - {None} if base.op == 'phi' else {shape_of(base)}
            sh = {nf(rebuild(z, p.env)) for z in own or f.zs}
            sh = [tup(z) or [z] for z in sh]
            if len(sh) > 1 and len({tuple(x) for x in sh}) != 1:
                raise Bad('an array has several shapes')
            for d, s in f.dims.items():
                for y in {nf(rebuild(z, p.env)) for i, z in s if i in on}:
                    if not same_len(y, sh[0][d]):
                        raise Bad(f'dimension {d} has length {show(sh[0][d])[:60]} but {show(y)[:60]} elements are stored')
            return sh[0], vs.pop()
        if nd == 1:
            s = seq(self.c, self.F, p, t)
            return [nf(s.n)], nf(s.v)
        if is_call(t, 'select') and len(t.a) >= 4:
            k = axis(t.a[2])
            s = seq(self.c, self.F, p, t.a[3])
            A = nf(t.a[1])
            ix = [K(0), K(1)]
            ix[k] = subst(s.v, {K(0): K(k)})
            sh = [mk('dim', A, 0), mk('dim', A, 1)]
            sh[k] = s.n
            return [nf(x) for x in sh], nf(mk('idx', A, mk('agg', 'tuple', (), *ix)))
        if is_call(t, 'from_shape_fn'):
            sh = tup(t.a[1])
            return [nf(x) for x in sh], nf(apply(self.c, t.a[2], [mk('agg', 'tuple', (), K(0), K(1))]))
        raise Bad(f'the array {show(t)[:80]} is not understood')


def same_len(a, b):
    return a is b or lin(canon(a)) == lin(canon(b))


def canon(t):
    t = strip(t)
    if t.op == 'fld' and str(t.a[2]) in '01' and is_call(t.a[0], 'dim'):
        return mk('dim', nf(t.a[0].a[1]), int(t.a[2]))
    if is_call(t, 'nrows', 'ncols') and len(t.a) >= 2:
        return mk('dim', nf(t.a[1]), 0 if is_call(t, 'nrows') else 1)
    if is_call(t, 'len_of'):
        return mk('dim', nf(t.a[1]), axis(t.a[2]))
    if t.op == 'idx' and is_call(t.a[0], 'shape'):
        return mk('dim', nf(t.a[0].a[1]), constant(t.a[1]))
    if is_call(t, 'len') and len(t.a) >= 2:
        return mk('len', nf(t.a[1]))
    return nf(t)


def okpart(p):
    r = rebuild(p.ret, p.env) if p.ret is not None else None
    if r is None:
        return None
    if r.op == 'agg' and last(r.a[0]) == 'Ok':
        return r.a[2]
    if r.op == 'agg' and last(r.a[0]) == 'Err':
        return None
    if is_call(r, 'from_residual'):
        return None
    raise Bad(f'returns {show(r)[:80]}')


def option(t):
    """('None', None), ('Some', payload) of an option that may have been written into"""
    t = deref(t)
    w = None
    while t.op == 'with':
        for path, v in t.a[1]:
            if len(path) == 2 and path[0][:2] == ('d', 'Some') and w is None:
                w = v
        t = t.a[0]
    if t.op == 'agg' and last(t.a[0]) in ('None', 'Some'):
        return last(t.a[0]), (w if w is not None else t.a[2] if len(t.a) > 2 else None)
    if is_call(t, 'map') and 'Option' in t.a[0]:
        return 'map', t
    raise Bad(f'the option {show(t)[:80]} is not understood')


def says(p, t, v):
    fs = atoms(tuple(rebuild(f, p.env) for f in p.facts))
    return any(f.op == 'is' and f.a[1] == v and deref(f.a[0]) is t for f in fs)


# ---------------------------------------------------------------- rows
def lem_select(c, fn):
    F = c.ctx.flow(fn, ())
    a = {k: F.f.locals[k]['ty'] for k in range(1, F.f.argc + 1)}
    X = [k for k, t in a.items() if 'Dim<[usize; 2]>' in t or 'Array2' in t]
    Y = [k for k, t in a.items() if k not in X and ('Dim<[usize; 1]>' in t or 'Array1' in t) and 'Option' not in t]
    G = [k for k, t in a.items() if 'Option' in t]
    I = [k for k, t in a.items() if '[usize]' in t and k not in X + Y + G]
    if [len(z) for z in (X, Y, G, I)] != [1, 1, 1, 1]:
        raise Bad('unexpected parameters')
    X, Y, G, I = [mk_arg(F, z[0]) for z in (X, Y, G, I)]
    A = Arrays(c, F)
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = okpart(p)
        if r is None:
            continue
        t = tup(r)
        if t is None or len(t) != 3:
            return f'returns {show(r)[:80]}'
        n += 1
        LI = mk('len', I)
        try:
            m = selected(A, p, t, X, Y, G, I, LI)
        except Unfilled:
            n -= 1
            continue
        if m:
            return m
    return None if n else 'no rows are ever selected'


def selected(A, p, t, X, Y, G, I, LI):
    sh, v = A.get(p, t[0], 2)
    want = mk('idx', X, mk('agg', 'tuple', (), K(0), mk('idx', I, K(1))))
    if v is not want:
        return f'a selected feature is {show(v)[:120]}'
    if not same_len(canon(sh[0]), mk('dim', X, 0)) or not same_len(sh[1], LI):
        return f'the selected features have shape {[show(x)[:60] for x in sh]}'
    sh, v = A.get(p, t[1], 1)
    if v is not mk('idx', Y, mk('idx', I, K(0))) or not same_len(sh[0], LI):
        return f'a selected target is {show(v)[:120]}'
    o, w = option(t[2])
    if o == 'map':
        return 'weights are not understood'
    if not says(p, G, o):
        return f'weights are {o} whether or not they were given'
    if o == 'Some':
        sh, v = A.get(p, w, 1, G)
        if v is not mk('idx', mk('vf', G, 'Some', '0'), mk('idx', I, K(0))) or not same_len(sh[0], LI):
            return f'a selected weight is {show(v)[:120]}'
    return None


PERM = ('swap', 'shuffle', 'reverse', 'sort', 'sort_unstable', 'rotate_left', 'rotate_right')


def perm_of(F, p, t, n):
    """t is 0..n in some order"""
    seen, st = set(), [bare(t)]
    while st:
        x = bare(st.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            st += [y for _, y in F.phi_ops[x]]
        elif x.op == 'upd' and last(x.a[0]) in PERM:
            st.append(x.a[3])
        elif x.op == 'upd' and x.a[0].split('::')[-1].startswith('iter_mut'):
            return f'row numbers are changed in place'
        elif x.op == 'agg' and last(x.a[0]) == 'Range':
            if constant(x.a[2]) != 0 or rebuild(x.a[3], p.env) is not n:
                return f'row numbers are drawn from {show(x)[:60]}'
        else:
            return f'row numbers come from {show(x)[:80]}'
    return None


def piece(t, d=0):
    """(sequence, from, to) of a sub-slice; to None for the end"""
    t = bare(t)
    if is_call(t, 'index') and len(t.a) > 2:
        b, lo, hi = piece(t.a[1])
        r = t.a[2]
        k = last(r.a[0]) if r.op == 'agg' else None
        if k == 'RangeTo':
            return b, lo, plus(lo, lin(r.a[2]))
        if k == 'RangeFrom':
            return b, plus(lo, lin(r.a[2])), hi
        if k == 'Range':
            return b, plus(lo, lin(r.a[2])), plus(lo, lin(r.a[3]))
        raise Bad(f'the piece {show(t)[:80]}')
    if t.op == 'fld' and is_call(t.a[0], 'split_at'):
        b, lo, hi = piece(t.a[0].a[1])
        k = plus(lo, lin(t.a[0].a[2]))
        return (b, lo, k) if str(t.a[2]) == '0' else (b, k, hi)
    if is_call(t, 'take', 'skip') and len(t.a) >= 3:
        b, lo, hi = piece(t.a[1])
        k = plus(lo, lin(t.a[2]))
        return (b, lo, k) if is_call(t, 'take') else (b, k, hi)
    if is_call(t, 'split_off') and len(t.a) >= 3:
        b, lo, hi = piece(t.a[1])
        return b, plus(lo, lin(t.a[2])), hi
    if is_call(t, 'drain') and len(t.a) >= 3:
        return piece(mk('call', 'Index::index', t.a[1], t.a[2]))
    if t.op == 'upd' and last(t.a[0]) == 'split_off':
        b, lo, hi = piece(t.a[3])
        return b, lo, plus(lo, lin(t.a[4]))
    if t.op == 'upd' and last(t.a[0]) == 'truncate':
        b, lo, hi = piece(t.a[3])
        return b, lo, plus(lo, lin(t.a[4]))
    if t.op == 'upd' and last(t.a[0]) == 'drain':
        r = t.a[4]
        if r.op == 'agg' and (last(r.a[0]) == 'RangeTo' or last(r.a[0]) == 'Range' and constant(r.a[2]) == 0):
            b, lo, hi = piece(t.a[3])
            return b, plus(lo, lin(r.a[-1])), hi
    return t, {}, None


def fraction(t, vf, n):
    """t is the configured share of n rows, rounded; the share limited to [0, 0.9]"""
    t = strip(t)
    if not is_call(t, 'round'):
        return False
    m = t.a[1]
    if m.op != 'Mul':
        return False
    for a, b in ((m.a[0], m.a[1]), (m.a[1], m.a[0])):
        if strip(b) is n:
            if is_call(a, 'clamp') and a.a[1] is vf and num(a.a[2]) == 0 and num(a.a[3]) == 0.9:
                return True
            if is_call(a, 'min', 'max'):
                xs = a.a[1:3]
                o = [x for x in xs if num(x) is None]
                k = [num(x) for x in xs if num(x) is not None]
                if len(o) == 1 and is_call(o[0], 'max', 'min') and last(o[0].a[0]) != last(a.a[0]):
                    k2 = [num(x) for x in o[0].a[1:3] if num(x) is not None]
                    v = [x for x in o[0].a[1:3] if num(x) is None]
                    hi, lo = (k, k2) if is_call(a, 'min') else (k2, k)
                    if v == [vf] and hi == [0.9] and lo == [0.0]:
                        return True
    return False


def share(p, t, vf, n, fs):
    """t rows go to validation: the configured share, at most n - 1"""
    top = plus(lin(n), {1: 1}, -1)
    t = strip(t)
    if is_call(t, 'min') and len(t.a) >= 3:
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if fraction(a, vf, n) and lin(b) == top:
                return True
    if is_call(t, 'clamp') and len(t.a) >= 4 and fraction(t.a[1], vf, n) and constant(t.a[2]) == 0 and lin(t.a[3]) == top:
        return True
    for f in fs:
        if f.op in ('lt', 'le') and f.a[2:] in (('i',), ('u',), ()):
            a, b = strip(f.a[0]), strip(f.a[1])
            slack = 0 if f.op == 'le' else 1
            if fraction(t, vf, n) and a is t and plus(lin(b), {1: -slack} if slack else {}) == top:
                return True
            if lin(t) == top and fraction(b, vf, n) and plus(lin(a), {1: slack} if slack else {}) in (top, lin(n)):
                return True
    return False


def capped(cnt, vf, n, fs):
    """n - 1 rows, as the share would leave none"""
    top = plus(lin(n), {1: 1}, -1)
    return cnt == top and any(f.op in ('lt', 'le') and fraction(f.a[1], vf, n) and plus(lin(f.a[0]), {1: 1} if f.op == 'lt' else {}) in (top, lin(n))
                              for f in fs)


def lem_split(c, fn):
    F = c.ctx.flow(fn, ())
    n = mk_arg(F, arg_where(F, lambda t: t == 'usize'))
    vf = mk_arg(F, arg_where(F, lambda t: t == 'f64'))
    seed = mk_arg(F, arg_where(F, lambda t: t == 'u64'))
    k = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = rebuild(p.ret, p.env)
        fs = atoms(tuple(rebuild(f, p.env) for f in p.facts))
        if r.op != 'agg' or set(r.a[1]) != {'train', 'val'}:
            return f'returns {show(r)[:80]}'
        tr, va = [r.a[2 + r.a[1].index(x)] for x in ('train', 'val')]
        def zero(x):
            for f in fs:
                q = [strip(y) if isinstance(y, T) else y for y in f.a[:2]]
                if f.op == 'eq' and x in q and any(isinstance(y, T) and constant(y) == 0 for y in q) or \
                        f.op == 'lt' and q[0] is x and constant(q[1]) == 1 or f.op == 'le' and q[0] is x and constant(q[1]) == 0:
                    return True
            return False
        if empty(tr) and empty(va):
            if not zero(n):
                return 'rows are lost: both sets are empty'
            continue
        k += 1
        if empty(va):
            # nothing to validate on
            m = perm_of(F, p, tr, n)
            if m:
                return m
            ks = {strip(x) for f in fs for x in f.a[:2] if isinstance(x, T)}
            if not any(zero(x) and share(p, x, vf, n, fs) for x in ks) and not (any(zero(x) and fraction(x, vf, n) for x in ks)):
                if any(f.op == 'le' and strip(f.a[0]) is n and constant(f.a[1]) == 1 or f.op == 'eq' and n in f.a[:2] and
                       any(constant(y) == 1 for y in f.a[:2] if isinstance(y, T)) or f.op == 'lt' and f.a[0] is n and constant(f.a[1]) == 2 for f in fs):
                    continue
                if any(f.op == 'le' and f.a[0] is vf and num(f.a[1]) == 0 or f.op == 'eq' and vf in f.a[:2] and any(num(y) == 0 for y in f.a[:2]) for f in fs):
                    continue
                return 'a split with rows to validate on gives none'
            continue
        (b1, l1, h1), (b2, l2, h2) = piece(tr), piece(va)
        if b1 is not b2 and not same_base(b1, b2):
            return 'training and validation rows come from different orders'
        m = perm_of(F, p, b1, n)
        if m:
            return m
        if l1 == {} and h2 is None and h1 is not None and h1 == l2:
            cnt = plus(lin(n), l2, -1)
        elif l2 == {} and h1 is None and h2 is not None and h2 == l1:
            cnt = l1
        else:
            return 'training and validation rows overlap or leave rows out'
        if not (len(cnt) == 1 and list(cnt.values()) == [1] and share(p, list(cnt)[0], vf, n, fs)) and not capped(cnt, vf, n, fs):
            return f'the number of validation rows is {[(show(x)[:80] if isinstance(x, T) else x, y) for x, y in cnt.items()]}'
        for e, x, en in calls_in(p.items):
            if e.cn and last(e.cn) in ('with_seed', 'seed') and 'Rng' in e.cn:
                v = rebuild(e.args[-1], en)
                if any(y.op == 'call' or y.op == 'cast' for y in terms_of(v)) or seed not in terms_of(v):
                    return f'rows are shuffled with seed {show(v)[:60]}'
        if any(e.cn and 'Rng' in e.cn and last(e.cn) in ('new', 'default', 'fork') and 'Range' not in e.cn for e, x, en in calls_in(p.items)):
            return 'rows are shuffled with an unseeded generator'
    return None if k >= 2 else 'no split is made'


def same_base(a, b):
    """the same order, one of them after a piece was taken off"""
    return False


def lem_train_val(c, fn):
    F = c.ctx.flow(fn, ('with_weights_and_names', 'select_rows'))
    D = mk_arg(F, arg_where(F, lambda t: 'Dataset' in t))
    W = mk_arg(F, arg_where(F, lambda t: 'Option' in t))
    N = mk_arg(F, arg_where(F, lambda t: 'String' in t))
    S = mk_arg(F, arg_where(F, lambda t: 'WasmSplitIndices' in t))
    k = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = okpart(p)
        if r is None:
            continue
        t = tup(r)
        k += 1

        def ds(x, which):
            x = deref(x)
            if not is_call(x, 'with_weights_and_names'):
                return f'the {which} data is {show(x)[:80]}'
            for j, y in enumerate(x.a[1:4]):
                if not (y.op == 'fld' and str(y.a[2]) == str(j) and y.a[0].op == 'vf' and y.a[0].a[1] == 'Ok' and is_call(y.a[0].a[0], 'select_rows')):
                    return f'the {which} data is built from {show(y)[:80]}'
                q = [bare(z) for z in y.a[0].a[0].a[1:5] if isinstance(z, T)]
                ok = len(q) == 4 and is_fld(q[0], 'x') and q[0].a[0] is D and is_fld(q[1], 'y') and q[1].a[0] is D and q[2] is W and \
                    is_fld(q[3], which) and q[3].a[0] is S
                if not ok:
                    return f'the {which} rows are selected by {show(y.a[0].a[0])[:160]}'
            if bare(x.a[4]) is not N:
                return f'the {which} columns are named {show(x.a[4])[:60]}'
            return None
        m = ds(t[0], 'train')
        if m:
            return m
        fs = {nf(f) for f in atoms(tuple(rebuild(f, p.env) for f in p.facts))}
        o, v = option(t[1])
        lv = mk('len', mk('fld', S, [x for x in terms_of(p.ret) | {z for f in fs for z in terms_of(f)} if is_fld(x, 'val') or is_fld(x, 'train')][0].a[1], 'val'))
        if o == 'None':
            if not any(f.op == 'eq' and lv in f.a[:2] and any(constant(y) == 0 for y in f.a[:2]) or
                       f.op in ('lt', 'le') and f.a[0] is lv and constant(f.a[1]) == (1 if f.op == 'lt' else 0) for f in fs):
                return 'validation rows are set aside but not kept'
        else:
            m = ds(v, 'val')
            if m:
                return m
    return None if k else 'nothing is split'


# ---------------------------------------------------------------- tables
def lem_parse(c, fn):
    F = c.ctx.flow(fn, ())
    txt = mk_arg(F, arg_where(F, lambda t: 'str' in t))
    hh = mk_arg(F, arg_where(F, lambda t: t == 'bool'))
    k = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = okpart(p)
        if r is None:
            continue
        k += 1
        t = tup(r)

        def reader(x):
            """the configured reader a record source belongs to"""
            x = deref(x)
            while True:
                if x.op == 'upd':
                    x = deref(x.a[3])
                elif is_call(x, 'records', 'into_records', 'headers', 'iter', 'into_iter', 'by_ref', 'clone') and len(x.a) >= 2:
                    x = deref(x.a[1])
                elif x.op == 'vf' and x.a[1] == 'Ok':
                    x = deref(x.a[0])
                else:
                    break
            if not is_call(x, 'from_reader') or txt not in terms_of(x):
                return f'rows are read from {show(x)[:80]}'
            b = deref(x.a[1])
            seen = {}
            while is_call(b, 'has_headers', 'trim', 'flexible', 'delimiter', 'comment', 'quote') or b.op == 'upd':
                seen.setdefault(last(b.a[0]), b)
                b = deref(b.a[3] if b.op == 'upd' else b.a[1])
            h = seen.get('has_headers')
            if h is None or (h.a[4] if h.op == 'upd' else h.a[2]) is not hh:
                return 'the header row setting is not the given one'
            return None
        R = deref(t[1])
        done = False
        if R.op == 'phi':
            for L in loops_in(p):
                if R in (L.accs or ()) and empty(L.entries[R]) and ended(p.facts, L) and is_call(bare(L.src), 'records', 'into_records'):
                    m = reader(bare(L.src))
                    if m:
                        return m
                    el = mk('vf', mk('elem', bare(L.src), L.site), 'Ok', '0')
                    for b in L.body:
                        if impossible(b.facts):
                            continue
                        base, v = pushed(accs_of(F, L, b).get(R, R))
                        if base is not R:
                            return 'a row of the table is dropped'
                        m = row_of(c, F, b, v)
                        if m:
                            return m
                    done = True
        if not done:
            return f'the rows of the table are {show(R)[:80]}'
        H = deref(t[0])
        fs = set(p.facts)
        if not empty(H):
            if H.op == 'phi':
                ok = False
                for L in loops_in(p):
                    if H in (L.accs or ()) and empty(L.entries[H]) and ended(p.facts, L):
                        bs = [b for b in L.body if not impossible(b.facts)]
                        vs = [pushed(accs_of(F, L, b).get(H, H)) for b in bs]
                        ok = bool(vs) and all(b is H and bare_str(v).op == 'elem' and bare_str(v).a[1] == L.site for b, v in vs) and reader(bare(L.src)) is None
                if not ok:
                    return 'the column names are not the header row'
            else:
                return f'the column names are {show(H)[:80]}'
        elif hh in fs:
            return 'the header row is thrown away'
    return None if k >= 2 else 'nothing is read'


def bare_str(v):
    while is_call(v, 'to_string', 'to_owned', 'into', 'from', 'clone') and len(v.a) >= 2:
        v = v.a[1]
    return v


def row_of(c, F, b, v):
    v = deref(v)
    if v.op == 'phi':
        for L in loops_in(b):
            if v in (L.accs or ()):
                if not empty(L.entries[v]) or not any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and f.a[0].a[1] == L.site for f in b.facts):
                    return 'a row can be cut short'
                for q in L.body:
                    if impossible(q.facts):
                        continue
                    base, x = pushed(accs_of(F, L, q).get(v, v))
                    if base is not v:
                        return 'a cell of a row is dropped'
                    x = deref(x)
                    if not (x.op == 'vf' and x.a[1] == 'Ok' and is_call(x.a[0], 'parse') and bare_str(deref(x.a[0].a[1])).op == 'elem'
                            and deref(x.a[0].a[1]).a[1] == L.site):
                        return f'a cell is read as {show(x)[:80]}'
                return None
    if v.op == 'vf' and v.a[1] == 'Ok' and is_call(v.a[0], 'collect', 'try_collect', 'from_iter'):
        m = deref(v.a[0].a[1])
        if is_call(m, 'map') and len(m.a) >= 3 and deref(m.a[2]).op == 'agg':
            s = bare(m.a[1])
            good = True
            for x in results(c, m.a[2], [K(0)]):
                x = peel(x)
                if x.op == 'agg' and last(x.a[0]) == 'Err':
                    continue
                if x.op == 'agg' and last(x.a[0]) == 'Ok' and x.a[2].op == 'vf' and x.a[2].a[1] == 'Ok':
                    x = x.a[2].a[0]
                good = good and is_call(x, 'parse') and bare_str(bare(x.a[1])) is K(0)
            if good and s.op == 'vf' and s.a[1] == 'Ok' and s.a[0].op == 'elem':
                return None
    return f'a row is {show(v)[:80]}'


def lem_build(c, fn):
    F = c.ctx.flow(fn, ('with_weights_and_names',))
    a = {k: F.f.locals[k]['ty'] for k in range(1, F.f.argc + 1)}
    H = mk_arg(F, arg_where(F, lambda t: 'String' in t))
    R = mk_arg(F, arg_where(F, lambda t: 'Vec<f64>' in t))
    O = mk_arg(F, arg_where(F, lambda t: 'WasmSearchOptions' in t))
    A = Arrays(c, F)
    ps = [(p, okpart(p)) for p in rets(F) if not impossible(p.facts)]
    ps = [(p, r) for p, r in ps if r is not None]
    if not ps:
        return 'no table is ever accepted'
    # verify the fills first
    k = 0
    for p, r in ps:
        t = tup(r)
        if t is None or len(t) != 3 or not is_call(deref(t[0]), 'with_weights_and_names'):
            return f'returns {show(r)[:80]}'
        for x in deref(t[0]).a[1:3]:
            A.fill(deref(x))
    for p, r in ps:
        try:
            m = table(c, F, A, p, tup(r), H, R, O)
        except Unfilled:
            continue
        k += 1
        if m:
            return m
    return None if k else 'no table is ever filled'


def table(c, F, A, p, t, H, R, O):
    fs0 = tuple(rebuild(f, p.env) for f in p.facts)
    fs = {nf(f) for f in atoms(fs0)}
    fs |= atoms(fs)
    opt = lambda n: [x for f in fs0 for x in terms_of(f) if is_fld(x, n) and x.a[0] is O]
    field = lambda n: mk('fld', O, [x.a[1] for f in fs0 for x in terms_of(f) if x.op == 'fld' and x.a[0] is O][0], n)
    ds = deref(t[0])
    X, Y, N0, NM = ds.a[1:5]
    sh, v = A.get(p, X, 2)
    # features
    if not (v.op == 'idx' and v.a[0] is mk('idx', R, K(1)) and v.a[1].op == 'idx' and v.a[1].a[1] is K(0)):
        return f'a feature is {show(v)[:120]}'
    XC = v.a[1].a[0]
    nrows = mk('len', R)
    if not same_len(sh[0], mk('len', XC)) or not same_len(sh[1], nrows):
        return f'the features have shape {[show(z)[:60] for z in sh]}'
    sh, v = A.get(p, Y, 1)
    if not (v.op == 'idx' and v.a[0] is mk('idx', R, K(0)) and same_len(sh[0], nrows)):
        return f'a target is {show(v)[:120]}'
    yc = v.a[1]
    ncol = columns(F, p, fs, R)
    if ncol is None:
        return 'a table with rows of different lengths is accepted'
    if not (mk('ne', const(0), nrows, 'i') in fs or any(f.op in ('ne', 'lt') and nrows in f.a[:2] and any(isinstance(y, T) and constant(y) == 0 for y in f.a[:2]) for f in fs)):
        return 'a table without rows is accepted'
    Nn = canon(ncol)
    lt = lambda x: any(f.op == 'lt' and nf(f.a[0]) is x and canon(f.a[1]) is Nn for f in fs)
    ycf = field('y_column')
    if mk('is', ycf, 'Some') in fs:
        if yc is not mk('vf', ycf, 'Some', '0'):
            return f'the target column is {show(yc)[:80]}'
        if not lt(yc):
            return 'a target column outside the table is accepted'
    elif is_call(yc, 'unwrap_or'):
        if yc.a[1] is not ycf or lin(canon1(yc.a[2])) != plus(lin(Nn), {1: 1}, -1) or not lt(yc):
            return f'the target column is {show(yc)[:80]}'
    elif lin(canon1(yc)) != plus(lin(Nn), {1: 1}, -1):
        return f'the default target column is {show(yc)[:80]}'
    wcf = field('weights_column')
    o, w = option(t[2])
    if not (mk('is', wcf, o) in fs):
        return f'weights are {o} whether or not a weights column was chosen'
    o2, _ = option(N0) if N0.op in ('agg', 'with') else ('?', 0)
    if o2 != 'None' and not (o2 == o):
        return f'the data set has weights {show(N0)[:60]}'
    wc = mk('vf', wcf, 'Some', '0')
    if o == 'Some':
        sh, v = A.get(p, w, 1, wcf)
        if v is not mk('idx', mk('idx', R, K(0)), wc) or not same_len(sh[0], nrows):
            return f'a weight is {show(v)[:120]}'
        if not lt(wc):
            return 'a weights column outside the table is accepted'
        if not any(f.op == 'ne' and {f.a[0], f.a[1]} == {wc, yc} for f in fs):
            return 'the target column is accepted as weights column'
    # feature columns
    xf = field('x_columns')
    base = XC
    fams = [base]
    while base.op == 'upd' and last(base.a[0]) in ('sort', 'sort_unstable', 'dedup'):
        base = base.a[3]
        fams.append(base)
    given = mk('is', xf, 'Some') in fs
    nonempty = any(f.op in ('ne', 'lt') and any(g in f.a[:2] for g in [mk('len', z) for z in fams]) and any(isinstance(y, T) and constant(y) == 0 for y in f.a[:2]) for f in fs) or \
        any(f.op == 'not' and is_call(f.a[0], 'is_empty') and nf(f.a[0].a[1]) in fams for f in fs)
    if not nonempty:
        return 'no feature column is accepted'
    made = default_columns(F, p, base, Nn, yc, wc if o == 'Some' else None, wcf) if not given else None
    if given:
        if base is not mk('vf', xf, 'Some', '0'):
            return f'the feature columns are {show(base)[:80]}'
    elif made is not None and made != 'fine':
        return made
    if made == 'fine':
        return names(c, F, p, NM, t[1], XC, H, Nn, fs)

    def every(pred, call=None):
        for L in loops_in(p):
            if nf(L.src) in fams and ended(p.facts, L):
                el = mk('elem', bare(L.src), L.site)
                ok = True
                for b in L.body:
                    if impossible(b.facts):
                        continue
                    bf = atoms(tuple(rebuild(f, b.env) for f in b.facts))
                    if not any(pred(f, el) for f in bf):
                        ok = False
                if ok:
                    return True
        return call is not None and any(f.op == 'not' and is_call(f.a[0], 'contains') and nf(f.a[0].a[1]) in fams and nf(f.a[0].a[2]) is call for f in fs) or \
            call is not None and any(f.op == 'is' and f.a[1] in ('Err', 'None') and is_call(f.a[0], 'binary_search', 'position', 'find') and nf(f.a[0].a[1]) in fams and len(f.a[0].a) > 2 and nf(f.a[0].a[2]) is call for f in fs)

    def largest():
        # sorted: the last is the largest
        if not any(x.op == 'upd' and last(x.a[0]) in ('sort', 'sort_unstable') for x in fams):
            return False
        tops = [x for x in fams if x.op == 'upd' and last(x.a[0]) in ('sort', 'sort_unstable', 'dedup')]
        for f in fs:
            if f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'last', 'first') and nf(f.a[0].a[1]) in fams:
                return True              # not empty, as shown above
            if f.op == 'lt' and canon(f.a[1]) is Nn:
                v = f.a[0]
                if v.op == 'vf' and v.a[1] == 'Some' and is_call(v.a[0], 'last') and nf(v.a[0].a[1]) in tops:
                    return True
                if v.op == 'idx' and v.a[0] in tops and lin(canon1(v.a[1])) == plus({mk('len', v.a[0]): 1}, {1: 1}, -1):
                    return True
        return False
    if not every(lambda f, el: f.op == 'lt' and f.a[0] is el and canon(f.a[1]) is Nn) and not largest():
        return 'a feature column outside the table is accepted'
    if not every(lambda f, el: f.op == 'ne' and el in f.a[:2] and yc in tuple(nf(z) for z in f.a[:2]), yc):
        return 'the target column is accepted as a feature'
    if o == 'Some' and not every(lambda f, el: f.op == 'ne' and el in f.a[:2] and wc in tuple(nf(z) for z in f.a[:2]), wc):
        return 'the weights column is accepted as a feature'
    return names(c, F, p, NM, t[1], XC, H, Nn, fs)


def canon1(t):
    t = strip(t)
    if t.op in ('Sub', 'Add'):
        return mk(t.op, canon(t.a[0]), canon(t.a[1]))
    if is_call(t, 'saturating_sub', 'wrapping_sub'):
        return mk('Sub', canon(t.a[1]), canon(t.a[2]))
    return canon(t)


def columns(F, p, fs, R):
    """the number of columns every row is known to have"""
    for L in loops_in(p):
        if nf(L.src) is R or is_call(L.src, 'enumerate', 'skip') and nf(L.src.a[1]) is R:
            if not ended(p.facts, L):
                continue
            skip = is_call(L.src, 'skip')
            el = mk('elem', R, L.site)
            ns = None
            for b in L.body:
                if impossible(b.facts):
                    continue
                bf = {nf(f) for f in atoms(tuple(rebuild(f, b.env) for f in b.facts))}
                got = set()
                for f in bf:
                    if f.op == 'eq' and len(f.a) > 2:
                        for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                            if x.op == 'len' and x.a[0].op == 'elem' and x.a[0].a[1] == L.site and not (y.op == 'len' and y.a[0].op == 'elem'):
                                got.add(y)
                ns = got if ns is None else ns & got
            if ns:
                y = ns.pop()
                if y is mk('len', mk('idx', R, const(0))) or y.op == 'len':
                    return y
                return y
    return None


def default_columns(F, p, base, Nn, yc, wc, wcf):
    """by default, every column that is neither target nor weights"""
    if base.op != 'phi':
        return f'the default feature columns are {show(base)[:80]}'
    for L in loops_in(p):
        if base in (L.accs or ()):
            s = bare(L.src)
            if not (empty(L.entries[base]) and ended(p.facts, L) and s.op == 'agg' and last(s.a[0]) == 'Range' and constant(s.a[2]) == 0 and canon(s.a[3]) is Nn):
                continue
            el = nf(mk('elem', s, L.site))
            for b in L.body:
                if impossible(b.facts):
                    continue
                bf = {nf(f) for f in atoms(tuple(rebuild(f, b.env) for f in b.facts))}
                bf |= set(p.facts)
                if wc is None and any((f.op == 'eq' or is_call(f, 'eq')) and any(y.op == 'agg' and last(y.a[0]) == 'Some' for y in f.a if isinstance(y, T)) and wcf in f.a for f in bf):
                    continue             # nothing equals no weights column
                v = accs_of(F, L, b).get(base, base)
                isy = any(f.op == 'eq' and el in f.a[:2] and yc in f.a[:2] for f in bf)
                noty = any(f.op == 'ne' and el in f.a[:2] and yc in f.a[:2] for f in bf)
                isw = wc is not None and any(f.op == 'eq' and el in f.a[:2] and wc in f.a[:2] for f in bf)
                notw = wc is None or any(f.op == 'ne' and el in f.a[:2] and wc in f.a[:2] for f in bf) or \
                    any(f.op == 'not' and is_call(f.a[0], 'eq') and el in terms_of(f) and wcf in terms_of(f) for f in bf) or \
                    any(f.op == 'ne' and el in terms_of(f) and wcf in terms_of(f) for f in bf)
                isw = isw or wc is not None and any((f.op == 'eq' or is_call(f, 'eq')) and el in terms_of(f) and wcf in terms_of(f) for f in bf)
                q, x = pushed(v)
                if q is base and nf(x) is el:
                    if not noty or not notw:
                        return 'the default feature columns include the target or the weights'
                elif v is base:
                    if not isy and not isw:
                        return 'a column is left out by default'
                else:
                    return f'the default feature columns are {show(v)[:80]}'
            return 'fine'
    return f'the default feature columns are {show(base)[:80]}'


def names(c, F, p, NM, NM2, XC, H, Nn, fs):
    if nf(NM) is not nf(NM2):
        return 'the data set and the caller get different column names'
    s = seq(c, F, p, NM)
    if not same_len(nf(s.n), mk('len', XC)):
        return f'there are {show(s.n)[:60]} column names'
    for v, bf in s.alts:
        v = nf(bare_str(v))
        fs1 = set(fs) | {nf(f) for f in atoms(bf)}
        if H in terms_of(v):
            if v is not mk('idx', H, mk('idx', XC, K(0))):
                return f'a column is named {show(v)[:100]}'
            if not any(f.op == 'eq' and len(f.a) > 2 and isinstance(f.a[1], T) and {canon(f.a[0]), canon(f.a[1])} == {mk('len', H), Nn} for f in fs1):
                return 'headers of another width name the columns'
        elif K(0) not in terms_of(v):
            return f'every column is named {show(v)[:100]}'
    return None


def lem_new(c, fn):
    OP = ('parse_csv_to_rows', 'build_full_dataset', 'make_split_indices', 'split_train_val', 'options_from_wasm', 'SearchEngine::new', 'from_names_by_arity', 'from_value')
    F = c.ctx.flow(fn, OP)
    k = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = rebuild(p.ret, p.env)
        if r.op != 'agg' or last(r.a[0]) != 'Ok':
            continue
        r = r.a[2]
        k += 1
        g = lambda n: r.a[2 + r.a[1].index(n)]
        okv = lambda t, n: t.op == 'vf' and t.a[1] == 'Ok' and is_call(peel(t.a[0]), n)
        e, v, s = g('engine'), g('val_dataset'), g('split')
        if not is_call(e, 'new') or 'SearchEngine' not in e.a[0]:
            return f'the engine is {show(e)[:80]}'
        tv = [deref(e.a[1]), deref(v)]
        for x, i, w in ((tv[0], '0', 'training'), (tv[1], '1', 'validation')):
            if not (x.op == 'fld' and str(x.a[2]) == i and okv(x.a[0], 'split_train_val')):
                return f'the {w} data is {show(x)[:100]}'
        if tv[0].a[0] is not tv[1].a[0]:
            return 'training and validation data come from two splits'
        sp = peel(tv[0].a[0].a[0])
        args = [whole(p, bare(z)) for z in sp.a[1:5]]
        b = args[0].a[0] if args[0].op == 'fld' else None
        if b is None or not okv(b, 'build_full_dataset') or [str(z.a[2]) if z.op == 'fld' and z.a[0] is b else None for z in (args[0], args[1], args[2])] != ['0', '2', '1']:
            return f'the split is made from {[show(z)[:60] for z in args]}'
        if args[3] is not bare(s) or not is_call(bare(s), 'make_split_indices'):
            return f'the reported split is {show(s)[:80]}'
        q = bare(s)
        opts = [bare(z) for z in peel(b.a[0]).a[1:4]]
        pr = opts[0].a[0] if opts[0].op == 'fld' else None
        if pr is None or not okv(pr, 'parse_csv_to_rows') or [str(z.a[2]) if z.op == 'fld' and z.a[0] is pr else None for z in opts[:2]] != ['0', '1']:
            return f'the table is built from {[show(z)[:60] for z in opts]}'
        OPT = opts[2]
        pc = [bare(z) for z in peel(pr.a[0]).a[1:3]]
        if not (pc[0].op == 'arg' and flag(p, pc[1], 'has_headers', OPT)):
            return f'the table is read from {[show(z)[:60] for z in pc]}'
        if not (is_fld(q.a[1], 'n_rows') and bare(q.a[1].a[0]) is args[0] and flag(p, q.a[2], 'validation_fraction', OPT) and
                seed_of(p, q.a[3], OPT)):
            return f'the split is made with {[show(z)[:60] for z in q.a[1:4]]}'
        ofw = e.a[2]
        if not (okv(ofw, 'options_from_wasm') and bare(peel(ofw.a[0]).a[1]) is OPT):
            return f'the engine runs with {show(ofw)[:80]}'
    return None if k else 'no search is ever made'


def whole(p, t):
    """an option passed on as Some(its content) or None"""
    if t.op == 'agg' and last(t.a[0]) == 'Some' and len(t.a) > 2:
        x = bare(t.a[2])
        if x.op == 'vf' and x.a[1] == 'Some':
            return bare(x.a[0])
    if t.op == 'agg' and last(t.a[0]) == 'None':
        for f in atoms(tuple(rebuild(f, p.env) for f in p.facts)):
            if f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'fld':
                return bare(f.a[0])
    return t


def flag(p, t, name, of):
    """t is of's switch `name`, or its known value"""
    if is_fld(t, name):
        return bare(t.a[0]) is of
    if of.op == 'agg' and name in (of.a[1] or ()):
        return of.a[2 + of.a[1].index(name)] is t
    v = constant(t)
    for f in p.facts:
        neg_ = f.op == 'not'
        x = rebuild(f.a[0] if neg_ else f, p.env)
        if is_fld(x, name) and bare(x.a[0]) is of and v == (0 if neg_ else 1):
            return True
    return False


def seed_of(p, t, opt):
    if is_fld(t, 'seed'):
        x = bare(t.a[0])
        return x is opt or x.op == 'fld' and bare(x.a[0]) is opt
    if opt.op == 'agg':
        for x in opt.a[2:]:
            x = deref(x)
            if x.op == 'agg' and 'seed' in (x.a[1] or ()) and x.a[2 + x.a[1].index('seed')] is t:
                return True
            if is_fld(t, 'seed') and t.a[0] is x:
                return True
    return False


def peel(t):
    """without error conversions"""
    while is_call(t, 'map_err') and len(t.a) >= 2:
        t = t.a[1]
    return t


@rule('P26', 'the table, split and selection functions of the browser crate read path by path over MIR: every array element as a function of its index, loop coverage over the '
      'control-flow graph, column tests from the facts of every accepting path', [
    'the csv crate yields the records and fields of the text', 'a shuffle by swaps keeps the elements',
    'Dataset constructors store what they are given (rule P25)'])
def p26(c):
    for suf, lem in (('wasm::parse_csv_to_rows', lem_parse), ('wasm::build_full_dataset', lem_build), ('wasm::make_split_indices', lem_split),
                     ('wasm::split_train_val', lem_train_val), ('wasm::select_rows', lem_select), ('WasmSearch::new', lem_new)):
        f = fn_named(c, suf)
        m = run(lem, c, f)
        c.ob(suf.split('::')[-1], m is None, f['id'], m)


def fn_named(c, suf):
    try:
        f = c.p.fn(suf)
        if f:
            return f
    except Exception:
        pass
    return one(c, suf)
