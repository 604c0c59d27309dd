"""Loop bodies as transition relations: every path through one iteration gives (branch facts, new values of the
loop-carried state). Rules judge them by case analysis over the orderings of the values involved, so the form of
the loop (match, if chain, early continue) does not matter."""
from .term import T, mk, show
from .mir import Missing


class Unknown(Exception):
    pass


def subst(t, m, d=0):
    """replace terms everywhere inside t (phis of the path)"""
    if t in m:
        r = m[t]
        return subst(r, m, d + 1) if r is not t and d < 40 else r
    ch = False
    na = []
    for x in t.a:
        if isinstance(x, T):
            y = subst(x, m, d)
            ch |= y is not x
            na.append(y)
        elif isinstance(x, tuple) and any(isinstance(z, T) or isinstance(z, tuple) for z in x):
            y = _subt(x, m, d)
            ch |= y != x
            na.append(y)
        else:
            na.append(x)
    if not ch:
        return t
    from .flow import Flow
    r = mk(t.op, *na)
    return r


def _subt(x, m, d):
    return tuple(subst(z, m, d) if isinstance(z, T) else _subt(z, m, d) if isinstance(z, tuple) else z for z in x)


def paths(F, start, stop, lim=4000):
    """acyclic paths from start to nodes satisfying stop (start excluded): (nodes, facts, env)"""
    out = []
    st = [((start,), (), {})]
    byn = {}
    for ph, ops in F.phi_ops.items():
        byn.setdefault(F.phi_key[ph][0], []).append((ph, dict(ops)))
    while st:
        p, fs, env = st.pop()
        x = p[-1]
        if len(out) + len(st) > lim:
            raise Missing('too many paths through a loop body')
        for s, l in F.n[x].succ:
            f2 = fs + tuple(subst(f, env) for f in F.edge_facts(x, l))
            if stop(s):
                out.append((p + (s,), f2, env))
                continue
            if s in p:
                continue
            e2 = env
            for ph, ops in byn.get(s, ()):
                if x in ops:
                    if e2 is env:
                        e2 = dict(env)
                    e2[ph] = subst(ops[x], env)
            st.append((p + (s,), f2, e2))
        if not F.n[x].succ:
            out.append((p, fs, env))
    return out


class Loop:
    """one source-level loop: its (exploded) header nodes, transitions and exits"""

    def __init__(self, F, hblock):
        self.F = F
        self.hb = hblock
        self.heads = [i for i in F.rpo if F.n[i].b == hblock]
        body = F.bodies[hblock]
        self.body = body

    def state(self, h, root, path=()):
        F = self.F
        return F.resolve(F.n[h].inst, F.read_whole(F.n[h].inst, root, path))

    def out(self, x, env, root, path=()):
        F = self.F
        return subst(F.resolve(F.n[x].outst, F.read_whole(F.n[x].outst, root, path)), env)

    def steps(self):
        """(header, facts, last node, env, next header)"""
        F = self.F
        hs = set(self.heads)
        for h in self.heads:
            for p, fs, env in paths(F, h, lambda s: s in hs or F.n[s].b not in self.body):
                if p[-1] in hs:
                    yield h, fs, p[-2], env, p[-1]

    def entries(self):
        F = self.F
        for h in self.heads:
            for x in F.rpo:
                if any(s == h for s, _ in F.n[x].succ) and F.n[x].b not in self.body:
                    yield x, h


def loop_of(F, root, path=()):
    """the loop whose header carries the state location"""
    c = [b for b in F.bodies if any(F.phi_key[ph] == (i, (root, path)) for ph in F.phi_ops for i in [F.phi_key[ph][0]] if F.n[i].b == b)]
    if not c:
        raise Missing('no loop carries the result')
    return Loop(F, sorted(c, key=lambda b: len(F.bodies[b]))[0])


def ev(t, leaf):
    """evaluate a term over a finite case: Options as None/('Some', x), tuples as python tuples"""
    r = leaf(t)
    if r is not None:
        return r[0]
    o = t.op
    if o == 'const':
        return t.a[0]
    if o == 'agg' and t.a[0].endswith('::None'):
        return ('None',)
    if o == 'agg' and t.a[0].endswith('::Some'):
        return ('Some', ev(t.a[2], leaf))
    if o == 'agg' and t.a[0] == 'tuple':
        return tuple(ev(x, leaf) for x in t.a[2:])
    if o == 'tuple':
        return tuple(ev(x, leaf) for x in t.a)
    if o == 'fld' and str(t.a[2]).isdigit():
        b = ev(t.a[0], leaf)
        if isinstance(b, tuple) and int(t.a[2]) < len(b):
            return b[int(t.a[2])]
        raise Unknown(t)
    if o == 'vf':
        b = ev(t.a[0], leaf)
        if isinstance(b, tuple) and b and b[0] == t.a[1] and str(t.a[2]).isdigit():
            return b[1 + int(t.a[2])]
        raise Unknown(t)
    if o == 'is':
        b = ev(t.a[0], leaf)
        if isinstance(b, tuple) and b and b[0] in ('Some', 'None'):
            return b[0] == t.a[1]
        raise Unknown(t)
    if o == 'not':
        return not ev(t.a[0], leaf)
    if o in ('lt', 'le', 'eq', 'ne'):
        a, b = ev(t.a[0], leaf), ev(t.a[1], leaf)
        return {'lt': lambda: a < b, 'le': lambda: a <= b, 'eq': lambda: a == b, 'ne': lambda: a != b}[o]()
    if o in ('and', 'BitAnd'):
        return bool(ev(t.a[0], leaf)) and bool(ev(t.a[1], leaf))
    if o in ('or', 'BitOr'):
        return bool(ev(t.a[0], leaf)) or bool(ev(t.a[1], leaf))
    if o == 'cast':
        return ev(t.a[0], leaf)
    raise Unknown(t)


def feasible(facts, leaf):
    """every fact that can be evaluated holds in the case"""
    for f in facts:
        try:
            if not ev(f, leaf):
                return False
        except Unknown:
            pass
    return True
