"""Trees of paths: the acyclic paths of an inlined flow, each loop kept as one node holding the paths of one
iteration.  Facts a caller can decide (`decide`) prune the tree, so a caller fixes a finite shape (arity, operand
variants, option flags) and reads off what the code does for it."""
from .term import T, mk, show
from .rulelib import _DUMMY
from .algebra import Unknown


def rebuild(t, env, memo=None):
    """replace terms and re-apply projections to what they became"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    memo[t] = t
    if t in env:
        v = env[t]
        r = rebuild(v, env, memo) if v is not t else t
        memo[t] = r
        return r
    na, ch = [], False
    for x in t.a:
        y = reb(x, env, memo)
        ch |= y is not x
        na.append(y)
    r = t
    if ch:
        b = na[0]
        if t.op == 'fld':
            r = _DUMMY.proj1(b, ('f', na[1], na[2]))
        elif t.op == 'idx' and isinstance(na[1], T):
            r = _DUMMY.proj1(b, ('i', na[1]))
        elif t.op == 'vf':
            r = vf(b, na[1], na[2])
        elif t.op == 'dc':
            r = mk('dc', *na)
        else:
            r = mk(t.op, *na)
    memo[t] = r
    return r


def vf(b, variant, f):
    if b.op == 'agg' and b.a[0].split('::')[-1] == variant and f in b.a[1]:
        return b.a[2 + b.a[1].index(f)]
    return _DUMMY.vfield(b, variant, f)


def reb(x, env, memo):
    if isinstance(x, T):
        return rebuild(x, env, memo)
    if isinstance(x, tuple) and x:
        y = tuple(reb(z, env, memo) for z in x)
        return y if any(a is not b for a, b in zip(x, y)) else x
    return x


class Path:
    __slots__ = ('nodes', 'facts', 'items', 'env', 'ret', 'end', 'hist')

    def __init__(self, nodes, facts, items, env, ret, end, hist=()):
        self.hist = hist
        self.nodes, self.facts, self.items, self.env, self.ret, self.end = nodes, facts, items, env, ret, end


class Loop:
    __slots__ = ('h', 'src', 'site', 'body', 'node', 'accs', 'normal', 'exit', 'entries')

    def __init__(self, h, src, site, body, accs):
        self.h, self.src, self.site, self.body, self.accs = h, src, site, body, accs
        self.exit = None


class Walk:
    """decide(fact, facts) -> True / False / None (unknown: both ways)"""

    def __init__(self, F, decide, prune=None, lim=3000):
        self.F, self.decide, self.lim = F, decide, lim
        self.prune = prune
        self.phis = {}
        for ph, ops in F.phi_ops.items():
            self.phis.setdefault(F.phi_key[ph][0], []).append((ph, dict(ops)))
        # nodes from which the function can still return
        self.live = set(i for i, _ in F.returns())
        w = list(self.live)
        while w:
            x = w.pop()
            for q in F.n[x].pred:
                q = q[0] if isinstance(q, tuple) else q
                if q not in self.live:
                    self.live.add(q)
                    w.append(q)
        self.n = 0
        self.cache = {}
        self.memo = {}
        self.entries = {}

    def header(self, s):
        return self.F.n[s].b in self.F.bodies

    def sub(self, t, env):
        if not env:
            return t
        return rebuild(t, env)

    def enter(self, x, s, env):
        """environment after the edge x -> s"""
        e2 = env
        for ph, ops in self.phis.get(s, ()):
            if x not in ops:
                continue
            v = self.sub(ops[x], env)
            if self.header(s):
                body = self.F.bodies[self.F.n[s].b]
                back = [o for p, o in ops.items() if self.F.n[p].b in body]
                if back and not all(o is ph for o in back) and self.F.n[x].b not in body:
                    self.entries[ph] = v
                    e2 = {k: w for k, w in e2.items() if k is not ph}
                    e2[mk('entry', ph)] = v
                    continue
                if self.F.n[x].b in body:
                    # second header copy reached from a peeled iteration
                    if back and any(o is not ph for o in back if o is not ops[x]) or self.changes(ph, s, x, ops[x]):
                        self.entries[ph] = v
                        e2 = {k: w for k, w in e2.items() if k is not ph}
                        e2[mk('entry', ph)] = v
                        continue
            if e2 is env:
                e2 = dict(env)
            e2[ph] = v
        return e2

    def reach(self, s):
        """nodes reached from header copy s inside its loop"""
        key = ('rc', s)
        if key not in self.memo:
            body = self.F.bodies[self.F.n[s].b]
            seen, st = set(), [y for y, _ in self.F.n[s].succ]
            while st:
                y = st.pop()
                if y in seen or y == s or self.F.n[y].b not in body:
                    continue
                seen.add(y)
                st += [z for z, _ in self.F.n[y].succ]
            self.memo[key] = seen
        return self.memo[key]

    def changes(self, ph, s, x, v):
        """x closes a peeled iteration and the iterations that follow alike: does the latter kind change ph"""
        R = self.reach(s)
        if x not in R:
            return False
        st, seen = [v], set()
        while st:
            t = st.pop()
            if t in seen or t is ph:
                continue
            seen.add(t)
            if t.op == 'phi' and t in self.F.phi_key and self.F.phi_key[t][0] in R:
                st += [o for q, o in self.F.phi_ops[t] if q in R or q == s]
                continue
            return True
        return False

    def edge(self, x, s, l, env, facts):
        """facts of the edge, or None when it cannot be taken"""
        out = ()
        for f in self.F.edge_facts(x, l):
            g = self.sub(f, env)
            d = self.decide(g, facts + out)
            if d is False:
                return None
            if d is None:
                out += (g,)
        return out

    def items_of(self, x, env):
        out = []
        for e in self.F.n[x].events:
            if e.k in ('write', 'call'):
                out.append((e, x, env))
        return out

    def paths(self):
        rets = dict(self.F.returns())
        return self.go((0,), {}, (), [], rets, None, None)

    def body_of(self, h, env):
        hb = self.F.n[h].b
        env = {k: v for k, v in env.items() if k.op != 'entry'}
        key = (h, tuple(sorted((k.id, v.id) for k, v in env.items())))
        if key not in self.cache:
            self.cache[key] = None
            self.cache[key] = self.go((h,), env, (), [], {}, hb, self.F.bodies[hb])
        r = self.cache[key]
        if r is None:
            raise Unknown('loop structure')
        return r

    def loop(self, h, env):
        src = site = None
        F = self.F
        # the header or its successors ask the iterator for the next element
        body = F.bodies[F.n[h].b]
        st, seen = [h], set()
        while st and site is None:
            x = st.pop(0)
            if x in seen:
                continue
            seen.add(x)
            for e in F.n[x].events:
                if e.k == 'call' and e.res is not None and isinstance(e.res, T) and e.res.op == 'next':
                    src, site = self.sub(e.res.a[0], env), e.res.a[1]
                    break
            if len(F.n[x].succ) == 1:
                st += [s for s, _ in F.n[x].succ if F.n[s].b in body]
        accs = [ph for ph, ops in self.phis.get(h, ()) if ph not in env]
        b = self.body_of(h, env)
        inv = self.constant(b, accs, env)
        if inv:
            # loop state no iteration changes
            env.update(inv)
            accs = [ph for ph in accs if ph not in inv]
            b = self.body_of(h, env)
            if src is not None:
                src = self.sub(src, env)
        if src is not None and src.op == 'phi':
            xs = {f.a[0].a[0] for p in b if p.end == 'back' for f in p.facts if f.op == 'is' and f.a[1] == 'Some' and f.a[0].op == 'next' and f.a[0].a[1] == site}
            if len(xs) == 1:
                src = xs.pop()
        L = Loop(h, src, site, [p for p in b if p.end == 'back'], accs)
        L.node = h
        L.entries = {ph: env[mk('entry', ph)] for ph in accs if mk('entry', ph) in env}
        return L

    def constant(self, b, accs, env):
        out = {}
        back = [p for p in b if p.end == 'back']
        if not back:
            return out
        for ph in accs:
            k = mk('entry', ph)
            ops = dict(self.F.phi_ops[ph])
            if k in env and env[k] is not ph and all(p.nodes[-2] in ops and rebuild(ops[p.nodes[-2]], p.env) is ph for p in back):
                out[ph] = env[k]
        return out

    def go(self, start, env, facts, items, rets, hb, body):
        F = self.F
        out = []
        st = [(start, env, facts, items, ())]
        while st:
            p, env, fs, it, hi = st.pop()
            x = p[-1]
            self.n += 1
            if self.n > 400000 or len(out) > self.lim:
                raise Unknown('too many paths')
            if hb is not None and x == start[0] and len(p) == 1:
                it = it + self.items_of(x, env)
            else:
                if self.header(x):
                    env = dict(env)
                    L = self.loop(x, env)
                    if L.body:
                        it = it + [L]
                it = it + self.items_of(x, env)
            if x in rets:
                out.append(Path(p, fs, it, env, self.sub(rets[x], env), 'ret', hi))
                continue
            if not F.n[x].succ:
                out.append(Path(p, fs, it, env, None, 'panic', hi))
                continue
            for s, l in F.n[x].succ:
                if hb is not None and s == start[0]:
                    fe = self.edge(x, s, l, env, fs)
                    if fe is not None:
                        out.append(Path(p + (s,), fs + fe, it, env, None, 'back', hi + fe))
                    continue
                if hb is not None and (F.n[s].b not in body or F.n[s].b == hb):
                    continue
                if s in p or s not in self.live:
                    continue
                if self.header(x) and not (hb is not None and x == start[0] and len(p) == 1) and F.n[s].b in F.bodies[F.n[x].b] and not self.leaves(x, s):
                    continue
                fe = self.edge(x, s, l, env, fs)
                if fe is None:
                    continue
                if self.prune and self.prune(p, s, fs + fe, it):
                    continue
                f2 = fs + fe
                if self.header(s) and F.n[x].b in F.bodies[F.n[s].b]:
                    # another copy of the header: what was known of the last iteration is gone
                    f2 = tuple(f for f in f2 if not F.stale(f, F.bodies[F.n[s].b]))
                st.append((p + (s,), self.enter(x, s, env), f2, it, hi + fe))
        return out

    def leaves(self, h, s):
        body = self.F.bodies[self.F.n[h].b]
        key = ('lv', h, s)
        if key not in self.memo:
            hb = self.F.n[h].b
            goals = [i for i in self.live if self.F.n[i].b not in body or self.F.n[i].b == hb and i != h]
            self.memo[key] = self.F.path_avoiding(goals, avoid_nodes=(h,), start=s) is not None
        return self.memo[key]
