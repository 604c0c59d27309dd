"""Evaluation: row formulas of the kernels, completion flags, operand resolution, instruction plans."""
from sa.core import *
from sa.rulelib import *
from sa.algebra import *
from sa import algebra as alg
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T
from rules import rule


class Shape:
    """arity (None: three or more), and per operand the variants of its value and derivative reference"""

    def __init__(self, ar, x=None, d=None, allconst=False):
        self.ar, self.x, self.d, self.allconst = ar, x, d, allconst

    def variant(self, kind, j):
        if kind == 'x':
            if self.allconst:
                return 'Const'
            return self.x[j] if self.x is not None and isinstance(j, int) else None
        return self.d[j] if self.d is not None and isinstance(j, int) else None

    def __repr__(self):
        if self.ar is None:
            return 'arity>=3' + (' constants' if self.allconst else '')
        return f'arity {self.ar} ' + ' '.join(self.x) + (' / ' + ' '.join(self.d) if self.d else '')


class Kernel:
    """one kernel function: which parameters are the buffers, operands and options"""

    def __init__(self, c, fn, roles, shape, grad=False):
        self.c, self.fn, self.roles, self.shape, self.grad = c, fn, roles, shape, grad
        self.F = c.ctx.flow(fn, ())
        self.opts = None
        self.maps = {}
        self.entries = {}
        self.accsum = {}
        self.loops = {}
        self.cl = {}
        self.vm = {}
        self.rm = {}
        self.siterows = {}
        self.rowok = {}
        self.opsite = set()

    # ---- naming
    def role(self, t):
        """the parameter a buffer term comes from"""
        if t not in self.rm:
            rs = self.roles_of(t, set())
            self.rm[t] = rs.pop() if len(rs) == 1 else None
        return self.rm[t]

    def roles_of(self, t, seen):
        while True:
            if t in seen:
                return set()
            seen.add(t)
            for r, p in self.roles.items():
                if t is p:
                    return {r}
            if t.op == 'upd':
                t = t.a[3]
            elif t.op == 'with':
                t = t.a[0]
            elif t.op in ('ref', 'refm') and not t.a[1] and isinstance(t.a[0], T):
                t = t.a[0]
            elif t.op == 'phi':
                out = set()
                for x in self.F.phi_closure(t):
                    if x.op != 'phi':
                        out |= self.roles_of(x, seen)
                return out
            elif t.op == 'call' and t.a[0].split('::')[-1] in ('iter_mut', 'iter', 'as_mut_slice', 'as_slice', 'deref', 'deref_mut', 'into_iter', 'by_ref', 'copied', 'cloned'):
                t = t.a[1]
            else:
                return {None}

    def operands_of(self, base):
        """'x' / 'd' when base is an array holding operand j at position j"""
        r = self.role(base)
        if r in ('x', 'd'):
            return r
        b = base
        while b.op in ('ref', 'refm') and not b.a[1] and isinstance(b.a[0], T):
            b = b.a[0]
        if is_call(b, 'iter', 'copied', 'cloned', 'into_iter', 'deref', 'as_slice'):
            return self.operands_of(b.a[1])
        if is_call(b, 'from_fn'):
            q = mk('sym', 'q' + str(b.id))
            v = self.apply(b.a[1], q)
            if v is not None:
                k = self.view(v)
                if k is not None and k[1] == q:
                    return k[0]
        return None

    def position(self, t):
        if t.op == 'const' and isinstance(t.a[0], int):
            return t.a[0]
        if t.op == 'sym':
            return t
        if t.op == 'pos':
            return ('s', t.a[1])
        if t.op == 'elem' and t.a[0].op == 'agg' and t.a[0].a[0].endswith('Range') and self.zero(t.a[0].a[2]):
            return ('s', t.a[1])
        if t.op == 'fld' and t.a[2] == '0' and t.a[0].op == 'elem' and is_call(t.a[0].a[0], 'take') and is_call(t.a[0].a[0].a[1], 'enumerate'):
            return ('s', t.a[0].a[1])
        return None

    def zero(self, t):
        return t.op == 'const' and t.a[0] == 0

    def view(self, t):
        """(kind, j) when t is the reference of operand j"""
        if t in self.vm:
            return self.vm[t]
        self.vm[t] = None
        r = None
        while t.op in ('ref', 'refm') and not t.a[1] and isinstance(t.a[0], T):
            t = t.a[0]
        if t.op == 'idx':
            k = self.operands_of(t.a[0])
            if k:
                j = self.position(t.a[1])
                r = (k, j) if j is not None else None
        elif t.op == 'elem':
            k = self.operands_of(t.a[0])
            if k:
                r = (k, ('s', t.a[1]))
        elif is_call(t, 'clone', 'copied', 'into', 'from') and len(t.a) > 1 and isinstance(t.a[1], T):
            r = self.view(t.a[1])
        self.vm[t] = r
        return r

    def apply(self, clo, q):
        """result of a closure value at index q"""
        if not (clo.op == 'agg' and clo.a[0].startswith('closure:')):
            return None
        key = (clo, q)
        if key not in self.cl:
            self.cl[key] = None
            name = clo.a[0][8:]
            f = self.c.p.fns.get(name) or self.c.p.fn(name)
            G = self.c.ctx.flow(f, ())
            from rules.engine import mk_arg
            env = {mk_arg(G, 1): clo, mk('arg', 1, 'env'): clo, mk_arg(G, 2): q}
            w = Walk(G, lambda f, fs: self.decide(rebuild(f, env), ()))
            ps = [p for p in w.paths() if p.end == 'ret']
            vs = {rebuild(p.ret, env) for p in ps}
            if len(vs) == 1 and not any(isinstance(i, Loop) for p in ps for i in p.items):
                self.cl[key] = vs.pop()
        return self.cl[key]

    # ---- facts
    def decide(self, f, facts):
        o = f.op
        if self.opts is not None and o == 'fld' and f.a[1].endswith('EvalOptions'):
            return self.opts.get(f.a[2])
        if f in facts:
            return True
        if neg(f) in facts:
            return False
        if o == 'not':
            r = self.decide(f.a[0], facts)
            return None if r is None else not r
        if o in ('is', 'isnt'):
            for g in facts:
                if g.op == 'is' and g.a[0] is f.a[0] and g.a[1] != f.a[1]:
                    return o == 'isnt'
            r = self.isv(f.a[0], f.a[1])
            return r if r is None or o == 'is' else not r
        if o in ('lt', 'le', 'eq', 'ne'):
            a, b = self.ar_const(f.a[0]), self.ar_const(f.a[1])
            if a is not None and b is not None:
                if isinstance(a, int) and isinstance(b, int):
                    return {'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[o]
                # A >= 3 against a small number
                if a == 'A' and isinstance(b, int) and b <= 2:
                    return {'lt': False, 'le': False, 'eq': False, 'ne': True}[o]
                if b == 'A' and isinstance(a, int) and a <= 2:
                    return {'lt': True, 'le': True, 'eq': False, 'ne': True}[o]
        if o == 'const' and isinstance(f.a[0], (int, bool)):
            return bool(f.a[0])
        if o == 'call' and f.a[0].split('::')[-1] == 'is_zero':
            try:
                v = self.scalar(f.a[1], None, facts)
            except Unknown:
                return None
            k = v.const() if isinstance(v, RF) else None
            return None if k is None else k == 0
        return None

    def isv(self, t, variant):
        if t.op == 'agg' and '::' in t.a[0] and variant in ('Slice', 'Const', 'Basis', 'Zero'):
            return t.a[0].split('::')[-1] == variant
        k = self.view(t)
        if k is not None:
            v = self.shape.variant(*k)
            if v is not None:
                return v == variant
        return None

    def ar_const(self, t):
        if t.op == 'const' and t.a[0] == 'A':
            return self.shape.ar if self.shape.ar is not None else 'A'
        if t.op == 'const' and isinstance(t.a[0], int) and not isinstance(t.a[0], bool):
            return t.a[0]
        if t.op == 'call' and t.a[0].split('::')[-1] == 'len' and isinstance(t.a[1], T) and self.operands_of(t.a[1]):
            return self.shape.ar if self.shape.ar is not None else 'A'
        return None

    # ---- numbers
    def index(self, t):
        """index arithmetic: rows and directions as symbols"""
        def leaf(x):
            if x.op == 'const' and isinstance(x.a[0], int):
                return C(x.a[0])
            r = self.role(x)
            if r in ('n_rows', 'n_dir'):
                return V(r)
            p = self.position(x)
            if isinstance(p, tuple):
                return V(f'@{p[1]}')
            if x.op == 'cast':
                return None
            if x.op == 'call' and x.a[0].split('::')[-1] == 'len' and self.role(x.a[1]) in ('out', 'out_val'):
                return V('n_rows')
            return None
        return Eval(Region(), leaf)(t)

    def rowslice(self, t):
        """('x'|'d', j, dir-or-None) when t is the per-row slice of an operand"""
        while t.op in ('ref', 'refm') and not t.a[1] and isinstance(t.a[0], T):
            t = t.a[0]
        if is_call(t, 'iter', 'copied', 'cloned', 'into_iter'):
            return self.rowslice(t.a[1])
        if t.op == 'vf' and t.a[1] == 'Slice':
            k = self.view(t.a[0])
            if k is not None:
                return (*k, None)
        if is_call(t, 'index') and len(t.a) > 2 and t.a[2].op == 'agg' and t.a[2].a[0].endswith('Range'):
            k = self.rowslice(t.a[1])
            if k is not None and k[0] == 'd' and self.grad and k[2] is None:
                lo, hi = self.index(t.a[2].a[2]), self.index(t.a[2].a[3])
                n = V('n_rows')
                if not (hi - lo - n).n:
                    return (k[0], k[1], lo / n)
        return None

    def scalar(self, t, row, facts, d=0):
        """value of a row-level term: RF over eval / partial / derivative atoms; operand values as ('x', j)"""
        if d > 60:
            raise Unknown('deep')

        def leaf(x):
            if x.op == 'vf' and x.a[1] == 'Const':
                k = self.view(x.a[0])
                if k is not None:
                    return self.operand(k, None, facts)
            if x.op == 'elem':
                k = self.rowslice(x.a[0])
                if k is not None:
                    if row is not None and x.a[1] != row:
                        raise Unknown('an element of another row')
                    return self.operand(k[:2], k[2], facts, True)
                m = self.mapped(x.a[0])
                if m is not None:
                    return self.operand((m, ('s', x.a[1])), None, facts)
            if x.op == 'idx':
                k = self.rowslice(x.a[0])
                if k is not None:
                    r = self.index(x.a[1])
                    at = V(f'@{row}')
                    if k[0] == 'd' and self.grad:
                        dr = (r - at) / V('n_rows') if k[2] is None else k[2]
                        if k[2] is None or not (r - at).n:
                            return self.operand(k[:2], dr, facts, True)
                    elif row is not None and not (r - at).n:
                        return self.operand(k[:2], None, facts, True)
                    raise Unknown('an element of another row')
                j = self.position(x.a[1])
                b = x.a[0]
                while b.op in ('ref', 'refm') and not b.a[1] and isinstance(b.a[0], T):
                    b = b.a[0]
                if is_call(b, 'from_fn') and isinstance(j, (int, T)):
                    v = self.apply(b.a[1], x.a[1])
                    if v is not None:
                        return self.scalar(v, row, facts, d + 1)
                m = self.mapped(b)
                if m is not None and j is not None:
                    return self.operand((m, j), None, facts)
            if x.op == 'call':
                l = x.a[0].split('::')[-1]
                if x.a[0].endswith('Operator::eval') or l == 'call' and self.is_op(x.a[1], 'eval'):
                    vals = x.a[1] if l == 'eval' else x.a[2].a[2]
                    self.vector(vals, row, facts)
                    return V('eval')
                if x.a[0].endswith('Operator::partial') or l == 'call' and self.is_op(x.a[1], 'partial'):
                    vals, j = (x.a[1], x.a[2]) if l == 'partial' else (x.a[2].a[2], x.a[2].a[3])
                    self.vector(vals, row, facts)
                    j = self.position(j)
                    if j is None:
                        raise Unknown('partial derivative in an unknown argument')
                    return V(f'p{self.pn(j)}')
                if l in ('zero', 'one') and len(x.a) == 1:
                    return C(l == 'one')
            if x.op == 'phi':
                if x in self.accsum:
                    return self.accsum[x]
                if x in self.open:
                    return V(f'#phi{x.id}')
                if x in self.accs:
                    return self.sumof(x)
                vs = []
                for y in self.F.phi_closure(x):
                    if y.op != 'phi':
                        v = self.scalar(y, row, facts, d + 1)
                        if not any(same(v, w) for w in vs):
                            vs.append(v)
                if len(vs) == 1:
                    return vs[0]
                raise Unknown(f'{len(vs)} possible values')
            return None
        return Eval(Region(), leaf)(t)

    open = ()
    accs = {}

    def pn(self, j):
        return j if isinstance(j, int) else '@' + str(j[1]) if isinstance(j, tuple) else str(j.a[0])

    def is_op(self, f, name):
        return f.op == 'fn' and f.a[0].endswith('Operator::' + name)

    def operand(self, k, dr, facts, elem=False):
        """kind/j -> value: operand values are atoms xj, derivatives what their variant says"""
        kind, j = k
        if kind == 'x':
            return V(f'x{self.pn(j)}')
        if self.grad and elem and dr is not None:
            ds = self.dirs
            if ds is None or (dr - V(f'@{ds}')).n:
                raise Unknown('the derivative of another direction')
        elif self.grad and elem:
            raise Unknown('the derivative of no particular direction')
        return self.deriv(j, facts)

    dirs = None

    def deriv(self, j, facts):
        v = self.shape.variant('d', j)
        me = V(f'd{self.pn(j)}')
        if v is None:
            for f in facts:
                if f.op == 'is' and f.a[1] in ('Slice', 'Const', 'Basis', 'Zero'):
                    k = self.view(f.a[0])
                    if k is not None and k[0] == 'd' and k[1] == j:
                        v = f.a[1]
        if v == 'Zero':
            return C(0)
        if v == 'Basis':
            for f in facts:
                if f.op in ('eq', 'ne'):
                    for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                        if b.op == 'vf' and b.a[1] == 'Basis' and self.view(b.a[0]) == ('d', j) and self.dirs is not None:
                            try:
                                if not (self.index(a) - V(f'@{self.dirs}')).n:
                                    return C(1) if f.op == 'eq' else C(0)
                            except Unknown:
                                pass
            return me
        for f in facts:
            if f.op == 'call' and f.a[0].split('::')[-1] == 'is_zero':
                if f.a[1].op == 'vf' and self.view(f.a[1].a[0]) == ('d', j):
                    return C(0)
                try:
                    if same(self.scalar(f.a[1], self.row, tuple(g for g in facts if g is not f)), me):
                        return C(0)
                except Unknown:
                    pass
        return me

    def vector(self, t, row, facts):
        """t must be the array of this row's operand values"""
        while t.op in ('ref', 'refm') and not t.a[1] and isinstance(t.a[0], T):
            t = t.a[0]
        k = self.mapped(t)
        if k == 'x':
            return
        if k is None and self.shape.ar is not None:
            for j in range(self.shape.ar):
                from sa.rulelib import _DUMMY
                v = self.scalar(_DUMMY.proj1(t, ('i', const(j))), row, facts)
                if not same(v, V(f'x{j}')):
                    raise Unknown(f'argument {j} of the operator is {v}')
            return
        raise Unknown('the operator is applied to something else than the operands of the row: ' + show(t)[:100])

    def mapped(self, t):
        """kind of the operands a filled local array holds"""
        while t.op in ('ref', 'refm') and not t.a[1] and isinstance(t.a[0], T):
            t = t.a[0]
        if is_call(t, 'iter', 'copied', 'cloned', 'into_iter'):
            return self.mapped(t.a[1])
        if t.op == 'upd' and t.a[0].endswith('iter_mut'):
            return self.maps.get(t.a[1])
        if t.op == 'phi':
            return self.filled(t)
        if is_call(t, 'from_fn'):
            q = mk('sym', 'q' + str(t.id))
            v = self.apply(t.a[1], q)
            if v is not None:
                try:
                    s = self.scalar(v, self.row, ())
                except Unknown:
                    return None
                for k in 'xd':
                    if isinstance(s, RF) and same(s, V(f'{k}{q.a[0]}')):
                        return k
        return None

    row = None

    def filled(self, ph):
        """an array whose every element is overwritten by index in a loop over the operands"""
        if ph in self.opening:
            return None
        self.opening = self.opening | {ph}
        try:
            kinds = set()
            for v in self.F.phi_closure(ph):
                if v.op != 'with':
                    continue
                # no way round the loop leaves the array as it was
                H, F = v.a[0], self.F
                if H.op != 'phi' or F.n[F.phi_key[H][0]].b not in F.bodies:
                    return None
                body = F.bodies[F.n[F.phi_key[H][0]].b]
                for g in self.phis_of(ph):
                    if F.n[F.phi_key[g][0]].b in body and any(o is H and F.n[p].b in body and p >= 0 for p, o in F.phi_ops[g]):
                        return None
                for path, x in v.a[1]:
                    if len(path) != 1 or path[0][0] != 'i' or path[0][1].op != 'elem':
                        return None
                    src, site = path[0][1].a
                    if not self.ranges_ar(src):
                        return None
                    k = None
                    for y in self.F.phi_closure(x) if x.op == 'phi' else (x,):
                        try:
                            s = self.scalar(y, self.row, ()) if y.op != 'phi' else None
                        except Unknown:
                            return None
                        for q in 'xd':
                            if s is not None and same(s, V(f'{q}{self.pn(("s", site))}')):
                                kinds.add(q)
                                k = q
                                break
                        else:
                            if y.op != 'phi':
                                return None
                    if k is not None:
                        self.opsite.add(site)
            return kinds.pop() if len(kinds) == 1 else None
        finally:
            self.opening = self.opening - {ph}

    def phis_of(self, ph):
        seen, w = [], [ph]
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.append(x)
            for _, v in self.F.phi_ops[x]:
                for y in ([v] if v.op == 'phi' else [v.a[0]] if v.op == 'with' and v.a[0].op == 'phi' else []):
                    if y in self.F.phi_ops:
                        w.append(y)
        return seen

    opening = frozenset()

    def sumof(self, ph):
        """an accumulator: zero plus partial * derivative over all operands"""
        L = self.accs[ph]
        e = self.scalar(L.entries[ph], self.row, ())
        if not isinstance(e, RF) or e.n:
            raise Unknown('an accumulator that does not start at zero')
        if not self.full_operands(L):
            raise Unknown('an accumulator over part of the operands')
        if not L.body:
            raise Unknown('an accumulator without iterations')
        for p in L.body:
            back = dict(self.F.phi_ops[ph]).get(p.nodes[-2])
            if back is None:
                raise Unknown('accumulator without a next value')
            self.open = self.open + (ph,)
            try:
                v = self.scalar(rebuild(back, p.env), self.row, p.facts)
            finally:
                self.open = self.open[:-1]
            j = ('s', L.site)
            want = V(f'p{self.pn(j)}') * self.deriv(j, p.facts)
            g = v - V(f'#phi{ph.id}')
            if (g - want).n:
                raise Unknown(f'a term of the sum is {g}, expected {want}; ' + ' & '.join(show(f) for f in p.facts) + f' {self.dirs}')
        self.accsum[ph] = V('sum')
        return self.accsum[ph]

    def leaves(self, src):
        """the iterators advanced together by a loop"""
        if src is None:
            return []
        if is_call(src, 'zip', 'zip_eq'):
            return self.leaves(src.a[1]) + self.leaves(src.a[2])
        if is_call(src, 'enumerate', 'copied', 'cloned', 'into_iter', 'iter', 'by_ref'):
            return self.leaves(src.a[1])
        return [src]

    def full_operands(self, L):
        ls = self.leaves(L.src)
        return bool(ls) and all(self.operands_of(x) or self.mapped(x) or self.ranges_ar(x) for x in ls)

    def ranges_ar(self, t):
        if t.op == 'agg' and t.a[0].endswith('Range') and self.zero(t.a[2]):
            return self.ar_const(t.a[3]) in ('A', self.shape.ar) and self.ar_const(t.a[3]) is not None
        return False

    # ---- effects
    def buffer(self, t):
        """(role, dir) of the output rows a term denotes as a whole"""
        rs = self.buffers(t, set())
        return rs.pop() if len(rs) == 1 else None

    def buffers(self, t, seen):
        while True:
            while t.op in ('ref', 'refm') and not t.a[1] and isinstance(t.a[0], T):
                t = t.a[0]
            if t in seen:
                return set()
            seen.add(t)
            r = self.role(t)
            if r in ('out', 'out_val', 'out_der'):
                return {(r, None)}
            if r == 'out_grad':
                return {(r, 'all')}
            if t.op == 'upd':
                t = t.a[3]
                continue
            if t.op == 'phi':
                rs = set()
                for x in self.F.phi_closure(t):
                    if x.op != 'phi':
                        rs |= self.buffers(x, seen)
                return rs
            if is_call(t, 'iter_mut', 'as_mut_slice', 'deref_mut'):
                t = t.a[1]
                continue
            if is_call(t, 'index_mut') and len(t.a) > 2 and t.a[2].op == 'agg' and t.a[2].a[0].endswith('Range') and self.role(t.a[1]) == 'out_grad':
                lo, hi = self.index(t.a[2].a[2]), self.index(t.a[2].a[3])
                n = V('n_rows')
                if not (hi - lo - n).n and self.dirs is not None and not (lo - n * V(f'@{self.dirs}')).n:
                    return {('out_grad', 'dir')}
            if t.op == 'elem' and self.chunks(t.a[0]) and t.a[1] == self.dirs:
                return {('out_grad', 'dir')}
            if t.op == 'fld' and t.a[2] == '1' and t.a[0].op == 'elem' and is_call(t.a[0].a[0], 'take') and t.a[0].a[1] == self.dirs and self.chunks(t.a[0].a[0]):
                return {('out_grad', 'dir')}
            return {None}

    def chunks(self, t):
        """chunks of n_rows of the gradient buffer, at most n_dir of them"""
        if is_call(t, 'take'):
            return self.role(t.a[2]) == 'n_dir' and self.chunks(t.a[1])
        if is_call(t, 'enumerate'):
            return self.chunks(t.a[1])
        return is_call(t, 'chunks_mut', 'chunks_exact_mut') and self.role(t.a[1]) == 'out_grad' and self.role(t.a[2]) == 'n_rows'

    def dirloop(self, L):
        ls = self.leaves(L.src)
        for x in ls:
            if x.op == 'agg' and x.a[0].endswith('Range') and self.zero(x.a[2]) and self.role(x.a[3]) == 'n_dir':
                return True
            if self.chunks(x):
                return True
        return False

    def rowloop(self, L, over):
        ls = self.leaves(L.src)
        cov = False
        for x in ls:
            b = self.buffer(x) if is_call(x, 'iter_mut') else None
            if b is not None and (b[1] != 'all'):
                cov = cov or b[0] in over
                continue
            if self.rowslice(x) is not None:
                continue
            if x.op == 'agg' and x.a[0].endswith('Range') and self.zero(x.a[2]):
                try:
                    if not (self.index(x.a[3]) - V('n_rows')).n:
                        cov = True
                        continue
                except Unknown:
                    pass
            return False
        return cov

    def expected(self, role, facts):
        if role in ('out', 'out_val'):
            return V('eval')
        if self.shape.ar is None:
            return V('sum')
        s = C(0)
        for j in range(self.shape.ar):
            s = s + V(f'p{j}') * self.deriv(j, facts)
        return s

    def target(self, e, env):
        """(role, dir, row site or 'all') written by a write event"""
        t = e.root
        if not isinstance(t, T):
            t = None
        if t is not None and e.path == ():
            t = rebuild(t, env)
        elif t is not None:
            from sa.rulelib import _DUMMY
            t = rebuild(t, env)
            for el in e.path:
                t = _DUMMY.proj1(t, el)
            t = rebuild(t, env)
        if t is None:
            return None
        if t.op == 'elem' and is_call(t.a[0], 'iter_mut'):
            b = self.buffer(t.a[0])
            return None if b is None else (*b, t.a[1])
        if t.op == 'idx':
            b = self.buffer(t.a[0])
            if b is None:
                return None
            r = self.index(t.a[1])
            if self.row is not None:
                if b == ('out_grad', 'all'):
                    if self.dirs is not None and not (r - V(f'@{self.row}') - V('n_rows') * V(f'@{self.dirs}')).n:
                        return 'out_grad', 'dir', self.row
                elif not (r - V(f'@{self.row}')).n:
                    return (*b, self.row)
            raise Unknown('a write to a row that is not the current one')
        return None

    def local_target(self, e, env):
        """iter_mut site of the local array an element write fills"""
        t = rebuild(e.root, env) if isinstance(e.root, T) else None
        if t is None:
            return None
        if e.path:
            from sa.rulelib import _DUMMY
            for el in e.path:
                t = _DUMMY.proj1(t, el)
            t = rebuild(t, env)
        if t.op == 'elem' and is_call(t.a[0], 'iter_mut') and self.buffer(t.a[0]) is None:
            return t.a[0].a[2] if len(t.a[0].a) > 2 else t.a[0].a[-1], t.a[1]
        return None

    def run(self):
        """walk every path; yields (path, state)"""
        w = Walk(self.F, self.decide)
        self.entries = w.entries
        out = []
        for p in w.paths():
            if p.end != 'ret':
                continue
            if not self.feasible(p):
                continue
            st = dict(cover={}, nan={}, scans=[], bad=[])
            self.row = None
            self.effects(p.items, p.facts, st)
            out.append((p, st))
        for p, st in out:
            # loops over rows that ran no (further) iteration on this path
            for s in st.get('passed', ()):
                rs = self.siterows.get(s)
                for r, d in frozenset.intersection(*rs) if rs else ():
                    if r not in st['nan'] and d is None:
                        st['cover'].setdefault(r, True)
        return out

    def feasible(self, p):
        """no path that says all operands are constants when one is not, and the like"""
        for L in p.items:
            if not isinstance(L, Loop) or L.src is None:
                continue
            if self.operands_of(L.src) == 'x' and any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and f.a[0].a[1] == L.site for f in p.facts):
                if L.body and all(any(f.op == 'is' and f.a[1] == 'Const' and self.view(f.a[0]) == ('x', ('s', L.site)) for f in b.facts) for b in L.body):
                    if not self.shape.allconst and not (self.shape.x and set(self.shape.x) == {'Const'}):
                        return False
        # loops over the operands run at least once
        for i, L in enumerate(p.items):
            pass
        if self.shape.allconst or self.shape.x and set(self.shape.x) == {'Const'}:
            for f in p.facts:
                if f.op == 'is' and f.a[1] == 'Slice' and (self.view(f.a[0]) or ('',))[0] == 'x':
                    return False
        return True

    def effects(self, items, facts, st, inloop=None):
        """check the writes of a sequence; records which buffers hold the right rows afterwards"""
        for it in items:
            if isinstance(it, Loop):
                self.do_loop(it, facts, st)
                continue
            e, x, env = it
            if e.k == 'call':
                self.do_call(e, x, env, facts, st)
            else:
                self.do_write(e, x, env, facts, st)

    def do_call(self, e, x, env, facts, st):
        n = (e.cn or '').split('::')[-1]
        if isinstance(e.res, T) and e.res.op == 'next':
            self.step(rebuild(e.res.a[0], env), e.res.a[1], st)
            return
        if n in ('iter_mut', 'chunks_mut', 'chunks_exact_mut', 'index_mut', 'deref_mut', 'len', 'iter', 'index', 'zip', 'zip_eq', 'enumerate', 'take', 'into_iter', 'next', 'is_finite', 'as_mut_slice'):
            return
        args = [rebuild(a, env) for a in e.args if isinstance(a, T)]
        if not args:
            return
        b = self.buffer(args[0])
        if n == 'fill' and b is not None:
            if is_call(args[1], 'nan'):
                st['nan'][b[0]] = True
                st['cover'].pop(b[0], None)
                return
            self.row = None
            try:
                v = self.scalar(args[1], None, facts)
            except Unknown:
                if not self.lenient:
                    raise
                v = None
            self.compare(b, v, facts, x, st)
            if b[1] == 'all':
                raise Unknown('the gradient buffer is filled as a whole')
            st['cover'][b[0]] = True if b[1] is None else 'dir'
            st['nan'].pop(b[0], None)
            st['scans'] = [q for q in st['scans'] if q[0] != b[0]]
            if st.get('fills') is not None or True:
                st.setdefault('fill', {})[b[0]] = args[1]
            return
        for k, a in enumerate(args):
            if self.buffer(a) is not None and (a.op == 'refm' or k == 0 and n in ('copy_from_slice', 'swap', 'reverse', 'sort', 'rotate_left', 'rotate_right', 'fill_with', 'clone_from_slice', 'copy_within')):
                raise Unknown(f'{e.cn} changes an output buffer')

    def step(self, src, site, st):
        """the iterator of a loop over rows is advanced outside its Loop node (peeled iterations)"""
        if st.get('at') is not None:
            s, rows = st['at']
            if s == site:
                self.siterows.setdefault(s, []).append(frozenset(rows))
            st['at'] = None
        if site in self.opsite or self.grad and self.dirsrc(src) or not self.rowsrc(src):
            return
        if self.row is not None and self.row != site and st.get('inloop') is not None:
            return
        if st.get('inloop') != site:
            self.row = site
            st['at'] = (site, set())
            st.setdefault('passed', set()).add(site)
        self.vm.clear()

    def rowsrc(self, src):
        for x in self.leaves(src):
            if is_call(x, 'iter_mut') and self.buffer(x) is not None or self.rowslice(x) is not None:
                return True
            if x.op == 'agg' and x.a[0].endswith('Range') and self.zero(x.a[2]):
                try:
                    return not (self.index(x.a[3]) - V('n_rows')).n
                except Unknown:
                    pass
        return False

    def dirsrc(self, src):
        return any(self.chunks(x) or x.op == 'agg' and x.a[0].endswith('Range') and self.role(x.a[3]) == 'n_dir' for x in self.leaves(src))

    lenient = False

    def compare(self, b, v, facts, x, st):
        if self.lenient:
            return
        want = self.expected(b[0], facts)
        if not isinstance(v, RF) or (v - want).n:
            raise Unknown(f'{b[0]} receives {v}, expected {want} [{self.F.where(x)}]')

    def do_write(self, e, x, env, facts, st):
        try:
            tg = self.target(e, env)
        except Unknown as u:
            raise Unknown(f'{u} [{self.F.where(x)}]')
        if tg is None:
            return
        try:
            v = self.scalar(rebuild(e.value, env), self.row, facts)
        except Unknown:
            if not self.lenient:
                raise
            v = None
        if tg[2] != self.row:
            raise Unknown(f'a row of {tg[0]} written outside the loop over its rows [{self.F.where(x)}]')
        self.compare(tg, v, facts, x, st)
        st.setdefault('rows', set()).add((tg[0], tg[1]))
        if st.get('at') is not None and st['at'][0] == self.row:
            st['at'][1].add((tg[0], tg[1]))

    def do_loop(self, L, facts, st):
        if L.src is None:
            # calls of a closure by an adaptor; no row may be written there
            for b in L.body:
                s2 = dict(cover={}, nan={}, scans=[], bad=[])
                self.effects(b.items, facts + b.facts, s2)
                if s2['cover'] or s2['nan'] or s2.get('rows'):
                    raise Unknown('a loop that is not over an iterator')
            return
        if self.grad and self.dirloop(L):
            old = self.dirs
            self.dirs = L.site
            self.vm.clear()
            good = bool(L.body)
            for b in L.body:
                s2 = dict(cover={}, nan={}, scans=[], bad=[])
                self.effects(b.items, facts + b.facts, s2)
                good = good and s2['cover'].get('out_grad') == 'dir'
                if any(k != 'out_grad' for k in s2['cover']):
                    raise Unknown('values written per direction')
            self.dirs = old
            if good:
                st['cover']['out_grad'] = True
                st['nan'].pop('out_grad', None)
            return
        for ph in L.accs:
            self.accs = {**self.accs, ph: L}
        # filling a local array with the operands
        fills = {}
        for b in L.body:
            got = set()
            for it in b.items:
                if isinstance(it, Loop) or it[0].k != 'write':
                    continue
                lt = self.local_target(it[0], it[2])
                if lt is not None and lt[1] == L.site:
                    try:
                        v = self.scalar(rebuild(it[0].value, it[2]), self.row, facts + b.facts)
                    except Unknown as u:
                        v = None
                        self.why = str(u)
                    k = next((k for k in 'xd' if v is not None and same(v, V(f'{k}{self.pn(("s", L.site))}')
                              if k == 'x' else self.deriv(('s', L.site), facts + b.facts))), None)
                    got.add((lt[0], k))
            for s, k in got:
                fills.setdefault(s, set()).add(k)
            for s in list(fills):
                if s not in {q for q, _ in got}:
                    fills[s].add(None)
        if fills:
            self.opsite.add(L.site)
            ls = self.leaves(L.src)
            ok = all(self.operands_of(x) or is_call(x, 'iter_mut') and self.buffer(x) is None or self.ranges_ar(x) for x in ls)
            for s, ks in fills.items():
                self.maps[s] = ks.copy().pop() if ok and len(ks) == 1 else None
            return
        # a loop over rows
        old = self.row
        over = set()
        self.row = L.site
        self.vm.clear()
        rows = None
        for b in L.body:
            s2 = dict(cover={}, nan={}, scans=[], bad=[], inloop=L.site)
            self.effects(b.items, facts + b.facts, s2)
            self.row = L.site
            r = s2.get('rows', set())
            rows = r if rows is None else rows & r
            if s2['cover'] or s2['nan']:
                raise Unknown('a buffer filled inside a loop over rows')
        if rows:
            if not self.rowloop(L, {r for r, _ in rows}):
                raise Unknown('a loop that does not run over all rows')
            for r, d in rows:
                st['cover'][r] = True if d is None else 'dir'
                st['nan'].pop(r, None)
                st['scans'] = [q for q in st['scans'] if q[0] != r]
        if rows is not None:
            self.siterows.setdefault(L.site, []).append(frozenset(rows))
            st.setdefault('passed', set()).add(L.site)
        self.row = old
        ls = self.leaves(L.src)
        if len(ls) == 1 and self.buffer(ls[0]) is not None and L.body and all(
                any(f.op == 'call' and f.a[0].endswith('is_finite') and f.a[1].op == 'elem' and f.a[1].a[1] == L.site for f in b.facts) for b in L.body):
            st['scans'].append((self.buffer(ls[0])[0], L.site))


def same(a, b):
    return isinstance(a, RF) and isinstance(b, RF) and not (a - b).n


# ---- the rules

def outs(roles):
    return [r for r in ('out', 'out_val', 'out_der', 'out_grad') if r in roles]


def kernels(c):
    """(name, fn, roles, shapes, grad) of the evaluation, derivative and gradient kernels"""
    from rules.engine import mk_arg
    res = []
    for n in ('eval_nary', 'diff_nary', 'grad_nary'):
        f = c.p.fn('evaluate::kernels::' + n)
        F = c.ctx.flow(f, ())
        a = [mk_arg(F, i) for i in range(1, 6)]
        if n == 'eval_nary':
            roles = dict(out=a[0], x=a[1])
            ops = [('Slice', None), ('Const', None)]
        elif n == 'diff_nary':
            roles = dict(out_val=a[0], out_der=a[1], x=a[2], d=a[3])
            ops = [('Slice', 'Slice'), ('Slice', 'Const'), ('Const', 'Const')]
        else:
            A1 = a[0]
            roles = {r: mk('fld', A1, 'GradKernelCtx', q) for r, q in (('out_val', 'out_val'), ('out_grad', 'out_grad'), ('x', 'args'), ('d', 'arg_grads'), ('n_rows', 'n_rows'), ('n_dir', 'n_dir'))}
            ops = [('Slice', 'Slice'), ('Slice', 'Basis'), ('Slice', 'Zero'), ('Const', 'Basis'), ('Const', 'Zero')]
        d = n != 'eval_nary'
        shapes = [Shape(1, [x], [y] if d else None) for x, y in ops]
        shapes += [Shape(2, [x, z], [y, w] if d else None) for x, y in ops for z, w in ops]
        shapes += [Shape(None)] + ([] if d else [Shape(None, allconst=True)])
        res.append((n, f, roles, shapes, n == 'grad_nary'))
    return res


@rule('P21', 'every path of the evaluation, derivative and gradient kernels, for each arity class and each combination of operand kinds, writes to every row of every output the operator value (or the chain rule sum) of that row, or NaN', [
    'the iterator adaptors of the standard library visit every element in order, and zip_eq panics on unequal lengths',
    'operators are deterministic functions of their argument array',
    'no product of a partial derivative and an exactly zero derivative is relied on to be NaN'])
def p21(c):
    n = 0
    for name, f, roles, shapes, grad in kernels(c):
        for sh in shapes:
            K = Kernel(c, f, roles, sh, grad)
            w = K.F.where(0)
            key = f'{name} {sh!r}'
            try:
                ps = K.run()
            except Unknown as u:
                c.fail(key, w, str(u))
                continue
            c.ob(key + ' returns', bool(ps), w, 'no path returns for this combination of operands')
            for p, st in ps:
                n += 1
                for r in outs(roles):
                    c.ob(f'{key} {r}', st['cover'].get(r) is True or bool(st['nan'].get(r)), w, f'{r} is not written in every row on a path that returns')
    c.floor('returning paths of the kernels', n, 60)


def loops_of(items):
    for i in items:
        if isinstance(i, Loop):
            yield i
            for b in i.body:
                yield from loops_of(b.items)


def kept(K, t, p, facts, c, key, w):
    """value of a flag carried through a loop: it stays what it was unless an iteration finds a non-finite value"""
    L = next((L for L in loops_of(p.items) if t in L.accs), None)
    if L is None or t not in L.entries:
        return None
    ops = dict(K.F.phi_ops[t])
    for b in L.body:
        v = ops.get(b.nodes[-2])
        if v is None:
            return None
        v = rebuild(v, b.env)
        bad = any(x and not x[1] and computed(K, x[0]) for x in map(finite_of, b.facts))
        on, off = truth(v, b.facts, lambda x: True if x is t else None), truth(v, b.facts, lambda x: False if x is t else None)
        if c:
            c.ob(key + ' row flag', off is False and on is (not bad), w, 'the flag of later rows is not decided by the checks made: ' + show(v)[:100])
    return truth(L.entries[t], facts, lambda x: kept(K, x, p, facts, None, key, w))


def truth(t, facts, flag=None):
    """value of a returned flag under the facts of its path"""
    if t.op == 'phi' and flag:
        return flag(t)
    if t.op == 'const' and isinstance(t.a[0], (int, bool)):
        return bool(t.a[0])
    if t in facts:
        return True
    if neg(t) in facts:
        return False
    if t.op == 'not':
        v = truth(t.a[0], facts, flag)
        return None if v is None else not v
    if t.op in ('call', 'bin') or t.op in ('BitAnd', 'BitOr', 'and', 'or', 'eq', 'ne'):
        xs = [x for x in t.a if isinstance(x, T)]
        o = t.op if t.op not in ('call', 'bin') else str(t.a[0])
        if len(xs) == 2:
            a, b = truth(xs[0], facts, flag), truth(xs[1], facts, flag)
            if o.endswith(('BitAnd', 'and', 'bitand')):
                return False if a is False or b is False else None if None in (a, b) else True
            if o.endswith(('BitOr', 'or', 'bitor')):
                return True if a or b else None if None in (a, b) else False
            if None not in (a, b) and o in ('eq', 'ne'):
                return (a == b) == (o == 'eq')
    return None


def finite_of(f):
    """(x, polarity) of a fact about is_finite(x)"""
    n = True
    while f.op == 'not':
        f, n = f.a[0], not n
    if f.op == 'call' and f.a[0].split('::')[-1] == 'is_finite':
        return f.a[1], n
    return None


def computed(K, t):
    """a value the kernel computed for some row"""
    while t.op in ('ref', 'refm', 'deref') and isinstance(t.a[0], T) and not (len(t.a) > 1 and t.a[1]):
        t = t.a[0]
    if t.op in ('elem', 'idx') and K.buffer(t.a[0]) is not None:
        return True
    if t.op == 'call' and (t.a[0].endswith('Operator::eval') or t.a[0].split('::')[-1] == 'call' and K.is_op(t.a[1], 'eval')):
        return True
    if t.op == 'phi' and any(mentions(x, lambda y: y.op == 'call' and y.a[0].endswith('Operator::partial')) for x in K.F.phi_closure(t)):
        return True
    for row in [None] + [i for i in K.siterows]:
        try:
            K.row = row
            v = K.scalar(t, row, ())
        except Unknown:
            continue
        if isinstance(v, RF) and (same(v, V('eval')) or same(v, V('sum'))):
            return True
    return False


@rule('P20', 'for each setting of the options, arity class and combination of operand kinds, every returning path of the kernels reports completion exactly as the finiteness checks on that path decide, and overwrites the outputs with NaN exactly when it stops early', [
    'is_finite of the scalar type is the usual predicate'])
def p20(c):
    n = 0
    for name, f, roles, shapes, grad in kernels(c):
        val = 'out' if 'out' in roles else 'out_val'
        for sh in shapes:
            for cf in (False, True):
                for ee in (False, True):
                    K = Kernel(c, f, roles, sh, grad)
                    w = K.F.where(0)
                    K.lenient = True
                    K.opts = dict(check_finite=cf, early_exit=ee)
                    key = f'{name} {sh!r} check_finite={cf} early_exit={ee}'.replace('False', 'off').replace('True', 'on')
                    try:
                        ps = K.run()
                    except Unknown as u:
                        c.fail(key, w, str(u))
                        continue
                    c.ob(key + ' returns', bool(ps), w, 'no path returns for this combination')
                    res = set()
                    for p, st in ps:
                        n += 1
                        r = truth(p.ret, p.facts, lambda t: kept(K, t, p, p.facts, c, key, w))
                        res.add(r)
                        fin = [finite_of(h) for h in p.hist]
                        fin = [x for x in fin if x]
                        nan = [o for o in outs(roles) if st['nan'].get(o)]
                        if r is None:
                            c.fail(key, w, 'the reported flag is not decided by the checks made: ' + show(p.ret)[:120])
                        elif r:
                            c.ob(key + ' values kept', not nan, w, 'reports success after overwriting outputs with NaN')
                            ok = not cf or any(b == val and not any(x.op == 'elem' and x.a[1] == s and not y for x, y in fin) for b, s in st['scans'])
                            if not ok:
                                v = st.get('fill', {}).get(val)
                                ok = v is not None and any(y and x is v for x, y in fin)
                            c.ob(key + ' success', ok, w, 'reports success without having checked that every value is finite')
                        else:
                            c.ob(key + ' unchecked', cf, w, 'reports failure although finiteness is not to be checked')
                            c.ob(key + ' failure', any(not y and computed(K, x) for x, y in fin), w, 'reports failure without having found a non-finite value')
                            if ee:
                                c.ob(key + ' stop', len(nan) == len(outs(roles)), w, 'stops early without overwriting every output with NaN')
                            else:
                                c.ob(key + ' continue', not nan, w, 'overwrites outputs with NaN although early exit is off')
                    if cf:
                        c.ob(key + ' detects', False in res, w, 'no path reports a non-finite value')
    c.floor('returning paths of the kernels', n, 200)
