"""Compiled plans: what compiling an expression emits, and what running a plan reads and writes."""
from sa.core import *
from sa.rulelib import *
from sa.rulelib import _DUMMY
from sa.algebra import *
from sa.algebra import Split
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T
from rules import rule


def last(e):
    return (e.cn or '').split('::')[-1]


def bare(t):
    while t.op in ('ref', 'refm') and not t.a[1] and isinstance(t.a[0], T):
        t = t.a[0]
    return t


def argof(F, pred):
    """parameter of a given type"""
    for k in range(1, F.f.argc + 1):
        L = F.f.locals[k]
        if pred(L['ty']):
            return mk('arg', k, L.get('n', ''))
    return None


def is_const(t, v):
    return t.op == 'const' and not isinstance(t.a[0], bool) and t.a[0] == v


class Drive:
    """one evaluation driver under fixed options"""

    def __init__(self, c, fn, kind, cf, ee, variable=None):
        self.c, self.kind = c, kind
        self.F = F = c.ctx.flow(fn, ('compile_plan', 'build_node_hash'))
        self.cf, self.ee, self.variable = cf, ee, variable
        self.expr = argof(F, lambda t: 'PostfixExpr' in t)
        self.x = argof(F, lambda t: 'ArrayBase' in t and 'ViewRepr' in t or 'ArrayView' in t)
        self.plan = argof(F, lambda t: 'EvalPlan' in t)
        self.out = argof(F, lambda t: t.startswith('&mut [') or t.startswith('&') and 'mut [' in t)
        self.direction = argof(F, lambda t: t == 'usize')
        self.var = argof(F, lambda t: t == 'bool')
        self.flags = set()
        self.homes, self.bufs = {}, {}
        self.bh = {}
        self.instr = None
        for n in F.n:
            for e in n.events:
                if e.k == 'call' and isinstance(e.res, T) and e.res.op == 'call' and isinstance(e.res.a[-1], int) and last(e) in ('as_slice_mut', 'as_slice', 'as_mut_slice'):
                    self.homes[e.res.a[-1]] = self.home(e.raw[0])

    def home(self, a):
        """name of the place a mutable reference points to"""
        if a.op in ('ref', 'refm'):
            r, p = a.a[0], a.a[1]
            return (r.id if isinstance(r, T) else r, tuple(e[2] for e in p if e[0] == 'f'))
        while a.op == 'fld':
            return (a.a[0].id, (a.a[2],))
        return (a.id, ())

    def decide(self, f, facts):
        if f in facts:
            return True
        if neg(f) in facts:
            return False
        if f.op == 'not':
            r = self.decide(f.a[0], facts)
            return None if r is None else not r
        if f.op == 'fld' and f.a[1].endswith('EvalOptions'):
            return self.cf if f.a[2] == 'check_finite' else self.ee if f.a[2] == 'early_exit' else None
        if self.var is not None and f is self.var:
            return self.variable
        if f.op in ('is', 'isnt'):
            for g in facts:
                if g.op == 'is' and g.a[0] is f.a[0] and g.a[1] != f.a[1]:
                    return f.op == 'isnt'
        if f.op == 'const' and isinstance(f.a[0], (bool, int)):
            return bool(f.a[0])
        return None

    # ---- numbers
    def num(self, t):
        def leaf(x):
            if x.op == 'cast':
                return leaf(x.a[0])
            if x.op == 'const' and isinstance(x.a[0], int) and not isinstance(x.a[0], bool):
                return C(x.a[0])
            if x.op == 'fld' and x.a[2] == 'dst' and self.is_instr(x.a[0]):
                return V('dst')
            if x.op == 'call' and x.a[0].split('::')[-1] in ('ncols', 'nrows') and bare(x.a[1]) is self.x:
                return V('n' if x.a[0].endswith('ncols') else 'nf')
            if is_call(x, 'len') and is_fld(x.a[1], 'consts') and bare(x.a[1].a[0]) is self.expr:
                return V('nc')
            if is_call(x, 'len') and self.out is not None and bare(x.a[1]) is self.out:
                return V('n')
            if x.op == 'fld' and x.a[2] == 'n_rows':
                return V('n')
            if x.op == 'vf' and x.a[1] in ('Var', 'Const', 'Slot'):
                return V(f'#{x.a[0].id}')
            if x is self.direction:
                return V('direction')
            if x.op == 'phi':
                vs = set()
                for y in self.F.phi_closure(x):
                    if y.op != 'phi':
                        v = leaf(y)
                        vs.add(v.key() if hasattr(v, 'key') else str(v))
                        r = v
                if len(vs) == 1:
                    return r
            return None
        return Eval(Region(), leaf)(t)

    def same(self, a, b):
        try:
            return not (self.num(a) - b).n if isinstance(a, T) else not (a - b).n
        except Unknown:
            return False

    def is_instr(self, t):
        t = bare(t)
        return t.op == 'elem' and self.instrs(t.a[0]) or t.op == 'idx' and self.instrs(t.a[0]) and isinstance(t.a[1], T) and self.whole_index(t.a[1])

    def whole_index(self, t):
        """position in a loop over 0..number of instructions"""
        if t.op == 'pos':
            return self.instrs(t.a[0])
        return t.op == 'elem' and self.all_instrs(t.a[0])

    def all_instrs(self, s):
        s = bare(s)
        if s.op == 'agg' and s.a[0].endswith('Range'):
            return is_const(s.a[2], 0) and is_call(s.a[3], 'len') and self.instrs(s.a[3].a[1])
        if is_call(s, 'enumerate', 'into_iter'):
            return self.all_instrs(s.a[1])
        return self.instrs(s)

    def instrs(self, t):
        """the whole instruction list of the plan"""
        t = bare(t)
        if is_call(t, 'iter', 'copied', 'cloned', 'into_iter'):
            return self.instrs(t.a[1])
        if t.op == 'phi':
            return all(self.instrs(y) for y in self.F.phi_closure(t) if y.op != 'phi')
        return t.op == 'fld' and t.a[2] == 'instrs' and self.is_plan(t.a[0])

    def is_plan(self, t):
        t = bare(t)
        if t.op == 'phi':
            return all(self.is_plan(y) for y in self.F.phi_closure(t) if y.op != 'phi')
        if t.op == 'vf' and t.a[1] == 'Some':
            return self.is_plan(t.a[0])
        if t.op == 'agg' and t.a[0].endswith('Some'):
            return self.is_plan(t.a[2])
        if self.plan is not None and t is self.plan:
            return True
        return t.op == 'fld' and t.a[2] == 'plan' or is_call(t, 'compile_plan')

    # ---- memory
    def absl(self, t):
        """(base, offset, length or None) of a slice"""
        t = bare(t)
        if t.op == 'fld' and t.a[2] in '01' and is_call(t.a[0], 'split_at_mut', 'split_at'):
            s = t.a[0]
            b, o, n = self.absl(s.a[1])
            m = self.num(s.a[2])
            return (b, o, m) if t.a[2] == '0' else (b, o + m, None if n is None else n - m)
        if is_call(t, 'index', 'index_mut', 'get') and len(t.a) > 2 and t.a[2].op == 'agg':
            b, o, n = self.absl(t.a[1])
            r = t.a[2]
            k = r.a[0].split('::')[-1]
            if k == 'Range':
                lo, hi = self.num(r.a[2]), self.num(r.a[3])
                return b, o + lo, hi - lo
            if k == 'RangeFrom':
                lo = self.num(r.a[2])
                return b, o + lo, None if n is None else n - lo
            if k == 'RangeTo':
                return b, o, self.num(r.a[2])
            if k == 'RangeFull':
                return b, o, n
            raise Unknown('a slice by ' + k)
        if t.op == 'upd' and t.a[2] == 0:
            return self.absl(t.a[3])
        if t.op == 'phi':
            bs = set()
            if t in self.bufs:
                return self.bufs[t], C(0), None
            st, seen = [t], set()
            while st:
                y = st.pop()
                if y in seen:
                    continue
                seen.add(y)
                if y.op == 'upd' and y.a[2] == 0:
                    st.append(y.a[3])
                elif y.op == 'phi':
                    st += [z for z in self.F.phi_closure(y) if z is not y]
                else:
                    b, o, n = self.absl(y)
                    if o.n:
                        raise Unknown('a slice that moves')
                    bs.add(b)
            if len(bs) == 1:
                self.bufs[t] = next(iter(bs))
            if len(bs) == 1:
                return bs.pop(), C(0), None
            raise Unknown('a slice of several buffers')
        if t.op == 'vf' and t.a[1] == 'Some' or is_call(t, 'expect', 'unwrap'):
            s = t.a[0] if t.op == 'vf' else t.a[1]
            if is_call(s, 'as_slice') and bare(s.a[1]) is self.x:
                return 'x', C(0), None
            if s.op == 'call' and s.a[-1] in self.homes:
                return self.homes[s.a[-1]], C(0), None
        raise Unknown('an unknown buffer ' + show(t)[:100])

    def slice_is(self, t, base, off, ln):
        b, o, n = self.absl(t)
        return b == base and not (o - off).n and n is not None and not (n - ln).n

    # ---- one instruction
    def arrays(self, items, facts):
        """writes to elements of local arrays: (array key, position term, value, facts), and fully covered arrays"""
        ws, cov, lens = [], {}, {}

        def visit(its, fs):
            for it in its:
                if isinstance(it, Loop):
                    here = None
                    for b in it.body:
                        n0 = len(ws)
                        visit(b.items, fs + b.facts)
                        got = {w[0] for w in ws[n0:]}
                        here = got if here is None else here & got
                    for k in here or ():
                        cov.setdefault(k, []).append(it)
                    continue
                e, x, env = it
                if e.k != 'write' or not isinstance(e.value, T):
                    continue
                k = self.element(e, env)
                if k is not None:
                    ws.append((k[0], k[1], rebuild(e.value, env), fs))
        visit(items, facts)
        return ws, cov

    def element(self, e, env):
        if isinstance(e.root, T):
            t = rebuild(e.root, env)
            for el in e.path:
                t = _DUMMY.proj1(t, el)
            t = rebuild(t, env)
            if t.op == 'elem':
                s = t.a[0]
                while is_call(s, 'take', 'enumerate', 'skip', 'rev'):
                    if is_call(s, 'skip', 'rev'):
                        return None
                    s = s.a[1]
                if is_call(s, 'iter_mut'):
                    return ('m', s.a[-1]), t
            return None
        if len(e.path) == 1 and e.path[0][0] == 'i':
            return ('l', e.root), rebuild(e.path[0][1], env)
        return None

    def over_args(self, L):
        """a loop over all operands of the instruction"""
        def leaves(s):
            if is_call(s, 'zip', 'zip_eq'):
                return leaves(s.a[1]) + leaves(s.a[2])
            if is_call(s, 'enumerate', 'copied', 'cloned', 'into_iter', 'iter'):
                return leaves(s.a[1])
            return [s]

        def ok(s):
            if is_call(s, 'take'):
                return self.arity(s.a[2])
            if s.op == 'agg' and s.a[0].endswith('Range'):
                return is_const(s.a[2], 0) and self.arity(s.a[3])
            if is_call(s, 'index') and s.a[2].op == 'agg' and s.a[2].a[0].endswith('RangeTo'):
                return self.arity(s.a[2].a[2])
            return is_call(s, 'iter_mut') or s.op == 'fld' and s.a[2] == 'args'
        ls = leaves(L.src) if L.src is not None else []
        return any(ok(s) and not is_call(s, 'iter_mut') and s.op != 'fld' for s in ls) and all(ok(s) for s in ls)

    def arity(self, t):
        while t.op == 'cast':
            t = t.a[0]
        return t.op == 'fld' and t.a[2] == 'arity' and self.is_instr(t.a[0])

    def posn(self, t):
        """normal form of an operand position"""
        if t.op == 'pos':
            return t.a[1]
        if t.op == 'elem' and t.a[0].op == 'agg' and t.a[0].a[0].endswith('Range') and is_const(t.a[0].a[2], 0):
            return t.a[1]
        if t.op == 'elem':
            return t.a[1]
        return t

    def source(self, facts, j):
        """(operand source term, variant) established by the facts for position j"""
        out = set()
        for f in facts:
            if f.op == 'is' and f.a[1] in ('Var', 'Const', 'Slot'):
                s = bare(f.a[0])
                if s.op == 'idx' and s.a[0].op == 'fld' and s.a[0].a[2] == 'args' and self.is_instr(s.a[0].a[0]) and self.posn(s.a[1]) == j:
                    out.add((s, f.a[1]))
                elif s.op == 'elem' and self.posn(s) == j and s.a[0].op == 'fld' and s.a[0].a[2] == 'args':
                    out.add((s, f.a[1]))
        if len(out) != 1:
            raise Unknown(f'{len(out)} sources for an operand')
        return out.pop()

    def lower(self, v, what, src, var, base):
        """is v the reference expected for a source of this kind"""
        s = V(f'#{src.id}')
        n = V('n')
        kind = v.a[0].split('::')[-1] if v.op == 'agg' else None
        if what == 'val':
            if var == 'Const':
                return kind == 'Const' and self.konst(v.a[2], src)
            return kind == 'Slice' and (self.slice_is(v.a[2], 'x', s * n, n) if var == 'Var' else self.slice_is(v.a[2], base, s * n, n))
        if what == 'grad':
            nd = n * self.nd()
            if var == 'Slot':
                return kind == 'Slice' and self.slice_is(v.a[2], base, s * nd, nd)
            own = (var == 'Var') == bool(self.variable)
            return kind == 'Basis' and self.same(v.a[2], s) if own else kind == 'Zero'
        raise Unknown(what)

    def lower_der(self, v, src, var, base, facts):
        s = V(f'#{src.id}')
        n = V('n')
        kind = v.a[0].split('::')[-1] if v.op == 'agg' else None
        if var == 'Slot':
            return kind == 'Slice' and self.slice_is(v.a[2], base, s * n, n)
        if kind != 'Const':
            return False
        one, zero = is_call(v.a[2], 'one'), is_call(v.a[2], 'zero')
        if var == 'Const':
            return zero
        return one if self.eqdir(facts, s) else zero if self.eqdir(facts, s, 'ne') else False

    def eqdir(self, facts, s, op='eq', other=None):
        other = V('direction') if other is None else other
        for f in facts:
            if f.op == op:
                try:
                    a, b = self.num(f.a[0]), self.num(f.a[1])
                except Unknown:
                    continue
                if same(a, s) and same(b, other) or same(b, s) and same(a, other):
                    return True
        return False

    def konst(self, t, src):
        return t.op == 'idx' and is_fld(bare(t.a[0]), 'consts') and bare(bare(t.a[0]).a[0]) is self.expr and self.same(t.a[1], V(f'#{src.id}'))

    def nd(self):
        return V('nf') if self.variable else V('nc')

    def step(self, items, at, facts):
        """check the operator call at items[at]"""
        e, x, env = items[at]
        a = [rebuild(y, env) for y in e.args]
        op, kx = a[0], a[1]
        w = self.F.where(x)
        if not (op.op == 'agg' and kx.op == 'agg'):
            raise Unknown(f'the operator call is not built in place [{w}]')
        d = dict(zip(op.a[1], op.a[2:]))
        for k, v in d.items():
            if k in ('arity', 'id'):
                v2 = bare(v)
                if not (v2.op == 'fld' and v2.a[2] == ('arity' if k == 'arity' else 'op') and self.is_instr(v2.a[0])):
                    raise Unknown(f'operator {k} is {show(v)[:80]} [{w}]')
        d = dict(zip(kx.a[1], kx.a[2:]))
        n = V('n')
        grad = self.kind == 'grad'
        spec = {'eval': {'out': 'v', 'args': 'val'}, 'diff': {'out_val': 'v', 'out_der': 'd', 'args': 'val', 'dargs': 'der'},
                'grad': {'out_val': 'v', 'out_grad': 'd', 'args': 'val', 'arg_grads': 'grad'}}[self.kind]
        base = {}
        for k, r in spec.items():
            if r in 'vd':
                b, o, l = self.absl(d[k])
                st = n * self.nd() if grad and r == 'd' else n
                if (o - V('dst') * st).n or l is None or (l - st).n:
                    raise Unknown(f'{k} is not the slot of the instruction: offset {o}, length {l} [{w}]')
                if b == 'x' or b in base.values():
                    raise Unknown(f'{k} shares its buffer [{w}]')
                base[r] = b
        for k, b in base.items():
            if self.bh.setdefault(k, b) != b:
                raise Unknown(f'another buffer than in other iterations [{w}]')
        if grad:
            for k, want in (('n_dir', self.nd()), ('n_rows', n)):
                if not self.same(d[k], want):
                    raise Unknown(f'{k} is {show(d[k])[:80]} [{w}]')
        ws, cov = self.arrays(items[:at], facts)
        for k, r in spec.items():
            if r in 'vd':
                continue
            arr = bare(d[k])
            if is_call(arr, 'index') and arr.a[2].op == 'agg' and arr.a[2].a[0].endswith(('RangeTo', 'Range')):
                hi = arr.a[2].a[-1]
                if not self.arity(hi) or arr.a[2].a[0].endswith('::Range') and not is_const(arr.a[2].a[2], 0):
                    raise Unknown(f'{k} is not cut to the number of operands [{w}]')
                arr = bare(arr.a[1])
            else:
                raise Unknown(f'{k} is not an array cut to the number of operands [{w}]')
            key = ('m', arr.a[1]) if arr.op == 'upd' and arr.a[0].endswith('iter_mut') else self.local_of(arr)
            full = [L for L in cov.get(key, ()) if self.over_args(L)]
            if not full:
                raise Unknown(f'{k} is not filled for every operand [{w}]')
            seen = set()
            for kk, j, v, fs in ws:
                if kk != key:
                    continue
                src, var = self.source(fs, self.posn(j))
                seen.add(var)
                ok = self.lower_der(v, src, var, base['d'], fs) if r == 'der' else self.lower(v, r, src, var, base['v' if r == 'val' else 'd'])
                if not ok:
                    raise Unknown(f'{k}: an operand of kind {var} is read from {show(v)[:160]} [{w}]')
            if seen != {'Var', 'Const', 'Slot'}:
                raise Unknown(f'{k}: operands of kind {sorted(seen)} only [{w}]')

    def local_of(self, arr):
        if arr.op == 'phi' and arr in self.F.phi_key:
            k = self.F.phi_key[arr][1]
            return ('l', k[0]) if k[1] == () else None
        return None

    def is_op(self, e):
        return e.k == 'call' and isinstance(e.res, T) and e.res.op == 'call' and e.res.a[0].endswith('OperatorSet::' + self.kind)

    # ---- the whole run
    def run(self):
        w = Walk(self.F, self.decide, lim=20000)
        self.w = w
        return [p for p in w.paths() if p.end == 'ret']

    def calls_of(self, items, facts):
        """operator calls of a path, each checked; [(result, inside a loop?)]"""
        out = []
        for i, it in enumerate(items):
            if isinstance(it, Loop):
                for b in it.body:
                    inner = self.calls_of(b.items, facts + b.facts)
                    out += [(r, it, b) for r, _, _ in inner]
                continue
            if self.is_op(it[0]):
                self.stepc(items, i, facts)
                out.append((rebuild(it[0].res, it[2]), None, None))
        return out

    done = None

    def stepc(self, items, i, facts):
        # the arguments of a call depend only on what precedes it in its iteration
        if self.done is None:
            self.done = {}
        start = max([k for k, it in enumerate(items[:i]) if not isinstance(it, Loop) and it[0].k == 'call' and isinstance(it[0].res, T) and it[0].res.op == 'next' and self.all_instrs(rebuild(it[0].res.a[0], it[2]))] or [0])
        e, x, env = items[i]
        self.step(items[start:], i - start, facts)

    def conj(self, t, p, d=0):
        """the results a returned flag is the conjunction of; None when it is false"""
        if d > 40:
            raise Unknown('flag')
        if t.op == 'const' and isinstance(t.a[0], (int, bool)):
            return set() if t.a[0] else None
        for f in p.hist + p.facts:
            if f is t:
                return {t}
            if f is neg(t):
                return None
        if t.op in ('BitAnd', 'and'):
            a, b = self.conj(t.a[0], p, d + 1), self.conj(t.a[1], p, d + 1)
            return None if a is None or b is None else a | b
        if t.op == 'call' and t.a[0].endswith('OperatorSet::' + self.kind):
            return {t}
        if t.op == 'phi':
            L = next((L for L in self.loops(p.items) if t in L.accs), None)
            if L is None:
                raise Unknown('flag ' + show(t))
            if t not in L.entries:
                raise Unknown('flag')
            self.flags.add(t)
            e = self.conj(L.entries[t], p, d + 1)
            ops = dict(self.F.phi_ops[t])
            out = set()
            for b in L.body:
                v = rebuild(ops[b.nodes[-2]], b.env) if b.nodes[-2] in ops else None
                if v is None:
                    raise Unknown('flag')
                if v is t:
                    r = set()
                else:
                    r = self.conj2(v, t, b)
                    if t not in r and not (self.ee and (v in b.facts or v.op == 'const')):
                        raise Unknown('an earlier failure is forgotten')
                    r = r - {t}
                out |= {(L.node, id(b), x) for x in r}
            return None if e is None else e | out
        raise Unknown('flag ' + show(t)[:80])

    def conj2(self, v, acc, b):
        if v is acc:
            return {acc}
        if v.op in ('BitAnd', 'and'):
            return self.conj2(v.a[0], acc, b) | self.conj2(v.a[1], acc, b)
        if v.op == 'call' and v.a[0].endswith('OperatorSet::' + self.kind):
            return {v}
        if v.op == 'const' and v.a[0]:
            return set()
        if v.op == 'const' and any(f.op == 'not' and self.opcall(f.a[0]) for f in b.facts):
            return {acc}
        raise Unknown('flag ' + show(v)[:80])

    def falsy(self, t):
        return t.op == 'const' and not t.a[0] or t.op in ('BitAnd', 'and')

    def opcall(self, t):
        return t.op == 'call' and t.a[0].endswith('OperatorSet::' + self.kind)

    def flag(self, p, r, root_bad):
        """is the returned flag r the conjunction of every operator result and the finiteness of a constant root"""
        self.flags = set()
        v = self.conj(r, p)
        failed = any(f.op == 'not' and self.opcall(f.a[0]) for f in p.hist + p.facts)
        if v is None:
            if not root_bad and not failed:
                raise Unknown('reports failure although nothing failed')
            return
        if failed:
            raise Unknown('reports success although an operator failed')
        if root_bad:
            raise Unknown('reports success for a non-finite constant')
        got = {x[2] if isinstance(x, tuple) else x for x in v}
        for L in self.loops(p.items):
            for b in L.body:
                for it in b.items:
                    if not isinstance(it, Loop) and self.is_op(it[0]):
                        x = rebuild(it[0].res, it[2])
                        k = b.nodes[-2]
                        if neg(x) in b.facts and not any(t in L.accs and k in dict(self.F.phi_ops[t]) and self.falsy(rebuild(dict(self.F.phi_ops[t])[k], b.env)) for t in self.flags):
                            raise Unknown('a failed operator call does not reach the flag')
                        if (L.node, id(b), x) not in v and x not in b.facts and neg(x) not in b.facts and x not in got:
                            raise Unknown('the result of an operator call does not reach the flag')

    def loops(self, items):
        for i in items:
            if isinstance(i, Loop):
                yield i
                for b in i.body:
                    yield from self.loops(b.items)


def same(a, b):
    return isinstance(a, RF) and isinstance(b, RF) and not (a - b).n


def drivers(c):
    for kind, n in (('eval', 'evaluate::eval_plan_array_into'), ('diff', 'evaluate_derivative::eval_diff_tree_array'), ('grad', 'evaluate_derivative::eval_grad_tree_array')):
        f = c.p.fn(n)
        for cf in (False, True):
            for ee in (False, True):
                for var in ((False, True) if kind == 'grad' else (None,)):
                    yield kind, f, cf, ee, var


class Root:
    """what a driver hands back after the last instruction"""

    def __init__(self, D, p):
        self.D, self.p = D, p
        self.facts = p.facts + p.hist
        out = set()
        for f in p.facts:
            if f.op == 'is' and f.a[1] in ('Var', 'Const', 'Slot'):
                s = bare(f.a[0])
                if s.op == 'fld' and s.a[2] == 'root' and D.is_plan(s.a[0]):
                    out.add((s, f.a[1]))
        self.root = out.pop() if len(out) == 1 else None

    def desc(self, t, stride):
        """contents of an output buffer: slice, fill, basis"""
        D = self.D
        t = bare(t)
        if t.op == 'phi':
            raise Unknown('output ' + show(t))
        if t.op == 'upd' and t.a[2] == 0:
            n = t.a[0].split('::')[-1]
            if n in ('copy_from_slice', 'clone_from_slice'):
                return ('slice', *D.absl(t.a[4]))
            if n == 'fill':
                return ('fill', t.a[4])
            if n == 'index_mut':
                return self.part(t, stride)
            if n in ('iter_mut', 'into_iter', 'chunks_mut', 'chunks_exact_mut'):
                return self.elements(t, stride)
        if is_call(t, 'from_elem'):
            return ('fill', t.a[1])
        if is_call(t, 'to_vec', 'to_owned', 'into_vec'):
            return ('slice', *D.absl(t.a[1]))
        raise Unknown('output ' + show(t)[:120])

    def part(self, t, stride):
        """zeros with one direction's rows overwritten by ones"""
        D = self.D
        before = self.desc(t.a[3], stride)
        evs = []
        for it in self.p.items:
            if isinstance(it, Loop) or it[0].k != 'call' or last(it[0]) != 'fill':
                continue
            a = bare(rebuild(it[0].args[0], it[2]))
            if a.op == 'call' and a.a[-1] == t.a[1] and a.a[0].endswith('index_mut'):
                evs.append((a, rebuild(it[0].args[1], it[2])))
        if len(evs) != 1 or self.root is None or before[0] != 'fill' or not is_call(before[1], 'zero'):
            raise Unknown('an output overwritten in part')
        a, v = evs[0]
        r = a.a[2]
        k = r.a[0].split('::')[-1] if r.op == 'agg' else None
        s = V(f'#{self.root[0].id}')
        if k != 'Range' or not is_call(v, 'one') or (D.num(r.a[2]) - s * V('n')).n or (D.num(r.a[3]) - (s + C(1)) * V('n')).n:
            raise Unknown('an output overwritten in part')
        return ('basis',)

    def elements(self, t, stride):
        D = self.D
        site, chunk = t.a[1], 'chunks' in t.a[0]
        if chunk and not D.same(t.a[4], V('n')):
            raise Unknown('chunks of another size')
        before = self.desc(t.a[3], stride)
        vals = []

        def visit(its, fs, L):
            for it in its:
                if isinstance(it, Loop):
                    for b in it.body:
                        k = len(vals)
                        visit(b.items, fs + b.facts, it)
                        if self.over(it, site) and len(vals) == k:
                            vals.append((None, fs + b.facts, it))
                    continue
                e, x, env = it
                if e.k == 'call' and last(e) == 'fill' and chunk:
                    a = bare(rebuild(e.args[0], env))
                    if a.op == 'elem' and self.src(a.a[0], site):
                        vals.append((rebuild(e.args[1], env), fs, L))
                if e.k == 'write' and not chunk and isinstance(e.root, T):
                    a = rebuild(e.root, env)
                    if a.op == 'elem' and self.src(a.a[0], site):
                        vals.append((rebuild(e.value, env), fs, L))
        visit(self.p.items, self.p.facts, None)
        if not vals:
            # the loop body never ran on this path: nothing to cover
            if any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and self.src(f.a[0].a[0], site) for f in self.facts):
                return ('none',)
            raise Unknown('output filled otherwise')
        s = V(f'#{self.root[0].id}') if self.root else None
        for v, fs, L in vals:
            if v is None:
                v = before[1] if before[0] == 'fill' else None
            if chunk:
                eq = any(D.eqdir((f,), s, 'eq', V('@')) or self.eqpos(f, s, 'eq', site) for f in fs)
                ne = any(self.eqpos(f, s, 'ne', site) for f in fs)
            else:
                eq, ne = D.eqdir(fs, s), D.eqdir(fs, s, 'ne')
            if not (eq and is_call(v, 'one') or ne and is_call(v, 'zero')):
                raise Unknown(f'output element {show(v)[:60]}')
        return ('basis',)

    def src(self, s, site):
        while is_call(s, 'enumerate', 'take'):
            if is_call(s, 'take') and not self.D.same(s.a[2], self.D.nd()):
                return False
            s = s.a[1]
        return s.op == 'call' and s.a[-1] == site

    def over(self, L, site):
        return L.src is not None and self.src(L.src, site)

    def eqpos(self, f, s, op, site):
        if f.op != op:
            return False
        for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
            if a.op == 'pos' and self.src(a.a[0], site) and self.D.same(b, s):
                return True
        return False

    def check(self):
        D, p = self.D, self.p
        if self.root is None:
            raise Unknown('the kind of the result is not distinguished')
        src, var = self.root
        s, n = V(f'#{src.id}'), V('n')
        if D.kind == 'eval':
            h = D.home(D.out)
            evs = [it for it in p.items if not isinstance(it, Loop) and it[0].k == 'call' and last(it[0]) in ('copy_from_slice', 'clone_from_slice', 'fill') and D.home(it[0].raw[0]) == h]
            if not evs:
                raise Unknown('the output is not written')
            e, x, env = evs[-1]
            a = rebuild(e.args[1], env)
            outs = [('v', ('fill', a) if last(e) == 'fill' else ('slice', *D.absl(a)), n)]
        else:
            r = p.ret
            if r.op != 'agg':
                raise Unknown('result ' + show(r)[:80])
            g = bare(r.a[3])
            st = n
            if D.kind == 'grad':
                d = dict(zip(g.a[1], g.a[2:])) if g.op == 'agg' else {}
                if set(d) != {'data', 'n_dir', 'n_rows'} or not D.same(d['n_dir'], D.nd()) or not D.same(d['n_rows'], n):
                    raise Unknown('the shape of the gradient')
                g, st = d['data'], n * D.nd()
            outs = [('v', self.desc(r.a[2], n), n), ('d', self.desc(g, st), st)]
            for q, ln in ((r.a[2], n), (g, st)):
                b = bare(q)
                while b.op == 'upd':
                    b = b.a[3]
                if is_call(b, 'from_elem') and not D.same(b.a[2], ln):
                    raise Unknown('the length of an output')
        for k, d, st in outs:
            if k == 'v':
                ok = var == 'Const' and d[0] == 'fill' and D.konst(d[1], src) or \
                    var != 'Const' and d[0] == 'slice' and d[1] == ('x' if var == 'Var' else D.bh.get('v')) and same(d[2], s * n) and d[3] is not None and same(d[3], n)
                if var == 'Slot' and 'v' not in D.bh:
                    ok = d[0] == 'slice' and d[1] != 'x' and same(d[2], s * n)
            elif var == 'Slot':
                ok = d[0] == 'slice' and d[1] == D.bh.get('d', d[1]) and d[1] not in ('x', D.bh.get('v')) and same(d[2], s * st) and d[3] is not None and same(d[3], st)
            else:
                own = var == 'Var' if D.kind == 'diff' else (var == 'Var') == bool(D.variable)
                ok = d[0] in ('basis', 'none') if own else d[0] == 'fill' and is_call(d[1], 'zero')
                if not ok and own and d[0] == 'fill' and D.kind == 'diff':
                    ok = is_call(d[1], 'one') and D.eqdir(p.facts, s) or is_call(d[1], 'zero') and D.eqdir(p.facts, s, 'ne')
            if not ok:
                raise Unknown(f'a result of kind {var} is returned as {d[0]} {show(d[1])[:80] if len(d) > 1 and isinstance(d[1], T) else d[1:]}')


def finished(D, p):
    """did the loop over the instructions run to its end on this path"""
    return any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and D.all_instrs(f.a[0].a[0]) for f in p.hist + p.facts)


@rule('P31', 'in each evaluation driver, for each option setting, every operator call on every path receives the operator, slot and operands its instruction names, every instruction is run, and the result is read from where the plan says', [
    'split_at_mut, index and copy_from_slice have their documented meaning; out-of-range slices panic',
    'plans come from compiling an expression'])
def p31(c):
    n = m = 0
    for kind, f, cf, ee, var in drivers(c):
        D = Drive(c, f, kind, cf, ee, var)
        w = D.F.where(0)
        key = f'{kind} check_finite={int(cf)} early_exit={int(ee)}' + ('' if var is None else f' variable={int(var)}')
        try:
            ps = D.run()
            for p in ps:
                m += len(D.calls_of(p.items, p.facts))
        except Unknown as u:
            c.fail(key + ' instruction', w, str(u))
            continue
        seen = set()
        for p in ps:
            n += 1
            fin = finished(D, p)
            if not fin:
                bad = [x for x in p.hist + p.facts if x.op == 'not' and x.a[0].op == 'call' and x.a[0].a[0].endswith('OperatorSet::' + kind)]
                c.ob(key + ' every instruction', ee and bool(bad), w, 'returns before the last instruction without a failed one')
                stopped(c, D, p, key, w)
                continue
            R = Root(D, p)
            isbad = R.root and R.root[1] == 'Const' and any(finite_no(x, D, R.root[0]) for x in p.hist + p.facts)
            if cf and R.root and R.root[1] == 'Const' and not isbad:
                c.ob(key + ' finite constant', any(finite_yes(x, D, R.root[0]) for x in p.hist + p.facts), w, 'a constant root is returned without a finiteness test')
            if isbad and ee and cf:
                stopped(c, D, p, key, w)
                continue
            try:
                D.flag(p, p.ret if kind == 'eval' else p.ret.a[4], bool(isbad and cf))
                c.ob(key + ' flag', True, w, '')
            except Unknown as u:
                c.fail(key + ' flag', w, str(u))
            try:
                R.check()
                seen.add(R.root[1])
                c.ob(key + ' result', True, w, '')
            except Unknown as u:
                c.fail(key + ' result', w, str(u))
        c.ob(key + ' kinds of result', seen == {'Var', 'Const', 'Slot'}, w, f'results of kind {sorted(seen)} only')
    c.floor('operator calls on paths', m, 100)
    c.floor('returning paths', n, 100)


def finite_of(t, D, src):
    if t.op == 'call' and t.a[0].split('::')[-1] == 'is_finite':
        return D.konst(bare(t.a[1]), src)
    return False


def finite_no(f, D, src):
    return f.op == 'not' and finite_of(f.a[0], D, src)


def finite_yes(f, D, src):
    return finite_of(f, D, src)


def stopped(c, D, p, key, w):
    """an evaluation given up early: reported as incomplete, with nothing but NaN in the outputs"""
    try:
        r = p.ret if D.kind == 'eval' else p.ret.a[4]
        c.ob(key + ' stopped flag', D.conj(r, p) is None, w, 'an evaluation given up early is reported as complete')
        if D.kind == 'eval':
            return
        g = bare(p.ret.a[3])
        st = V('n')
        if D.kind == 'grad':
            d = dict(zip(g.a[1], g.a[2:]))
            c.ob(key + ' stopped shape', D.same(d['n_dir'], D.nd()) and D.same(d['n_rows'], V('n')), w, 'the shape of the gradient of an evaluation given up early')
            g, st = d['data'], V('n') * D.nd()
        for t, ln in ((p.ret.a[2], V('n')), (g, st)):
            t = bare(t)
            ok = is_call(t, 'from_elem') and is_call(t.a[1], 'nan') and D.same(t.a[2], ln)
            c.ob(key + ' stopped output', ok, w, f'an evaluation given up early hands out {show(t)[:80]}')
    except (Unknown, AttributeError, IndexError, KeyError) as u:
        c.fail(key + ' stopped', w, f'result of an evaluation given up early not understood: {u}')


# ---------------------------------------------------------------- compiling
class Compile:
    """the loop that turns postfix nodes into instructions"""

    def __init__(self, c):
        self.c = c
        self.F = F = c.ctx.flow(c.p.fn('compile::compile_plan'), ('build_node_hash',))
        self.nodes = argof(F, lambda t: 'PNode' in t)
        c.need(self.nodes is not None, 'compile_plan takes the nodes')
        ps = [p for p in Walk(F, lambda f, fs: decided(f, fs)).paths() if p.end == 'ret']
        c.need(ps, 'compile_plan returns')
        self.paths = ps

    def seq(self, s):
        """all nodes in order, or all their positions"""
        s = bare(s)
        if is_call(s, 'iter', 'copied', 'cloned', 'into_iter', 'enumerate'):
            return self.seq(s.a[1])
        if s.op == 'agg' and s.a[0].endswith('Range'):
            return is_const(s.a[2], 0) and is_call(s.a[3], 'len') and bare(s.a[3].a[1]) is self.nodes
        return s is self.nodes

    def is_node(self, t):
        t = bare(t)
        if t.op == 'elem':
            return self.seq(t.a[0]) and not t.a[0].op == 'agg'
        return t.op == 'idx' and bare(t.a[0]) is self.nodes and isinstance(t.a[1], T) and t.a[1].op in ('elem', 'pos') and self.seq(t.a[1].a[0])

    def loop(self, p):
        Ls = [L for L in p.items if isinstance(L, Loop) and L.src is not None and self.seq(L.src)]
        if len(Ls) != 1:
            raise Unknown(f'{len(Ls)} loops over the nodes')
        return Ls[0]

    def ops(self, t, L, b, head):
        """operations on a vector since the loop head"""
        out = []
        n = 0
        while t is not head:
            n += 1
            if n > 60:
                raise Unknown('a vector changed in too many ways')
            if t.op == 'upd' and t.a[2] == 0:
                k = t.a[0].split('::')[-1]
                if k == 'push':
                    out.append(('push', t.a[4], t.a[1]))
                elif k == 'pop':
                    out.append(('pop', t, t.a[1]))
                elif k in ('reserve', 'reserve_exact', 'shrink_to_fit'):
                    pass
                elif k == 'extend':
                    out.append(('extend', t.a[4], t.a[1]))
                else:
                    raise Unknown('a vector changed by ' + k)
                t = t.a[3]
            elif t.op == 'phi':
                M = next((M for M in b.items if isinstance(M, Loop) and t in M.accs), None)
                if M is None or t not in M.entries:
                    raise Unknown('a vector ' + show(t)[:60])
                if any(self.after(t, mb) is not t for mb in M.body):
                    out.append(('loop', M, t))
                t = M.entries[t]
            else:
                raise Unknown('a vector ' + show(t)[:80])
        return out[::-1]

    def after(self, ph, b):
        d = dict(self.F.phi_ops[ph])
        if b.nodes[-2] not in d:
            raise Unknown('loop state')
        return rebuild(d[b.nodes[-2]], b.env)

    def arity(self, t):
        while t.op == 'cast':
            t = t.a[0]
        return t.op == 'vf' and t.a[1] == 'Op' and t.a[2] == 'arity' and self.is_node(t.a[0])

    def times(self, s):
        """+1: 0, 1, .. arity-1;  -1: backwards;  0: something else run arity times;  None: unknown"""
        s = self.leaf(s)
        if is_call(s, 'rev'):
            r = self.times(s.a[1])
            return -r if r is not None else None
        if is_call(s, 'into_iter', 'iter', 'copied', 'cloned'):
            return self.times(s.a[1])
        if s.op == 'agg' and s.a[0].endswith('Range') and is_const(s.a[2], 0) and self.arity(s.a[3]):
            return 1
        if is_call(s, 'take') and self.arity(s.a[2]):
            return 1
        if is_call(s, 'iter_mut') and is_call(bare(s.a[1]), 'index_mut', 'get_mut'):
            r = bare(s.a[1]).a[2]
            if r.op == 'agg' and r.a[0].endswith('RangeTo') and self.arity(r.a[2]) or r.op == 'agg' and r.a[0].endswith('::Range') and is_const(r.a[2], 0) and self.arity(r.a[3]):
                return 1
        if is_call(s, 'index'):
            r = s.a[2]
            if r.op == 'agg' and r.a[0].endswith('RangeTo') and self.arity(r.a[2]):
                return 1
        return None

    def leaf(self, s):
        """the one value a loop state stands for"""
        s = bare(s)
        if s.op == 'phi':
            ls = {y for y in self.F.phi_closure(s) if y.op != 'phi'}
            if len(ls) == 1:
                return bare(ls.pop())
        return s

    def num(self, t):
        def leaf(x):
            if x.op == 'cast':
                return leaf(x.a[0]) or Eval(Region(), leaf)(x.a[0])
            if self.arity(x):
                return V('a')
            if x.op == 'elem' and self.times(x.a[0]) is not None:
                return V('j') if self.times(x.a[0]) == 1 else V('a') - C(1) - V('j')
            return V(f'#{x.id}') if x.op in ('phi', 'vf') else None
        return Eval(Region(), leaf)(t)

    def lin(self, t, base, k):
        try:
            return not (self.num(t) - self.num(base) - C(k)).n
        except (Unknown, Split):
            return False

    def maxof(self, t):
        if is_call(t, 'max') and len(t.a) >= 3:
            return [x for x in t.a[1:3] if isinstance(x, T)]
        return None


def decided(f, fs):
    if f in fs:
        return True
    if neg(f) in fs:
        return False
    return None


def src_of(t):
    """(kind, index) of a Src value"""
    if t.op == 'agg' and '::Src::' in t.a[0]:
        return t.a[0].split('::')[-1], t.a[2]
    return None, None


@rule('P24', 'per kind of node, the effect of one iteration of the compiling loop on the operand stack, the instruction list and the slot allocator is the one the invariant "slots on the stack and free slots are all different and allocated" and the postfix reading need', [
    'fewer than 65536 slots are live at once', 'Vec push and pop have their documented meaning'])
def p24(c):
    K = Compile(c)
    F = K.F
    w = F.where(0)
    kinds = set()
    for p in K.paths:
        if any(isinstance(L, Loop) for L in p.items):
            one_plan(c, K, p, w, kinds)
    c.ob('kinds of nodes', kinds == {'Var', 'Const', 'Op'}, w, f'only {sorted(kinds)} handled')
    c.floor('kinds of nodes', len(kinds), 3)
    F2 = c.ctx.flow(c.p.fn('compile::build_node_hash'), ())
    n2 = argof(F2, lambda t: 'PNode' in t)
    for _, r in F2.returns():
        ok = is_call(r, 'finish') and mentions(r, lambda x: x.op == 'upd' and x.a[0].split('::')[-1] in ('hash', 'hash_slice') and bare(x.a[4]) is n2)
        c.ob('hash', ok, F2.where(0), f'the hash is {show(r)[:120]}, not one of all nodes')


def one_plan(c, K, p, w, kinds):
    F = K.F
    try:
        L = K.loop(p)
    except Unknown as u:
        c.fail('loop', w, str(u))
        return
    r = p.ret
    c.need(r is not None and r.op == 'agg' and r.a[0].endswith('EvalPlan'), 'compile_plan returns a plan built in place')
    d = dict(zip(r.a[1], r.a[2:]))
    I = d['instrs']
    ns = d['n_slots']
    while ns.op == 'cast':
        ns = ns.a[0]
    S = pop = None
    t = d['root']
    if t.op == 'vf' and t.a[1] == 'Some' and is_call(t.a[0], 'pop', 'last', 'first'):
        S, pop = t.a[0].a[1], t.a[0].a[-1]
    elif is_call(t, 'unwrap', 'expect') and is_call(t.a[1], 'pop', 'last', 'first'):
        S, pop = t.a[1].a[1], t.a[1].a[-1]
    elif t.op == 'idx':
        S = t.a[0]
    c.need(S is not None and S.op == 'phi' and S in L.accs, f'the root is what is left on the operand stack: {show(t)[:100]}')
    single = any(f.op == 'eq' and any(is_const(a, 1) and is_call(b, 'len') and b.a[1] is S or is_const(a, 0) and is_call(b, 'len') and b.a[1].op == 'upd' and b.a[1].a[0].endswith('pop') and b.a[1].a[3] is S for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0]))) or
                 f.op == 'call' and f.a[0].endswith('is_empty') and f.a[1].op == 'upd' and f.a[1].a[3] is S or
                 f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'pop') and f.a[0].a[1].op == 'upd' and f.a[0].a[1].a[3] is S for f in p.facts)
    c.ob('single root', single, w, 'a plan is returned although more than one value may be left')
    c.ob('hash of the nodes', is_call(d['hash'], 'build_node_hash') and bare(d['hash'].a[1]) is K.nodes, w, f'the plan carries the hash {show(d["hash"])[:80]}')
    c.need(I.op == 'phi' and I in L.accs, 'the instructions are collected by the loop over the nodes')
    for nm, v in (('stack', S), ('instructions', I)):
        e = L.entries.get(v)
        c.ob(f'{nm} start', e is not None and is_call(e, 'new', 'with_capacity'), w, f'the {nm} does not start empty')
    for b in L.body:
        vs = {f.a[1] for f in b.facts if f.op == 'is' and f.a[1] in ('Var', 'Const', 'Op') and K.is_node(f.a[0])}
        if len(vs) != 1:
            c.fail('node', w, f'kinds {sorted(vs)} on one path of the loop')
            continue
        v = vs.pop()
        kinds.add(v)
        try:
            sops, iops = K.ops(K.after(S, b), L, b, S), K.ops(K.after(I, b), L, b, I)
            if v in ('Var', 'Const'):
                ok = len(sops) == 1 and sops[0][0] == 'push' and not iops
                if ok:
                    k, i = src_of(sops[0][1])
                    ok = k == v and i.op == 'vf' and i.a[1] == v and K.is_node(i.a[0])
                c.ob(v + ' operand', ok, w, f'a node of kind {v} does not push its operand')
                for x in L.accs:
                    if x is S or x is I:
                        continue
                    if x is ns:
                        c.ob(v + ' slots', K.after(x, b) is x or x in (K.maxof(K.after(x, b)) or ()), w, 'the number of slots changes at an operand')
            else:
                op_step(c, K, L, b, S, I, ns, sops, iops, w)
        except (Unknown, IndexError, KeyError, AttributeError) as u:
            c.fail(v + ' node', w, f'not understood: {u}')


def op_step(c, K, L, b, S, I, ns, sops, iops, w):
    c.ob('Op instruction', len(iops) == 1 and iops[0][0] == 'push' and iops[0][1].op == 'agg', w, 'an operator node does not append one instruction')
    ins = iops[0][1]
    d = dict(zip(ins.a[1], ins.a[2:]))
    ok = d['op'].op == 'vf' and d['op'].a[1:] == ('Op', 'op') and K.is_node(d['op'].a[0])
    c.ob('Op operator', ok, w, f'the instruction names the operator {show(d["op"])[:80]}')
    c.ob('Op arity', K.arity(d['arity']), w, f'the instruction has the arity {show(d["arity"])[:80]}')
    dst = d['dst']
    # stack: pop one operand per argument, last first; push the result
    c.ob('Op stack', len(sops) == 2 and sops[0][0] == 'loop' and sops[1][0] == 'push', w, 'operands are not popped one by one, then the result pushed: ' + str([o[0] for o in sops]))
    k, i = src_of(sops[1][1])
    c.ob('Op result', k == 'Slot' and i is dst, w, f'the operand stack gets {show(sops[1][1])[:80]}, not the slot of the instruction')
    M, sp = sops[0][1], sops[0][2]
    dirn = K.times(M.src) if M.src is not None else None
    c.ob('Op operands', dirn is not None and len(M.body) == 1, w, 'operands are not popped once per argument')
    mb = M.body[0]
    inner = K.ops(K.after(sp, mb), M, mb, sp)
    c.ob('Op operand', len(inner) == 1 and inner[0][0] == 'pop', w, 'not one operand is popped per argument')
    site = inner[0][2]
    arr = bare(d['args'])
    it = None
    if arr.op == 'phi' and arr in M.accs:
        v = K.after(arr, mb)
        ok = v.op == 'with' and v.a[0] is arr and len(v.a[1]) == 1
        if ok:
            pth, val = v.a[1][0]
            j = pth[0][1] if len(pth) == 1 and pth[0][0] == 'i' else None
            ok = j is not None and not (K.num(j) - (V('a') - C(1) - V('j') if j.op != 'elem' else K.num(j))).n
            # the k-th value popped is the argument at arity-1-k
            ok = ok and (j.op == 'elem' and j.a[0] is M.src and dirn == -1 or j.op != 'elem' and dirn == 1)
            it = val
    elif arr.op == 'upd' and arr.a[0].split('::')[-1] in ('iter_mut', 'index_mut'):
        ws = [(e, rebuild(e.value, env), rebuild(e.root, env)) for e, x, env in (q for q in mb.items if not isinstance(q, Loop)) if e.k == 'write' and isinstance(e.root, T) and isinstance(e.value, T)]
        ws = [(e, v, t) for e, v, t in ws if t.op == 'elem' and t.a[0] is M.src]
        ok = len(ws) == 1 and dirn == -1 and mentions(M.src, lambda x: is_call(x, 'iter_mut', 'index_mut') and x.a[-1] == arr.a[1])
        it = ws[0][1] if ws else None
    else:
        ok = False
    c.ob('Op order', ok, w, 'the operands popped are not stored last argument first')
    got = it is not None and (it.op == 'vf' and it.a[1] == 'Some' and is_call(it.a[0], 'pop') and it.a[0].a[-1] == site or is_call(it, 'expect', 'unwrap') and it.a[1].a[-1] == site)
    c.ob('Op argument', got, w, f'an argument is {show(it)[:80] if it is not None else None}, not the operand popped')
    # slot allocation
    R = None
    if dst.op == 'vf' and dst.a[1] == 'Some' and is_call(dst.a[0], 'pop'):
        R = dst.a[0].a[1]
        c.ob('Op slot', R in L.accs and R is not S and R is not I, w, f'the slot {show(dst)[:100]} is not one that was free before the operator')
    else:
        dst0 = dst
        dst = next((x for x in L.accs if x in L.entries and is_const(L.entries[x], 0) and K.lin(dst, x, 0)), dst)
        ok = dst in L.accs and K.lin(K.after(dst, b), dst, 1) and is_const(L.entries[dst], 0)
        c.ob('Op slot', ok, w, f'the slot {show(dst)[:100]} is neither free nor the next unused one')
    c.need(ns.op == 'phi' and ns in L.accs, 'the number of slots is counted by the loop')
    c.ob('slots start', ns in L.entries and is_const(L.entries[ns], 0), w, 'the number of slots does not start at 0')
    a = K.after(ns, b)
    mx = K.maxof(a)
    if R is None:
        ok = K.lin(a, dst, 1) or bool(mx) and ns in mx and any(K.lin(x, dst, 1) for x in mx) or a is ns and at_most(K, b, dst, ns)
    else:
        ok = a is ns or bool(mx) and ns in mx or at_most(K, b, ns, a)
    c.ob('Op slots', ok, w, f'the number of slots becomes {show(a)[:80]}')
    # what is given back: only slots among this operator's own operands, each once
    for x in L.accs:
        if x in (S, I, ns) or x is dst:
            continue
        ty = L.entries.get(x)
        if ty is None or not is_call(ty, 'new', 'with_capacity'):
            continue
        fo = K.ops(K.after(x, b), L, b, x)
        if x is R:
            c.ob('Op slot taken', bool(fo) and fo[0][0] == 'pop' and fo[0][2] == dst.a[0].a[-1], w, 'the slot is used before it leaves the free list')
            fo = fo[1:]
        rel = 0
        for o in fo:
            if o[0] == 'pop':
                continue
            rel += 1
            ok = o[0] == 'loop' and released(K, o[1], o[2], arr)
            c.ob('Op release', ok, w, 'a slot that is not an operand of this operator is released')
        c.ob('Op release once', rel <= 1, w, 'operands are released more than once')


def at_most(K, b, x, y):
    """x < y, or x <= y where y is not x + 1, established on the path"""
    for f in b.facts:
        if f.op in ('lt', 'le') and isinstance(f.a[0], T):
            u, v = f.a[0], f.a[1]
            if K.lin(v, y, 0) and (K.lin(u, x, 0) or K.lin(u, x, 1) and f.op == 'le'):
                return True
    return False


def released(K, M, ph, arr):
    """the loop pushes the slot of each operand at most once"""
    for mb in M.body:
        fo = K.ops(K.after(ph, mb), M, mb, ph)
        if not fo:
            continue
        if len(fo) != 1 or fo[0][0] != 'push':
            return False
        v = fo[0][1]
        if not (v.op == 'vf' and v.a[1] == 'Slot'):
            return False
        s = bare(v.a[0])
        if s.op == 'elem':
            ok = s.a[0] is M.src and K.times(s.a[0]) is not None and over(K, s.a[0], arr)
        elif s.op == 'idx':
            ok = bare(s.a[0]) is arr and s.a[1].op == 'elem' and s.a[1].a[0] is M.src and K.times(M.src) is not None
        elif s.op == 'vf' and is_call(s.a[0], 'pop'):
            ok = True
        else:
            ok = False
        if not ok:
            return False
    return True


def over(K, s, arr):
    s = K.leaf(s)
    while is_call(s, 'take', 'iter', 'copied', 'cloned', 'into_iter', 'rev', 'index'):
        s = bare(s.a[1])
    return s is arr


# ---------------------------------------------------------------- reused contexts
def terms(xs):
    seen, st = set(), [x for x in xs if isinstance(x, T)]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        w = list(t.a)
        while w:
            a = w.pop()
            if isinstance(a, T):
                st.append(a)
            elif isinstance(a, tuple):
                w += a


def plan_base(t):
    t = bare(t)
    while True:
        if t.op == 'vf' and t.a[1] == 'Some':
            t = bare(t.a[0])
        elif t.op == 'agg' and t.a[0].endswith('Option::Some'):
            t = bare(t.a[2])
        elif is_call(t, 'unwrap', 'expect', 'as_ref', 'as_mut'):
            t = bare(t.a[1])
        else:
            return t


def plan_ok(b, expr, x, facts):
    """None, or what is wrong with the plan used for this expression"""
    nodes = lambda t: is_fld(bare(t), 'nodes') and bare(bare(t).a[0]) is expr
    if is_call(b, 'compile_plan'):
        if not nodes(b.a[1]):
            return f'the plan is compiled from {show(b.a[1])[:80]}'
        f, k = b.a[2], b.a[3]
        if not (is_call(f, 'nrows') and bare(f.a[1]) is x):
            return f'the plan is compiled for {show(f)[:60]} features'
        if not (is_call(k, 'len') and is_fld(bare(k.a[1]), 'consts') and bare(bare(k.a[1]).a[0]) is expr):
            return f'the plan is compiled for {show(k)[:60]} constants'
        return None
    if b.op == 'fld' and b.a[2] == 'plan':
        for f in facts:
            if f.op == 'eq':
                for u, v in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                    if u.op == 'fld' and u.a[2] == 'hash' and plan_base(u.a[0]) is b and is_call(v, 'build_node_hash') and nodes(v.a[1]):
                        return None
        return 'a cached plan is used without having compared its hash with the one of the nodes'
    return f'the plan is {show(b)[:80]}'


def shape_ok(D, t, facts, rows, cols):
    t = bare(t)
    if is_call(t, 'zeros', 'from_elem', 'default'):
        s = t.a[1]
        if s.op == 'agg' and len(s.a) == 4:
            return rows(s.a[2]) and cols(s.a[3])
        return False
    r = k = False
    for f in facts:
        if f.op != 'eq':
            continue
        for u, v in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
            if is_call(u, 'nrows', 'ncols') and bare(u.a[1]) is t:
                if u.a[0].endswith('nrows'):
                    r = r or rows(v)
                else:
                    k = k or cols(v)
            if is_call(u, 'dim') and bare(u.a[1]) is t and v.op == 'agg' and len(v.a) == 4:
                r, k = r or rows(v.a[2]), k or cols(v.a[3])
            if u.op == 'fld' and u.a[2] in '01' and is_call(u.a[0], 'dim') and bare(u.a[0].a[1]) is t:
                if u.a[2] == '0':
                    r = r or rows(v)
                else:
                    k = k or cols(v)
    return r and k


@rule('P32', 'on every path of the entry points that keep a plan between calls, the plan used is compiled from this expression\'s nodes or its hash was compared with theirs, and every scratch buffer used has one row per slot of that plan', [
    'the hash of the nodes does not collide'])
def p32(c):
    n = 0
    fe = c.p.fn('evaluate::eval_tree_array_into')
    F = c.ctx.flow(fe, ('eval_plan_array_into', 'compile_plan', 'build_node_hash'))
    out = argof(F, lambda t: t.startswith('&mut ['))
    expr = argof(F, lambda t: 'PostfixExpr' in t)
    x = argof(F, lambda t: 'ArrayBase' in t or 'ArrayView' in t)
    opts = argof(F, lambda t: 'EvalOptions' in t)
    w = F.where(0)
    for p in Walk(F, decided, lim=20000).paths():
        if p.end != 'ret':
            continue
        n += 1
        calls = [it for it in p.items if not isinstance(it, Loop) and it[0].k == 'call' and last(it[0]) == 'eval_plan_array_into']
        if len(calls) != 1:
            c.fail('evaluation', w, f'{len(calls)} evaluations of the plan')
            continue
        e, nd, env = calls[0]
        a = [bare(rebuild(y, env)) for y in e.args]
        bad = plan_ok(plan_base(a[1]), expr, x, p.facts)
        c.ob('evaluation plan', bad is None, w, bad or '')
        c.ob('evaluation arguments', a[0] is out and a[2] is expr and a[3] is x and a[5] is opts, w, 'the plan is not run on the arguments given')
        c.ob('evaluation result', p.ret is rebuild(e.res, env), w, 'the flag returned is not the one of the evaluation')
    c.floor('paths of the evaluation entry', n, 8)
    m = 0
    for kind, f, cf, ee, var in drivers(c):
        if cf or ee:
            continue
        D = Drive(c, f, kind, cf, ee, var)
        w = D.F.where(0)
        key = kind + ('' if var is None else f' variable={int(var)}')
        try:
            ps = D.run()
        except Unknown as u:
            c.fail(key, w, str(u))
            continue
        try:
            for p in ps:
                D.calls_of(p.items, p.facts)
        except Unknown:
            pass
        for p in ps:
            facts = p.facts + p.hist
            pool = list(facts) + [p.ret]
            bufs = []
            for it in p.items:
                if isinstance(it, Loop):
                    pool.append(it.src)
                elif it[0].k == 'call' and last(it[0]) in ('as_slice_mut', 'as_mut_slice'):
                    bufs.append((bare(rebuild(it[0].args[0], it[2])), it))
            bases = {plan_base(t.a[0]) for t in terms(pool) if t.op == 'fld' and t.a[1].endswith('EvalPlan') and t.a[2] in ('instrs', 'root', 'n_slots')}
            m += 1
            if len(bases) != 1:
                c.fail(key + ' plan', w, f'{len(bases)} plans in use')
                continue
            pl = bases.pop()
            if kind == 'eval':
                bad = None if pl is bare(D.plan) else 'not the plan given'
            else:
                bad = plan_ok(pl, D.expr, D.x, facts)
            c.ob(key + ' plan', bad is None, w, bad or '')
            rows = lambda t: t.op == 'fld' and t.a[2] == 'n_slots' and plan_base(t.a[0]) is pl
            known = any(g.op == 'eq' and any(u.op == 'fld' and u.a[2] == 'n_rows' and is_call(v, 'ncols') and bare(v.a[1]) is D.x for u, v in ((g.a[0], g.a[1]), (g.a[1], g.a[0]))) for g in facts)
            for i, (b, it) in enumerate(bufs):
                wide = kind == 'grad' and D.home(it[0].raw[0]) == D.bh.get('d')

                def cols(t):
                    if not known and any(u.op == 'fld' and u.a[2] == 'n_rows' for u in terms([t])):
                        return False
                    return D.same(t, V('n') * D.nd() if wide else V('n'))
                c.ob(key + ' scratch', shape_ok(D, b, facts, rows, cols), D.F.where(it[1]), f'a scratch buffer of unknown or wrong shape: {show(b)[:80]}')
            c.ob(key + ' scratch buffers', len(bufs) == (1 if kind == 'eval' else 2), w, f'{len(bufs)} scratch buffers')
    c.floor('paths of the drivers', m, 100)
