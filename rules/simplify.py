"""P22: simplification keeps the meaning of an expression (in exact arithmetic) and never loses an operand.

The rewriting step is read path by path as a finite tree rewrite: what the path's own tests establish about the node,
its operands and their operands gives the tree before; the node table it leaves gives the tree after; both are compared
as polynomials over opaque subtrees and constants.  Reading an expression into the node table and writing it back, the
constant folding pass and the operator lookups are separate obligations."""
from sa.core import *
from sa.rulelib import *
from sa.algebra import Unknown
from sa.flow import neg
from sa.walk import Walk, Loop, rebuild
from sa.flow import Flow
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, strip, lin, empty, final, terms_of, rets, lastname_len, run


def last(n):
    return n.split('::')[-1].split('@')[0]


# ---------------------------------------------------------------- polynomials
def padd(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
        if not out[k]:
            del out[k]
    return out


def pmul(a, b):
    out = {}
    for k, v in a.items():
        for q, w in b.items():
            m = tuple(sorted(k + q))
            out[m] = out.get(m, 0) + v * w
            if not out[m]:
                del out[m]
    return out


class Rewrite:
    """one path of the rewriting step"""

    def __init__(self, F, p, ar, cs, idk, opname, ak):
        self.F, self.p, self.opname, self.ak = F, p, opname, ak
        self.me = mk_arg(F, idk)
        self.arena0, self.consts0 = ar, cs
        self.kinds, self.arity, self.ops = {}, {}, {}
        self.news = {}
        self.ch0 = None

    def setup(self, A):
        """the operands after they were simplified: what is first stored back into the node"""
        if self.ch0 is None:
            first = None
            while A.op == 'with':
                first, A = A, A.a[0]
            cand = set()
            for t in terms_of(first) if first is not None else ():
                if t.op == 'upd' and last(t.a[0]) == 'iter_mut' and t.a[3].op == 'vf' and t.a[3].a[2] in ('children', '2'):
                    cand.add(t)
            if len(cand) != 1:
                raise Bad('the simplified operands are not stored')
            self.ch0 = cand.pop()

    def keeps_arity(self, t):
        return t.op == 'vf' and t.a[1] == 'Op' and t.a[2] in ('arity', '0') and self.kindof(t.a[0]) in (('base', ('id',)),) or constant(t) is not None and constant(t) == self.arity.get(('id',))

    # ---- names of nodes: ('id',), ('ch0', j), ('ch', name, j)
    def name(self, t):
        t = strip(t)
        if t is self.me:
            return ('id',)
        if t.op == 'idx':
            j = constant(t.a[1])
            if j is None:
                raise Bad(f'operand number {show(t.a[1])[:40]}')
            b = t.a[0]
            while b.op == 'with':
                hit = None
                for path, v in b.a[1]:
                    if path[0][0] == 'i':
                        k = constant(path[0][1])
                        if k is None or len(path) != 1:
                            raise Bad('operand list changed in part')
                        if k == j:
                            hit = v
                if hit is not None:
                    return self.name(hit)
                b = b.a[0]
            if b is self.ch0:
                return ('ch0', j)
            if b.op == 'vf' and b.a[1] == 'Op' and b.a[2] in ('children', '2'):
                k = self.kindof(b.a[0])
                if k[0] == 'base':
                    return ('ch', k[1], j) if k[1] != ('id',) else ('old', j)
                if k[0] == 'agg':
                    return self.name(mk('idx', self.payload(k[1], 2), t.a[1]))
        raise Bad(f'node {show(t)[:60]}')

    def payload(self, agg, i):
        return agg.a[2 + i]

    def kindof(self, t):
        """the kind stored in a term that reads a node's kind"""
        if t.op == 'agg':
            k = last(t.a[0])
            if k == 'ArenaNode':
                return self.kindof(t.a[2])
            return ('agg', t)
        if t.op == 'fld' and t.a[2] == 'kind':
            t = t.a[0]
            if t.op == 'agg':
                return self.kindof(t)
        if t.op == 'idx':
            return self.read(t.a[0], self.name(t.a[1]))
        raise Bad(f'kind {show(t)[:60]}')

    def read(self, A, x):
        while A.op == 'with':
            hit = None
            for path, v in A.a[1]:
                if path[0][0] != 'i':
                    raise Bad('node table replaced')
                if self.name(path[0][1]) == x:
                    if len(path) > 1 and not (len(path) == 2 and path[1][-1] == 'kind'):
                        raise Bad('node changed in part')
                    hit = v
            if hit is not None:
                return self.kindof(hit)
            A = A.a[0]
        if A is self.arena0 or x == ('id',) and A is mk_arg(self.F, self.ak):
            return ('base', x)
        raise Bad(f'node table {show(A)[:60]}')

    # ---- numbers
    def cval(self, C, i):
        i = strip(i)
        while True:
            if C.op == 'upd' and last(C.a[0]) == 'append_const':
                if i.op == 'vf' and i.a[1] == 'Some' and is_call(i.a[0], 'append_const') and i.a[0].a[-1] == C.a[1]:
                    return self.num(C.a[4])
                C = C.a[3]
                continue
            if C.op == 'upd' and last(C.a[0]) == 'push':
                if lastname_len(i) and i.a[-1] is C.a[3] or i.op == 'len' and i.a[0] is C.a[3]:
                    return self.num(C.a[4])
                C = C.a[3]
                continue
            break
        if C is self.consts0 and i.op == 'vf' and i.a[1] == 'Const':
            k = self.kindof(i.a[0])
            if k[0] == 'base':
                return {(k[1],): 1}
            if k[0] == 'agg':
                raise Bad('a constant replaced on the way')
        raise Bad(f'constant {show(i)[:50]} of {show(C)[:50]}')

    def num(self, t):
        t = strip(t)
        if t.op in ('Add', 'Sub'):
            return padd(self.num(t.a[0]), self.num(t.a[1]), 1 if t.op == 'Add' else -1)
        if t.op == 'Mul':
            return pmul(self.num(t.a[0]), self.num(t.a[1]))
        if t.op == 'Neg':
            return padd({}, self.num(t.a[0]), -1)
        if t.op == 'idx':
            return self.cval(t.a[0], t.a[1])
        if is_call(t, 'clone'):
            return self.num(t.a[1])
        raise Bad(f'value {show(t)[:60]}')

    # ---- what the tests of the path say about nodes as they were
    def learn(self):
        for f in self.p.facts:
            f = rebuild(f, self.p.env)
            if f.op in ('is', 'isnt') and f.a[1] in ('Const', 'Var', 'Op'):
                k = self.kindof(f.a[0])
                if k[0] == 'base':
                    s = self.kinds.setdefault(k[1], {'Const', 'Var', 'Op'})
                    self.kinds[k[1]] = s & {f.a[1]} if f.op == 'is' else s - {f.a[1]}
            elif f.op == 'eq' and len(f.a) >= 2 and all(isinstance(x, T) for x in f.a[:2]):
                for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                    x = strip(x)
                    if x.op == 'vf' and x.a[1] == 'Op' and x.a[2] in ('arity', '0') and constant(strip(y)) is not None:
                        k = self.kindof(x.a[0])
                        if k[0] == 'base':
                            self.arity[k[1]] = constant(strip(y))
                    if x.op == 'vf' and x.a[1] == 'Op' and x.a[2] in ('op', '1'):
                        k = self.kindof(x.a[0])
                        if k[0] == 'base' and k[1] != ('id',) and self.is_my_op(strip(y)):
                            self.ops[k[1]] = True

    def is_my_op(self, t):
        if t.op == 'vf' and t.a[1] == 'Op' and t.a[2] in ('op', '1'):
            try:
                k = self.kindof(t.a[0])
            except Bad:
                return False
            if k == ('base', ('id',)):
                return True
            return k[0] == 'agg' and self.is_my_op(strip(self.payload(k[1], 1)))
        # the operator known equal to a configured one
        if t.op == 'vf' and t.a[1] == 'Some' and t.a[0].op == 'fld':
            return self.opname is not None and t.a[0].a[2] == self.opname
        return False

    # ---- trees
    def before(self, x):
        if x == ('id',):
            return ('op', [self.before(('ch0', 0)), self.before(('ch0', 1))], x)
        k = self.kinds.get(x, {'Const', 'Var', 'Op'})
        if k == {'Const'}:
            return ('const', {(x,): 1}, x)
        if k == {'Op'} and self.ops.get(x) and self.arity.get(x) == 2:
            return ('op', [self.before(('ch', x, 0)), self.before(('ch', x, 1))], x)
        return ('opaque', x, x)

    def after(self, A, C, x, depth=0):
        if depth > 6:
            raise Bad('nodes refer to each other')
        k = self.read(A, x)
        if k[0] == 'base':
            t = self.before(k[1])
            if t[0] == 'op':
                return ('op', [self.after(A, C, n[2], depth + 1) for n in t[1]], x)
            return t
        k = k[1]
        n = last(k.a[0])
        if n == 'Const':
            return ('const', self.cval(C, k.a[2]), x)
        if n == 'Op':
            if not self.is_my_op(strip(k.a[3])):
                raise Bad(f'the operator becomes {show(k.a[3])[:50]}')
            a = strip(k.a[2])
            if not (constant(a) == 2 or self.my_arity(a)):
                raise Bad(f'the number of operands becomes {show(a)[:40]}')
            kids = [self.name(mk('idx', k.a[4], const(j))) for j in (0, 1)]
            return ('op', [self.after(A, C, y, depth + 1) for y in kids], x)
        raise Bad(f'a node becomes {show(k)[:60]}')

    def my_arity(self, t):
        if t.op == 'vf' and t.a[1] == 'Op' and t.a[2] in ('arity', '0'):
            k = self.kindof(t.a[0])
            return k == ('base', ('id',)) or k[0] == 'base' and self.arity.get(k[1]) == 2 or k[0] == 'agg' and self.my_arity(strip(self.payload(k[1], 0)))
        return False

    def poly(self, t, op):
        if t[0] == 'const':
            return t[1]
        if t[0] == 'opaque':
            return {(t[1],): 1}
        a, b = self.poly(t[1][0], op), self.poly(t[1][1], op)
        return pmul(a, b) if op == 'mul' else padd(a, b, 1 if op == 'add' else -1)


def nodes_of(t):
    out = [t[2]]
    if t[0] == 'op':
        for s in t[1]:
            out += nodes_of(s)
    return out


def opaques(t):
    if t[0] == 'op':
        return [x for s in t[1] for x in opaques(s)]
    return [t[1]] if t[0] == 'opaque' else []


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'op':
        return all(same(x, y) for x, y in zip(a[1], b[1]))
    return a[1] == b[1]


def cfg_op(F, p, cfgk):
    """which configured operator the node is, by the path's own tests"""
    got = None
    for f in p.facts:
        f = rebuild(f, p.env)
        if f.op != 'eq':
            continue
        for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
            if not isinstance(x, T) or not isinstance(y, T):
                continue
            fld = None
            if x.op == 'fld' and x.a[0] is mk_arg(F, cfgk) and y.op == 'agg' and last(y.a[0]) == 'Some':
                fld, y = x.a[2], y.a[2]
            elif x.op == 'vf' and x.a[1] == 'Some' and x.a[0].op == 'fld' and x.a[0].a[0] is mk_arg(F, cfgk):
                fld = x.a[0].a[2]
            if fld and got is None:
                got = fld
    return got


MEANS = {'add_id': ('add', '+'), 'mul_id': ('mul', '*'), 'sub_id': ('sub', '-')}


def impossible(facts):
    fs = set(facts)
    for f in facts:
        if neg(f) in fs or f.op == 'const' and f.a[0] in (0, False):
            return True
        if f.op == 'is' and mk('isnt', *f.a) in fs:
            return True
        if f.op == 'is' and any(g.op == 'is' and g.a[0] is f.a[0] and g.a[1] != f.a[1] for g in fs):
            return True
    return False


def tidy(A):
    """drop stores of a place's own old value (left by merging paths)"""
    if A.op != 'with':
        return A
    b = tidy(A.a[0])
    keep = []
    for path, v in A.a[1]:
        B = None
        if v.op == 'fld' and v.a[2] == 'kind' and len(path) == 2 and path[0][0] == 'i' and v.a[0].op == 'idx' and v.a[0].a[1] is path[0][1]:
            B = v.a[0].a[0]
        if v.op == 'idx' and len(path) == 1 and path[0][0] == 'i' and v.a[1] is path[0][1]:
            B = v.a[0]
        if B is not None:
            while B.op == 'with':
                B = B.a[0]
            C = b
            while C.op == 'with':
                C = C.a[0]
            if B is C:
                continue
        keep.append((path, v))
    return mk('with', b, tuple(keep)) if keep else b


def accs_of(F, L, b):
    return {ph: rebuild(dict(F.phi_ops[ph])[b.nodes[-2]], b.env) for ph in L.accs or () if b.nodes[-2] in dict(F.phi_ops[ph])}


def calls_in(items):
    for it in items:
        if isinstance(it, Loop):
            for q in it.body:
                yield from calls_in(q.items)
        elif it[0].k == 'call':
            yield it


def arg_where(F, pred):
    r = [k for k in range(1, F.f.argc + 1) if pred(F.f.locals[k]['ty'])]
    if len(r) != 1:
        raise Bad('unexpected parameters')
    return r[0]


def lem_combine(c, fn):
    me = fn['id'].split('::')[-1]
    F = c.ctx.flow(fn, (me, 'append_const'))
    ak = arg_where(F, lambda t: 'ArenaNode' in t)
    ik = arg_where(F, lambda t: t == 'usize')
    gk = arg_where(F, lambda t: 'CombineCfg' in t)
    bk = arg_where(F, lambda t: 'bool' in t)
    ck = arg_where(F, lambda t: 'Vec' in t and 'ArenaNode' not in t)
    A0, ID = mk_arg(F, ak), mk_arg(F, ik)
    kind0 = mk('fld', mk('idx', A0, ID), 'ArenaNode', 'kind')
    nrew, ops = 0, set()
    ps = rets(F)
    c.note(f'{len(ps)} paths of the rewriting step')
    for p in ps:
        facts = [rebuild(f, p.env) for f in p.facts]
        if impossible(facts):
            continue
        A, C = tidy(final(F, p, ak)), final(F, p, ck)
        r = rebuild(p.ret, p.env)
        Ls = [x for x in p.items if isinstance(x, Loop) and any(last(e.cn) == me for e, _, _ in calls_in(x.body[0].items) )] if any(isinstance(x, Loop) and x.body for x in p.items) else []
        if not Ls:
            if not any(f.op == 'isnt' and f.a[1] == 'Op' and f.a[0].op == 'fld' and f.a[0].a[2] == 'kind' or f.op == 'is' and f.a[1] in ('Var', 'Const') for f in facts):
                return 'the operands of an operator are not simplified first'
            if r is not ID or A is not A0 or C is not mk_arg(F, ck):
                return 'a leaf is changed'
            continue
        if len(Ls) != 1:
            return 'operands are simplified more than once'
        L = Ls[0]
        bad = check_recursion(F, L, me, ak, ck, gk, ik, A0, ID)
        if isinstance(bad, str):
            return bad
        if not any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and f.a[0].a[1] == L.site for f in facts):
            return 'not every operand is simplified'
        arena0, consts0, ch0 = bad
        op = cfg_op(F, p, gk)
        R = Rewrite(F, p, arena0, consts0, ik, op, ak)
        R.ch0 = ch0
        try:
            R.setup(A)
            R.learn()
            two = R.arity.get(('id',)) == 2
            if not two or op is None:
                # untouched, with its operands simplified
                if r is not ID:
                    return 'an operator that is not rewritten is replaced'
                k = R.read(A, ('id',))
                if k[0] != 'agg' or not R.is_my_op(strip(k[1].a[3])) or not R.keeps_arity(strip(k[1].a[2])):
                    return 'an operator changes while its operands are simplified'
                if k[1].a[4] is not R.ch0:
                    return 'operands change places although the operator is not known'
                if any(R.name(path[0][1]) != ('id',) for path, v in writes(A, arena0)):
                    return 'other nodes change'
                continue
            b4 = R.before(('id',))
            x = R.name(r)
            af = R.after(A, C, x)
        except Bad as e:
            return f'{where_of(F, p)}: {e}'
        if op not in MEANS:
            return f'rewrites under {op}'
        ops.add(op)
        ids = nodes_of(af)
        if len(ids) != len(set(ids)):
            return f'{where_of(F, p)}: an operand is used twice'
        if sorted(opaques(af)) != sorted(opaques(b4)):
            return f'{where_of(F, p)}: an operand is lost or replaced'
        if R.poly(af, MEANS[op][0]) != R.poly(b4, MEANS[op][0]):
            return f'{where_of(F, p)}: the rewritten {MEANS[op][1]} computes something else'
        if len(ids) > len(nodes_of(b4)):
            return f'{where_of(F, p)}: the rewritten tree is larger'
        if not same(af, b4) or r is not ID:
            nrew += 1
            ch = final(F, p, bk)
            if constant(ch) != 1 and ch != const(True):
                if not (ch.op == 'const' and ch.a[0] in (1, True)):
                    return f'{where_of(F, p)}: a rewrite is not reported as a change'
    c.floor('rewriting paths', nrew, 8)
    if ops != set(MEANS):
        return f'only {sorted(ops)} are rewritten'
    return None


def where_of(F, p):
    return F.where(p.nodes[-1]) if False else 'a path of the rewriting step'


def writes(A, base):
    out = []
    while A.op == 'with':
        out += list(A.a[1])
        A = A.a[0]
    if A is not base:
        raise Bad('another node table')
    return out


def check_recursion(F, L, me, ak, ck, gk, ik, A0, ID):
    """every operand is replaced by what simplifying it gives; returns (table, constants, operands) afterwards"""
    if not L.body:
        return 'operands are not simplified'
    kids = None
    for b in L.body:
        up = accs_of(F, L, b)
        rec = [(e, x, en) for e, x, en in calls_in(b.items) if last(e.cn) == me]
        if len(rec) != 1:
            return 'an operand is simplified more than once'
        e, x, en = rec[0]
        args = [rebuild(a, en) for a in e.args]
        ar, cs = deref(args[ak - 1]), deref(args[ck - 1])
        res = [ph for ph, v in up.items() if v.op == 'upd' and last(v.a[0]) == me and v.a[3] is ph]
        arp = [ph for ph in res if up[ph].a[2] == ak - 1]
        csp = [ph for ph in res if up[ph].a[2] == ck - 1]
        if len(arp) != 1 or len(csp) != 1:
            return 'simplifying an operand does not work on the same tables'
        if deref(args[gk - 1]) is not mk_arg(F, gk):
            return 'operands are simplified under another configuration'
        child = deref(args[ik - 1])
        ok = False
        # (a) through mutable element references
        if child.op == 'elem' and child.a[1] == L.site:
            src = child.a[0]
            if take_all(src, A0, ID):
                w = [(e2, rebuild(e2.value, en2)) for e2, x2, en2 in [it for it in b.items if not isinstance(it, Loop)] if e2.k == 'write' and isinstance(e2.root, T) and rebuild(e2.root, en2) is child]
                if len(w) == 1 and is_call(w[0][1], me):
                    ok, kids = True, None
        # (b) by position
        if child.op == 'idx' and child.a[0].op == 'phi' and child.a[0] in L.accs:
            ph = child.a[0]
            v = up.get(ph)
            i = child.a[1]
            if v is not None and v.op == 'with' and v.a[0] is ph and len(v.a[1]) == 1 and len(v.a[1][0][0]) == 1 and v.a[1][0][0][0][1] is i and is_call(v.a[1][0][1], me) and counts_all(i, L, A0, ID) and is_children(L.entries.get(ph), A0, ID):
                ok, kids = True, ph
        if not ok:
            return 'an operand is not replaced by what simplifying it gives'
    return arp[0], csp[0], kids


def deref(t):
    while isinstance(t, T) and t.op == 'ref':
        if not isinstance(t.a[0], T):
            return t.a[0]
        t = PROJ.proj(t.a[0], t.a[1]) if len(t.a) > 1 and t.a[1] else t.a[0]
    return t


PROJ = Flow.__new__(Flow)


def is_children(t, A0, ID):
    return isinstance(t, T) and t.op == 'vf' and t.a[1] == 'Op' and t.a[2] in ('children', '2') and is_kind0(t.a[0], A0, ID)


def is_kind0(t, A0, ID):
    return t.op == 'fld' and t.a[2] == 'kind' and t.a[0].op == 'idx' and t.a[0].a[0] is A0 and t.a[0].a[1] is ID


def is_arity0(t, A0, ID):
    t = strip(t)
    return t.op == 'vf' and t.a[1] == 'Op' and t.a[2] in ('arity', '0') and is_kind0(t.a[0], A0, ID)


def take_all(src, A0, ID):
    if is_call(src, 'take'):
        return is_arity0(src.a[2], A0, ID) and is_call(src.a[1], 'iter_mut') and is_children(src.a[1].a[1], A0, ID)
    if is_call(src, 'iter_mut') and src.a[1].op in ('slice', 'idx'):
        x = src.a[1]
        hi = [y for y in terms_of(x) if is_arity0(y, A0, ID)]
        return bool(hi) and any(is_children(y, A0, ID) for y in terms_of(x))
    return False


def counts_all(i, L, A0, ID):
    i = strip(i)
    r = L.src
    return i.op == 'elem' and i.a[1] == L.site and r is not None and r.op == 'agg' and r.a[0].endswith('Range') and constant(r.a[2]) == 0 and is_arity0(r.a[3], A0, ID)


def fits(facts, C, idx):
    """the number of constants is shown to fit the index type"""
    if any(is_call(t, 'try_from', 'try_into') for t in terms_of(idx)):
        return True
    for f in facts:
        if f.op in ('le', 'lt') and lastname_len(strip(f.a[0])) and strip(f.a[0]).a[-1] is C:
            k = constant(strip(f.a[1]))
            if k is not None and k <= (65535 if f.op == 'le' else 65536):
                return True
    return False


def lem_append(c, fn):
    F = c.ctx.flow(fn, ())
    K = mk_arg(F, arg_where(F, lambda t: 'Vec' in t))
    vk = [k for k in range(1, F.f.argc + 1) if mk_arg(F, k) is not K]
    V = mk_arg(F, vk[0])
    some = 0
    for p in rets(F):
        r = rebuild(p.ret, p.env)
        k = final(F, p, F.f.argc and [i for i in range(1, F.f.argc + 1) if mk_arg(F, i) is K][0])
        if r.op == 'agg' and last(r.a[0]) == 'Some':
            some += 1
            i = strip(r.a[2])
            if not (k.op == 'upd' and last(k.a[0]) == 'push' and k.a[3] is K and k.a[4] is V):
                return 'the constant is not the one added'
            if not (lastname_len(i) and i.a[-1] is K or i.op == 'len' and i.a[0] is K):
                return f'the constant added is looked up at {show(i)[:50]}'
            fs = [rebuild(f, p.env) for f in p.facts]
            if not any(is_call(f, 'is_finite') and f.a[1] is V for f in fs):
                return 'a non-finite constant may be added'
            if not fits(fs, K, r.a[2]):
                return 'the position of the constant may not fit'
        elif k is not K:
            return 'a refused constant is added'
    return None if some else 'no constant is ever added'


def lenlin(t):
    """linear form in which the length of a vector after a push is one more"""
    out = {}
    for k, v in lin(t).items():
        while isinstance(k, T) and lastname_len(k) and k.a[-1].op == 'upd' and last(k.a[-1].a[0]) == 'push':
            out = padd(out, {1: v})
            k = mk('len', k.a[-1].a[3])
        if isinstance(k, T) and lastname_len(k):
            k = mk('len', k.a[-1])
        out = padd(out, {k: v})
    return out


def kinds_of(facts, el):
    k = {'Var', 'Const', 'Op'}
    for f in facts:
        if f.op in ('is', 'isnt') and f.a[0] is el and f.a[1] in ('Var', 'Const', 'Op'):
            k = k & {f.a[1]} if f.op == 'is' else k - {f.a[1]}
    return k


def pushed(v):
    """(vector before, pushed value) of a push"""
    if v.op == 'upd' and last(v.a[0]) == 'push':
        return v.a[3], v.a[4]
    return None, None


def ended(facts, L):
    return any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and f.a[0].a[1] == L.site for f in facts)


def lem_emit(c, fn):
    me = last(fn['id'])
    F = c.ctx.flow(fn, (me,))
    ak = arg_where(F, lambda t: 'ArenaNode' in t)
    ik = arg_where(F, lambda t: t == 'usize')
    ok_ = arg_where(F, lambda t: 'PNode' in t)
    A, ID, OUT = mk_arg(F, ak), mk_arg(F, ik), mk_arg(F, ok_)
    K = mk('fld', mk('idx', A, ID), 'ArenaNode', 'kind')
    seen = set()
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        k = {'Var', 'Const', 'Op'}
        for f in fs:
            if f.op in ('is', 'isnt') and is_kind0(f.a[0], A, ID):
                k = k & {f.a[1]} if f.op == 'is' else k - {f.a[1]}
        if len(k) != 1:
            return 'a node is written without looking at its kind'
        k = k.pop()
        seen.add(k)
        b, v = pushed(final(F, p, ok_))
        if v is None or v.op != 'agg' or last(v.a[0]) != k:
            return f'a {k} node is not written last, as itself'
        for n, x in zip(v.a[1], v.a[2:]):
            x = strip(x)
            j = {'arity': 0, 'op': 1}.get(n, 0)
            if not (x.op == 'vf' and is_kind0(x.a[0], A, ID) and x.a[1] == k and x.a[2] in (n, str(j))):
                return f'the {n} written is {show(x)[:60]}'
        if k != 'Op':
            if b is not OUT:
                return 'a leaf is written with something else'
            continue
        Ls = [x for x in p.items if isinstance(x, Loop) and b in (x.accs or ())]
        if len(Ls) != 1 or not Ls[0].body or Ls[0].entries[b] is not OUT or not ended(fs, Ls[0]):
            return 'the operands are not written before the operator'
        L = Ls[0]
        for q in L.body:
            w = accs_of(F, L, q)[b]
            rec = [it for it in calls_in(q.items) if last(it[0].cn) == me]
            if len(rec) != 1 or not (w.op == 'upd' and last(w.a[0]) == me and w.a[3] is b):
                return 'an operand is not written exactly once'
            e, x, en = rec[0]
            args = [deref(rebuild(a, en)) for a in e.args]
            ch = args[ik - 1]
            if args[ak - 1] is not A:
                return 'an operand is written from another table'
            by_elem = ch.op == 'elem' and ch.a[1] == L.site and takes(ch.a[0], A, ID)
            by_pos = ch.op == 'idx' and is_children(ch.a[0], A, ID) and counts_all(ch.a[1], L, A, ID)
            if not (by_elem or by_pos):
                return 'not the operands, all and in order, are written'
    return None if seen == {'Var', 'Const', 'Op'} else f'only {sorted(seen)} nodes are written'


def takes(src, A, ID):
    if is_call(src, 'take'):
        b = src.a[1]
        while is_call(b, 'iter', 'copied', 'cloned', 'into_iter'):
            b = b.a[1]
        return is_arity0(src.a[2], A, ID) and is_children(b, A, ID)
    while is_call(src, 'iter', 'copied', 'cloned', 'into_iter'):
        src = src.a[1]
    if is_call(src, 'index') and src.a[2].op == 'agg' and last(src.a[2].a[0]) == 'RangeTo':
        return is_arity0(src.a[2].a[2], A, ID) and is_children(src.a[1], A, ID)
    return False


def node_source(F, src):
    """the node list of the expression parameter, in order"""
    while is_call(src, 'iter', 'copied', 'cloned', 'into_iter', 'deref', 'as_slice'):
        src = src.a[1]
    return src.op == 'fld' and src.a[2] == 'nodes' and src.a[0].op == 'arg'


def lem_parse(c, fn):
    F = c.ctx.flow(fn, ())
    good = 0
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        r = rebuild(p.ret, p.env)
        if impossible(fs) or r.op == 'agg' and last(r.a[0]) == 'None':
            continue
        if not (r.op == 'agg' and last(r.a[0]) == 'Some' and r.a[2].op == 'agg' and len(r.a[2].a) == 4):
            return f'returns {show(r)[:60]}'
        tab, root = r.a[2].a[2], strip(r.a[2].a[3])
        Ls = [x for x in p.items if isinstance(x, Loop) and tab in (x.accs or ())]
        if len(Ls) != 1 or not ended(fs, Ls[0]) or not node_source(F, Ls[0].src):
            return 'not all nodes are read in order'
        L = Ls[0]
        if not empty(L.entries[tab]):
            return 'the table does not start empty'
        st = root.a[0] if root.op == 'idx' else None
        if root.op == 'vf' and root.a[1] == 'Some' and is_call(root.a[0], 'pop', 'last'):
            st = root.a[0].a[1]
        if st is None or st not in L.accs or not empty(L.entries[st]) or root.op == 'idx' and constant(root.a[1]) != 0:
            return f'the root is {show(root)[:50]}'
        if not any(f.op == 'eq' and any(isinstance(x, T) and lastname_len(x) and x.a[-1] is st for x in f.a) and any(isinstance(x, T) and constant(x) == 1 for x in f.a) for f in fs):
            return 'more than one value may be left'
        good += 1
        el = mk('elem', L.src, L.site)
        seen = set()
        for b in L.body:
            bf = [rebuild(f, b.env) for f in b.facts]
            els = {t for f in bf for t in terms_of(f) if t.op == 'elem' and t.a[1] == L.site}
            if len(els) != 1:
                return 'nodes not looked at'
            el = els.pop()
            k = kinds_of(bf, el)
            seen |= k
            if len(k) != 1:
                return 'nodes of different kinds are treated alike'
            k = list(k)[0]
            up = accs_of(F, L, b)
            t0, node = pushed(up[tab])
            s0, sid = pushed(up[st])
            if t0 is not tab or sid is None or lenlin(sid) != {mk('len', tab): 1}:
                return 'a node does not get its own place in the table'
            kd = node.a[2] if node.op == 'agg' and last(node.a[0]) == 'ArenaNode' else node
            if kd.op != 'agg' or last(kd.a[0]) != k:
                return f'a {k} node is stored as {show(node)[:50]}'
            vals = [strip(x) for x in kd.a[2:]]
            src = {'Var': ['feature'], 'Const': ['idx'], 'Op': ['arity', 'op']}[k]
            for x, n in zip(vals, src):
                if not (x.op == 'vf' and x.a[0] is el and x.a[1] == k and x.a[2] == n):
                    return f'{n} is stored as {show(x)[:50]}'
            if k != 'Op':
                if s0 is not st:
                    return 'a leaf takes operands'
                continue
            ch = vals[2]
            P = Fold(F, b, st, el)
            if P.drained(s0):
                if not copied(b, ch, P):
                    return 'an operator does not get the operands it takes'
                continue
            I = [x for x in b.items if isinstance(x, Loop) and ch in (x.accs or ())]
            ar = mk('vf', el, 'Op', 'arity')
            if len(I) != 1 or s0 not in I[0].accs or I[0].entries[s0] is not st or not ended(bf, I[0]) or not I[0].body:
                return 'an operator does not take its operands off the stack'
            I = I[0]
            for q in I.body:
                u = accs_of(F, I, q)
                w, y = u[ch], u[s0]
                if not (y.op == 'upd' and last(y.a[0]) == 'pop' and y.a[3] is s0):
                    return 'an operand is not taken off the stack once'
                if not (w.op == 'with' and w.a[0] is ch and len(w.a[1]) == 1 and len(w.a[1][0][0]) == 1):
                    return 'not one operand is stored per step'
                i, v = strip(w.a[1][0][0][0][1]), w.a[1][0][1]
                if not any(is_call(z, 'pop') and z.a[1] is s0 for z in terms_of(v)) or v.op not in ('vf', 'call'):
                    return 'the operand stored is not the one taken'
                if not downwards(i, I, ar):
                    return 'the operand taken first is not stored last'
        if seen != {'Var', 'Const', 'Op'}:
            return 'a kind of node is not read'
    return None if good else 'never gives a tree'


def copied(b, ch, P):
    """operands copied in one piece, in order, to the front of the list"""
    for e, x, en in calls_in(b.items):
        if last(e.cn) in ('copy_from_slice', 'clone_from_slice'):
            d, s = [deref(rebuild(t, en)) for t in e.args[:2]]
            if d.op in ('call', 'slice', 'idx') and ch.op == 'upd' and last(ch.a[0]) == 'index_mut':
                r = ch.a[4]
                if r.op == 'agg' and last(r.a[0]) == 'RangeTo' and strip(r.a[2]) is P.ar and P.frames(s):
                    return True
    return False


def downwards(i, I, ar):
    """i runs over arity-1, .., 0"""
    if i.op == 'elem' and i.a[1] == I.site:
        s = i.a[0]
        if is_call(s, 'rev'):
            r = s.a[1]
            return r.op == 'agg' and last(r.a[0]) == 'Range' and constant(r.a[2]) == 0 and strip(r.a[3]) is ar
        return False
    l = lin(i)
    for t in l:
        if isinstance(t, T) and t.op == 'elem' and t.a[1] == I.site and l == {ar: 1, t: -1, 1: -1}:
            r = t.a[0]
            return r.op == 'agg' and last(r.a[0]) == 'Range' and constant(r.a[2]) == 0 and strip(r.a[3]) is ar
    return False


class Fold:
    """one path of one step of constant folding"""

    def __init__(self, F, b, S, el):
        self.F, self.b, self.S = F, b, S
        self.ar = mk('vf', el, 'Op', 'arity')
        self.low = {mk('len', S): 1, self.ar: -1}

    def norm(self, t):
        l = {}
        for k, v in lin(t).items():
            if isinstance(k, T) and lastname_len(k):
                k = mk('len', k.a[-1])
            l = padd(l, {k: v})
        return l

    def is_low(self, t):
        return self.norm(t) == self.low

    def frames(self, t):
        """is t the operand frames, in order"""
        while is_call(t, 'collect', 'iter', 'into_iter', 'to_vec', 'cloned', 'copied', 'deref', 'as_slice'):
            t = t.a[1]
        if is_call(t, 'drain', 'index', 'split_off') and t.a[1] is self.S:
            r = t.a[2]
            if is_call(t, 'split_off'):
                return self.is_low(r)
            if r.op == 'agg' and last(r.a[0]) == 'RangeFrom':
                return self.is_low(r.a[2])
            if r.op == 'agg' and last(r.a[0]) == 'Range':
                return self.is_low(r.a[2]) and self.norm(r.a[3]) == {mk('len', self.S): 1}
        return False

    def frame_field(self, t, f):
        """(which operand) when t reads field f of an operand frame: position term, or None"""
        t = deref(t)
        if t.op != 'fld' or t.a[2] != f:
            return None
        x = deref(t.a[0])
        if x.op == 'elem':
            s = x.a[0]
            if is_call(s, 'enumerate'):
                s = s.a[1]
            if self.frames(s):
                return mk('pos', s, x.a[1])
        if x.op == 'idx':
            if self.frames(x.a[0]):
                return strip(x.a[1])
            if x.a[0] is self.S:
                d = padd(self.norm(x.a[1]), self.low, -1)
                if not d:
                    return const(0)
                if len(d) == 1 and list(d.values()) == [1]:
                    return list(d)[0] if list(d)[0] != 1 else const(1)
        return None

    def drained(self, t):
        """stack with exactly the operands removed"""
        if t.op == 'upd' and last(t.a[0]) in ('drain', 'split_off') and t.a[3] is self.S:
            r = t.a[4]
            return self.is_low(r.a[2]) if r.op == 'agg' and last(r.a[0]) == 'RangeFrom' else self.is_low(r) if last(t.a[0]) == 'split_off' else r.op == 'agg' and last(r.a[0]) == 'Range' and self.is_low(r.a[2])
        if t.op == 'upd' and last(t.a[0]) == 'truncate' and t.a[3] is self.S:
            return self.is_low(t.a[4])
        return False

    def start(self, t):
        i = self.frame_field(t, 'start')
        return i is not None and constant(i) == 0

    def same_pos(self, i, j):
        i, j = strip(i), strip(j)
        if i is j:
            return True
        if i.op == 'pos' and j.op == 'pos' and i.a[1] == j.a[1]:
            return True
        return i.op == 'pos' and j.op == 'elem' and i.a[1] == j.a[1]

    def content(self, arr):
        """is element j of arr the value of operand j, for every operand"""
        arr = deref(arr)
        if is_call(arr, 'index') and arr.a[2].op == 'agg' and last(arr.a[2].a[0]) == 'RangeTo':
            if strip(arr.a[2].a[2]) is not self.ar:
                raise Bad('not all operands are passed')
            arr = arr.a[1]
        for L in [x for x in self.b.items if isinstance(x, Loop)]:
            if arr in (L.accs or ()):
                if not L.body or not ended(self.bf, L):
                    raise Bad('operands may be missing')
                for q in L.body:
                    w = accs_of(self.F, L, q)[arr]
                    if w.op == 'upd' and last(w.a[0]) == 'push' and w.a[3] is arr and empty(L.entries[arr]):
                        i, v = None, w.a[4]
                    elif w.op == 'with' and w.a[0] is arr and len(w.a[1]) == 1 and len(w.a[1][0][0]) == 1:
                        i, v = w.a[1][0][0][0][1], w.a[1][0][1]
                    else:
                        raise Bad('operands are stored otherwise')
                    if v.op == 'agg' and last(v.a[0]) == 'Const':
                        v = v.a[2]
                    v = deref(v)
                    if v.op == 'idx' and v.a[0].op == 'phi':
                        if not self.same_pos(v.a[1], i) or not self.runs(i, L):
                            raise Bad('operands change places')
                        self.content(v.a[0])
                    elif v.op == 'elem' and i is None and self.content_src(v):
                        pass
                    else:
                        j = self.frame_field(v, 'const_value')
                        if j is None:
                            raise Bad(f'an operand is {show(v)[:50]}')
                        if i is not None and not self.same_pos(i, j) and not self.same_pos(j, i):
                            raise Bad('operands change places')
                        if not self.runs(j if i is None else i, L):
                            raise Bad('operands may be missing')
                return
        raise Bad(f'operands {show(arr)[:50]}')

    def content_src(self, v):
        return False

    def runs(self, i, L):
        """i takes every operand position in loop L"""
        i = strip(i)
        if i.op == 'pos' and i.a[1] == L.site:
            return self.frames(i.a[0])
        if i.op == 'elem' and i.a[1] == L.site:
            r = i.a[0]
            return r.op == 'agg' and last(r.a[0]) == 'Range' and constant(r.a[2]) == 0 and strip(r.a[3]) is self.ar
        return False

    def all_const(self):
        for L in [x for x in self.b.items if isinstance(x, Loop)]:
            if not L.body or not ended(self.bf, L):
                continue
            src = L.src
            if is_call(src, 'enumerate'):
                src = src.a[1]
            if self.frames(src) and all(any(f.op == 'fld' and f.a[2] == 'is_const' and f.a[0].op == 'elem' and f.a[0].a[1] == L.site for f in q.facts) for q in L.body):
                return True
        return False


def lem_fold(c, fn):
    F = c.ctx.flow(fn, ())
    ek = arg_where(F, lambda t: 'PostfixExpr' in t)
    E = mk_arg(F, ek)
    folds, changes = 0, 0
    seen = set()
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        fe = final(F, p, ek)
        r = rebuild(p.ret, p.env)
        Ls = [x for x in p.items if isinstance(x, Loop) and x.src is not None and node_source(F, x.src) and any(isinstance(ph, T) for ph in x.accs or ())]
        if not Ls:
            if fe is not E:
                return 'changes the expression without reading its nodes'
            continue
        roles = None
        for L in Ls:
            for b in L.body:
                m = fold_step(F, L, b, E)
                if isinstance(m, str):
                    return m
                if m[0] == 'fold':
                    folds += 1
                seen.add(m[1])
                if roles is None or L is Ls[-1]:
                    roles = m[2]
        if not ended(fs, Ls[-1]):
            return 'folding may stop early'
        if fe is E:
            if not (r.op == 'const' and r.a[0] in (0, False)):
                return 'a change is reported where nothing changes'
            continue
        changes += 1
        from rules.wellformed import part
        N, C = part(fe, 'nodes'), part(fe, 'consts')
        if N is not roles[0] or C not in (roles[2], mk('fld', E, 'PostfixExpr', 'consts')):
            return 'the expression does not become what was built'
        if roles[2] is not None and C is not roles[2]:
            return 'folded constants are dropped'
        if not (r.op == 'const' and r.a[0] in (1, True)):
            return 'a change is not reported'
    if not folds or not changes:
        return 'nothing is ever folded'
    return None if seen == {'Var', 'Const', 'Op'} else f'only {sorted(seen)} nodes are read'


def fold_step(F, L, b, E):
    bf = [rebuild(f, b.env) for f in b.facts]
    els = {t for f in bf for t in terms_of(f) if t.op == 'elem' and t.a[1] == L.site}
    if len(els) != 1:
        return 'nodes not looked at'
    el = els.pop()
    k = kinds_of(bf, el)
    if len(k) != 1 and 'Op' in k:
        return 'operators and leaves are treated alike'
    up = accs_of(F, L, b)
    N = S = C = None
    for ph, v in up.items():
        x, y = pushed(v)
        if y is None:
            continue
        if y.op == 'agg' and last(y.a[0]) == 'Frame':
            S = ph
        elif y is el or y.op == 'agg' and 'PNode' in y.a[0]:
            N = ph
        else:
            C = ph
    if N is None or S is None:
        return 'a node is dropped'
    others = [ph for ph, v in up.items() if v is not ph and ph not in (N, S, C)]
    for ph in others:
        v = up[ph]
        if v.op == 'const' and v.a[0] in (0, 1, True, False):
            continue
        if v.op == 'upd' and not v.a[0].split('::')[-1] in ('push', 'truncate', 'clear', 'pop'):
            continue
    nb, nv = pushed(up[N])
    sb, fr = pushed(up[S])
    fld = dict(zip(fr.a[1], fr.a[2:]))
    isc = fld['is_const']
    isc = isc.a[0] if isc.op == 'const' else None
    if isc is None:
        return 'whether a value is constant is not known'
    # the constants vector on paths that do not fold
    cons = C
    if cons is None:
        cand = [ph for ph in L.accs if ph not in (N, S) and ph in L.entries and is_consts(origin_of(L.entries[ph]), E)]
        cons = cand[0] if cand else None
    cterm = cons if cons is not None else None
    roles = (N, S, cons)
    if 'Op' not in k:
        if nb is not N or nv is not el or sb is not S:
            return 'a leaf is not kept'
        if lenlin(fld['start']) != {mk('len', N): 1}:
            return f'a leaf starts at {show(fld["start"])[:50]}'
        if isc in (1, True):
            v = fld['const_value']
            if k != {'Const'} or not (v.op == 'idx' and strip(v.a[1]).op == 'vf' and strip(v.a[1]).a[0] is el and (v.a[0] is cterm or is_consts(v.a[0], E))):
                return f'the value of a leaf is {show(v)[:50]}'
        return ('leaf', list(k)[0], roles) if len(k) == 1 else ('leaf', 'Var', roles)
    P = Fold(F, b, S, el)
    P.bf = bf
    # malformed input: fewer values than operands
    if any(f.op == 'lt' and P.norm(f.a[0]) == {mk('len', S): 1} and strip(f.a[1]) is P.ar for f in bf):
        return ('bad', 'Op', roles)
    if not P.drained(sb):
        return 'an operator does not take exactly its operands'
    if not P.start(fld['start']):
        return f'the value of an operator starts at {show(fld["start"])[:50]}'
    if isc not in (1, True):
        if nb is not N or nv is not el:
            return 'an operator that is not folded is not kept'
        if C is not None:
            return 'a constant is added for an operator that is not folded'
        return ('keep', 'Op', roles)
    # folded
    if not (nb.op == 'upd' and last(nb.a[0]) == 'truncate' and nb.a[3] is N and P.start(nb.a[4])):
        return 'not exactly the operands are replaced by the constant'
    if C is None or not (nv.op == 'agg' and last(nv.a[0]) == 'Const' and lenlin(nv.a[2]) == {mk('len', C): 1}):
        return f'the folded node is {show(nv)[:50]}'
    cb, cv = pushed(up[C])
    if cb is not C or cv is not fld['const_value']:
        return 'the folded constant and the remembered value differ'
    if not any(is_call(f, 'is_finite') and f.a[1] is cv for f in bf):
        return 'a non-finite value may be folded in'
    if not fits(bf, C, nv.a[2]):
        return 'the position of the folded constant may not fit'
    if not P.all_const():
        return 'an operator may be folded although an operand is not constant'
    ev = [it for it in calls_in(b.items) if last(it[0].cn) == 'eval']
    if len(ev) != 1:
        return 'the operator is not evaluated once'
    e, x, en = ev[0]
    a = [rebuild(t, en) for t in e.args]
    opid = a[0]
    d = dict(zip(opid.a[1], opid.a[2:])) if opid.op == 'agg' else {}
    if not (strip(d.get('arity', el)) is P.ar and strip(d.get('id', el)) is mk('vf', el, 'Op', 'op')):
        return 'another operator is evaluated'
    ctx = dict(zip(a[1].a[1], a[1].a[2:])) if a[1].op == 'agg' else {}
    try:
        P.content(ctx['args'])
    except Bad as ex:
        return str(ex)
    if not (cv.op == 'idx' and constant(cv.a[1]) == 0 and cv.a[0].op == 'upd' and last(cv.a[0].a[0]) == 'eval'):
        return f'the folded value is {show(cv)[:50]}'
    if not any(is_call(f, 'eval') for f in bf):
        return 'a failed evaluation may be folded in'
    return ('fold', 'Op', roles)


def origin_of(t):
    while t.op == 'upd' and last(t.a[0]) == 'push':
        t = t.a[3]
    return t


def is_consts(t, E):
    while is_call(t, 'clone', 'to_vec', 'to_owned'):
        t = t.a[1]
    return t.op == 'fld' and t.a[2] == 'consts' and t.a[0] is E


def lem_driver(c, fn):
    F = c.ctx.flow(fn, ('parse_postfix_to_arena', 'emit_postfix', 'combine_node'))
    ek = arg_where(F, lambda t: 'PostfixExpr' in t)
    gk = arg_where(F, lambda t: 'CombineCfg' in t)
    E = mk_arg(F, ek)
    n = 0
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        fe = final(F, p, ek)
        from rules.wellformed import part
        N, C = part(fe, 'nodes'), part(fe, 'consts')
        n0 = mk('fld', E, 'PostfixExpr', 'nodes')
        c0 = mk('fld', E, 'PostfixExpr', 'consts')
        if C is not c0 and not (C.op == 'upd' and last(C.a[0]) == 'combine_node' and C.a[3] is c0):
            return 'the constants change otherwise'
        if N is n0:
            continue
        n += 1
        if not (N.op == 'upd' and last(N.a[0]) == 'emit_postfix' and empty(N.a[3])):
            return 'the nodes become something else than the rewritten tree'
        root, tab = N.a[4], deref(N.a[5])
        if root.op not in ('call',) and tab.op == 'call':
            root, tab = tab, root
        if not is_call(root, 'combine_node'):
            return 'the tree written does not start at the rewritten root'
        if not (tab.op == 'upd' and last(tab.a[0]) == 'combine_node' and C is not c0):
            return 'the tree written is not the rewritten one'
        t0 = tab.a[3]
        r0 = root.a[1]
        ok = t0.op == 'fld' and t0.a[2] in ('0', 0) and r0.op == 'fld' and r0.a[2] in ('1', 1) and t0.a[0] is r0.a[0] and t0.a[0].op == 'vf' and t0.a[0].a[1] == 'Some' and is_call(t0.a[0].a[0], 'parse_postfix_to_arena') and deref(t0.a[0].a[0].a[1]) is E
        if not ok:
            return 'not the tree of the expression is rewritten'
        if not any(deref(x) is mk_arg(F, gk) for x in root.a[1:] if isinstance(x, T)):
            return 'another configuration is used'
        r = rebuild(p.ret, p.env)
        if not (r.op == 'upd' and last(r.a[0]) == 'combine_node' or r.op == 'const' and r.a[0] in (1, True)):
            return 'a change is not reported'
    return None if n else 'the expression is never rewritten'


def lem_lookup(c, fn):
    F = c.ctx.flow(fn, ('lookup_with_arity', 'combine_operators_in_place_with_cfg', 'lookup'))
    n = 0
    for p in rets(F):
        for e, x, en in calls_in(p.items):
            if last(e.cn) != 'combine_operators_in_place_with_cfg':
                continue
            a = [deref(rebuild(t, en)) for t in e.args]
            cfg = next((t for t in a if t.op == 'agg' and last(t.a[0]) == 'CombineCfg'), None)
            if cfg is None:
                return 'the configuration is not made here'
            for name, v in zip(cfg.a[1], cfg.a[2:]):
                if v.op == 'agg' and last(v.a[0]) == 'None':
                    continue
                y = v.a[2] if v.op == 'agg' and last(v.a[0]) == 'Some' else None
                ok = y is not None and y.op == 'fld' and y.a[2] == 'id' and y.a[0].op == 'vf' and y.a[0].a[1] == 'Ok' and is_call(y.a[0].a[0], 'lookup_with_arity')
                if not ok or name not in MEANS:
                    return f'{name} is {show(v)[:60]}'
                args = [t for t in y.a[0].a[0].a[1:] if isinstance(t, T)]
                if not any(t.op == 'const' and str(t.a[0]).strip('"') == MEANS[name][1] for t in args) or not any(constant(t) == 2 for t in args):
                    return f'{name} is looked up as {show(y.a[0].a[0])[:80]}'
                n += 1
    return None if n else 'no operator is looked up'


def lem_all(c, fn):
    F = c.ctx.flow(fn, ('simplify_tree_in_place', 'combine_operators_in_place', 'compress_constants'))
    E = mk_arg(F, arg_where(F, lambda t: 'PostfixExpr' in t))
    ek = [k for k in range(1, F.f.argc + 1) if mk_arg(F, k) is E][0]
    for p in rets(F):
        t = final(F, p, ek)
        done = []
        while t.op == 'upd':
            done.append((last(t.a[0]), t.a[1]))
            t = t.a[3]
        if t is not E:
            return 'changes the expression in another way'
        for n, _ in done:
            if n not in ('simplify_tree_in_place', 'combine_operators_in_place', 'compress_constants'):
                return f'applies {n}'
        r = rebuild(p.ret, p.env)
        if r.op == 'const' and r.a[0] in (1, True):
            continue
        fs = [rebuild(f, p.env) for f in p.facts]
        for n, site in done:
            z = lambda t: is_call(t, n) and t.a[-1] == site
            alts, st = [], [r]
            while st:
                t = st.pop()
                if t.op in ('BitOr', 'or', 'Or') or is_call(t, 'bitor', 'bitor_assign'):
                    st += [x for x in t.a if isinstance(x, T)]
                else:
                    alts.append(t)
            if any(z(t) for t in alts) or any(f.op == 'not' and z(f.a[0]) for f in fs):
                continue
            return f'a change by {n} is not reported'
    return None


@rule('P22', 'constant folding and regrouping read as finite tree rewrites over MIR and compared as polynomials with the tree before', [
    'real arithmetic: rounding of regrouped constants is not bounded',
    'the operators named "+", "*" and "-" with two operands add, multiply and subtract (P30, P33 show it for the built-in sets)'])
def p22(c):
    D = 'dynamic_expressions::simplify::'
    fs = {f['id'].split('::')[-1]: f for f in c.p.fns.values() if f['id'].startswith(D) and f['kind'] in ('Fn', 'AssocFn')}

    def ob(name, lem):
        f = fs.get(name)
        c.need(f is not None, f'{D}{name} not found')
        m = run(lem, c, f)
        c.ob(f'{name}', m is None, f['id'], m)

    ob('combine_node', lem_combine)
    ob('append_const', lem_append)
    ob('emit_postfix', lem_emit)
    ob('parse_postfix_to_arena', lem_parse)
    ob('simplify_tree_in_place', lem_fold)
    ob('combine_operators_in_place_with_cfg', lem_driver)
    ob('combine_operators_in_place', lem_lookup)
    ob('simplify_in_place', lem_all)
