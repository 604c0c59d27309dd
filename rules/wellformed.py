"""P34: mutations, crossover and random generation only ever build well-formed expressions.

The node vectors a function builds are read as sequences of whole trees ("pieces"): whole subtrees cut out of a
well-formed expression, fresh leaves, and operator nodes applied to exactly as many pieces as their arity.  Loops
contribute a fixed number of pieces per iteration times their trip count, or keep "one tree" invariant."""
from sa.core import *
from sa.rulelib import *
from sa.algebra import Unknown
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg

OPQ = ('subtree_sizes', 'subtree_range', 'child_ranges', 'random_leaf', 'sample_arity', 'sample_op', 'compress_constants',
       'usize_range', 'usize_range_inclusive', 'standard_normal', 'total_ops_up_to', 'nops', 'splice', 'remap_subtree_consts')
ADT = 'PostfixExpr'


def constant(t):
    return int(t.a[0]) if isinstance(t, T) and t.op == 'const' and isinstance(t.a[0], int) and not isinstance(t.a[0], bool) else None


class Bad(Exception):
    pass


BITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}


def narrows(t):
    """an integer conversion that can drop high bits"""
    if len(t.a) < 3:
        return False
    a, b = BITS.get(str(t.a[1])), BITS.get(str(t.a[2]))
    return a is not None and b is not None and b < a


def strip(t, exact=False):
    """drop value-preserving numeric conversions (exact: stop at one that can drop high bits)"""
    while isinstance(t, T):
        if t.op == 'cast':
            if exact and narrows(t):
                return t
            t = t.a[0]
        elif is_call(t, 'from', 'into') and len(t.a) in (2, 3):
            t = t.a[1]
        elif t.op == 'vf' and t.a[1] == 'Ok' and is_call(t.a[0], 'try_into', 'try_from'):
            t = t.a[0].a[1]
        elif is_call(t, 'unwrap', 'expect') and is_call(t.a[1], 'try_into', 'try_from'):
            t = t.a[1].a[1]
        else:
            return t
    return t


def exact(t):
    return strip(t, True)


def lin(t):
    """linear form of an integer term: {atom or 1: coefficient}"""
    t = strip(t)
    if t.op == 'const':
        v = constant(t)
        if v is not None:
            return {1: int(v)} if v else {}
    if t.op == 'Add' or t.op == 'Sub':
        a, b = lin(t.a[0]), lin(t.a[1])
        s = 1 if t.op == 'Add' else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
            if not out[k]:
                del out[k]
        return out
    if t.op == 'fld' and t.a[2] in ('0', 0) and is_call(t.a[0], 'subtree_range') and len(t.a[0].a) >= 3:
        sz, i = t.a[0].a[1], t.a[0].a[2]
        return lin(mk('Sub', mk('Add', const(1), i), mk('idx', sz, i)))
    if t.op == 'fld' and t.a[2] in ('1', 1) and is_call(t.a[0], 'subtree_range') and len(t.a[0].a) >= 3:
        return lin(t.a[0].a[2])
    return {t: 1}


def plus(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
        if not out[k]:
            del out[k]
    return out


def key(l):
    return tuple(sorted(((k if k == 1 else k.id), v) for k, v in l.items()) if not any(k == 1 for k in l) else
                 sorted(((0 if k == 1 else k.id), v) for k, v in l.items()))


class Pieces:
    def __init__(self, F, p, base, exprs):
        """base: terms of node vectors known to be one well-formed tree"""
        self.F, self.p, self.base, self.exprs = F, p, base, exprs
        self.loops = {}
        self.ass = {}
        self.index(p.items)
        self.facts = list(p.facts)
        self.leaves = []      # random leaves used
        self.lits = []        # literal leaves
        self.remaps = []

    def index(self, items):
        for it in items:
            if isinstance(it, Loop):
                for ph in it.accs or ():
                    self.loops[ph] = it
                for b in it.body:
                    self.index(b.items)

    # -------------------------------------------------- facts about nodes
    def picked(self, i):
        """i is an element of a list of positions collected by a filter loop: (site, facts) common to every push"""
        i = strip(i)
        if i.op in ('idx', 'elem') and i.a[0].op == 'phi' and i.a[0] in self.loops:
            ph, L = i.a[0], self.loops[i.a[0]]
            e = L.entries.get(ph)
            if e is None or not empty(e):
                return None
            out = []
            for b in L.body:
                if b.nodes[-2] not in dict(self.F.phi_ops[ph]):
                    return None
                v = rebuild(dict(self.F.phi_ops[ph])[b.nodes[-2]], b.env)
                if v is ph:
                    continue
                if v.op == 'upd' and v.a[0].split('::')[-1] == 'push' and v.a[3] is ph:
                    out.append((strip(v.a[4]), b.facts))
                else:
                    return None
            return out
        return None

    def variants(self, N, i):
        """possible node kinds at position i of N, and its known arity"""
        i = strip(i)
        at = mk('idx', N, i)
        kinds, ar = {'Var', 'Const', 'Op'}, None
        for f in self.facts:
            kinds, ar = self.learn(f, at, kinds, ar)
        pk = self.picked(i)
        if pk:
            ks, ars = set(), set()
            for pos, fs in pk:
                k2, a2 = {'Var', 'Const', 'Op'}, None
                if pos.op == 'pos' and pos.a[0] is N:
                    el = mk('elem', N, pos.a[1])
                    for f in fs:
                        k2, a2 = self.learn(f, el, k2, a2)
                elif pos.op == 'pos':
                    # position in a list of children: nothing is known of N directly
                    pass
                ks |= k2
                ars.add(a2)
            kinds &= ks
            if len(ars) == 1 and ar is None:
                ar = ars.pop()
        return kinds, ar

    def learn(self, f, at, kinds, ar):
        if f.op in ('is', 'isnt') and f.a[0] is at:
            v = {f.a[1]}
            kinds = kinds & v if f.op == 'is' else kinds - v
        if f.op == 'eq' and len(f.a) >= 2:
            for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if isinstance(y, T) and strip(y).op == 'vf' and strip(y).a[0] is at and strip(y).a[2] == 'arity' and isinstance(x, T) and constant(x) is not None:
                    ar = int(constant(x))
        return kinds, ar

    def arity_of(self, N, i):
        """linear form of the arity of the operator at N[i]"""
        kinds, ar = self.variants(N, i)
        if kinds != {'Op'}:
            raise Bad(f'node {show(mk("idx", N, i))[:100]} is not known to be an operator here')
        return {1: ar} if ar is not None else {mk('vf', mk('idx', N, i), 'Op', 'arity'): 1}

    def norm_ar(self, t):
        """linear form with arities known from facts replaced"""
        l = lin(t)
        out = {}
        for k, v in l.items():
            r = {k: 1}
            if isinstance(k, T) and k.op == 'vf' and k.a[2] == 'arity' and k.a[0].op == 'idx':
                N, i = k.a[0].a
                kinds, ar = self.variants(N, i)
                if ar is not None:
                    r = {1: ar}
            for a, b in r.items():
                out[a] = out.get(a, 0) + v * b
        return {k: v for k, v in out.items() if v}

    # -------------------------------------------------- ranges
    def subtree(self, N, s, e):
        """(s, e) inclusive bounds of a whole subtree of N: its description"""
        ls, le = lin(s), lin(e)
        s0, e0 = (list(l)[0] if len(l) == 1 and 1 not in l and list(l.values()) == [1] else strip(t) for l, t in ((ls, s), (le, e)))
        if s0.op == 'fld' and e0.op == 'fld' and s0.a[0] is e0.a[0] and str(s0.a[2]) == '0' and str(e0.a[2]) == '1':
            r = s0.a[0]
            if r.op in ('idx', 'elem') and is_call(r.a[0], 'child_ranges'):
                sz, root, ar = r.a[0].a[1:4]
                if is_call(sz, 'subtree_sizes') and sz.a[1] is N:
                    if self.norm_ar(ar) != self.arity_of(N, root):
                        raise Bad('children are located for another arity than the node has')
                    return ('child', strip(root), r.a[1] if r.op == 'idx' else ('each', r.a[1]), r)
        # (i + 1 - sizes[i], i)
        d = plus(le, ls, -1)
        if ls == le:
            i = strip(e)
            kinds, _ = self.variants(N, i)
            if kinds <= {'Var', 'Const'}:
                return ('leaf', i)
            raise Bad('a node that may be an operator is cut out without its operands')
        # e - s == sizes[e] - 1
        if len(le) == 1 and list(le.values()) == [1] and 1 not in le:
            i = list(le)[0]
            for k, v in d.items():
                if isinstance(k, T) and v == 1 and k.op == 'idx' and is_call(k.a[0], 'subtree_sizes') and k.a[0].a[1] is N and strip(k.a[1]) is i:
                    if plus(d, {k: 1}, -1) == {1: -1}:
                        return ('node', i)
        raise Bad(f'nodes {show(s)[:90]}..={show(e)[:90]} are not known to be one whole subtree')

    def is_tree(self, N, s, e):
        try:
            self.subtree(N, s, e)
            return True
        except Bad:
            return False

    def bounds(self, r):
        """(first, last inclusive) of a range term; None for an open end"""
        n = r.a[0].split('::')[-1] if r.op in ('agg',) else None
        if is_call(r, 'new') and 'RangeInclusive' in r.a[0]:
            return r.a[1], r.a[2]
        if n == 'RangeInclusive':
            return r.a[2], r.a[3]
        if n == 'Range':
            return r.a[2], mk('Sub', r.a[3], const(1))
        if n == 'RangeTo':
            return None, mk('Sub', r.a[2], const(1))
        if n == 'RangeToInclusive':
            return None, r.a[2]
        if n == 'RangeFrom':
            return r.a[2], None
        raise Bad(f'range {show(r)[:80]} not understood')

    # -------------------------------------------------- sequences
    def isbase(self, t):
        return any(t is b for b in self.base) or t.op == 'fld' and t.a[2] == 'nodes' and t.a[0] in self.exprs

    def seq(self, X):
        if X in self.ass:
            return self.ass[X]
        if self.isbase(X):
            return [('tree', ('whole', X))]
        n = lastname(X) if X.op == 'call' else None
        if n in ('new', 'with_capacity', 'default') and 'Vec' in X.a[0]:
            return []
        if X.op == 'agg' and X.a[0] == 'array':
            s = []
            for x in X.a[2:]:
                s = self.node(s, x)
            return s
        if n in ('to_vec', 'clone', 'to_owned', 'collect', 'into_iter', 'iter', 'cloned', 'copied'):
            return self.seq(X.a[1])
        if n == 'index' and len(X.a) >= 3:
            N, r = X.a[1], X.a[2]
            if not self.isbase(N):
                raise Bad(f'slice of {show(N)[:80]}, which is not a known expression')
            s, e = self.bounds(r)
            if s is not None and e is not None:
                le = plus(lin(e), {1: 1})
                if len(le) == 1 and list(le.values()) == [1] and 1 not in le and lastname_len(list(le)[0]) and list(le)[0].a[-1] is N:
                    e = None
                elif not lin(s) and not self.is_tree(N, s, e):
                    s = None
            if s is None:
                return [('pre', N, lin(mk('Add', e, const(1))))]
            if e is None:
                return [('suf', N, lin(s))]
            return [('tree', ('sub', N, self.subtree(N, s, e)))]
        if n == 'remap_subtree_consts':
            s = self.seq(X.a[1])
            self.remaps.append((X, X.a[1], X.a[2], X.a[3]))
            if len(s) != 1 or s[0][0] != 'tree':
                raise Bad('the nodes whose constants are moved are not one subtree')
            return [('tree', ('remap', X, s[0][1]))]
        if X.op == 'upd':
            m = X.a[0].split('::')[-1]
            V = X.a[3]
            if m == 'push':
                return self.node(self.seq(V), X.a[4])
            if m in ('extend_from_slice', 'extend', 'append'):
                return self.joined(self.seq(V) + self.seq(X.a[4]))
            if m == 'splice':
                s, e = self.bounds(X.a[4])
                old = self.seq(V)
                if len(old) != 1 or old[0][0] != 'tree':
                    raise Bad('the spliced nodes are not one tree')
                if s is None or e is None:
                    raise Bad('open splice range')
                r = self.subtree(V, s, e)
                new = self.one(X.a[5], 'what replaces a subtree')
                return [('tree', ('repl', V, r, new))]
        if X.op == 'phi' and X in self.loops:
            return self.loop(X)
        if X.op == 'phi':
            raise Bad(f'{show(X)} depends on the path')
        raise Bad(f'nodes {show(X)[:140]} not understood')

    def joined(self, s):
        """prefix, one tree, suffix around a whole subtree give one tree"""
        if len(s) == 3 and s[0][0] == 'pre' and s[1][0] == 'tree' and s[2][0] == 'suf' and s[0][1] is s[2][1]:
            N = s[0][1]
            a, b = s[0][2], s[2][2]
            # b - 1 must be the end of a subtree starting at a
            e = plus(b, {1: 1}, -1)
            if len(e) == 1 and 1 not in e and list(e.values()) == [1]:
                i = list(e)[0]
                want = lin(mk('Sub', mk('Add', const(1), i), mk('idx', self.sizes_call(N, a), i))) if self.sizes_call(N, a) is not None else None
                if want == a:
                    return [('tree', ('repl', N, ('node', i), s[1][1]))]
            raise Bad('the parts kept around the new subtree do not leave out exactly one subtree')
        return s

    def sizes_call(self, N, a):
        for k in a:
            if isinstance(k, T) and k.op == 'idx' and is_call(k.a[0], 'subtree_sizes') and k.a[0].a[1] is N:
                return k.a[0]
        return None

    def one(self, X, what):
        s = self.seq(X)
        if len(s) == 1 and s[0][0] == 'tree':
            return s[0][1]
        raise Bad(f'{what} is not exactly one tree ({self.descr(s)})')

    def descr(self, s):
        return ' + '.join(x[0] if x[0] != 'each' else 'loop' for x in s) or 'nothing'

    def node(self, s, x):
        if is_call(x, 'random_leaf'):
            self.leaves.append(x)
            return s + [('tree', ('leaf', x))]
        if x.op == 'agg' and x.a[0].split('::')[-1] in ('Const', 'Var'):
            self.lits.append(x)
            return s + [('tree', ('leaf', x))]
        if x.op == 'agg' and x.a[0].split('::')[-1] == 'Op':
            ar = x.a[2 + x.a[1].index('arity')]
            op = x.a[2 + x.a[1].index('op')]
            want = self.norm_ar(ar)
            cnt = self.count(s)
            if cnt != want:
                raise Bad(f'an operator of arity {self.sl(want)} is applied to {self.sl(cnt)} operands')
            self.operator(ar, op)
            return [('tree', ('op', want, strip(op), s))]
        at = self.node_at(x)
        if at is not None:
            kinds, _ = self.variants(*at)
            if kinds <= {'Var', 'Const'}:
                return s + [('tree', ('sub', at[0], ('leaf', at[1])))]
            if kinds == {'Op'}:
                want = self.arity_of(*at)
                if self.count(s) != want:
                    raise Bad(f'an operator of arity {self.sl(want)} is applied to {self.sl(self.count(s))} operands')
                return [('tree', ('op', want, mk('vf', x, 'Op', 'op'), s))]
        raise Bad(f'pushed node {show(x)[:100]} not understood')

    def node_at(self, x):
        if x.op == 'idx' and self.isbase(x.a[0]):
            return x.a[0], strip(x.a[1])
        return None

    def sl(self, l):
        return ' + '.join(f'{"" if v == 1 and k != 1 else v}{"" if k == 1 else (" " if v != 1 else "") + show(k)[:60]}' for k, v in l.items()) or '0'

    def operator(self, ar, op):
        """the id is one of an operator with that arity"""
        op = strip(op)
        if op.op == 'fld' and op.a[2] == 'id' and is_call(op.a[0], 'sample_op'):
            if self.norm_ar(op.a[0].a[3]) != self.norm_ar(ar):
                raise Bad('the operator is drawn among those of another arity than the node is given')
            return
        if op.op == 'vf' and op.a[1] == 'Op' and op.a[2] == 'op' and op.a[0].op == 'idx':
            N, i = op.a[0].a
            if self.arity_of(N, i) != self.norm_ar(ar):
                raise Bad('the operator of an existing node is given another arity')
            return
        raise Bad(f'operator id {show(op)[:80]} is neither drawn for this arity nor taken from a node of this arity')

    def count(self, s):
        out = {}
        for x in s:
            if x[0] == 'tree':
                out = plus(out, {1: 1})
            elif x[0] == 'each':
                L, cases = x[1], x[2]
                cs = []
                for _, items in cases:
                    cs.append(self.count(items))
                if any(a != cs[0] for a in cs):
                    raise Bad('iterations of one loop add different numbers of operands')
                if not cs or list(cs[0]) not in ([], [1]):
                    raise Bad('operands added per iteration are not constant')
                k = cs[0].get(1, 0)
                if k:
                    self.finished(L)
                    for a, v in self.trip(L.src).items():
                        out = plus(out, {a: v * k})
            else:
                raise Bad('part of an expression used as operands')
        return out

    def finished(self, L):
        """the loop runs to the end of its source"""
        for f in self.facts:
            if f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and f.a[0].a[1] == L.site:
                return
        raise Bad('the loop adding operands may stop early')

    def trip(self, src):
        while isinstance(src, T) and is_call(src, 'enumerate', 'rev', 'into_iter', 'iter'):
            src = src.a[1]
        if src.op == 'agg' and src.a[0].split('::')[-1] == 'Range':
            return plus(self.norm_ar(src.a[3]), self.norm_ar(src.a[2]), -1)
        if is_call(src, 'child_ranges'):
            return self.norm_ar(src.a[3])
        raise Bad(f'loop over {show(src)[:80]}: number of iterations unknown')

    def loop(self, ph):
        L = self.loops[ph]
        if ph not in L.entries:
            raise Bad(f'loop value {show(ph)} has no known start')
        e = self.seq(L.entries[ph])
        ops = dict(self.F.phi_ops[ph])
        ups = [(b, rebuild(ops[b.nodes[-2]], b.env)) for b in L.body if b.nodes[-2] in ops]
        if len(ups) != len(L.body) or not ups:
            raise Bad('loop body not understood')
        if len(e) == 1 and e[0][0] == 'tree' and any(mentions(v, lambda t: t.op == 'upd' and t.a[0].split('::')[-1] == 'splice') for _, v in ups):
            # invariant: one tree
            sv = (self.ass, self.facts, self.base)
            for b, v in ups:
                self.ass = dict(sv[0])
                self.ass[ph] = [('tree', ('inv', ph))]
                self.base = list(sv[2]) + [ph]
                self.facts = list(b.facts)
                self.index(b.items)
                self.one(v, 'the expression after one round')
            self.ass, self.facts, self.base = sv
            return [('tree', ('inv', ph))]
        cases = []
        sv = (self.ass, self.facts)
        for b, v in ups:
            self.ass = dict(sv[0])
            self.ass[ph] = [('mark',)]
            self.facts = sv[1] + list(b.facts)
            self.index(b.items)
            s = self.seq(v)
            if not s or s[0] != ('mark',) or ('mark',) in s[1:]:
                raise Bad('the loop does not only append')
            cases.append((b.facts, s[1:]))
        self.ass, self.facts = sv
        return e + [('each', L, cases)]


def empty(t):
    return is_call(t, 'new', 'with_capacity') and 'Vec' in t.a[0] or t.op == 'agg' and t.a[0] == 'array' and len(t.a) == 2


def final(F, p, k):
    """the expression argument k points to when path p returns"""
    nd = F.n[p.nodes[-1]]
    return rebuild(F.read_whole(nd.outst, mk_arg(F, k), ()), p.env)


def part(E, f):
    """field of an expression term that may be partly overwritten"""
    if E.op == 'with':
        for path, v in E.a[1]:
            if len(path) == 1 and path[0][0] == 'f' and path[0][2] == f:
                return v
        for path, v in E.a[1]:
            if len(path) > 1 and path[0][2] == f:
                raise Bad(f'{f} changed element by element')
        return part(E.a[0], f)
    if E.op == 'agg' and f in E.a[1]:
        return E.a[2 + E.a[1].index(f)]
    return mk('fld', E, ADT, f)


def compressed(E):
    """(expression before constants were compressed, was it)"""
    n = False
    while E.op == 'upd' and E.a[0].split('::')[-1] == 'compress_constants':
        E, n = E.a[3], True
    return E, n


def const_roots(F, C):
    """(leaf sites, remaps, base terms) of a constants vector"""
    sites, rem, base, seen, st = set(), [], [], set(), [C]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'upd':
            n = t.a[0].split('::')[-1].split('@')[0]
            if n == 'random_leaf':
                sites.add(t.a[1])
                st.append(t.a[3])
                continue
            if n in ('map', 'for_each', 'fold') and len(t.a) == 2:
                # lent to a closure; its effect is in the loop that runs it
                st.append(t.a[1])
                continue
            if n == 'remap_subtree_consts':
                rem.append(t.a[1])
                st.append(t.a[3])
                continue
        if t.op == 'phi' and t in F.phi_ops:
            st += [v for _, v in F.phi_ops[t]]
            continue
        base.append(t)
    return sites, rem, base



def sets(E):
    """element-wise overwrites of the nodes: [(index, node)]"""
    out = []
    while E.op == 'with':
        for path, v in E.a[1]:
            if path[0][0] == 'f' and path[0][2] == 'nodes' and len(path) > 1:
                if len(path) != 2 or path[1][0] != 'i':
                    raise Bad('part of a node overwritten')
                out.append((path[1][1], v))
        E = E.a[0]
    return out


def params(F, pred):
    return [k for k in range(1, F.f.argc + 1) if pred(F.f.locals[k]['ty'])]


def is_expr_ty(t):
    return t.replace('&mut ', '').replace('&', '').strip().startswith(('PostfixExpr', 'dynamic_expressions::PostfixExpr', 'dynamic_expressions::expression::PostfixExpr', 'expression::PostfixExpr'))


class Fn:
    """one function that builds or changes expressions"""

    def __init__(self, c, fn):
        self.c, self.fn = c, fn
        self.F = F = c.ctx.flow(fn, OPQ)
        self.where = f"{fn['id']} ({F.where(0)})"
        self.paths = [p for p in Walk(F, lambda f, fs: None).paths() if p.end == 'ret']
        self.exprs = params(F, is_expr_ty)
        self.args = {k: mk_arg(F, k) for k in self.exprs}
        self.muts = [k for k in self.exprs if F.f.locals[k]['ty'].startswith('&mut')]

    def outs(self, p):
        """expressions handed out on path p: [(name, term)]"""
        o = [(f'argument {k}', final(self.F, p, k)) for k in self.muts]
        r = p.ret
        if r is not None:
            for x in (r.a[2:] if r.op == 'agg' and r.a[0] == 'tuple' else (r.a if r.op == 'tuple' else (r,))):
                if isinstance(x, T) and self.is_expr(x):
                    o.append(('result', x))
        return o

    def is_expr(self, t):
        t, _ = compressed(t)
        while t.op == 'with':
            t = t.a[0]
        return t.op == 'agg' and t.a[0].split('::')[-1] == ADT

    def check(self, p, E):
        """tree description, or raises Bad"""
        E, _ = compressed(E)
        E0 = E
        while E0.op == 'with':
            E0 = E0.a[0]
        P = Pieces(self.F, p, [], set(self.args.values()))
        ss = sets(E)
        N, C = part_nodes(E), part(E, 'consts')
        if ss:
            desc = P.one(N, 'the expression')
            for i, v in ss:
                if v.op != 'agg':
                    raise Bad(f'node {show(v)[:80]} not understood')
                kinds, ar = P.variants(N, i)
                if v.a[0].split('::')[-1] == 'Op':
                    a = v.a[2 + v.a[1].index('arity')]
                    if P.norm_ar(a) != P.arity_of(N, i):
                        raise Bad('an operator node is replaced by one of another arity')
                    P.operator(a, v.a[2 + v.a[1].index('op')])
                elif v.a[0].split('::')[-1] == 'Var':
                    if not kinds <= {'Var', 'Const'}:
                        raise Bad('a leaf replaces a node that may be an operator')
                    P.lits.append(v)
                else:
                    raise Bad('a constant leaf is written in place')
            desc = ('set', N, ss, desc)
        else:
            desc = P.one(N, 'the expression')
        self.consts(P, desc, C, p)
        return desc, P

    def consts(self, P, desc, C, p):
        F = self.F
        sites, rem, base = const_roots(F, C)
        for x in P.leaves:
            if x.a[-1] not in sites:
                raise Bad('a new leaf puts its constant into another list of constants than the expression keeps')
            nf = strip(x.a[2])
            if not (nf.op == 'arg' or is_fld(nf, 'n_features')):
                raise Bad(f'features of a new leaf are drawn below {show(nf)[:60]}')
        donors = set()
        for X, S, dc, dst in P.remaps:
            ok = S.op == 'call' and is_fld(S.a[1], 'nodes') and is_fld(dc, 'consts') and dc.a[0] is S.a[1].a[0]
            if not ok:
                raise Bad('moved constants are looked up in another expression than the nodes')
            if X.a[-1] not in rem:
                raise Bad('moved constants are added to another expression than the nodes')
            donors.add(X)
        own = {N.a[0] for N in kept(desc) if is_fld(N, 'nodes')}
        if len(own) > 1:
            raise Bad('nodes of two expressions are mixed without moving constants')
        for b in base:
            if own:
                if not (is_fld(b, 'consts') and b.a[0] in own):
                    raise Bad(f'kept nodes refer to constants that are not kept ({show(b)[:60]})')
            elif not (empty(b) or b.op == 'agg' and b.a[0] == 'array'):
                raise Bad(f'constants {show(b)[:60]} not understood')
        for v in P.lits:
            k = v.a[0].split('::')[-1]
            if k == 'Const':
                i = constant(strip(v.a[2]))
                if i is None or not all(b.op == 'agg' and len(b.a) - 2 > i for b in base):
                    raise Bad('a constant leaf whose constant does not exist')
            elif k == 'Var':
                i = strip(v.a[2 + v.a[1].index('feature')])
                if not below_features(i, p):
                    raise Bad(f'variable {show(i)[:80]} is not known to be one of the features')


def below_features(i, p):
    if is_call(i, 'usize_range') and i.a[2].op == 'agg' and constant(i.a[2].a[2]) == 0:
        nf = strip(i.a[2].a[3])
        return nf.op == 'arg' or is_fld(nf, 'n_features')
    return False


def part_nodes(E):
    """nodes before element-wise overwrites"""
    while E.op == 'with':
        for path, v in E.a[1]:
            if len(path) == 1 and path[0][2] == 'nodes':
                return v
        E = E.a[0]
    return part(E, 'nodes')


def terms_of(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += list(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            st += list(x.a)
    return seen


def kept(d):
    """node vectors a tree description keeps parts of, moved subtrees apart"""
    out = []
    if isinstance(d, tuple):
        if d and d[0] == 'remap':
            return out
        if d and d[0] in ('whole', 'sub', 'repl', 'set'):
            out.append(d[1])
        for x in d:
            if isinstance(x, (tuple, list)):
                out += kept(x)
    elif isinstance(d, list):
        for x in d:
            out += kept(x)
    res = []
    for n in out:
        if isinstance(n, T) and n.op == 'upd':
            continue
        res.append(n)
    return res



# ---------------------------------------------------------------- what each operation does to the tree
def isop(t, N, i):
    """the operator id of node i of N"""
    return t.op == 'vf' and t.a[1] == 'Op' and t.a[2] == 'op' and t.a[0] is mk('idx', N, i)


def subs(items):
    """[(piece, guard facts, loop)] of an operand list"""
    out = []
    for x in items:
        if x[0] == 'tree':
            out.append((x[1], None, None))
        elif x[0] == 'each':
            for fs, its in x[2]:
                for y in its:
                    if y[0] != 'tree':
                        raise Bad('operands not understood')
                    out.append((y[1], fs, x[1]))
        else:
            raise Bad('operands not understood')
    return out


def split_each(items):
    """one loop over all operand positions with one special position: (loop, position term, special piece, other piece)"""
    if len(items) != 1 or items[0][0] != 'each':
        return None
    L, cs = items[0][1], items[0][2]
    eq, ne = [], []
    for fs, its in cs:
        if len(its) != 1 or its[0][0] != 'tree':
            return None
        for f in fs:
            if f.op in ('eq', 'ne') and len(f.a) >= 2:
                for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                    if isinstance(a, T) and isinstance(b, T) and strip(a).op in ('elem', 'pos') and strip(a).a[1] == L.site:
                        (eq if f.op == 'eq' else ne).append((strip(b), its[0][1]))
    if len({k for k, _ in eq + ne}) != 1 or len(eq) + len(ne) != len(cs) or not eq:
        return None
    return L, eq[0][0], [d for _, d in eq], [d for _, d in ne]


def picked_below(K, n, P):
    """K is drawn from 0..n"""
    return is_call(K, 'usize_range') and K.a[2].op == 'agg' and K.a[2].a[0].endswith('Range') and constant(K.a[2].a[2]) == 0 and P.norm_ar(K.a[2].a[3]) == n


def keep_once(P, d, whole):
    """an operator over fresh leaves and, exactly once, the old (sub)tree"""
    if d[0] != 'op':
        return 'no operator is put on top'
    items = d[3]
    flat = subs(items)
    if any(x[0] not in ('leaf',) and not whole(x) for x, _, _ in flat):
        return 'an operand is neither the old subtree nor a fresh leaf'
    n = sum(1 for x, fs, L in flat if whole(x) and L is None)
    sp = split_each([x for x in items if x[0] == 'each'])
    if any(whole(x) for x, fs, L in flat if L is not None):
        if sp is None or n or not all(whole(x) for x in sp[2]) or any(whole(x) for x in sp[3]) or len([x for x in items if x[0] == 'each']) != 1:
            return 'the old subtree is not kept exactly once'
        t = P.trip(sp[0].src)
        if not picked_below(sp[1], t, P):
            return 'the position the old subtree is kept at may not exist'
        return None
    return None if n == 1 else 'the old subtree is not kept exactly once'


def shape_swap(P, d):
    if d[0] == 'repl' and d[2][0] == 'node' and d[3][0] == 'op':
        N, r, o = d[1], d[2][1], d[3]
        it = o[3]
        if o[1] == {1: 2} and isop(o[2], N, r) and len(it) == 2 and all(x[0] == 'tree' and x[1][0] == 'sub' and x[1][1] is N and x[1][2][0] == 'child' and x[1][2][1] is r for x in it):
            ks = [x[1][2][2] for x in it]
            if [constant(k) if isinstance(k, T) else None for k in ks] == [1, 0]:
                return None
    return 'the two operands of one operator are not exchanged'


def shape_delete(P, d):
    if d[0] == 'repl' and d[2][0] == 'node' and d[3][0] == 'sub' and d[3][2][0] == 'child' and d[3][2][1] is d[2][1]:
        if P.variants(d[1], d[2][1])[0] == {'Op'}:
            return None
    return 'an operator is not replaced by one of its own operands'


def shape_append(P, d):
    if d[0] == 'repl' and d[2][0] == 'leaf' and d[3][0] == 'op' and all(x[0] == 'leaf' for x, _, _ in subs(d[3][3])):
        return None
    return 'a leaf is not replaced by an operator over fresh leaves'


def shape_insert(P, d):
    if d[0] != 'repl' or d[2][0] != 'node':
        return 'no whole subtree is replaced'
    N, r = d[1], d[2][1]
    return keep_once(P, d[3], lambda x: x[0] == 'sub' and x[1] is N and x[2] == ('node', r))


def shape_prepend(P, d):
    return keep_once(P, d, lambda x: x[0] == 'whole')


def shape_add(P, d):
    return shape_append(P, d) if d[0] == 'repl' else shape_prepend(P, d)


def shape_rotate(P, d):
    if d[0] != 'repl' or d[2][0] != 'node' or d[3][0] != 'op':
        return 'no operator subtree is replaced by another'
    N, r, top = d[1], d[2][1], d[3]
    sp = split_each(top[3])
    if sp is None or len(sp[2]) != 1 or len(sp[3]) != 1:
        return 'the new root does not keep its operands but one'
    L, gpos, (rot,), (other,) = sp
    ch = L.src
    while is_call(ch, 'enumerate', 'iter', 'into_iter'):
        ch = ch.a[1]
    if not is_call(ch, 'child_ranges') or not isop(top[2], N, strip(ch.a[2])):
        return 'the new root is not the operator whose operands it takes over'
    pivot = strip(ch.a[2])
    if not (other[0] == 'sub' and other[2][0] == 'child' and other[2][1] is pivot and other[2][2] == ('each', L.site)):
        return 'an operand of the new root is lost or repeated'
    if not picked_below(gpos, P.trip(L.src), P):
        return 'the rotated operand may not exist'
    if rot[0] != 'op':
        return 'the old root is lost'
    s2 = split_each(rot[3])
    if s2 is None or len(s2[2]) != 1 or len(s2[3]) != 1:
        return 'the old root does not keep its operands but one'
    L2, ppos, (g,), (o2,) = s2
    c2 = L2.src
    while is_call(c2, 'enumerate', 'iter', 'into_iter'):
        c2 = c2.a[1]
    if not is_call(c2, 'child_ranges') or strip(c2.a[2]) is not r or not isop(rot[2], N, r):
        return 'the old root is not kept with its own operands'
    if not (o2[0] == 'sub' and o2[2][0] == 'child' and o2[2][1] is r and o2[2][2] == ('each', L2.site)):
        return 'an operand of the old root is lost or repeated'
    if not (g[0] == 'sub' and g[2][0] == 'child' and g[2][1] is pivot and isinstance(g[2][2], T) and strip(g[2][2]) is gpos):
        return 'the old root does not get the operand the new root gives up'
    # the pivot is the operand of the root that is given up
    pv = strip(pivot)
    if not (pv.op == 'fld' and str(pv.a[2]) == '1' and pv.a[0].op == 'idx' and pv.a[0].a[0] is c2 and strip(pv.a[0].a[1]) is ppos):
        return 'the operand the old root gives up is not the new root'
    return None


SHAPES = {'swap_operands_in_place': shape_swap, 'delete_random_op_in_place': shape_delete, 'append_random_op_in_place': shape_append,
          'insert_random_op_in_place': shape_insert, 'prepend_random_op_in_place': shape_prepend, 'rotate_tree_in_place': shape_rotate,
          'add_node_in_place': shape_add}


def shape_cross(M, p, ds):
    """both children: one parent with one subtree replaced by the subtree the other parent gives up"""
    if len(ds) != 2:
        return 'crossover does not give two children'
    (Pa, a), (Pb, b) = ds
    for d in (a, b):
        if d[0] != 'repl' or d[2][0] != 'node' or d[3][0] != 'remap' or d[3][2][0] != 'sub':
            return 'a child is not one parent with one subtree of the other'
    if a[1] is b[1]:
        return 'both children are built on the same parent'
    for d, e in ((a, b), (b, a)):
        s = d[3][2]
        if s[1] is not e[1] or s[2] != e[2]:
            return 'a child does not get the subtree the other parent gives up'
    return None


# ---------------------------------------------------------------- the helpers this relies on
def rets(F):
    return [p for p in Walk(F, lambda f, fs: None).paths() if p.end == 'ret']


def lem_random_leaf(c, fn):
    F = c.ctx.flow(fn, OPQ)
    kc = params(F, lambda t: t.startswith('&mut') and 'Vec' in t)[0]
    kn = params(F, lambda t: t == 'usize')[0]
    C = mk_arg(F, kc)
    seen = set()
    for p in rets(F):
        r = rebuild(p.ret, p.env)
        k = r.a[0].split('::')[-1] if r.op == 'agg' else None
        fc = final(F, p, kc)
        if k == 'Const':
            i = lin(r.a[2])
            ok = i in ({mk('call', 'len', C): 1}, {mk('len', C): 1}) or len(i) == 1 and any(isinstance(t, T) and t.op in ('len', 'call') and lastname_len(t) and t.a[-1] is C for t in i)
            if not ok:
                return f'a new constant leaf refers to {show(r.a[2])[:60]}'
            if not (fc.op == 'upd' and fc.a[0].split('::')[-1] == 'push' and fc.a[3] is C):
                return 'a new constant leaf does not add its constant'
        elif k == 'Var':
            i = strip(r.a[2])
            if not (is_call(i, 'usize_range') and i.a[2].op == 'agg' and constant(i.a[2].a[2]) == 0 and strip(i.a[2].a[3]) is mk_arg(F, kn)):
                return f'a new variable is {show(i)[:60]}'
            if fc is not C and not (fc.op == 'upd' and fc.a[0].split('::')[-1] == 'push'):
                return 'a new variable changes the constants'
        else:
            return f'a new leaf is {show(r)[:60]}'
        seen.add(k)
    return None if seen else 'no leaf is made'


def lastname_len(t):
    return t.op == 'len' or t.op == 'call' and t.a[0].split('::')[-1] == 'len'


def lem_subtree_range(c, fn):
    F = c.ctx.flow(fn, OPQ[1:])
    F = c.ctx.flow(fn, ())
    sz, r = mk_arg(F, 1), mk_arg(F, 2)
    for p in rets(F):
        v = rebuild(p.ret, p.env)
        a = v.a[2:] if v.op == 'agg' else v.a
        if len(a) != 2 or lin(a[1]) != {r: 1} or lin(a[0]) != {r: 1, 1: 1, mk('idx', sz, r): -1}:
            return f'the range of a subtree is {show(v)[:90]}'
    return None


def lem_child_ranges(c, fn):
    F = c.ctx.flow(fn, ())
    sz, root, ar = mk_arg(F, 1), mk_arg(F, 2), mk_arg(F, 3)
    ps = rets(F)
    for p in ps:
        out = rebuild(p.ret, p.env)
        L = next((x for x in p.items if isinstance(x, Loop) and out in (x.accs or ())), None)
        if L is None:
            return 'ranges are not filled in by one loop'
        e = L.entries.get(out)
        if not (is_call(e, 'from_elem') and strip(e.a[2]) is ar):
            return 'not one range per operand'
        src = L.src
        if not (is_call(src, 'rev') and src.a[1].op == 'agg' and src.a[1].a[0].endswith('Range') and constant(src.a[1].a[2]) == 0 and strip(src.a[1].a[3]) is ar):
            return 'operands are not visited last to first'
        if not any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and f.a[0].a[1] == L.site for f in p.facts):
            return 'the loop over operands may stop early'
        for b in L.body:
            ops = {ph: dict(F.phi_ops[ph]) for ph in L.accs}
            up = {ph: rebuild(o[b.nodes[-2]], b.env) for ph, o in ops.items() if b.nodes[-2] in o}
            u = up[out]
            if not (u.op == 'with' and u.a[0] is out and len(u.a[1]) == 1 and len(u.a[1][0][0]) == 1):
                return 'not one range written per operand'
            (path, v), = u.a[1]
            k = strip(path[0][1])
            if not (k.op == 'elem' and k.a[1] == L.site):
                return 'a range is written at another position'
            a = v.a[2:] if v.op == 'agg' else v.a
            s, x = lin(a[0]), lin(a[1])
            ph = [q for q in L.accs if q in x and x[q] == 1 and q is not out]
            if len(ph) != 1:
                return 'the end of an operand does not follow from the operand after it'
            ph = ph[0]
            off = plus(x, {ph: 1}, -1)
            xt = [t for t in s if isinstance(t, T) and t.op == 'idx' and t.a[0] is sz and lin(t.a[1]) == x]
            if len(xt) != 1 or s != plus(plus(x, {1: 1}), {xt[0]: 1}, -1):
                return f'an operand starts at {show(a[0])[:80]}'
            if plus(lin(L.entries[ph]), off) != {root: 1, 1: -1}:
                return 'the last operand does not end right before its operator'
            if plus(lin(up[ph]), off) != plus(s, {1: 1}, -1):
                return 'an operand does not end right before the next one starts'
    return None if ps else 'nothing returned'


def lem_subtree_sizes(c, fn):
    F = c.ctx.flow(fn, ())
    N = mk_arg(F, 1)
    ps = rets(F)
    for p in ps:
        out = rebuild(p.ret, p.env)
        L = next((x for x in p.items if isinstance(x, Loop) and out in (x.accs or ())), None)
        if L is None or not L.body:
            if out.op == 'phi' or not is_call(out, 'from_elem'):
                return 'sizes are not computed by one pass over the nodes'
            continue
        src = L.src
        while is_call(src, 'enumerate', 'iter', 'into_iter'):
            src = src.a[1]
        if src is not N:
            return 'sizes are not computed over all nodes in order'
        st = [ph for ph in L.accs if ph is not out and empty(L.entries.get(ph, N))]
        if len(st) != 1:
            return 'no stack of operand sizes'
        st = st[0]
        kinds = set()
        for b in L.body:
            up = {ph: rebuild(dict(F.phi_ops[ph])[b.nodes[-2]], b.env) for ph in L.accs if b.nodes[-2] in dict(F.phi_ops[ph])}
            k = {'Var', 'Const', 'Op'}
            el = mk('elem', N, L.site)
            for f in b.facts:
                if f.op in ('is', 'isnt') and f.a[0] is el:
                    k = k & {f.a[1]} if f.op == 'is' else k - {f.a[1]}
            kinds |= k
            u, w = up[out], up[st]
            if not (u.op == 'with' and u.a[0] is out and len(u.a[1]) == 1 and strip(u.a[1][0][0][0][1]).op == 'pos'):
                return 'not one size stored per node, at its own position'
            v = u.a[1][0][1]
            if not (w.op == 'upd' and w.a[0].split('::')[-1] == 'push' and w.a[4] is v):
                return 'the size stored for a node is not the one its parent will add'
            if k <= {'Var', 'Const'}:
                if constant(v) != 1 or w.a[3] is not st:
                    return 'a leaf does not have size one'
            elif k == {'Op'}:
                I = next((x for x in b.items if isinstance(x, Loop) and v in (x.accs or ())), None)
                if I is None or w.a[3] not in I.accs:
                    return 'the size of an operator is not summed over its operands'
                r = I.src
                ok = r is not None and r.op == 'agg' and r.a[0].endswith('Range') and constant(r.a[2]) == 0 and strip(r.a[3]) is mk('vf', el, 'Op', 'arity')
                if not ok or constant(I.entries[v]) != 1 or I.entries[w.a[3]] is not st:
                    return 'the size of an operator is not one plus its operands'
                for q in I.body:
                    x = rebuild(dict(F.phi_ops[v])[q.nodes[-2]], q.env)
                    y = rebuild(dict(F.phi_ops[w.a[3]])[q.nodes[-2]], q.env)
                    d = plus(lin(x), {v: 1}, -1)
                    t = list(d)
                    if len(t) != 1 or d[t[0]] != 1 or not any(is_call(z, 'pop') and z.a[1] is w.a[3] for z in terms_of(t[0]) if z.op == 'call'):
                        return 'an operand is not counted with its own size'
                    if not (y.op == 'upd' and y.a[0].split('::')[-1] == 'pop' and y.a[3] is w.a[3]):
                        return 'an operand size is not taken off the stack once'
                if not any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and f.a[0].a[1] == I.site for f in b.facts):
                    return 'the loop over operands may stop early'
            else:
                return 'leaves and operators are not told apart'
        if kinds != {'Var', 'Const', 'Op'}:
            return f'no size for {sorted({"Var", "Const", "Op"} - kinds)}'
    return None if ps else 'nothing returned'


def origin(t, Ls=()):
    """a container before anything was put in"""
    while isinstance(t, T):
        if t.op == 'with':
            t = t.a[0]
        elif t.op == 'upd' and t.a[0].split('::')[-1] == 'push':
            t = t.a[3]
        else:
            # handed over by an earlier copy of the same loop
            e = [L.entries[t] for L in Ls if t in L.accs and t in L.entries]
            if not e or e[0] is t:
                break
            Ls = [L for L in Ls if t not in L.accs]
            t = e[0]
    return t if isinstance(t, T) else mk('none')


def lem_remap(c, fn, inplace):
    """constants keep their value when they get another place"""
    F = c.ctx.flow(fn, OPQ[:-1] if not inplace else ())
    ps = rets(F)
    donor = {}
    for p in ps:
        Ls = [x for x in p.items if isinstance(x, Loop) and any(q.op == 'is' for b in x.body for q in b.facts)]
        if not Ls or len({x.site for x in Ls}) != 1:
            return 'not one pass over the nodes'
        L = Ls[-1]
        if not any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and f.a[0].a[1] == L.site for f in p.facts):
            return 'the pass over the nodes may stop early'
        for L, b in [(x, b) for x in Ls for b in x.body]:
            els = [t for f in b.facts for t in terms_of(f) if t.op == 'elem' and t.a[1] == L.site]
            if not els:
                return 'nodes not looked at'
            el = els[0]
            kind = {'Var', 'Const', 'Op'}
            for f in b.facts:
                if f.op in ('is', 'isnt') and f.a[0] is el and f.a[1] in kind | {'Var', 'Const', 'Op'}:
                    kind = kind & {f.a[1]} if f.op == 'is' else kind - {f.a[1]}
            up = {ph: rebuild(dict(F.phi_ops[ph])[b.nodes[-2]], b.env) for ph in L.accs if b.nodes[-2] in dict(F.phi_ops[ph])}
            old = mk('vf', el, 'Const', 'idx')
            pushes = [(ph, v) for ph, v in up.items() if v.op == 'upd' and v.a[0].split('::')[-1] == 'push' and v.a[3] is ph]
            nodep = [(ph, v) for ph, v in pushes if v.a[4].op == 'agg' and 'PNode' in v.a[4].a[0]]
            constp = [(ph, v) for ph, v in pushes if (ph, v) not in nodep]
            wr = [rebuild(e.value, en) for it in b.items if not isinstance(it, Loop) for e, x, en in [it] if e.k == 'write' and e.root is el and e.path and e.path[-1][-1] == 'idx']
            if kind == {'Const'}:
                if inplace:
                    if wr:
                        new = strip(wr[-1])
                    else:
                        same = [strip(y) for f in b.facts if f.op == 'eq' and len(f.a) >= 2 for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0]))
                                if isinstance(x, T) and isinstance(y, T) and strip(x) is old and constant(y) is None]
                        if len(same) != 1:
                            return 'a constant keeps its old place'
                        new = same[0]
                else:
                    if len(nodep) != 1 or nodep[0][1].a[4].a[0].split('::')[-1] != 'Const':
                        return 'a constant does not stay a constant'
                    new = strip(nodep[0][1].a[4].a[2])
                if constp:
                    if len(constp) != 1:
                        return 'constants are added twice'
                    ph, v = constp[0]
                    if not (len(lin(new)) == 1 and lastname_len(new) and new.a[-1] is ph):
                        return f'a moved constant refers to {show(new)[:60]}'
                    x = v.a[4]
                    while is_call(x, 'clone'):
                        x = x.a[1]
                    if not (x.op == 'idx' and strip(x.a[1]) is old and (is_fld(x.a[0], 'consts') or x.a[0].op == 'arg')):
                        return f'a moved constant takes the value {show(x)[:60]}'
                    donor['src'] = x.a[0]
                    donor['dst'] = L.entries.get(ph)
                    # remembered for the next use of the same constant
                    mem = [(m, path, val) for m, w in up.items() if w.op == 'with' and w.a[0] is m for path, val in w.a[1] if len(path) == 1 and path[0][0] == 'i']
                    for m, path, val in mem:
                        donor['map'] = m
                        if strip(path[0][1]) is not old:
                            return 'the new place is remembered for another constant'
                        y = val
                        if y.op == 'agg' and y.a[0].endswith('Some'):
                            y = y.a[2]
                        if strip(y) is not new:
                            return 'another place is remembered than the one used'
                    for m, *_ in mem:
                        if not any(strip(t.a[1]) is old for f in b.facts for t in terms_of(f) if t.op == 'idx' and t.a[0] is m):
                            return 'a constant is moved again without looking'
                else:
                    x = new
                    if x.op == 'vf' and x.a[1] == 'Some':
                        x = x.a[0]
                    if not (x.op == 'idx' and strip(x.a[1]) is old and x.a[0].op == 'phi'):
                        return f'a constant seen before refers to {show(new)[:60]}'
                    mem = x.a[0]
                    hit = any(f.op == 'is' and f.a[1] == 'Some' and f.a[0] is x for f in b.facts) or any(f.op == 'ne' and any(isinstance(t, T) and strip(t) is x for t in f.a) for f in b.facts)
                    if not hit:
                        return 'a constant not yet placed is looked up'
                    if not is_call(origin(mem, Ls), 'from_elem'):
                        return 'places are remembered from before'
                    w = up.get(mem)
                    if w is not mem and not (w.op == 'with' and w.a[0] is mem and all(len(pp) == 1 and v.op == 'idx' and v.a[0] is mem and v.a[1] is pp[0][1] for pp, v in w.a[1])):
                        return 'remembered places change'
            else:
                if constp:
                    return 'a constant is added for another node'
                if inplace:
                    if wr:
                        return 'another node is changed'
                else:
                    if len(nodep) != 1:
                        return 'a node is dropped or repeated'
                    v = nodep[0][1].a[4]
                    k = v.a[0].split('::')[-1]
                    if kind != {k} or any(not (x.op == 'vf' and x.a[0] is el and x.a[1] == k and x.a[2] == n) for n, x in zip(v.a[1], v.a[2:])):
                        return f'a node is changed into {show(v)[:60]}'
        if inplace:
            fe = final(F, p, 1)
            try:
                C = part(fe, 'consts')
            except Bad as e:
                return str(e)
            if C.op == 'phi':
                if not empty(origin(C, Ls)):
                    return 'old constants are kept'
            elif not empty(C):
                return f'the constants become {show(C)[:60]}'
        else:
            r = rebuild(p.ret, p.env)
            if not (r.op == 'phi' and r in L.accs and empty(L.entries[r])) and not empty(r):
                return 'not the rewritten nodes are returned'
    if not ps:
        return 'nothing returned'
    return None if donor or inplace else 'constants are never moved'


def lem_sample_op(c, fn):
    F = c.ctx.flow(fn, ('usize_range',))
    me, ar = mk_arg(F, 1), mk_arg(F, 3)
    for p in rets(F):
        v = rebuild(p.ret, p.env)
        while is_call(v, 'clone'):
            v = v.a[1]
        ok = v.op == 'idx' and v.a[0].op == 'idx' and is_fld(v.a[0].a[0], 'ops_by_arity') and lin(v.a[0].a[1]) == {ar: 1, 1: -1}
        if not ok:
            return f'an operator of arity a is drawn from {show(v)[:80]}'
    return None


def lem_sample_arity(c, fn):
    F = c.ctx.flow(fn, ('usize_range', 'nops'))
    ps = rets(F)
    mx = mk_arg(F, 3)
    for p in ps:
        v = strip(rebuild(p.ret, p.env))
        src = v.a[0] if v.op == 'elem' else None
        hi = None
        if src is not None and (is_call(src, 'new') and 'RangeInclusive' in src.a[0]):
            lo, hi = src.a[1], src.a[2]
        elif src is not None and src.op == 'agg' and src.a[0].endswith('RangeInclusive'):
            lo, hi = src.a[2], src.a[3]
        if hi is None or constant(lo) is None or constant(lo) < 1:
            return f'the arity drawn is {show(v)[:60]}'
        h = strip(hi)
        if not (h is mx or is_call(h, 'min') and any(strip(x) is mx for x in h.a[1:] if isinstance(x, T))):
            return 'the arity drawn may exceed the largest allowed one'
        ok = False
        for f in p.facts:
            if f.op in ('lt', 'gt', 'ne'):
                for x in terms_of(f):
                    if is_call(x, 'nops') and strip(x.a[2]) is v:
                        ok = True
        if not ok:
            return 'an arity without operators may be drawn'
    return None if ps else 'nothing returned'


def lem_usize_range(c, fn):
    F = c.ctx.flow(fn, ())
    for p in rets(F):
        v = strip(rebuild(p.ret, p.env))
        if not (is_call(v, 'usize') and v.a[2] is mk_arg(F, 2)):
            return f'a number in a range is {show(v)[:60]}'
    return None


def lem_apply(c, fn):
    """building an operator over expressions joins their nodes and constants"""
    F = c.ctx.flow(fn, ())
    ks = params(F, lambda t: 'PostfixExpr' in t)
    A = mk_arg(F, ks[0])
    ps = rets(F)
    for p in ps:
        r = rebuild(p.ret, p.env)
        E = r
        N, C = part(E, 'nodes'), part(E, 'consts')
        Ls = [x for x in p.items if isinstance(x, Loop) and C in (x.accs or ())]
        if len(Ls) != 1:
            return 'constants are not joined by one loop over the operands'
        L = Ls[0]
        src = L.src
        while is_call(src, 'iter_mut', 'into_iter', 'iter'):
            src = src.a[1]
        if src is not A:
            return 'not all operands are joined'
        if not any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and f.a[0].a[1] == L.site for f in p.facts):
            return 'the loop over operands may stop early'
        if not (N.op == 'upd' and N.a[0].split('::')[-1] == 'push' and N.a[4].op == 'agg' and N.a[4].a[0].endswith('::Op') and N.a[3] in L.accs):
            return 'the operator does not come after its operands'
        opn, acc = N.a[4], N.a[3]
        if not (empty(L.entries[acc]) and empty(L.entries[C])):
            return 'joined nodes or constants do not start empty'
        a = strip(opn.a[2 + opn.a[1].index('arity')])
        if not (a.op == 'const' or a.op == 'arg') or strip(opn.a[2 + opn.a[1].index('op')]) is not mk_arg(F, 1):
            return 'the operator or its arity is another one'
        for b in L.body:
            un = rebuild(dict(F.phi_ops[acc])[b.nodes[-2]], b.env)
            uc = rebuild(dict(F.phi_ops[C])[b.nodes[-2]], b.env)
            if not all(u.op == 'upd' and u.a[0].split('::')[-1] in ('append', 'extend', 'extend_from_slice') and u.a[3] is x for u, x in ((un, acc), (uc, C))):
                return 'an operand is not appended whole'
            els = {t for u in (un, uc) for t in terms_of(u.a[4]) if t.op == 'elem' and t.a[1] == L.site}
            if len(els) != 1 or not any(is_fld(t, 'nodes') for t in terms_of(un.a[4])) or not is_fld(uc.a[4], 'consts'):
                return 'nodes and constants are not those of one operand'
            I = [x for x in b.items if isinstance(x, Loop)]
            done = False
            for x in I:
                for q in x.body:
                    kc = [f for f in q.facts if f.op == 'is' and f.a[1] == 'Const']
                    w = [(e, rebuild(e.value, en)) for it in q.items if not isinstance(it, Loop) for e, _, en in [it] if e.k == 'write' and e.path and e.path[-1][-1] == 'idx']
                    if kc:
                        if not w:
                            return 'a constant of a later operand keeps its old place'
                        e, v = w[-1]
                        v = strip(v)
                        if v.op == 'vf' and v.a[1] == 'Some' and is_call(v.a[0], 'checked_add'):
                            l = plus(lin(v.a[0].a[1]), lin(v.a[0].a[2]))
                        else:
                            l = lin(v)
                        want = {mk('vf', e.root, 'Const', 'idx'): 1}
                        d = plus(l, want, -1)
                        if len(d) != 1 or list(d.values()) != [1] or not lastname_len(list(d)[0]) or list(d)[0].a[-1] is not C:
                            return f'a constant of a later operand gets the place {show(v)[:80]}'
                        done = True
                    elif w:
                        return 'another node is changed'
                if not any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and f.a[0].a[1] == x.site for f in b.facts):
                    return 'the loop over the nodes of an operand may stop early'
            if not done:
                return 'constants of later operands keep their old places'
    return None if ps else 'nothing returned'


def grows(M):
    """a generated tree stays within the size asked for: each round adds at most what is left"""
    F = M.F
    found = 0
    for p in M.paths:
        for L in [x for x in p.items if isinstance(x, Loop)]:
            for b in L.body:
                for ph in L.accs or ():
                    ops = dict(F.phi_ops[ph])
                    if b.nodes[-2] not in ops:
                        continue
                    u = rebuild(ops[b.nodes[-2]], b.env)
                    if u.op == 'upd' and u.a[0].split('::')[-1] == 'splice' and u.a[3] is ph:
                        ars = {x for x in deep(F, u.a[5]) if is_call(x, 'sample_arity')}
                        for x in ars:
                            found += 1
                            m = strip(x.a[3])
                            ls = [m] + ([strip(y) for y in m.a[1:] if isinstance(y, T)] if is_call(m, 'min') else [])
                            ok = False
                            for y in ls:
                                if is_call(y, 'saturating_sub') or y.op == 'Sub':
                                    lo = y.a[-1] if y.op == 'Sub' else y.a[2]
                                    hi = y.a[0] if y.op == 'Sub' else y.a[1]
                                    ok = ok or lastname_len(lo) and lo.a[-1] is ph and size_param(F, hi)
                            if not ok:
                                return 'a round may add more nodes than are left'
    return None if found else 'no growing round found'


def size_param(F, t):
    t = strip(t)
    if is_call(t, 'max'):
        return any(size_param(F, x) for x in t.a[1:] if isinstance(x, T)) and all(size_param(F, x) or constant(x) == 1 for x in t.a[1:] if isinstance(x, T))
    return t.op == 'arg' and 'size' in str(t.a[1])


@rule('P34',
      'Piece typing of node vectors over every path of every function that builds or changes expressions outside simplification (found by a '
      'whole-program write query): at every return the vector is exactly one tree, cut out of or composed from whole subtrees of well-formed '
      'expressions, fresh leaves and operators applied to as many trees as their arity (counted symbolically, loops by their trip count or by '
      'an inductive invariant), each operator id drawn for that arity or taken from a node of that arity; every constant leaf refers into the '
      'constants of the same expression. The resulting composition is compared with what the operation means (swap, rotate, insert, delete, '
      'append, crossover); paths that report failure leave the expression untouched. The helpers that locate subtrees, draw leaves and '
      'operators, and renumber constants are checked against their specification the same way.',
      ['expressions handed in are well-formed (inductive)', 'fewer than 65536 constants and features; Vec::splice replaces the given range'])
def p34(c):
    W = c.ctx.writers(ADT, 'nodes')
    mods = {f['id'].rsplit('::', 1)[0] for f in c.p.fns.values() if f['id'].split('::')[-1] in SHAPES}
    c.need(len(mods) == 1, 'the functions that mutate expressions were not found')
    mod = mods.pop() + '::'
    byname = {}
    for f in c.p.fns.values():
        if f['id'].startswith(mod) and '{closure' not in f['id'] and f['id'].count('::') == mod.count('::'):
            byname[f['id'].split('::')[-1]] = f
    out = [w for w in W if not w.startswith(mod)]
    known = ('__apply_postfix', 'compress_constants', 'nodes_mut')
    for w in sorted(out):
        n = w.split('::')[-1]
        c.ob(f'writer:{w}', n in known or '::simplify::' in w or c.ctx.only_via(w, {x for x in out if '::simplify::' in x or x.split('::')[-1] in known} - {w}) is None, w,
             f'{w} changes the nodes of an expression outside the functions that keep it well-formed')
    todo = {w for w in W if w.startswith(mod)} | {byname[n]['id'] for n in ('random_expr', 'crossover_trees', 'add_node_in_place', 'mutate_constant_in_place') if n in byname}
    for n in list(SHAPES) + ['random_expr', 'random_expr_append_ops', 'crossover_trees', 'mutate_operator_in_place', 'mutate_feature_in_place', 'mutate_constant_in_place']:
        c.need(n in byname, f'{n} not found')
        todo.add(byname[n]['id'])
    done, depth = set(), {}
    st = sorted(todo)
    nb = 0
    while st:
        w = st.pop(0)
        if w in done:
            continue
        done.add(w)
        f = c.p.fns[w]
        n = w.split('::')[-1]
        M = Fn(c, f)
        private = n not in SHAPES and n not in ('random_expr', 'random_expr_append_ops', 'crossover_trees', 'mutate_operator_in_place', 'mutate_feature_in_place', 'mutate_constant_in_place')
        obs = one_fn(c, M, n)
        if private and any(not ok for _, ok, _ in obs) and f.get('vis') != 'Public' and depth.get(w, 0) < 3 and c.ctx.callers().get(w):
            for u in c.ctx.callers()[w]:
                if u not in done:
                    depth[u] = depth.get(w, 0) + 1
                    st.append(u)
            continue
        nb += 1
        for k, ok, msg in obs:
            c.ob(f'{n}:{k}', ok, M.where, f'{n}: {msg}')
    c.floor('functions that build or change expressions', nb, 12)
    for n in ('random_expr', 'random_expr_append_ops'):
        m = run(grows, Fn(c, byname[n]))
        c.ob(f'{n}:size', m is None, byname[n]['id'], f'{n}: {m}')
    L = [('random_leaf', lem_random_leaf, mod), ('child_ranges', lem_child_ranges, mod), ('subtree_range', lem_subtree_range, ''), ('subtree_sizes', lem_subtree_sizes, ''),
         ('remap_subtree_consts', lambda c, f: lem_remap(c, f, False), mod), ('compress_constants', lambda c, f: lem_remap(c, f, True), 'dynamic_expressions'),
         ('sample_op', lem_sample_op, ''), ('sample_arity', lem_sample_arity, ''), ('usize_range', lem_usize_range, ''), ('__apply_postfix', lem_apply, 'dynamic_expressions')]
    for n, chk, where in L:
        fs = [f for f in c.p.fns.values() if f['id'].split('::')[-1] == n and f['id'].startswith(where) and f['kind'] in ('Fn', 'AssocFn')]
        for f in fs:
            m = run(chk, c, f)
            c.ob(f'helper:{n}', m is None, f['id'], f'{n}: {m}')
        if not fs:
            c.note(f'no helper {n}')
    callers(c, byname, mod)


def run(f, *a):
    try:
        return f(*a)
    except (Bad, Unknown, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        return f'not understood ({type(e).__name__} {e})'


def one_fn(c, M, n):
    obs = []
    outs = 0
    for p in M.paths:
        r = rebuild(p.ret, p.env) if p.ret is not None else None
        r0 = strip(r) if r is not None else None
        failed = r0 is not None and r0.op == 'const' and r0.a[0] in (0, False) and M.F.f.locals[0]['ty'] == 'bool'
        ds = []
        for nm, E in M.outs(p):
            if failed:
                obs.append(('failure', E.op == 'arg', 'reports failure after changing the expression'))
                continue
            if E.op == 'arg':
                continue
            outs += 1
            if n == 'mutate_constant_in_place':
                obs.append(('one constant', const_only(M, p, E), 'changes more than one constant the expression uses'))
                continue
            try:
                d, P = M.check(p, E)
                obs.append(('one tree', True, ''))
            except (Bad, Unknown) as e:
                obs.append(('one tree', False, str(e)))
                continue
            ds.append((P, d))
            if n in SHAPES:
                m = run(SHAPES[n], P, d)
                obs.append(('meaning', m is None, m))
        if n == 'crossover_trees' and not failed:
            m = run(shape_cross, M, p, ds)
            obs.append(('meaning', m is None, m))
    if not outs and (n in SHAPES or n.startswith(('mutate_', 'random_', 'crossover'))):
        obs.append(('effect', False, 'never changes or builds an expression'))
    # merge
    res = {}
    for k, ok, msg in obs:
        if k not in res or (res[k][0] and not ok):
            res[k] = (ok, msg)
    return [(k, ok, msg) for k, (ok, msg) in res.items()]


def const_only(M, p, E):
    if E.op != 'with':
        return False
    if E.a[0].op != 'arg' or len(E.a[1]) != 1:
        return False
    (path, v), = E.a[1]
    if len(path) != 2 or path[0][2] != 'consts' or path[1][0] != 'i':
        return False
    i = strip(path[1][1])
    return i.op == 'vf' and i.a[1] == 'Const' and i.a[0].op == 'idx' and is_fld(i.a[0].a[0], 'nodes') and i.a[0].a[0].a[0] is E.a[0]


def callers(c, byname, mod):
    """the number of features is the dataset's"""
    n = 0
    names = {k: f for k, f in byname.items()}
    use = {}
    for k, f in names.items():
        for u in c.ctx.callers().get(f['id'], ()):
            if not u.startswith(mod):
                use.setdefault(u, set()).add(k)
    for u, ks in sorted(use.items()):
        F = c.ctx.flow(c.p.fns[u], tuple(names) + OPQ + ('optimize_constants', 'simplify_in_place', 'check_constraints', 'compile_plan', 'eval_tree_array_into', 'evaluate'))
        for i, e in F.events():
            k = (e.cn or '').split('::')[-1]
            if e.k != 'call' or k not in names or k not in ks:
                continue
            f = names[k]
            for j in range(1, f['argc'] + 1 if 'argc' in f else len(e.args) + 1):
                if f['locals'][j].get('n') == 'n_features' or False:
                    n += 1
                    v = strip(e.args[j - 1])
                    c.ob(f'features:{u.split("::")[-1]}:{k}', is_fld(v, 'n_features') or v.op == 'arg' and 'features' in str(v.a[1]), F.where(i),
                         f'{k} is told {show(v)[:60]} features')
    c.floor('calls that pass the number of features', n, 4)
