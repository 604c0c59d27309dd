"""P28: how mutations, tournament members and weighted entries are drawn.  P29: how offspring are accepted and how the
size statistics they are weighed with are kept."""
from sa.core import *
from sa.rulelib import *
from sa.algebra import Unknown
from sa.flow import neg
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, strip, lin, plus, empty, final, terms_of, rets, lastname_len, run
from rules.simplify import last, accs_of, calls_in, arg_where, impossible, ended, deref, pushed


def num(t):
    """a constant of any numeric type"""
    if isinstance(t, T) and t.op == 'const' and not isinstance(t.a[0], bool):
        try:
            return float(t.a[0])
        except (TypeError, ValueError):
            return None
    return None


def plain(t):
    while is_call(t, 'iter', 'copied', 'cloned', 'into_iter', 'deref', 'as_slice', 'iter_mut', 'as_ref', 'to_vec', 'clone') and len(t.a) >= 2:
        t = t.a[1]
    return t


def atoms(fs):
    """facts and the comparisons in them, positive or negated"""
    out = set()
    fs = list(fs)
    for f in fs[:]:
        if f.op == 'le' and constant(f.a[0]) == 1:
            fs.append(mk('lt', mk('const', 0, f.a[0].a[1]), f.a[1], *f.a[2:]))
    for f in fs:
        out.add(f)
        if is_call(f, 'contains') and len(f.a) >= 3:
            r, x = deref(f.a[1]), deref(f.a[2])
            if r.op == 'agg' and last(r.a[0]) in ('Range', 'RangeInclusive') or is_call(r, 'new') and 'RangeInclusive' in r.a[0]:
                lo, hi = (r.a[2], r.a[3]) if r.op == 'agg' else (r.a[1], r.a[2])
                out.add(mk('le', lo, x, 'i'))
                if constant(lo) == 1:
                    out.add(mk('lt', mk('const', 0, lo.a[1]), x, 'i'))
                out.add(mk('lt' if last(r.a[0]) == 'Range' else 'le', x, hi, 'i'))
        if f.op == 'not':
            g = f.a[0]
            if g.op == 'lt':
                out.add(mk('le', g.a[1], g.a[0], *g.a[2:]))
            if g.op == 'le':
                out.add(mk('lt', g.a[1], g.a[0], *g.a[2:]))
    return out


def less(fs, pa, pb, strict=True):
    """some fact says a < b (or a <= b) for a, b recognised by the predicates"""
    for f in atoms(fs):
        if (f.op == 'lt' or f.op == 'le' and not strict) and pa(f.a[0]) and pb(f.a[1]):
            return True
    return False


def positive(fs, w):
    z = lambda x: num(x) == 0
    if less(fs, z, lambda x: x is w):
        return True
    return any(f.op == 'ne' and w in f.a and any(isinstance(x, T) and z(x) for x in f.a) for f in fs)


def elem_of(t, W):
    return t.op == 'elem' and plain(base_src(t.a[0])) is W or t.op == 'idx' and t.a[0] is W


def base_src(s):
    while is_call(s, 'enumerate'):
        s = s.a[1]
    return plain(s)


def place_of(t, el):
    """t is the position of the element el"""
    if el.op == 'elem':
        return t.op == 'pos' and t.a[1] == el.a[1]
    if el.op == 'idx':
        return strip(t) is strip(el.a[1])
    return False


def over(L, W):
    """the loop visits every entry of W in order"""
    s = L.src
    if s is None:
        return False
    if base_src(s) is W:
        return True
    return s.op == 'agg' and last(s.a[0]) == 'Range' and num(s.a[2]) == 0 and lastname_len(s.a[3]) and s.a[3].a[-1] is W


def entry_in(L, b, W):
    """the entry of W an iteration looks at"""
    s = L.src
    if base_src(s) is W:
        return mk('elem', W, L.site)
    return mk('idx', W, mk('elem', s, L.site))


def loops_in(p):
    return [x for x in p.items if isinstance(x, Loop)]


def all_loops(items):
    for x in items:
        if isinstance(x, Loop):
            yield x
            for b in x.body:
                yield from all_loops(b.items)


def is_total(F, p, t, W):
    """t is the sum of all entries of W"""
    if is_call(t, 'sum'):
        return plain(t.a[1]) is W
    for L in loops_in(p):
        if t in (L.accs or ()) and over(L, W) and num(L.entries[t]) == 0 and ended(p.facts, L):
            bs = [b for b in L.body if not impossible(b.facts)]
            for b in bs:
                v = accs_of(F, L, b)[t]
                if not (v.op == 'Add' and t in v.a and any(elem_of(x, W) for x in v.a)):
                    return False
            return bool(bs)
    return False


def lem_weighted(c, fn):
    """an entry is drawn with its own weight; one of weight zero never"""
    F = c.ctx.flow(fn, ())
    W = mk_arg(F, arg_where(F, lambda t: 'f64' in t and '[' in t))
    ps = [p for p in rets(F) if not impossible(p.facts)]
    kinds = set()
    for p in ps:
        r = p.ret
        cand = [L for L in loops_in(p) if over(L, W)]
        draws = {t for L in cand for t in L.accs or ()} | {t for f in p.facts for t in terms_of(f) if is_call(t, 'f64')}
        if not cand:
            return f'returns {show(r)[:60]} without looking at the weights'
        L = cand[-1]
        if r.op == 'pos' or r.op == 'elem':
            el = entry_in(L, None, W)
            if not place_of(r, el):
                return f'returns {show(r)[:60]}'
            m = picks(F, p, L, p.facts, el, W)
            if m:
                return m
            kinds.add('hit')
        else:
            if r.op != 'phi' or r not in (L.accs or ()):
                return f'returns {show(r)[:60]} when no entry was hit'
            if not ended(p.facts, L):
                return 'the search may stop early'
            if not less(p.facts, lambda x: num(x) == 0, lambda x: is_total(F, p, x, W)):
                return 'the weights may all be zero'
            for b in L.body:
                if impossible(b.facts):
                    continue
                v = accs_of(F, L, b)[r]
                el = entry_in(L, b, W)
                if v is r:
                    continue
                if not place_of(v, el) or not positive(b.facts, el):
                    return 'the entry returned when rounding leaves no other may have weight zero'
            if not any(accs_of(F, L, b)[r] is not r for b in L.body):
                return 'a fixed entry is returned when rounding leaves no other'
            kinds.add('end')
    return None if kinds == {'hit', 'end'} else f'only {sorted(kinds)} returns found'


def picks(F, p, L, fs, el, W):
    """the comparison that hits: draw, minus what earlier entries weigh, below this entry's weight"""
    if not positive(fs, el):
        lt0 = [f for f in atoms(fs) if f.op == 'lt' and f.a[1] is el]
        if not lt0:
            return 'an entry of weight zero may be drawn'
        # draw >= 0 and draw < w would do, but the running draw may round below zero
        return 'an entry of weight zero may be drawn when the running draw rounds below zero'
    for f in atoms(fs):
        if f.op not in ('lt', 'le'):
            continue
        a, b = f.a[0], f.a[1]
        if b is el and a in (L.accs or ()):
            if not drawn(F, p, L.entries[a], W):
                continue
            for q in L.body:
                if impossible(q.facts):
                    continue
                v = accs_of(F, L, q)[a]
                if v is a and not positive(q.facts, el):
                    if less(q.facts, lambda x: x is el, lambda x: num(x) == 0, False):
                        continue
                if v.op == 'Sub' and v.a[0] is a and v.a[1] is el:
                    continue
                return f'an entry passed over changes the draw to {show(v)[:60]}'
            return None
        if drawn(F, p, a, W) and b.op == 'Add' and el in b.a:
            o = [x for x in b.a if x is not el]
            if len(o) == 1 and o[0] in (L.accs or ()) and num(L.entries[o[0]]) == 0:
                for q in L.body:
                    if impossible(q.facts):
                        continue
                    v = accs_of(F, L, q)[o[0]]
                    if v is o[0] and less(q.facts, lambda x: x is el, lambda x: num(x) == 0, False):
                        continue
                    if not (v.op == 'Add' and set(v.a[:2]) == {o[0], el}):
                        return f'an entry passed over changes the running total to {show(v)[:60]}'
                return None
    return 'the draw is not compared with the weight of the entry returned'


def drawn(F, p, t, W):
    """a uniform draw times the total weight"""
    if t.op != 'Mul':
        return False
    r = [x for x in t.a if is_call(x, 'f64')]
    o = [x for x in t.a if not is_call(x, 'f64')]
    return len(r) == 1 and len(o) == 1 and is_total(F, p, o[0], W)


# ---------------------------------------------------------------- choosing a mutation
def snake(s):
    out = ''
    for ch in s:
        out += ('_' if out and ch.isupper() else '') + ch.lower()
    return out


def lem_choose(c, fn):
    F = c.ctx.flow(fn, ('weighted_index',))
    Wt = mk_arg(F, arg_where(F, lambda t: 'MutationWeights' in t))
    variants = [v['n'] for v in c.p.adt('MutationChoice')['vs']]
    fields = {f['n'] for f in c.p.adt('MutationWeights')['vs'][0]['f']}
    ps = [p for p in rets(F) if not impossible(p.facts)]
    for p in ps:
        r = p.ret
        if r.op == 'fld' and r.a[0].op == 'idx':
            tab, i, part = r.a[0].a[0], r.a[0].a[1], str(r.a[2])
        elif r.op == 'idx':
            tab, i, part = r.a[0], r.a[1], None
        else:
            return f'returns {show(r)[:80]}'
        i = strip(i)
        if not is_call(i, 'weighted_index') or not (tab.op == 'agg' and tab.a[0] == 'array'):
            return 'the choice is not the entry drawn by weight'
        W = plain(i.a[2])
        got = entries(c, F, p, W, tab)
        seen = {}
        for k, row in enumerate(tab.a[2:]):
            ch = row
            if part is not None:
                if row.op != 'agg' or part not in row.a[1]:
                    return f'entry {k} is {show(row)[:60]}'
                ch = row.a[2 + row.a[1].index(part)]
            if ch.op != 'agg':
                return f'entry {k} is {show(ch)[:60]}'
            w = got(k)
            name = last(ch.a[0])
            if w is None or w.op != 'fld' or w.a[0] is not Wt:
                return f'the weight of {name} is {show(w)[:60]}'
            if w.a[2] != snake(name):
                return f'{name} is drawn with the weight of {w.a[2]}'
            if name in seen:
                return f'{name} is listed twice'
            seen[name] = w.a[2]
        miss = [v for v in variants if v not in seen and snake(v) in fields]
        if miss:
            return f'{miss[0]} is never drawn'
    return None if ps else 'nothing returned'


def entries(c, F, p, W, tab):
    """k -> the k-th weight"""
    if W.op == 'agg' and W.a[0] == 'array':
        return lambda k: W.a[2 + k]
    for L in loops_in(p):
        if W in (L.accs or ()) and ended(p.facts, L) and plain(L.src) is tab and empty(L.entries[W]):
            bs = [b for b in L.body if not impossible(b.facts)]
            if len(bs) != 1:
                break
            v = accs_of(F, L, bs[0])[W]
            if not (v.op == 'upd' and last(v.a[0]) == 'push' and v.a[3] is W):
                break
            el = mk('elem', plain(L.src), L.site)
            x = v.a[4]
            return lambda k: rebuild(x, {el: tab.a[2 + k]})
    if is_call(W, 'map') and plain(W.a[1]) is tab:
        f = F.p.fns.get(deref(W.a[2]).a[0][len('closure:'):])
        if f is not None:
            ps = rets(c.ctx.flow(f, ()))
            if len(ps) == 1:
                return lambda k: rebuild(ps[0].ret, {mk_arg(c.ctx.flow(f, ()), 2): tab.a[2 + k]})
    raise Bad(f'weights are {show(W)[:60]}')


# what each mutation needs; LEAF is a tree without operators
LEAF0 = ('mutate_operator', 'swap_operands', 'delete_node', 'simplify')


def node_list(t):
    return any(is_fld(x, 'nodes') for x in terms_of(t))


class Cond:
    """what a path knows about the member and the options (True, False or None)"""

    def __init__(self, F, p, mem, opt, cur, nf):
        fs = [rebuild(f, p.env) for f in p.facts]
        self.leaf = self.binary = self.consts = None
        Ls = loops_in(p)
        # a filtered loop is walked piecewise: its parts say nothing about all nodes
        many = {}
        for L in all_loops(p.items):
            many.setdefault(L.site, set()).add(id(L))
        for L in Ls:
            if len(many[L.site]) > 1:
                continue
            if L.src is None or not node_list(L.src) or any(isinstance(x, Loop) for b in L.body for x in b.items):
                continue
            bs = [b for b in L.body if not impossible(b.facts)]
            el = mk('elem', plain(L.src), L.site)
            # an early stop at a node with operators / a two-operand node
            hit = [f for f in fs if el in terms_of(f)]
            if any(f.op == 'is' and f.a[0].op == 'next' and f.a[0].a[1] == L.site and f.a[1] == 'Some' for f in fs):
                if any(f.op == 'is' and f.a[0] is el and f.a[1] == 'Op' for f in hit):
                    self.set('leaf', False)
                    if any(f.op == 'eq' and any(isinstance(x, T) and x.op == 'vf' and x.a[0] is el and x.a[2] == 'arity' for x in f.a)
                           and any(isinstance(x, T) and constant(x) == 2 for x in f.a) for f in hit):
                        self.set('binary', True)
                if any(f.op == 'is' and f.a[0] is el and f.a[1] == 'Const' for f in hit):
                    self.set('consts', True)
            elif ended(fs, L) and bs:
                if all(self.not_op(b, el) for b in bs):
                    self.set('leaf', True)
                if all(self.not_op(b, el) or any(f.op == 'ne' and any(isinstance(x, T) and x.op == 'vf' and x.a[0] is el and x.a[2] == 'arity' for x in f.a)
                                                 and any(isinstance(x, T) and constant(x) == 2 for x in f.a) for f in b.facts) for b in bs):
                    self.set('binary', False)
                if all(any(f.op == 'isnt' and f.a[0] is el and f.a[1] == 'Const' or f.op == 'is' and f.a[0] is el and f.a[1] != 'Const' for f in b.facts) for b in bs):
                    self.set('consts', False)
        for f in atoms(fs):
            pos = f.op != 'not'
            g = f if pos else f.a[0]
            if g.op in ('is', 'isnt') and g.a[1] == 'Op' and is_lastnode(g.a[0]):
                self.set('leaf', (g.op == 'isnt') == pos)
            if g.op == 'is' and g.a[1] in ('Const', 'Var') and is_lastnode(g.a[0]) and pos:
                self.set('leaf', True)
            if g.op in ('eq', 'ne') and any(isinstance(x, T) and lastname_len(x) and is_fld(x.a[-1], 'consts') for x in g.a) and any(isinstance(x, T) and constant(x) == 0 for x in g.a):
                self.set('consts', (g.op == 'ne') == pos)
            if g.op in ('eq', 'ne') and any(isinstance(x, T) and lastname_len(x) and is_fld(x.a[-1], 'nodes') for x in g.a) and any(isinstance(x, T) and constant(x) == 1 for x in g.a):
                self.set('leaf', (g.op == 'eq') == pos)
        self.fs = fs
        isc = lambda x: is_fld(x, 'complexity') and x.a[0] is mem
        self.full = self.cmp(lambda x: x is cur, isc)
        one = lambda x: x is nf
        self.few = None
        if less(fs, one, lambda x: constant(x) == 1, False) or less(fs, one, lambda x: constant(x) == 2):
            self.few = True
        elif less(fs, lambda x: constant(x) == 1, one) or less(fs, lambda x: constant(x) == 2, one, False):
            self.few = False
        self.simp = self.flag(opt, 'should_simplify')
        self.optm = self.flag(opt, 'should_optimize_constants')
        self.prob0 = None
        for f in atoms(fs):
            pos = f.op != 'not'
            g = f if pos else f.a[0]
            if g.op in ('eq', 'ne') and any(is_fld(x, 'optimizer_probability') for x in g.a if isinstance(x, T)) and any(num(x) == 0 for x in g.a if isinstance(x, T)):
                self.prob0 = (g.op == 'eq') == pos
            if g.op == 'le' and pos and is_fld(g.a[0], 'optimizer_probability') and num(g.a[1]) == 0:
                self.prob0 = True
            if g.op == 'lt' and pos and is_fld(g.a[1], 'optimizer_probability') and num(g.a[0]) == 0:
                self.prob0 = False

    def not_op(self, b, el):
        return any(f.op == 'isnt' and f.a[0] is el and f.a[1] == 'Op' or f.op == 'is' and f.a[0] is el and f.a[1] in ('Var', 'Const') for f in b.facts)

    def set(self, k, v):
        o = getattr(self, k)
        if o is not None and o != v:
            self.contra = True
        setattr(self, k, v)

    contra = False

    def cmp(self, pa, pb):
        """a <= b"""
        if less(self.fs, pa, pb, False):
            return True
        if less(self.fs, pb, pa):
            return False
        return None

    def flag(self, opt, name):
        for f in self.fs:
            if is_fld(f, name):
                return True
            if f.op == 'not' and is_fld(f.a[0], name):
                return False
        return None

    def reasons(self):
        """field -> list of conditions that make the mutation impossible or switched off"""
        no = lambda x: None if x is None else not x
        R = {'mutate_constant': [no(self.consts)], 'swap_operands': [no(self.binary)], 'optimize': [no(self.consts)],
             'add_node': [], 'insert_node': [], 'mutate_feature': [], 'simplify': []}
        for k in LEAF0:
            R.setdefault(k, []).append(self.leaf)
        if self.leaf is not True:
            R['optimize'] += [no(self.optm), self.prob0]
            R['add_node'] += [self.full]
            R['insert_node'] += [self.full]
            R['mutate_feature'] += [self.few]
            R['simplify'] += [no(self.simp)]
        else:
            R['mutate_feature'] += [self.consts]
        return R


def is_lastnode(t):
    return t.op == 'vf' and t.a[1] == 'Some' and is_call(t.a[0], 'last') and node_list(t) or t.op == 'idx' and is_fld(t.a[0], 'nodes')


def lem_condition(c, fn):
    F = c.ctx.flow(fn, ())
    kw = arg_where(F, lambda t: 'MutationWeights' in t)
    mem = mk_arg(F, arg_where(F, lambda t: 'PopMember' in t))
    opt = mk_arg(F, arg_where(F, lambda t: 'Options' in t))
    ks = [k for k in range(1, F.f.argc + 1) if F.f.locals[k]['ty'] == 'usize']
    if len(ks) != 2:
        raise Bad('unexpected parameters')
    cur, nf = mk_arg(F, ks[0]), mk_arg(F, ks[1])
    W0 = mk_arg(F, kw)
    seen, n = set(), 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        K = Cond(F, p, mem, opt, cur, nf)
        if K.contra:
            continue
        n += 1
        if K.leaf is None and K.binary is not True:
            return 'a path does not tell trees with operators from single leaves'
        W = final(F, p, kw)
        vals = {}
        t = W
        while t.op == 'with':
            for path, v in t.a[1]:
                if len(path) != 1:
                    raise Bad('weights changed in part')
                vals.setdefault(path[0][2], v)
            t = t.a[0]
        if t is not W0:
            return f'weights become {show(t)[:60]}'
        R = K.reasons()
        for fld_, v in vals.items():
            old = mk('fld', W0, next(iter_adt(c)), fld_)
            if v.op == 'fld' and v.a[0] is W0 and v.a[2] == fld_:
                continue
            if num(v) == 0:
                if fld_ not in R or True not in R[fld_]:
                    return f'the weight of {fld_} becomes zero though the mutation applies'
                seen.add(fld_)
                continue
            if fld_ == 'mutate_constant' and scaled(v, W0, fld_, K, seen):
                continue
            return f'the weight of {fld_} becomes {show(v)[:80]}'
        for fld_, rs in R.items():
            if True in rs or not rs:
                need = True in rs
            else:
                need = False
                # a reason this path never looked at: it must not be decisive
                if None in rs and K.leaf is not None:
                    if fld_ == 'mutate_constant' and fld_ in vals:
                        continue
                    if fld_ == 'swap_operands' and (K.leaf or K.binary):
                        continue
                    if fld_ not in vals or num(vals[fld_]) != 0:
                        if not (fld_ in ('mutate_feature',) and K.leaf):
                            return f'{fld_} is left on without looking at what switches it off'
            if need and num(vals.get(fld_, W0)) != 0:
                if fld_ == 'mutate_constant' and fld_ in vals:
                    continue
                return f'{fld_} keeps its weight though it cannot apply or is switched off'
    want = {'mutate_operator', 'swap_operands', 'delete_node', 'simplify', 'optimize', 'mutate_constant', 'mutate_feature', 'add_node', 'insert_node'}
    return None if n and seen >= want else f'never switched off: {sorted(want - seen)}'


def iter_adt(c):
    yield c.p.adt('MutationWeights')['n']


def scaled(v, W0, f, K, seen):
    """weight * min(number of constants, 8) / 8"""
    fs, ds = factors(v)
    ok = sum(1 for x in fs if x.op == 'fld' and x.a[0] is W0 and x.a[2] == f) == 1
    rest = [strip(x) for x in fs if not (x.op == 'fld' and x.a[0] is W0 and x.a[2] == f)]
    if not ok or len(rest) != 1 or len(ds) != 1:
        return False
    r, d = rest[0], num(ds[0])
    if not is_call(r, 'min') or d is None:
        return False
    cap = [num(x) for x in r.a[1:3] if num(x) is not None]
    cnt = [x for x in r.a[1:3] if num(x) is None]
    if cap != [d] or len(cnt) != 1:
        return False
    n = cnt[0]
    if not (is_call(n, 'count', 'sum') and node_list(n) or lastname_len(n) and is_fld(n.a[-1], 'consts') or n.op == 'phi'):
        return False
    seen.add(f)
    return True


def factors(t):
    """(numerators, denominators) of a product"""
    if t.op == 'Mul':
        a, b = factors(t.a[0]), factors(t.a[1])
        return a[0] + b[0], a[1] + b[1]
    if t.op == 'Div':
        a, b = factors(t.a[0]), factors(t.a[1])
        return a[0] + b[1], a[1] + b[0]
    if num(t) == 1:
        return [], []
    return [t], []


ARMS = {'MutateConstant': 'mutate_constant_in_place', 'MutateOperator': 'mutate_operator_in_place', 'MutateFeature': 'mutate_feature_in_place',
        'SwapOperands': 'swap_operands_in_place', 'RotateTree': 'rotate_tree_in_place', 'AddNode': 'add_node_in_place',
        'InsertNode': 'insert_random_op_in_place', 'DeleteNode': 'delete_random_op_in_place', 'Simplify': 'simplify_in_place',
        'Randomize': 'random_expr', 'DoNothing': None, 'Optimize': 'optimize_constants'}


def lem_arms(c, fn):
    F = c.ctx.flow(fn, tuple(x for x in ARMS.values() if x) + ('from_expr', 'usize_range_inclusive'))
    seen = set()
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        v = [f.a[1] for f in fs if f.op == 'is' and f.a[0] is mk_arg(F, 1)]
        if len(v) != 1:
            return 'a path serves several mutations'
        v = v[0]
        calls = [(e, en) for e, _, en in calls_in(p.items)]
        ran = [last(e.cn) for e, en in calls if last(e.cn) in set(ARMS.values())]
        want = ARMS.get(v)
        if v not in ARMS:
            c.note(f'mutation {v} is not known to the rule')
            continue
        if ran != ([want] if want else []):
            return f'{v} runs {ran or "nothing"}'
        seen.add(v)
        r = rebuild(p.ret, p.env)
        mut = part_of(r, 'mutated')
        if v not in ('Simplify', 'Randomize', 'DoNothing', 'Optimize') and not (mut is not None and is_call(mut, want)):
            return f'{v} reports {show(mut)[:60]} as whether it changed the tree'
        if v == 'Randomize':
            ctx = mk_arg(F, 2)
            e, en = [x for x in calls if last(x[0].cn) == 'random_expr'][0]
            a = [rebuild(x, en) for x in e.args]
            s = a[-1]
            if not is_call(s, 'usize_range_inclusive'):
                return f'the size of a new tree is {show(s)[:60]}'
            rg = s.a[2]
            names = {x.a[2] for x in terms_of(rg) if x.op == 'fld'}
            caps = {num(x) for x in terms_of(rg) if num(x) is not None}
            if 'curmaxsize' not in names:
                return 'a new tree is not bounded by the size limit in force'
            if any(x.op in ('Add', 'Mul', 'Sub', 'Div') for x in terms_of(rg)) or caps - {1.0, 0.0}:
                return f'the size of a new tree is drawn from {show(rg)[:80]}'
    return None if seen == set(ARMS) else f'not found: {sorted(set(ARMS) - seen)}'


def part_of(r, f):
    if r.op == 'agg' and f in r.a[1]:
        return r.a[2 + r.a[1].index(f)]
    return None


# ---------------------------------------------------------------- tournaments
def lem_indices(c, fn):
    F = c.ctx.flow(fn, ())
    ks = [k for k in range(1, F.f.argc + 1) if F.f.locals[k]['ty'] == 'usize']
    if len(ks) != 2:
        raise Bad('unexpected parameters')
    ln, n = mk_arg(F, ks[0]), mk_arg(F, ks[1])

    def whole(t):
        while is_call(t, 'collect', 'from_iter', 'into_iter'):
            t = t.a[1]
        return t.op == 'agg' and last(t.a[0]) == 'Range' and num(t.a[2]) == 0 and t.a[3] is ln

    def take(t, fs=()):
        return is_call(t, 'min') and {t.a[1], t.a[2]} == {ln, n} or t is n and less(fs, lambda x: x is n, lambda x: x is ln, False)
    got = 0
    for p in rets(F):
        fs = p.facts
        if impossible(fs):
            continue
        r = p.ret
        z = lambda x: x is ln or x is n or take(x)
        got += 1
        if empty(r):
            if not any(f.op == 'eq' and any(isinstance(x, T) and z(x) for x in f.a) and any(isinstance(x, T) and constant(x) == 0 for x in f.a) for f in fs) \
                    and not less(fs, z, lambda x: constant(x) == 1):
                return 'nothing is drawn though something was asked for'
            continue
        if whole(r):
            if not any(f.op == 'eq' and ln in f.a and any(isinstance(x, T) and (take(x) or x is n) for x in f.a) for f in fs) and not less(fs, lambda x: x is ln, lambda x: x is n or take(x), False):
                return 'all members are drawn though fewer were asked for'
            continue
        m = rejection(F, p, r, ln, take) or None
        if m is None:
            continue
        m2 = shuffle(F, p, r, ln, take, whole)
        if m2 is None:
            continue
        return f'{m}; {m2}'
    return None if got else 'nothing returned'


def rejection(F, p, r, ln, take):
    Ls = [L for L in loops_in(p) if r in (L.accs or ())]
    if len(Ls) != 1:
        return 'not drawn by one loop'
    L = Ls[0]
    if not empty(L.entries[r]):
        return 'the draw does not start empty'
    if not less(p.facts, lambda x: take(x, p.facts), lambda x: lastname_len(x) and x.a[-1] is r, False) and \
            not any(f.op == 'eq' and any(isinstance(x, T) and lastname_len(x) and x.a[-1] is r for x in f.a) and any(isinstance(x, T) and take(x, p.facts) for x in f.a) for f in p.facts):
        return 'the loop may end with too few members'
    for b in L.body:
        if impossible(b.facts):
            continue
        v = accs_of(F, L, b)[r]
        if v is r:
            continue
        if not (v.op == 'upd' and last(v.a[0]) == 'push' and v.a[3] is r):
            return f'the draw becomes {show(v)[:60]}'
        x = v.a[4]
        if not (is_call(x, 'usize') and x.a[2].op == 'agg' and last(x.a[2].a[0]) == 'Range' and num(x.a[2].a[2]) is not None and x.a[2].a[3] is ln):
            return f'draws {show(x)[:60]}'
        if not any(f.op == 'not' and is_call(f.a[0], 'contains') and plain(f.a[0].a[1]) is r and deref(f.a[0].a[2]) is x for f in b.facts):
            return 'a member may be drawn twice'
    return None


def shuffle(F, p, r, ln, take, whole):
    if not (r.op == 'upd' and last(r.a[0]) == 'truncate' and take(r.a[4], p.facts)):
        return 'the draw is not cut to the number asked for'
    v = r.a[3]
    Ls = [L for L in loops_in(p) if v in (L.accs or ())]
    if not Ls and whole(v):
        return 'the members are not shuffled'
    if len(Ls) != 1 or not whole(Ls[0].entries[v]):
        return 'the shuffle does not start from all members'
    L = Ls[0]
    for b in L.body:
        if impossible(b.facts):
            continue
        u = accs_of(F, L, b)[v]
        if not (u.op == 'upd' and last(u.a[0]) == 'swap' and u.a[3] is v):
            return f'a step of the shuffle is {show(u)[:60]}'
    return None


def lem_place(c, fn):
    F = c.ctx.flow(fn, ('weighted_index',))
    n = mk_arg(F, arg_where(F, lambda t: t == 'usize'))
    P = mk_arg(F, arg_where(F, lambda t: t in ('f32', 'f64')))
    isp = lambda x: strip(x) is P
    isq = lambda x: x.op == 'Sub' and num(x.a[0]) == 1 and isp(x.a[1]) or x.op == 'Sub' and strip(x) is not x and isq(strip(x))
    got = False
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = p.ret
        if constant(r) == 1:
            fs = p.facts
            if not (less(fs, lambda x: x is n, lambda x: constant(x) == 1, False) or less(fs, lambda x: x is n, lambda x: constant(x) == 2)
                    or less(fs, lambda x: num(x) == 1, isp, False) or less(fs, isq, lambda x: num(x) == 0, False)
                    or any(f.op == 'eq' and n in f.a for f in fs)):
                return 'the best is taken though others have a chance'
            continue
        l = lin(r)
        a = [x for x in l if x != 1]
        if l.get(1) != 1 or len(a) != 1 or not is_call(a[0], 'weighted_index') or l[a[0]] != 1:
            return f'the place is {show(r)[:60]}'
        W = plain(a[0].a[2])
        Ls = [L for L in loops_in(p) if W in (L.accs or ())]
        if len(Ls) != 1 or not ended(p.facts, Ls[0]):
            return 'the chances of the places are not built by one loop'
        L = Ls[0]
        s = L.src
        if not (s.op == 'agg' and last(s.a[0]) == 'Range' and num(s.a[2]) == 0 and s.a[3] is n) or not empty(L.entries[W]):
            return f'the number of places is {show(s)[:60]}'
        for b in L.body:
            if impossible(b.facts):
                continue
            v = accs_of(F, L, b)[W]
            if not (v.op == 'upd' and last(v.a[0]) == 'push' and v.a[3] is W):
                return f'the chances become {show(v)[:60]}'
            x = v.a[4]
            fs_, ds = factors(x)
            i = mk('elem', s, L.site)
            if x in L.accs:
                u = factors(accs_of(F, L, b)[x])
                if not isp(L.entries[x]):
                    return f'the first place has the chance {show(L.entries[x])[:60]}'
                if u[1] or len(u[0]) != 2 or x not in u[0] or not any(isq(y) for y in u[0]):
                    return f'from one place to the next the chance becomes {show(accs_of(F, L, b)[x])[:80]}'
            elif len(fs_) == 2 and not ds and any(isp(y) for y in fs_) and any(is_call(y, 'powi', 'powf') and isq(y.a[1]) and strip(y.a[2]) is i for y in fs_):
                pass
            else:
                return f'the chance of a place is {show(x)[:60]}'
        got = True
    return None if got else 'places are never drawn'


def lem_best(c, fn):
    F = c.ctx.flow(fn, ('sample_indices', 'sample_tournament_place'))
    pop = mk_arg(F, arg_where(F, lambda t: 'Population' in t))
    st = mk_arg(F, arg_where(F, lambda t: 'RunningSearchStatistics' in t))
    opt = mk_arg(F, arg_where(F, lambda t: 'Options' in t))
    mem = lambda t: is_fld(t, 'members') and t.a[0] is pop
    got = set()
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = plain(deref(p.ret))
        if not (r.op == 'idx' and mem(r.a[0])):
            return f'returns {show(r)[:60]}'
        ch = r.a[1]
        if not (ch.op == 'fld' and ch.a[0].op == 'idx'):
            return f'the winner is number {show(ch)[:60]}'
        S, k = ch.a[0].a[0], ch.a[0].a[1]
        ip = str(ch.a[2])
        if not (S.op == 'upd' and last(S.a[0]) in ('sort_by', 'sort_unstable_by')):
            return 'the contestants are not sorted'
        A = S.a[3]
        Ls = [L for L in loops_in(p) if A in (L.accs or ())]
        if len(Ls) != 1 or not ended(p.facts, Ls[0]) or not empty(Ls[0].entries[A]):
            return 'the contestants are not collected by one loop'
        L = Ls[0]
        ix = plain(L.src)
        if not is_call(ix, 'sample_indices'):
            return 'the contestants are not a sample'
        ml = lambda x: lastname_len(x) and mem(x.a[-1])
        cnt = ix.a[3]
        if not ml(ix.a[2]) or not (is_call(cnt, 'min') and any(ml(x) for x in cnt.a[1:3]) and any(is_fld(x, 'tournament_selection_n') and x.a[0] is opt for x in cnt.a[1:3])
                                   or is_fld(cnt, 'tournament_selection_n')):
            return f'the sample is {show(ix)[:80]}'
        sk = None
        for b in L.body:
            fs = b.facts
            if impossible(fs):
                continue
            v = accs_of(F, L, b)[A]
            if not (v.op == 'upd' and last(v.a[0]) == 'push' and v.a[3] is A and v.a[4].op == 'agg'):
                return f'a contestant is entered as {show(v)[:60]}'
            row = v.a[4]
            el = mk('elem', ix, L.site)
            if ip not in row.a[1] or strip(row.a[2 + row.a[1].index(ip)]) is not el:
                return 'a contestant is entered under the number of another'
            others = [x for x in row.a[1] if x != ip]
            if len(others) != 1:
                raise Bad('unexpected contestants')
            sk = others[0]
            sc = row.a[2 + row.a[1].index(sk)]
            m = score(sc, fs, mk('idx', None, None) if False else el, pop, st, opt, got)
            if m:
                return m
        # order
        m = order(c, S.a[4], sk)
        if m:
            return m
        # place
        l = k
        if is_call(l, 'min'):
            o = [x for x in l.a[1:3] if not lens(x, A, -1)]
            if len(o) != 1:
                return f'the place taken is {show(k)[:60]}'
            l = o[0]
        f = lin(l)
        a = [x for x in f if x != 1]
        if is_call(l, 'saturating_sub') and constant(l.a[2]) == 1:
            a, f = [l.a[1]], {l.a[1]: 1, 1: -1}
        if f.get(1) != -1 or len(a) != 1 or not is_call(a[0], 'sample_tournament_place'):
            return f'the place taken is {show(k)[:60]}'
        pl = a[0]
        if not (lastname_len(pl.a[2]) and pl.a[2].a[-1] is A or pl.a[2] is cnt) or not (is_fld(pl.a[3], 'tournament_selection_p') and pl.a[3].a[0] is opt):
            return f'the place is drawn among {show(pl.a[2])[:60]} with {show(pl.a[3])[:60]}'
    return None if got == {'freq', 'off', 'out'} or got == {'freq', 'off'} else f'contestants are only scored {sorted(got)}'


def lens(x, A, d):
    f = lin(x)
    a = [y for y in f if y != 1]
    return f.get(1, 0) == d and len(a) == 1 and lastname_len(a[0]) and (a[0].a[-1] is A or a[0].a[-1].op == 'upd' and a[0].a[-1].a[3] is A)


def score(t, fs, el, pop, st, opt, got):
    """cost * exp(scaling * frequency of its own size)"""
    own = lambda x, f: is_fld(x, f) and x.a[0].op == 'idx' and is_fld(x.a[0].a[0], 'members') and x.a[0].a[0].a[0] is pop and strip(x.a[0].a[1]) is el
    num_, den = factors(t)
    if den:
        return f'a contestant is scored {show(t)[:80]}'

    def iscost(x):
        if num(x) == float('inf'):
            return any(f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'to_f64') and own(f.a[0].a[1], 'cost') for f in fs)
        return x.op == 'vf' and x.a[1] == 'Some' and is_call(x.a[0], 'to_f64') and own(x.a[0].a[1], 'cost') or is_call(x, 'unwrap_or') and is_call(x.a[1], 'to_f64') and own(x.a[1].a[1], 'cost')
    rest = [x for x in num_ if not iscost(x)]
    if len(num_) - len(rest) != 1:
        return f'a contestant is scored {show(t)[:80]}, not by its own cost'
    on = next((v for f, v in [(f, True) for f in fs if is_fld(f, 'use_frequency_in_tournament')] + [(f, False) for f in fs if f.op == 'not' and is_fld(f.a[0], 'use_frequency_in_tournament')]), None)
    if on is False:
        got.add('off')
        return 'the size of a contestant counts though that is switched off' if rest else None
    if on is None:
        return 'a contestant is scored without looking at the option'
    iss = lambda x: own(x, 'complexity')
    inr = (less(fs, lambda x: constant(x) == 0, iss) or any(f.op == 'ne' and any(isinstance(x, T) and iss(x) for x in f.a) and any(isinstance(x, T) and constant(x) == 0 for x in f.a) for f in fs)) and \
        (less(fs, iss, lambda x: is_fld(x, 'maxsize') and x.a[0] is opt, False) or less(fs, iss, lambda x: lastname_len(x) and is_fld(x.a[-1], 'normalized_frequencies'), False))
    gets = [f for f in fs if f.op == 'is' and is_call(f.a[0], 'get') and is_fld(plain(f.a[0].a[1]), 'normalized_frequencies')]
    if any(f.a[1] == 'Some' for f in gets):
        inr = True
    out = less(fs, iss, lambda x: constant(x) == 0, False) or less(fs, lambda x: is_fld(x, 'maxsize'), iss) or any(f.a[1] == 'None' for f in gets) or \
        less(fs, lambda x: lastname_len(x) and is_fld(x.a[-1], 'normalized_frequencies'), iss) or any(f.op == 'eq' and any(isinstance(x, T) and iss(x) for x in f.a) and any(isinstance(x, T) and constant(x) == 0 for x in f.a) for f in fs)
    for f in fs:
        if f.op == 'not' and is_call(f.a[0], 'contains') and iss(deref(f.a[0].a[2])):
            r = deref(f.a[0].a[1])
            if is_call(r, 'new') and constant(r.a[1]) == 1 and is_fld(r.a[2], 'maxsize') or is_call(r, 'new') and constant(r.a[1]) == 1 and lastname_len(r.a[2]):
                out = True
    if len(rest) > 1 or rest and not is_call(rest[0], 'exp'):
        return f'a contestant is scored {show(t)[:80]}'
    ex = factors(rest[0].a[1]) if rest else ([], [])
    if ex[1] or rest and len(ex[0]) != 2:
        return f'a contestant is scored {show(t)[:80]}'
    fr = [x for x in ex[0] if not is_fld(x, 'adaptive_parsimony_scaling')]
    if rest and len(fr) != 1:
        return f'the frequency is not scaled as configured: {show(rest[0])[:80]}'
    if out and not inr:
        got.add('out')
        return None if not rest or num(fr[0]) == 0 else 'a size outside the table has a frequency'
    if not inr:
        return 'the frequency of a contestant is read without testing its size'
    if not rest:
        return 'the frequency of a contestant does not count'
    q = fr[0]
    if q.op == 'vf' and q.a[1] == 'Some' and is_call(q.a[0], 'get'):
        b, i = plain(q.a[0].a[1]), q.a[0].a[2]
    elif q.op == 'idx':
        b, i = q.a[0], q.a[1]
    else:
        return f'the frequency is {show(q)[:60]}'
    l = lin(i)
    a = [x for x in l if x != 1]
    if not (is_fld(b, 'normalized_frequencies') and b.a[0] is st):
        return f'the frequency is read from {show(b)[:60]}'
    if l.get(1) != -1 or len(a) != 1 or l[a[0]] != 1 or not iss(a[0]):
        return f'the frequency of another size is read: {show(i)[:60]}'
    got.add('freq')
    return None


def order(c, clo, sk):
    """the comparison sorts by score, lowest first"""
    while isinstance(clo, T) and clo.op in ('ref', 'refm'):
        clo = clo.a[0]
    if not (clo.op == 'agg' and clo.a[0].startswith('closure:')):
        if 'total_cmp' in show(clo) or 'partial_cmp' in show(clo):
            return None
        return f'sorted by {show(clo)[:60]}'
    f = c.p.fns.get(clo.a[0][len('closure:'):])
    if f is None:
        return 'the comparison is not found'
    G = c.ctx.flow(f, ())
    a, b = mk_arg(G, 2), mk_arg(G, 3)
    for p in rets(G):
        cmps = {t for x in [p.ret] + list(p.facts) for t in terms_of(x) if is_call(t, 'partial_cmp', 'total_cmp', 'cmp')}
        if len(cmps) != 1:
            return 'the contestants are not sorted by one comparison'
        t = cmps.pop()
        x, y = deref(t.a[1]), deref(t.a[2])
        rev = is_call(p.ret, 'reverse') or any(is_call(z, 'reverse') for z in terms_of(p.ret))
        if rev:
            x, y = y, x
        root = lambda z: z.a[0] if z.op == 'fld' else None
        if not (x.op == 'fld' and y.op == 'fld' and str(x.a[2]) == str(y.a[2]) == sk):
            return f'the contestants are compared by {show(t)[:80]}'
        if not (root(x) is a and root(y) is b):
            return 'the contestants are sorted worst first'
        if p.ret.op == 'agg' and not any(f.op == 'is' and f.a[0] is t and f.a[1] == 'None' for f in p.facts):
            return f'the comparison returns {show(p.ret)[:60]}'
    return None


def lem_next(c, fn):
    """the mutation is drawn with the conditioned copy of the configured weights"""
    F = c.ctx.flow(fn, OFFN)
    mem = mk_arg(F, arg_where(F, lambda t: 'PopMember' in t))
    n = 0
    for i, e in F.events():
        if e.k != 'call' or last(e.cn) != 'sample_mutation':
            continue
        n += 1
        w = deref(e.args[-1])
        if not (w.op == 'upd' and last(w.a[0]) == 'condition_mutation_weights'):
            return f'drawn with the weights {show(w)[:60]}'
        a = w.a[3:]
        if not is_fld(plain(a[0]), 'mutation_weights'):
            return f'drawn with the weights {show(a[0])[:60]}'
        if not (a[1] is mem and is_fld(a[2], 'options') and is_fld(a[3], 'curmaxsize') and is_fld(a[4], 'n_features')):
            return f'the weights are conditioned on {[show(x)[:40] for x in a[1:]]}'
    return None if n == 1 else f'{n} draws'


OFFN = ('check_constraints', 'PopMember::evaluate', 'compile_plan', 'MutationChoice::apply', 'condition_mutation_weights',
        'sample_mutation', 'compress_constants', 'compute_complexity', 'loss_to_cost', 'RunningSearchStatistics::freq')


def one(c, suffix):
    f = [c.p.fn(suffix)] if suffix == 'MutationChoice::apply' else [x for x in c.p.fns.values() if x['id'].endswith(suffix)]
    c.need(len(f) == 1, f'{suffix} not found')
    return f[0]


@rule('P28', 'draws read path by path over MIR: loop invariants of the weighted draw, weight tables entry by entry, zeroed weights against the tests on the same path', [
    'the random generator is uniform on the ranges it is asked for'])
def p28(c):
    for suf, lem in (('selection::weighted_index', lem_weighted), ('selection::sample_indices', lem_indices),
                     ('selection::sample_tournament_place', lem_place), ('selection::best_of_sample', lem_best),
                     ('mutate::sample_mutation', lem_choose), ('mutate::condition_mutation_weights', lem_condition),
                     ('MutationChoice::apply', lem_arms), ('mutate::next_generation', lem_next)):
        f = one(c, suf)
        m = run(lem, c, f)
        c.ob(suf.split('::')[-1], m is None, f['id'], m)


# ---------------------------------------------------------------- P29
def to_float(t, fs, what):
    """t is `what` as a float, or infinity when it has none"""
    if num(t) == float('inf'):
        return any(f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'to_f64') and what(f.a[0].a[1]) for f in fs)
    return t.op == 'vf' and t.a[1] == 'Some' and is_call(t.a[0], 'to_f64') and what(t.a[0].a[1]) or is_call(t, 'unwrap_or') and is_call(t.a[1], 'to_f64') and what(t.a[1].a[1])


def flag_of(fs, name):
    for f in fs:
        if is_fld(f, name):
            return True
        if f.op == 'not' and is_fld(f.a[0], name):
            return False
    return None


def lem_accept(c, fn):
    """accepted exactly when a uniform draw is at most exp(-(cost change)/(temperature*alpha)) * old/new size frequency"""
    F = c.ctx.flow(fn, OFFN)
    mem = mk_arg(F, arg_where(F, lambda t: 'PopMember' in t))
    W = Walk(F, lambda f, fs: None)
    got = set()
    for p in W.paths():
        if p.end != 'ret' or impossible(p.facts):
            continue
        fs = p.facts
        r = p.ret
        acc = constant_bool(r)
        if acc is None:
            return f'the verdict is {show(r)[:60]}'
        lot = []
        for f in fs:
            g = f.a[0] if f.op == 'not' else f
            if g.op in ('lt', 'le') and any(is_call(x, 'f64') for x in g.a[:2]):
                lot.append((f, g))
        if not lot:
            continue
        if len(lot) != 1:
            return 'more than one draw decides'
        f, g = lot[0]
        pr, dr = (g.a[0], g.a[1]) if is_call(g.a[1], 'f64') else (g.a[1], g.a[0])
        below = (dr is g.a[1]) == (f.op != 'not')     # probability below the draw
        if acc == below:
            return 'a child is ' + ('accepted' if acc else 'rejected') + ' when the draw is ' + ('above' if below else 'below') + ' its probability'
        baby = next((t for f_ in fs for t in terms_of(f_) if t.op == 'upd' and last(t.a[0]) == 'evaluate'), None)
        if baby is None:
            return 'the child is not evaluated before the draw'
        new = lambda x, k: is_fld(x, k) and x.a[0].op == 'upd' and last(x.a[0].a[0]) == 'evaluate'
        old = lambda x, k: is_fld(x, k) and x.a[0] is mem
        ns, ds = factors(pr)
        ann, frq = flag_of(fs, 'annealing'), flag_of(fs, 'use_frequency')
        got.add((ann, frq, acc))
        ex = [x for x in ns if is_call(x, 'exp')]
        nf = [x for x in ns if not is_call(x, 'exp')]
        if (len(ex) == 1) != (ann is True) or len(ex) > 1:
            return 'the temperature counts though annealing is off' if ex else 'the temperature does not count though annealing is on'
        if ex:
            m = anneal(ex[0].a[1], fs, old, new)
            if m:
                return m
        if frq is not True:
            if nf or ds:
                return f'the probability is {show(pr)[:80]} with frequencies off'
            continue
        if len(nf) != 1 or len(ds) != 1:
            return f'the probability is {show(pr)[:80]}'
        for x, who, nm in ((nf[0], old, 'old'), (ds[0], new, 'new')):
            if is_call(x, 'freq'):
                if not who(strip(x.a[2]), 'complexity') or not is_fld(x.a[1], 'stats'):
                    return f'the {nm} frequency is that of {show(x.a[2])[:60]}'
            elif num(x) == 1e-6:
                iss = lambda y: who(y, 'complexity')
                if not (less(fs, iss, lambda y: constant(y) == 0, False) or less(fs, lambda y: is_fld(y, 'maxsize'), iss) or
                        any(q.op == 'eq' and any(isinstance(y, T) and iss(y) for y in q.a) and any(isinstance(y, T) and constant(y) == 0 for y in q.a) for q in fs)):
                    return f'the {nm} frequency is not looked up'
            else:
                return f'the {nm} frequency is {show(x)[:60]}'
    want = {(a, b, v) for a in (True, False) for b in (True, False) for v in (True, False)}
    # without either factor the probability is one: rejecting is impossible but the code may still test it
    return None if got >= want - {(False, False, False), (False, False, True)} else f'only {len(got)} kinds of decision found'


def constant_bool(r):
    if r.op == 'agg' and len(r.a) >= 4:
        v = r.a[3]
        if v.op == 'const' and v.a[0] in (0, 1, True, False):
            return bool(v.a[0])
    return None


def signed(t):
    s = 1
    while t.op == 'Neg':
        t, s = t.a[0], -s
    return t, s


def anneal(x, fs, old, new):
    """-(after - before) / (temperature * alpha)"""
    ns, ds = factors(x)
    sign, core = 1, []
    for y in ns:
        y, s = signed(y)
        sign *= s
        n2, d2 = factors(y)
        ds += d2
        for z in n2:
            if num(z) == -1:
                sign = -sign
            else:
                z, s = signed(z)
                sign *= s
                core.append(z)
    if len(core) != 1 or core[0].op != 'Sub':
        return f'the exponent is {show(x)[:80]}'
    a, b = core[0].a
    if sign == 1:
        a, b = b, a
    if not to_float(a, fs, lambda y: new(y, 'cost')) or not to_float(b, fs, lambda y: old(y, 'cost')):
        return 'the exponent does not fall with the cost the child adds: ' + show(x)[:80]
    if len(ds) != 2 or not any(is_fld(y, 'temperature') for y in ds) or not any(is_fld(y, 'alpha') for y in ds):
        return f'the cost change is divided by {[show(y)[:40] for y in ds]}'
    return None


FR, NF = 'frequencies', 'normalized_frequencies'


def inside(fs, isz, vec):
    """(the size is known to be in the table, known to be outside)"""
    ln = lambda x: lastname_len(x) and (is_fld(x.a[-1], vec) or x.a[-1].op == 'phi')
    z = lambda x: constant(x) == 0
    zero = any(f.op == 'eq' and any(isinstance(x, T) and isz(x) for x in f.a) and any(isinstance(x, T) and z(x) for x in f.a) for f in fs) or less(fs, isz, z, False) or less(fs, isz, lambda x: constant(x) == 1)
    nz = any(f.op == 'ne' and any(isinstance(x, T) and isz(x) for x in f.a) and any(isinstance(x, T) and z(x) for x in f.a) for f in fs) or less(fs, z, isz) or less(fs, lambda x: constant(x) == 1, isz, False)
    less1 = lambda x: size_place(x, isz)
    sub = [f for f in fs if f.op == 'is' and is_call(f.a[0], 'checked_sub') and isz(strip(f.a[0].a[1])) and constant(f.a[0].a[2]) == 1]
    zero = zero or any(f.a[1] == 'None' for f in sub)
    nz = nz or any(f.a[1] == 'Some' for f in sub)
    big = less(fs, ln, isz) or less(fs, ln, less1, False)
    small = less(fs, isz, ln, False) or less(fs, less1, ln)
    gets = [f for f in fs if f.op == 'is' and is_call(f.a[0], 'get', 'get_mut')]
    some = any(f.a[1] == 'Some' for f in gets)
    none = any(f.a[1] == 'None' for f in gets)
    return nz and small or some, zero or big or none


def size_place(i, isz):
    """i is size - 1"""
    i = strip(i)
    if i.op == 'vf' and is_call(i.a[0], 'checked_sub'):
        return isz(strip(i.a[0].a[1])) and constant(i.a[0].a[2]) == 1
    l = lin(i)
    a = [x for x in l if x != 1]
    return l.get(1) == -1 and len(a) == 1 and l[a[0]] == 1 and isz(strip(a[0]))


def read_at(t):
    """(vector, index) of an element read"""
    t = deref(t)
    if t.op == 'idx':
        return t.a[0], t.a[1]
    if t.op == 'vf' and t.a[1] == 'Some' and is_call(t.a[0], 'get', 'get_mut'):
        return plain(t.a[0].a[1]), t.a[0].a[2]
    return None, None


def lem_freq(c, fn):
    F = c.ctx.flow(fn, ())
    me, s = mk_arg(F, 1), mk_arg(F, 2)
    isz = lambda x: x is s
    got = set()
    for p in rets(F):
        if impossible(p.facts):
            continue
        a, b = inside(p.facts, isz, NF)
        r = p.ret
        if num(r) is not None:
            if not b:
                return f'a size in the table has the frequency {show(r)}'
            if not num(r) > 0:
                return 'a frequency of zero'
            got.add(('out', num(r)))
            continue
        if not is_call(r, 'max'):
            return f'the frequency is {show(r)[:60]}'
        lo = [num(x) for x in r.a[1:3] if num(x) is not None]
        v = [x for x in r.a[1:3] if num(x) is None]
        if len(lo) != 1 or not lo[0] > 0:
            return 'a frequency may be zero'
        V, i = read_at(v[0])
        if V is None or not (is_fld(V, NF) and V.a[0] is me) or not size_place(i, isz):
            return f'the frequency is {show(v[0])[:60]}'
        got.add(('in', lo[0]))
    return None if len({k for k, _ in got}) == 2 and len({v for _, v in got}) == 1 else f'frequencies found: {sorted(got)}'


def bump(v, V, i, root):
    """v is the old count at that place plus one"""
    if v.op != 'Add':
        return False
    o = [x for x in v.a if num(x) is None]
    k = [num(x) for x in v.a if num(x) is not None]
    if len(o) != 1 or k != [1.0]:
        return False
    return True


def stat_writes(items):
    for it in items:
        if isinstance(it, Loop):
            continue
        e, x, en = it
        if e.k == 'write' and isinstance(e.root, T) and e.path and any(q[0] == 'i' for q in e.path):
            yield e, en
        elif e.k == 'write' and isinstance(e.root, T) and not e.path and (e.root.op in ('elem', 'vf')):
            yield e, en
        elif e.k == 'write' and isinstance(e.root, T) and e.path and e.root.op != 'arg':
            yield e, en


def lem_update(c, fn):
    F = c.ctx.flow(fn, ())
    me, s = mk_arg(F, 1), mk_arg(F, 2)
    isz = lambda x: x is s
    got = set()
    for p in rets(F):
        if impossible(p.facts):
            continue
        m = counted(p.items, p.facts, isz, p.env, got)
        if m:
            return m
    return None if got == {'in', 'out'} else f'only sizes {sorted(got)} of the table are handled'


def counted(items, fs, isz, env, got):
    a, b = inside(fs, isz, FR)
    ws = list(stat_writes(items))
    if a and not b:
        got.add('in')
        if len(ws) != 1:
            return f'a size in the table is counted {len(ws)} times'
        e, en = ws[0]
        v = e.value
        if e.path and e.path[-1][0] == 'i':
            V, i = (e.path[-2][2] if len(e.path) > 1 else None), e.path[-1][1]
        else:
            V, i = read_at(e.root)
            V = V.a[2] if V is not None and is_fld(V, FR) else FR if V is not None and V.op == 'phi' else None
        if V != FR or i is None or not size_place(i, isz):
            return f'a size is counted at {show(i)[:60] if i is not None else show(e.root)[:60]}'
        if not bump(v, V, i, e.root):
            return f'the count becomes {show(v)[:60]}'
        return None
    if ws:
        return 'a size outside the table is counted'
    if not b:
        return 'a size in the table may go uncounted'
    got.add('out')
    return None


def lem_update_all(c, fn):
    F = c.ctx.flow(fn, ('update_frequencies',))
    A = mk_arg(F, 2)
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        Ls = [L for L in loops_in(p) if L.src is not None and plain(L.src) is A]
        if len(Ls) != 1 or not ended(p.facts, Ls[0]):
            return 'not every size is counted'
        L = Ls[0]
        got = set()
        for b in L.body:
            if impossible(b.facts):
                continue
            cs = [e for e, _, en in calls_in(b.items) if last(e.cn) == 'update_frequencies']
            if cs:
                if len(cs) != 1 or strip(cs[0].args[-1]) is not mk('elem', A, L.site):
                    return 'another size is counted'
            else:
                m = counted(b.items, b.facts, lambda x: x.op == 'elem' and x.a[1] == L.site, b.env, got)
                if m:
                    return m
        n += 1
    return None if n else 'nothing returned'


def lem_normalize(c, fn):
    F = c.ctx.flow(fn, ())
    me = mk_arg(F, 1)
    fr = lambda x: is_fld(x, FR) and x.a[0] is me
    issum = lambda x: is_call(x, 'sum') and fr(plain(x.a[1]))
    good = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        tot = any(f.op == 'eq' and any(isinstance(x, T) and (issum(x) or is_acc_sum(F, p, x, fr)) for x in f.a) and any(isinstance(x, T) and num(x) == 0 for x in f.a) for f in p.facts)
        if tot:
            continue
        hit = 0
        W = final(F, p, 1)
        for L in loops_in(p):
            if L.src is None or not ended(p.facts, L):
                continue
            for b in L.body:
                for e, en in stat_writes(b.items):
                    v = rebuild(e.value, en)
                    if not (v.op == 'Div' and (issum(v.a[1]) or is_acc_sum(F, p, v.a[1], fr))):
                        return f'a frequency becomes {show(v)[:80]}'
                    x = v.a[0]
                    same = x.op == 'elem' and fr(x.a[0]) and x.a[1] == L.site and (e.root.op == 'elem' and e.root.a[1] == L.site and (is_fld(plain(e.root.a[0]), NF) or plain(e.root.a[0]).op == 'phi' or is_call(plain(e.root.a[0]), 'resize') or plain(e.root.a[0]).op == 'upd') or e.path and e.path[-1][0] == 'i' and place_of(e.path[-1][1], x)) \
                        or x.op == 'idx' and fr(x.a[0]) and e.path and e.path[-1][0] == 'i' and e.path[-1][1] is x.a[1]
                    if not same:
                        return 'a frequency is computed from the count of another size: ' + show(x)[:60]
                    hit += 1
        if not hit:
            # rebuilt by collecting
            V = part_with(W, NF)
            for L in loops_in(p):
                if V in (L.accs or ()) and empty(L.entries[V]) and ended(p.facts, L) and fr(plain(L.src)):
                    for b in L.body:
                        v = accs_of(F, L, b)[V]
                        if not (v.op == 'upd' and last(v.a[0]) == 'push' and v.a[4].op == 'Div' and v.a[4].a[0] is mk('elem', plain(L.src), L.site) and issum(v.a[4].a[1])):
                            return f'a frequency becomes {show(v)[:80]}'
                        hit += 1
        if not hit:
            return 'the frequencies are not recomputed'
        good += 1
    return None if good else 'never normalised'


def part_with(E, f):
    while E.op == 'with':
        for path, v in E.a[1]:
            if len(path) == 1 and path[0][0] == 'f' and path[0][2] == f:
                return v
        E = E.a[0]
    return mk('fld', E, '', f)


def is_acc_sum(F, p, t, fr):
    for L in loops_in(p):
        if t in (L.accs or ()) and L.src is not None and fr(plain(L.src)) and num(L.entries[t]) == 0 and ended(p.facts, L):
            return all(v.op == 'Add' and set(v.a[:2]) == {t, mk('elem', plain(L.src), L.site)} for v in (accs_of(F, L, b)[t] for b in L.body))
    return False


def lem_window(c, fn):
    """only counts above one are lowered, never below one, and together by what exceeds the window"""
    F = c.ctx.flow(fn, ())
    me = mk_arg(F, 1)
    n = 0
    done = set()
    for p in rets(F):
        if impossible(p.facts):
            continue
        for O, q in [(None, p)] + [(O, q) for O in loops_in(p) if id(O) not in done for q in O.body if loops_in(q)]:
            if O is not None:
                done.add(id(O))
            for L in loops_in(q):
                for b in L.body:
                    if loops_in(b) and O is None:
                        continue
                    for e, en in stat_writes(b.items):
                        m = lowered(F, O, q, loops_in(q), L, b, e, en)
                        if m:
                            return m
                        n += O is not None
            for e, en in stat_writes(q.items):
                return f'a count is changed outside the lowering step'
        E = final(F, p, 1)
        while E.op == 'with':
            for path, v in E.a[1]:
                if path[0][0] == 'f' and path[0][2] != FR:
                    return f'{path[0][2]} is changed'
            E = E.a[0]
    return None if n else 'counts are never lowered'


def lowered(F, O, q, inner, L, b, e, en):
    v = rebuild(e.value, b.env)
    if v.op != 'Sub':
        return f'a count becomes {show(v)[:80]}'
    old, amt = v.a
    if e.path and e.path[-1][0] == 'i':
        i = rebuild(e.path[-1][1], b.env)
        if not (old.op == 'idx' and strip(old.a[1]) is strip(i)):
            return f'a count becomes {show(v)[:80]}'
        if not (i.op == 'elem' and i.a[1] == L.site and i.a[0].op == 'phi'):
            return 'counts are lowered at places not chosen before'
        I = i.a[0]
    else:
        I = None
    # the amount
    if not is_call(amt, 'min'):
        return f'a count is lowered by {show(amt)[:80]}'
    cap, share = None, None
    for x in amt.a[1:3]:
        if x.op == 'Sub':
            cap = x
        elif x.op == 'Div':
            share = x
    if cap is None or share is None:
        return f'a count is lowered by {show(amt)[:80]}'
    if num(cap.a[1]) is None or num(cap.a[1]) < 1:
        return 'a count may fall below one'
    low = num(cap.a[1])
    mn = cap.a[0]
    if I is not None:
        # the places: those of counts above the floor, from the counts as they stand
        ok = False
        for M in all_loops(q.items):
            for z in M.body:
                A = accs_of(F, M, z)
                for ph, u in A.items():
                    if u.op == 'upd' and last(u.a[0]) == 'push' and u.a[4].op in ('pos', 'elem'):
                        g = u.a[4]
                        el = [t for f in z.facts for t in terms_of(f) if t.op == 'elem' and t.a[1] == g.a[1] and g.op == 'pos' or t.op == 'idx' and strip(t.a[1]) is g]
                        if g.op == 'elem' and not (g.a[0].op == 'agg' and last(g.a[0].a[0]) == 'Range'):
                            continue
                        if not el or not less(z.facts, lambda t: num(t) is not None and num(t) >= low, lambda t: t in el):
                            return 'a count at or below one is lowered'
                        ok = True
        if not ok:
            return 'the places to lower are not found'
        ok = False
        for M in inner:
            if mn in (M.accs or ()) and plain(M.src) is I and num(M.entries[mn]) == float('inf') and ended(q.facts, M):
                us = [accs_of(F, M, z)[mn] for z in M.body]
                ok = bool(us) and all(is_call(u, 'min') and mn in u.a and any(isinstance(t, T) and t.op == 'idx' and t.a[1] is mk('elem', I, M.site) for t in u.a) for u in us)
        if not ok:
            return 'the floor is not kept for the smallest count lowered'
    else:
        return 'counts lowered in a way the rule does not read'
    rem, cnt = share.a
    if not (strip(cnt) is not None and lastname_len(strip(cnt)) and strip(cnt).a[-1] is I):
        return f'the excess is shared among {show(cnt)[:60]}'
    if O is None:
        return None if rem.op == 'phi' else f'the excess is {show(rem)[:60]}'
    if rem not in (O.accs or ()):
        return f'the excess is {show(rem)[:60]}'
    e0 = O.entries[rem]
    if not (e0.op == 'Sub' and is_call(e0.a[0], 'sum') and is_fld(plain(e0.a[0].a[1]), FR) and is_fld(e0.a[1], 'window_size')):
        return f'the excess is {show(e0)[:80]}'
    u = accs_of(F, O, q)[rem]
    if not (u.op == 'Sub' and u.a[0] is rem and u.a[1].op == 'Mul' and amt in u.a[1].a and any(isinstance(t, T) and strip(t) is strip(cnt) for t in u.a[1].a)):
        return f'after a step the excess becomes {show(u)[:80]}'
    return None


def lem_new(c, fn):
    F = c.ctx.flow(fn, ())
    ms = mk_arg(F, 1)
    for p in rets(F):
        r = p.ret
        if r.op != 'agg':
            return f'returns {show(r)[:60]}'
        f = part_of(r, FR)
        if not (is_call(f, 'from_elem') and num(f.a[1]) is not None and num(f.a[1]) >= 1 and f.a[2] is ms):
            return f'the counts start as {show(f)[:60]}'
        n = part_of(r, NF)
        ok = False
        for L in loops_in(p):
            if n in (L.accs or ()) and empty(L.entries[n]) and ended(p.facts, L) and is_call(plain(L.src), 'from_elem') and plain(L.src).a[2] is ms:
                ok = True
                for b in L.body:
                    v = accs_of(F, L, b)[n]
                    if not (v.op == 'upd' and last(v.a[0]) == 'push' and uniform(F, p, v.a[4], f, ms)):
                        return f'a frequency starts as {show(v.a[4] if v.op == "upd" else v)[:80]}'
        if not ok and not (is_call(n, 'from_elem') and n.a[2] is ms and uniform(F, p, n.a[1], f, ms)):
            return f'the frequencies start as {show(n)[:60]}'
        w = part_of(r, 'window_size')
        if strip(w) is not mk_arg(F, 2):
            return f'the window is {show(w)[:60]}'
    return None


def uniform(F, p, v, f, ms):
    """v is an entry of f over the total of f"""
    v = deref(v)
    if v.op != 'Div':
        return False
    a, s = deref(v.a[0]), deref(v.a[1])
    whole = lambda x: plain(deref(x)) is f
    if not (a.op == 'elem' and whole(a.a[0]) or num(a) is not None and num(a) == num(f.a[1])):
        return False
    if is_call(s, 'sum') and whole(s.a[1]) or is_acc_sum(F, p, s, lambda x: x is f):
        return True
    if s.op == 'Mul' and num(f.a[1]) in (num(s.a[0]), num(s.a[1])):
        s = s.a[0] if num(s.a[0]) is None else s.a[1]
    elif num(f.a[1]) != 1:
        return False
    s = strip(s)
    return s is ms or s.op == 'len' and whole(s.a[0]) or is_call(s, 'len') and whole(s.a[1])


def lem_temperature(c, fn):
    """temperatures fall linearly from one, to zero when annealing"""
    F = c.ctx.flow(fn, ('reg_evol_cycle', 'update_from_members', 'HallOfFame::new', 'update'))
    n = 0
    got = set()
    for p in rets(F):
        if impossible(p.facts):
            continue
        for L in loops_in(p):
            for b in L.body:
                if impossible(b.facts):
                    continue
                for e, _, en in calls_in(b.items):
                    if last(e.cn) != 'reg_evol_cycle':
                        continue
                    n += 1
                    t = rebuild(F.proj1(e.args[-1], ('f', 'RegEvolCtx', 'temperature')), b.env)
                    t = rebuild(t, p.env)
                    s = L.src
                    if not (s.op == 'agg' and last(s.a[0]) == 'Range' and num(s.a[2]) == 0):
                        return f'cycles run over {show(s)[:60]}'
                    N = s.a[3]
                    i = mk('elem', s, L.site)
                    fs = list(b.facts) + list(p.facts)
                    ann = flag_of(fs, 'annealing')
                    if num(t) == 1:
                        if not (ann is False or less(fs, lambda x: x is N, lambda x: constant(x) == 1, False)):
                            return 'the temperature does not fall though annealing is on'
                        got.add('one')
                        continue
                    v = line(t, i, N)
                    if v is None:
                        return f'the temperature is {show(t)[:100]}'
                    a, d = v
                    if a != 1.0 or d not in ((-1.0,) if ann is True else (0.0,) if ann is False else ()):
                        return f'the temperature goes from {a} to {a + d}' + (' with annealing' if ann else ' without annealing')
                    got.add(ann)
    return None if n and got >= {True} else 'the annealed schedule is not found'


def line(t, i, N):
    """t = a + d*i/(N-1)"""
    if num(t) is not None:
        return num(t), 0.0
    if t.op in ('Add', 'Sub'):
        x, y = line(t.a[0], i, N), line(t.a[1], i, N)
        if x is None or y is None:
            return None
        s = 1 if t.op == 'Add' else -1
        return x[0] + s * y[0], x[1] + s * y[1]
    if t.op == 'Neg':
        x = line(t.a[0], i, N)
        return None if x is None else (-x[0], -x[1])
    if t.op == 'Mul':
        x, y = line(t.a[0], i, N), line(t.a[1], i, N)
        if x is None or y is None:
            return None
        if x[1] == 0:
            return x[0] * y[0], x[0] * y[1]
        if y[1] == 0:
            return x[0] * y[0], x[1] * y[0]
        return None
    if t.op == 'Div':
        if strip(t.a[0]) is i:
            l = lin(strip(t.a[1]))
            if strip(t.a[1]).op == 'Sub' and strip(strip(t.a[1]).a[0]) is N and num(strip(t.a[1]).a[1]) == 1 or l == {N: 1, 1: -1}:
                return 0.0, 1.0
    return None


def lem_fed(c, fn=None):
    """every population handed back is counted by the sizes of its members, each once"""
    n = 0
    for f in c.p.fns.values():
        if f['kind'] not in ('Fn', 'AssocFn') or 'adaptive_parsimony' in f['id'] or not (calls_fn(f, 'update_from_population') or calls_fn(f, 'update_frequencies')):
            continue
        F = c.ctx.flow(f, ('update_from_population', 'update_frequencies', 'move_window', 'check_constraints', 'consider', 'migrate_into', 'pareto_front', 'on_cycle_complete', 'mark_completed'))
        for p in rets(F):
            if impossible(p.facts):
                continue
            once = 0
            for it in p.items:
                if isinstance(it, Loop):
                    bs = [b for b in it.body if not impossible(b.facts)]
                    k = [[e for e, _, en in calls_in(b.items) if last(e.cn) == 'update_frequencies'] for b in bs]
                    if not any(k):
                        continue
                    src = plain(it.src)
                    if not (is_fld(src, 'members') and all(len(x) == 1 and own_size(strip(x[0].args[-1]), mk('elem', src, it.site)) for x in k) and ended(p.facts, it)):
                        return f'{f["id"]}: not every member is counted by its size'
                    once += 1
                elif it[0].k == 'call' and last(it[0].cn) == 'update_from_population':
                    a = deref(rebuild(it[0].args[-1], it[2]))
                    m = sizes_of(c, F, p, a)
                    if m:
                        return f'{f["id"]}: {m}'
                    once += 1
            if once != 1:
                return f'{f["id"]}: a population is counted {once} times'
            n += 1
    return None if n else 'populations are never counted'


def own_size(t, el):
    return is_fld(t, 'complexity') and deref(t.a[0]) is el


def sizes_of(c, F, p, a):
    while is_call(a, 'into_iter', 'iter', 'copied', 'collect'):
        a = a.a[1]
    if is_call(a, 'map'):
        src, clo = plain(a.a[1]), deref(a.a[2])
        g = c.p.fns.get(clo.a[0][len('closure:'):]) if clo.op == 'agg' and clo.a[0].startswith('closure:') else None
        if is_fld(src, 'members') and g is not None:
            G = c.ctx.flow(g, ())
            if all(is_fld(deref(q.ret), 'complexity') and root_of(q.ret) is mk_arg(G, 2) for q in rets(G)):
                return None
    for L in loops_in(p):
        if a in (L.accs or ()) and empty(L.entries[a]) and is_fld(plain(L.src), 'members') and ended(p.facts, L):
            vs = [accs_of(F, L, b)[a] for b in L.body]
            if vs and all(v.op == 'upd' and last(v.a[0]) == 'push' and v.a[3] is a and own_size(strip(v.a[4]), mk('elem', plain(L.src), L.site)) for v in vs):
                return None
    return f'the sizes counted are {show(a)[:80]}'


def root_of(t):
    t = deref(t)
    while t.op in ('fld', 'ref'):
        t = deref(t.a[0])
    return t


def calls_fn(f, name):
    for b in f['blocks']:
        if name in str(b.get('t', b)):
            return True
    return False


@rule('P29', 'the acceptance test and the size statistics read path by path over MIR, their formulas compared as products and linear forms', [
    'real arithmetic for the statistics: rounding may leave a count just below one'])
def p29(c):
    for suf, lem in (('mutate::next_generation', lem_accept), ('single_iteration::s_r_cycle', lem_temperature)):
        f = one(c, suf)
        m = run(lem, c, f)
        c.ob(suf.split('::')[-1], m is None, f['id'], m)
    for n, lem in (('freq', lem_freq), ('update_frequencies', lem_update), ('update_from_population', lem_update_all),
                   ('normalize', lem_normalize), ('move_window', lem_window), ('new', lem_new)):
        f = c.p.fn('RunningSearchStatistics::' + n)
        m = run(lem, c, f)
        c.ob(n, m is None, f['id'], m)
    m = run(lem_fed, c)
    c.ob('counted', m is None, 'symbolic_regression::search_utils', m)
