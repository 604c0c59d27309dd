"""P38: size, depth, nesting and complexity of an expression."""
from sa.core import *
from sa.rulelib import *
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, exact as strip, lin, plus, empty, rets, run, terms_of, params
from rules.simplify import last, accs_of, impossible, ended, deref, arg_where
from rules.choice import loops_in, num
from rules.browser import bare

SUM, MAX = mk('measure', 'sum'), mk('measure', 'max')


def facts_of(p):
    return [rebuild(f, p.env) for f in p.facts]


def over(src):
    src = deref(src)
    while is_call(src, 'enumerate', 'iter', 'into_iter', 'copied', 'cloned', 'by_ref'):
        src = deref(src.a[1])
    return src


def values(F, L, b):
    """value of every loop variable after one round"""
    return {ph: rebuild(dict(F.phi_ops[ph])[b.nodes[-2]], b.env) for ph in L.accs if b.nodes[-2] in dict(F.phi_ops[ph])}


class Fold:
    """one round of a pass over the nodes of an expression in postfix order, with a stack of results"""

    def __init__(self, F, N, L, st, b):
        self.F, self.N, self.L, self.st, self.b = F, N, L, st, b
        self.el = None
        for s in (mk('elem', N, L.site), mk('idx', N, mk('elem', over(L.src), L.site))):
            if any(f.op in ('is', 'isnt') and deref(f.a[0]) is s for f in b.facts):
                self.el = s
        ks = {'Var', 'Const', 'Op'}
        for f in b.facts:
            if f.op in ('is', 'isnt') and self.el is not None and deref(f.a[0]) is self.el:
                ks = ks & {f.a[1]} if f.op == 'is' else ks - {f.a[1]}
        self.kinds = ks
        self.facts = facts_of(b) + list(b.facts)
        self.inner = [x for x in b.items if isinstance(x, Loop)]
        self.arity = mk('vf', self.el, 'Op', 'arity') if self.el is not None else None

    def is_arity(self, t):
        return strip(deref(t)) is self.arity

    def below(self, t):
        """t is the position at which the operands on the stack start"""
        t = strip(deref(t))
        if t.op == 'vf' and t.a[1] == 'Some' and is_call(t.a[0], 'checked_sub'):
            t = mk('Sub', t.a[0].a[1], t.a[0].a[2])
        if is_call(t, 'saturating_sub', 'wrapping_sub') and any(f.op == 'le' and self.is_arity(f.a[0]) and self.is_len(f.a[1]) for f in self.facts):
            t = mk('Sub', t.a[1], t.a[2])
        return t.op == 'Sub' and self.is_len(t.a[0]) and self.is_arity(t.a[1])

    def is_len(self, t):
        t = strip(deref(t))
        return (t.op == 'len' and deref(t.a[0]) is self.st) or is_call(t, 'len') and deref(t.a[1]) is self.st

    def children(self, t):
        """t is the sequence of results of the operands"""
        t = over(t)
        if is_call(t, 'index') and len(t.a) >= 3:
            t = mk('idx', t.a[1], t.a[2])
        if t.op == 'idx' and deref(t.a[0]) is self.st:
            r = t.a[1]
            return r.op == 'agg' and (last(r.a[0]) == 'RangeFrom' and self.below(r.a[2])
                                      or last(r.a[0]) == 'Range' and self.below(r.a[2]) and self.is_len(r.a[3]))
        if is_call(t, 'drain') and deref(t.a[1]) is self.st:
            return t.a[2].op == 'agg' and last(t.a[2].a[0]) == 'RangeFrom' and self.below(t.a[2].a[2])
        if is_call(t, 'split_off') and deref(t.a[1]) is self.st:
            return self.below(t.a[2])
        if t.op == 'phi':
            return self.filled(t) is not None
        return False

    def counted(self, I):
        """a loop with one round per operand"""
        s = deref(rebuild(I.src, self.b.env)) if I.src is not None else None
        rev = False
        while s is not None and is_call(s, 'rev', 'into_iter'):
            rev, s = rev ^ is_call(s, 'rev'), deref(s.a[1])
        ok = s is not None and s.op == 'agg' and last(s.a[0]) == 'Range' and constant(s.a[2]) == 0 and self.is_arity(s.a[3])
        return (ok and ended(self.facts, I)), rev, s

    def taken(self, I, q, acc):
        """the value one round takes off the stack acc"""
        v = values(self.F, I, q).get(acc)
        if v is None or not (v.op == 'upd' and last(v.a[0]) == 'pop' and v.a[3] is acc):
            return None
        return [t for t in (mk('call', v.a[0], acc, v.a[1]),)]

    def popped(self, t, acc):
        t = bare(strip(deref(t)))
        if t.op == 'vf' and t.a[1] == 'Some':
            t = t.a[0]
        if is_call(t, 'unwrap', 'expect', 'unwrap_or', 'unwrap_or_default'):
            t = deref(t.a[1])
        return is_call(t, 'pop') and deref(t.a[1]) is acc

    def pops(self, acc):
        """the loop that takes every operand off the stack, if acc is the stack after it"""
        for I in self.inner:
            if acc in (I.accs or ()) and deref(I.entries.get(acc, acc)) is self.st:
                ok, rev, s = self.counted(I)
                if not ok:
                    raise Bad('not every operand is taken off the stack')
                for q in I.body:
                    if q.end != 'back' or self.taken(I, q, acc) is None:
                        raise Bad('an operand is not taken off the stack once')
                return I
        return None

    def gone(self, q, acc):
        """the stack was empty, which a well-formed expression excludes"""
        return any(f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'pop') and deref(f.a[0].a[1]) is acc for f in q.facts)

    def filled(self, t):
        """t is an array holding the result of operand j at position j, zero elsewhere"""
        for I in self.inner:
            if t not in (I.accs or ()):
                continue
            acc = next((a for a in I.accs if a is not t and deref(I.entries.get(a, t)) is self.st), None)
            if acc is None or self.pops(acc) is None:
                return None
            e = deref(I.entries[t])
            if not (e.op == 'repeat' and constant(e.a[0]) == 0 or is_call(e, 'from_elem') and constant(e.a[1]) == 0):
                return None
            ok, rev, s = self.counted(I)
            n = 0
            for q in I.body:
                if impossible(q.facts) or self.gone(q, acc):
                    continue
                u = values(self.F, I, q).get(t)
                if u is None or not (u.op == 'with' and u.a[0] is t and len(u.a[1]) == 1 and len(u.a[1][0][0]) == 1):
                    return None
                (path, v), = u.a[1]
                k = strip(path[0][1])
                at = k.op == 'elem' and k.a[1] == I.site and is_call(k.a[0], 'rev')
                if not at:
                    k2 = lin(k)
                    el = [x for x in k2 if isinstance(x, T) and x.op == 'elem' and x.a[1] == I.site]
                    # a - 1 - k for k counting up
                    at = len(el) == 1 and not rev and k2[el[0]] == -1 and k2.get(1) == -1 and sum(1 for x in k2 if isinstance(x, T) and self.is_arity(x) and k2[x] == 1) == 1 and len(k2) == 3
                if not at or not self.popped(v, acc):
                    return None
                n += 1
            return I if n else None
        return None

    def each_child(self, I, q):
        """the operand result a round of loop I looks at: a predicate"""
        src = over(rebuild(I.src, self.b.env)) if I.src is not None else None
        if src is not None and self.children(src) and ended(self.facts, I):
            return lambda t: (lambda x: x.op == 'elem' and x.a[1] == I.site)(bare(strip(deref(t))))
        ok, rev, s = self.counted(I)
        if ok:
            for acc in I.accs:
                if deref(I.entries.get(acc, acc)) is self.st and self.taken(I, q, acc) is not None:
                    return lambda t: self.popped(t, acc)
            def at(t):
                t = bare(strip(deref(t)))
                if t.op != 'idx':
                    return False
                k = strip(deref(t.a[1]))
                if k.op == 'elem' and k.a[1] == I.site and (self.children(t.a[0])):
                    return True
                k = lin(k)
                return deref(t.a[0]) is self.st and any(isinstance(x, T) and x.op == 'elem' and x.a[1] == I.site for x in k) and \
                    any(self.below(mk('Sub', x, y)) for x in k for y in k if isinstance(x, T) and isinstance(y, T)) or \
                    deref(t.a[0]) is self.st and t.a[1].op == 'Add' and any(self.below(x) and strip(y).op == 'elem' and strip(y).a[1] == I.site for x, y in (t.a[1].a[:2], t.a[1].a[:2][::-1]))
            return at
        return None

    def nf(self, t):
        """linear form over the sum or maximum of the operands' results"""
        t = strip(deref(t))
        v = constant(t)
        if v is not None:
            return {1: v} if v else {}
        if t.op == 'Add':
            return plus(self.nf(t.a[0]), self.nf(t.a[1]))
        if is_call(t, 'saturating_add', 'wrapping_add') and len(t.a) >= 3:
            return plus(self.nf(t.a[1]), self.nf(t.a[2]))
        if t.op == 'vf' and t.a[1] == 'Some':
            x = t.a[0]
            if is_call(x, 'checked_add'):
                return plus(self.nf(x.a[1]), self.nf(x.a[2]))
            if is_call(x, 'max') and self.children(x.a[1]):
                return {MAX: 1}
        if is_call(t, 'unwrap_or', 'unwrap_or_default') and is_call(t.a[1], 'max') and self.children(t.a[1].a[1]) and (len(t.a) < 4 or constant(t.a[2]) == 0):
            return {MAX: 1}
        if is_call(t, 'sum') and self.children(t.a[1]):
            return {SUM: 1}
        if t.op == 'phi':
            for I in self.inner:
                if t not in (I.accs or ()):
                    continue
                start = self.nf(I.entries[t])
                res = None
                for q in I.body:
                    if impossible(q.facts) or any(self.gone(q, a) for a in I.accs):
                        continue
                    if q.end != 'back':
                        raise Bad('the loop over operands may stop early')
                    ch = self.each_child(I, q)
                    if ch is None:
                        raise Bad('not every operand counts')
                    v = strip(deref(values(self.F, I, q).get(t, t)))
                    r = self.step(v, t, ch, q)
                    if r is None or res not in (None, r):
                        raise Bad(f'operands are combined as {show(v)[:80]}')
                    res = r
                if res is SUM:
                    return plus(start, {SUM: 1})
                if res is MAX:
                    if start:
                        raise Bad(f'the maximum over operands starts at {show(I.entries[t])[:40]}')
                    return {MAX: 1}
                raise Bad('operands are not combined')
        return {t: 1}

    def step(self, v, acc, ch, q):
        if (is_call(v, 'saturating_add') and len(v.a) >= 3):
            x, y = v.a[1:3]
        elif v.op == 'Add':
            x, y = v.a[:2]
        elif is_call(v, 'max') and len(v.a) >= 3:
            x, y = v.a[1:3]
            return MAX if any(strip(deref(a)) is acc and ch(b) for a, b in ((x, y), (y, x))) else None
        else:
            # chosen by comparison
            for f in facts_of(q) + list(q.facts):
                if f.op in ('lt', 'le') and len(f.a) >= 2 and isinstance(f.a[0], T):
                    lo, hi = strip(deref(f.a[0])), strip(deref(f.a[1]))
                    if (v is acc and hi is acc and ch(lo)) or (ch(v) and lo is acc and ch(hi)):
                        return MAX
            return None
        return SUM if any(strip(deref(a)) is acc and ch(b) for a, b in ((x, y), (y, x))) else None

    def top(self, w):
        """(what was taken off, the one value put on) the stack"""
        w = deref(w)
        if not (w.op == 'upd' and last(w.a[0]) == 'push'):
            return None
        base, v = deref(w.a[3]), w.a[4]
        if base is self.st:
            return 'nothing', v
        if base.op == 'upd' and deref(base.a[3]) is self.st:
            k = last(base.a[0])
            if k in ('truncate', 'split_off') and self.below(base.a[4]):
                return 'operands', v
            if k == 'drain' and base.a[4].op == 'agg' and last(base.a[4].a[0]) == 'RangeFrom' and self.below(base.a[4].a[2]):
                return 'operands', v
        if base.op == 'phi' and self.pops(base) is not None:
            return 'operands', v
        return None

    def no_operand(self):
        """facts say the operator has no operands: excluded for a well-formed expression"""
        return any(f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'max', 'min', 'first', 'last') and self.children(f.a[0].a[1]) for f in self.facts)


def pass_over(F, p, N):
    """the loop over all nodes in order and its stack"""
    Ls = [L for L in loops_in(p) if L.src is not None and (over(rebuild(L.src, p.env)) is N or indexed(over(rebuild(L.src, p.env)), N))]
    Ls = [L for L in Ls if L.accs]
    if len(Ls) != 1:
        raise Bad(f'{len(Ls)} passes over the nodes')
    return Ls[0]


def indexed(s, N):
    return s.op == 'agg' and last(s.a[0]) == 'Range' and constant(s.a[2]) == 0 and (lambda n: n.op == 'len' and deref(n.a[0]) is N or is_call(n, 'len') and deref(n.a[1]) is N)(strip(deref(s.a[3])))


def fold(F, p, N, leaf, node, other=None, fresh=lambda e: False):
    """checks every round; returns the loop and its stack"""
    L = pass_over(F, p, N)
    sts = []
    for ph in L.accs:
        e = deref(L.entries.get(ph, N))
        if empty(e) or is_call(e, 'clear') or e.op == 'upd' and last(e.a[0]) == 'clear' or fresh(e):
            sts.append(ph)
    err = 'no stack of results'
    for st in sts:
        try:
            kinds = set()
            for b in L.body:
                if impossible(b.facts) or b.end != 'back':
                    continue
                D = Fold(F, N, L, st, b)
                if D.el is None:
                    raise Bad('leaves and operators are not told apart')
                up = values(F, L, b)
                w = D.top(up.get(st, st))
                if w is None:
                    raise Bad(f'after a node the stack is {show(up.get(st, st))[:100]}')
                if D.kinds <= {'Var', 'Const'}:
                    if w[0] != 'nothing':
                        raise Bad('a leaf takes results off the stack')
                    for k in D.kinds:
                        leaf(D, k, w[1])
                elif D.kinds == {'Op'}:
                    if w[0] != 'operands':
                        raise Bad('an operator does not take its operands off the stack')
                    if not D.no_operand():
                        node(D, w[1])
                else:
                    raise Bad('leaves and operators are not told apart')
                kinds |= D.kinds
                if other is not None:
                    other(D, up, w[1], st)
            if kinds != {'Var', 'Const', 'Op'}:
                raise Bad(f'nothing is computed for {sorted({"Var", "Const", "Op"} - kinds)}')
            return L, st
        except Bad as x:
            if err == 'no stack of results' or 'take its operands off' in err:
                err = str(x)
    raise Bad(err)


def want(msg, got, exp):
    if got != exp:
        raise Bad(f'{msg} is {" + ".join((str(v) if k == 1 else ("" if v == 1 else str(v) + "*") + ("the sum of the operands" if k is SUM else "the largest operand" if k is MAX else show(k)[:60])) for k, v in got.items()) or "0"}')


def root_of(t, st):
    """t is the one result left on the stack"""
    t = bare(strip(deref(t)))
    if t.op == 'idx' and deref(t.a[0]) is st and constant(strip(t.a[1])) == 0:
        return True
    if t.op == 'vf' and t.a[1] == 'Some':
        t = t.a[0]
    if is_call(t, 'unwrap', 'expect', 'copied', 'cloned'):
        t = deref(t.a[1])
    return is_call(t, 'pop', 'last', 'first') and deref(t.a[1]) is st


def one_left(fs, st):
    """True/False: the facts say that exactly one result is left / is not"""
    for f in fs:
        g, pos = (f.a[0], False) if f.op == 'not' else (f, True)
        if g.op in ('eq', 'ne') and isinstance(g.a[0], T) and isinstance(g.a[1], T):
            for x, y in (g.a[:2], g.a[1::-1]):
                x = strip(deref(x))
                if constant(y) == 1 and (x.op == 'len' and deref(x.a[0]) is st or is_call(x, 'len') and deref(x.a[1]) is st):
                    return pos == (g.op == 'eq')
    return None


def len_of(t, x):
    t = strip(deref(t))
    return t.op == 'len' and deref(t.a[0]) is x or is_call(t, 'len') and deref(t.a[1]) is x


# ---------------------------------------------------------------- depth
def lem_depth(c, fn):
    F = c.ctx.flow(fn, ())
    N = mk_arg(F, 1)
    n = 0
    rs = rets(F)
    inner = [(F, p) for p in rs]
    # through LocalKey::with the computation is the body of a closure called once
    for p in rs:
        if impossible(p.facts):
            continue
        r = deref(rebuild(p.ret, p.env))
        if is_call(r, 'with') and len(r.a) >= 4 and r.a[2].op == 'agg' and str(r.a[2].a[0]).startswith('closure:'):
            bodies = [(L, b) for L in p.items if isinstance(L, Loop) and L.src is None for b in L.body]
            got = 0
            for L, b in bodies:
                if impossible(b.facts):
                    continue
                depth_body(F, b, N)
                got += 1
            if not got:
                raise Bad('the depth computation was not found')
            cl = closure_value(c, r)
            if cl is not None:
                return cl
        else:
            L, st = depth_body(F, p, N)
            if not root_of(r, st):
                return f'the depth returned is {show(r)[:80]}'
        n += 1
    return None if n else 'no path'


def depth_body(F, p, N):
    def leaf(D, k, v):
        want(f'the depth of a {k} leaf', D.nf(v), {1: 1})

    def node(D, v):
        want('the depth of an operator', D.nf(v), {1: 1, MAX: 1})
    L, st = fold(F, p, N, leaf, node, fresh=lambda e: e.op == 'upd' and last(e.a[0]) == 'clear')
    if not ended(facts_of(p) + list(p.facts), L):
        raise Bad('the pass over the nodes can stop early')
    return L, st


def closure_value(c, r):
    """the closure handed to LocalKey::with returns the one result left"""
    f = c.p.fns.get(str(r.a[2].a[0])[len('closure:'):])
    if f is None:
        return 'the depth computation was not found'
    F = c.ctx.flow(f, ())
    k = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        v = deref(rebuild(p.ret, p.env))
        ls = [L for L in loops_in(p) if L.accs]
        if not any(root_of(v, a) for L in ls for a in L.accs):
            return f'the depth returned is {show(v)[:80]}'
        k += 1
    return None if k else 'no path'


# ---------------------------------------------------------------- complexity
def oid_of(D, t):
    t = deref(t)
    return t.op == 'agg' and last(t.a[0]) == 'OpId' and deref(t.a[2 + t.a[1].index('arity')]) is D.arity and deref(t.a[2 + t.a[1].index('id')]) is mk('vf', D.el, 'Op', 'op')


def lookup(t, pred):
    """(True, t) if t is the entry found in the table"""
    t = bare(strip(deref(t)))
    return t.op == 'vf' and t.a[1] == 'Some' and is_call(t.a[0], 'get') and pred(t.a[0])


def missing(fs, pred):
    return any(f.op == 'is' and f.a[1] == 'None' and pred(deref(f.a[0])) or f.op == 'not' and f.a[0].op == 'is' and f.a[0].a[1] == 'Some' and pred(deref(f.a[0].a[0])) for f in fs)


def lem_custom(c, fn):
    F = c.ctx.flow(fn, ())
    N = mk_arg(F, params(F, lambda t: 'PNode' in t)[0])
    O = mk_arg(F, params(F, lambda t: 'Options' in t)[0])
    is_o = lambda t, n: is_fld(t, n) and deref(t.a[0]) is O
    n = 0

    def leaf(D, k, v):
        v = strip(deref(v))
        if k == 'Const':
            if not is_o(v, 'complexity_of_constants'):
                raise Bad(f'a constant weighs {show(v)[:80]}')
            return
        feat = mk('vf', D.el, 'Var', 'feature')
        own = None
        for t in [v] + [x for f in D.facts for x in terms_of(f)]:
            if isinstance(t, T) and t.op == 'vf' and t.a[1] == 'Some' and is_o(t.a[0], 'variable_complexities'):
                own = t
        table = mk('vf', [x for x in (deref(y.a[0]) for y in [own])][0], 'Some', own.a[2]) if own is not None else None
        if is_o(v, 'complexity_of_variables'):
            none = lambda t: is_o(t, 'variable_complexities') or is_call(t, 'as_ref', 'as_deref') and is_o(deref(t.a[1]), 'variable_complexities')
            beyond = table is not None and (any(f.op == 'le' and isinstance(f.a[0], T) and (lambda x: x.op == 'len' and deref(x.a[0]) is table or is_call(x, 'len') and deref(x.a[1]) is table)(strip(f.a[0]))
                                                and strip(f.a[1]) is feat for f in D.facts)
                                            or missing(D.facts, lambda t: is_call(t, 'get') and deref(t.a[1]) is table and strip(t.a[2]) is feat))
            if not (missing(D.facts, none) or beyond):
                raise Bad('a variable with its own weight gets the general one')
            return
        x = bare(v)
        ok = table is not None and (x.op == 'idx' and deref(x.a[0]) is table and strip(x.a[1]) is feat
                                    or lookup(x, lambda g: deref(g.a[1]) is table and strip(deref(g.a[2])) is feat))
        if not ok:
            raise Bad(f'a variable weighs {show(v)[:80]}')

    def node(D, v):
        f = D.nf(v)
        if f.pop(SUM, 0) != 1:
            raise Bad('the operands of an operator do not count once each')
        over_ = lambda g: is_call(g, 'get') and is_o(deref(g.a[1]), 'operator_complexity_overrides') and oid_of(D, g.a[2])
        if f == {1: 1}:
            if not missing(D.facts, over_):
                raise Bad('an operator with its own weight gets weight one')
            return
        if len(f) == 1 and all(isinstance(k, T) and v == 1 and lookup(k, over_) for k, v in f.items()):
            return
        want('the weight of an operator', f, {1: 1})

    for p in rets(F):
        if impossible(p.facts):
            continue
        r = deref(rebuild(p.ret, p.env))
        fs = facts_of(p) + list(p.facts)
        if is_call(r, 'pop', 'last', 'first'):
            L, st = fold(F, p, N, leaf, node)
            if not ended(fs, L) or one_left(fs, st) is not True or not (deref(r.a[1]) is st):
                return f'returns {show(r)[:80]}'
            n += 1
            continue
        if r.op != 'agg':
            return f'returns {show(r)[:80]}'
        if last(r.a[0]) == 'Some':
            L, st = fold(F, p, N, leaf, node)
            if not ended(fs, L):
                return 'the pass over the nodes can stop early'
            if one_left(fs, st) is not True and not any(f.op == 'is' and f.a[1] == 'None' for f in fs if is_call(f.a[0], 'pop')):
                return 'a malformed expression is given a complexity'
            if not root_of(r.a[2], st):
                return f'the complexity returned is {show(r.a[2])[:80]}'
            n += 1
        else:
            # refused: malformed, or an operand above the limit of its position
            L = pass_over(F, p, N)
            if any(one_left(fs, st) is False for st in L.accs) and ended(fs, L):
                continue
            if not limit_broken(F, p, L, fs, N):
                return 'an expression can be refused although no limit is exceeded'
    return None if n else 'no path'


def limit_broken(F, p, L, fs, N):
    st = [ph for ph in L.accs if empty(deref(L.entries.get(ph, N)))]
    for f in fs:
        g = f.a[0] if f.op == 'not' else f
        if g.op not in ('lt', 'le') or not isinstance(g.a[0], T):
            continue
        lo, hi = (g.a[0], g.a[1]) if f.op != 'not' else (g.a[1], g.a[0])
        if (g.op == 'lt') != (f.op != 'not'):
            continue
        lim, got = bare(strip(deref(lo))), bare(strip(deref(hi)))
        if got.op != 'idx' or lim.op != 'vf' or lim.a[0].op != 'idx':
            continue
        k1, k2 = strip(deref(got.a[1])), strip(deref(lim.a[0].a[1]))
        if k1 is not k2:
            continue
        t = deref(lim.a[0].a[0])
        if not (t.op == 'vf' and is_call(t.a[0], 'get')):
            continue
        for s in st:
            D = Fold(F, N, L, s, p)
            D.inner = [x for x in p.items if isinstance(x, Loop)]
            if D.el is None or not oid_of(D, t.a[0].a[2]):
                continue
            if D.filled(deref(got.a[0])) is not None:
                return True
    return False


def lem_complexity(c, fn):
    F = c.ctx.flow(fn, ('compute_custom_complexity_checked', 'uses_default_complexity'))
    N = mk_arg(F, params(F, lambda t: 'PNode' in t)[0])
    O = mk_arg(F, params(F, lambda t: 'Options' in t)[0])
    seen = set()
    isd = lambda t: is_call(t, 'uses_default_complexity') and deref(t.a[1]) is O
    iscall = lambda t: is_call(t, 'compute_custom_complexity_checked') and deref(t.a[1]) is N and deref(t.a[2]) is O and last(deref(t.a[3]).a[0]) == 'None'
    for p in rets(F):
        if impossible(p.facts):
            continue
        fs = facts_of(p) + list(p.facts)
        r = strip(deref(rebuild(p.ret, p.env)))
        if (r.op == 'len' and deref(r.a[0]) is N) or is_call(r, 'len', 'count_nodes') and deref(r.a[1]) is N:
            if not any(isd(f) for f in fs):
                return 'the node count is used although weights are configured'
            seen.add('len')
        elif r.op == 'vf' and r.a[1] == 'Some' and iscall(r.a[0]) or is_call(r, 'unwrap_or', 'unwrap_or_default', 'unwrap', 'expect') and iscall(r.a[1]):
            seen.add('custom')
        elif constant(r) == 0 and any(f.op == 'is' and f.a[1] == 'None' and iscall(f.a[0]) for f in fs):
            pass
        else:
            return f'the complexity is {show(r)[:80]}'
    return None if 'custom' in seen else 'configured weights are never used'


def lem_default(c, fn):
    """the shortcut is taken only when every node weighs one"""
    F = c.ctx.flow(fn, ())
    O = mk_arg(F, 1)
    is_o = lambda t, n: is_fld(deref(t), n) and deref(deref(t).a[0]) is O

    def says(f):
        g = f
        if g.op == 'eq':
            for x, y in (g.a[:2], g.a[1::-1]):
                if isinstance(x, T) and isinstance(y, T) and constant(y) == 1:
                    for n in ('complexity_of_constants', 'complexity_of_variables'):
                        if is_o(strip(x), n):
                            return n
        if g.op == 'is' and g.a[1] == 'None' and is_o(g.a[0], 'variable_complexities') or is_call(g, 'is_none') and is_o(g.a[1], 'variable_complexities'):
            return 'variable_complexities'
        if is_call(g, 'is_empty') and is_o(g.a[1], 'operator_complexity_overrides'):
            return 'operator_complexity_overrides'
        if g.op == 'eq':
            for x, y in (g.a[:2], g.a[1::-1]):
                if isinstance(x, T) and isinstance(y, T) and constant(y) == 0 and (is_call(x, 'len') and is_o(x.a[1], 'operator_complexity_overrides') or x.op == 'len' and is_o(x.a[0], 'operator_complexity_overrides')):
                    return 'operator_complexity_overrides'
        return None
    need = {'complexity_of_constants', 'complexity_of_variables', 'variable_complexities', 'operator_complexity_overrides'}
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = deref(rebuild(p.ret, p.env))
        if r.op == 'const' and not r.a[0]:
            continue
        known = {says(f) for f in facts_of(p) + list(p.facts)}
        todo = [r]
        while todo:
            t = todo.pop()
            if t.op in ('and', 'BitAnd'):
                todo += [x for x in t.a if isinstance(x, T)]
            else:
                known.add(says(t))
        if need - known:
            return f'the node count stands in for the complexity although {sorted(need - known)[0]} may be set'
        n += 1
    return None if n else None


# ---------------------------------------------------------------- nesting
def lem_nestedness(c, fn):
    F = c.ctx.flow(fn, ())
    N = mk_arg(F, params(F, lambda t: 'PNode' in t)[0])
    G = mk_arg(F, params(F, lambda t: 'OpId' in t)[0])
    n = 0

    def leaf(D, k, v):
        want(f'the nesting at a {k} leaf', D.nf(v), {})

    def node(D, v):
        f = D.nf(v)
        if f.pop(MAX, 0) != 1:
            raise Bad('the nesting of an operator does not include the deepest operand')
        op = mk('vf', D.el, 'Op', 'op')
        pair = {'arity': (D.arity, mk_fld(G, 'arity')), 'id': (op, mk_fld(G, 'id'))}

        def eqn(t):
            """(component, polarity) of a comparison with the target"""
            if t.op == 'not':
                k, v = eqn(t.a[0])
                return k, not v
            if t.op in ('eq', 'ne') and isinstance(t.a[0], T) and isinstance(t.a[1], T):
                for k, (x, y) in pair.items():
                    a, b = strip(deref(t.a[0])), strip(deref(t.a[1]))
                    if {a, b} == {x, y(a) or y(b)} if False else (a is x and y(b) or b is x and y(a)):
                        return k, t.op == 'eq'
                for a, b in (t.a[:2], t.a[1::-1]):
                    if oid_of(D, a) and deref(b) is G:
                        return 'both', t.op == 'eq'
            return None, None
        have = {}
        for q in D.facts:
            k, v2 = eqn(q)
            for kk in (('arity', 'id') if k == 'both' and v2 else (k,)):
                if kk:
                    have[kk] = v2
        lits = [k for k in f if k != 1]
        for k in lits:
            if f[k] != 1 or len(lits) > 1 or 1 in f:
                raise Bad(f'the nesting of an operator adds {show(k)[:60]}')
            kk, v2 = eqn(deref(k))
            if kk is None or not v2:
                raise Bad(f'the nesting of an operator adds {show(k)[:60]}')
            rest = {'arity', 'id'} - ({'arity', 'id'} if kk == 'both' else {kk})
            if not all(have.get(x) is True for x in rest):
                raise Bad('another operator is counted as the nested one')
            return
        one = f.get(1, 0)
        if one == 1 and not (have.get('arity') and have.get('id')):
            raise Bad('another operator is counted as the nested one')
        if one == 0 and not any(v is False for v in have.values()):
            raise Bad('the nested operator itself is not counted')
        if one not in (0, 1):
            raise Bad(f'the nested operator counts {one} times')

    for p in rets(F):
        if impossible(p.facts):
            continue
        fs = facts_of(p) + list(p.facts)
        r = deref(rebuild(p.ret, p.env))
        if r.op == 'agg' and last(r.a[0]) == 'None':
            L = pass_over(F, p, N)
            ok = any(one_left(fs, st) is False for st in L.accs) and ended(fs, L) or any(
                f.op in ('lt',) and isinstance(f.a[0], T) and any(len_of(f.a[0], st) for st in L.accs)
                and strip(f.a[1]).op == 'vf' and strip(f.a[1]).a[2] == 'arity' for f in fs)
            ok = ok or any(f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'pop', 'checked_sub') for f in fs)
            if not ok:
                return 'a well-formed expression has no nesting counts'
            continue
        out = deref(r.a[2]) if r.op == 'agg' and last(r.a[0]) == 'Some' else r

        def other(D, up, v, st):
            u = deref(up.get(out, out))
            ok = u.op == 'upd' and last(u.a[0]) == 'push' and u.a[3] is out and deref(u.a[4]) is deref(v)
            if not ok and u.op == 'with' and u.a[0] is out and len(u.a[1]) == 1:
                (path, x), = u.a[1]
                ok = strip(path[0][1]).op == 'pos' and deref(x) is deref(v)
            if not ok:
                raise Bad('the count recorded for a node is not the one its parent uses')
        L, st = fold(F, p, N, leaf, node, other)
        if out not in L.accs or out is st:
            return 'the counts are not recorded node by node'
        if not ended(fs, L):
            return 'the pass over the nodes can stop early'
        n += 1
    return None if n else 'no path'


def mk_fld(base, n):
    return lambda t: t is not None and t.op == 'fld' and t.a[2] == n and deref(t.a[0]) is base


# ---------------------------------------------------------------- counting helpers
def lem_count(kind):
    def lem(c, fn):
        F = c.ctx.flow(fn, ())
        N = mk_arg(F, 1)
        n = 0
        for p in rets(F):
            if impossible(p.facts):
                continue
            r = strip(deref(rebuild(p.ret, p.env)))
            Ls = [L for L in loops_in(p) if r in (L.accs or ())]
            if r.op == 'const':
                return f'returns {show(r)}'
            if is_call(r, 'sum') and is_call(r.a[1], 'map') and over(r.a[1].a[1]) is N:
                w = picks(c, r.a[1].a[2], kind)
                if w:
                    return w
                n += 1
                continue
            if not Ls and is_call(r, 'count', 'len'):
                s = deref(r.a[1])
                Ls = [L for L in loops_in(p) if s in (L.accs or ())]
                if is_call(s, 'filter') and over(s.a[1]) is N:
                    w = picks(c, s.a[2], kind)
                    if w:
                        return w
                    n += 1
                    continue
                r = s
            if len(Ls) != 1:
                return f'counts as {show(r)[:80]}'
            L = Ls[0]
            if over(rebuild(L.src, p.env)) is not N or not ended(facts_of(p) + list(p.facts), L):
                return 'not every node is looked at'
            e = deref(L.entries[r])
            if not (constant(e) == 0 or empty(e)):
                return f'counting starts at {show(e)[:40]}'
            el = mk('elem', N, L.site)
            ks = {}
            for b in L.body:
                if impossible(b.facts):
                    continue
                k = {'Var', 'Const', 'Op'}
                for f in b.facts:
                    g, pos = (f.a[0], False) if f.op == 'not' else (f, True)
                    if g.op in ('is', 'isnt') and deref(g.a[0]) is el:
                        k = k & {g.a[1]} if (g.op == 'is') == pos else k - {g.a[1]}
                v = deref(values(F, L, b).get(r, r))
                d = 0 if v is r else 1 if v.op == 'upd' and last(v.a[0]) == 'push' and v.a[3] is r else plus(lin(v), {r: 1}, -1)
                d = d if isinstance(d, int) else d.get(1, 0) if set(d) <= {1} else None
                for x in k:
                    if ks.setdefault(x, d) != d:
                        return f'a {x} node is counted now and then'
            if ks != {x: int(x == kind) for x in ('Var', 'Const', 'Op')}:
                return f'counts {ks}'
            n += 1
        return None if n else 'no path'
    return lem


def picks(c, cl, kind):
    """the closure is true exactly for nodes of this kind"""
    f = c.p.fns.get(str(cl.a[0])[len('closure:'):]) if cl.op == 'agg' else None
    if f is None:
        return f'nodes are chosen by {show(cl)[:60]}'
    F = c.ctx.flow(f, ())
    A = mk_arg(F, 2)
    got = {}
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = strip(deref(rebuild(p.ret, p.env)))
        k = {'Var', 'Const', 'Op'}
        neg = False
        while r.op == 'not':
            r, neg = deref(r.a[0]), not neg
        for g in facts_of(p) + list(p.facts):
            g, pos = (g.a[0], False) if g.op == 'not' else (g, True)
            if g.op in ('is', 'isnt') and bare(deref(g.a[0])) is A:
                k = k & {g.a[1]} if (g.op == 'is') == pos else k - {g.a[1]}
        for x in k:
            if r.op == 'const':
                if r.a[0] not in (0, 1):
                    return f'a node counts {r.a[0]} times'
                v = bool(r.a[0])
            elif r.op in ('is', 'isnt') and bare(deref(r.a[0])) is A:
                v = (r.a[1] == x) == (r.op == 'is')
            else:
                return f'a node is chosen by {show(r)[:60]}'
            if got.setdefault(x, v != neg) != (v != neg):
                return f'a {x} node is counted now and then'
    return None if got == {x: x == kind for x in ('Var', 'Const', 'Op')} else f'counts {sorted(x for x in got if got[x])} nodes'


def lem_any(kind):
    def lem(c, fn):
        F = c.ctx.flow(fn, ())
        N = mk_arg(F, 1)
        seen = set()
        for p in rets(F):
            if impossible(p.facts):
                continue
            fs = facts_of(p) + list(p.facts)
            r = strip(deref(rebuild(p.ret, p.env)))
            if r.op in ('lt', 'ne') and constant(r.a[0]) == 0 and (is_call(r.a[1], 'count') and is_call(r.a[1].a[1], 'filter') and over(r.a[1].a[1].a[1]) is N):
                w = picks(c, r.a[1].a[1].a[2], kind)
                if w:
                    return w
                seen = {True, False}
                continue
            if r.op != 'const':
                return f'returns {show(r)[:60]}'
            is_k = lambda f: f.op == 'is' and f.a[1] == kind and deref(f.a[0]).op in ('elem', 'idx') and deref(deref(f.a[0]).a[0]) is N
            if r.a[0]:
                if not any(is_k(f) for f in fs):
                    return f'true without a {kind} node'
            else:
                Ls = [L for L in loops_in(p) if L.src is not None and over(rebuild(L.src, p.env)) is N]
                if not any(ended(fs, L) for L in Ls) and not any(f.op == 'is' and f.a[1] == 'None' and f.a[0].op == 'next' and over(f.a[0].a[0]) is N for f in fs):
                    return 'false before every node was looked at'
                for L in Ls:
                    for b in L.body:
                        if b.end == 'back' and not impossible(b.facts) and not any(
                                f.op == 'isnt' and f.a[1] == kind or f.op == 'is' and f.a[1] != kind and deref(f.a[0]).op in ('elem', 'idx') and f.a[1] in ('Var', 'Const', 'Op')
                                or f.op == 'not' and is_k(f.a[0]) for f in b.facts):
                            return f'a {kind} node can be passed over'
            seen.add(bool(r.a[0]))
        return None if seen == {True, False} else 'always the same answer'
    return lem


# ---------------------------------------------------------------- the nesting rule itself
def lem_rule(c, fn):
    """the count compared with the limit of a rule is the one of its own nested operator below (not at) this node"""
    F = c.ctx.flow(fn, ('nestedness_vec',))
    N = mk_arg(F, params(F, lambda t: 'PNode' in t)[0])
    n = 0
    made = []
    for p in rets(F):
        if impossible(p.facts):
            continue
        for L in all_inner(p):
            src = deref(rebuild(L.src, p.env)) if L.src is not None else None
            if src is None or over(src).op != 'vf' or not is_call(over(src).a[0], 'get'):
                continue
            g = over(src).a[0]
            oid = deref(g.a[2])
            if not (oid.op == 'agg' and last(oid.a[0]) == 'OpId'):
                continue
            ar, op = (deref(oid.a[2 + oid.a[1].index(x)]) for x in ('arity', 'id'))
            if not (ar.op == 'vf' and ar.a[2] == 'arity' and op.op == 'vf' and op.a[2] == 'op' and ar.a[0] is op.a[0]):
                return 'rules are looked up for another operator'
            node = ar.a[0]
            at = mk('pos', node.a[0], node.a[1]) if node.op == 'elem' else node.a[1]
            rule_ = mk('elem', over(src), L.site)
            key, lim = mk_tuple(rule_, 0), mk_tuple(rule_, 1)
            for b in L.body:
                if impossible(b.facts) or b.end != 'back':
                    continue
                fs = facts_of(b) + list(b.facts)
                same = None
                eqs = {}
                for f in fs:
                    h, pos = (f.a[0], False) if f.op == 'not' else (f, True)
                    if h.op in ('eq', 'ne') and isinstance(h.a[0], T):
                        pos = pos == (h.op == 'eq')
                        for x, y in (h.a[:2], h.a[1::-1]):
                            x, y = deref(x), deref(y)
                            if x is oid and key(y):
                                eqs['arity'] = eqs['id'] = pos
                                if not pos:
                                    eqs['id'] = None
                            for nm, z in (('arity', ar), ('id', op)):
                                if x is z and y.op == 'fld' and y.a[2] == nm and key(deref(y.a[0])):
                                    eqs[nm] = pos
                if eqs.get('arity') and eqs.get('id'):
                    same = True
                elif any(v is False for v in eqs.values()):
                    same = False
                cmp_ = [f for f in fs if f.op == 'le' and isinstance(f.a[1], T) and lim(bare(strip(deref(f.a[1])))) and deref(f.a[0]) is not None]
                if not cmp_:
                    return 'a rule is passed without comparing the count with its limit'
                good = False
                why = ''
                for f in cmp_:
                    v = strip(deref(f.a[0]))
                    off = 0
                    if v.op == 'Sub' and constant(v.a[1]) == 1:
                        v, off = strip(deref(v.a[0])), 1
                    elif is_call(v, 'saturating_sub') and constant(v.a[2]) == 1:
                        v, off = strip(deref(v.a[1])), 1
                    v = bare(v)
                    if constant(v) == 0:
                        # nothing recorded for this operator: excluded, because counts are made for the operator of every rule
                        good = True
                        continue
                    if v.op == 'vf' and v.a[1] == 'Some' and is_call(v.a[0], 'get'):
                        v = mk('idx', v.a[0].a[1], v.a[0].a[2])
                    if not (v.op == 'idx' and strip(deref(v.a[1])) is at):
                        why = f'the count compared is {show(v)[:80]}'
                        continue
                    src_ = deref(v.a[0])
                    if src_.op == 'vf' and src_.a[1] == 'Some':
                        src_ = src_.a[0]
                    if not (is_call(src_, 'get') and key(bare(deref(src_.a[2]))) or is_call(src_, 'nestedness_vec') and deref(src_.a[1]) is N and key(bare(deref(src_.a[2])))
                            or is_call(src_, 'index') and key(bare(deref(src_.a[2]))) or src_.op == 'idx' and key(bare(deref(src_.a[1])))):
                        why = 'the count of another operator is compared'
                        continue
                    zero = any(h.op in ('le', 'eq') and isinstance(h.a[0], T) and (bare(strip(deref(h.a[0]))) is bare(strip(deref(f.a[0]))) or True) and constant(h.a[1]) == 0 for h in fs if h.op in ('le', 'eq') and isinstance(h.a[1], T))
                    if off == 1 and same is not True:
                        why = 'one occurrence too few is counted for a different operator'
                        continue
                    if off == 0 and same is not False and not zero:
                        why = 'the node itself is counted as nested in itself'
                        continue
                    good = True
                if not good:
                    return why
                n += 1
        # counts are made for the operator of every rule
        for L in all_inner(p):
            for b in L.body:
                mine = [e for e, _, en in (it for it in b.items if not isinstance(it, Loop)) if e.k == 'call' and last(e.cn or '') == 'nestedness_vec']
                if mine and L not in made:
                    made.append(L)
    for L in made:
        for b in L.body:
            if b.end != 'back' or impossible(b.facts):
                continue
            if any(e.k == 'call' and last(e.cn or '') == 'nestedness_vec' for e, _, en in (it for it in b.items if not isinstance(it, Loop))):
                continue
            if not any(is_call(f, 'contains_key') or f.op == 'is' and f.a[1] in ('Occupied', 'Some') and is_call(f.a[0], 'entry', 'get') for f in facts_of(b)):
                return 'no counts are made for the operator of a rule'
    return None if n else 'no nesting rule is applied'


def all_inner(p):
    out = []
    todo = [x for x in p.items if isinstance(x, Loop)]
    while todo:
        L = todo.pop()
        out.append(L)
        todo += [x for b in L.body for x in b.items if isinstance(x, Loop)]
    return out


def mk_tuple(base, k):
    return lambda t: isinstance(t, T) and t.op == 'fld' and str(t.a[2]) == str(k) and deref(t.a[0]) is base


@rule('P38',
      'Each measure is a pass over the nodes in postfix order with a stack of results. Every round of the pass is enumerated from MIR (path by path): a leaf pushes its value, an operator '
      'takes exactly its arity off the stack and pushes a value that must equal, as a linear form over the sum or the maximum of its operands, the definition of the measure (depth: one plus the '
      'maximum; nesting: the maximum plus one exactly for the target operator; complexity: the configured weight plus the sum, with every weight taken from the table entry of that very node). '
      'The shortcut that uses the node count requires facts that all weights are one. The nesting rule compares the count of its own operator at this node, less the node itself.',
      ['expressions are well formed (decided by P34): no operator has more operands than the stack holds', 'sums saturate instead of overflowing'])
def p38(c):
    L = [('count_depth', lem_depth, 'node_utils'), ('compute_custom_complexity_checked', lem_custom, 'complexity'), ('compute_complexity', lem_complexity, 'complexity'),
         ('Options::uses_default_complexity', lem_default, ''), ('check_nested_constraints::nestedness_vec', lem_nestedness, ''), ('check_nested_constraints', lem_rule, ''),
         ('count_constant_nodes', lem_count('Const'), 'node_utils'), ('count_variable_nodes', lem_count('Var'), 'node_utils'), ('count_operator_nodes', lem_count('Op'), 'node_utils'),
         ('has_constants', lem_any('Const'), 'node_utils'), ('has_variables', lem_any('Var'), 'node_utils'), ('has_operators', lem_any('Op'), 'node_utils')]
    for n, lem, mod in L:
        fs = [f for f in c.p.fns.values() if (f['n'].endswith('::' + n)) and (not mod or f'::{mod}::' in f['n']) and '{closure' not in f['n']]
        if len(fs) != 1 and '::' in n:
            fs = [c.p.fn(n)]
        c.need(len(fs) == 1, f'{n} not found')
        msg = run(lem, c, fs[0])
        c.ob(f'P38.{n}', msg is None, fs[0]['n'], str(msg))
