"""P19: choosing operators by name."""
from sa.core import *
from sa.rulelib import *
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, empty, rets, run
from rules.simplify import last, accs_of, impossible, ended, deref, pushed
from rules.choice import loops_in, num, plain
from rules.optable import generic_args
from rules.browser import apply


class Abs(Exception):
    pass


def built(F, p, v, base=None):
    """how a vector is filled: [('push', x) | ('loop', L, [(facts, items)])]"""
    v = deref(v)
    if v is base:
        return []
    if base is None and empty(v):
        return []
    b, x = pushed(v)
    if b is not None:
        return built(F, p, b, base) + [('push', deref(x))]
    if v.op == 'phi':
        for L in loops_in(p):
            if v in (L.accs or ()) and v in L.entries:
                if not ended(p.facts, L):
                    raise Bad('a loop that fills a list can stop early')
                alts = []
                for q in L.body:
                    if impossible(q.facts):
                        continue
                    if q.end != 'back':
                        continue
                    alts.append(([rebuild(f, q.env) for f in q.facts], built(F, q, accs_of(F, L, q).get(v, v), v)))
                return built(F, p, L.entries[v], base) + [('loop', L, alts)]
    raise Bad(f'a list is {show(v)[:80]}')


def source(L):
    return plain(deref(L.src))


def matched(f, op, tok):
    """fact about matches_token(op, tok)"""
    g = f.a[0] if f.op == 'not' else f
    if not is_call(g, 'matches_token'):
        return None
    o = deref(g.a[1])
    if o is not op and not (o.op == 'agg' and op.op == 'agg' and o.a[2:] == op.a[2:]) or deref(g.a[2]) is not tok:
        return None
    return f.op != 'not'


def check_matches(F, p, items, tok, arity):
    """items list exactly the operators that match (of one arity, or of all)"""
    def inner(its, ar):
        if len(its) != 1 or its[0][0] != 'loop':
            raise Bad('the matching operators are not collected in one pass')
        _, L, alts = its[0]
        s = source(L)
        if not (is_call(s, 'ops_with_arity') and deref(s.a[1]) is ar):
            return f'the candidates are {show(s)[:80]}'
        el = mk('elem', L.src, L.site)
        for fs, its in alts:
            op = None
            for f in fs:
                g = f.a[0] if f.op == 'not' else f
                if is_call(g, 'matches_token'):
                    op = deref(g.a[1])
            if op is None:
                return 'an operator is taken or left without being compared'
            if not (op.op == 'agg' and last(op.a[0]) == 'OpId'):
                raise Bad(f'{show(op)[:80]} is compared')
            d = dict(zip(op.a[1], op.a[2:]))
            if deref(d['arity']) is not ar or not (deref(d['id']).op == 'elem' and deref(d['id']).a[1] == L.site):
                return f'{show(op)[:80]} is compared for each candidate'
            ms = {matched(f, op, tok) for f in fs} - {None}
            if ms == {True}:
                if [i[0] for i in its] != ['push'] or its[0][1].op != 'agg' or its[0][1].a[2:] != op.a[2:]:
                    return 'a matching operator is not kept as it is'
            elif ms == {False}:
                if its:
                    return 'an operator that does not match is kept'
            else:
                return 'the comparison is with another token'
        if not any(i for _, i in alts):
            return 'no operator is ever kept'
        return None
    if arity is not None:
        return inner(items, arity)
    if len(items) != 1 or items[0][0] != 'loop':
        raise Bad('the matching operators are not collected in one pass')
    _, L, alts = items[0]
    s = source(L)
    lo = hi = None
    if is_call(s, 'new') and 'RangeInclusive' in s.a[0]:
        lo, hi = s.a[1], s.a[2]
    elif s.op == 'agg' and last(s.a[0]) == 'RangeInclusive':
        lo, hi = s.a[2], s.a[3]
    if lo is None or constant(lo) != 1 or not (hi.op == 'const' and 'MAX_ARITY' in str(hi.a[0])):
        return f'the arities searched are {show(s)[:80]}'
    for fs, its in alts:
        e = next((t for i in its if i[0] == 'loop' for t in [deref(source(i[1]).a[1])] if t.op == 'elem' and t.a[1] == L.site), None)
        if e is None:
            return 'an arity is left out'
        m = inner(its, e)
        if m:
            return m
    return None


def length_fact(fs, v):
    """what the facts say about len(v): '0', '1', '>1'"""
    ok = {0, 1, 2}
    for f in fs:
        neg = f.op == 'not'
        g = f.a[0] if neg else f
        if g.op in ('eq', 'ne', 'lt', 'le') and len(g.a) >= 2:
            a, b = deref(g.a[0]), deref(g.a[1])
            la, lb = islen(a, v), islen(b, v)
            if la == lb:
                continue
            k = constant(b if la else a)
            if k is None:
                continue
            op = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y}[g.op]
            ok = {n for n in ok if (op(n, k) if la else op(k, n)) != neg}
        elif is_call(g, 'is_empty') and plain(deref(g.a[1])) is v:
            ok = {n for n in ok if (n == 0) != neg}
    return ok


def islen(t, v):
    return t.op == 'len' and plain(deref(t.a[0])) is v or is_call(t, 'len') and plain(deref(t.a[1])) is v


def first_of(t, v):
    t = deref(t)
    while t.op == 'vf' and t.a[1] == 'Some' or is_call(t, 'unwrap', 'expect', 'clone', 'copied'):
        t = deref(t.a[0] if t.op == 'vf' else t.a[1])
    if t.op == 'idx' and plain(deref(t.a[0])) is v:
        return constant(t.a[1]) == 0
    return is_call(t, 'first', 'pop', 'last') and plain(deref(t.a[1])) is v or is_call(t, 'swap_remove', 'remove') and plain(deref(t.a[1])) is v and constant(t.a[2]) == 0


def lem_lookup(c, fn):
    F = c.ctx.flow(fn, ('matches_token', 'OperatorSet::name'))
    tok = mk_arg(F, 1)
    ar = mk_arg(F, 2) if F.f.argc > 1 else None
    seen = set()
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        r = rebuild(p.ret, p.env)
        # the list of matches: the one vector whose length the path tests
        vs = {plain(deref(x.a[0] if x.op == 'len' else x.a[1])) for f in fs for g in [f.a[0] if f.op == 'not' else f] for x in g.a
              if isinstance(x, T) and (x.op == 'len' or is_call(x, 'len'))} | {plain(deref(g.a[1])) for f in fs for g in [f.a[0] if f.op == 'not' else f] if is_call(g, 'is_empty')}
        if len(vs) != 1:
            raise Bad('the number of matches is not tested')
        v = vs.pop()
        m = check_matches(F, p, built(F, p, v), tok, ar)
        if m:
            return m
        ns = length_fact(fs, v)
        if r.op == 'agg' and last(r.a[0]) == 'Ok':
            if ns != {1}:
                return 'an operator is returned without being the only match'
            if not first_of(r.a[2], v):
                return f'{show(r.a[2])[:60]} is returned'
            seen.add('Ok')
        elif r.op == 'agg' and last(r.a[0]) == 'Err':
            k = last(deref(r.a[2]).a[0])
            want = {'Unknown': {0}, 'Ambiguous': {2}}.get(k)
            if want is None:
                return f'{k} is returned'
            if ns != want:
                return f'{k} is returned for {sorted(ns)} matches'
            seen.add(k)
        else:
            raise Bad(f'returns {show(r)[:60]}')
    if seen != {'Ok', 'Unknown', 'Ambiguous'}:
        return f'only {sorted(seen)} is ever returned'
    return None


def lem_match(c, fn):
    F = c.ctx.flow(fn, ())
    op, tok = mk_arg(F, 1), mk_arg(F, 2)

    def of(t):
        """name, display or infix of the operator"""
        t = deref(t)
        if t.op == 'vf' and t.a[1] == 'Some':
            t = deref(t.a[0])
        while t.op == 'fld' and t.a[0].op == 'vf' and t.a[2] == '0':
            t = deref(t.a[0].a[0])
        if t.op == 'fld' and t.a[2] in ('name', 'display', 'infix') and mentions(t, lambda x: is_call(x, 'meta') and deref(x.a[1]) is op):
            return t.a[2]
        if is_call(t, 'name', 'display', 'infix') and deref(t.a[1]) is op:
            return last(t.a[0])
        return None

    def trimmed(t):
        t = deref(t)
        return is_call(t, 'trim') and deref(t.a[1]) is tok

    def atom(f):
        if is_call(f, 'eq_ignore_ascii_case'):
            k = of(f.a[2]) if trimmed(f.a[1]) else of(f.a[1]) if trimmed(f.a[2]) else None
            return k and (k, 'ci')
        if f.op == 'eq' or is_call(f, 'eq'):
            a, b = (f.a[0], f.a[1]) if f.op == 'eq' else (f.a[1], f.a[2])
            a, b = (deref(x) for x in (a, b))
            for x, y in ((a, b), (b, a)):
                if y.op == 'agg' and last(y.a[0]) == 'Some' and trimmed(y.a[2]) and of_option(x, op):
                    return ('infix', 'cs')
            k = of(b) if trimmed(a) else of(a) if trimmed(b) else None
            return k and (k, 'cs')
        if is_call(f, 'matches_token') or f.op == 'const':
            return None
        return None
    want = {('name', 'ci'), ('display', 'cs'), ('infix', 'cs')}
    n = 0
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        # every listed operator has its metadata (rule P33)
        if any(f.op == 'is' and f.a[1] == 'None' and is_call(f.a[0], 'meta') for f in fs):
            continue
        r = rebuild(p.ret, p.env)
        val = {}
        for f in fs:
            g, pos = (f.a[0], False) if f.op == 'not' else (f, True)
            if g.op == 'ne':
                g, pos = mk('eq', *g.a), not pos
            k = atom(g)
            if k:
                if k not in want:
                    return f'{k[0]} is compared ' + ('ignoring case' if k[1] == 'ci' else 'exactly')
                val[k] = pos
            if f.op in ('is', 'isnt') and of_option(f.a[0], op) == 'infix' and (f.a[1] == 'None') == (f.op == 'is'):
                val[('infix', 'cs')] = False
        k = constant(r)
        if k is None and isinstance(r, T):
            g, pos = (r.a[0], False) if r.op == 'not' else (r, True)
            if g.op == 'ne':
                g, pos = mk('eq', *g.a), not pos
            a = atom(g)
            if a is None or a not in want or not pos:
                return f'the result is {show(r)[:80]}'
            rest = want - {a}
            if any(val.get(x) is not False for x in rest):
                return f'a match of {sorted(x[0] for x in rest if val.get(x) is not False)} can be missed'
        elif k:
            if not any(val.values()):
                return 'a token matches without being equal to the name, display name or symbol'
        else:
            miss = [x[0] for x in want if val.get(x) is not False]
            if miss:
                return f'a match of {miss[0]} can be missed'
        n += 1
    if not n:
        raise Bad('no path')
    return None


def of_option(t, op):
    t = deref(t)
    if t.op == 'fld' and t.a[2] == 'infix':
        return 'infix'
    if is_call(t, 'infix') and deref(t.a[1]) is op:
        return 'infix'
    return None


def every_call(items, env_facts=()):
    for it in items:
        if isinstance(it, tuple) and it[0].k == 'call':
            yield it


OPQ = ('OperatorSet::lookup', 'OperatorSet::lookup_with_arity', 'Operators::push')


def listed(L, p, F):
    """the argument the loop runs over with the arity it stands for: [(arity term or number, arg term)]"""
    s = source(L)
    return s


def lem_select(c, fn, by_arity):
    F = c.ctx.flow(fn, OPQ)
    args = [mk_arg(F, k) for k in range(1, F.f.argc + 1)]
    look = 'lookup_with_arity' if by_arity else 'lookup'
    ok = 0

    def name_loops(items, outer=()):
        """innermost loops in which tokens are looked up, with the loops around them"""
        for x in items:
            if isinstance(x, Loop) and x.site is not None:
                direct = any(is_call_ev(e, look) for q in x.body for e in q.items if isinstance(e, tuple))
                if direct:
                    yield x, outer
                for q in x.body:
                    yield from name_loops(q.items, outer + ((x, q),))

    def is_call_ev(it, nm):
        return it[0].k == 'call' and last(it[0].cn or '') == nm

    def loop_ok(L):
        """every token of the loop is looked up and kept once, or the selection is refused"""
        ar = None
        for q in L.body:
            if impossible(q.facts):
                continue
            fs = [rebuild(f, q.env) for f in q.facts]
            if q.end not in ('back', 'ret') and q.end is not None and q.end != 'exit':
                pass
            ls = [(e, x, env) for e, x, env in (it for it in q.items if isinstance(it, tuple)) if e.k == 'call' and last(e.cn or '') == look]
            ps = [(e, x, env) for e, x, env in (it for it in q.items if isinstance(it, tuple)) if e.k == 'call' and last(e.cn or '') == 'push' and 'Operators' in (e.cn or '')]
            if q.end != 'back':
                continue
            if len(ls) != 1:
                raise Bad('a token is not looked up exactly once')
            e, x, env = ls[0]
            t = deref(rebuild(e.args[0], env))
            if not (t.op == 'elem' and t.a[1] == L.site):
                return f'{show(t)[:60]} is looked up', None
            a = deref(rebuild(e.args[1], env)) if by_arity else None
            if ar is not None and a is not ar:
                return 'tokens of one list are looked up under different arities', None
            ar = a
            if len(ps) != 1:
                return 'a token can be passed over or stored twice', None
            e2, x2, env2 = ps[0]
            v = deref(rebuild(e2.args[1], env2))
            if not okvalue(v, look):
                return f'{show(v)[:80]} is stored', None
            ins = [f for f in fs if is_call(f, 'insert') or f.op == 'not' and is_call(f.a[0], 'contains')]
            if not any(fresh(f, v) for f in ins):
                return 'the same operator can be stored twice', None
        return None, ar
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        r = rebuild(p.ret, p.env)
        if r.op == 'agg' and last(r.a[0]) == 'Err' or is_call(r, 'from_residual'):
            m = refusal(F, p, fs, args, look)
            if m:
                return m
            continue
        if not (r.op == 'agg' and last(r.a[0]) == 'Ok'):
            raise Bad(f'returns {show(r)[:60]}')
        if empties(fs, args, none=False) or not any(f.op == 'ne' and any(constant(x) == 0 for x in f.a[:2]) or f.op == 'not' and (is_call(f.a[0], 'is_empty') or f.a[0].op == 'eq') or
                                                    f.op == 'lt' and constant(f.a[0]) == 0 for f in fs):
            return 'an empty selection is accepted'
        got = []
        for L, outer in name_loops(p.items):
            m, ar = loop_ok(L)
            if m:
                return m
            s = source(L)
            if outer:
                if len(outer) != 1:
                    raise Bad('lists of lists of lists')
                O, q = outer[0]
                if not ended(q.facts, L):
                    continue
                if not ended(p.facts, O):
                    return 'a list of names is left out'
                tab = deref(O.src)
                tab = plain(tab)
                if tab.op != 'agg' or tab.a[0] != 'array':
                    raise Bad(f'the lists are {show(tab)[:60]}')
                for x in tab.a[1:]:
                    if isinstance(x, T):
                        sub = lambda t: project(t, O.site, x)
                        got.append((constant(sub(ar)) if ar is not None else None, plain(deref(sub(s)))))
                if any(b.end == 'back' and not any(isinstance(i, Loop) and i.site == L.site for i in b.items) for b in O.body if not impossible(b.facts)):
                    return 'a list of names can be passed over'
            else:
                if not ended(p.facts, L):
                    return 'a list of names is left before its end'
                got.append((constant(ar) if ar is not None else None, s))
        got = [g for i, g in enumerate(got) if g not in got[:i]]
        want = [(k + 1 if by_arity else None, a) for k, a in enumerate(args)]
        miss = [w for w in want if w not in got and not empties(fs, [w[1]], none=False)]
        if miss or [g for g in got if g not in want]:
            return f'names are read as {[(a, show(b)[:30]) for a, b in got]}'
        if not stores(F, p, r, args):
            return 'something else than the stored operators is returned'
        ok += 1
    if not ok:
        raise Bad('never accepts')
    return None


def stores(F, p, r, args):
    return True


def project(t, site, x):
    """t with the element of the outer loop replaced by table entry x"""
    if t is None:
        return None
    t = deref(t)
    if t.op == 'elem' and t.a[1] == site:
        return x
    if t.op == 'fld':
        b = project(t.a[0], site, x)
        if b.op == 'agg' and t.a[2] in (b.a[1] or ()):
            return b.a[2 + b.a[1].index(t.a[2])]
        if b.op == 'agg' and str(t.a[2]).isdigit():
            return [y for y in b.a[1:] if isinstance(y, T)][int(t.a[2])]
    return t


def okvalue(v, look):
    v = deref(v)
    while v.op == 'fld' and v.a[2] == '0':
        v = deref(v.a[0])
    if v.op == 'vf' and v.a[1] in ('Ok', 'Continue'):
        v = deref(v.a[0])
    while is_call(v, 'map_err', 'branch'):
        v = deref(v.a[1])
    return is_call(v, look)


def fresh(f, v):
    """the fact says v was not seen before"""
    g = f.a[0] if f.op == 'not' else f
    key = deref(g.a[2])
    vs = [deref(x) for x in key.a if isinstance(x, T)] if key.op == 'agg' else [key]
    if any(x is v for x in vs):
        return True
    fl = {x.a[2] for x in vs if x.op == 'fld' and deref(x.a[0]) is v}
    return {'arity', 'id'} <= fl


def empties(fs, args, none):
    """the facts say all of these lists are empty"""
    def one(a):
        return any(f.op == 'eq' and {constant(f.a[0]), constant(f.a[1])} & {0} and any(islen(deref(x), a) for x in f.a[:2] if isinstance(x, T)) or
                   is_call(f, 'is_empty') and plain(deref(f.a[1])) is a for f in fs)
    return all(one(a) for a in args)


def refusal(F, p, fs, args, look):
    if empties(fs, args, none=True):
        return None
    for f in fs:
        g, neg = (f.a[0], True) if f.op == 'not' else (f, False)
        if f.op in ('is', 'isnt') and (f.a[1] in ('Err', 'Break')) == (f.op == 'is') and f.a[1] in ('Err', 'Break', 'Ok', 'Continue') and any(is_call(x, look) for x in under(f.a[0])):
            return None
        if neg and is_call(g, 'insert') or not neg and is_call(g, 'contains') and 'Range' not in show(g.a[1])[:12]:
            if fresh_key(g, look):
                return None
        if not neg and f.op in ('lt',) and isD(f.a[0]) and arity_of(f.a[1], look) or neg and g.op == 'le' and arity_of(g.a[0], look) and isD(g.a[1]):
            return None
        if (f.op == 'ne' or neg and g.op == 'eq') and any(arity_of(x, look) for x in g.a[:2]) and any(second_of(x, y, look) for x, y in ((g.a[0], g.a[1]), (g.a[1], g.a[0]))):
            return None
    return 'a usable selection can be refused'


def under(t):
    st = [t]
    while st:
        x = deref(st.pop())
        yield x
        st.extend(y for y in x.a if isinstance(y, T))


def isD(t):
    t = deref(t)
    while t.op == 'cast':
        t = t.a[0]
    return t.op == 'const' and str(t.a[0]) == 'D' or show(t) == 'D'


def arity_of(t, look):
    t = deref(t)
    while t.op == 'cast':
        t = deref(t.a[0])
    return t.op == 'fld' and t.a[2] == 'arity' and okvalue(t.a[0], look)


def second_of(x, y, look):
    """y is the arity the operator in x was looked up with"""
    return arity_of(x, look) and any(is_call(z, look) and len(z.a) > 2 and deref(z.a[2]) is deref(y) for z in under(x))


def fresh_key(g, look):
    key = deref(g.a[2])
    vs = [deref(x) for x in key.a if isinstance(x, T)] if key.op == 'agg' else [key]
    if any(okvalue(x, look) for x in vs):
        return True
    return {'arity', 'id'} <= {x.a[2] for x in vs if x.op == 'fld' and okvalue(x.a[0], look)}


def lem_push(c, fn):
    F = c.ctx.flow(fn, ())
    S, OP = mk_arg(F, 1), mk_arg(F, 2)
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        ps = [(e, env) for e, x, env in (it for it in p.items if isinstance(it, tuple)) if e.k == 'call' and last(e.cn or '') in ('push', 'insert', 'extend', 'retain', 'clear', 'dedup')]
        if len(ps) != 1 or last(ps[0][0].cn) != 'push':
            return 'an operator is not stored exactly once'
        e, env = ps[0]
        v, t = deref(rebuild(e.args[1], env)), deref(rebuild(e.args[0], env))
        if v is not OP and not (v.op == 'agg' and all(deref(x).op == 'fld' and deref(deref(x).a[0]) is OP for x in v.a[2:])):
            return f'{show(v)[:60]} is stored'
        if not slot(t, S, lambda x: x.op == 'fld' and x.a[2] == 'arity' and deref(x.a[0]) is OP):
            return f'an operator is stored in {show(t)[:80]}'
        n += 1
    return None if n else 'nothing is ever stored'


def slot(t, S, isar):
    """t is ops_by_arity[arity - 1]"""
    t = deref(t)
    while t.op == 'vf' and t.a[1] == 'Some' or is_call(t, 'index_mut', 'index') and len(t.a) == 2:
        t = deref(t.a[0] if t.op == 'vf' else t.a[1])
    if t.op == 'idx':
        b, i = deref(t.a[0]), deref(t.a[1])
    elif is_call(t, 'get', 'get_mut', 'index', 'index_mut') and len(t.a) > 2:
        b, i = deref(t.a[1]), deref(t.a[2])
    else:
        return False
    if not (b.op == 'fld' and b.a[2] == 'ops_by_arity' and deref(b.a[0]) is S):
        return False
    if i.op == 'Sub' and constant(i.a[1]) == 1 or is_call(i, 'wrapping_sub', 'saturating_sub') and constant(i.a[2]) == 1:
        a = deref(i.a[0] if i.op == 'Sub' else i.a[1])
        while a.op == 'cast':
            a = deref(a.a[0])
        return isar(a)
    return False


def lem_nops(c, fn):
    F = c.ctx.flow(fn, ())
    S, A = mk_arg(F, 1), mk_arg(F, 2)
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = deref(rebuild(p.ret, p.env))
        t = r.a[0] if r.op == 'len' else r.a[1] if is_call(r, 'len') else None
        if t is None or not slot(plain(deref(t)), S, lambda x: x is A):
            return f'the number of operators is {show(r)[:80]}'
    return None


BASIC = {'Add', 'Sub', 'Mul', 'Div'}


def tags(F, p, what):
    """operators pushed on this path by their marker types, in order"""
    out = []

    def tag(t, env):
        t = deref(t)
        if is_call(t, 'op_id') and len(t.a) > 1 and t.a[1].op == 'const':
            return tail(str(t.a[1].a[0]).split(','))
        return None

    def tail(g):
        g = [x.split('::')[-1] for x in g if x.split('::')[-1] not in ('Ops', 'Self')]
        return g[-1:] or [None]

    def keeps(e):
        return e.k == 'call' and last(e.cn or '') == 'push' and 'Operators' in (e.cn or '')

    def adds(e):
        """a builder call that adds the operator of its type argument"""
        return e.k == 'call' and 'OperatorsBuilder' in (e.cn or '') and last(e.cn) in ('unary', 'binary', 'push_op', 'nary')

    def go(items):
        for it in items:
            if isinstance(it, Loop):
                bs = [b for b in it.body if not impossible(b.facts) and b.end == 'back']
                src = plain(deref(it.src)) if it.src is not None else None
                for b in bs:
                    for e, x, env in (i for i in b.items if isinstance(i, tuple)):
                        if e.k == 'call' and last(e.cn or '') == 'push' and 'Operators' in (e.cn or ''):
                            v = deref(rebuild(e.args[1], env))
                            if len(bs) != 1 or not (v.op == 'elem' and v.a[1] == it.site) or src.op != 'agg' or src.a[0] != 'array' or not ended(p.facts, it):
                                raise Bad('operators are stored in an unknown way')
                            for y in src.a[1:]:
                                if isinstance(y, T):
                                    out.append(tag(y, env))
                continue
            e, x, env = it
            if keeps(e):
                out.append(tag(rebuild(e.args[1], env), env))
            elif adds(e):
                out.append(tail(generic_args(e)))
    go(p.items)
    if any(t is None or t[0] is None for t in out):
        raise Bad(f'an unknown operator is stored {out}')
    return [t[0] for t in out]


def lem_basic(c, fn):
    F = c.ctx.flow(fn, ('op_id', 'Operators::push', 'OperatorsBuilder::unary', 'OperatorsBuilder::binary', 'OperatorsBuilder::push_op'))
    n = 0
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        small = any(f.op == 'lt' and isD(f.a[0]) and constant(f.a[1]) == 2 for f in fs) or any(f.op == 'le' and isD(f.a[0]) and constant(f.a[1]) == 1 for f in fs)
        ts = tags(F, p, None)
        if small and not ts:
            continue
        if sorted(ts) != sorted(BASIC):
            return f'the default operators are {ts}'
        n += 1
    return None if n else 'no default operators'


def lem_one(c, fn, arity):
    F = c.ctx.flow(fn, ('op_id', 'Operators::push'))
    for p in rets(F):
        fs = [rebuild(f, p.env) for f in p.facts]
        if impossible(fs):
            continue
        ts = tags(F, p, None)
        if len(ts) != 1 or ts[0] not in ('Op', 'Tag'):
            return f'{ts} is stored'
        if arity is not None and not any(f.op == 'eq' and any(constant(x) == arity for x in f.a[:2]) and
                                         any(isinstance(x, T) and (y := deref(x)).op == 'fld' and y.a[2] == 'arity' and is_call(deref(y.a[0]), 'op_id') for x in f.a[:2]) for f in fs):
            return f'operators of another arity than {arity} are accepted'
    return None


@rule('P19', 'lookup and selection functions read path by path over MIR: how the list of matches is filled (loop summaries), the number of matches every result needs, every way to refuse, and '
      'the marker types of the default operators', [
    'every listed operator has its metadata (rule P33)', 'HashSet::insert is false exactly for a key already there'])
def p19(c):
    def one(suf):
        fs = [f for k, f in c.p.fns.items() if k.endswith(suf)]
        c.need(len(fs) == 1, f'{suf}: {len(fs)} functions')
        return fs[0]
    todo = [('match', 'traits::OperatorSet::matches_token', lem_match, ()),
            ('lookup', 'traits::OperatorSet::lookup', lem_lookup, ()),
            ('lookup by arity', 'traits::OperatorSet::lookup_with_arity', lem_lookup, ())]
    for key, suf, lem, a in todo:
        f = one(suf)
        m = run(lem, c, f, *a)
        c.ob(key, m is None, f['id'], m)
    for key, suf, lem, a in (('names', 'Operators::from_names', lem_select, (False,)), ('names by arity', 'Operators::from_names_by_arity', lem_select, (True,)),
                             ('store', 'Operators::push', lem_push, ()), ('count', 'Operators::nops', lem_nops, ()),
                             ('default', 'OperatorLibrary::sr_default', lem_basic, ()), ('default binary', 'OperatorsBuilder::sr_default_binary', lem_basic, ()),
                             ('unary', 'OperatorsBuilder::unary', lem_one, (1,)), ('binary', 'OperatorsBuilder::binary', lem_one, (2,))):
        f = c.p.fn(suf)
        m = run(lem, c, f, *a)
        c.ob(key, m is None, f['id'], m)
