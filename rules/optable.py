"""Operator sets: dispatch tables, metadata, selection by name, expression builders."""
import re
from sa.core import *
from sa.rulelib import *
from sa import fold
from sa.algebra import Unknown
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T
from rules import rule
from rules.calculus import constant, string, truth, strip
from rules.engine import mk_arg


def last(n):
    return (n or '').split('::')[-1]


def snake(n):
    return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', n).lower()


def norm_op(s):
    """operator type name without generics or path"""
    return strip_generics(s).split('::')[-1]


def intval(t, leaf):
    """integer value of a term where leaf gives the values of inputs"""
    t = strip(t)
    v = leaf(t)
    if v is not None:
        return v
    if t.op == 'const':
        try:
            return int(str(t.a[0]))
        except ValueError:
            return None
    if t.op == 'cast':
        return intval(t.a[0], leaf)
    if t.op in ('Add', 'Sub', 'Mul', 'bin') or (t.op == 'call' and last(t.a[0]) in ('from', 'into') and len(t.a) == 2):
        if t.op == 'call':
            return intval(t.a[1], leaf)
        o, a, b = (t.a[0], t.a[1], t.a[2]) if t.op == 'bin' else (t.op, t.a[0], t.a[1])
        a, b = intval(a, leaf), intval(b, leaf)
        if a is None or b is None:
            return None
        return {'Add': a + b, 'Sub': a - b, 'Mul': a * b}.get(o)
    return None


def decider(leaf):
    def decide(f, facts):
        if f.op == 'not':
            r = decide(f.a[0], facts)
            return None if r is None else not r
        if f.op in ('lt', 'le', 'eq', 'ne') and len(f.a) >= 2:
            a, b = intval(f.a[0], leaf), intval(f.a[1], leaf)
            if a is None or b is None:
                return None
            return {'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[f.op]
        if f.op == 'const':
            return str(f.a[0]) in ('1', 'true', 'True')
        return None
    return decide


def generic_args(e):
    f = e.d['t']['f'] if 't' in e.d else {}
    return f.get('ga', [])


class OpSet:
    def __init__(self, c, im):
        self.c, self.im = c, im
        self.name = im['self'].split('::')[-1]
        self.items = {i.split('::')[-1]: c.p.fns[i] for i in im['items'] if i in c.p.fns}
        self.where = f'{im["s"][0]}:{im["s"][1]}'

    def leaf(self, F, ar, i):
        """values of op.arity and op.id of the first parameter"""
        a1 = mk_arg(F, 1)

        def leaf(t):
            if t.op == 'fld' and strip(t.a[0]) is a1:
                return {'arity': ar, 'id': i}.get(str(t.a[2]))
            if is_call(t, 'len') and len(t.a) >= 2 and self.table(t.a[1]) is not None:
                return len(self.table(t.a[1]))
            return None
        return leaf

    def table(self, t):
        """elements of a constant array"""
        t = strip(t)
        if t.op == 'cast':
            return self.table(t.a[0])
        if t.op == 'agg' and t.a[0] == 'array':
            return [x for x in t.a[1:] if isinstance(x, T)]
        if t.op == 'const' and len(t.a) > 1 and t.a[1] == 'def':
            n = str(t.a[0])
            n, k = (n[:n.rindex('#')], n[n.rindex('#'):]) if '#' in n else (n, '')
            fs = [f for f in self.c.p.fns.values() if f['n'] == n and f['id'].endswith(n.split('::')[-1] + k)]
            if len(fs) != 1:
                return None
            rs = {v for _, v in self.c.ctx.flow(fs[0], ()).returns()}
            return self.table(rs.pop()) if len(rs) == 1 else None
        return None

    def paths(self, meth, opaque, ar, i):
        F = self.c.ctx.flow(self.items[meth], opaque)
        return F, [p for p in Walk(F, decider(self.leaf(F, ar, i))).paths() if p.end == 'ret']

    def listed(self, ar):
        F = self.c.ctx.flow(self.items['ops_with_arity'], ())
        a1 = mk_arg(F, 1)
        ps = [p for p in Walk(F, decider(lambda t: ar if t is a1 else None)).paths() if p.end == 'ret']
        self.c.need(len(ps) == 1, f'{self.name}: the operators listed for arity {ar} are not decided')
        tb = self.table(rebuild(ps[0].ret, ps[0].env))
        self.c.need(tb is not None, f'{self.name}: the operators listed for arity {ar} are not a constant table')
        ids = [intval(x, lambda t: None) for x in tb]
        self.c.need(all(x is not None for x in ids), f'{self.name}: ids of arity {ar} are not constants')
        return ids

    def kernel(self, meth, opaque, ar, i):
        """(operator, [argument terms], flow) that dispatch runs for an id; None when it cannot return"""
        F, ps = self.paths(meth, (opaque,), ar, i)
        if not ps:
            return None
        out = set()
        for p in ps:
            cs = [(e, x, env) for e, x, env in flat(p.items) if e.k == 'call' and last(e.cn) == opaque]
            if len(cs) != 1:
                raise Unknown(f'{len(cs)} kernel calls')
            e, x, env = cs[0]
            r = rebuild(p.ret, p.env)
            if not (is_call(r, opaque)):
                raise Unknown(f'the result is not the kernel\'s: {show(r)[:60]}')
            out.add((tuple(generic_args(e)), tuple(rebuild(a, env) for a in e.args)))
        if len(out) != 1:
            raise Unknown('several kernels')
        return out.pop() + (F,)


def flat(items):
    for it in items:
        if isinstance(it, tuple):
            yield it


def op_meta(c):
    """field order of OpMeta"""
    a = c.p.adt('traits::OpMeta')
    return [f['n'] for f in a['vs'][0]['f']]


KERN = {'eval': ('eval_nary', ('out', 'args', 'opts')), 'diff': ('diff_nary', ('out_val', 'out_der', 'args', 'dargs', 'opts')),
        'grad': ('grad_nary', None)}


@rule('P33', 'Each operator set is read as a table: for every listed id the dispatch of evaluation, derivative and gradient is run '
             'symbolically under that id and must end in exactly one kernel call with the same operator and arity and the operands '
             'unchanged; an id that is not listed must not return. Metadata entries, HasOp ids, arities and the metadata getters '
             'are compared with that table; expression-building functions and arithmetic operators with their names.',
      ['custom operator sets expand the same macros as the built-in ones only in shape: their macro is not instantiated in the library'])
def p33(c):
    n = 0
    sets = [OpSet(c, im) for im in c.p.impls if im.get('trait', '').endswith('traits::OperatorSet') and im['crate'] == 'dynamic_expressions']
    ops = {}
    for im in c.p.impls:
        if im.get('trait', '').endswith('traits::Operator') and im['crate'] == 'dynamic_expressions':
            items = {i.split('::')[-1]: c.p.fns[i] for i in im['items'] if i in c.p.fns}
            ops[(norm_op(im['self']), int(im['tref'].rstrip('>').split(',')[-1]))] = (items, im)
    tags = {}
    for im in c.p.impls:
        if im.get('trait', '').endswith('traits::OpTag'):
            items = {i.split('::')[-1]: c.p.fns[i] for i in im['items'] if i in c.p.fns}
            tags[norm_op(im['self'])] = (intval(constant(c, items, 'ARITY'), lambda t: None), im)
    for (op, ar), (items, im) in ops.items():
        if op in tags:
            c.ob(f'tag:{op}', tags[op][0] == ar, f'{im["s"][0]}:{im["s"][1]}', f'{op} takes {ar} arguments but its tag says {tags[op][0]}')
    ids = {}
    for im in c.p.impls:
        if im.get('trait', '').endswith('traits::HasOp'):
            items = {i.split('::')[-1]: c.p.fns[i] for i in im['items'] if i in c.p.fns}
            op = norm_op(im['tref'].rstrip('>').split('<')[-1])
            ids[(norm_op(im['self']), op)] = (intval(constant(c, items, 'ID'), lambda t: None), im)
    try:
        fields = op_meta(c)
    except Exception as e:
        c.need(False, f'operator metadata: {e}')
    for S in sets:
        mx = intval(constant(c, S.items, 'MAX_ARITY'), lambda t: None)
        c.need(mx is not None, f'{S.name}: MAX_ARITY is not a constant')
        table = {}
        for ar in range(0, mx + 3):
            ls = S.listed(ar)
            c.ob(f'listed:{S.name}:{ar}', len(ls) == len(set(ls)), S.where, f'{S.name} lists an operator of {ar} arguments twice')
            c.ob(f'reach:{S.name}:{ar}', not ls or 1 <= ar <= mx, S.where, f'{S.name} lists operators of {ar} arguments but says at most {mx}')
            for i in ls + [max(ls, default=-1) + 1, 65535]:
                for meth, (kern, order) in KERN.items():
                    n += 1
                    try:
                        k = S.kernel(meth, kern, ar, i)
                    except Unknown as e:
                        c.fail(f'dispatch:{S.name}:{meth}:{ar}:{i}', S.where, f'{meth} of operator {i} of {ar} arguments: {e}')
                        continue
                    if i not in ls:
                        c.ob(f'unknown:{S.name}:{meth}:{ar}', k is None, S.where, f'{meth} accepts operator id {i} of {ar} arguments, which is not listed')
                        continue
                    if k is None:
                        c.fail(f'dispatch:{S.name}:{meth}:{ar}:{i}', S.where, f'{meth} refuses the listed operator {i} of {ar} arguments')
                        continue
                    ga, args, F = k
                    op = norm_op(ga[-1])
                    if meth == 'eval':
                        table[(ar, i)] = op
                        c.ob(f'arity:{S.name}:{op}', (op, ar) in ops and ga[0] == str(ar), S.where, f'{op} is evaluated with {ga[0]} arguments under arity {ar}')
                    else:
                        c.ob(f'same:{S.name}:{meth}:{ar}:{i}', table.get((ar, i)) == op and ga[0] == str(ar), S.where,
                             f'id {i} of {ar} arguments evaluates {table.get((ar, i))} but its {meth} is that of {op}')
                    ctx = mk_arg(F, 2)
                    if order is None:
                        ok = len(args) == 1 and strip(args[0]) is ctx
                        if not ok and len(args) == 1 and args[0].op == 'agg':
                            names = args[0].a[1] if isinstance(args[0].a[1], tuple) else ()
                            ok = all(is_fld(strip(v), nm) and strip(strip(v).a[0]) is ctx for nm, v in zip(names, args[0].a[2:]))
                        c.ob(f'operands:{S.name}:{meth}:{op}', ok, S.where, f'{meth} of {op} does not pass on its operands')
                    else:
                        bad = [nm for nm, a in zip(order, args) if not (is_fld(strip(a), nm) and strip(strip(a).a[0]) is ctx)]
                        c.ob(f'operands:{S.name}:{meth}:{op}', not bad and len(args) == len(order), S.where,
                             f'{meth} of {op} gets something else as {", ".join(bad)}')
        c.ob(f'distinct:{S.name}', len(set(table.values())) == len(table), S.where, f'{S.name} has two ids for one operator')
        got = {(a, op) for (a, i), op in table.items()}
        # identifiers of the marker types
        for (sn, op), (i, im) in ids.items():
            if sn != S.name:
                continue
            n += 1
            ar = tags.get(op, (None,))[0]
            c.ob(f'id:{S.name}:{op}', table.get((ar, i)) == op, f'{im["s"][0]}:{im["s"][1]}', f'{op} has id {i} in {S.name}, which is {table.get((ar, i))}')
        meta(c, S, table, ops, fields)
    c.floor('operator sets', len(sets), 2)
    c.floor('dispatched ids', n, 200)
    getters(c)
    builders(c, ops)


def meta(c, S, table, ops, fields):
    for (ar, i) in sorted(table) + [(a, max(j for b, j in table if b == a) + 1) for a in sorted({a for a, _ in table})] + [(0, 0), (9, 0)]:
        try:
            F, ps = S.paths('meta', (), ar, i)
        except Unknown as e:
            c.fail(f'meta:{S.name}:{ar}:{i}', S.where, f'metadata of operator {i} of {ar} arguments: {e}')
            continue
        rs = {rebuild(p.ret, p.env) for p in ps}
        if len(rs) != 1:
            c.fail(f'meta:{S.name}:{ar}:{i}', S.where, f'metadata of operator {i} of {ar} arguments not decided ({len(rs)} outcomes)')
            continue
        r = rs.pop()
        op = table.get((ar, i))
        if op is None:
            c.ob(f'meta-unknown:{S.name}:{ar}', r.op == 'agg' and r.a[0].endswith('::None'), S.where, f'metadata given for unknown operator {i} of {ar} arguments')
            continue
        e = entry(S, r, S.leaf(F, ar, i))
        if e is None or e.op != 'agg':
            c.fail(f'meta:{S.name}:{op}', S.where, f'metadata of {op} not found: {show(r)[:80]}')
            continue
        vals = dict(zip(fields if not isinstance(e.a[1], tuple) else e.a[1], [x for x in e.a[1:] if isinstance(x, T)]))
        items, im = ops.get((op, ar), ({}, None))
        for f in fields:
            v = vals.get(f)
            key = f'meta:{S.name}:{op}:{f}'
            if f in ('arity', 'id'):
                c.ob(key, v is not None and intval(v, lambda t: None) == (ar if f == 'arity' else i), S.where, f'metadata of {op} has the wrong {f}')
                continue
            K = f.upper()
            m = re.match(r'.*Operator::(\w+)<(.*)>$', str(v.a[0])) if v is not None and v.op == 'const' else None
            if m:
                g = m.group(2).split(',')
                c.ob(key, m.group(1) == K and norm_op(g[0]) == op and g[-1] == str(ar), S.where, f'metadata of {op}: {f} is {m.group(1).lower()} of {norm_op(g[0])}')
                continue
            want = constant(c, items, K)
            if want is None:
                want = default_const(c, K)
            if v is None or want is None:
                c.fail(key, S.where, f'metadata of {op}: {f} not decided')
                continue
            c.ob(key, same_const(v, want), S.where, f'metadata of {op}: {f} is {show(v)[:40]}, the operator declares {show(want)[:40]}')


def default_const(c, K):
    fs = [f for f in c.p.fns.values() if f['id'].endswith('traits::Operator::' + K)]
    if len(fs) != 1:
        return None
    rs = {v for _, v in c.ctx.flow(fs[0], ()).returns()}
    return rs.pop() if len(rs) == 1 else None


def same_const(a, b):
    if a.op == b.op == 'const':
        x, y = str(a.a[0]), str(b.a[0])
        tr = {'true': '1', 'True': '1', 'false': '0', 'False': '0'}
        return tr.get(x, x) == tr.get(y, y)
    return a is b


def entry(S, r, leaf):
    """the table entry a Some(..) result names"""
    if r.op == 'agg' and r.a[0].endswith('::Some'):
        r = r.a[2]
    if r.op in ('ref', 'refm') and r.a[1] and isinstance(r.a[0], T) and len(r.a[1]) == 1 and r.a[1][0][0] == 'i':
        tb, k = S.table(r.a[0]), intval(r.a[1][0][1], leaf)
        return tb[k] if tb is not None and k is not None and 0 <= k < len(tb) else None
    r = strip(r)
    if r.op in ('idx', 'index', 'elem_at') or (r.op == 'at'):
        b, i = r.a[0], r.a[1]
    elif is_call(r, 'index', 'get', 'get_unchecked') and len(r.a) >= 3:
        b, i = r.a[1], r.a[2]
    elif r.op == 'agg':
        return r
    else:
        return None
    tb, k = S.table(b), intval(i, leaf)
    return tb[k] if tb is not None and k is not None and 0 <= k < len(tb) else None


def getters(c):
    """name, display, ... of an operator are the fields of its metadata"""
    tr = [f for f in c.p.fns.values() if f['id'].split('::')[-2:-1] == ['OperatorSet'] and f['id'].startswith('dynamic_expressions')]
    byname = {f['id'].split('::')[-1]: f for f in tr}
    for g in ('name', 'display', 'infix', 'commutative', 'associative', 'complexity'):
        f = byname.get(g)
        if f is None:
            c.note(f'no default getter {g}')
            continue
        F = c.ctx.flow(f, ('OperatorSet::meta',))
        a1 = mk_arg(F, 1)
        ok, some = True, 0
        for p in Walk(F, lambda f, fs: None).paths():
            if p.end != 'ret':
                continue
            r = strip(rebuild(p.ret, p.env))
            pos = [x for x in p.facts if x.op == 'is' and x.a[1] in ('Some', 'None') and is_call(x.a[0], 'meta')]
            isnone = any(x.a[1] == 'None' for x in pos) or any(x.op == 'not' and x.a[0].op == 'is' and x.a[0].a[1] == 'Some' for x in p.facts)
            if isnone:
                ok = ok and not any(is_fld(x, g) for x in sub_terms(r))
                continue
            some += 1
            if r.op == 'agg' and r.a[0].endswith('::Some'):
                r = strip(r.a[2])
            good = is_fld(r, g) or (r.op == 'vf' and is_fld(strip(r.a[0]), g))
            if not good and r.op == 'const':
                # a flag tested on the way
                fl = [x for x in p.facts if is_fld(strip(x), g) or (x.op == 'not' and is_fld(strip(x.a[0]), g))]
                good = len(fl) == 1 and (fl[0].op != 'not') == truth(r)
            if not good and r.op == 'agg' and r.a[0].endswith('::None'):
                good = any(x.op == 'is' and x.a[1] == 'None' and is_fld(strip(x.a[0]), g) for x in p.facts)
            src = [x for x in sub_terms(r) if is_call(x, 'meta')] + [y for x in p.facts for y in sub_terms(x) if is_call(y, 'meta')]
            ok = ok and good and all(strip(x.a[1]) is a1 for x in src)
        c.ob(f'getter:{g}', ok and some > 0, F.where(0), f'{g} of an operator is not the {g} of its metadata')
    f = [f for f in c.p.fns.values() if f['id'].endswith('traits::HasOp::op_id')]
    if f:
        F = c.ctx.flow(f[0], ())
        for i, v in F.returns():
            v = strip(v)
            ok = v.op == 'agg' and all(x.op == 'const' and str(x.a[0]).split('<')[0].endswith('::' + K)
                                       for x, K in ((strip(fld(F, v, 'arity')), 'ARITY'), (strip(fld(F, v, 'id')), 'ID')))
            c.ob('op-id', ok, F.where(i), 'the id of an operator marker is not (its arity, its id in the set)')


def sub_terms(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        st += [y for y in x.a if isinstance(y, T)]
    return out


def applied(F, v):
    """(operator type, [operands]) of an expression built by applying an operator"""
    v = strip(v)
    if not is_call(v, '__apply_postfix'):
        return None
    m = re.match(r'.*HasOp::ID<(.*)>$', str(v.a[1].a[0])) if v.a[1].op == 'const' else None
    if not m:
        return None
    xs = strip(v.a[2])
    if xs.op != 'agg' or xs.a[0] != 'array':
        return None
    return norm_op(m.group(1).split(',')[-1]), [strip(x) for x in xs.a[1:] if isinstance(x, T)]


OVERLOAD = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'div': 'div', 'neg': 'neg'}


def builders(c, ops):
    names = {}
    for (op, ar), (items, im) in ops.items():
        names[(string(constant(c, items, 'NAME')), ar)] = op
    n = 0
    for f in c.p.fns.values():
        if f['kind'] not in ('Fn', 'AssocFn') or f['id'].split('::')[0] != 'dynamic_expressions' or '{closure' in f['id']:
            continue
        calls = any(b['t'].get('k') == 'call' and '__apply_postfix' in str(b['t'].get('f', {}).get('n', '')) for b in f['blocks'])
        tr = (f.get('itrait') or '')
        over = tr.startswith(('std::ops::', 'core::ops::')) and 'PostfixExpr' in f['n']
        if not (calls or over) or last(f['id']) == '__apply_postfix':
            continue
        F = c.ctx.flow(f, ('__apply_postfix', '__const_expr'))
        nm = last(f['id'])
        args = [mk_arg(F, k) for k in range(1, F.f.argc + 1)]
        want = names.get((nm, len(args)))
        if want is None:
            if not over:
                continue
            c.note(f'overload {nm} has no operator of its name')
            continue
        n += 1
        rs = {v for _, v in F.returns()}
        ok, msg = True, ''
        for v in rs:
            a = applied(F, v)
            if a is None:
                ok, msg = False, f'{nm} does not just apply an operator: {show(v)[:80]}'
                break
            if a[0] != want:
                ok, msg = False, f'{nm} builds {a[0]}'
                break
            if len(a[1]) != len(args) or not all(x is y or wrapped(x, y) for x, y in zip(a[1], args)):
                ok, msg = False, f'{nm} passes {", ".join(show(x)[:30] for x in a[1])}'
                break
        c.ob(f'builder:{f["n"]}', ok and rs, F.where(0), msg or f'{nm} builds nothing')
    c.floor('expression builders', n, 40)
    f = c.p.fn('expression_algebra::__const_expr')
    F = c.ctx.flow(f, ())
    for i, v in F.returns():
        v = strip(v)
        ok = False
        if v.op == 'agg':
            ns, cs = fld(F, v, 'nodes'), fld(F, v, 'consts')
            ok = const_vec(cs, lambda x: strip(x) is mk_arg(F, 1)) and const_vec(ns, lambda x: x.op == 'agg' and x.a[0].endswith('::Const') and show(x.a[2]).startswith('0'))
        c.ob('literal', ok, F.where(i), f'a literal is not the one constant it is given: {show(v)[:180]}')


def const_vec(t, pred):
    """a vector of exactly one element"""
    xs = veclist(t)
    return xs is not None and len(xs) == 1 and pred(strip(xs[0]))


def wrapped(x, y):
    """literal of y, or of the value a literal wraps"""
    if is_call(x, '__const_expr'):
        z = strip(x.a[1])
        return z is y or (z.op == 'fld' and str(z.a[2]) == '0' and strip(z.a[0]) is y)
    return False
