"""P41: a printed expression shows the expression."""
from sa.core import *
from sa.rulelib import *
from sa.algebra import Unknown
from sa.walk import Loop, rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, constant, strip, rets, run
from rules.simplify import last, impossible, ended, deref
from rules.choice import all_loops
from rules.measures import facts_of, values, fold, over
from rules.browser import bare, simp
from rules.optimise import core
import rules.browser as _b
from rules.browser import subst

OPQ = ('tree_mapreduce', 'strip_outer_parens', 'display', 'infix', 'name', 'default_string_variable', 'default_string_constant')


# ---------------------------------------------------------------- texts

def literal(t):
    """a string constant"""
    if t.op != 'const' or not isinstance(t.a[0], str):
        return None
    s = t.a[0]
    if len(s) >= 2 and s[0] == '"' and s[-1] == '"':
        return eval(s)
    if len(s) == 3 and s[0] == s[-1] == "'":
        return s[1]
    return None


def template(s):
    """pieces of a formatting template: strings, and None for the next argument shown plainly"""
    try:
        b = eval(s)
    except Exception:
        raise Bad('a formatting template is not readable')
    out, i = [], 0
    while i < len(b):
        k = b[i]
        i += 1
        if k == 0:
            return out
        if k < 0x80:
            out.append(b[i:i + k].decode())
            i += k
        elif k == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + n].decode())
            i += 2 + n
        elif k == 0xc0:
            out.append(None)
        else:
            raise Bad('a value is formatted with options')
    raise Bad('a formatting template is not readable')


class Text:
    """a string value as a list of pieces: literals, values, and joined sequences"""

    def __init__(self, F, p):
        self.F, self.p = F, p
        self.facts = facts_of(p) + list(p.facts)

    def of(self, t):
        t = deref(t)
        s = literal(t)
        if s is not None:
            return [s] if s else []
        if is_call(t, 'format', 'must_use', 'to_string', 'from', 'into', 'to_owned', 'clone', 'as_str', 'deref', 'as_ref', 'borrow', 'into_boxed_str', 'to_str') and len(t.a) >= 2:
            return self.of(t.a[1])
        if is_call(t, 'new', 'new_const', 'from_str') and 'Arguments' in t.a[0]:
            if literal(t.a[1]) is not None:
                return [literal(t.a[1])]
            a = deref(t.a[2])
            out, k = [], 0
            for x in template(t.a[1].a[0]):
                if x is not None:
                    out.append(x)
                    continue
                v = deref((list(a.a[2:]) if a.op == 'agg' else list(a.a))[k])
                if not is_call(v, 'new_display'):
                    raise Bad(f'a value is shown by {show(v)[:40]}')
                out += self.of(v.a[1])
                k += 1
            return out
        if is_call(t, 'new', 'with_capacity', 'default') and 'String' in t.a[0]:
            return []
        if t.op == 'upd' and last(t.a[0]) in ('push', 'write_char') and constant(t.a[4]) is not None:
            return self.of(t.a[3]) + [chr(constant(t.a[4]))]
        if t.op == 'upd' and last(t.a[0]) in ('push_str', 'push', 'add_assign', 'write_str', 'write_char'):
            return self.of(t.a[3]) + self.of(t.a[4])
        if is_call(t, 'add') and len(t.a) >= 3:
            return self.of(t.a[1]) + self.of(t.a[2])
        if is_call(t, 'concat'):
            return [('join', self.seq(t.a[1]), ())]
        if is_call(t, 'join') and len(t.a) >= 3:
            return [('join', self.seq(t.a[1]), tuple(merge(self.of(t.a[2]))))]
        if t.op == 'phi':
            return self.built(t)
        return [t]

    def seq(self, t):
        """(sequence, how each element is shown) of a list of strings"""
        t = deref(t)
        while is_call(t, 'collect', 'as_slice', 'deref', 'iter', 'into_iter', 'cloned', 'copied') or is_call(t, 'to_vec', 'clone', 'into_boxed_slice'):
            t = deref(t.a[1])
        if t.op == 'phi':
            for x in all_loops(self.p.items):
                if t in (x.accs or ()):
                    e = deref(rebuild(x.entries[t], self.p.env))
                    if not is_call(e, 'new', 'with_capacity', 'default') or not ended(self.facts, x):
                        raise Bad('a list of texts is not complete')
                    how = set()
                    for b in x.body:
                        if impossible(b.facts) or impossible(facts_of(b)):
                            continue
                        v = deref(values(self.F, x, b).get(t, t))
                        if b.end != 'back' or not (v.op == 'upd' and last(v.a[0]) == 'push' and deref(v.a[3]) is t):
                            raise Bad('an operand is left out')
                        how.add(self.elem(v.a[4], x.site, over(x.src)))
                    if len(how) != 1:
                        raise Bad('operands are shown differently')
                    return over(rebuild(x.src, self.p.env)), how.pop()
            raise Bad('a list of texts is not built here')
        return over(t), 'plain'

    def elem(self, v, site, src):
        v = bare(v)
        while is_call(v, 'to_string', 'as_str', 'clone', 'to_owned', 'deref', 'from', 'into', 'as_ref'):
            v = bare(v.a[1])
        if is_call(v, 'strip_outer_parens'):
            return 'stripped' if self.elem(v.a[1], site, src) == 'plain' else 'other'
        if v.op == 'elem' and v.a[1] == site:
            return 'plain'
        if v.op == 'idx' and strip(deref(v.a[1])).op in ('elem', 'pos') and strip(deref(v.a[1])).a[1] == site:
            return 'plain'
        raise Bad(f'an operand is shown as {show(v)[:60]}')

    def built(self, t):
        """a text a loop appends to: operand after operand with a separator between"""
        for x in all_loops(self.p.items):
            if t not in (x.accs or ()):
                continue
            start = self.of(rebuild(x.entries[t], self.p.env))
            if not ended(self.facts, x):
                raise Bad('not every operand is shown')
            first, later = set(), set()
            src = over(rebuild(x.src, self.p.env))
            for b in x.body:
                if impossible(b.facts) or impossible(facts_of(b)):
                    continue
                if b.end != 'back':
                    raise Bad('not every operand is shown')
                v = deref(values(self.F, x, b).get(t, t))
                ps = Text(self.F, self.p).appended(v, t)
                sep, how = merge(ps[:-1]), self.elem(ps[-1], x.site, src)
                fs = facts_of(b) + list(b.facts)
                at = 0
                for f in fs:
                    if f.op in ('eq', 'ne', 'lt', 'le') and isinstance(f.a[0], T) and isinstance(f.a[1], T):
                        u, w = strip(deref(f.a[0])), strip(deref(f.a[1]))
                        if f.op in ('eq', 'ne') and w.op in ('pos', 'elem') and w.a[1] == x.site:
                            u, w = w, u
                        if u.op in ('pos', 'elem') and u.a[1] == x.site and constant(w) == 0 and f.op in ('eq', 'ne', 'le'):
                            at = 1 if f.op in ('eq', 'le') else 2
                        if w.op in ('pos', 'elem') and w.a[1] == x.site and constant(u) == 0 and f.op == 'lt':
                            at = 2
                if at in (0, 1):
                    first.add((tuple(sep), how))
                if at in (0, 2):
                    later.add((tuple(sep), how))
            if len(first) != 1 or len(later) != 1 or list(first)[0][0] or list(first)[0][1] != list(later)[0][1]:
                raise Bad('operands are separated unevenly')
            (sep, how), = later
            return start + [('join', (src, how), sep)]
        raise Bad(f'a text is {show(t)[:40]}')

    def appended(self, v, t):
        v = deref(v)
        if v is t:
            return []
        if v.op == 'upd' and last(v.a[0]) in ('push_str', 'push', 'add_assign'):
            if last(v.a[0]) == 'push' and constant(v.a[4]) is not None:
                return self.appended(v.a[3], t) + [chr(constant(v.a[4]))]
            try:
                return self.appended(v.a[3], t) + self.of(v.a[4])
            except Bad:
                return self.appended(v.a[3], t) + [v.a[4]]
        raise Bad(f'a text becomes {show(v)[:60]}')


def merge(ps):
    out = []
    for x in ps:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


# ---------------------------------------------------------------- lemmas

def called(c, F, clo, n):
    """(flow, paths, captured values, the n arguments) of a closure or a named function"""
    clo = deref(clo)
    if clo.op == 'agg' and str(clo.a[0]).startswith('closure:'):
        f = c.p.fns.get(clo.a[0][8:]) or c.p.fn(clo.a[0][8:])
        G = c.ctx.flow(f, OPQ)
        env = {mk_arg(G, 1): clo, mk('arg', 1, 'env'): clo}
        return G, env, [mk_arg(G, 2 + k) for k in range(n)]
    s = str(clo.a[0]) if clo.a else ''
    if clo.op in ('const', 'fn') and clo.a:
        f = c.p.fns.get(s) or c.p.fn(s.replace('fn(', '').rstrip(')'))
        G = c.ctx.flow(f, OPQ)
        return G, {}, [mk_arg(G, 1 + k) for k in range(n)]
    raise Bad(f'{show(clo)[:60]} is not a function')


def live(G):
    return [p for p in rets(G) if not impossible(p.facts) and not impossible(facts_of(p))]


def lem_leaf(c, F, clo, expr, names):
    G, env, (n,) = called(c, F, clo, 1)
    seen = set()
    for p in live(G):
        r = simp(subst(rebuild(p.ret, p.env), env))
        fs = facts_of(p) + list(p.facts)
        ks = {'Var', 'Const', 'Op'}
        for f in fs:
            if f.op in ('is', 'isnt') and deref(f.a[0]) is n:
                ks = ks & {f.a[1]} if f.op == 'is' else ks - {f.a[1]}
        ks -= {'Op'}
        if not ks:
            continue
        if len(ks) != 1:
            return 'variables and constants are shown alike'
        k, = ks
        seen.add(k)
        r = bare(r)
        if k == 'Var':
            ok = is_call(r, 'default_string_variable') and strip(deref(r.a[1])) is mk('vf', n, 'Var', 'feature') and bare(r.a[2]) is bare(names)
            if not ok:
                return f'a variable is shown as {show(r)[:120]}'
        else:
            v = bare(r.a[1]) if is_call(r, 'default_string_constant') else None
            if v is None:
                ps = Text(G, p).of(r)
                v = bare(ps[0]) if len(ps) == 1 and isinstance(ps[0], T) else None
            ok = v is not None and v.op == 'idx' and is_fld(bare(v.a[0]), 'consts') and bare(bare(v.a[0]).a[0]) is expr and strip(deref(v.a[1])) is mk('vf', n, 'Const', 'idx')
            if not ok:
                return f'a constant is shown as {show(r)[:120]}'
    return None if seen == {'Var', 'Const'} else f'only {sorted(seen)} are shown'


def lem_branch(c, F, clo):
    G, env, (n,) = called(c, F, clo, 1)
    k = 0
    for p in live(G):
        r = bare(rebuild(p.ret, p.env))
        if r.op == 'agg' and last(r.a[0]) == 'OpId' and r.a[1]:
            d = dict(zip(r.a[1], r.a[2:]))
        elif r.op == 'agg' and last(r.a[0]) == 'OpId':
            d = dict(zip(('arity', 'id'), r.a[2:]))
        else:
            return f'the operator shown is {show(r)[:80]}'
        if strip(deref(d['arity'])) is not mk('vf', n, 'Op', 'arity') or strip(deref(d['id'])) is not mk('vf', n, 'Op', 'op'):
            return f'the operator shown is {show(r)[:80]}'
        k += 1
    return None if k else 'no operator is shown'


def lem_node(c, F, clo):
    """the text of an operator applied to the texts of its operands"""
    G, env, (op, ch) = called(c, F, clo, 2)
    forms = set()
    for p in live(G):
        fs = facts_of(p) + list(p.facts)
        has, arity, pretty = None, None, None
        for f in fs:
            if f.op in ('is', 'isnt') and is_call(deref(f.a[0]), 'infix') and deref(deref(f.a[0]).a[1]) is op:
                has = (f.a[1] == 'Some') == (f.op == 'is')
            if f.op in ('lt', 'le', 'eq', 'ne') and isinstance(f.a[0], T) and isinstance(f.a[1], T):
                x, y = strip(deref(f.a[0])), strip(deref(f.a[1]))
                for u, v, s in ((x, y, 0), (y, x, 1)):
                    is_n = u.op == 'fld' and is_fld(u, 'arity') and deref(u.a[0]) is op or u.op == 'len' and bare(u.a[0]) is ch or is_call(u, 'len') and bare(u.a[1]) is ch
                    w = constant(v)
                    if not is_n or w is None:
                        continue
                    if f.op == 'lt':
                        arity = 'few' if not s and w == 2 else 'many' if s and w == 1 else arity
                    if f.op == 'le':
                        arity = 'few' if not s and w == 1 else 'many' if s and w == 2 else arity
                    if f.op == 'eq' and w == 1:
                        arity = 'few'
                    if f.op == 'ne' and w == 1:
                        arity = 'many'
            g, want = (deref(f.a[0]), False) if f.op == 'not' else (f, True)
            if not isinstance(g, T):
                continue
            g = simp(subst(g, env))
            if is_fld(g, 'pretty'):
                pretty = want
        ps = merge(Text(G, p).of(rebuild(p.ret, p.env)))
        ps = [simp(subst(x, env)) if isinstance(x, T) else x for x in ps]
        lead = 0
        if ps and isinstance(ps[0], str):
            kind = 'infix'
            ok = len(ps) == 3 and ps[0] == '(' and ps[2] == ')' and isinstance(ps[1], tuple)
            if ok:
                (seq, how), sep = ps[1][1], ps[1][2]
                ok = bare(seq) is ch and how == 'plain' and len(sep) == 3 and sep[0] == ' ' and sep[2] == ' '
                sym = sep[1] if ok else None
        else:
            kind = 'call'
            ok = len(ps) == 4 and ps[1] == '(' and ps[3] == ')' and isinstance(ps[2], tuple)
            if ok:
                (seq, how), sep = ps[2][1], ps[2][2]
                ok = bare(seq) is ch and how in ('plain', 'stripped') and len(sep) == 1 and sep[0].strip() == ','
                sym = ps[0]
        if not ok:
            return f'an operator is shown as {[x if isinstance(x, str) else show(x)[:60] if isinstance(x, T) else str(x)[:90] for x in ps]}'
        infix = has is True and arity == 'many'
        if has is None or has and arity is None:
            return 'infix operators are not told from functions'
        if infix != (kind == 'infix'):
            return ('an infix operator is shown as a function' if infix else 'a function, or an operator of one operand, is shown infix')
        s = bare(sym) if isinstance(sym, T) else None
        sname = None
        if s is not None:
            if s.op == 'vf' and s.a[1] == 'Some':
                s = bare(s.a[0])
            if is_call(s, 'unwrap_or', 'unwrap_or_else'):
                s0, s1 = bare(s.a[1]), bare(s.a[2])
                sname = last(s0.a[0]) + '|' + last(s1.a[0]) if s0.op == 'call' and s1.op == 'call' else None
                s = s0
            elif s.op == 'call':
                sname = last(s.a[0])
            if s.op != 'call' or deref(s.a[1]) is not op:
                sname = None
        want = 'display' if pretty else 'infix' if has else 'name'
        if pretty is None:
            return 'the notation does not depend on the one asked for'
        if sname != want and not (not pretty and sname == 'infix|name'):
            return f'the symbol shown is the {sname} of the operator, not its {want}'
        forms.add((kind, pretty))
    return None if len(forms) == 4 else f'only {sorted(forms)} are shown'


def lem_tree(c, fn):
    """what is printed: the whole tree, its own nodes, the names asked for"""
    F = c.ctx.flow(fn, OPQ)
    expr = mk_arg(F, 1)
    opts = mk_arg(F, 2)
    out, n = [], 0
    for p in live(F):
        r = rebuild(p.ret, p.env)
        fs = facts_of(p) + list(p.facts)
        t = deref(r)
        while is_call(t, 'to_string', 'strip_outer_parens', 'from', 'into', 'to_owned', 'clone', 'as_str', 'deref', 'as_ref') or is_call(t, 'format', 'must_use'):
            t = deref(t.a[1])
        if not (is_call(t, 'tree_mapreduce') and len(t.a) >= 5):
            return [('tree', f'what is printed is {show(r)[:120]}')]
        N = bare(t.a[1])
        if not (is_fld(N, 'nodes') and bare(N.a[0]) is expr):
            return [('tree', f'the tree printed is {show(N)[:80]}')]
        # names: the caller's, else the expression's own, if it has any
        lf = deref(t.a[2])
        given, own = None, None
        for f in fs:
            if f.op in ('is', 'isnt') and is_fld(deref(f.a[0]), 'variable_names') and bare(deref(f.a[0]).a[0]) is opts:
                given = (f.a[1] == 'Some') == (f.op == 'is')
            if f.op in ('eq', 'ne', 'lt') and isinstance(f.a[0], T) and isinstance(f.a[1], T):
                for u, v in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                    u, v = strip(deref(u)), strip(deref(v))
                    k = bare(u.a[0]) if u.op == 'len' else bare(u.a[1]) if is_call(u, 'len') else None
                    if k is not None and is_fld(k, 'variable_names') and constant(v) == 0:
                        own = f.op != 'eq'
            if is_call(f, 'is_empty') or f.op == 'not' and is_call(deref(f.a[0]), 'is_empty'):
                own = f.op == 'not'
        nm = [x for x in lf.a[2:] if isinstance(x, T) and bare(x) is not expr] if lf.op == 'agg' else []
        if len(nm) != 1:
            return [('tree', 'a variable is named by other things than the names')]
        v = deref(nm[0])
        if given:
            ok = is_fld(v, 'variable_names') and bare(v.a[0]) is opts or v.op == 'agg' and last(v.a[0]) == 'Some' and mentions(v, lambda x: x is opts)
        elif given is None:
            ok = False
        elif own:
            w = bare(v.a[2]) if v.op == 'agg' and last(v.a[0]) == 'Some' else None
            ok = w is not None and is_fld(w, 'variable_names') and mentions(w, lambda x: x is expr)
        else:
            ok = v.op == 'agg' and last(v.a[0]) == 'None'
        if not ok:
            return [('tree', f'variables are named by {show(v)[:80]}')]
        n += 1
        res = [('leaf', run(lem_leaf, c, F, t.a[2], expr, nm[0])), ('operator', run(lem_branch, c, F, t.a[3])), ('notation', run(lem_node, c, F, t.a[4]))]
        for k, e in res:
            if e:
                return [(k, e)]
    return [('tree', None if n >= 3 else 'the naming of variables does not depend on the names given'), ('leaf', None), ('operator', None), ('notation', None)]


def lem_variable(c, fn):
    F = c.ctx.flow(fn, ())
    ft, nm = mk_arg(F, 1), mk_arg(F, 2)
    seen = set()
    for p in live(F):
        fs = facts_of(p) + list(p.facts)
        r = deref(rebuild(p.ret, p.env))
        has = inside = None
        for f in fs:
            if f.op in ('is', 'isnt') and deref(f.a[0]) is nm:
                has = (f.a[1] == 'Some') == (f.op == 'is')
            if f.op in ('lt', 'le') and isinstance(f.a[0], T) and isinstance(f.a[1], T):
                x, y = strip(deref(f.a[0])), strip(deref(f.a[1]))
                if f.op == 'lt' and x is ft and (y.op == 'len' or is_call(y, 'len')):
                    inside = True
                if f.op == 'le' and y is ft and (x.op == 'len' or is_call(x, 'len')):
                    inside = False
            if f.op in ('is', 'isnt') and is_call(deref(f.a[0]), 'get'):
                inside = (f.a[1] == 'Some') == (f.op == 'is')
        ps = merge(Text(F, p).of(r))
        if has and inside:
            v = bare(ps[0]) if len(ps) == 1 and isinstance(ps[0], T) else None
            if v is not None and v.op == 'vf' and is_call(deref(v.a[0]), 'get'):
                v = mk('idx', deref(v.a[0]).a[1], deref(v.a[0]).a[2])
            if v is None or v.op != 'idx' or strip(deref(v.a[1])) is not ft or not mentions(v.a[0], lambda x: x is nm):
                return f'a named variable is shown as {show(r)[:100]}'
            seen.add('named')
        else:
            if not (len(ps) == 2 and ps[0] == 'x' and isinstance(ps[1], T) and strip(deref(ps[1])) is ft):
                return f'a variable without name is shown as {show(r)[:100]}'
            if has and inside is None:
                return 'a variable with a name can be shown without it'
            seen.add('numbered')
    return None if len(seen) == 2 else f'only {sorted(seen)} variables are shown'


def lem_constant(c, fn):
    F = c.ctx.flow(fn, ())
    for p in live(F):
        ps = Text(F, p).of(rebuild(p.ret, p.env))
        if not (len(ps) == 1 and isinstance(ps[0], T) and bare(ps[0]) is mk_arg(F, 1)):
            return f'a constant is shown as {show(rebuild(p.ret, p.env))[:80]}'
    return None


def lem_strip(c, fn):
    """parentheses are taken off only when the first one closes at the very end"""
    F = c.ctx.flow(fn, ())
    n = 0
    for p in live(F):
        r = deref(rebuild(p.ret, p.env))
        while is_call(r, 'to_string', 'as_str', 'deref', 'as_ref'):
            r = deref(r.a[1])
        if r is mk_arg(F, 1):
            continue
        tops = [x for x in p.items if isinstance(x, Loop) and r in (x.accs or ())]
        if r.op != 'phi' or not tops:
            e = taken_off(F, p, r, mk_arg(F, 1))
            if e:
                return e
            n += 1
            continue
        for L in tops:
            if deref(rebuild(L.entries[r], p.env)) is not mk_arg(F, 1):
                return 'another text is printed'
            for b in L.body:
                if impossible(b.facts) or b.end != 'back':
                    continue
                v = deref(values(F, L, b).get(r, r))
                if v is r:
                    continue
                e = taken_off(F, b, v, r)
                if e:
                    return e
                n += 1
    return None if n else 'no parentheses are ever taken off'


def taken_off(F, b, v, s):
    """v is s without its first and last byte, under the fact that the parenthesis opened first closes last"""
    v = deref(v)
    is_len = lambda t: (lambda u: u.op == 'len' and same_text(u.a[0], s) or is_call(u, 'len') and same_text(u.a[1], s))(strip(deref(t)))
    last_at = lambda t: (lambda u: u.op == 'Sub' and is_len(u.a[0]) and constant(strip(u.a[1])) == 1)(strip(deref(t)))
    if is_call(v, 'index') or v.op == 'idx':
        base, rg = (v.a[1], v.a[2]) if v.op == 'call' else (v.a[0], v.a[1])
        rg = deref(rg)
        ok = same_text(base, s) and rg.op == 'agg' and (last(rg.a[0]) == 'Range' and constant(strip(deref(rg.a[2]))) == 1 and last_at(rg.a[3]))
    else:
        ok = False
    if not ok:
        return f'the text becomes {show(v)[:80]}'
    fs = facts_of(b) + list(b.facts)
    loops = [x for x in all_loops(b.items)]
    for I in loops:
        for d in I.accs or ():
            if constant(strip(deref(I.entries[d]))) != 0 or not scan(F, I, d, s, b):
                continue
            # the scan ended on the last byte with nothing open, having started on an opening one
            zero = end = opened = False
            for f in fs:
                if f.op == 'eq' and isinstance(f.a[0], T) and isinstance(f.a[1], T):
                    for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                        x, y = strip(deref(x)), strip(deref(y))
                        if constant(x) == 0 and y.op == 'Sub' and strip(deref(y.a[0])) is d and constant(strip(y.a[1])) == 1:
                            zero = True
                        if constant(x) == 1 and y is d:
                            zero = True
                        if y.op in ('pos', 'elem') and y.a[1] == I.site and last_at(x):
                            end = True
                        if x.op == 'Add' and y is not None and any(strip(deref(z)).op == 'pos' and strip(deref(z)).a[1] == I.site for z in x.a[:2] if isinstance(z, T)) and is_len(y):
                            end = True
                        if char(x) == '(' and y.op == 'idx' and same_text(y.a[0], s) and constant(strip(deref(y.a[1]))) == 0:
                            opened = True
                if is_call(f, 'starts_with') and same_text(f.a[1], s) and char(f.a[2]) == '(':
                    opened = True
            if zero and end and opened:
                return None
    return 'parentheses that do not belong together are taken off'


def char(t):
    t = strip(deref(t))
    if t.op == 'const':
        s = str(t.a[0])
        if s in ("'('", '"("', '40'):
            return '('
        if s in ("')'", '")"', '41'):
            return ')'
    k = constant(t)
    return {40: '(', 41: ')'}.get(k)


def same_text(t, s):
    t = deref(t)
    while is_call(t, 'as_bytes', 'bytes', 'chars', 'char_indices', 'enumerate', 'iter', 'into_iter', 'as_str', 'deref', 'copied', 'cloned', 'as_ref'):
        t = deref(t.a[1])
    return t is s


def scan(F, I, d, s, b):
    """the loop counts open parentheses byte by byte and goes on while some are open"""
    if I.src is None or not same_text(rebuild(I.src, b.env), s):
        return False
    ch = lambda t: (lambda u: u.op == 'elem' and u.a[1] == I.site or u.op in ('fld', 'vf') and mentions(u, lambda y: y.op == 'elem' and y.a[1] == I.site))(strip(deref(t)))
    seen = set()
    for q in I.body:
        if impossible(q.facts) or q.end != 'back':
            continue
        k = {'(', ')', 'other'}
        nonzero = False
        for f in q.facts:
            if f.op in ('eq', 'ne') and isinstance(f.a[0], T) and isinstance(f.a[1], T):
                for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                    if char(x) and ch(y):
                        k = k & {char(x)} if f.op == 'eq' else k - {char(x)}
                    x, y = strip(deref(x)), strip(deref(y))
                    if f.op == 'ne' and (constant(x) == 0 and y.op == 'Sub' and strip(deref(y.a[0])) is d or constant(x) == 1 and y is d):
                        nonzero = True
        v = strip(deref(values(F, I, q).get(d, d)))
        if len(k) != 1:
            return False
        k, = k
        one = lambda t: any(constant(strip(deref(z))) == 1 for z in t.a[:2]) and any(strip(deref(z)) is d for z in t.a[:2])
        if k == '(' and not (v.op == 'Add' and one(v)):
            return False
        if k == ')' and not (v.op == 'Sub' and strip(deref(v.a[0])) is d and constant(strip(deref(v.a[1]))) == 1 and nonzero):
            return False
        if k == 'other' and v is not d:
            return False
        seen.add(k)
    return seen == {'(', ')', 'other'}


def lem_reduce(c, fn):
    """the operands of an operator reach it in order, each node once"""
    F = c.ctx.flow(fn, ())
    N = mk_arg(F, 1)
    n = 0
    def leaf(D, k, v):
        v = deref(v)
        if not (is_call(v, 'call_mut', 'call', 'call_once') and mentions(v.a[2], lambda x: x is D.el)):
            raise Bad(f'the result of a leaf is {show(v)[:80]}')
    def node(D, v):
        v = deref(v)
        if not is_call(v, 'call_mut', 'call', 'call_once'):
            raise Bad(f'the result of an operator is {show(v)[:80]}')
        a = deref(v.a[2])
        xs = [x for x in a.a if isinstance(x, T)]
        if len(xs) != 2 or not mentions(xs[0], lambda x: x is D.el) or not D.children(xs[1]):
            raise Bad(f'an operator is applied to {show(xs[-1])[:100]}')
    for p in live(F):
        L, st = fold(F, p, N, leaf, node)[:2]
        r = bare(rebuild(p.ret, p.env))
        if r.op == 'vf' and r.a[1] == 'Some':
            r = bare(r.a[0])
        if not (is_call(r, 'pop') and deref(r.a[1]) is st) and not (is_call(r, 'remove', 'swap_remove') and deref(r.a[1]) is st and constant(strip(r.a[2])) == 0):
            return f'the result is {show(r)[:80]}'
        n += 1
    return None if n else 'nothing is computed'


def lem_shown(c, fn):
    """the expression is shown by string_tree, with nothing added"""
    F = c.ctx.flow(fn, ('string_tree',))
    e = mk_arg(F, 1)
    k = 0
    for p in live(F):
        hits = set()
        for it in p.items:
            if isinstance(it, Loop) or it[0].k != 'call':
                continue
            for a in list(it[0].args):
                t = rebuild(a, it[2])
                for x in terms(t):
                    if is_call(x, 'string_tree'):
                        hits.add(x)
        if any(bare(x.a[1]) is not e for x in hits) or not hits:
            return 'something else than the expression is shown'
        k += 1
    return None if k else 'nothing is shown'


def terms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        st += list(x.a)


@rule('P41', 'string_tree hands the nodes of its own expression to the pass over the tree, which is a postfix fold: every leaf pushes the text of that '
      'leaf, every operator takes exactly the texts of its operands off, in order, and pushes its own text. The text of a leaf is the name of its own '
      'feature or its own constant shown without formatting options; the text of an operator is, over every path, "(" operands joined by " symbol " ")" '
      'when it has an infix symbol and several operands, and symbol "(" operands joined by "," ")" otherwise, the symbol being read from the table of the '
      'same operator id. Parentheses are removed only around the whole text or the whole of a function argument, and only when the scan that counts '
      'them first returns to zero at the last byte. Strings are compared as sequences of literal pieces and values, formatting templates decoded.',
      ['names of variables and operators contain no parentheses', 'Display of a number shows that number'])
def p41(c):
    M = 'dynamic_expressions::strings::'
    f = c.p.fn('strings::string_tree')
    where = 'dynamic_expressions/src/strings.rs'
    res = run(lem_tree, c, f)
    if isinstance(res, str):
        res = [('tree', res)]
    n_fn = 0
    for k, e in res:
        c.ob(f'string_tree:{k}', not e, where, f'string_tree: {e}')
    for n, lem in (('default_string_variable', lem_variable), ('default_string_constant', lem_constant), ('strip_outer_parens', lem_strip), ('print_tree', lem_shown)):
        fs = [x for x in c.p.fns.values() if x['n'].endswith('strings::' + n)]
        if not fs:
            continue
        e = run(lem, c, fs[0])
        n_fn += 1
        c.ob(f'text:{n}', not e, where, f'{n}: {e}')
    for x in c.p.fns.values():
        if x['n'].endswith('::fmt') and 'strings' in x['n'] and 'PostfixExpr' in str(x):
            e = run(lem_shown, c, x)
            n_fn += 1
            c.ob('text:Display', not e, where, f'Display: {e}')
    for n in ('tree_mapreduce', 'tree_mapreduce_with_stack'):
        e = run(lem_reduce, c, c.p.fn('node_utils::' + n))
        c.ob(f'text:{n}', not e, 'dynamic_expressions/src/node_utils.rs', f'{n}: {e}')
    c.floor('printing functions', n_fn, 3)
