"""Query helpers shared by the rules: everything works on value terms and facts of inlined flows, never on
source text, so that helpers, early returns, combinators and loop forms make no difference."""
from .term import T, mk, const, show, walk, path_str
from .mir import Missing, strip_generics, last, short
from .flow import neg, fact
from .inline import cname


def lastname(t):
    """last path segment of a call term"""
    return t.a[0].split('::')[-1] if t.op == 'call' else None


def strip_refs(t):
    while isinstance(t, T) and t.op in ('ref', 'refm'):
        break
    return t


def is_call(t, *names):
    return isinstance(t, T) and t.op == 'call' and (t.a[0] in names or t.a[0].split('::')[-1] in names)


def is_fld(t, name, adt=None):
    return isinstance(t, T) and t.op == 'fld' and t.a[2] == name and (adt is None or t.a[1].split('::')[-1] == adt)


def base_of_fld(t):
    return t.a[0]


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


def has_fld(t, name):
    return mentions(t, lambda x: x.op == 'fld' and x.a[2] == name)


def expand(F, t, limit=300):
    """t with phis flattened: all non-phi alternatives"""
    return F.phi_closure(t, limit)


def deep(F, t, limit=3000):
    """all sub-terms of t, going through phi operands as well"""
    seen = set()
    st = [t]
    while st and len(seen) < limit:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            for _, v in F.phi_ops.get(x, []):
                st.append(v)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, tuple):
                        st += [w for w in z if isinstance(w, T)]
                        for w in z:
                            if isinstance(w, tuple):
                                st += [q for q in w if isinstance(q, T)]
    return seen


def depends(F, t, pred, limit=3000):
    return any(pred(x) for x in deep(F, t, limit))


IDENT_MUT = {'IndexMut::index_mut', 'Index::index', 'DerefMut::deref_mut', 'Deref::deref', 'AsMut::as_mut',
             'Vec::as_mut_slice', 'slice::iter_mut', 'slice::len', 'Vec::len', 'Vec::is_empty', 'slice::is_empty', 'IntoIterator::into_iter', 'Iterator::next', 'Option::as_mut'}


def path_fields(path):
    return [e[2] for e in path if e[0] == 'f']


def muts(F, field, adt=None):
    """events that may change something at or below a `.field` location: (node, ev, suffix after the field,
    value term or None)"""
    out = []

    def hit(root, path):
        for n, e in enumerate(path):
            if e[0] == 'f' and e[2] == field and (adt is None or e[1].split('::')[-1] == adt):
                return path[n + 1:]
        if isinstance(root, T):
            # root itself may be below the field: elem(...field...), vf(...)
            if mentions_loc(root, field, adt):
                return path
        return None
    for i, e in F.events():
        if e.k == 'write':
            s = hit(e.root, e.path)
            if s is not None:
                out.append((i, e, s, e.value))
        elif e.k == 'call':
            if e.cn in IDENT_MUT:
                continue
            for j, a in enumerate(e.raw):
                if a.op == 'refm':
                    s = hit(a.a[0], a.a[1])
                    if s is not None:
                        out.append((i, e, s, None))
                elif F.is_mut_ty(e.at[j]) and a.op not in ('ref',):
                    if mentions_loc(a, field, adt):
                        out.append((i, e, (), None))
    return out


def mentions_loc(t, field, adt=None):
    """t denotes a location derived (by iteration / projection) from a `.field`"""
    seen = 0
    while isinstance(t, T) and seen < 30:
        seen += 1
        if t.op == 'fld':
            if t.a[2] == field and (adt is None or t.a[1].split('::')[-1] == adt):
                return True
            t = t.a[0]
        elif t.op in ('elem', 'vf', 'idx', 'dc', 'next', 'with', 'upd', 'sub'):
            if t.op == 'upd':
                t = t.a[3] if len(t.a) > 3 and isinstance(t.a[3], T) else t.a[1]
                continue
            t = t.a[0]
        elif t.op in ('ref', 'refm'):
            for e in t.a[1]:
                if e[0] == 'f' and e[2] == field and (adt is None or e[1].split('::')[-1] == adt):
                    return True
            if isinstance(t.a[0], T):
                t = t.a[0]
            else:
                return False
        elif t.op == 'call' and len(t.a) > 1 and t.a[0].split('::')[0] in ('Iterator', 'slice', 'Vec', 'IntoIterator', 'Option', 'DoubleEndedIterator'):
            t = t.a[1]
        else:
            return False
    return False


def from_field(F, t, field, adt=None):
    """t denotes (an iteration over) a `.field` location, possibly after in-place changes and joins"""
    seen, st = set(), [t]
    while st and len(seen) < 100:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            st += [v for _, v in F.phi_ops.get(x, [])]
        elif x.op == 'with':
            st.append(x.a[0])
        elif x.op == 'upd':
            st.append(x.a[1] if len(x.a) == 2 else x.a[3])
        elif x.op == 'call' and len(x.a) > 1 and isinstance(x.a[1], T):
            st.append(x.a[1])
        elif x.op in ('ref', 'refm'):
            if mentions_loc(x, field, adt):
                return True
        elif x.op == 'fld':
            if x.a[2] == field and (adt is None or x.a[1].split('::')[-1] in (adt, '')):
                return True
            st.append(x.a[0])
        elif x.op in ('elem', 'vf', 'idx', 'dc', 'next', 'sub'):
            st.append(x.a[0])
    return False


def loops(F):
    """iteration points: (header node, source term, [entry nodes of one iteration])"""
    out = []
    for i, e in F.events():
        if e.k == 'call' and e.cn in ('Iterator::next', 'DoubleEndedIterator::next_back') and e.res is not None and e.res.op == 'next':
            ent = []
            for x in F.rpo:
                for s, l in F.n[x].succ:
                    fs = F.edge_fset(x, s, l)
                    if any(f.op == 'is' and f.a[0] is e.res and f.a[1] == 'Some' for f in fs):
                        ent.append(s)
            out.append((i, e.res.a[0], ent))
    for i in F.rpo:
        t = F.f.blocks[F.n[i].b]['t']
        if t['k'] == 'nd':
            callb = t['ts'][0]
            ent = [s for s, _ in F.n[i].succ if F.n[s].b != callb]
            src = None
            for s, _ in F.n[i].succ:
                if F.n[s].b == callb:
                    for e in F.n[s].events:
                        if e.k == 'call' and e.args:
                            src = e.args[0]
            if src is not None and ent:
                out.append((i, src, ent))
    return out


def each_iteration(F, srcpred, actions, excuse=None):
    """every iteration over a matching source passes one of the action nodes before the next iteration or a
    return. Returns (number of loops, offending path or None)"""
    n = 0
    rets = set(F.ret_nodes())
    for h, src, ent in loops(F):
        if not srcpred(src):
            continue
        n += 1
        for s in ent:
            if s in actions:
                continue
            p = F.path_avoiding(rets | {h}, actions,
                                (lambda x, t, l: any(excuse(f) for f in F.edge_fset(x, t, l))) if excuse else None, s)
            if p is not None:
                return n, p
    return n, None


def fmt(F, path):
    if not path:
        return ''
    out = []
    for i in path:
        w = F.where(i)
        if not out or out[-1] != w:
            out.append(w)
    return ' -> '.join(out[:3] + (['...'] if len(out) > 8 else []) + out[3:][-5:])


def fact_has(facts, pred):
    return any(pred(f) for f in facts)


def calls_named(F, *names):
    """call events whose canonical name, or its last segment, is in names"""
    out = []
    for i, e in F.events():
        if e.k == 'call' and (e.cn in names or (e.cn or '').split('::')[-1] in names):
            out.append((i, e))
    return out


def arg_root(t):
    """strip projections: the root term"""
    while isinstance(t, T) and t.op in ('fld', 'vf', 'idx', 'dc', 'elem', 'next', 'with', 'sub'):
        t = t.a[0]
    return t


# ---------------------------------------------------------------- result cases
def _sub(t, m, d=0):
    """replace phis (by map) at expandable positions"""
    if t in m:
        return _sub(m[t], m, d + 1) if d < 20 else m[t]
    if d > 4:
        return t
    if t.op in ('agg', 'tuple'):
        a = tuple(_sub(x, m, d + 1) if isinstance(x, T) else x for x in t.a)
        return t if a == t.a else mk(t.op, *a)
    if t.op == 'with':
        b = _sub(t.a[0], m, d + 1)
        e = tuple((p, _sub(x, m, d + 1)) for p, x in t.a[1])
        return t if b is t.a[0] and e == t.a[1] else mk('with', b, e)
    if t.op == 'upd' and len(t.a) > 3:
        b = _sub(t.a[3], m, d + 1)
        return t if b is t.a[3] else mk('upd', *(t.a[:3] + (b,) + t.a[4:]))
    if t.op == 'fld':
        b = _sub(t.a[0], m, d + 1)
        return t if b is t.a[0] else F_proj(b, t)
    return t


def F_proj(b, t):
    from .flow import Flow
    return Flow.proj1(_DUMMY, b, ('f', t.a[1], t.a[2]))


class _D:
    pass


def _mkdummy():
    from .flow import Flow
    class D(Flow):
        def __init__(self):
            pass
    return D()


_DUMMY = _mkdummy()


def _phi_in(F, t, d=0, under=None):
    """first phi at an expandable position"""
    if t.op == 'phi':
        return t if t in F.phi_ops else None
    if d > 4:
        return None
    if t.op == 'agg' or t.op == 'tuple':
        for x in t.a:
            if isinstance(x, T):
                r = _phi_in(F, x, d + 1)
                if r is not None:
                    return r
    if t.op == 'with':
        r = _phi_in(F, t.a[0], d + 1)
        if r is not None:
            return r
        for p, x in t.a[1]:
            r = _phi_in(F, x, d + 1)
            if r is not None:
                return r
    if t.op == 'upd' and len(t.a) > 3:
        return _phi_in(F, t.a[3], d + 1)
    if t.op == 'fld':
        return _phi_in(F, t.a[0], d + 1)
    return None


def cases(F, v, fields=None, lim=400, depth=None):
    """alternatives of a value with consistent choices for phis of one join. `fields`: tuple positions of
    interest (others are not expanded). Returns [(components, [(pred, node)])]."""
    out = []
    st = [(v, (), 0)]
    seen = set()
    n = 0
    while st:
        t, via, stage = st.pop()
        n += 1
        if n > lim * 10 or len(out) > lim:
            raise Missing('too many alternatives of a result')
        k = (t, via, stage)
        if k in seen:
            continue
        seen.add(k)
        if stage == 0:
            if t.op == 'phi' and t in F.phi_ops:
                for t2, via2 in _choose(F, t, t, via):
                    st.append((t2, via2, 0))
                continue
            comps = [t]
            if fields is not None:
                comps = [F.proj1(t, ('f', 'tuple', f) if isinstance(f, str) else f) for f in fields]
            st.append((mk('agg', 'cases', tuple(str(i) for i in range(len(comps))), *comps), via, 1))
            continue
        ph = None
        for c in t.a[2:]:
            ph = _phi_in(F, c, 3 if depth == 0 else 0)
            if ph is not None:
                break
        if ph is None:
            out.append((list(t.a[2:]), list(via)))
            continue
        for t2, via2 in _choose(F, t, ph, via):
            st.append((t2, via2, 1))
    return out


def _choose(F, t, ph, via):
    node = F.phi_key[ph][0]
    same = [p for p in F.phi_ops if F.phi_key.get(p, (None,))[0] == node]
    if sum(1 for _, n in via if n == node) > 0:
        # second visit of a join (loop): leave the phi alone
        m = {p: mk('loopphi', p) for p in same}
        yield _sub(t, m), via
        return
    for pr, _ in F.phi_ops[ph]:
        m = {}
        for p in same:
            for q, x in F.phi_ops[p]:
                if q == pr:
                    m[p] = x
        yield _sub1(t, m), via + ((pr, node),)


def _sub1(t, m, d=0):
    """one-step substitution (no chasing)"""
    if t in m:
        return m[t]
    if d > 4:
        return t
    if t.op in ('agg', 'tuple'):
        a = tuple(_sub1(x, m, d + 1) if isinstance(x, T) else x for x in t.a)
        return t if a == t.a else mk(t.op, *a)
    if t.op == 'with':
        b = _sub1(t.a[0], m, d + 1)
        e = tuple((p, _sub1(x, m, d + 1)) for p, x in t.a[1])
        return t if b is t.a[0] and e == t.a[1] else mk('with', b, e)
    if t.op == 'upd' and len(t.a) > 3:
        b = _sub1(t.a[3], m, d + 1)
        return t if b is t.a[3] else mk('upd', *(t.a[:3] + (b,) + t.a[4:]))
    if t.op == 'fld':
        b = _sub1(t.a[0], m, d + 1)
        return t if b is t.a[0] else F_proj(b, t)
    return t


def case_guarded(F, via, ret, pred):
    """every path realising this alternative takes an edge satisfying pred; else an offending path"""
    worst = None
    for pr, node in via:
        if pr == -1:
            continue
        edges = [l for s, l in F.n[pr].succ if s == node]
        if edges and all(any(pred(f) for f in F.edge_fset(pr, node, l)) for l in edges):
            return None
        p = F.guard_path([pr], pred)
        if p is None:
            return None
        worst = worst or p
    p = F.guard_path([ret], pred)
    if p is None:
        return None
    return worst or p


def case_where(F, via, ret):
    return F.where(via[-1][0]) if via and via[-1][0] != -1 else F.where(ret)


def strip_upd(t, *names):
    while t.op == 'upd' and len(t.a) > 3 and (not names or t.a[0] in names or t.a[0].split('::')[-1] in names):
        t = t.a[3]
    return t


def fld(F, t, name):
    """field of a value, seeing through updates of the value and overwritten fields"""
    t = strip_upd(t)
    for x in (t,):
        if t.op == 'with':
            for p, v in t.a[1]:
                if p and p[0][0] == 'f' and p[0][2] == name:
                    return F.proj1(t, p[0])
            return fld(F, t.a[0], name)
    if t.op == 'agg' and name in t.a[1]:
        return t.a[2 + t.a[1].index(name)]
    return mk('fld', t, '', name)


def must_derive(F, t, pred, seen=None):
    """the value comes, on every path, through a term satisfying pred (followed through projections, updates,
    overwrites and joins)"""
    seen = seen if seen is not None else set()
    while isinstance(t, T):
        if pred(t):
            return True
        if t in seen:
            return True
        seen.add(t)
        if t.op == 'phi':
            ops = F.phi_ops.get(t)
            return bool(ops) and all(must_derive(F, v, pred, seen) for _, v in ops)
        if t.op == 'upd':
            t = t.a[3] if len(t.a) > 3 else t.a[1]
        elif t.op in ('with', 'fld', 'vf', 'idx', 'dc', 'elem', 'next', 'sub', 'loopphi'):
            t = t.a[0]
        elif t.op == 'call' and t.a[0].split('::')[-1] in ('clone', 'unwrap', 'expect', 'from', 'into', 'max', 'min', 'cloned', 'copied', 'to_owned') and isinstance(t.a[1], T):
            t = t.a[1]
        elif t.op in ('ref', 'refm') and isinstance(t.a[0], T):
            t = t.a[0]
        else:
            return False
    return False


def via_upd(name):
    return lambda x: x.op == 'upd' and x.a[0].split('::')[-1] == name


def contents(F, t, via, node):
    """a reference resolved to what it points at when this alternative was chosen (else at `node`)"""
    for pr, _ in reversed(via or []):
        if pr != -1:
            node = pr
            break
    st = F.n[node].outst
    return F.resolve(dict(st), t) if isinstance(t, T) and t.op in ('ref', 'refm') and st is not None else t


def uniq(F, t):
    """the one value a phi can stand for (a value carried unchanged through inner loops), else t"""
    if isinstance(t, T) and t.op == 'phi':
        r = F.phi_closure(t)
        if len(r) == 1:
            return list(r)[0]
    return t


def whole(F, t, d=0):
    """the container a term denotes, element writes put aside (they leave its length alone)"""
    seen, out, w = set(), set(), [t]
    while w:
        x = w.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'with' and all(p and p[0][0] == 'i' for p, _ in x.a[1]):
            w.append(x.a[0])
        elif x.op == 'phi' and x in F.phi_ops:
            w += [v for _, v in F.phi_ops[x]]
        else:
            out.add(x)
    return out.pop() if len(out) == 1 else t


def veclist(t):
    """elements of a vector built from a literal and pushes, or None"""
    while isinstance(t, T) and t.op in ('ref', 'refm') and not t.a[1] and isinstance(t.a[0], T):
        t = t.a[0]
    if not isinstance(t, T):
        return None
    if t.op == 'agg' and t.a[0] in ('array', 'vec'):
        return [x for x in t.a[1:] if isinstance(x, T)]
    if t.op == 'call':
        l = t.a[0].split('::')[-1]
        if t.a[0] in ('Vec::new', 'Vec::with_capacity') or l in ('default',):
            return []
        if l in ('to_vec', 'into_vec', 'from', 'into', 'into_boxed_slice', 'collect', 'clone') and len(t.a) >= 2:
            return veclist(t.a[1])
    if t.op == 'upd':
        l = t.a[0].split('::')[-1]
        b = veclist(t.a[3])
        if b is None:
            return None
        if l == 'push':
            return b + [t.a[4]]
        if l in ('reserve', 'reserve_exact', 'shrink_to_fit'):
            return b
    return None
