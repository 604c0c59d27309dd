"""P18: settings chosen outside reach the search unchanged."""
from sa.core import *
from sa.rulelib import *
from sa.walk import Walk, Loop, rebuild
from sa.term import mk, T, show
from rules import rule
from rules.engine import mk_arg
from rules.wellformed import Bad, empty, rets, run
from rules.simplify import last, accs_of, impossible, deref, pushed
from rules.choice import loops_in, plain
from rules.calculus import PARSE
from rules.browser import bare
from rules.report import wasm_method, guarded

SHIM = 'options::WasmOptionsShim'
OPTS = 'options::Options'
LOST = {'fraction_replaced_guesses', 'form_connection', 'break_connection'}   # announced, not used by this implementation
PARAM = {'huber': 'huber_delta', 'lp': 'lp_p', 'quantile': 'quantile_tau', 'epsiloninsensitive': 'epsilon_insensitive_eps', 'epsinsensitive': 'epsilon_insensitive_eps'}
NAMES = ('mse', 'mae', 'rmse', 'huber', 'logcosh', 'lp', 'quantile', 'epsilon-insensitive')


def fields(c, adt):
    return [f['n'] for f in c.p.adt(adt)['vs'][0]['f']]


def get(t, n):
    """field n of a record term"""
    t = deref(t)
    while True:
        if t.op == 'agg' and t.a[1] and n in t.a[1]:
            return deref(t.a[2 + t.a[1].index(n)])
        if t.op == 'with':
            for path, v in reversed(t.a[1:] if not isinstance(t.a[1], tuple) or t.a[1] and not isinstance(t.a[1][0], tuple) else t.a[1]):
                if path and path[0][0] == 'f' and path[0][2] == n:
                    if len(path) > 1:
                        raise Bad(f'only a part of {n} is set')
                    return deref(v)
            t = deref(t.a[0])
            continue
        return t


def is_field(t, base, n):
    t = bare(t)
    return t.op == 'fld' and t.a[2] == n and bare(t.a[0]) is bare(base)


def lem_apply(c, fn):
    """every knob of the wire format lands in the option of its name"""
    F = c.ctx.flow(fn, ())
    S, O = mk_arg(F, 1), mk_arg(F, 2)
    have = fields(c, SHIM)
    opt = fields(c, OPTS)
    for n in have:
        if n not in opt:
            return f'the search has no option {n}'
    from rules.wellformed import final
    k = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        v = final(F, p, 2)
        for n in have:
            g = get(v, n)
            if not is_field(g, S, n):
                return f'option {n} becomes {show(g)[:80]}'
        for n in opt:
            if n not in have:
                g = get(v, n)
                if not (g is v or is_field(g, O, n) or g is deref(O) or g.op not in ('const', 'agg', 'fld')):
                    return f'option {n}, which is not transmitted, becomes {show(g)[:80]}'
        k += 1
    return None if k else 'no path'


def default_of(c, name):
    fs = [f for f in c.p.fns.values() if f['n'].endswith(' as std::default::Default>::default') and f"::{name}" in f['n'].split(' as ')[0]
          and f['n'].split(' as ')[0].split('::')[-1].split('<')[0] == name]
    if len(fs) != 1:
        raise Bad(f'{len(fs)} defaults of {name}')
    F = c.ctx.flow(fs[0], ())
    vs = {deref(v) for _, v in F.returns()}
    if len(vs) != 1:
        raise Bad(f'the default of {name} is not unique')
    v = vs.pop()
    if v.op != 'agg' or not v.a[1]:
        raise Bad(f'the default of {name} is {show(v)[:80]}')
    return v


def same(a, b):
    a, b = deref(a), deref(b)
    if a is b:
        return True
    if a.op == b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
        return all(same(x, y) for x, y in zip(a.a[2:], b.a[2:]) if isinstance(x, T))
    return False


def lem_defaults(c, fn):
    a, b = default_of(c, 'WasmOptionsShim'), default_of(c, 'Options')
    for n in fields(c, SHIM):
        x, y = get(a, n), get(b, n)
        if not same(x, y):
            return f'the default of {n} is {show(x)[:60]} for the browser and {show(y)[:60]} otherwise'
    w = default_of(c, 'WasmSearchOptions')
    if not same(get(w, 'core'), a):
        return f'the browser starts from other settings: {show(get(w, "core"))[:80]}'
    return None


def name_of(t, arg):
    """t is the given name up to case and surrounding blanks"""
    t = bare(t)
    while is_call(t, 'trim', 'to_ascii_lowercase', 'to_lowercase', 'as_str', 'clone', 'to_string', 'as_ref', 'deref', 'borrow', 'to_owned'):
        t = bare(t.a[1])
    return is_field(t, arg, 'loss_kind')


def lem_options(c, fn):
    F = c.ctx.flow(fn, ('make_loss',))
    W, OP = mk_arg(F, 1), mk_arg(F, 2)
    opt, have = fields(c, OPTS), fields(c, SHIM)
    dflt = default_of(c, 'Options')
    seen = set()
    bad = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        fs = [rebuild(f, p.env) for f in p.facts]
        r = deref(rebuild(p.ret, p.env))
        lits = []
        for f in fs:
            g, pos = (f.a[0], False) if f.op == 'not' else (f, True)
            if g.op == 'ne':
                pos = not pos
            if g.op in ('eq', 'ne') and isinstance(g.a[1], T):
                x, y = g.a[:2]
                for a, b in ((x, y), (y, x)):
                    if name_of(a, W) and b.op == 'const':
                        lits.append((str(b.a[0]).strip('"'), pos))
            elif is_call(g, 'eq_ignore_ascii_case'):
                for a, b in ((g.a[1], g.a[2]), (g.a[2], g.a[1])):
                    if name_of(a, W) and deref(b).op == 'const':
                        lits.append((str(deref(b).a[0]).strip('"'), pos))
        yes = [l for l, pos in lits if pos]
        if r.op == 'agg' and last(r.a[0]) == 'Err':
            if yes:
                return f'the loss name {yes[0]} is refused'
            if not set(NAMES) <= {l for l, pos in lits if not pos}:
                return 'a known loss name can be refused: ' + str(sorted(set(NAMES) - {l for l, pos in lits if not pos}))
            bad += 1
            continue
        if not (r.op == 'agg' and last(r.a[0]) == 'Ok'):
            return f'returns {show(r)[:80]}'
        v = r.a[2]
        for n in opt:
            g = get(v, n)
            if n == 'operators':
                ok = bare(g) is bare(OP)
            elif n == 'loss':
                ok = is_call(g, 'make_loss')
            elif n == 'progress':
                ok = g.op == 'const' and g.a[0] in (0, False) or is_field(bare(g).a[0] if bare(g).op == 'fld' else g, W, 'core') and bare(g).a[2] == n
            elif n in have:
                b = bare(g)
                ok = b.op == 'fld' and b.a[2] == n and is_field(b.a[0], W, 'core')
            else:
                ok = same(g, get(dflt, n)) or g.op == 'call' and get(dflt, n).op == 'call' and g.a[0] == get(dflt, n).a[0]
            if not ok:
                return f'option {n} becomes {show(g)[:80]}'
        k = deref(get(v, 'loss').a[1])
        if len(yes) != 1:
            return f'a loss is chosen without its name ({show(k)[:60]})' if not yes else f'a loss goes by the names {yes}'
        l = yes[0]
        exp = PARSE.get(l) or PARSE.get(l.replace('_', '-')) or PARSE.get(l.replace('eps-', 'epsilon-').replace('eps_', 'epsilon-'))
        exp = exp[0] if exp else None
        if k.op != 'agg' or exp is None or last(k.a[0]) != exp:
            return f'the loss name {l} selects {show(k)[:60]}'
        par = PARAM.get(l.replace('-', '').replace('_', ''))
        vals = [x for x in k.a[2:] if isinstance(x, T)]
        if par is None:
            if vals:
                return f'the loss {l} takes {show(vals[0])[:60]}'
        elif len(vals) != 1 or not is_field(vals[0], W, par):
            return f'the loss {l} is given {[show(x)[:60] for x in vals]} for its parameter'
        seen.add(l)
    miss = set(NAMES) - seen
    if miss:
        return f'the loss names {sorted(miss)} are not recognised'
    return None if bad else 'an unknown loss name is accepted'


def is_default(t):
    return t.op == 'call' and last(t.a[0]) == 'default' and not any(isinstance(x, T) for x in t.a[1:])


def over(s, site):
    """(list, its current element) for a loop over a list, by element or by position"""
    s = bare(s)
    if s.op == 'agg' and last(s.a[0]) == 'Range' and s.a[2].op == 'const' and s.a[2].a[0] == 0:
        n = bare(s.a[3])
        if n.op == 'len' or is_call(n, 'len'):
            X = bare(n.a[0] if n.op == 'len' else n.a[1])
            i = mk('elem', s, site)
            return X, lambda t: t.op == 'idx' and bare(t.a[0]) is X and bare(t.a[1]) is i or is_call(t, 'index') and bare(t.a[1]) is X and bare(t.a[2]) is i
    return s, lambda t: t.op == 'elem' and t.a[1] == site


def okof(t, name):
    """the success value of a call"""
    t = bare(t)
    while t.op in ('vf', 'fld', 'dc') and isinstance(t.a[0], T):
        if t.op == 'vf' and t.a[1] not in ('Ok', 'Continue', 'Some'):
            return None
        t = bare(t.a[0])
    while is_call(t, 'map_err', 'branch', 'or_else', 'unwrap_or_default', 'unwrap_or', 'unwrap_or_else'):
        t = bare(t.a[1])
        while t.op in ('vf', 'fld') and isinstance(t.a[0], T):
            t = bare(t.a[0])
    return t if is_call(t, name) else None


def lem_new(c, fn):
    F = c.ctx.flow(fn, ('options_from_wasm', 'from_names_by_arity', 'parse_csv_to_rows', 'build_full_dataset', 'make_split_indices', 'split_train_val', 'SearchEngine::new'))
    A = {k: mk_arg(F, k) for k in range(1, 6)}
    dflt = default_of(c, 'WasmSearchOptions')
    sent = [0, 0]

    def opts(t):
        t = bare(t)
        g = okof(t, 'from_value')
        if g is not None and bare(g.a[1]) is bare(A[2]):
            sent[0] += 1
            return True
        if same(t, dflt) or is_default(t):
            sent[1] += 1
            return True
        return False

    def part(t, n, O):
        """field n of the settings used, sent or default"""
        t = bare(t)
        o = bare(O.a[1])
        if okof(o, 'from_value') is None and not is_default(o):
            return same(t, get(get(dflt, 'core') if n == 'seed' else dflt, n))
        if t.op != 'fld' or t.a[2] != n:
            return False
        t = bare(t.a[0])
        if n == 'seed':
            if t.op != 'fld' or t.a[2] != 'core':
                return False
            t = bare(t.a[0])
        return t is o
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = deref(rebuild(p.ret, p.env))
        if r.op == 'agg' and last(r.a[0]) == 'Err':
            continue
        if not (r.op == 'agg' and last(r.a[0]) == 'Ok'):
            return f'returns {show(r)[:80]}'
        E = bare(get(r.a[2], 'engine'))
        if not (is_call(E, 'new') and 'SearchEngine' in E.a[0]):
            return f'the engine is {show(E)[:80]}'
        O = okof(E.a[2], 'options_from_wasm')
        if O is None:
            return f'the engine is given the options {show(E.a[2])[:80]}'
        if not opts(O.a[1]):
            return f'the options come from {show(O.a[1])[:80]}'
        B = okof(O.a[2], 'from_names_by_arity')
        if B is None:
            return f'the operators are {show(O.a[2])[:80]}'
        # unreadable settings fall back to the defaults only when they are unreadable
        for f in (rebuild(f, p.env) for f in p.facts):
            if f.op == 'is' and is_call(f.a[0], 'from_value') and bare(f.a[0].a[1]) is bare(A[2]):
                if (f.a[1] == 'Ok') != (okof(O.a[1], 'from_value') is not None):
                    return 'readable settings are replaced by the defaults'
        for k, what in ((1, 'unary'), (2, 'binary'), (3, 'ternary')):
            m = names(F, p, B.a[k], A[k + 2])
            if m:
                return f'{what} operators: {m}'
        T_ = okof(E.a[1], 'split_train_val')
        if T_ is None or not (bare(E.a[1]).op in ('fld', 'vf')):
            return f'the search runs on {show(E.a[1])[:80]}'
        t1 = bare(E.a[1])
        V = bare(get(r.a[2], 'val_dataset'))
        if not (t1.op == 'fld' and t1.a[2] == '0' and V.op == 'fld' and V.a[2] == '1' and okof(V, 'split_train_val') is T_):
            return f'the search runs on {show(E.a[1])[:80]}, validation on {show(V)[:80]}'
        calls = {}
        for x in terms_of(r):
            if x.op == 'call':
                calls.setdefault(last(x.a[0]), x)
        M = calls.get('make_split_indices')
        if M is None or not (part(M.a[2], 'validation_fraction', O) and part(M.a[3], 'seed', O)):
            return f'the split is {show(M)[:100] if M is not None else None}'
        P = calls.get('parse_csv_to_rows')
        if P is None or not (bare(P.a[1]) is bare(A[1]) and part(P.a[2], 'has_headers', O)):
            return f'the table is {show(P)[:100] if P is not None else None}'
        D = calls.get('build_full_dataset')
        if D is None or not opts(D.a[3]):
            return f'the data is {show(D)[:100] if D is not None else None}'
        n += 1
    if not n:
        return 'no search is ever built'
    return None if sent[0] else 'the settings sent are never used'


def names(F, p, t, arg):
    """the list of texts is exactly the list sent, in order"""
    t = bare(t)
    if okof(t, 'from_value') is not None:
        return None if bare(okof(t, 'from_value').a[1]) is bare(arg) else f'{show(t)[:60]}'
    if t.op == 'phi':
        for L in loops_in(p):
            if t in (L.accs or ()) and t in L.entries:
                if not empty(L.entries[t]):
                    return 'operators are added'
                s, el = over(plain(deref(rebuild(L.src, p.env))), L.site)
                g = okof(s, 'from_value')
                if not (g is not None and bare(g.a[1]) is bare(arg) or s.op == 'call' and last(s.a[0]) in ('default', 'new') and any(
                        f.op == 'is' and f.a[1] == 'Err' and is_call(f.a[0], 'from_value') and bare(f.a[0].a[1]) is bare(arg) for f in (rebuild(f, p.env) for f in p.facts))):
                    return f'they are the names in {show(s)[:80]}'
                for b in L.body:
                    if impossible(b.facts) or b.end != 'back':
                        continue
                    base, x = pushed(accs_of(F, L, b).get(t, t))
                    if base is not t:
                        return 'a name is left out'
                    x = bare(rebuild(x, b.env))
                    if not el(x):
                        return f'{show(x)[:60]} is used for a name'
                return None
    return f'the names are {show(t)[:80]}'


def lem_registry(c, fn):
    """the operators offered are all built-in ones, each with its own description"""
    META = ('name', 'display', 'infix', 'commutative', 'associative', 'complexity')
    F = c.ctx.flow(fn, tuple('OperatorSet::' + m for m in META) + ('OperatorSet::ops_with_arity', 'BuiltinOpsF64::ops_with_arity', 'ops_with_arity'))
    n = 0
    for p in rets(F):
        if impossible(p.facts):
            continue
        r = deref(rebuild(p.ret, p.env))
        xs = [x for x in terms_of(r) if is_call(x, 'to_value')]
        if not xs:
            return f'returns {show(r)[:80]}'
        if r.op == 'agg' and last(r.a[0]) == 'Err':
            continue
        v = bare(xs[0].a[1])
        m = listing(F, p, v, META)
        if m:
            return m
        n += 1
    return None if n else 'nothing is returned'


def listing(F, p, v, META):
    L = next((L for L in loops_in(p) if v in (L.accs or ()) and v in L.entries), None)
    if L is None:
        return f'the list is {show(v)[:80]}'
    if not empty(L.entries[v]):
        return 'entries are added to the list'
    s = bare(L.src)
    ok = False
    if is_call(s, 'new') and 'RangeInclusive' in s.a[0]:
        ok = s.a[1].op == 'const' and s.a[1].a[0] in (0, 1) and s.a[2].op == 'const'
        top = s.a[2].a[0] if ok else None
    elif s.op == 'agg' and last(s.a[0]) == 'Range':
        ok = s.a[2].op == 'const' and s.a[2].a[0] in (0, 1) and s.a[3].op == 'const'
        top = s.a[3].a[0] - 1 if ok else None
    if not ok or top < 3:
        return f'the numbers of arguments listed are {show(s)[:60]}'
    ar = mk('elem', s, L.site)
    for b in L.body:
        if impossible(b.facts) or b.end != 'back':
            continue
        x = accs_of(F, L, b).get(v, v)
        In = next((I for I in b.items if isinstance(I, Loop) and x in (I.accs or ())), None)
        if In is None:
            return 'operators of some number of arguments are left out'
        if bare(In.entries[x]) is not v:
            return 'the list is restarted'
        s2, el = over(rebuild(In.src, b.env), In.site)
        if not (is_call(s2, 'ops_with_arity') and any(bare(deref(y)).op == 'elem' and bare(y).a[1] == L.site for y in s2.a[1:] if isinstance(y, T))):
            return f'the operators listed are {show(s2)[:80]}'
        k = 0
        for q in In.body:
            if impossible(q.facts) or q.end != 'back':
                continue
            base, y = pushed(accs_of(F, In, q).get(x, x))
            if base is not x:
                return 'an operator is left out'
            y = deref(rebuild(y, q.env))
            if y.op != 'agg':
                return f'lists {show(y)[:80]}'

            def isop(o):
                o = bare(o)
                if o.op != 'agg' or 'arity' not in (o.a[1] or ()):
                    return False
                a, i = (bare(get(o, z)) for z in ('arity', 'id'))
                return a.op == 'elem' and a.a[1] == L.site and el(i)
            a = bare(get(y, 'arity'))
            if not (a.op == 'elem' and a.a[1] == L.site):
                return f'the number of arguments shown is {show(a)[:60]}'
            none = [f for f in (rebuild(f, q.env) for f in q.facts) if f.op == 'is' and is_call(f.a[0], 'infix')]
            for m in META:
                g = bare(get(y, m))
                while is_call(g, 'to_string', 'map', 'to_owned', 'from', 'into'):
                    g = bare(g.a[1])
                if m == 'infix' and g.op == 'agg':
                    if last(g.a[0]) == 'None':
                        if any(f.a[1] == 'None' and isop(f.a[0].a[1]) for f in none):
                            continue
                        return 'a symbol is left out'
                    g = bare(g.a[2])
                    while is_call(g, 'to_string', 'to_owned', 'from', 'into'):
                        g = bare(g.a[1])
                    if g.op == 'vf' and g.a[1] == 'Some':
                        g = bare(g.a[0])
                if not (is_call(g, m) and isop(g.a[1])):
                    return f'the {m} shown is {show(g)[:80]}'
            k += 1
        if not k:
            return 'no operator is listed'
    return None


def reads(c, adts):
    """(type, field) -> functions whose code reads the field of such a record"""
    out = {}

    def place(p, f):
        for e in p[1]:
            if isinstance(e, list) and e[0] == 'f' and e[1].split('::')[-1] in adts:
                out.setdefault((e[1].split('::')[-1], e[2]), set()).add(f)

    def go(x, f):
        if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            place(x, f)
        elif isinstance(x, list):
            for y in x:
                go(y, f)
        elif isinstance(x, dict):
            for k, y in x.items():
                go(y, f)
    for i, f in c.p.fns.items():
        for b in f['blocks']:
            if b.get('c'):
                continue
            for s in b['st']:
                if s['k'] == '=':
                    go(s['r'], i)
                    if len(s['p'][1]) > 1:
                        go(s['p'][1][:-1], i)
            t = dict(b['t'])
            t.pop('d', None)
            go(t, i)
    return out


def terms_of(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, tuple):
                        st += [w for w in z if isinstance(w, T)]
    return seen


@rule('P18',
      'Value flow of settings: the function that applies the wire format is summarised, and every field it carries must end up, on '
      'every path, in the option of the same name, all others untouched; the default values of both records are compared field by '
      'field. The function that builds the options is walked path by path: the operators given, each transmitted field, and, under '
      'each loss name, the loss kind of that name with its own parameter. The constructor is walked the same way: settings, table, '
      'share, seed and the three operator lists each come from the argument of that role. The operator list offered is read as two '
      'nested loops over arities and operators pushing one entry each. Finally every transmitted option must be read somewhere in '
      'the code reachable from the parallel search and from the stepwise one.',
      ['the derived (de)serialisation of the settings maps each field to the key of its name'])
def p18(c):
    f = c.p.fn('WasmOptionsShim::apply_to')
    m = guarded(lem_apply, c, f)
    c.ob('apply', m is None, f['id'], m)
    m = guarded(lem_defaults, c, f)
    c.ob('defaults', m is None, 'symbolic_regression/src/options.rs', m)
    f = c.p.fn('symbolic_regression_wasm::options_from_wasm')
    m = guarded(lem_options, c, f)
    c.ob('options', m is None, f['id'], m)
    f = c.p.fn('WasmSearch::new')
    m = guarded(lem_new, c, f)
    c.ob('constructor', m is None, f['id'], m)
    f = c.p.fn('symbolic_regression_wasm::builtin_operator_registry')
    m = guarded(lem_registry, c, f)
    c.ob('registry', m is None, f['id'], m)
    # every knob has an effect
    R = reads(c, ('Options', 'MutationWeights'))
    roots = {'parallel': [g for g in c.p.fns if g.split('::')[-1] == 'equation_search'], 'stepwise': [g for g in c.p.fns if '{impl' in g and g.split('::')[-1] in ('step', 'new') and 'search_utils' in g]}
    for w, rs in roots.items():
        c.need(rs, f'no {w} search')
        live = c.ctx.reach(rs)
        k = 0
        for ty, adt in (('Options', SHIM), ('MutationWeights', 'options::MutationWeights')):
            for n in fields(c, adt):
                if n in LOST or n == 'progress' or n == 'seed' and w == 'stepwise':
                    continue
                by = {g for g in R.get((ty, n), ()) if g in live and not any(s in g.split('::')[-1] for s in ('apply_to', 'clone', 'fmt', 'default', 'serialize'))}
                c.ob(f'used-{w}-{n}', bool(by), 'symbolic_regression/src/options.rs', f'the option {n} has no effect in the {w} search')
                k += 1
        c.floor(f'options used by the {w} search', k, 40)
