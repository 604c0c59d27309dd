"""Control-flow-graph inlining. Splices local callees, closures and the std Option/Result/bool
combinators into one flat body, so that a rule sees through helpers, `?`, `map`, `unwrap_or_else` ...
A closure handed to any other std function is modelled as executed zero or more times at that call."""
import copy
from .mir import strip_generics, short


def cname(n):
    """canonical callee name: the last two readable path segments (`Vec::len`, `slice::len`,
    `Iterator::next`, `hall_of_fame::foo`)."""
    n = n.replace('<impl [T]>', 'slice').replace('[T]', 'slice')
    if n.startswith('<') and ' as ' in n:
        # <A as Trait>::f  -> Trait::f
        d = 0
        for j, c in enumerate(n):
            if c == '<':
                d += 1
            elif c == '>' and n[j - 1] != '-':
                d -= 1
                if d == 0:
                    inner, rest = n[1:j], n[j + 1:]
                    # split at top-level ' as '
                    dd = 0
                    k = None
                    for i, ch in enumerate(inner):
                        if ch == '<':
                            dd += 1
                        elif ch == '>' and inner[i - 1] != '-':
                            dd -= 1
                        elif dd == 0 and inner.startswith(' as ', i):
                            k = i
                    tr = inner[k + 4:] if k is not None else inner
                    segs = [x for x in strip_generics(tr).split('::') if x]
                    r = [x for x in strip_generics(rest).split('::') if x]
                    return segs[-1] + '::' + r[-1]
    # `foo::<impl Trait for X>::f` and `foo::<impl f64>::f`
    import re
    m = re.search(r'<impl (?:.* for )?(.+)>::([A-Za-z_0-9]+)$', n)
    if m:
        mt = re.search(r'<impl (.*?) for ', n)
        if mt:
            segs = [x for x in strip_generics(mt.group(1)).split('::') if x]
            return segs[-1] + '::' + m.group(2)
        t = strip_generics(m.group(1))
        if t.startswith('[') or t == 'slice':
            t = 'slice'
        return t.split('::')[-1] + '::' + m.group(2)
    segs = [x for x in strip_generics(n).split('::') if x]
    return '::'.join(segs[-2:])


def P(l, proj=()):
    return [l, list(proj)]


def CP(p):
    return {'k': 'copy', 'p': p}


def MV(p):
    return {'k': 'move', 'p': p}


def USE(o):
    return {'k': 'use', 'o': o}


def CONSTB(b):
    return {'k': 'const', 'ty': 'bool', 'val': 1 if b else 0, 's': str(bool(b)).lower()}


def AGG(adt, v, vi, ops, fs=None):
    return {'k': 'agg', 'a': 'adt', 'adt': adt, 'enum': True, 'v': v, 'vi': vi,
            'fs': fs if fs is not None else [str(i) for i in range(len(ops))], 'ops': ops}


LAZY = {'Iterator::filter', 'Iterator::map', 'Iterator::filter_map', 'Iterator::inspect', 'Iterator::take_while',
        'Iterator::map_while', 'Iterator::flat_map'}
CONSUMERS = {'Iterator::' + x for x in ('any', 'all', 'for_each', 'fold', 'find', 'find_map', 'position', 'collect', 'sum',
             'count', 'min_by', 'max_by', 'min_by_key', 'max_by_key', 'last', 'max', 'min', 'product', 'partition', 'unzip', 'nth')}


def cp(o):
    return CP(o['p']) if o.get('k') == 'move' else o


OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'


def some(o):
    return AGG(OPT, 'Some', 1, [o])


def none():
    return AGG(OPT, 'None', 0, [])


def ok(o):
    return AGG(RES, 'Ok', 0, [o])


def err(o):
    return AGG(RES, 'Err', 1, [o])


class Flat:
    def __init__(self, root):
        self.root = root
        self.locals = []
        self.blocks = []
        self.argc = 0

    def preds(self):
        pr = [[] for _ in self.blocks]
        for i, b in enumerate(self.blocks):
            for s in succs(b['t']):
                pr[s].append(i)
        return pr


def succs(t):
    k = t['k']
    if k == 'goto':
        return [t['t']]
    if k == 'switch':
        r = [x[1] for x in t['ts']]
        if t.get('e') is not None:
            r.append(t['e'])
        return list(dict.fromkeys(r))
    if k == 'nd':
        return list(t['ts'])
    if k in ('call', 'assert', 'drop'):
        r = [t['t']] if t.get('t') is not None else []
        return r
    return []


class Inliner:
    def __init__(self, prog, opaque=None, only=None, max_depth=40, max_blocks=60000, hof=True):
        """opaque(fnrec) -> True keeps a local callee as a call event."""
        self.p = prog
        self.opaque = opaque or (lambda f: False)
        self.max_depth = max_depth
        self.max_blocks = max_blocks
        self.hof = hof
        self.inlined = set()
        self.opaque_seen = set()
        self.lazy = {}       # block -> (t, ctx) of lazy adapter calls, until claimed by a loop
        self.saved = {}      # adapter block -> (base local, closure operand)
        self.inner = {}      # flat_map block -> (has-part flag local, part local)

    # --- building blocks ---
    def new_local(self, fl, ty='?', **kw):
        fl.locals.append(dict(ty=ty, **kw))
        return len(fl.locals) - 1

    def new_block(self, fl, ctx, st=None, t=None, s=None):
        fl.blocks.append({'st': st or [], 't': t, 'ctx': ctx, 's': s})
        return len(fl.blocks) - 1

    def run(self, fn):
        fl = Flat(fn)
        fl.argc = fn['argc']
        self.fl = fl
        entry = self.splice(fn, fn, (fn['id'],), None, None, True, {})
        assert entry == 0
        while self.lazy:
            bi, (t, ctx) = self.lazy.popitem()
            if bi not in self.saved and self.hof:
                self.hof_model(bi, t, ctx)
        fl.inlined = set(self.inlined)
        fl.opaque = set(self.opaque_seen)
        return fl

    def splice(self, fn, body, ctx, ret_local, ret_block, top, clmap, parts=None):
        """copy body into flat; returns entry block id. ret_local/ret_block: where the value and the
        control go on return (top: keep return)."""
        fl = self.fl
        lb = len(fl.locals)
        for i, l in enumerate(body['locals']):
            d = dict(l)
            d['fn'] = fn['id']
            d['li'] = i
            if i in clmap and 'cl' not in d:
                d['cl'] = clmap[i]
            fl.locals.append(d)
        nloc = len(body['locals'])
        # propagate closure identity through trivial copies/refs of closure-typed params
        changed = True
        while changed:
            changed = False
            for b in body['blocks']:
                for s in b['st']:
                    if s['k'] == '=' and not s['p'][1]:
                        r = s['r']
                        src = None
                        if r['k'] == 'use' and r['o'].get('p') and all(x == '*' for x in r['o']['p'][1]):
                            src = r['o']['p'][0]
                        elif r['k'] in ('ref', 'reborrow') and all(x == '*' for x in r['p'][1]):
                            src = r['p'][0]
                        if src is not None:
                            c = fl.locals[lb + src].get('cl')
                            d = fl.locals[lb + s['p'][0]]
                            if c and not d.get('cl'):
                                d['cl'] = c
                                changed = True
        live = [i for i, b in enumerate(body['blocks']) if not b.get('c')]
        bmap = {}
        for i in live:
            bmap[i] = self.new_block(fl, ctx)
        # the entry block must be first
        pend = []
        for i in live:
            b = body['blocks'][i]
            nb = fl.blocks[bmap[i]]
            nb['st'] = [self.mst(s, lb) for s in b['st']]
            t = self.mterm(b['t'], lb, bmap)
            nb['s'] = b['t'].get('s')
            if t['k'] == 'return' and not top:
                sts = []
                if ret_local is not None:
                    sts.append({'k': '=', 'p': ret_local, 'r': USE(MV(P(lb))), 's': b['t'].get('s'), 'ret': fn['id']})
                for l in range(nloc):
                    sts.append({'k': 'dead', 'l': lb + l})
                nb['st'] = nb['st'] + sts
                t = {'k': 'goto', 't': ret_block, 's': t.get('s')}
            nb['t'] = t
            if t['k'] == 'call':
                pend.append(bmap[i])
        for bi in pend:
            self.expand_call(bi, fn, ctx)
        self._last_base = lb
        return bmap[0]

    # --- mapping ---
    def mplace(self, p, lb):
        pr = []
        for e in p[1]:
            if isinstance(e, list) and e[0] == 'i':
                pr.append(['i', e[1] + lb])
            else:
                pr.append(e)
        return [p[0] + lb, pr]

    def mop(self, o, lb):
        if 'p' in o and isinstance(o['p'], list):
            o = dict(o)
            o['p'] = self.mplace(o['p'], lb)
        return o

    def mrv(self, r, lb):
        r = dict(r)
        for k in ('o', 'a', 'b'):
            if k in r and isinstance(r[k], dict):
                r[k] = self.mop(r[k], lb)
        if 'p' in r and isinstance(r['p'], list):
            r['p'] = self.mplace(r['p'], lb)
        if 'ops' in r:
            r['ops'] = [self.mop(o, lb) for o in r['ops']]
        return r

    def mst(self, s, lb):
        s = dict(s)
        if s['k'] in ('dead', 'live'):
            s['l'] += lb
            return s
        s['p'] = self.mplace(s['p'], lb)
        if 'r' in s:
            s['r'] = self.mrv(s['r'], lb)
        return s

    def mterm(self, t, lb, bmap):
        t = dict(t)
        k = t['k']
        if 't' in t and isinstance(t['t'], int):
            t['t'] = bmap.get(t['t'])
        if k == 'switch':
            t['o'] = self.mop(t['o'], lb)
            t['ts'] = [[v, bmap[b]] for v, b in t['ts']]
            t['e'] = bmap.get(t['e'])
        elif k == 'call':
            t['f'] = self.mop(t['f'], lb)
            t['args'] = [self.mop(a, lb) for a in t['args']]
            t['d'] = self.mplace(t['d'], lb)
            t.pop('u', None)
        elif k == 'assert':
            t['o'] = self.mop(t['o'], lb)
            for x in ('a', 'b'):
                if x in t:
                    t[x] = self.mop(t[x], lb)
        elif k == 'drop':
            t['p'] = self.mplace(t['p'], lb)
        return t

    # --- calls ---
    def closure_of(self, o):
        if o['k'] == 'const':
            return o.get('closure')
        p = o.get('p')
        if p is None:
            return None
        if p[1]:
            return None
        return self.fl.locals[p[0]].get('cl')

    def expand_call(self, bi, fn, ctx):
        fl = self.fl
        b = fl.blocks[bi]
        t = b['t']
        f = t['f']
        if f['k'] != 'const' or 'n' not in f:
            t['cn'] = 'fnptr'
            # a function pointer / fn-typed local
            return
        n = f['n']
        t['cn'] = cname(n)
        rid = f.get('rfn', f['fn'])
        rec = self.p.fns.get(rid)
        t['fid'] = rid
        if len(ctx) > self.max_depth or len(fl.blocks) > self.max_blocks:
            if rec is not None:
                self.opaque_seen.add(rid)
            return
        tr = f.get('trait', '')
        # closure invocation
        if t['cn'] in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once'):
            c = self.closure_of(t['args'][0])
            if c and c in self.p.fns and c not in ctx:
                self.inline_closure(bi, c, t, ctx)
                return
            if t['args'][0]['k'] == 'const' and t['args'][0].get('fn') in self.p.fns:
                # fn item used as a callable
                pass
            return
        if rec is not None and rec['kind'] in ('Fn', 'AssocFn'):
            if rid in ctx or t['cn'] == 'Clone::clone' or self.opaque(rec):
                self.opaque_seen.add(rid)
                return
            self.inline_fn(bi, rec, t, ctx)
            return
        if self.std(bi, t, ctx):
            return
        if self.hof and t['cn'] in LAZY and len(t['args']) == 2 and self.callable_op(t['args'][1]):
            self.lazy[bi] = (t, ctx)
            return
        if self.hof and self.iter_loop(bi, t, ctx):
            return
        if self.hof:
            self.hof_model(bi, t, ctx)

    def callable_op(self, o):
        c = self.closure_of(o)
        return bool(c and c in self.p.fns) or (o['k'] == 'const' and 'n' in o)

    # --- iterator desugaring ---
    def single_def(self, l):
        """the unique definition of flat local l: ('s', rvalue) or ('c', block) or None"""
        r = None
        for bi, b in enumerate(self.fl.blocks):
            for s in b['st']:
                if s['k'] == '=' and s['p'][0] == l and not s['p'][1]:
                    if r is not None:
                        return None
                    r = ('s', s['r'])
            t = b['t']
            if t and t['k'] == 'call' and t['d'][0] == l and not t['d'][1]:
                if r is not None:
                    return None
                r = ('c', bi)
        return r

    def trace_iter(self, o, depth=0):
        """the chain of lazy closure adapters behind iterator operand o, innermost first: [block, ...]"""
        chain = []
        for _ in range(40):
            if o.get('k') not in ('copy', 'move') or any(e != '*' for e in o['p'][1]):
                break
            d = self.single_def(o['p'][0])
            if d is None:
                break
            if d[0] == 's':
                r = d[1]
                if r['k'] == 'use':
                    o = r['o']
                    continue
                if r['k'] in ('ref', 'reborrow'):
                    o = CP(r['p'])
                    continue
                break
            t = self.fl.blocks[d[1]]['t']
            cn = t.get('cn')
            if cn in ('IntoIterator::into_iter', 'Iterator::by_ref'):
                o = t['args'][0]
                continue
            if cn in LAZY and d[1] in self.lazy:
                chain.append(d[1])
                o = t['args'][0]
                continue
            if cn in ('Iterator::copied', 'Iterator::cloned') and self.trace_iter(t['args'][0], depth + 1):
                chain.append(d[1])
                o = t['args'][0]
                continue
            break
        while chain and self.fl.blocks[chain[-1]]['t']['cn'] in ('Iterator::copied', 'Iterator::cloned'):
            chain.pop()
        return chain[::-1]

    def save_adapter(self, ab):
        if ab not in self.saved:
            b = self.fl.blocks[ab]
            t = b['t']
            base = self.new_local(self.fl, (t.get('at') or ['?'])[0])
            self.saved_t = t
            b['st'].append({'k': '=', 'p': P(base), 'r': USE(cp(t['args'][0])), 's': t.get('s')})
            c = None
            if len(t['args']) > 1:
                a = t['args'][1]
                if a['k'] == 'const':
                    c = a
                else:
                    cl = self.closure_of(a)
                    l = self.new_local(self.fl, '?', cl=cl)
                    b['st'].append({'k': '=', 'p': P(l), 'r': USE(cp(a)), 's': t.get('s')})
                    c = CP(P(l))
            self.saved[ab] = (base, c)
        return self.saved[ab]

    def emit_next(self, bi, chain, dest, cont, t, ctx):
        """block bi: dest = next() of the desugared chain"""
        fl = self.fl
        s = t.get('s')
        saved = [self.save_adapter(x) for x in chain]
        base = saved[0][0]
        head = self.new_block(fl, ctx, s=s)
        entry = head
        # an element passed over starts the same loop again, when asking for it does nothing else
        skip = bi if not any(c_ == 'Iterator::flat_map' for c_ in (fl.blocks[x]['t']['cn'] for x in chain)) and \
            all(x.get('k') != '=' or x['r'].get('k') == 'ref' for x in fl.blocks[bi]['st']) else head
        y = self.new_local(fl, OPT + '<?>')
        r = self.new_local(fl, '&mut ?')
        dl = self.new_local(fl, 'isize')
        after = self.new_block(fl, ctx, s=s)
        bt = fl.locals[base]['ty']
        fl.blocks[head]['st'].append({'k': '=', 'p': P(r), 'r': {'k': 'ref', 'm': True, 'p': P(base)}, 's': s})
        fl.blocks[head]['t'] = {'k': 'call', 'f': {'k': 'const', 'ty': '?', 's': 'next', 'fn': 'Iterator::next', 'n': 'Iterator::next', 'ga': []},
                                'args': [MV(P(r))], 'd': P(y), 't': after, 's': s, 'at': ['&mut ' + bt], 'dt': '?', 'cn': 'Iterator::next'}
        none_b = self.new_block(fl, ctx, st=[{'k': '=', 'p': dest, 'r': none(), 's': s}], t={'k': 'goto', 't': cont, 's': s}, s=s)
        cur = self.new_block(fl, ctx, s=s)
        x = self.new_local(fl, '?')
        fl.blocks[after]['st'].append({'k': '=', 'p': P(dl), 'r': {'k': 'discr', 'p': P(y), 'ty': OPT}, 's': s})
        fl.blocks[after]['t'] = {'k': 'switch', 'o': CP(P(dl)), 'ty': 'isize', 'ts': [[0, none_b], [1, cur]], 'e': None, 's': s}
        fl.blocks[cur]['st'].append({'k': '=', 'p': P(x), 'r': USE(MV(P(y, [['d', 'Some', 1], ['f', OPT + '::Some', '0', 0]]))), 's': s})
        for ab, (_, c) in zip(chain, saved):
            cn = fl.blocks[ab]['t']['cn'].split('::')[1]
            nxt = self.new_block(fl, ctx, s=s)
            if cn in ('filter', 'take_while', 'inspect'):
                rf = self.new_local(fl, '&?')
                rb = self.new_local(fl, 'bool')
                fl.blocks[cur]['st'].append({'k': '=', 'p': P(rf), 'r': {'k': 'ref', 'm': False, 'p': P(x)}, 's': s})
                tst = self.new_block(fl, ctx, s=s)
                fl.blocks[tst]['t'] = ({'k': 'goto', 't': nxt, 's': s} if cn == 'inspect' else
                                       {'k': 'switch', 'o': CP(P(rb)), 'ty': 'bool', 'ts': [[0, (skip if head is entry else head) if cn == 'filter' else none_b]], 'e': nxt, 's': s})
                self.call_value(cur, c, [MV(P(rf))], P(rb), tst, t, ctx)
            elif cn == 'map':
                x2 = self.new_local(fl, '?')
                self.call_value(cur, c, [MV(P(x))], P(x2), nxt, t, ctx)
                x = x2
            elif cn in ('filter_map', 'map_while'):
                o = self.new_local(fl, OPT + '<?>')
                dl = self.new_local(fl, 'isize')
                tst = self.new_block(fl, ctx, s=s)
                x2 = self.new_local(fl, '?')
                fl.blocks[tst]['st'].append({'k': '=', 'p': P(dl), 'r': {'k': 'discr', 'p': P(o), 'ty': OPT}, 's': s})
                fl.blocks[tst]['t'] = {'k': 'switch', 'o': CP(P(dl)), 'ty': 'isize', 'ts': [[0, (skip if head is entry else head) if cn == 'filter_map' else none_b], [1, nxt]], 'e': None, 's': s}
                fl.blocks[nxt]['st'].append({'k': '=', 'p': P(x2), 'r': USE(MV(P(o, [['d', 'Some', 1], ['f', OPT + '::Some', '0', 0]]))), 's': s})
                self.call_value(cur, c, [MV(P(x))], P(o), tst, t, ctx)
                x = x2
            elif cn == 'flat_map':
                # resume inside the current part when there is one
                if ab not in self.inner:
                    has, inn = self.new_local(fl, 'bool'), self.new_local(fl, '?')
                    fl.blocks[ab]['st'].append({'k': '=', 'p': P(has), 'r': USE(CONSTB(False)), 's': s})
                    self.inner[ab] = (has, inn)
                has, inn = self.inner[ab]
                part = self.new_local(fl, '?')
                got = self.new_block(fl, ctx, s=s)
                set_ = self.new_block(fl, ctx, s=s)
                ih = self.new_block(fl, ctx, s=s)
                isw = self.new_block(fl, ctx, s=s)
                r2, y2, dl2, x2 = self.new_local(fl, '&mut ?'), self.new_local(fl, OPT + '<?>'), self.new_local(fl, 'isize'), self.new_local(fl, '?')
                self.call_value(cur, c, [MV(P(x))], P(part), got, t, ctx)
                fl.blocks[got]['t'] = {'k': 'call', 'f': {'k': 'const', 'ty': '?', 's': 'into_iter', 'fn': 'IntoIterator::into_iter', 'n': 'IntoIterator::into_iter', 'ga': []},
                                       'args': [MV(P(part))], 'd': P(inn), 't': set_, 's': s, 'at': ['?'], 'dt': '?', 'cn': 'IntoIterator::into_iter'}
                fl.blocks[set_]['st'].append({'k': '=', 'p': P(has), 'r': USE(CONSTB(True)), 's': s})
                fl.blocks[set_]['t'] = {'k': 'goto', 't': ih, 's': s}
                fl.blocks[ih]['st'].append({'k': '=', 'p': P(r2), 'r': {'k': 'ref', 'm': True, 'p': P(inn)}, 's': s})
                fl.blocks[ih]['t'] = {'k': 'call', 'f': {'k': 'const', 'ty': '?', 's': 'next', 'fn': 'Iterator::next', 'n': 'Iterator::next', 'ga': []},
                                      'args': [MV(P(r2))], 'd': P(y2), 't': isw, 's': s, 'at': ['&mut ?'], 'dt': '?', 'cn': 'Iterator::next'}
                over = self.new_block(fl, ctx, st=[{'k': '=', 'p': P(has), 'r': USE(CONSTB(False)), 's': s}], t={'k': 'goto', 't': head, 's': s}, s=s)
                fl.blocks[isw]['st'].append({'k': '=', 'p': P(dl2), 'r': {'k': 'discr', 'p': P(y2), 'ty': OPT}, 's': s})
                fl.blocks[isw]['t'] = {'k': 'switch', 'o': CP(P(dl2)), 'ty': 'isize', 'ts': [[0, over], [1, nxt]], 'e': None, 's': s}
                fl.blocks[nxt]['st'].append({'k': '=', 'p': P(x2), 'r': USE(MV(P(y2, [['d', 'Some', 1], ['f', OPT + '::Some', '0', 0]]))), 's': s})
                entry = self.new_block(fl, ctx, t={'k': 'switch', 'o': CP(P(has)), 'ty': 'bool', 'ts': [[0, entry]], 'e': ih, 's': s}, s=s)
                head = ih
                x = x2
            elif cn in ('copied', 'cloned'):
                x2 = self.new_local(fl, '?')
                fl.blocks[cur]['st'].append({'k': '=', 'p': P(x2), 'r': USE(CP(P(x, ['*']))), 's': s})
                fl.blocks[cur]['t'] = {'k': 'goto', 't': nxt, 's': s}
                x = x2
            cur = nxt
        fl.blocks[cur]['st'].append({'k': '=', 'p': dest, 'r': some(MV(P(x))), 's': s})
        fl.blocks[cur]['t'] = {'k': 'goto', 't': cont, 's': s}
        fl.blocks[bi]['t'] = {'k': 'goto', 't': entry, 's': s}

    def iter_loop(self, bi, t, ctx):
        """explicit loops for iterator consumers; True if handled"""
        fl = self.fl
        cn = t['cn']
        s = t.get('s')
        if not t.get('args') or t.get('t') is None:
            return False
        if cn == 'Iterator::next':
            chain = self.trace_iter(t['args'][0])
            if not chain:
                return False
            self.emit_next(bi, chain, t['d'], t['t'], t, ctx)
            return True
        if cn not in CONSUMERS:
            if cn in ('Vec::extend', 'Extend::extend') and 'Vec<' in (t.get('at') or [''])[0]:
                return self.collect_loop(bi, t, ctx, 1, t['args'][0], False)
            return False
        chain = self.trace_iter(t['args'][0])
        m = cn.split('::')[1]
        exact = m in ('any', 'all', 'for_each', 'fold', 'find', 'find_map', 'position') and self.callable_op(t['args'][-1])
        if m == 'collect':
            if 'Vec<' in (t.get('dt') or '')[:20] and not (t.get('dt') or '').startswith('std::result'):
                return self.collect_loop(bi, t, ctx, 0, None, True)
        if not exact and not chain:
            return False
        b = fl.blocks[bi]
        it = self.new_local(fl, (t.get('at') or ['?'])[0])
        b['st'].append({'k': '=', 'p': P(it), 'r': USE(cp(t['args'][0])), 's': s})
        byref = (t.get('at') or ['?'])[0].startswith('&mut')
        head = self.new_block(fl, ctx, s=s)
        y = self.new_local(fl, OPT + '<?>')
        sw = self.new_block(fl, ctx, s=s)
        if chain:
            self.emit_next(head, chain, P(y), sw, t, ctx)
        else:
            r = self.new_local(fl, '&mut ?')
            if byref:
                fl.blocks[head]['st'].append({'k': '=', 'p': P(r), 'r': USE(CP(P(it))), 's': s})
            else:
                fl.blocks[head]['st'].append({'k': '=', 'p': P(r), 'r': {'k': 'ref', 'm': True, 'p': P(it)}, 's': s})
            fl.blocks[head]['t'] = {'k': 'call', 'f': {'k': 'const', 'ty': '?', 's': 'next', 'fn': 'Iterator::next', 'n': 'Iterator::next', 'ga': []},
                                    'args': [MV(P(r))], 'd': P(y), 't': sw, 's': s, 'at': ['&mut ?'], 'dt': '?', 'cn': 'Iterator::next'}
        dl = self.new_local(fl, 'isize')
        none_b = self.new_block(fl, ctx, s=s)
        body = self.new_block(fl, ctx, s=s)
        fl.blocks[sw]['st'].append({'k': '=', 'p': P(dl), 'r': {'k': 'discr', 'p': P(y), 'ty': OPT}, 's': s})
        fl.blocks[sw]['t'] = {'k': 'switch', 'o': CP(P(dl)), 'ty': 'isize', 'ts': [[0, none_b], [1, body]], 'e': None, 's': s}
        x = self.new_local(fl, '?')
        fl.blocks[body]['st'].append({'k': '=', 'p': P(x), 'r': USE(MV(P(y, [['d', 'Some', 1], ['f', OPT + '::Some', '0', 0]]))), 's': s})
        d, cont = t['d'], t['t']
        goto = lambda x_: {'k': 'goto', 't': x_, 's': s}

        def fin(rv):
            return self.new_block(fl, ctx, st=[{'k': '=', 'p': d, 'r': rv, 's': s}], t=goto(cont), s=s)
        b['t'] = goto(head)
        if not exact:
            fl.blocks[body]['t'] = goto(head)
            fl.blocks[none_b]['t'] = dict(t)
            if self.hof:
                self.hof_model(none_b, fl.blocks[none_b]['t'], ctx)
            return True
        f = t['args'][-1]
        if f['k'] != 'const':
            fc = self.new_local(fl, '?', cl=self.closure_of(f))
            b['st'].append({'k': '=', 'p': P(fc), 'r': USE(cp(f)), 's': s})
            f = CP(P(fc))
        if m in ('any', 'all'):
            rb = self.new_local(fl, 'bool')
            fl.blocks[none_b]['st'].append({'k': '=', 'p': d, 'r': USE(CONSTB(m == 'all')), 's': s})
            fl.blocks[none_b]['t'] = goto(cont)
            stop = fin(USE(CONSTB(m == 'any')))
            tst = self.new_block(fl, ctx, s=s)
            if m == 'any':
                fl.blocks[tst]['t'] = {'k': 'switch', 'o': CP(P(rb)), 'ty': 'bool', 'ts': [[0, head]], 'e': stop, 's': s}
            else:
                fl.blocks[tst]['t'] = {'k': 'switch', 'o': CP(P(rb)), 'ty': 'bool', 'ts': [[0, stop]], 'e': head, 's': s}
            self.call_value(body, f, [MV(P(x))], P(rb), tst, t, ctx)
        elif m == 'for_each':
            u = self.new_local(fl, '()')
            fl.blocks[none_b]['t'] = goto(cont)
            self.call_value(body, f, [MV(P(x))], P(u), head, t, ctx)
        elif m == 'fold':
            acc = self.new_local(fl, '?')
            b['st'].append({'k': '=', 'p': P(acc), 'r': USE(cp(t['args'][1])), 's': s})
            fl.blocks[none_b]['st'].append({'k': '=', 'p': d, 'r': USE(MV(P(acc))), 's': s})
            fl.blocks[none_b]['t'] = goto(cont)
            self.call_value(body, f, [CP(P(acc)), MV(P(x))], P(acc), head, t, ctx)
        elif m == 'find':
            rb = self.new_local(fl, 'bool')
            rf = self.new_local(fl, '&?')
            fl.blocks[none_b]['st'].append({'k': '=', 'p': d, 'r': none(), 's': s})
            fl.blocks[none_b]['t'] = goto(cont)
            fl.blocks[body]['st'].append({'k': '=', 'p': P(rf), 'r': {'k': 'ref', 'm': False, 'p': P(x)}, 's': s})
            tst = self.new_block(fl, ctx, s=s)
            fl.blocks[tst]['t'] = {'k': 'switch', 'o': CP(P(rb)), 'ty': 'bool', 'ts': [[0, head]], 'e': fin(some(MV(P(x)))), 's': s}
            self.call_value(body, f, [MV(P(rf))], P(rb), tst, t, ctx)
        elif m == 'find_map':
            o = self.new_local(fl, OPT + '<?>')
            dl2 = self.new_local(fl, 'isize')
            fl.blocks[none_b]['st'].append({'k': '=', 'p': d, 'r': none(), 's': s})
            fl.blocks[none_b]['t'] = goto(cont)
            tst = self.new_block(fl, ctx, s=s)
            fl.blocks[tst]['st'].append({'k': '=', 'p': P(dl2), 'r': {'k': 'discr', 'p': P(o), 'ty': OPT}, 's': s})
            fl.blocks[tst]['t'] = {'k': 'switch', 'o': CP(P(dl2)), 'ty': 'isize', 'ts': [[0, head], [1, fin(USE(MV(P(o))))]], 'e': None, 's': s}
            self.call_value(body, f, [MV(P(x))], P(o), tst, t, ctx)
        elif m == 'position':
            rb = self.new_local(fl, 'bool')
            ix = self.new_local(fl, 'usize')
            fl.blocks[none_b]['st'].append({'k': '=', 'p': d, 'r': none(), 's': s})
            fl.blocks[none_b]['t'] = goto(cont)
            tst = self.new_block(fl, ctx, s=s)
            hit = fin(some(CP(P(ix))))
            fl.blocks[hit]['st'].insert(0, {'k': '=', 'p': P(ix), 'r': {'k': 'position', 'o': CP(P(x))}, 's': s})
            fl.blocks[tst]['t'] = {'k': 'switch', 'o': CP(P(rb)), 'ty': 'bool', 'ts': [[0, head]], 'e': hit, 's': s}
            self.call_value(body, f, [CP(P(x))], P(rb), tst, t, ctx)
        return True

    def collect_loop(self, bi, t, ctx, ai, vec, fresh):
        """Vec collect / extend over a desugared chain, as a loop of pushes"""
        fl = self.fl
        s = t.get('s')
        chain = self.trace_iter(t['args'][ai])
        if not chain:
            return False
        head = self.new_block(fl, ctx, s=s)
        sw = self.new_block(fl, ctx, s=s)
        y = self.new_local(fl, OPT + '<?>')
        b = fl.blocks[bi]
        if fresh:
            v = self.new_local(fl, t.get('dt', '?'))
            b['t'] = {'k': 'call', 'f': {'k': 'const', 'ty': '?', 's': 'new', 'fn': 'Vec::new', 'n': 'std::vec::Vec::new', 'ga': []},
                      'args': [], 'd': P(v), 't': head, 's': s, 'at': [], 'dt': t.get('dt', '?'), 'cn': 'Vec::new'}
        else:
            vr = self.new_local(fl, '&mut ?')
            b['st'].append({'k': '=', 'p': P(vr), 'r': USE(cp(vec)), 's': s})
            b['t'] = {'k': 'goto', 't': head, 's': s}
        self.emit_next(head, chain, P(y), sw, t, ctx)
        dl = self.new_local(fl, 'isize')
        none_b = self.new_block(fl, ctx, s=s)
        body = self.new_block(fl, ctx, s=s)
        fl.blocks[sw]['st'].append({'k': '=', 'p': P(dl), 'r': {'k': 'discr', 'p': P(y), 'ty': OPT}, 's': s})
        fl.blocks[sw]['t'] = {'k': 'switch', 'o': CP(P(dl)), 'ty': 'isize', 'ts': [[0, none_b], [1, body]], 'e': None, 's': s}
        x = self.new_local(fl, '?')
        r = self.new_local(fl, '&mut ?')
        u = self.new_local(fl, '()')
        fl.blocks[body]['st'].append({'k': '=', 'p': P(x), 'r': USE(MV(P(y, [['d', 'Some', 1], ['f', OPT + '::Some', '0', 0]]))), 's': s})
        if fresh:
            fl.blocks[body]['st'].append({'k': '=', 'p': P(r), 'r': {'k': 'ref', 'm': True, 'p': P(v)}, 's': s})
            fl.blocks[none_b]['st'].append({'k': '=', 'p': t['d'], 'r': USE(MV(P(v))), 's': s})
        else:
            fl.blocks[body]['st'].append({'k': '=', 'p': P(r), 'r': USE(CP(P(vr))), 's': s})
        fl.blocks[none_b]['t'] = {'k': 'goto', 't': t['t'], 's': s}
        fl.blocks[body]['t'] = {'k': 'call', 'f': {'k': 'const', 'ty': '?', 's': 'push', 'fn': 'Vec::push', 'n': 'std::vec::Vec::push', 'ga': []},
                                'args': [MV(P(r)), MV(P(x))], 'd': P(u), 't': head, 's': s, 'at': ['&mut ?', '?'], 'dt': '()', 'cn': 'Vec::push'}
        return True

    def inline_fn(self, bi, rec, t, ctx):
        fl = self.fl
        b = fl.blocks[bi]
        self.inlined.add(rec['id'])
        clmap = {}
        for i, a in enumerate(t['args']):
            c = self.closure_of(a)
            if c:
                clmap[i + 1] = c
        lb = len(fl.locals)
        cont = t.get('t')
        if cont is None:
            cont = self.new_block(fl, ctx, t={'k': 'unreachable'}, s=t.get('s'))
        entry = self.splice(rec, rec, ctx + (rec['id'],), t['d'], cont, False, clmap)
        for i, a in enumerate(t['args']):
            b['st'].append({'k': '=', 'p': P(lb + 1 + i), 'r': USE(a), 's': t.get('s'), 'argof': rec['id']})
        b['t'] = {'k': 'goto', 't': entry, 's': t.get('s'), 'inl': rec['id']}

    def inline_closure(self, bi, cid, t, ctx):
        """t: Fn*::call*(env, (args,))"""
        fl = self.fl
        b = fl.blocks[bi]
        rec = self.p.fns[cid]
        self.inlined.add(cid)
        lb = len(fl.locals)
        cont = t.get('t')
        if cont is None:
            cont = self.new_block(fl, ctx, t={'k': 'unreachable'}, s=t.get('s'))
        entry = self.splice(rec, rec, ctx + (cid,), t['d'], cont, False, {})
        env, tup = t['args'][0], t['args'][1]
        envty = rec['locals'][1]['ty']
        at = t.get('at', ['', ''])[0]
        byref_body = envty.startswith('&')
        byref_arg = at.startswith('&')
        if byref_body == byref_arg or env['k'] == 'const':
            r = USE(env)
        elif byref_body and not byref_arg:
            r = {'k': 'ref', 'm': 'mut' in envty[:8], 'p': env['p']}
        else:
            r = USE(CP([env['p'][0], env['p'][1] + ['*']]))
        b['st'].append({'k': '=', 'p': P(lb + 1), 'r': r, 's': t.get('s')})
        for i in range(rec['argc'] - 1):
            if tup['k'] == 'const':
                continue
            o = CP([tup['p'][0], tup['p'][1] + [['f', 'tuple', str(i), i]]])
            b['st'].append({'k': '=', 'p': P(lb + 2 + i), 'r': USE(o), 's': t.get('s')})
        b['t'] = {'k': 'goto', 't': entry, 's': t.get('s'), 'inl': cid}

    def call_value(self, bi, fo, argops, dest, cont, t, ctx):
        """emit, at the end of block bi, a call of callable operand `fo` with argops -> dest, then cont"""
        fl = self.fl
        b = fl.blocks[bi]
        c = self.closure_of(fo)
        if c and c in self.p.fns and c not in ctx and len(ctx) <= self.max_depth:
            rec = self.p.fns[c]
            self.inlined.add(c)
            lb = len(fl.locals)
            entry = self.splice(rec, rec, ctx + (c,), dest, cont, False, {})
            envty = rec['locals'][1]['ty']
            if fo['k'] == 'const' or not envty.startswith('&'):
                r = USE(fo)
            else:
                r = {'k': 'ref', 'm': 'mut' in envty[:8], 'p': fo['p']}
            b['st'].append({'k': '=', 'p': P(lb + 1), 'r': r, 's': t.get('s')})
            for i, a in enumerate(argops[:rec['argc'] - 1]):
                b['st'].append({'k': '=', 'p': P(lb + 2 + i), 'r': USE(a), 's': t.get('s')})
            b['t'] = {'k': 'goto', 't': entry, 's': t.get('s'), 'inl': c}
            return
        if fo['k'] == 'const' and 'n' in fo:
            # a path to a function used as callable
            b['t'] = {'k': 'call', 'f': fo, 'args': list(argops), 'd': dest, 't': cont, 's': t.get('s'),
                      'at': ['?'] * len(argops), 'dt': '?'}
            # variant constructors (Some, Ok, ...)
            self.expand_call(bi, None, ctx)
            return
        b['t'] = {'k': 'call', 'f': {'k': 'copyfn'}, 'args': [fo] + list(argops), 'd': dest, 't': cont,
                  's': t.get('s'), 'at': ['?'] * (len(argops) + 1), 'dt': '?', 'cn': 'indirect'}
        b['t']['f'] = {'k': 'const', 'ty': '?', 's': 'indirect'}

    def std(self, bi, t, ctx):
        """precise expansion of Option/Result/bool/Try combinators; True if handled"""
        fl = self.fl
        cn = t['cn']
        n = t['f']['n']
        rn = t['f'].get('rn', n)
        b = fl.blocks[bi]
        s = t.get('s')
        args = t['args']
        d = t['d']
        cont = t.get('t')
        if cont is None:
            return False

        def blk(st, term):
            return self.new_block(fl, ctx, st=st, t=term, s=s)

        def done(rv):
            return blk([{'k': '=', 'p': d, 'r': rv, 's': s}], {'k': 'goto', 't': cont, 's': s})

        def tmp(o, ty='?'):
            """materialise operand in a fresh local"""
            l = self.new_local(fl, ty)
            b['st'].append({'k': '=', 'p': P(l), 'r': USE(o), 's': s})
            return l

        def switch2(base, kind, t0, t1, deref=False):
            """switch on discriminant of place base (Option: 0=None,1=Some; Result: 0=Ok,1=Err)"""
            dl = self.new_local(fl, 'isize')
            pl = P(base, ['*'] if deref else [])
            b['st'].append({'k': '=', 'p': P(dl), 'r': {'k': 'discr', 'p': pl, 'ty': OPT if kind == 'o' else (CF if kind == 'c' else RES)}, 's': s})
            b['t'] = {'k': 'switch', 'o': CP(P(dl)), 'ty': 'isize', 'ts': [[0, t0], [1, t1]], 'e': None, 's': s,
                      'exp': cn}

        def pay(base, variant, deref=False):
            vi = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1}[variant]
            own = {'Some': OPT, 'Ok': RES, 'Err': RES, 'Continue': CF, 'Break': CF}[variant]
            return P(base, (['*'] if deref else []) + [['d', variant, vi], ['f', own + '::' + variant, '0', 0]])

        if cn == 'Clone::clone_from' and len(args) == 2:
            x, y = tmp(args[0]), tmp(args[1])
            b['st'].append({'k': '=', 'p': P(x, ['*']), 'r': USE(CP(P(y, ['*']))), 's': s})
            b['t'] = {'k': 'goto', 't': cont, 's': s}
            return True
        at0 = (t.get('at') or ['?'])[0]
        if cn in ('slice::get', 'slice::get_mut') and len(args) == 2 and (t.get('at') or ['', ''])[1] == 'usize':
            v = tmp(args[0], at0)
            ix = tmp(args[1], 'usize')
            ln = self.new_local(fl, 'usize')
            c = self.new_local(fl, 'bool')
            mut = cn.endswith('_mut')
            r = self.new_local(fl, '&mut ?' if mut else '&?')
            g = blk([{'k': '=', 'p': P(r), 'r': {'k': 'ref', 'm': mut, 'p': P(v, ['*', ['i', ix]])}, 's': s},
                     {'k': '=', 'p': d, 'r': some(MV(P(r))), 's': s}], {'k': 'goto', 't': cont, 's': s})
            nn = done(none())
            sw_ = blk([{'k': '=', 'p': P(c), 'r': {'k': 'bin', 'op': 'Lt', 'a': CP(P(ix)), 'b': CP(P(ln)), 'ty': 'usize'}, 's': s}],
                      {'k': 'switch', 'o': CP(P(c)), 'ty': 'bool', 'ts': [[0, nn]], 'e': g, 's': s})
            b['t'] = {'k': 'call', 'f': {'k': 'const', 'ty': '?', 's': 'len', 'fn': 'slice::len', 'n': 'slice::len', 'ga': []},
                      'args': [CP(P(v))], 'd': P(ln), 't': sw_, 's': s, 'at': ['&?'], 'dt': 'usize', 'cn': 'slice::len'}
            return True

        def is_opt(tystr):
            x = tystr.lstrip('&').replace('mut ', '').strip()
            return x.startswith('std::option::Option') or x.startswith('core::option::Option') or (x.startswith('Option<'))

        def diverge():
            return blk([], {'k': 'unreachable', 's': s, 'panic': cn})

        def callv(fo, argops):
            """block that calls fo(argops) into a fresh local and continues to `k(local)`"""
            r = self.new_local(fl, '?')
            start = blk([], None)
            return start, r, fo, argops

        def link(start, fo, argops, dest, k):
            self.call_value(start, fo, argops, dest, k, t, ctx)

        if cn in ('rayon::scope', 'rayon::in_place_scope', 'thread::scope') and self.hof:
            fo = args[-1]
            if self.closure_of(fo) in self.p.fns and self.closure_of(fo) not in ctx:
                n0 = self.new_local(fl, '?')
                link(bi, fo, [MV(P(n0))], d, cont)
                return True
        if cn in ('panic::catch_unwind', 'Scope::spawn', 'thread::spawn', 'rayon::spawn', 'Scope::spawn_fifo', 'ThreadPool::spawn') and self.hof:
            fo = args[-1]
            wrapped = None
            if cn == 'panic::catch_unwind':
                # see through AssertUnwindSafe(closure)
                for _ in range(6):
                    if self.closure_of(fo) or fo.get('k') == 'const' or fo['p'][1]:
                        break
                    sd = self.single_def(fo['p'][0])
                    if sd is None or sd[0] != 's':
                        break
                    r0 = sd[1]
                    if r0['k'] == 'use':
                        fo = r0['o']
                    elif r0['k'] == 'agg' and 'AssertUnwindSafe' in str(r0.get('adt')) and len(r0['ops']) == 1:
                        fo = r0['ops'][0]
                        wrapped = ['f', r0['adt'], '0', 0]
                    else:
                        break
            c = self.closure_of(fo)
            if c and c in self.p.fns and c not in ctx:
                fl_ = tmp(fo if wrapped is None else CP([args[-1]['p'][0], args[-1]['p'][1] + [wrapped]]))
                fl.locals[fl_]['cl'] = c
                start = blk([], None)
                if cn == 'panic::catch_unwind':
                    # runs the closure to its end, or reports a panic
                    x = self.new_local(fl, RES)
                    r = self.new_local(fl, '?')
                    dl = self.new_local(fl, 'isize')
                    link(start, MV(P(fl_)), [], P(r), done(ok(MV(P(r)))))
                    bad = done(err(MV(pay(x, 'Err'))))
                    sw0 = blk([{'k': '=', 'p': P(dl), 'r': {'k': 'discr', 'p': P(x), 'ty': RES}, 's': s}],
                              {'k': 'switch', 'o': CP(P(dl)), 'ty': 'isize', 'ts': [[0, start], [1, bad]], 'e': None, 's': s, 'exp': cn})
                    t['d'] = P(x)
                    t['t'] = sw0
                else:
                    # the task runs once, at any later time, on what it captured
                    r = self.new_local(fl, '?')
                    n0 = self.new_local(fl, '?')
                    link(start, MV(P(fl_)), [MV(P(n0))], P(r), cont)
                    t['t'] = start
                t['spawned'] = c
                return True
        if cn == 'Try::branch':
            x = tmp(args[0])
            if 'Option' in rn.split(' as ')[0]:
                t1 = done(AGG(CF, 'Continue', 0, [MV(pay(x, 'Some'))]))
                t0 = blk([], None)
                nl = self.new_local(fl, '?')
                fl.blocks[t0]['st'] = [{'k': '=', 'p': P(nl), 'r': none(), 's': s},
                                       {'k': '=', 'p': d, 'r': AGG(CF, 'Break', 1, [MV(P(nl))]), 's': s}]
                fl.blocks[t0]['t'] = {'k': 'goto', 't': cont, 's': s}
                switch2(x, 'o', t0, t1)
                return True
            if 'Result' in rn.split(' as ')[0]:
                t0 = done(AGG(CF, 'Continue', 0, [MV(pay(x, 'Ok'))]))
                t1 = blk([], None)
                nl = self.new_local(fl, '?')
                fl.blocks[t1]['st'] = [{'k': '=', 'p': P(nl), 'r': err(MV(pay(x, 'Err'))), 's': s},
                                       {'k': '=', 'p': d, 'r': AGG(CF, 'Break', 1, [MV(P(nl))]), 's': s}]
                fl.blocks[t1]['t'] = {'k': 'goto', 't': cont, 's': s}
                switch2(x, 'r', t0, t1)
                return True
            return False
        if cn == 'FromResidual::from_residual':
            if 'Option' in rn.split(' as ')[0]:
                b['st'].append({'k': '=', 'p': d, 'r': none(), 's': s})
                b['t'] = {'k': 'goto', 't': cont, 's': s}
                return True
            if 'Result' in rn.split(' as ')[0]:
                x = tmp(args[0])
                b['st'].append({'k': '=', 'p': d, 'r': err(MV(pay(x, 'Err'))), 's': s})
                b['t'] = {'k': 'goto', 't': cont, 's': s}
                return True
            return False
        if not (cn.startswith('Option::') or cn.startswith('Result::') or cn.startswith('bool::')):
            return False
        m = cn.split('::')[1]
        byref = at0.startswith('&')
        if cn == 'bool::then':
            x = tmp(args[0], 'bool')
            r = self.new_local(fl, '?')
            k1 = done(some(MV(P(r))))
            st = blk([], None)
            link(st, args[1], [], P(r), k1)
            k0 = done(none())
            b['t'] = {'k': 'switch', 'o': CP(P(x)), 'ty': 'bool', 'ts': [[0, k0]], 'e': st, 's': s}
            return True
        if cn == 'bool::then_some':
            x = tmp(args[0], 'bool')
            y = tmp(args[1])
            k1 = done(some(MV(P(y))))
            k0 = done(none())
            b['t'] = {'k': 'switch', 'o': CP(P(x)), 'ty': 'bool', 'ts': [[0, k0]], 'e': k1, 's': s}
            return True
        if cn.startswith('Option::'):
            kind, good, bad = 'o', 'Some', 'None'
            gi = 1
            mk = some

            def badv(x):
                return none()
        else:
            kind, good, bad = 'r', 'Ok', 'Err'
            gi = 0
            mk = ok

            def badv(x):
                return err(MV(pay(x, 'Err')))

        def sw(x, g, bd, deref=False):
            if gi == 1:
                switch2(x, kind, bd, g, deref)
            else:
                switch2(x, kind, g, bd, deref)

        if m in ('is_some', 'is_none', 'is_ok', 'is_err'):
            x = tmp(args[0])
            pos = m in ('is_some', 'is_ok')
            sw(x, done(USE(CONSTB(pos))), done(USE(CONSTB(not pos))), deref=byref)
            return True
        if m in ('unwrap', 'expect'):
            x = tmp(args[0])
            sw(x, done(USE(MV(pay(x, good)))), diverge())
            return True
        if m in ('unwrap_err', 'expect_err'):
            x = tmp(args[0])
            sw(x, diverge(), done(USE(MV(pay(x, bad)))))
            return True
        if m == 'unwrap_or':
            y = tmp(args[1])
            x = tmp(args[0])
            sw(x, done(USE(MV(pay(x, good)))), done(USE(MV(P(y)))))
            return True
        if m == 'unwrap_or_default':
            x = tmp(args[0])
            dflt = blk([], {'k': 'call', 'f': {'k': 'const', 'ty': '?', 's': 'default', 'fn': 'Default::default', 'n': 'std::default::Default::default', 'ga': t['f'].get('ga', [])},
                            'args': [], 'd': d, 't': cont, 's': s, 'at': [], 'dt': t.get('dt'), 'cn': 'Default::default'})
            sw(x, done(USE(MV(pay(x, good)))), dflt)
            return True
        if m in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut') and byref:
            x = tmp(args[0])
            mut = m in ('as_mut', 'as_deref_mut')
            if cn.startswith('Option::'):
                r = self.new_local(fl, '&mut ?' if mut else '&?')
                g = blk([{'k': '=', 'p': P(r), 'r': {'k': 'ref', 'm': mut, 'p': pay(x, 'Some', True)}, 's': s},
                         {'k': '=', 'p': d, 'r': some(MV(P(r))), 's': s}], {'k': 'goto', 't': cont, 's': s})
                sw(x, g, done(none()), deref=True)
                return True
            r = self.new_local(fl, '&mut ?' if mut else '&?')
            g = blk([{'k': '=', 'p': P(r), 'r': {'k': 'ref', 'm': mut, 'p': pay(x, 'Ok', True)}, 's': s},
                     {'k': '=', 'p': d, 'r': ok(MV(P(r))), 's': s}], {'k': 'goto', 't': cont, 's': s})
            r2 = self.new_local(fl, '&?')
            e = blk([{'k': '=', 'p': P(r2), 'r': {'k': 'ref', 'm': mut, 'p': pay(x, 'Err', True)}, 's': s},
                     {'k': '=', 'p': d, 'r': err(MV(P(r2))), 's': s}], {'k': 'goto', 't': cont, 's': s})
            sw(x, g, e, deref=True)
            return True
        if m in ('copied', 'cloned') and cn.startswith('Option::'):
            x = tmp(args[0])
            r = self.new_local(fl, '?')
            pl = pay(x, 'Some')
            g = blk([{'k': '=', 'p': P(r), 'r': USE(CP([pl[0], pl[1] + ['*']])), 's': s},
                     {'k': '=', 'p': d, 'r': some(MV(P(r))), 's': s}], {'k': 'goto', 't': cont, 's': s})
            sw(x, g, done(none()))
            return True
        if cn == 'Result::ok':
            x = tmp(args[0])
            sw(x, done(some(MV(pay(x, 'Ok')))), done(none()))
            return True
        if cn == 'Result::err':
            x = tmp(args[0])
            sw(x, done(none()), done(some(MV(pay(x, 'Err')))))
            return True
        if cn == 'Option::ok_or':
            y = tmp(args[1])
            x = tmp(args[0])
            sw(x, done(ok(MV(pay(x, 'Some')))), done(err(MV(P(y)))))
            return True
        if cn == 'Option::or':
            y = tmp(args[1])
            x = tmp(args[0])
            sw(x, done(USE(MV(P(x)))), done(USE(MV(P(y)))))
            return True
        if cn == 'Option::flatten':
            x = tmp(args[0])
            sw(x, done(USE(MV(pay(x, 'Some')))), done(none()))
            return True
        # closures
        if m in ('map', 'and_then', 'map_or', 'unwrap_or_else', 'ok_or_else', 'map_err', 'or_else', 'filter',
                 'is_some_and', 'is_none_or', 'is_ok_and', 'map_or_else', 'inspect', 'then'):
            if m == 'map':
                x = tmp(args[0])
                r = self.new_local(fl, '?')
                st = blk([], None)
                link(st, args[1], [MV(pay(x, good))], P(r), done(mk(MV(P(r)))))
                sw(x, st, done(badv(x)))
                return True
            if m == 'and_then':
                x = tmp(args[0])
                st = blk([], None)
                link(st, args[1], [MV(pay(x, good))], d, cont)
                sw(x, st, done(badv(x)))
                return True
            if m == 'map_err' and kind == 'r':
                x = tmp(args[0])
                r = self.new_local(fl, '?')
                st = blk([], None)
                link(st, args[1], [MV(pay(x, 'Err'))], P(r), done(err(MV(P(r)))))
                sw(x, done(ok(MV(pay(x, 'Ok')))), st)
                return True
            if m == 'map_or':
                y = tmp(args[1])
                x = tmp(args[0])
                st = blk([], None)
                link(st, args[2], [MV(pay(x, good))], d, cont)
                sw(x, st, done(USE(MV(P(y)))))
                return True
            if m == 'map_or_else':
                x = tmp(args[0])
                st = blk([], None)
                link(st, args[2], [MV(pay(x, good))], d, cont)
                st2 = blk([], None)
                link(st2, args[1], [] if kind == 'o' else [MV(pay(x, 'Err'))], d, cont)
                sw(x, st, st2)
                return True
            if m == 'unwrap_or_else':
                x = tmp(args[0])
                st = blk([], None)
                link(st, args[1], [] if kind == 'o' else [MV(pay(x, 'Err'))], d, cont)
                sw(x, done(USE(MV(pay(x, good)))), st)
                return True
            if m == 'or_else':
                x = tmp(args[0])
                st = blk([], None)
                link(st, args[1], [] if kind == 'o' else [MV(pay(x, 'Err'))], d, cont)
                sw(x, done(USE(MV(P(x)))), st)
                return True
            if m == 'ok_or_else':
                x = tmp(args[0])
                r = self.new_local(fl, '?')
                st = blk([], None)
                link(st, args[1], [], P(r), done(err(MV(P(r)))))
                sw(x, done(ok(MV(pay(x, 'Some')))), st)
                return True
            if m in ('is_some_and', 'is_ok_and'):
                x = tmp(args[0])
                st = blk([], None)
                link(st, args[1], [MV(pay(x, good))], d, cont)
                sw(x, st, done(USE(CONSTB(False))))
                return True
            if m == 'is_none_or':
                x = tmp(args[0])
                st = blk([], None)
                link(st, args[1], [MV(pay(x, good))], d, cont)
                sw(x, st, done(USE(CONSTB(True))))
                return True
            if m == 'filter' and kind == 'o':
                x = tmp(args[0])
                rf = self.new_local(fl, '&?')
                r = self.new_local(fl, 'bool')
                kk = blk([], None)
                fl.blocks[kk]['t'] = {'k': 'switch', 'o': CP(P(r)), 'ty': 'bool', 'ts': [[0, done(none())]], 'e': done(USE(MV(P(x)))), 's': s}
                st = blk([{'k': '=', 'p': P(rf), 'r': {'k': 'ref', 'm': False, 'p': pay(x, 'Some')}, 's': s}], None)
                link(st, args[1], [MV(P(rf))], P(r), kk)
                sw(x, st, done(none()))
                return True
        return False

    def hof_model(self, bi, t, ctx):
        fl = self.fl
        cls = []
        for ai, a in enumerate(t['args']):
            c = self.closure_of(a)
            if c and c in self.p.fns and c not in ctx:
                cls.append((ai, a, c))
        if not cls:
            return
        b = fl.blocks[bi]
        s = t.get('s')
        callb = self.new_block(fl, ctx, st=[], t=t, s=s)
        nd = self.new_block(fl, ctx, st=[], t=None, s=s)
        b['t'] = {'k': 'goto', 't': nd, 's': s}
        tgts = [callb]
        t['hof'] = []
        for ai, a, c in cls:
            rec = self.p.fns[c]
            self.inlined.add(c)
            lb = len(fl.locals)
            # a fresh block that sets up parameters
            setup = self.new_block(fl, ctx, s=s)
            rl = self.new_local(fl, '?', hofret=c)
            lb = len(fl.locals)
            entry = self.splice(rec, rec, ctx + (c,), P(rl), nd, False, {})
            envty = rec['locals'][1]['ty']
            if a['k'] == 'const' or not envty.startswith('&'):
                r = USE(a)
            else:
                r = {'k': 'ref', 'm': 'mut' in envty[:8], 'p': a['p']}
            st = [{'k': '=', 'p': P(lb + 1), 'r': r, 's': s}]
            for i in range(rec['argc'] - 1):
                st.append({'k': '=', 'p': P(lb + 2 + i),
                           'r': {'k': 'hofarg', 'i': i, 'cn': t['cn'], 'ops': t['args'], 'site': callb}, 's': s})
            fl.blocks[setup]['st'] = st
            fl.blocks[setup]['t'] = {'k': 'goto', 't': entry, 's': s, 'inl': c}
            tgts.append(setup)
            t['hof'].append((ai, c, rl))
        fl.blocks[nd]['t'] = {'k': 'nd', 'ts': tgts, 's': s, 'hof': t['cn']}
