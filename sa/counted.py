"""Counted `while` loops are rewritten, per MIR body, into the loop over a range they are: a counter that starts
at a value, is tested against an unchanging bound in the loop header and moves by one exactly once per iteration
becomes the element of `start..end` (or its reverse). Everything else is left as it is."""
import copy

OPT = 'std::option::Option'


def succs(t):
    k = t['k']
    if k == 'goto':
        return [t['t']]
    if k == 'switch':
        r = [x[1] for x in t['ts']]
        if t.get('e') is not None:
            r.append(t['e'])
        return list(dict.fromkeys(r))
    if k in ('call', 'assert', 'drop'):
        return [t['t']] if t.get('t') is not None else []
    return []


def operands(x):
    for k in ('o', 'a', 'b', 'f'):
        if isinstance(x.get(k), dict):
            yield x[k]
    for k in ('ops', 'args'):
        for o in x.get(k) or ():
            if isinstance(o, dict):
                yield o


def uses_of_place(p, out):
    out.add(p[0])
    for e in p[1]:
        if isinstance(e, list) and e[0] == 'i':
            out.add(e[1])


def reads_rv(r, out):
    for o in operands(r):
        if isinstance(o.get('p'), list):
            uses_of_place(o['p'], out)
    if isinstance(r.get('p'), list):
        uses_of_place(r['p'], out)


def reads_stmt(s):
    out = set()
    if s['k'] in ('live', 'dead'):
        return out
    if 'r' in s:
        reads_rv(s['r'], out)
    if s['p'][1]:
        uses_of_place(s['p'], out)
    if s['k'] != '=':
        uses_of_place(s['p'], out)
    return out


def reads_term(t):
    out = set()
    for o in operands(t):
        if isinstance(o.get('p'), list):
            uses_of_place(o['p'], out)
    if t['k'] == 'drop':
        uses_of_place(t['p'], out)
    if t['k'] == 'call' and t['d'][1]:
        uses_of_place(t['d'], out)
    if t['k'] == 'return':
        out.add(0)
    return out


def def_stmt(s):
    return s['p'][0] if s['k'] == '=' and not s['p'][1] else None


def rename(x, a, b):
    """local a is called b"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == 'p' and isinstance(v, list) and len(v) == 2 and isinstance(v[0], int) or k == 'd' and isinstance(v, list):
                if v[0] == a:
                    v[0] = b
                for e in v[1]:
                    if isinstance(e, list) and e[0] == 'i' and e[1] == a:
                        e[1] = b
            elif isinstance(v, (dict, list)):
                rename(v, a, b)
    elif isinstance(x, list):
        for v in x:
            rename(v, a, b)


class Body:
    def __init__(self, fn):
        self.fn = fn
        self.bl = fn['blocks']
        self.n = len(self.bl)
        self.live = [i for i in range(self.n) if not self.bl[i].get('c')]
        self.su = {i: [s for s in succs(self.bl[i]['t']) if s is not None and not self.bl[s].get('c')] for i in self.live}
        self.pr = {i: [] for i in self.live}
        for i in self.live:
            for s in self.su[i]:
                self.pr[s].append(i)
        self.order()

    def order(self):
        seen, po, st = {0}, [], [(0, iter(self.su[0]))]
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.su[s])))
                    break
            else:
                po.append(x)
                st.pop()
        self.rpo = po[::-1]
        idx = {x: i for i, x in enumerate(self.rpo)}
        dom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in self.rpo[1:]:
                ps = [p for p in self.pr[x] if p in dom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    a, b = d, p
                    while a != b:
                        if idx[a] > idx[b]:
                            a = dom[a]
                        else:
                            b = dom[b]
                    d = a
                if dom.get(x) != d:
                    dom[x] = d
                    ch = True
        self.dom = dom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.dom:
                return False
            b = self.dom[b]

    def loops(self):
        hd = {}
        for x in self.rpo:
            for s in self.su[x]:
                if self.dominates(s, x):
                    hd.setdefault(s, []).append(x)
        out = []
        for h, latches in hd.items():
            body = {h}
            st = list(latches)
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st += self.pr[x]
            out.append((h, latches, body))
        return sorted(out, key=lambda q: len(q[2]))

    def liveness(self, l):
        """blocks at whose start local l is live"""
        inn = set()
        ch = True
        gen, kill = set(), set()
        for x in self.live:
            done = False
            for s in self.bl[x]['st']:
                if l in reads_stmt(s):
                    gen.add(x)
                    done = True
                    break
                if def_stmt(s) == l or s['k'] in ('dead', 'live') and s['l'] == l:
                    kill.add(x)
                    done = True
                    break
            if not done:
                t = self.bl[x]['t']
                if l in reads_term(t):
                    gen.add(x)
                elif t['k'] == 'call' and t['d'] == [l, []]:
                    kill.add(x)
        while ch:
            ch = False
            for x in reversed(self.rpo):
                if x in inn:
                    continue
                if x in gen or (x not in kill and any(s in inn for s in self.su[x])):
                    inn.add(x)
                    ch = True
        return inn


UNS = ('usize', 'u8', 'u16', 'u32', 'u64', 'u128')


def normalise(fn):
    """rewrite the counted loops of a body; True if there were any"""
    if not any(b['t']['k'] == 'switch' for b in fn['blocks']):
        return False
    some = False
    done = set()
    while True:
        B = Body(fn)
        for h, latches, body in B.loops():
            if h in done:
                continue
            done.add(h)
            if one(fn, B, h, latches, body):
                some = True
                break
        else:
            return some


def one(fn, B, h, latches, body):
    bl = B.bl
    # the straight line that computes the test
    chain, x = [], h
    while True:
        chain.append(x)
        t = bl[x]['t']
        if t['k'] == 'switch':
            break
        if t['k'] == 'goto' or t['k'] == 'call' and t['f'].get('n', '').split('::')[-1] == 'len' and len(t['args']) == 1 and not t['d'][1]:
            x = t['t']
            if x is None or x in chain or x not in body or len(B.pr[x]) != 1:
                return False
            continue
        return False
    sw = bl[x]['t']
    if sw.get('ty') != 'bool' or len(sw['ts']) != 1 or sw['ts'][0][0] != 0 or sw['o'].get('p', [0, [0]])[1]:
        return False
    defs = {}
    for y in chain:
        for s in bl[y]['st']:
            if s['k'] in ('live', 'dead'):
                continue
            d = def_stmt(s)
            if d is None or d in defs:
                return False
            defs[d] = s['r']
        t = bl[y]['t']
        if t['k'] == 'call':
            if t['d'][0] in defs:
                return False
            defs[t['d'][0]] = t
    c = sw['o']['p'][0]
    cmp_ = defs.get(c)
    if not cmp_ or cmp_.get('k') != 'bin' or cmp_['op'] not in ('Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq'):
        return False
    op, a, b = cmp_['op'], cmp_['a'], cmp_['b']
    T, E = sw['e'], sw['ts'][0][1]
    if (T in body) == (E in body):
        return False
    if T not in body:
        T, E = E, T
        op = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Ne': 'Eq', 'Eq': 'Ne'}[op]
    if T in chain or len(B.pr[T]) != 1:
        return False
    if op == 'Eq':
        return False

    def source(o):
        """the local an operand copies, through the temporaries of the header"""
        while isinstance(o.get('p'), list) and not o['p'][1] and o['p'][0] in defs:
            r = defs[o['p'][0]]
            if r.get('k') != 'use':
                return None
            o = r['o']
        return o['p'][0] if isinstance(o.get('p'), list) and not o['p'][1] else None

    assigned = {}
    borrowed = set()
    for y in body:
        for k, s in enumerate(bl[y]['st']):
            if s['k'] in ('live', 'dead'):
                continue
            if s['p'][1] or s['k'] != '=':
                borrowed.add(s['p'][0])
            else:
                assigned.setdefault(s['p'][0], []).append((y, k))
            r = s.get('r') or {}
            if r.get('k') in ('ref', 'rawptr', 'addrof') and r.get('m', True):
                borrowed.add(r['p'][0])
            for o in operands(r):
                if o.get('k') == 'move':
                    borrowed.add(o['p'][0])
        t = bl[y]['t']
        if t['k'] == 'call':
            if t['d'][1]:
                borrowed.add(t['d'][0])
            else:
                assigned.setdefault(t['d'][0], []).append((y, None))
            for o in t['args']:
                if o.get('k') == 'move':
                    borrowed.add(o['p'][0])
        if t['k'] == 'drop':
            borrowed.add(t['p'][0])
    mutref = lambda l: str(fn['locals'][l].get('ty', '')).startswith('&mut')
    anywhere = {s['r']['p'][0] for y in B.live for s in bl[y]['st'] if s['k'] == '=' and s['r'].get('k') in ('ref', 'rawptr', 'addrof') and s['r'].get('m', True) and '*' not in s['r']['p'][1]}
    for cand, bound, o2 in ((a, b, op), (b, a, {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le', 'Ne': 'Ne'}[op])):
        i = source(cand)
        if i is None or i in defs or i in anywhere or len(assigned.get(i, ())) != 1 or i in borrowed:
            continue
        if i <= fn['argc'] or fn['locals'][i].get('ty') not in UNS + ('isize', 'i32', 'i64', 'i16', 'i8'):
            continue
        # the bound does not change
        src = set()
        if isinstance(bound.get('p'), list):
            todo = [bound['p']]
            while todo:
                p = todo.pop()
                if p[0] in defs and p[0] not in src:
                    src.add(p[0])
                    r = defs[p[0]]
                    rd = set()
                    if r['k'] == 'call':
                        rd = reads_term(r)
                    else:
                        reads_rv(r, rd)
                    todo += [[q, []] for q in rd]
                    if r['k'] == 'bin' and i in rd:
                        src.add(i)
                elif p[0] not in defs:
                    src.add(p[0])
        if i in src:
            continue
        if any(q not in defs and (q in assigned or q in borrowed or q in anywhere or mutref(q)) for q in src):
            continue
        if rewrite(fn, B, h, latches, body, chain, defs, T, E, o2, i, bound, assigned[i][0]):
            return True
    return False


def const_of(o):
    return o.get('val') if o.get('k') == 'const' else None


def rewrite(fn, B, h, latches, body, chain, defs, T, E, op, i, bound, at):
    bl = B.bl
    iy, ik = at
    if iy in chain or ik is None:
        return False
    ty = fn['locals'][i]['ty']
    # the step
    r = bl[iy]['st'][ik]['r']
    drop = []
    if r['k'] == 'use' and isinstance(r['o'].get('p'), list) and r['o']['p'][1] and len(r['o']['p'][1]) == 1:
        tmp = r['o']['p'][0]
        ds = [(y, k) for y in body for k, s in enumerate(bl[y]['st']) if def_stmt(s) == tmp]
        if len(ds) != 1:
            return False
        y, k = ds[0]
        r = bl[y]['st'][k]['r']
        t = bl[y]['t']
        if t['k'] == 'assert' and t['t'] == iy and len(B.pr[iy]) == 1:
            drop.append((y, k))
            fix = y
        else:
            return False
        if ik != 0 and any(s['k'] not in ('live', 'dead') for s in bl[iy]['st'][:ik]):
            return False
    else:
        fix = None
    if r['k'] != 'bin' or not r['op'].startswith(('Add', 'Sub')):
        return False
    sa, sb = r['a'], r['b']
    isi = lambda o: o.get('p') == [i, []]
    if r['op'].startswith('Add') and const_of(sa) == 1:
        sa, sb = sb, sa
    if not isi(sa) or const_of(sb) != 1:
        return False
    up = r['op'].startswith('Add')
    uns = ty in UNS
    pre = [y for y in B.pr[h] if y not in latches]
    lo = start_const(fn, B, pre, i)
    if up and not (op in ('Lt', 'Le')):
        return False
    if not up and not (op == 'Gt' or op == 'Ne' and uns and const_of(bound) == 0):
        return False
    # exactly once per iteration
    if not all(B.dominates(iy, l) for l in latches):
        return False
    seen, st = set(), [s for s in B.su[iy] if s in body and s != h]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y == iy:
            return False
        st += [s for s in B.su[y] if s in body and s != h]
    after = seen                          # blocks of the same iteration after the step
    live = B.liveness(i)
    stepdef = (drop[0] if drop else (iy, ik))
    # where the counter is read
    for y in body:
        if y in chain:
            continue
        for k, s in enumerate(bl[y]['st']):
            if i not in reads_stmt(s):
                continue
            if (y, k) == stepdef or (y, k) == (iy, ik):
                continue
            late = y in after or y == iy and k > ik
            if late == up:
                return False             # read after going up, or before going down
        t = bl[y]['t']
        if i in reads_term(t):
            if fix is not None and y == fix and t['k'] == 'assert':
                continue
            late = y in after or y == iy
            if late == up:
                return False
    exits = [(y, s) for y in body for s in B.su[y] if s not in body]
    end_val = None
    for y, s in exits:
        if s not in live:
            continue
        if y in chain:
            if s != E:
                return False
            if up and op == 'Lt' and uns and lo == 0:
                end_val = bound
            elif not up and uns and const_of(bound) == 0:
                end_val = bound
            else:
                return False
        else:
            late = y in after or y == iy
            if late == up:
                return False
    # temporaries of the test are used only there
    inside = set(chain)
    for y in B.live:
        if y in inside:
            continue
        rd = set()
        for s in bl[y]['st']:
            rd |= reads_stmt(s)
        rd |= reads_term(bl[y]['t'])
        if rd & set(defs):
            # another use must follow another definition
            for d in rd & set(defs):
                if y in B.liveness(d):
                    return False
    # ---- rewrite
    s0 = bl[h]['t'].get('s') or bl[chain[-1]]['t'].get('s')
    L = fn['locals']

    def local(t_, like=None):
        d = dict(like) if like else {}
        d['ty'] = t_
        L.append(d)
        return len(L) - 1

    def block(st, t):
        bl.append({'st': st, 't': t, 's': s0})
        return len(bl) - 1
    rty = f'std::ops::Range<{ty}>' if op != 'Le' else f'std::ops::RangeInclusive<{ty}>'
    ity = rty if up else f'std::iter::Rev<{rty}>'
    x = local(ty, L[i])
    it, rr, y_, dl = local(ity), local('&mut ' + ity), local(f'{OPT}<{ty}>'), local('isize')
    cp = lambda q: {'k': 'copy', 'p': [q, []]}
    H = len(bl)
    bl.append(None)
    none_b = len(bl)
    bl.append(None)
    body_b = len(bl)
    bl.append(None)
    sw_b = len(bl)
    bl.append(None)
    # preheader: the straight line, then the range
    pre_ids = {}
    for q in chain:
        pre_ids[q] = len(bl)
        bl.append(None)
    for q in chain:
        nb = {'st': copy.deepcopy(bl[q]['st']), 't': copy.deepcopy(bl[q]['t']), 's': s0}
        if q != chain[-1]:
            nb['t']['t'] = pre_ids[nb['t']['t']]
        bl[pre_ids[q]] = nb
    lastb = bl[pre_ids[chain[-1]]]
    # keep the bound alive up to the range
    lastb['st'] = [s for s in lastb['st'] if not (s['k'] == 'dead')]
    bo = {'k': 'copy', 'p': copy.deepcopy(bound['p'])} if isinstance(bound.get('p'), list) else copy.deepcopy(bound)
    if not isinstance(bound.get('p'), list):
        bo = copy.deepcopy(bound)
    st0 = start_operand(fn, B, pre, i) or cp(i)
    lo_o, hi_o = (st0, bo) if up else (bo, cp(i))
    if op == 'Le':
        mkr = {'k': 'call', 'f': {'k': 'const', 'ty': f'fn({ty}, {ty}) -> {rty}', 'fn': 'core::ops::range::{impl#7}::new', 'n': 'std::ops::RangeInclusive::<Idx>::new', 'ga': [ty]},
               'args': [lo_o, hi_o], 'd': [it, []], 'dt': rty, 'at': [ty, ty], 't': H, 's': s0}
        lastb['t'] = mkr
    else:
        r0 = it if up else local(rty)
        lastb['st'].append({'k': '=', 'p': [r0, []], 'r': {'k': 'agg', 'a': 'adt', 'adt': 'std::ops::Range', 'enum': False, 'v': 'Range', 'vi': 0, 'fs': ['start', 'end'], 'ops': [lo_o, hi_o]}, 's': s0})
        if up:
            lastb['t'] = {'k': 'goto', 't': H, 's': s0}
        else:
            lastb['t'] = {'k': 'call', 'f': {'k': 'const', 'ty': f'fn({rty}) -> {ity}', 'fn': 'core::iter::traits::iterator::Iterator::rev', 'n': 'std::iter::Iterator::rev', 'ga': [rty],
                                             'trait': 'std::iter::Iterator', 'self': rty}, 'args': [{'k': 'move', 'p': [r0, []]}], 'd': [it, []], 'dt': ity, 'at': [rty], 't': H, 's': s0}
    bl[H] = {'st': [{'k': '=', 'p': [rr, []], 'r': {'k': 'ref', 'm': True, 'p': [it, []]}, 's': s0}],
             't': {'k': 'call', 'f': {'k': 'const', 'ty': f'fn(&mut {ity}) -> {OPT}<{ty}>', 'fn': 'core::iter::traits::iterator::Iterator::next', 'n': 'std::iter::Iterator::next',
                                      'ga': [ity], 'trait': 'std::iter::Iterator', 'self': ity}, 'args': [{'k': 'move', 'p': [rr, []]}], 'd': [y_, []], 'dt': f'{OPT}<{ty}>',
                   'at': ['&mut ' + ity], 't': sw_b, 's': s0}, 's': s0}
    bl[sw_b] = {'st': [{'k': '=', 'p': [dl, []], 'r': {'k': 'discr', 'p': [y_, []], 'ty': f'{OPT}<{ty}>'}, 's': s0}],
                't': {'k': 'switch', 'o': cp(dl), 'ty': 'isize', 'ts': [[0, none_b], [1, body_b]], 'e': None, 's': s0}, 's': s0}
    bl[none_b] = {'st': [], 't': {'k': 'goto', 't': E, 's': s0}, 's': s0}
    if end_val is not None:
        bl[none_b]['st'].append({'k': '=', 'p': [i, []], 'r': {'k': 'use', 'o': bo if isinstance(bound.get('p'), list) else copy.deepcopy(bound)}, 's': s0})
    bl[body_b] = {'st': [{'k': '=', 'p': [x, []], 'r': {'k': 'use', 'o': {'k': 'copy', 'p': [y_, [['d', 'Some', 1], ['f', OPT + '::Some', '0', 0]]]}}, 's': s0}], 't': {'k': 'goto', 't': T, 's': s0}, 's': s0}
    # edges into the loop
    for q in pre:
        retarget(bl[q]['t'], h, pre_ids[h])
    for q in latches:
        retarget(bl[q]['t'], h, H)
    for q in range(B.n):
        if q in B.su and q not in pre and q not in latches and h in B.su[q]:
            retarget(bl[q]['t'], h, pre_ids[h])
    # the step goes
    rm = sorted(drop + [(iy, ik)], key=lambda e: (e[0], -e[1]))
    for q, k in rm:
        bl[q]['st'][k] = {'k': 'nop'}
    for q in {e[0] for e in rm}:
        bl[q]['st'] = [s for s in bl[q]['st'] if s['k'] != 'nop']
    if fix is not None:
        bl[fix]['t'] = {'k': 'goto', 't': bl[fix]['t']['t'], 's': bl[fix]['t'].get('s')}
    # the counter inside the loop
    for q in body:
        if q in chain:
            continue
        rename(bl[q]['st'], i, x)
        rename(bl[q]['t'], i, x)
    # leaving early keeps the counter
    for q, s in exits:
        if q in chain or s not in live:
            continue
        e = block([{'k': '=', 'p': [i, []], 'r': {'k': 'use', 'o': cp(x)}, 's': s0}], {'k': 'goto', 't': s, 's': s0})
        retarget(bl[q]['t'], s, e)
    # the old header is gone
    for q in chain:
        bl[q] = {'st': [], 't': {'k': 'unreachable', 's': s0}, 's': s0, 'c': True}
    return True


def start_operand(fn, B, pre, i):
    """the constant the counter starts with"""
    v = start_stmt(fn, B, pre, i)
    return copy.deepcopy(v['r']['o']) if v is not None and v['r']['k'] == 'use' and v['r']['o'].get('k') == 'const' else None


def start_const(fn, B, pre, i):
    o = start_operand(fn, B, pre, i)
    return const_of(o) if o else None


def start_stmt(fn, B, pre, i):
    if len(pre) != 1:
        return None
    y = pre[0]
    seen = set()
    while y not in seen:
        seen.add(y)
        for s in reversed(B.bl[y]['st']):
            if s['k'] == '=' and not s['p'][1] and s['p'][0] == i:
                return s
        t = B.bl[y]['t']
        if y == 0 or len(B.pr[y]) != 1:
            return None
        y = B.pr[y][0]
        if B.bl[y]['t']['k'] == 'call' and B.bl[y]['t']['d'] == [i, []]:
            return None
    return None


def retarget(t, a, b):
    if t.get('t') == a and t['k'] != 'switch':
        t['t'] = b
    if t['k'] == 'switch':
        t['ts'] = [[v, b if x == a else x] for v, x in t['ts']]
        if t.get('e') == a:
            t['e'] = b
