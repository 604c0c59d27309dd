"""Analysis of one flat (inlined) body:
 1. explode: product of the CFG with a small constant domain (bools and enum variants held in locals),
    so flags, Option/Result returns and `?` do not lose paths;
 2. value numbering over the exploded graph with a field-sensitive abstract store and phi terms;
 3. must-facts (branch conditions that hold on every path to a node);
 4. events: resolved calls and writes with value terms, per node."""
import sys
from collections import deque
from .term import T, mk, const, show, walk, path_str
from .inline import succs, cname

sys.setrecursionlimit(100000)
PURE_IMPURE = ()


def place_key(p, val):
    """resolve a MIR place to a tracked key (local, fields...) through known refs; None if not trackable"""
    key = (p[0],)
    for e in p[1]:
        if e == '*':
            v = val.get(key)
            if v is None or v[0] != 'r':
                return None
            key = v[1]
        elif e[0] == 'f':
            key = key + (e[2],)
        elif e[0] == 'd':
            key = key + ('<' + e[1] + '>',)
        else:
            return None
        if len(key) > 6:
            return None
    return key


class Exploder:
    def __init__(self, flat, prog, cap=40000, refine=True):
        self.f = flat
        self.p = prog
        self.cap = cap
        self.refine = refine

    def liveness(self):
        f = self.f
        n = len(f.blocks)
        addr = set()
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]

        def pl(p, u):
            u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'i':
                    u.add(e[1])

        def op(o, u):
            if isinstance(o.get('p'), list):
                pl(o['p'], u)
        ops_use = []
        for bi, b in enumerate(f.blocks):
            seq = []
            for s in b['st']:
                u = set()
                d = None
                if s['k'] == '=':
                    r = s['r']
                    for k in ('o', 'a', 'b'):
                        if isinstance(r.get(k), dict):
                            op(r[k], u)
                    if isinstance(r.get('p'), list):
                        pl(r['p'], u)
                        if r['k'] in ('ref', 'rawptr', 'reborrow') and '*' not in r['p'][1]:
                            addr.add(r['p'][0])
                    for o in r.get('ops', []):
                        op(o, u)
                    if s['p'][1]:
                        pl(s['p'], u)
                        if '*' not in s['p'][1] and False:
                            pass
                    else:
                        d = s['p'][0]
                elif s['k'] == 'dead':
                    d = s['l']
                seq.append((u, d))
            t = b['t']
            u = set()
            d = None
            k = t['k']
            if k == 'switch' or k == 'assert':
                op(t['o'], u)
            elif k == 'call':
                op(t['f'], u)
                for a in t['args']:
                    op(a, u)
                if t['d'][1]:
                    pl(t['d'], u)
                else:
                    d = t['d'][0]
            elif k == 'drop':
                pass
            elif k == 'return':
                u.add(0)
            seq.append((u, d))
            ops_use.append(seq)
            uu, dd = set(), set()
            for u, d in seq:
                uu |= (u - dd)
                if d is not None:
                    dd.add(d)
            use[bi] = uu
            de[bi] = dd
        live_in = [set() for _ in range(n)]
        preds = f.preds()
        wl = deque(range(n - 1, -1, -1))
        inq = set(wl)
        while wl:
            b = wl.popleft()
            inq.discard(b)
            out = set()
            for s in succs(f.blocks[b]['t']):
                out |= live_in[s]
            ni = use[b] | (out - de[b])
            if ni != live_in[b]:
                live_in[b] = ni
                for p in preds[b]:
                    if p not in inq:
                        inq.add(p)
                        wl.append(p)
        self.addr = addr
        self.live_in = live_in

    def const_of(self, o):
        if o['k'] == 'const':
            if o.get('ty') == 'bool' and 'val' in o:
                return ('b', bool(o['val']))
        return None

    def kill(self, val, key):
        n = len(key)
        for k in [k for k in val if k[:n] == key]:
            del val[k]

    def assign(self, val, key, r):
        """transfer key = rvalue"""
        k = r['k']
        new = {}
        if k == 'use':
            o = r['o']
            c = self.const_of(o)
            if c:
                new[key] = c
            elif 'p' in o:
                src = place_key(o['p'], val)
                if src is not None:
                    n = len(src)
                    for kk, vv in val.items():
                        if kk[:n] == src:
                            new[key + kk[n:]] = vv
        elif k == 'agg':
            if r['a'] == 'adt' and r.get('enum'):
                new[key] = ('v', r['v'])
            fs = r.get('fs') or [str(i) for i in range(len(r['ops']))]
            pre = key + (('<' + r['v'] + '>',) if r['a'] == 'adt' and r.get('enum') else ())
            for fn_, o in zip(fs, r['ops']):
                fk = pre + (fn_,)
                c = self.const_of(o)
                if c:
                    new[fk] = c
                elif 'p' in o:
                    src = place_key(o['p'], val)
                    if src is not None:
                        n = len(src)
                        for kk, vv in val.items():
                            if kk[:n] == src and len(kk) - n + len(fk) < 7:
                                new[fk + kk[n:]] = vv
        elif k in ('ref', 'reborrow'):
            src = place_key(r['p'], val)
            if src is not None:
                if r['m']:
                    self.kill(val, src)
                    self.mutb.add(src[0])
                else:
                    new[key] = ('r', src)
        elif k == 'discr':
            src = place_key(r['p'], val)
            if src is not None:
                v = val.get(src)
                if v and v[0] == 'v':
                    new[key] = ('dv', v[1], r.get('ty', ''))
                else:
                    new[key] = ('dof', src, r.get('ty', ''))
        elif k == 'un' and r['op'] == 'Not' and 'p' in r['o']:
            src = place_key(r['o']['p'], val)
            if src is not None:
                v = val.get(src)
                if v and v[0] == 'b':
                    new[key] = ('b', not v[1])
                elif v is None or v[0] in ('nof',):
                    pass
        self.kill(val, key)
        # references to the overwritten thing stay valid as places
        val.update(new)

    def transfer(self, bi, val):
        val = dict(val)
        b = self.f.blocks[bi]
        for s in b['st']:
            if s['k'] == '=':
                key = place_key(s['p'], val)
                if key is None:
                    # write through unknown pointer: may only hit address-taken (mutably) locals
                    if s['p'][1] and '*' in s['p'][1]:
                        pass
                    # still must process mutable borrows in the rvalue
                    r = s['r']
                    if r['k'] in ('ref', 'reborrow') and r['m']:
                        src = place_key(r['p'], val)
                        if src is not None:
                            self.kill(val, src)
                    continue
                self.assign(val, key, s['r'])
            elif s['k'] == 'dead':
                self.kill(val, (s['l'],))
        return val

    def loop_heads(self):
        """targets of depth-first back edges"""
        f = self.f
        col, heads = {}, set()
        st = [(0, iter(succs(f.blocks[0]['t'])))]
        col[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if s not in col:
                    col[s] = 1
                    st.append((s, iter(succs(f.blocks[s]['t']))))
                    break
                if col[s] == 1:
                    heads.add(s)
            else:
                col[b] = 2
                st.pop()
        return heads

    def run(self):
        self.mutb = set()
        self.liveness()
        self.drop = {}
        heads = self.loop_heads()
        for _ in range(4):
            r = self.explore()
            if r is None:
                return None
            # references known on the first pass through a loop header only: forget them there
            grp = {}
            for b, v in r[0]:
                if b in heads:
                    grp.setdefault((b, frozenset((k, x) for k, x in v.items() if x[0] != 'r')), []).append(v)
            more = False
            for (b, _), vs in grp.items():
                if len(vs) < 2:
                    continue
                for k in set().union(*vs):
                    xs = {v.get(k) for v in vs}
                    if len(xs) > 1 and k not in self.drop.get(b, ()):
                        self.drop.setdefault(b, set()).add(k)
                        more = True
            if not more:
                break
        return r

    def explore(self):
        f = self.f
        nodes = []      # (block, frozen val)
        index = {}
        succ = []
        edge = []       # edge labels: value of the switch
        q = deque()

        def get(bi, val):
            live = self.live_in[bi]
            keep = {}
            drop = self.drop.get(bi, ())
            for k, v in val.items():
                if k in drop:
                    continue
                if k[0] in live or k[0] in self.addr:
                    if v[0] == 'dof':
                        continue
                    if v[0] in ('r',) and not (k[0] in live):
                        continue
                    keep[k] = v
            # an address-taken, not-live local matters only if some kept ref points to it
            refd = {v[1][0] for v in keep.values() if v[0] == 'r'}
            keep = {k: v for k, v in keep.items() if k[0] in live or k[0] in refd}
            key = (bi, frozenset(keep.items()))
            i = index.get(key)
            if i is None:
                i = len(nodes)
                index[key] = i
                nodes.append((bi, keep))
                succ.append([])
                q.append(i)
            return i
        get(0, {})
        while q:
            i = q.popleft()
            if len(nodes) > self.cap:
                return None
            bi, val0 = nodes[i]
            val = self.transfer(bi, val0)
            t = f.blocks[bi]['t']
            k = t['k']
            if k == 'switch':
                o = t['o']
                known = None
                dof = None
                bkey = None
                if o['k'] == 'const' and 'val' in o:
                    known = o['val']
                elif 'p' in o:
                    key = place_key(o['p'], val)
                    v = val.get(key) if key is not None else None
                    if v:
                        if v[0] == 'b':
                            known = 1 if v[1] else 0
                        elif v[0] == 'dv':
                            vm = self.p.variants(v[2])
                            if vm:
                                inv = [d for d, nme in vm.items() if nme == v[1]]
                                known = inv
                        elif v[0] == 'dof':
                            dof = v
                    if v is None and t.get('ty') == 'bool' and key is not None:
                        bkey = key
                tgts = [(v, b) for v, b in t['ts']]
                if known is not None:
                    kn = known if isinstance(known, list) else [known]
                    hit = [(v, b) for v, b in tgts if v in kn]
                    if hit:
                        outs = [(hit[0][0], hit[0][1], val)]
                    elif t.get('e') is not None:
                        outs = [('else', t['e'], val)]
                    else:
                        outs = []
                else:
                    outs = []
                    for v, b in tgts:
                        v2 = val
                        if self.refine and dof:
                            vm = self.p.variants(dof[2])
                            if vm and v in vm:
                                v2 = dict(val)
                                v2[dof[1]] = ('v', vm[v])
                        elif self.refine and bkey:
                            v2 = dict(val)
                            v2[bkey] = ('b', bool(v))
                        outs.append((v, b, v2))
                    full = False
                    if dof:
                        vm = self.p.variants(dof[2])
                        full = bool(vm) and set(vm.values()) <= {vm.get(x) for x, _ in tgts}
                    if t.get('e') is not None and not full:
                        v2 = val
                        if self.refine and dof:
                            vm = self.p.variants(dof[2])
                            if vm:
                                rest = {nme for d, nme in vm.items() if d not in [x for x, _ in tgts]}
                                if len(rest) == 1:
                                    v2 = dict(val)
                                    v2[dof[1]] = ('v', rest.pop())
                        elif self.refine and bkey and len(tgts) == 1:
                            v2 = dict(val)
                            v2[bkey] = ('b', not bool(tgts[0][0]))
                        outs.append(('else', t['e'], v2))
                for v, b, v2 in outs:
                    succ[i].append((get(b, v2), v))
            elif k == 'nd':
                for b in t['ts']:
                    succ[i].append((get(b, val), None))
            elif k == 'call':
                if t.get('t') is not None:
                    key = place_key(t['d'], val)
                    if key is not None:
                        self.kill(val, key)
                    succ[i].append((get(t['t'], val), None))
            else:
                for b in succs(t):
                    succ[i].append((get(b, val), None))
        return nodes, succ


INT_TYS = {'usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128', 'char', 'bool'}

# calls that are the identity on values (reference-transparent)
IDENTITY = {
    'Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'Clone::clone', 'Vec::as_slice', 'ToOwned::to_owned',
    'String::as_str', 'slice::to_vec', 'IntoIterator::into_iter', 'slice::iter', 'Iterator::copied', 'Iterator::cloned',
    'Vec::iter', 'Iterator::by_ref', 'slice::into_vec', 'hint::must_use', 'ToString::to_string', 'Into::into', 'From::from',
    'hint::black_box', 'slice::as_ref', 'Arc::clone',
}
# &mut -> &mut identity on places
MUT_IDENTITY = {'DerefMut::deref_mut', 'AsMut::as_mut', 'Vec::as_mut_slice', 'BorrowMut::borrow_mut'}
IMPURE = {'fastrand', 'Instant::now', 'Mutex::lock', 'Receiver::recv', 'Atomic', 'RefCell'}

CMP = {'PartialOrd::lt': 'lt', 'PartialOrd::gt': 'gt', 'PartialOrd::le': 'le', 'PartialOrd::ge': 'ge',
       'PartialEq::eq': 'eq', 'PartialEq::ne': 'ne'}
ARITH = {'Add::add': 'Add', 'Sub::sub': 'Sub', 'Mul::mul': 'Mul', 'Div::div': 'Div', 'Rem::rem': 'Rem',
         'Neg::neg': 'Neg', 'Not::not': 'Not'}
ARITH_ASSIGN = {'AddAssign::add_assign': 'Add', 'SubAssign::sub_assign': 'Sub', 'MulAssign::mul_assign': 'Mul',
                'DivAssign::div_assign': 'Div', 'RemAssign::rem_assign': 'Rem'}


def arith(op, a, b, ty=''):
    if op in ('Add', 'Mul') and b.id < a.id:
        a, b = b, a
    if a.op == 'const' and b.op == 'const' and isinstance(a.a[0], int) and isinstance(b.a[0], int):
        x, y = a.a[0], b.a[0]
        if op == 'Add':
            return const(x + y)
        if op == 'Sub':
            return const(x - y)
        if op == 'Mul':
            return const(x * y)
    return mk(op, a, b)


def ord_pair(t):
    """(a, b, total) if t is the Ordering value of comparing a with b"""
    if t.op == 'vf' and t.a[1] == 'Some' and t.a[0].op == 'call' and t.a[0].a[0] == 'PartialOrd::partial_cmp':
        return t.a[0].a[1], t.a[0].a[2], False
    if t.op == 'call' and t.a[0] == 'Ord::cmp':
        return t.a[1], t.a[2], True
    if t.op == 'call' and t.a[0] == 'Ordering::reverse':
        r = ord_pair(t.a[1])
        return (r[1], r[0], r[2]) if r else None
    return None


def ord_is(t, variant):
    r = ord_pair(t)
    if r is None:
        return None
    a, b, tot = r
    k = 'i' if tot else 'f'
    if variant == 'Less':
        return mk('lt', a, b, k)
    if variant == 'Greater':
        return mk('lt', b, a, k)
    if variant == 'Equal':
        x, y = (b, a) if b.id < a.id else (a, b)
        return mk('eq', x, y, k)
    return None


def nullary(t):
    return t.op == 'agg' and '::' in t.a[0] and len(t.a) == 2


def cmp_term(op, a, b, ty):
    """comparisons normalised to lt/le/eq/ne; `ty`: i (total order) or f (partial)"""
    if op in ('eq', 'ne'):
        if nullary(a) and nullary(b):
            same = a.a[0].split('::')[-1] == b.a[0].split('::')[-1]
            return const(int(same == (op == 'eq')))
        for x, y in ((a, b), (b, a)):
            if nullary(y):
                r = ord_is(x, y.a[0].split('::')[-1])
                if r is not None:
                    return r if op == 'eq' else neg(r)
    kind = 'i' if ty in INT_TYS else 'f'
    if op == 'gt':
        op, a, b = 'lt', b, a
    elif op == 'ge':
        op, a, b = 'le', b, a
    if op in ('eq', 'ne') and b.id < a.id:
        a, b = b, a
    if a.op == 'const' and b.op == 'const' and isinstance(a.a[0], int) and isinstance(b.a[0], int):
        x, y = a.a[0], b.a[0]
        return const(int({'lt': x < y, 'le': x <= y, 'eq': x == y, 'ne': x != y}[op]))
    return mk(op, a, b, kind)


def neg(t):
    if t.op == 'not':
        return t.a[0]
    if t.op == 'const' and t.a[0] in (0, 1):
        return const(1 - t.a[0])
    if t.op in ('lt', 'le') and t.a[2] == 'i':
        return mk('le' if t.op == 'lt' else 'lt', t.a[1], t.a[0], 'i')
    if t.op == 'eq':
        return mk('ne', t.a[0], t.a[1], t.a[2])
    if t.op == 'ne':
        return mk('eq', t.a[0], t.a[1], t.a[2])
    return mk('not', t)


class Node:
    __slots__ = ('b', 'val', 'succ', 'pred', 'inst', 'outst', 'facts', 'events', 'sw', 'ctx')


def is_newbox(t, b=None):
    return isinstance(t, T) and t.op == 'call' and t.a[0] == 'Box::new_uninit' and (b is None or t is b)


def under(t):
    while isinstance(t, T) and t.op in ('cast', 'fld'):
        t = t.a[0]
    return t


class Flow:
    """prog, flat -> exploded graph with terms, facts, events"""

    def __init__(self, prog, flat, cap=40000, identity=IDENTITY, values=True):
        self.p = prog
        self.f = flat
        self.identity = identity
        r = Exploder(flat, prog, cap, True).run()
        if r is None:
            r = Exploder(flat, prog, cap * 3, False).run()
        if r is None:
            raise RuntimeError('explosion cap')
        nodes, succ = r
        self.n = []
        for i, (b, v) in enumerate(nodes):
            nd = Node()
            nd.b = b
            nd.val = v
            nd.succ = succ[i]
            nd.pred = []
            nd.inst = None
            nd.outst = None
            nd.facts = None
            nd.events = None
            nd.sw = None
            nd.ctx = flat.blocks[b]['ctx']
            self.n.append(nd)
        for i, nd in enumerate(self.n):
            for s, _ in nd.succ:
                self.n[s].pred.append(i)
        self.rpo = self._rpo()
        self.rpo_ix = {x: i for i, x in enumerate(self.rpo)}
        self.phi_tab = {}
        self.phi_ops = {}
        self.phi_key = {}
        self.bodies = self.loop_bodies()
        self._sites = {}
        if values:
            self.solve()
            for rnd in range(6):
                cut = self.prune()
                if not self.thread() and not cut:
                    break
                # values again, without the infeasible joins
                self.phi_tab, self.phi_ops, self.phi_key = {}, {}, {}
                self._sites = {}
                for nd in self.n:
                    nd.inst = nd.outst = nd.events = nd.sw = None
                self.solve()
            self.solve_facts()

    def _rpo(self):
        seen = set([0])
        out = []
        st = [(0, iter([s for s, _ in self.n[0].succ]))]
        while st:
            x, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter([q for q, _ in self.n[s].succ])))
                    adv = True
                    break
            if not adv:
                out.append(x)
                st.pop()
        out.reverse()
        return out

    # ---------- loops: values carried to the next iteration ----------
    def loop_bodies(self):
        """header block -> blocks of its natural loop"""
        bl = self.f.blocks
        sc = [sorted(set(succs(b['t']))) for b in bl]
        pr = [[] for _ in bl]
        for i, ss in enumerate(sc):
            for s in ss:
                pr[s].append(i)
        state = [0] * len(bl)
        back = []
        state[0] = 1
        st = [(0, iter(sc[0]))]
        while st:
            x, it = st[-1]
            for s in it:
                if state[s] == 0:
                    state[s] = 1
                    st.append((s, iter(sc[s])))
                    break
                if state[s] == 1:
                    back.append((x, s))
            else:
                state[x] = 2
                st.pop()
        out = {}
        for p, h in back:
            body = out.setdefault(h, {h})
            w = [p]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w += [q for q in pr[x] if state[q]]
        return {h: frozenset(b) for h, b in out.items()}

    def sites(self, t):
        """blocks at which the value of t is (re)produced: call sites, iterator steps, joins"""
        c = self._sites.get(t)
        if c is not None:
            return c
        r = set()
        if t.op in ('next', 'elem', 'pos', 'upd') and len(t.a) > 1 and isinstance(t.a[1], int):
            r.add(t.a[1])
        elif t.op == 'call':
            r |= {x for x in t.a[1:] if isinstance(x, int)}
        elif t.op == 'phi' and t in self.phi_key:
            r.add(self.n[self.phi_key[t][0]].b)
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                r |= self.sites(x)
            elif isinstance(x, tuple):
                st += list(x)
        c = frozenset(r)
        self._sites[t] = c
        return c

    def stale(self, t, body):
        return bool(body) and not body.isdisjoint(self.sites(t))

    # ---------- store ----------
    def read(self, st, root, path):
        v = st.get((root, path))
        if v is not None:
            return v
        # longest proper prefix
        for n in range(len(path) - 1, -1, -1):
            b = st.get((root, path[:n]))
            if b is not None:
                # an overriding index entry between?
                base = self.with_ext(st, root, path[:n], b, path[n:])
                return self.proj(base, path[n:])
        # no prefix entry
        if isinstance(root, T):
            base = root
            base = self.with_ext(st, root, (), base, path)
            return self.proj(base, path)
        # uninitialised local: maybe fields were assigned one by one
        exts = [(k[1], x) for k, x in st.items() if k[0] == root and k[1][:len(path)] == path]
        if exts:
            return mk('with', const('undef'), tuple((p[len(path):], x) for p, x in sorted(exts, key=lambda y: str(y[0]))))
        return mk('undef', root if not isinstance(root, T) else root.id)

    def with_ext(self, st, root, pre, base, rest):
        """fold entries under (root, pre) that could alias the read of pre+rest"""
        full = pre + rest
        n = len(pre)
        exts = []
        for k, x in st.items():
            if k[0] == root or k[0] is root:
                kp = k[1]
                if len(kp) > n and kp[:n] == pre and self.may_alias(kp[n:], rest):
                    exts.append((kp[n:], x))
        if exts:
            exts.sort(key=lambda y: str(y[0]))
            return mk('with', base, tuple(exts))
        return base

    def may_alias(self, a, b):
        for x, y in zip(a, b):
            if x == y:
                continue
            if x[0] == 'i' and y[0] == 'i':
                if x[1].op == 'const' and y[1].op == 'const':
                    return False
                continue
            if x[0] in ('i', 'ie', 's') and y[0] in ('i', 'ie', 's'):
                continue
            return False
        return True

    def proj(self, t, path):
        for e in path:
            t = self.proj1(t, e)
        return t

    def proj1(self, t, e):
        if e[0] == 'f' and '::' in e[1]:
            e = ('f', e[1].split('::')[-1], e[2])
        if t.op == 'with':
            base, exts = t.a
            exact = None
            subs = []
            other = []
            for p, x in exts:
                if p[0] == e:
                    if len(p) == 1:
                        exact = x
                    else:
                        subs.append((p[1:], x))
                elif self.may_alias((p[0],), (e,)):
                    other.append((p, x))
            if exact is not None and not other:
                return exact if not subs else mk('with', exact, tuple(subs))
            if other:
                return mk('idx' if e[0] == 'i' else 'prj', t, e[1] if e[0] == 'i' else str(e))
            r = self.proj1(base, e)
            return mk('with', r, tuple(subs)) if subs else r
        if e[0] == 'f':
            if t.op == 'agg':
                fs = t.a[1]
                if e[2] in fs:
                    return t.a[2 + fs.index(e[2])]
            if t.op == 'dc':
                # downcast
                b = t.a[0]
                if b.op == 'agg' and b.a[0].split('::')[-1] == t.a[1]:
                    fs = b.a[1]
                    if e[2] in fs:
                        return b.a[2 + fs.index(e[2])]
                return self.vfield(b, t.a[1], e[2])
            if t.op == 'elem':
                r = self.elem_field(t, e[2])
                if r is not None:
                    return r
            return mk('fld', t, e[1].split('::')[-1], e[2])
        if e[0] == 'd':
            return mk('dc', t, e[1])
        if e[0] == 'i':
            if t.op == 'agg' and t.a[0] == 'array' and e[1].op == 'const' and isinstance(e[1].a[0], int) and e[1].a[0] < len(t.a) - 2:
                return t.a[2 + e[1].a[0]]
            return mk('idx', t, e[1])
        if e[0] == 'ie':
            return mk('idxend', t, e[1])
        if e[0] == 's':
            return mk('sub', t, str(e[1:]))
        return mk('prj', t, str(e))

    def vfield(self, b, variant, f):
        if b.op == 'next' and variant == 'Some':
            return mk('elem', b.a[0], b.a[1])
        return mk('vf', b, variant, f)

    def elem_field(self, t, f):
        src = t.a[0]
        site = t.a[1]
        if src.op == 'call' and src.a[0] == 'Iterator::enumerate':
            if f == '0':
                return mk('pos', src.a[1], site)
            return mk('elem', src.a[1], site)
        if src.op == 'call' and src.a[0] in ('Iterator::zip', 'ZipEq::zip_eq', 'iter::zip'):
            return mk('elem', src.a[1 + int(f)], site) if f in '01' else None
        return None

    def write(self, st, root, path, v):
        n = len(path)
        for k in [k for k in st if (k[0] == root) and len(k[1]) > n and k[1][:n] == path]:
            del st[k]
        # a write to an unknown index invalidates sibling index entries it may alias
        if any(e[0] in ('i', 'ie', 's') for e in path):
            for k in [k for k in st if k[0] == root and k[1] != path and len(k[1]) >= 1
                      and self.may_alias(k[1], path) and k[1][:n] != path and path[:len(k[1])] != k[1]]:
                # fold into the container
                kp = k[1]
                m = 0
                while m < min(len(kp), n) and kp[m] == path[m]:
                    m += 1
                cont = path[:m]
                cur = self.read_whole(st, root, cont)
                for kk in [kk for kk in st if kk[0] == root and len(kk[1]) > m and kk[1][:m] == cont]:
                    del st[kk]
                st[(root, cont)] = cur
                break
        st[(root, path)] = v

    def read_whole(self, st, root, path):
        """value of a location including its overwritten parts"""
        exts = [(k[1][len(path):], x) for k, x in st.items()
                if k[0] == root and len(k[1]) > len(path) and k[1][:len(path)] == path]
        base = self.read(st, root, path) if not exts else self._base(st, root, path)
        if exts:
            exts.sort(key=lambda y: str(y[0]))
            return mk('with', base, tuple(exts))
        return base

    def _base(self, st, root, path):
        v = st.get((root, path))
        if v is not None:
            return v
        for n in range(len(path) - 1, -1, -1):
            b = st.get((root, path[:n]))
            if b is not None:
                return self.proj(b, path[n:])
        if isinstance(root, T):
            return self.proj(root, path)
        return mk('undef', root)

    # ---------- evaluation ----------
    def loc(self, st, p):
        root, path = p[0], ()
        for e in p[1]:
            if e == '*':
                v = self.read_whole(st, root, path)
                if v.op in ('ref', 'refm'):
                    root, path = v.a[0], v.a[1]
                else:
                    root, path = v, ()
            elif e[0] == 'f':
                path = path + (('f', e[1].split('::')[-1], e[2]),)
            elif e[0] == 'd':
                path = path + (('d', e[1]),)
            elif e[0] == 'i':
                path = path + (('i', self.read_whole(st, e[1], ())),)
            elif e[0] == 'c':
                path = path + ((('i', const(e[1])) if not e[2] else ('ie', e[1])),)
            elif e[0] == 's':
                path = path + (('s', e[1], e[2], e[3]),)
            else:
                path = path + (('?', str(e)),)
        return root, path

    def mkref(self, root, path, m):
        if isinstance(root, T) and path == ():
            return root
        return mk('refm' if m else 'ref', root, path)

    def operand(self, st, o):
        k = o['k']
        if k == 'const':
            if 'closure' in o:
                return mk('agg', 'closure:' + o['closure'], ())
            if 'n' in o and 'fn' in o:
                return mk('fn', o.get('rn', o['n']))
            if 'val' in o:
                return const(o['val'], o.get('ty', '?'))
            if 'promoted' in o:
                r = self.promoted(o)
                if r is not None:
                    return r
                return mk('const', 'promoted:' + o.get('pfn', '') + str(o['promoted']), o.get('ty', ''))
            if 'def' in o:
                did = o.get('did', '')
                return mk('const', o['def'] + (did[did.rindex('#'):] if '#' in did.split('::')[-1] and did in self.p.fns else '') + ('<' + ','.join(o.get('ga', [])) + '>' if o.get('ga') else ''), 'def')
            if 'cty' in o:
                return mk('const', o['cty'], 'cty')
            return mk('const', o.get('s', '?'), o.get('ty', '?'))
        if k in ('copy', 'move'):
            root, path = self.loc(st, o['p'])
            return self.read_whole(st, root, path)
        return mk('const', o.get('s', '?'), 'rt')

    def promoted(self, o):
        fn = self.p.fns.get(o['pfn'])
        if not fn or o['promoted'] >= len(fn.get('prom', [])):
            return None
        body = fn['prom'][o['promoted']]
        if len(body['blocks']) != 1:
            return None
        st = {}
        try:
            for s in body['blocks'][0]['st']:
                if s['k'] == '=':
                    root, path = self.loc(st, s['p'])
                    self.write(st, root, path, self.rvalue(st, s['r'], None))
            v = st.get((0, ()))
            return self.resolve(st, v) if v is not None else None
        except Exception:
            return None

    def resolve(self, st, v, d=0):
        """replace references to tracked locations by the current value there"""
        if not isinstance(v, T) or d > 12:
            return v
        if v.op in ('ref', 'refm'):
            r = self.read_whole(st, v.a[0], v.a[1])
            return self.resolve(st, r, d + 1)
        if v.op in ('agg',):
            na = tuple(self.resolve(st, x, d + 1) for x in v.a)
            if na != v.a:
                return mk('agg', *na)
            return v
        if v.op == 'call' and any(isinstance(x, T) and (x.op in ('ref', 'refm')) for x in v.a):
            return mk('call', *[self.resolve(st, x, d + 1) for x in v.a])
        return v

    def rvalue(self, st, r, site):
        k = r['k']
        if k == 'use':
            return self.operand(st, r['o'])
        if k in ('ref', 'reborrow', 'rawptr'):
            root, path = self.loc(st, r['p'])
            return self.mkref(root, path, r.get('m', False))
        if k == 'bin':
            a, b = self.operand(st, r['a']), self.operand(st, r['b'])
            a, b = self.resolve(st, a), self.resolve(st, b)
            op = r['op']
            ty = r.get('ty', '')
            if op in ('Lt', 'Gt', 'Le', 'Ge', 'Eq', 'Ne'):
                return cmp_term(op.lower(), a, b, ty)
            if op.endswith('WithOverflow'):
                return mk('agg', 'tuple', ('0', '1'), arith(op[:-12], a, b, ty), mk('ovf', op[:-12], a, b))
            if op.endswith('Unchecked'):
                op = op[:-9]
            return arith(op, a, b, ty)
        if k == 'un':
            a = self.resolve(st, self.operand(st, r['o']))
            if r['op'] == 'Not':
                return neg(a)
            if r['op'] == 'PtrMetadata':
                return mk('call', 'len', a)
            return mk(r['op'], a)
        if k == 'cast':
            a = self.operand(st, r['o'])
            c = r['c']
            if c.startswith('coerce') or c in ('PtrToPtr', 'Subtype', 'Transmute'):
                return a
            return mk('cast', self.resolve(st, a), r['from'], r['to'])
        if k == 'discr':
            root, path = self.loc(st, r['p'])
            v = self.read_whole(st, root, path)
            v = self.resolve(st, v)
            if v.op == 'agg':
                vm = self.p.variants(r.get('ty', ''))
                if vm:
                    for dv, nm in vm.items():
                        if nm == v.a[0].split('::')[-1]:
                            return const(dv)
            return mk('discr', v, r.get('ty', ''))
        if k == 'agg':
            ops = [self.operand(st, o) for o in r['ops']]
            if r['a'] == 'adt':
                name = r['adt'] + ('::' + r['v'] if r.get('enum') else '')
                fs = tuple(r['fs'])
                if not r.get('enum') and len(fs) > 3:
                    # S { changed fields, ..base }
                    own = {}
                    for n, o in zip(fs, ops):
                        if isinstance(o, T) and o.op == 'fld' and o.a[2] == n and o.a[1].split('::')[-1] == name.split('::')[-1]:
                            own.setdefault(o.a[0], []).append((n, o.a[1]))
                    for b, l in own.items():
                        if 2 * len(l) >= len(fs) and b.op not in ('const', 'undef'):
                            keep = {n for n, _ in l}
                            ch = tuple(sorted((((('f', l[0][1], n),), o) for n, o in zip(fs, ops) if n not in keep), key=lambda y: str(y[0])))
                            return mk('with', b, ch) if ch else b
            elif r['a'] == 'closure':
                name = 'closure:' + r['closure']
                fs = tuple(r['fs'])
            else:
                name = r['a']
                fs = tuple(str(i) for i in range(len(ops)))
            return mk('agg', name, fs, *ops)
        if k == 'repeat':
            return mk('repeat', self.resolve(st, self.operand(st, r['o'])), r['n'])
        if k == 'position':
            return mk('pos', self.resolve(st, self.operand(st, r['o'])), site)
        if k == 'hofarg':
            src = self.resolve(st, self.operand(st, r['ops'][0]))
            cn = r['cn']
            i = r['i']
            if cn in ('Iterator::fold', 'Iterator::try_fold'):
                if i == 0:
                    return mk('acc', r['site'])
                return mk('elem', src, r['site'])
            if cn.startswith('Iterator::') or cn.startswith('slice::') or cn.startswith('Vec::') or cn.startswith('ParallelIterator::'):
                if i == 0:
                    return mk('elem', src, r['site'])
            return mk('hofarg', cn, i, r['site'], src)
        return mk('other', r.get('s', '?'))

    def is_mut_ty(self, ty):
        return ty.startswith('&mut ') or ('&' in ty and ' mut ' in ty[:25] and ty.startswith('&'))

    def havoc_refs(self, st, v, tag, depth=0):
        """everything reachable through a mutable reference in v may change"""
        if not isinstance(v, T) or depth > 6:
            return
        if v.op == 'refm':
            old = self.read_whole(st, v.a[0], v.a[1])
            self.write(st, v.a[0], v.a[1], mk('upd', tag, self.resolve(st, old)))
            self.havoc_refs(st, old, tag, depth + 1)
            return
        if v.op in ('agg',):
            for x in v.a:
                if isinstance(x, T):
                    self.havoc_refs(st, x, tag, depth + 1)
        elif v.op == 'call':
            for x in v.a[1:]:
                if isinstance(x, T) and x.op in ('refm', 'agg', 'call'):
                    self.havoc_refs(st, x, tag, depth + 1)

    def call(self, st, t, site, ev):
        cn = t.get('cn') or 'indirect'
        args = [self.operand(st, a) for a in t['args']]
        at = t.get('at') or ['?'] * len(args)
        at = [self.argty(t, i) for i in range(len(args))]
        rargs = [self.resolve(st, a) if a.op in ('ref', 'refm') or not at[i].startswith('&') or not any(k[0] is a for k in st)
                 else self.resolve(st, self.read_whole(st, a, ())) for i, a in enumerate(args)]
        root, path = self.loc(st, t['d'])
        res = None
        tag = f'{cn}@{site}'
        mutarg = any(self.is_mut_ty(x) for x in at)
        ga = t['f'].get('ga', []) if isinstance(t.get('f'), dict) else []
        if cn in CMP:
            ty = ga[0].lstrip('&').strip() if ga else '?'
            res = cmp_term(CMP[cn], rargs[0], rargs[1], ty)
        elif cn in ARITH and len(rargs) == 2:
            res = arith(ARITH[cn], rargs[0], rargs[1])
        elif cn in ARITH and len(rargs) == 1:
            res = neg(rargs[0]) if ARITH[cn] == 'Not' else mk(ARITH[cn], rargs[0])
        elif cn in ARITH_ASSIGN:
            a = args[0]
            if a.op in ('refm', 'ref'):
                r0, p0 = a.a[0], a.a[1]
            else:
                r0, p0 = a, ()
            old = self.read_whole(st, r0, p0)
            nv = arith(ARITH_ASSIGN[cn], old, rargs[1])
            self.write(st, r0, p0, nv)
            ev.append(Ev('write', site, t.get('s'), root=r0, path=p0, value=nv, raw=None, cn=cn))
            res = const('()')
            self.write(st, root, path, res)
            return
        elif cn in ('mem::replace', 'mem::take', 'Option::take', 'Option::replace', 'Option::insert') and args:
            a = args[0]
            r0, p0 = (a.a[0], a.a[1]) if a.op in ('ref', 'refm') else (a, ())
            old = self.read_whole(st, r0, p0)
            if cn in ('mem::replace',):
                nv = args[1]
            elif cn in ('Option::replace', 'Option::insert'):
                nv = mk('agg', 'std::option::Option::Some', ('0',), args[1])
            elif cn == 'Option::take' or at[0].replace('&', '').replace('mut ', '').strip().startswith(('std::option::Option', 'core::option::Option')):
                nv = mk('agg', 'std::option::Option::None', ())
            else:
                nv = mk('call', 'Default::default', site)
            self.write(st, r0, p0, nv)
            ev.append(Ev('write', site, t.get('s'), root=r0, path=p0, value=nv, raw=None, cn=cn))
            res = self.resolve(st, old)
        elif cn == 'mem::swap':
            a, b = args
            ra, pa = (a.a[0], a.a[1]) if a.op in ('ref', 'refm') else (a, ())
            rb, pb = (b.a[0], b.a[1]) if b.op in ('ref', 'refm') else (b, ())
            va, vb = self.read_whole(st, ra, pa), self.read_whole(st, rb, pb)
            self.write(st, ra, pa, vb)
            self.write(st, rb, pb, va)
            ev.append(Ev('write', site, t.get('s'), root=ra, path=pa, value=vb, raw=None, cn=cn))
            ev.append(Ev('write', site, t.get('s'), root=rb, path=pb, value=va, raw=None, cn=cn))
            res = const('()')
        elif cn in MUT_IDENTITY:
            res = args[0]
            self.write(st, root, path, res)
            return
        elif cn in ('IndexMut::index_mut', 'Index::index') and len(args) == 2 and 'Range' not in (at[1] if len(at) > 1 else ''):
            a = args[0]
            r0, p0 = (a.a[0], a.a[1]) if a.op in ('ref', 'refm') else (a, ())
            res = mk('refm' if cn.startswith('IndexMut') else 'ref', r0, p0 + (('i', rargs[1]),))
            ev.append(Ev('call', site, t.get('s'), cn=cn, args=rargs, raw=args, res=res, t=t, at=at))
            self.write(st, root, path, res)
            return
        elif cn in self.identity and rargs and not (at and self.is_mut_ty(at[0])):
            # shared-reference transparent
            res = args[0] if cn in ('Deref::deref',) else rargs[0]
        elif cn == 'Iterator::next' or cn == 'DoubleEndedIterator::next_back':
            res = mk('next', rargs[0], site)
            ev.append(Ev('call', site, t.get('s'), cn=cn, args=rargs, raw=args, res=res, t=t, at=at))
            self.write(st, root, path, res)
            return
        elif cn in ('Vec::len', 'slice::len', 'ExactSizeIterator::len', 'Vec::is_empty', 'slice::is_empty'):
            if cn.endswith('is_empty'):
                res = mk('eq', *sorted([mk('call', 'len', rargs[0]), const(0)], key=lambda x: x.id), 'i')
            else:
                res = mk('call', 'len', rargs[0])
        impure = mutarg or self.impure(cn, t) or cn == 'Box::new_uninit'
        if res is None and cn.split('::')[-1] == 'box_assume_init_into_vec_unsafe' and rargs and is_newbox(rargs[0]):
            # vec![..]: the array written through the box
            vs = [v for (r0, p0), v in st.items() if isinstance(r0, T) and r0.op == 'cast' and is_newbox(under(r0), rargs[0])]
            if len(vs) == 1:
                res = self.resolve(st, vs[0])
        if res is None:
            if impure:
                res = mk('call', cn, *rargs, site)
            elif not rargs and ga and str(t['f'].get('trait', '')).startswith(('dynamic_expressions', 'symbolic_regression')):
                # which implementation answers depends on the types
                res = mk('call', cn, const(','.join(ga), 'types'))
            else:
                res = mk('call', cn, *rargs)
        fnt = rargs
        ev.append(Ev('call', site, t.get('s'), cn=cn, args=rargs, raw=args, res=res, t=t, at=at))
        # clobber what the callee may mutate
        if cn not in ('Vec::len', 'slice::len', 'ExactSizeIterator::len', 'Vec::is_empty', 'slice::is_empty', 'mem::replace', 'mem::take', 'mem::swap', 'Option::take', 'Option::replace', 'Option::insert'):
            for i, a in enumerate(args):
                if self.is_mut_ty(at[i]):
                    r0, p0 = (a.a[0], a.a[1]) if a.op in ('ref', 'refm') else (a, ())
                    old = self.read_whole(st, r0, p0)
                    extra = tuple(x for j, x in enumerate(rargs) if j != i)
                    self.write(st, r0, p0, mk('upd', cn, site, i, self.resolve(st, old), *extra))
                    self.havoc_refs(st, old, tag)
                else:
                    self.havoc_refs(st, a, tag)
        self.write(st, root, path, res)

    def argty(self, t, i):
        at = t.get('at')
        ty = at[i] if at and i < len(at) else '?'
        if ty == '?':
            a = t['args'][i]
            if isinstance(a.get('p'), list) and not a['p'][1]:
                ty = self.f.locals[a['p'][0]].get('ty', '?')
        return ty

    def impure(self, cn, t):
        n = t['f'].get('n', '') if isinstance(t.get('f'), dict) else ''
        if cn in ('indirect', 'fnptr'):
            return True
        for x in ('fastrand', 'Instant', 'Mutex', 'Receiver', 'Sender', 'Atomic', 'RefCell', 'Cell::', 'SystemTime', 'thread'):
            if x in n:
                return True
        return False

    def transfer(self, i, st, ev):
        b = self.f.blocks[self.n[i].b]
        for s in b['st']:
            if s['k'] == '=':
                v = self.rvalue(st, s['r'], self.n[i].b)
                root, path = self.loc(st, s['p'])
                if s['r']['k'] == 'agg' and False:
                    pass
                self.write(st, root, path, v)
                if ev is not None and (s['p'][1] or 'r' in s):
                    if isinstance(root, T) or path or self.is_named(root):
                        ev.append(Ev('write', self.n[i].b, s.get('s'), root=root, path=path, value=v, raw=s, cn=''))
            elif s['k'] == 'dead':
                l = s['l']
                for k in [k for k in st if k[0] == l and not isinstance(k[0], T)]:
                    del st[k]
            elif s['k'] == 'setd':
                root, path = self.loc(st, s['p'])
                self.write(st, root, path, mk('upd', 'setd', self.n[i].b, s['v']))
        t = b['t']
        if t['k'] == 'call':
            self.call(st, t, self.n[i].b, ev if ev is not None else [])
        elif t['k'] == 'drop' and ev is not None:
            root, path = self.loc(st, t['p'])
            ev.append(Ev('drop', self.n[i].b, t.get('s'), root=root, path=path, value=self.read_whole(st, root, path), raw=t, cn=t.get('ty')))

    def is_named(self, root):
        return not isinstance(root, T) and bool(self.f.locals[root].get('n'))

    def init_state(self):
        st = {}
        fn = self.f.root
        for i in range(1, self.f.argc + 1):
            st[(i, ())] = mk('arg', i, self.f.locals[i].get('n', ''))
        if fn['kind'] == 'Closure':
            st[(1, ())] = mk('arg', 1, 'env')
        return st

    def solve(self):
        self.n[0].inst = self.init_state()
        rpo = self.rpo
        out = {}
        self.entry_extra = self.init_state()
        for it in range(60):
            changed = False
            for i in rpo:
                st = self.join(i, out)
                if st is None:
                    continue
                nd = self.n[i]
                if nd.inst is not None and it > 0 and nd.inst == st and i in out:
                    continue
                nd.inst = st
                o = dict(st)
                self.transfer(i, o, None)
                if out.get(i) != o:
                    out[i] = o
                    changed = True
            if not changed:
                break
        else:
            raise RuntimeError('value numbering did not converge: ' + self.f.root['n'])
        self.iters = it
        for i in rpo:
            nd = self.n[i]
            if nd.inst is None:
                continue
            o = dict(nd.inst)
            ev = []
            self.transfer(i, o, ev)
            nd.events = ev
            nd.outst = o
            t = self.f.blocks[nd.b]['t']
            if t['k'] in ('switch', 'assert'):
                nd.sw = self.resolve(o, self.operand(o, t['o']))
        for i in rpo:
            if self.n[i].events is None:
                self.n[i].events = []

    def join(self, i, out):
        nd = self.n[i]
        preds = [p for p in nd.pred if p in out]
        if i == 0:
            sts = [(-1, self.entry_extra)] + [(p, out[p]) for p in preds]
        else:
            sts = [(p, out[p]) for p in preds]
        if not sts:
            return None
        body = self.bodies.get(nd.b)
        if len(sts) == 1 and len(nd.pred) == 1 and not body:
            return dict(sts[0][1])
        if body:
            sts = [(p, self.fold_stale(s, body)) for p, s in sts]
        keys = {}
        for _, s in sts:
            for k in s:
                keys[k] = 1
        if body:
            # locations named by a value of the finished iteration denote another object in the next one
            keys = {k: 1 for k in keys if not (isinstance(k[0], T) and self.stale(k[0], body))
                    and not any(isinstance(x, T) and self.stale(x, body) for e in k[1] for x in e)}
        res = {}
        first = sts[0][1]
        for k in keys:
            root, path = k
            pt = self.phi_tab.get((i, k))
            vals = []
            ok = True
            for p, s in sts:
                v = s.get(k)
                if v is None:
                    if not isinstance(root, T):
                        # local not (wholly) defined on this path
                        if not any(kk[0] == root for kk in s):
                            ok = False
                            break
                    v = self.read(s, root, path) if not self.has_ext(s, root, path) else self._base(s, root, path)
                vals.append((p, v))
            if not ok:
                continue
            if pt is None:
                v0 = vals[0][1]
                if all(v is v0 for _, v in vals) and not (body and any(self.n[p].b in body and self.stale(v, body) for p, v in vals if p >= 0)):
                    if isinstance(root, T) and v0 is self.proj(root, path) and not any(
                            (s.get((root, path[:n])) is not None) for _, s in sts for n in range(len(path))):
                        if not all(k in s for _, s in sts):
                            continue
                    res[k] = v0
                    continue
                pid = len(self.phi_tab)
                pt = mk('phi', f'{pid}')
                pt = mk('phi', pid, id(self) % 1000003)
                self.phi_tab[(i, k)] = pt
                self.phi_key[pt] = (i, k)
            self.phi_ops[pt] = vals
            res[k] = pt
        return res

    def fold_stale(self, s, body):
        """elements written at an index of the finished iteration become part of the container's value"""
        todo = []
        for k in s:
            if isinstance(k[0], T) and self.stale(k[0], body):
                continue
            for m, e in enumerate(k[1]):
                if e[0] == 'i' and isinstance(e[1], T) and self.stale(e[1], body):
                    todo.append((k[0], k[1][:m]))
                    break
        if not todo:
            return s
        s = dict(s)
        for root, cont in sorted(set(todo), key=lambda c: -len(c[1])):
            cur = self.read_whole(s, root, cont)
            n = len(cont)
            for kk in [kk for kk in s if kk[0] == root and len(kk[1]) > n and kk[1][:n] == cont]:
                del s[kk]
            s[(root, cont)] = cur
        return s

    def has_ext(self, s, root, path):
        n = len(path)
        return any(k[0] == root and len(k[1]) > n and k[1][:n] == path for k in s)

    # ---------- facts ----------
    def edge_facts(self, i, label):
        nd = self.n[i]
        t = self.f.blocks[nd.b]['t']
        if t['k'] == 'assert':
            return fact(nd.sw, t['e'])
        if t['k'] != 'switch' or nd.sw is None:
            return ()
        c = nd.sw
        ty = t.get('ty')
        tv = [v for v, _ in t['ts']]
        if ty == 'bool':
            val = bool(label) if label != 'else' else not bool(tv[0]) if len(tv) == 1 else None
            if val is None:
                return ()
            return fact(c, val)
        if c.op == 'discr':
            vm = self.p.variants(c.a[1]) or {}
            if label == 'else':
                rest = sorted({n for d, n in vm.items() if d not in tv})
                if len(rest) == 1:
                    return self.is_fact(c.a[0], rest[0])
                out = ()
                for d in sorted(set(tv)):
                    r = ord_is(c.a[0], vm.get(d, str(d)))
                    out += (neg(r),) if r is not None else (mk('isnt', c.a[0], vm.get(d, str(d))),)
                return out
            return self.is_fact(c.a[0], vm.get(label, str(label)))
        if label == 'else':
            return tuple(neg(cmp_term('eq', c, const(v), 'usize')) for v in tv)
        return (cmp_term('eq', c, const(label), 'usize'),)

    def is_fact(self, t, variant):
        r = ord_is(t, variant)
        if r is not None:
            return (r,)
        if variant == 'None' and t.op == 'call' and t.a[0].split('::')[-1] == 'partial_cmp' and len(t.a) > 2:
            # incomparable: neither is below the other
            return (mk('is', t, variant), neg(cmp_term('lt', t.a[1], t.a[2], 'f64')), neg(cmp_term('lt', t.a[2], t.a[1], 'f64')))
        return (mk('is', t, variant),)

    def prune(self):
        """drop switch edges whose scrutinee value numbering proved constant"""
        cut = False
        for i in self.rpo:
            nd = self.n[i]
            t = self.f.blocks[nd.b]['t']
            if t['k'] != 'switch' or nd.sw is None:
                continue
            v = nd.sw
            if v.op == 'discr' and v.a[0].op == 'agg':
                vm = self.p.variants(v.a[1]) or {}
                dv = [d for d, n in vm.items() if n == v.a[0].a[0].split('::')[-1]]
                vals = dv
            elif v.op == 'const' and isinstance(v.a[0], int):
                vals = [v.a[0]]
            else:
                continue
            if not vals:
                continue
            hit = [(s, l) for s, l in nd.succ if l in vals]
            keep = hit or [(s, l) for s, l in nd.succ if l == 'else']
            if keep and len(keep) < len(nd.succ):
                for s, l in nd.succ:
                    if (s, l) not in keep and not any(s == s2 for s2, _ in keep):
                        if i in self.n[s].pred:
                            self.n[s].pred.remove(i)
                nd.succ = keep
                cut = True
        if cut:
            self.rpo = self._rpo()
            live = set(self.rpo)
            for i in self.rpo:
                self.n[i].pred = [p for p in self.n[i].pred if p in live]
            self.rpo_ix = {x: i for i, x in enumerate(self.rpo)}
        return cut

    def thread(self):
        """jump threading: split a switch on a phi per predecessor of the phi, so each copy sees one value"""
        if len(self.n) > 6000:
            return False
        done = False
        for x in list(self.rpo):
            nd = self.n[x]
            t = self.f.blocks[nd.b]['t']
            if t['k'] != 'switch' or nd.sw is None:
                continue
            v = nd.sw
            want_enum = False
            while v.op in ('not', 'discr'):
                if v.op == 'discr':
                    want_enum = True
                v = v.a[0]
            if v.op != 'phi' or v not in self.phi_key:
                continue
            i = self.phi_key[v][0]
            ops = self.phi_ops.get(v, [])
            if want_enum:
                useful = any(o.op == 'agg' for _, o in ops)
            else:
                useful = any(o.op == 'const' for _, o in ops) or any(o.op in ('lt', 'le', 'eq', 'ne', 'not') for _, o in ops)
            if not useful or i == 0:
                continue
            chain = [i]
            while chain[-1] != x and len(chain) < 8:
                sc = [s for s, _ in self.n[chain[-1]].succ]
                if len(sc) != 1 or len(self.n[sc[0]].pred) != 1:
                    break
                chain.append(sc[0])
            if chain[-1] != x or x in chain[:-1]:
                continue
            preds = list(dict.fromkeys(self.n[i].pred))
            if len(preds) < 2 or len(preds) > 12 or i in preds:
                continue
            for p in preds[1:]:
                mp = {}
                for q in chain:
                    o = self.n[q]
                    nn = Node()
                    nn.b, nn.val, nn.ctx = o.b, o.val, o.ctx
                    nn.succ, nn.pred = [], []
                    nn.inst = nn.outst = nn.facts = nn.events = nn.sw = None
                    mp[q] = len(self.n)
                    self.n.append(nn)
                for q in chain:
                    nn = self.n[mp[q]]
                    nn.succ = [(mp.get(s, s) if s != i else s, l) for s, l in self.n[q].succ]
                    for s, _ in nn.succ:
                        self.n[s].pred.append(mp[q])
                self.n[p].succ = [(mp[i] if s == i else s, l) for s, l in self.n[p].succ]
                while p in self.n[i].pred:
                    self.n[i].pred.remove(p)
                    self.n[mp[i]].pred.append(p)
            done = True
        if done:
            self.rpo = self._rpo()
            live = set(self.rpo)
            for i in self.rpo:
                self.n[i].pred = [p for p in self.n[i].pred if p in live]
            self.rpo_ix = {x: i for i, x in enumerate(self.rpo)}
        return done

    def solve_facts(self):
        TOP = None
        facts = {i: TOP for i in self.rpo}
        facts[0] = frozenset()
        ef = {}
        for i in self.rpo:
            for s, l in self.n[i].succ:
                ef.setdefault((i, s), []).append((l, frozenset(self.edge_facts(i, l))))
        for rnd in range(3):
            facts = self.fact_fix(ef)
            more = False
            for k, fl in ef.items():
                nl = []
                for lab, fs in fl:
                    ns = fs
                    for f in fs:
                        ns = ns | self.phi_fact(f, facts)
                    if ns != fs:
                        more = True
                    nl.append((lab, ns))
                ef[k] = nl
            if not more:
                break
        facts = self.fact_fix(ef)
        for i in self.rpo:
            self.n[i].facts = facts[i] if facts[i] is not None else frozenset()
        self.ef = ef

    def phi_fact(self, f, facts, depth=0):
        """facts implied by a phi having a given truth value / variant"""
        want = True
        t = f
        var = None
        if f.op == 'not':
            t, want = f.a[0], False
        elif f.op == 'is':
            t, var = f.a[0], f.a[1]
        if t.op != 'phi' or t not in self.phi_ops or depth > 3:
            return frozenset()
        acc = None
        for p, v in self.phi_ops[t]:
            if p == -1:
                base = frozenset()
            else:
                base = facts.get(p)
                if base is None:
                    continue
            if var is None:
                if v.op == 'const' and isinstance(v.a[0], int):
                    if bool(v.a[0]) != want:
                        continue
                    fs = ()
                else:
                    fs = fact(v, want)
            else:
                if v.op == 'agg' and '::' in v.a[0]:
                    if v.a[0].split('::')[-1] != var:
                        continue
                    fs = ()
                else:
                    fs = self.is_fact(v, var)
            fs = frozenset(fs)
            for x in list(fs):
                fs = fs | self.phi_fact(x, facts, depth + 1)
            cur = base | fs
            acc = cur if acc is None else (acc & cur)
        return acc if acc is not None else frozenset()

    def fact_fix(self, ef):
        facts = {i: None for i in self.rpo}
        facts[0] = frozenset()
        TOP = None
        changed = True
        while changed:
            changed = False
            for i in self.rpo:
                if i == 0:
                    continue
                acc = TOP
                body = self.bodies.get(self.n[i].b)
                for p in set(self.n[i].pred):
                    fp = facts.get(p)
                    if fp is None:
                        continue
                    if body and self.n[p].b in body:
                        fp = frozenset(f for f in fp if not self.stale(f, body))
                    for _, e in ef.get((p, i), [(None, frozenset())]):
                        f = fp | e
                        acc = f if acc is None else (acc & f)
                if acc is None:
                    continue
                if facts[i] is None or facts[i] != acc:
                    facts[i] = acc
                    changed = True
        return facts

    # ---------- queries ----------
    def events(self, pred=None):
        for i in self.rpo:
            for e in self.n[i].events:
                if pred is None or pred(e):
                    yield i, e

    def calls(self, *names):
        return [(i, e) for i, e in self.events() if e.k == 'call' and (not names or e.cn in names)]

    def phi_closure(self, t, limit=400):
        """terms reachable from t through phi operands (flattened alternatives)"""
        seen = set()
        st = [t]
        out = []
        while st and len(seen) < limit:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                for _, v in self.phi_ops.get(x, []):
                    st.append(v)
            else:
                out.append(x)
        return out

    def returns(self):
        out = []
        for i in self.rpo:
            nd = self.n[i]
            if self.f.blocks[nd.b]['t']['k'] == 'return' and nd.outst is not None:
                out.append((i, self.resolve(nd.outst, self.read_whole(nd.outst, 0, ()))))
        return out

    def edge_fset(self, x, s, l):
        for lab, fs in self.ef.get((x, s), ()):
            if lab == l:
                return fs
        return frozenset()

    def guard_path(self, goals, pred, avoid_nodes=(), start=0):
        """None if every path start -> goal takes an edge with a fact satisfying pred (or an avoided node);
        otherwise an offending path"""
        return self.path_avoiding(goals, avoid_nodes,
                                  lambda x, s, l: any(pred(f) for f in self.edge_fset(x, s, l)), start)

    def path_avoiding(self, goals, avoid_nodes=(), avoid_edge=None, start=0):
        """a path start -> some goal that enters no avoided node (other than via start) and takes no
        avoided edge; None when every path is cut (must-pass-through holds)"""
        goals = set(goals)
        avoid = set(avoid_nodes)
        if start in avoid:
            return None
        prev = {start: None}
        q = deque([start])
        while q:
            x = q.popleft()
            if x in goals:
                out = []
                while x is not None:
                    out.append(x)
                    x = prev[x]
                return out[::-1]
            for s, l in self.n[x].succ:
                if s in prev or s in avoid:
                    continue
                if avoid_edge and avoid_edge(x, s, l):
                    continue
                prev[s] = x
                q.append(s)
        return None

    def reachable_from(self, i, avoid_nodes=()):
        seen = set()
        st = [s for s, _ in self.n[i].succ]
        while st:
            x = st.pop()
            if x in seen or x in avoid_nodes:
                continue
            seen.add(x)
            st += [s for s, _ in self.n[x].succ]
        return seen

    def reach_set(self, i):
        if not hasattr(self, '_reach'):
            self._reach = {}
        if i not in self._reach:
            self._reach[i] = self.reachable_from(i)
        return self._reach[i]

    def all_heads(self, b):
        """exploded copies of a loop header block"""
        return {i for i in self.rpo if self.n[i].b == b}

    def back_edges(self):
        return [(x, s) for x in self.rpo for s, _ in self.n[x].succ
                if self.n[x].b in self.bodies.get(self.n[s].b, ())]

    def ret_nodes(self):
        return [i for i in self.rpo if self.f.blocks[self.n[i].b]['t']['k'] == 'return']

    def where(self, i):
        b = self.f.blocks[self.n[i].b]
        s = b.get('s') or (b['t'] or {}).get('s')
        return f'{s[0]}:{s[1]}' if s else '?'


class Ev:
    __slots__ = ('k', 'b', 's', 'd')

    def __init__(self, k, b, s, **d):
        self.k = k
        self.b = b
        self.s = s
        self.d = d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            return None

    def at_(self):
        return f'{self.s[0]}:{self.s[1]}' if self.s else '?'

    def __repr__(self):
        if self.k == 'call':
            return f'{self.cn}({", ".join(show(a) for a in self.args)}) -> {show(self.res)}'
        if self.k == 'write':
            r = self.root
            return f'write {show(r) if isinstance(r, T) else "_" + str(r)}{path_str(self.path)} = {show(self.value)}'
        return f'{self.k} {self.d}'


def fact(c, val):
    if c is None:
        return ()
    if c.op == 'const':
        return ()
    if c.op == 'BitAnd' and val:
        return fact(c.a[0], True) + fact(c.a[1], True)
    if c.op == 'BitOr' and not val:
        return fact(c.a[0], False) + fact(c.a[1], False)
    return (c if val else neg(c),)
