"""Check runner: builds the MIR dump of /repo's working tree, gives rules a program model with cached
flows, collects obligations, writes evidence, and reports violations."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time, traceback
from .mir import Program, Missing, strip_generics, short, last
from .inline import Inliner, cname, succs
from .flow import Flow, show, mk, const, fact, neg
from .term import T, walk

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.environ.get('SA_BUILD', os.path.join(VERIF, 'build'))
CRATES = ('dynamic_expressions', 'symbolic_regression', 'symbolic_regression_wasm')


class EngineError(Exception):
    """the analysis could not run (not a verdict)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def src_files(repo):
    out = []
    for base, ds, fs in os.walk(repo):
        ds[:] = sorted(d for d in ds if d not in ('target', '.git', 'node_modules', 'dist', 'evidence'))
        for f in sorted(fs):
            if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock', 'rust-toolchain.toml'):
                out.append(os.path.join(base, f))
    return out


def tree_hash(repo, extra=()):
    h = hashlib.sha256()
    for p in src_files(repo):
        h.update(os.path.relpath(p, repo).encode())
        h.update(open(p, 'rb').read())
    for p in extra:
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def build_driver(log):
    d = os.path.join(VERIF, 'driver')
    env = dict(os.environ)
    env.pop('RUSTUP_TOOLCHAIN', None)
    r = sh(['cargo', '+nightly', 'build', '--offline', '--manifest-path', os.path.join(d, 'Cargo.toml'),
            '--target-dir', os.path.join(BUILD, 'driver')], env=env, cwd=d)
    exe = os.path.join(BUILD, 'driver', 'debug', 'srdump')
    if r.returncode or not os.path.exists(exe):
        raise EngineError('driver build failed:\n' + r.stdout[-3000:])
    return exe


def sysroot():
    r = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if r.returncode:
        raise EngineError('no nightly toolchain: ' + r.stdout)
    return r.stdout.strip()


def dump(repo, features='--all-features', verbose=False):
    """directory with one JSON file per workspace crate, for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe = build_driver(None)
        key = tree_hash(repo, [os.path.join(VERIF, 'driver', 'src', f) for f in sorted(os.listdir(os.path.join(VERIF, 'driver', 'src')))])
        key += '-' + features.strip('-')
        out = os.path.join(BUILD, 'dump', key)
        if os.path.exists(os.path.join(out, 'OK')):
            os.utime(os.path.join(out, 'OK'))
            return out, key
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = os.path.join(BUILD, 'target')
        for c in CRATES:
            for sub in ('build', '.fingerprint', 'incremental'):
                b = os.path.join(tgt, 'debug', sub)
                if not os.path.isdir(b):
                    continue
                for e in os.listdir(b):
                    if e == c or e.startswith(c + '-') or e.startswith(c.replace('_', '-') + '-'):
                        shutil.rmtree(os.path.join(b, e), ignore_errors=True)
        env = dict(os.environ)
        for k in ('RUSTUP_TOOLCHAIN', 'RUSTC', 'RUSTFLAGS', 'RUSTC_WRAPPER'):
            env.pop(k, None)
        env.update(SRDUMP_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_INCREMENTAL='0', CARGO_TARGET_DIR=tgt,
                   LD_LIBRARY_PATH=sysroot() + '/lib')
        args = ['cargo', '+nightly', 'check', '--workspace', '--offline'] + (['--all-features'] if features == '--all-features' else [])
        r = sh(args, cwd=repo, env=env)
        if r.returncode:
            raise EngineError('cargo check of the tree failed:\n' + r.stdout[-6000:])
        have = sorted(f[:-5] for f in os.listdir(tmp) if f.endswith('.json'))
        if have != sorted(CRATES):
            raise EngineError(f'driver produced {have}, expected {sorted(CRATES)}:\n' + r.stdout[-2000:])
        open(os.path.join(tmp, 'OK'), 'w').write('ok')
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # keep only the newest few dumps
        dd = os.path.join(BUILD, 'dump')
        ds = sorted((os.path.getmtime(os.path.join(dd, e)), e) for e in os.listdir(dd))
        for _, e in ds[:-4]:
            shutil.rmtree(os.path.join(dd, e), ignore_errors=True)
        return out, key
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


class Ctx:
    def __init__(self, dump_dir, repo=REPO):
        self.p = Program(dump_dir)
        self.repo = repo
        self._flows = {}
        self._callers = None
        self._fields = None
        self.analysed = set()

    # ---- lookup ----
    def fn(self, suffix):
        return self.p.fn(suffix)

    def flow(self, fn, opaque=(), key=None, **kw):
        """inlined flow of fn; `opaque` names (suffixes) or ids stay calls"""
        if isinstance(fn, str):
            fn = self.fn(fn)
        k = (fn['id'], tuple(sorted(opaque)) if not callable(opaque) else key)
        if k in self._flows:
            return self._flows[k]
        if callable(opaque):
            pred = opaque
        else:
            names = tuple(opaque)

            def pred(f):
                n = strip_generics(f['n'])
                return any(n == o or n.endswith('::' + o) or f['id'] == o for o in names)
        inl = Inliner(self.p, opaque=pred)
        fl = inl.run(fn)
        F = Flow(self.p, fl, **kw)
        F.root = fn
        self._flows[k] = F
        self.analysed.add(fn['id'])
        self.analysed |= fl.inlined
        return F

    # ---- whole-program maps ----
    def owner(self, fid):
        """the enclosing non-closure function"""
        f = self.p.fns.get(fid)
        while f is not None and f['kind'] == 'Closure':
            f = self.p.fns.get(f.get('parent'))
        return f['id'] if f else fid

    def callees(self, f):
        """ids of local functions referenced (called or taken as values) by f, closures merged"""
        out = set()

        def op(o):
            if isinstance(o, dict) and o.get('k') == 'const':
                if 'rfn' in o or 'fn' in o:
                    out.add(o.get('rfn', o.get('fn')))
                    # unresolved trait method: every local impl
                    if o.get('fn') in self.p.impl_of_item and o.get('rfn', o['fn']) == o['fn']:
                        out.update(self.p.impl_of_item[o['fn']])
                if 'closure' in o:
                    out.add(o['closure'])
        for body in [f] + f.get('prom', []):
            for b in body['blocks']:
                for s in b['st']:
                    if s['k'] == '=':
                        r = s['r']
                        for k in ('o', 'a', 'b'):
                            op(r.get(k))
                        for o in r.get('ops', []):
                            op(o)
                        if r['k'] == 'agg' and r['a'] == 'closure':
                            out.add(r['closure'])
                t = b['t']
                if t['k'] == 'call':
                    op(t['f'])
                    for a in t['args']:
                        op(a)
        return out

    def callers(self):
        if self._callers is None:
            m = {}
            for f in self.p.fns.values():
                for c in self.callees(f):
                    if c in self.p.fns:
                        m.setdefault(self.owner(c), set()).add(self.owner(f['id']))
            for k in m:
                m[k].discard(k)
            self._callers = m
        return self._callers

    def only_via(self, fid, roots):
        """None if every chain of callers of fid passes through a root; else the escaping function id"""
        seen = set()
        st = [self.owner(fid)]
        while st:
            x = st.pop()
            if x in roots or x in seen:
                continue
            seen.add(x)
            f = self.p.fns[x]
            cs = self.callers().get(x, set())
            if f.get('vis') == 'Public' and self.exported(f) or not cs:
                return x
            st += list(cs)
        return None

    def exported(self, f):
        return True

    def reach(self, roots, skip=None):
        """ids of local functions reachable from roots (over-approximate)"""
        seen = set()
        st = list(roots)
        while st:
            x = st.pop()
            if x in seen or x not in self.p.fns or skip is not None and skip(self.p.fns[x]):
                continue
            seen.add(x)
            st += list(self.callees(self.p.fns[x]))
            # trait default / dyn methods
            if x in self.p.impl_of_item:
                st += self.p.impl_of_item[x]
        return seen

    def field_sites(self):
        """(adt, field) -> list of (fn, kind, stmt); kinds: assign, mutref, agg"""
        if self._fields is None:
            m = {}

            def base(o):
                return o.split('::{')[0]
            for f in self.p.fns.values():
                for b in f['blocks']:
                    if b.get('c'):
                        continue
                    for s in b['st']:
                        if s['k'] != '=':
                            continue
                        for n, e in enumerate(s['p'][1]):
                            if isinstance(e, list) and e[0] == 'f':
                                m.setdefault((e[1].split('::')[-1], e[2]), []).append((f, 'assign', s))
                        r = s['r']
                        if r['k'] in ('ref', 'reborrow', 'rawptr') and r.get('m'):
                            for e in r['p'][1]:
                                if isinstance(e, list) and e[0] == 'f':
                                    m.setdefault((e[1].split('::')[-1], e[2]), []).append((f, 'mutref', s))
                        if r['k'] == 'agg' and r['a'] == 'adt':
                            for n in r['fs'] or []:
                                m.setdefault((r['v'] if r.get('enum') else r['adt'].split('::')[-1], n), []).append((f, 'agg', s))
                    t = b['t']
                    if t['k'] == 'call':
                        for e in t['d'][1]:
                            if isinstance(e, list) and e[0] == 'f':
                                m.setdefault((e[1].split('::')[-1], e[2]), []).append((f, 'assign', t))
            self._fields = m
        return self._fields

    def writers(self, adt, field, kinds=('assign', 'mutref')):
        out = {}
        for f, k, s in self.field_sites().get((adt.split('::')[-1], field), []):
            if k in kinds:
                out.setdefault(self.owner(f['id']), []).append((k, s.get('s')))
        return out

    def constructors(self, adt):
        out = set()
        for (a, _), l in self.field_sites().items():
            if a == adt.split('::')[-1]:
                for f, k, s in l:
                    if k == 'agg':
                        out.add(self.owner(f['id']))
        return out

    def calls_of(self, pred):
        """(fn, terminator) of raw MIR calls whose callee satisfies pred(f-operand)"""
        for f in self.p.fns.values():
            for b in f['blocks']:
                t = b['t']
                if not b.get('c') and t['k'] == 'call' and t['f'].get('k') == 'const' and 'n' in t['f'] and pred(t['f']):
                    yield f, t


class Check:
    def __init__(self, ctx, pid):
        self.ctx = ctx
        self.p = ctx.p
        self.pid = pid
        self.obs = []
        self.notes = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')

    def ob(self, key, ok, where='', msg=''):
        """one obligation; key must not contain line numbers"""
        self.obs.append((key, bool(ok), where, msg))
        return ok

    def fail(self, key, where, msg):
        return self.ob(key, False, where, msg)

    def need(self, cond, msg):
        if not cond:
            raise Missing(msg)

    def floor(self, what, n, m):
        """instance-count floor confirmed by hand"""
        self.ob(f'floor:{what}', n >= m, '', f'{n} instances of {what} analysed, at least {m} expected')

    def note(self, s):
        self.notes.append(s)


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                d = l[6:].strip()
                m = dict(x.split('=', 1) for x in d.split(' ', 2)[:2])
                if m.get('property') == pid:
                    out[m['key']] = d.split(' ', 2)[2] if d.count(' ') >= 2 else ''
    return out


def run(pid, rulefn, explanation, assumptions, tier='quick'):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        d, key = dump(REPO)
        ctx = Ctx(d)
    except EngineError as e:
        print(f'check error: {e}')
        return 2
    chk = Check(ctx, pid)
    chk.tier = tier
    try:
        rulefn(chk)
    except Missing as e:
        chk.fail('missing-anchor', '', str(e))
    except RuntimeError as e:
        chk.fail('analysis-limit', '', str(e))
    except Exception:
        chk.fail('analysis-error', '', traceback.format_exc()[-1500:])
    known = load_known(pid)
    bad = {}
    for k, ok, w, m in chk.obs:
        if not ok:
            bad.setdefault(k, (w, m))
    kn = {k: v for k, v in bad.items() if k in known}
    viol = {k: v for k, v in bad.items() if k not in known}
    for k, (w, m) in kn.items():
        print(f'KNOWN-FINDING: property={pid} key={k} {known[k]} ({w})')
    fns = sorted(ctx.analysed)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    n_ok = sum(1 for o in chk.obs if o[1])
    ev = dict(property=pid, tier=tier, seed=seed, level='other',
              coverage=dict(
                  explanation=explanation,
                  obligations=len(chk.obs), discharged=n_ok,
                  functions_analysed=len(fns),
                  program_functions=len(ctx.p.fns),
                  tree=key,
                  known_findings=sorted(kn),
                  rules=sorted({k.split(':')[0] for k, *_ in chk.obs}),
                  samples=[dict(key=k, ok=ok, where=w, detail=m) for k, ok, w, m in chk.obs[:400]],
                  functions=fns[:200],
                  notes=chk.notes[:50]),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if viol:
        rp = os.path.join(BUILD, 'violations')
        os.makedirs(rp, exist_ok=True)
        f = os.path.join(rp, pid + '.txt')
        with open(f, 'w') as o:
            for k, (w, m) in viol.items():
                o.write(f'{pid} {k}\n  at {w}\n  {m}\n')
        for k, (w, m) in list(viol.items())[:20]:
            print(f'  {k} at {w}: {m}')
        print(f'VIOLATION property={pid} replay={f}')
        return 1
    print(f'{pid}: {n_ok}/{len(chk.obs)} obligations discharged, {len(fns)} functions analysed, {ev["wall_s"]} s')
    return 0
