"""Normal forms for real-valued formulas: rational functions over elementary atoms, with the domain split by the
signs of the differences that comparisons, abs, min, max, clamp and signum look at. Two formulas are compared by
cross-multiplying their normal forms in every feasible region; derivatives come from the chain rule on atoms."""
from fractions import Fraction
from .term import T, show
from .fold import subst

ATOM = {}      # key -> id
KEY = []       # id -> key


class Unknown(Exception):
    pass


class Split(Exception):
    def __init__(self, p):
        self.p = p


def atom(*key):
    if key not in ATOM:
        ATOM[key] = len(KEY)
        KEY.append(key)
    return ATOM[key]


# ---- polynomials: dict monomial -> Fraction, monomial = sorted tuple of (atom, positive exponent) ----
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    r = dict(m)
    for a, e in n:
        r[a] = r.get(a, 0) + e
    return tuple(sorted(r.items()))


def pmul(a, b):
    r = {}
    if len(a) * len(b) > 20000:
        raise Unknown('formula too large')
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


class RF:
    __slots__ = ('n', 'd', '_k')

    def __init__(self, n, d=None):
        n, d = reduce_frac(n, ONE if d is None else d)
        self.n, self.d = n, d
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.n.items())), tuple(sorted(self.d.items())))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, RF) and self.key() == o.key()

    def __add__(self, o):
        if self.d == o.d:
            return RF(padd(self.n, o.n), self.d)
        return RF(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __neg__(self):
        return RF({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return RF(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        if not o.n:
            raise Unknown('division by zero')
        return RF(pmul(self.n, o.d), pmul(self.d, o.n))

    def ipow(self, k):
        if k < 0:
            return C(1) / self.ipow(-k)
        r = C(1)
        for _ in range(k):
            r = r * self
        return r

    def const(self):
        if not self.n:
            return Fraction(0)
        if set(self.n) == {()} and set(self.d) == {()}:
            return self.n[()] / self.d[()]
        return None

    def __repr__(self):
        n = pstr(self.n)
        return n if self.d == ONE else f'({n})/({pstr(self.d)})'


def pstr(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda x: -len(x[0])):
        fs = [(astr(a) + (f'^{e}' if e > 1 else '')) for a, e in m]
        if c == -1 and fs:
            s = '-' + '*'.join(fs)
        else:
            s = '*'.join(([str(c)] if c != 1 or not fs else []) + fs)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def astr(a):
    k = KEY[a]
    if k[0] == 'v':
        return k[1]
    return f'{k[0]}({", ".join(repr(x) for x in k[1:])})'


def C(x):
    x = Fraction(x)
    return RF({(): x} if x else {})


def V(name):
    return RF({((atom('v', name), 1),): Fraction(1)})


def A(fn, *args):
    return RF({((atom(fn, *args), 1),): Fraction(1)})


# ---- rewriting of monomials ----
def rewrite(m):
    """a monomial that is not in normal form: the rational function it stands for, else None"""
    ex, sq = [], []
    for a, e in m:
        k = KEY[a][0]
        if k == 'exp':
            ex.append((a, e))
        elif k == 'sqrt':
            sq.append((a, e))
        elif k == 'sin' and e >= 2:
            rest = mmul_div(m, a, 2)
            c = A('cos', KEY[a][1])
            return mono(rest) * (C(1) - c * c)
        elif k == 'cbrt' and e >= 3:
            return mono(mmul_div(m, a, 3)) * KEY[a][1]
    for a, e in sq:
        if e >= 2:
            return mono(mmul_div(m, a, 2)) * KEY[a][1]
    if len(sq) > 1:
        r = mono(tuple(x for x in m if x not in sq))
        u = C(1)
        for a, e in sq:
            u = u * KEY[a][1]
        return r * Sqrt(u)
    if len(ex) > 1 or any(e > 1 for _, e in ex):
        r = mono(tuple(x for x in m if x not in ex))
        u = C(0)
        for a, e in ex:
            u = u + KEY[a][1] * C(e)
        return r * Exp(u)
    return None


def mmul_div(m, a, k):
    return tuple((b, e - (k if b == a else 0)) for b, e in m if e - (k if b == a else 0) > 0)


def mono(m):
    r = RF.__new__(RF)
    r.n, r.d, r._k = {m: Fraction(1)}, ONE, None
    return r


def normal(p):
    """(numerator, denominator) of a polynomial with all monomials rewritten"""
    bad = None
    for m in p:
        if m and rewrite_needed(m):
            bad = m
            break
    if bad is None:
        return p, ONE
    good = {m: c for m, c in p.items() if not (m and rewrite_needed(m))}
    acc = None
    for m, c in p.items():
        if m and rewrite_needed(m):
            x = rewrite(m) * C(c)
            acc = x if acc is None else acc + x
    if good:
        g = RF.__new__(RF)
        g.n, g.d, g._k = good, ONE, None
        acc = acc + g
    return acc.n, acc.d


_rn = {}


def rewrite_needed(m):
    r = _rn.get(m)
    if r is None:
        ex = sq = 0
        r = False
        for a, e in m:
            k = KEY[a][0]
            if k == 'exp':
                ex += e
            elif k == 'sqrt':
                sq += e
            elif (k == 'sin' and e >= 2) or (k == 'cbrt' and e >= 3):
                r = True
        r = r or ex > 1 or sq > 1
        _rn[m] = r
    return r


def reduce_frac(n, d):
    n, nd = normal(n)
    d, dd = normal(d)
    if nd != ONE or dd != ONE:
        return reduce_frac(pmul(n, dd), pmul(d, nd))
    if not d:
        raise Unknown('division by zero')
    if not n:
        return {}, ONE
    # common monomial factor
    g = None
    for m in list(n) + list(d):
        mm = dict(m)
        g = mm if g is None else {a: min(e, mm[a]) for a, e in g.items() if a in mm}
        if not g:
            break
    if g:
        n = {divm(m, g): c for m, c in n.items()}
        d = {divm(m, g): c for m, c in d.items()}
    q = pdiv(n, d) if d != ONE and len(d) <= len(n) * 4 else None
    if q is not None and len(d) > 1:
        return q, ONE
    lead = d[max(d)]
    if lead != 1:
        n = {m: c / lead for m, c in n.items()}
        d = {m: c / lead for m, c in d.items()}
    return n, d


def divm(m, g):
    return tuple((a, e - g.get(a, 0)) for a, e in m if e - g.get(a, 0) > 0)


def order(m):
    return (sum(e for _, e in m), m)


def pdiv(n, d):
    """exact quotient in the free polynomial ring, or None"""
    q = {}
    ld = max(d, key=order)
    r = dict(n)
    steps = 0
    while r:
        steps += 1
        if steps > 60:
            return None
        lr = max(r, key=order)
        a, b = dict(lr), dict(ld)
        if any(a.get(k, 0) < e for k, e in b.items()):
            return None
        m = tuple(sorted((k, e - b.get(k, 0)) for k, e in a.items() if e - b.get(k, 0) > 0))
        c = r[lr] / d[ld]
        q[m] = q.get(m, 0) + c
        r = padd(r, pmul({m: c}, d), -1)
        if lr in r:
            return None
    return {m: c for m, c in q.items() if c}


# ---- elementary functions in normal form ----
def neg_lead(u):
    return u.n and u.n[max(u.n)] < 0


def Sin(u):
    if not u.n:
        return C(0)
    return -A('sin', -u) if neg_lead(u) else A('sin', u)


def Cos(u):
    if not u.n:
        return C(1)
    return A('cos', -u) if neg_lead(u) else A('cos', u)


def Exp(u):
    """exp; integer multiples of logarithms come out as powers"""
    if not u.n:
        return C(1)
    out = C(1)
    if u.d == ONE:
        rest = {}
        for m, c in u.n.items():
            if len(m) == 1 and m[0][1] == 1 and KEY[m[0][0]][0] == 'ln' and c.denominator == 1:
                out = out * KEY[m[0][0]][1].ipow(int(c))
            elif len(m) == 1 and m[0][1] == 1 and KEY[m[0][0]][0] == 'lnc' and c.denominator == 1:
                out = out * C(KEY[m[0][0]][1]).ipow(int(c))
            else:
                rest[m] = c
        if not rest:
            return out
        u = RF(rest)
    if neg_lead(u):
        return out / A('exp', -u)
    return out * A('exp', u)


def lnconst(x):
    r = C(0)
    for v, s in ((x.numerator, 1), (x.denominator, -1)):
        p = 2
        while v > 1 and p * p <= v and p < 10000:
            while v % p == 0:
                v //= p
                r = r + RF({((atom('lnc', p), 1),): Fraction(s)})
            p += 1
        if v > 1:
            r = r + RF({((atom('lnc', v), 1),): Fraction(s)})
    return r


def Ln(u):
    c = u.const()
    if c is not None:
        if c <= 0:
            raise Unknown('logarithm of a non-positive constant')
        return lnconst(c)
    if u.d != ONE:
        return Ln(RF(u.n)) - Ln(RF(u.d))
    n = u.n
    g = Fraction(0)
    out = C(0)
    # positive content and exponential factors
    common = None
    for m in n:
        mm = dict(m)
        common = mm if common is None else {a: min(e, mm[a]) for a, e in common.items() if a in mm}
    for a, e in (common or {}).items():
        if KEY[a][0] == 'exp':
            out = out + KEY[a][1] * C(e)
            n = {divm(m, {a: e}): c for m, c in n.items()}
    import math
    num = math.gcd(*[abs(c.numerator) for c in n.values()])
    den = math.lcm(*[c.denominator for c in n.values()])
    k = Fraction(num, den)
    if k != 1:
        out = out + lnconst(k)
        n = {m: c / k for m, c in n.items()}
    if n == ONE:
        return out
    return out + A('ln', RF(n))


def sqfree(c):
    """c = s*s*r"""
    n, d = c.numerator, c.denominator
    v = n * d          # sqrt(n/d) = sqrt(nd)/d
    s, p = 1, 2
    while p * p <= v and p < 10000:
        while v % (p * p) == 0:
            v //= p * p
            s *= p
        p += 1
    return Fraction(s, d), v


def Sqrt(u):
    c = u.const()
    if c is not None and c >= 0:
        s, r = sqfree(c)
        return C(s) if r == 1 else C(s) * A('sqrt', C(r))
    if u.d != ONE:
        return Sqrt(RF(u.n)) / Sqrt(RF(u.d))
    sq = common_monomial(u.n)
    sq = tuple((a, e // 2 * 2) for a, e in sq.items() if e > 1 and a in POSITIVE)
    if sq:
        h = RF({tuple((a, e // 2) for a, e in sq): Fraction(1)})
        return h * Sqrt(RF({divm(m, dict(sq)): c for m, c in u.n.items()}))
    import math
    num = math.gcd(*[abs(x.numerator) for x in u.n.values()])
    den = math.lcm(*[x.denominator for x in u.n.values()])
    k = Fraction(num, den)
    s, r = sqfree(k)
    return C(s) * A('sqrt', RF({m: x / k * r for m, x in u.n.items()}))


POSITIVE = set()      # atoms known to be positive


def common_monomial(p):
    g = None
    for m in p:
        mm = dict(m)
        g = mm if g is None else {a: min(e, mm[a]) for a, e in g.items() if a in mm}
    return g or {}


def Cbrt(u):
    if not u.n:
        return C(0)
    if u.d != ONE:
        return Cbrt(RF(u.n)) / Cbrt(RF(u.d))
    if neg_lead(u):
        return -A('cbrt', -u)
    return A('cbrt', u)


def Pow(x, y):
    c = y.const()
    if c is not None and c.denominator == 1 and abs(c) <= 12:
        return x.ipow(int(c))
    if c is not None and c.denominator == 2 and abs(c) <= 12:
        k = (c - Fraction(1, 2))
        return x.ipow(int(k)) * Sqrt(x)
    if x.const() == 0:
        raise Unknown('power of zero')
    return Exp(y * Ln(x))


def Sinh(u):
    e = Exp(u)
    return (e - C(1) / e) / C(2)


def Cosh(u):
    e = Exp(u)
    return (e + C(1) / e) / C(2)


PI = A('const', 'pi')


def Asin(u):
    if not u.n:
        return C(0)
    return -A('asin', -u) if neg_lead(u) else A('asin', u)


def Atan(u):
    if not u.n:
        return C(0)
    return -A('atan', -u) if neg_lead(u) else A('atan', u)


UN = {
    'sin': Sin, 'cos': Cos, 'tan': lambda u: Sin(u) / Cos(u),
    'exp': Exp, 'ln': Ln, 'exp2': lambda u: Exp(u * Ln(C(2))), 'exp_m1': lambda u: Exp(u) - C(1),
    'ln_1p': lambda u: Ln(C(1) + u), 'log2': lambda u: Ln(u) / Ln(C(2)), 'log10': lambda u: Ln(u) / Ln(C(10)),
    'sqrt': Sqrt, 'cbrt': Cbrt, 'recip': lambda u: C(1) / u, 'sinh': Sinh, 'cosh': Cosh,
    'tanh': lambda u: Sinh(u) / Cosh(u),
    'asin': Asin, 'acos': lambda u: PI / C(2) - Asin(u), 'atan': Atan,
    'asinh': lambda u: Ln(u + Sqrt(u * u + C(1))), 'acosh': lambda u: Ln(u + Sqrt(u * u - C(1))),
    'atanh': lambda u: (Ln(C(1) + u) - Ln(C(1) - u)) / C(2),
}


# ---- derivatives ----
def datom(a, v):
    k = KEY[a]
    if k[0] == 'v':
        return C(1 if k[1] == v else 0)
    if k[0] in ('const', 'lnc'):
        return C(0)
    if k[0] == 'opaque':
        if any(mentions_var(x, v) for x in k[2:]):
            raise Unknown(f'no derivative rule for {k[1]}')
        return C(0)
    u = k[1]
    du = diff(u, v)
    if k[0] == 'atan2':
        dx = diff(k[2], v)
        r2 = u * u + k[2] * k[2]
        return (k[2] * du - u * dx) / r2
    if not du.n:
        return C(0)
    if k[0] == 'sin':
        return Cos(u) * du
    if k[0] == 'cos':
        return -Sin(u) * du
    if k[0] == 'exp':
        return A('exp', u) * du
    if k[0] == 'ln':
        return du / u
    if k[0] == 'sqrt':
        return du / (C(2) * A('sqrt', u))
    if k[0] == 'cbrt':
        return du / (C(3) * A('cbrt', u) * A('cbrt', u))
    if k[0] == 'asin':
        return du / Sqrt(C(1) - u * u)
    if k[0] == 'atan':
        return du / (C(1) + u * u)
    raise Unknown(f'no derivative rule for {k[0]}')


def mentions_var(u, v):
    if not isinstance(u, RF):
        return False
    for p in (u.n, u.d):
        for m in p:
            for a, _ in m:
                k = KEY[a]
                if k == ('v', v) or (k[0] != 'v' and any(mentions_var(x, v) for x in k[1:])):
                    return True
    return False


def dpoly(p, v):
    r = C(0)
    for m, c in p.items():
        for a, e in m:
            da = datom(a, v)
            if da.n:
                r = r + RF({mmul_div(m, a, 1): c * e}) * da
    return r


def diff(u, v):
    dn = dpoly(u.n, v)
    dd = dpoly(u.d, v)
    n, d = RF(u.n), RF(u.d)
    if not dd.n:
        return dn / d
    return (dn * d - n * dd) / (d * d)


# ---- regions ----
def canon(p):
    """p = k * monomial content * q with k a constant, q canonical: (sign of k, content, q)"""
    common = None
    for m in p:
        mm = dict(m)
        common = mm if common is None else {a: min(e, mm[a]) for a, e in common.items() if a in mm}
    q = {divm(m, common): c for m, c in p.items()}
    lead = q[max(q, key=order)]
    q = {m: c / abs(lead) for m, c in q.items()}
    s = 1
    if lead < 0:
        s = -1
        q = {m: -c for m, c in q.items()}
    return s, common, q


class Region:
    def __init__(self, signs=(), positive=()):
        self.signs = dict(signs)
        self.positive = frozenset(positive)

    def psign(self, p):
        if not p:
            return 0
        s, content, q = canon(p)
        for a, e in content.items():
            if e % 2 == 0:
                continue
            s *= self.asign(a)
        if q == ONE:
            return s
        if all(all(e % 2 == 0 or self.apos(a) for a, e in m) for m in q) and len(set(c > 0 for c in q.values())) == 1:
            return s * (1 if next(iter(q.values())) > 0 else -1)
        k = tuple(sorted(q.items()))
        if k in self.signs:
            return s * self.signs[k]
        raise Split(k)

    def apos(self, a):
        k = KEY[a]
        return k[0] in ('exp', 'sqrt', 'const', 'lnc') or (k[0] == 'v' and k[1] in self.positive)

    def asign(self, a):
        if self.apos(a):
            return 1
        k = (((a, 1),), Fraction(1)),
        if k in self.signs:
            return self.signs[k]
        raise Split(k)

    def sign(self, u):
        return self.psign(u.n) * self.psign(u.d)

    def split(self, k):
        for s in (1, -1):
            r = Region({**self.signs, k: s}, self.positive)
            if r.feasible():
                yield r

    def feasible(self):
        """Fourier-Motzkin on the sign conditions, monomials taken as unknowns (only refutes)"""
        rows = []
        for k, s in self.signs.items():
            rows.append({m: c * s for m, c in k})
        ms = {m for r in rows for m in r if m}
        for m in ms:
            if all(e % 2 == 0 or self.apos(a) for a, e in m):
                rows.append({m: Fraction(1)})
        for x in list(ms):
            pos = [r for r in rows if r.get(x, 0) > 0]
            ng = [r for r in rows if r.get(x, 0) < 0]
            rest = [r for r in rows if not r.get(x, 0)]
            if len(pos) * len(ng) > 400:
                return True
            for a in pos:
                for b in ng:
                    ka, kb = -b[x], a[x]
                    r = {}
                    for m in set(a) | set(b):
                        v = ka * a.get(m, 0) + kb * b.get(m, 0)
                        if v:
                            r[m] = v
                    rest.append(r)
            rows = rest
            for r in rows:
                if not r or (set(r) == {()} and r[()] <= 0):
                    return False
        for r in rows:
            if not r or (set(r) == {()} and r[()] <= 0):
                return False
        return True

    def __repr__(self):
        out = [f'{pstr(dict(k))} {">" if s > 0 else "<"} 0' for k, s in self.signs.items()]
        return ' and '.join(out) or 'everywhere'


# ---- terms to formulas ----
CONSTS = {'0.6931471805599453': lambda: Ln(C(2)), '2.302585092994046': lambda: Ln(C(10)),
          '3.141592653589793': lambda: PI, '1.5707963267948966': lambda: PI / C(2),
          '1.4142135623730951': lambda: Sqrt(C(2)), '0.7071067811865476': lambda: C(1) / Sqrt(C(2)),
          '1.4426950408889634': lambda: C(1) / Ln(C(2)), '0.4342944819032518': lambda: C(1) / Ln(C(10))}
NULL = {'Zero::zero': 0, 'One::one': 1}
NAMED = {'FloatConst::LN_2': lambda: Ln(C(2)), 'FloatConst::LN_10': lambda: Ln(C(10)), 'FloatConst::PI': lambda: PI,
         'FloatConst::FRAC_PI_2': lambda: PI / C(2), 'FloatConst::SQRT_2': lambda: Sqrt(C(2)),
         'FloatConst::LOG2_E': lambda: C(1) / Ln(C(2)), 'FloatConst::LOG10_E': lambda: C(1) / Ln(C(10))}


def num(v):
    s = repr(v) if isinstance(v, float) else str(v)
    for suf in ('_f64', '_f32', 'f64', 'f32'):
        if s.endswith(suf):
            s = s[:-len(suf)]
    if s in CONSTS:
        return CONSTS[s]()
    try:
        return C(Fraction(s.replace('_', '')))
    except (ValueError, ZeroDivisionError):
        raise Unknown(f'constant {s}')


class Eval:
    """value of terms in a region; `leaf(t)` names the inputs (returns an RF, a bool, an int or None)"""

    def __init__(self, region, leaf):
        self.r = region
        self.leaf = leaf
        self.memo = {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = self.ev(t)
        return self.memo[t]

    def sgn(self, a, b):
        return self.r.sign(self(a) - self(b))

    def ev(self, t):
        x = self.leaf(t)
        if x is not None:
            return x
        o = t.op
        if o == 'const':
            return num(t.a[0])
        if o == 'vf' and t.a[1] == 'Some':
            return self(t.a[0])
        if o in ('ref', 'refm', 'cast') and isinstance(t.a[0], T) and (o == 'cast' or not t.a[1]):
            return self(t.a[0])
        if o == 'un' or o in ('neg', 'Neg'):
            return -self(t.a[-1])
        if o == 'fld' and t.a[0].op == 'call' and t.a[0].a[0].endswith('sin_cos'):
            u = self(t.a[0].a[1])
            return Sin(u) if str(t.a[2]) == '0' else Cos(u)
        if o == 'bin':
            return self.bin(t.a[0], t.a[1], t.a[2])
        if o in ('Add', 'Sub', 'Mul', 'Div', 'add', 'sub', 'mul', 'div'):
            return self.bin(o, t.a[0], t.a[1])
        if o == 'call':
            return self.callv(t)
        raise Unknown(show(t)[:120])

    def bin(self, o, a, b):
        o = o.lower()
        a, b = self(a), self(b)
        a = a if isinstance(a, RF) else C(a)
        b = b if isinstance(b, RF) else C(b)
        if o == 'add':
            return a + b
        if o == 'sub':
            return a - b
        if o == 'mul':
            return a * b
        if o == 'div':
            return a / b
        raise Unknown(o)

    def callv(self, t):
        n = t.a[0]
        if n in NULL:
            return C(NULL[n])
        if n in NAMED:
            return NAMED[n]()
        l = n.split('::')[-1]
        args = [x for x in t.a[1:] if isinstance(x, T)]
        if l in ('from', 'from_f64', 'from_f32', 'from_usize', 'from_i32', 'from_u8', 'from_u32', 'unwrap', 'expect', 'into', 'clone', 'unwrap_or', 'unwrap_or_else', 'to_owned', 'to_f64') and args:
            return self(args[0])
        if l == 'neg' and len(args) == 1:
            return -self(args[0])
        if l in ('add', 'sub', 'mul', 'div') and len(args) == 2:
            return self.bin(l, *args)
        if l in UN and len(args) == 1:
            return UN[l](self(args[0]))
        if l == 'powf' and len(args) == 2:
            return Pow(self(args[0]), self(args[1]))
        if l == 'powi' and len(args) == 2:
            return Pow(self(args[0]), self(args[1]))
        if l == 'mul_add' and len(args) == 3:
            return self(args[0]) * self(args[1]) + self(args[2])
        if l == 'hypot' and len(args) == 2:
            a, b = self(args[0]), self(args[1])
            return Sqrt(a * a + b * b)
        if l == 'atan2' and len(args) == 2:
            return A('atan2', self(args[0]), self(args[1]))
        if l == 'abs' and len(args) == 1:
            u = self(args[0])
            return u if self.r.sign(u) >= 0 else -u
        if l == 'signum' and len(args) == 1:
            return C(1) if self.r.sign(self(args[0])) >= 0 else C(-1)
        if l in ('min', 'max') and len(args) == 2:
            lo = self.sgn(args[0], args[1]) < 0
            return self(args[0]) if lo == (l == 'min') else self(args[1])
        if l == 'clamp' and len(args) == 3:
            x, a, b = args
            if self.sgn(x, a) < 0:
                return self(a)
            if self.sgn(b, x) < 0:
                return self(b)
            return self(x)
        if l == 'abs_sub' and len(args) == 2:
            return self(args[0]) - self(args[1]) if self.sgn(args[0], args[1]) > 0 else C(0)
        raise Unknown(show(t)[:120])

    # facts
    def holds(self, f):
        o = f.op
        if o == 'not':
            return not self.holds(f.a[0])
        if o in ('and', 'BitAnd'):
            return self.holds(f.a[0]) and self.holds(f.a[1])
        if o in ('or', 'BitOr'):
            return self.holds(f.a[0]) or self.holds(f.a[1])
        if o == 'const':
            return bool(f.a[0])
        if o == 'is':
            return self.is_(f.a[0], f.a[1])
        if o == 'ovf':
            return False
        if o in ('lt', 'le', 'eq', 'ne'):
            a, b = self(f.a[0]), self(f.a[1])
            if isinstance(a, RF) != isinstance(b, RF):
                a = C(a) if not isinstance(a, RF) else a
                b = C(b) if not isinstance(b, RF) else b
            if not isinstance(a, RF):
                return {'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[o]
            s = self.r.sign(a - b)
            return {'lt': s < 0, 'le': s <= 0, 'eq': s == 0, 'ne': s != 0}[o]
        if o == 'call':
            l = f.a[0].split('::')[-1]
            u = f.a[1] if len(f.a) > 1 and isinstance(f.a[1], T) else None
            if l in ('is_nan', 'is_infinite', 'is_zero', 'is_one') and u is not None:
                if l == 'is_zero':
                    return self.r.sign(self(u)) == 0
                if l == 'is_one':
                    return self.r.sign(self(u) - C(1)) == 0
                self(u)
                return False
            if l in ('is_finite', 'is_normal'):
                self(u)
                return True
            if l == 'is_sign_positive':
                return self.r.sign(self(u)) >= 0
            if l == 'is_sign_negative':
                return self.r.sign(self(u)) < 0
        raise Unknown(show(f)[:120])

    def is_(self, t, v):
        if v in ('Some', 'None') and t.op == 'call' and t.a[0].split('::')[-1] in ('from', 'from_f64', 'from_usize', 'from_f32', 'to_f64'):
            return v == 'Some'
        if v in ('Less', 'Greater', 'Equal') and t.op == 'call' and t.a[0].split('::')[-1] in ('partial_cmp', 'cmp', 'total_cmp'):
            s = self.sgn(t.a[1], t.a[2])
            return s == {'Less': -1, 'Greater': 1, 'Equal': 0}[v]
        if t.op == 'vf' and t.a[1] == 'Some':
            return self.is_(t.a[0], v)
        if v in ('Some', 'None') and t.op == 'call' and t.a[0].split('::')[-1] == 'partial_cmp':
            return v == 'Some'
        raise Unknown('is ' + v + ' ' + show(t)[:100])


def retpaths(F, lim=600):
    """[(facts, value)] over the acyclic paths of a loop-free function; ends that do not return have value None"""
    rets = dict(F.returns())
    if F.bodies:
        raise Unknown('the function loops')
    byn = {}
    for ph, ops in F.phi_ops.items():
        byn.setdefault(F.phi_key[ph][0], []).append((ph, dict(ops)))
    out = []
    st = [(0, (), {})]
    while st:
        x, fs, env = st.pop()
        if len(out) + len(st) > lim:
            raise Unknown('too many paths')
        if x in rets:
            out.append((fs, subst(rets[x], env)))
            continue
        if not F.n[x].succ:
            out.append((fs, None))
        for s, l in F.n[x].succ:
            f2 = fs + tuple(subst(f, env) for f in F.edge_facts(x, l))
            e2 = env
            for ph, ops in byn.get(s, ()):
                if x in ops:
                    if e2 is env:
                        e2 = dict(env)
                    e2[ph] = subst(ops[x], env)
            st.append((s, f2, e2))
    return out


def value(paths, region, leaf):
    """value of a loop-free function in a region: an RF, or None when it does not return there"""
    e = Eval(region, leaf)
    hits = []
    for fs, v in paths:
        ok = True
        for f in fs:
            if not e.holds(f):
                ok = False
                break
        if ok:
            hits.append(v)
    if len(hits) != 1:
        raise Unknown(f'{len(hits)} paths apply')
    return None if hits[0] is None else e(hits[0])


def over_regions(fn, positive=(), lim=200):
    """run fn(region) over a partition of the domain refined on demand: yields (region, result)"""
    st = [Region((), positive)]
    n = 0
    while st:
        r = st.pop()
        n += 1
        if n > lim:
            raise Unknown('too many regions')
        try:
            yield r, fn(r)
        except Split as s:
            sp = list(r.split(s.p))
            st += sp


# ---- loops that accumulate over rows ----
def rowdep(a):
    k = KEY[a]
    if k[0] == 'v':
        return k[1].endswith('[i]')
    if k[0] == 'sum':
        return False
    return any(rf_rowdep(x) for x in k[1:] if isinstance(x, RF))


def rf_rowdep(u):
    return any(rowdep(a) for p in (u.n, u.d) for m in p for a, _ in m)


def Sum(g, n):
    """sum of a row formula over all rows; factors that do not depend on the row come out"""
    if any(rowdep(a) for m in g.d for a, _ in m):
        return A('sum', g)
    out = C(0)
    for m, c in g.n.items():
        dep = tuple((a, e) for a, e in m if rowdep(a))
        ind = tuple((a, e) for a, e in m if not rowdep(a))
        s = n if not dep else A('sum', RF({dep: Fraction(1)}))
        out = out + RF({ind: c}) * s
    return out / RF(g.d)


_datom0 = datom


def datom(a, v):
    k = KEY[a]
    if k[0] == 'sum':
        return diff(k[1], v)
    if k[0] == 'opaque' and k[1] in DOPAQUE:
        r = C(0)
        for j, x in enumerate(k[2:]):
            dx = diff(x, v)
            if dx.n:
                r = r + A('opaque', DOPAQUE[k[1]][j], *k[2:]) * dx
        return r
    return _datom0(a, v)


DOPAQUE = {}


class LoopPaths:
    """paths of a function whose loops are left as accumulators: (nodes, facts, env, value)"""

    def __init__(self, F, lim=800):
        self.F = F
        self.sib = {}
        self.byn = {}
        for ph, ops in F.phi_ops.items():
            self.byn.setdefault(F.phi_key[ph][0], []).append((ph, dict(ops)))
        self.lim = lim
        self.cache = {}

    def header(self, s):
        return self.F.n[s].b in self.F.bodies

    def step(self, x, s, l, fs, env, within=None):
        f2 = fs + tuple(subst(f, env) for f in self.F.edge_facts(x, l))
        e2 = env
        ent = {}
        for ph, ops in self.byn.get(s, ()):
            if x in ops:
                v = subst(ops[x], env)
                if self.header(s):
                    ent[ph] = v
                else:
                    if e2 is env:
                        e2 = dict(env)
                    e2[ph] = v
        if ent:
            k = ','.join(f'{ph.id}:{v.id}' for ph, v in sorted(ent.items(), key=lambda i: i[0].id))
            ent = {ph: mkacc(ph, v, k) for ph, v in ent.items()}
            e2 = {**env, **ent}
            for t in ent.values():
                self.sib[t] = ent
        return f2, e2

    def paths(self):
        F = self.F
        rets = dict(F.returns())
        out = []
        st = [((0,), (), {})]
        while st:
            p, fs, env = st.pop()
            x = p[-1]
            if len(out) + len(st) > self.lim:
                raise Unknown('too many paths')
            if x in rets:
                out.append((p, fs, env, subst(rets[x], env)))
                continue
            if not F.n[x].succ:
                out.append((p, fs, env, None))
            for s, l in F.n[x].succ:
                if s in p:
                    continue
                if self.header(x) and F.n[s].b in F.bodies[F.n[x].b] and not self.exits(x, s):
                    continue
                f2, e2 = self.step(x, s, l, fs, env)
                st.append((p + (s,), f2, e2))
        return out

    def exits(self, h, s):
        """some path from s leaves the loop of h without passing h again"""
        return self.F.path_avoiding([i for i in self.F.rpo if self.F.n[i].b not in self.F.bodies[self.F.n[h].b]], avoid_nodes=(h,), start=s) is not None

    def body(self, h):
        """paths of one iteration from header h back to it: (nodes, facts, env)"""
        if h in self.cache:
            return self.cache[h]
        F = self.F
        hb = F.n[h].b
        body = F.bodies[hb]
        out = []
        st = [((h,), (), {})]
        while st:
            p, fs, env = st.pop()
            x = p[-1]
            if len(out) + len(st) > self.lim:
                raise Unknown('too many paths through a loop body')
            for s, l in F.n[x].succ:
                if F.n[s].b == hb:
                    f2 = fs + tuple(subst(f, env) for f in F.edge_facts(x, l))
                    out.append((p + (s,), f2, env))
                    continue
                if F.n[s].b not in body or s in p:
                    continue
                f2, e2 = self.step(x, s, l, fs, env)
                st.append((p + (s,), f2, e2))
        self.cache[h] = out
        return out


ACC = {}


def mkacc(ph, v, k=''):
    """opaque to substitution: names the accumulator and the values it and its siblings start with"""
    from .term import mk
    t = mk('acc', f'{ph.id}:{v.id}', k)
    ACC[t] = (ph, v)
    return t


class LoopEval(Eval):
    """Eval that also sums accumulators over the rows"""

    def __init__(self, region, leaf, lp, n):
        super().__init__(region, leaf)
        self.lp = lp
        self.n = n

    def ev(self, t):
        if t.op == 'acc':
            return self.acc(t)
        return super().ev(t)

    def is_(self, t, v):
        if t.op == 'next':
            return v == 'Some'
        return super().is_(t, v)

    def iteration(self, h, sib):
        """the paths of one iteration that apply in the region"""
        hits = []
        for p, fs, env in self.lp.body(h):
            if all(self.holds(subst(f, sib)) for f in fs):
                hits.append((p, env))
        if len(hits) != 1:
            raise Unknown(f'{len(hits)} iteration paths apply')
        return hits[0]

    def acc(self, t):
        ph, entry = ACC[t]
        F = self.lp.F
        h = F.phi_key[ph][0]
        me = V(f'#acc{t.id}')
        self.memo[t] = me
        sib = self.lp.sib.get(t, {ph: t})
        p, env = self.iteration(h, sib)
        if p[-1] != h:
            raise Unknown('the loop changes state between iterations')
        back = dict(F.phi_ops[ph]).get(p[-2])
        if back is None:
            raise Unknown('no value comes back to the loop header')
        v = self(subst(subst(back, env), sib))
        self.memo.clear()
        if not isinstance(v, RF):
            raise Unknown('loop carries a value that is not a number')
        if v == me:
            return self(entry)
        g = v - me
        if any(KEY[a] == ('v', f'#acc{t.id}') for q in (g.n, g.d) for m in q for a, _ in m):
            raise Unknown('an accumulator that is not a sum')
        return self(entry) + Sum(g, self.n)
