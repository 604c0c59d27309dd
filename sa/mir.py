"""Program model over the JSON written by the srdump driver: every function of the three workspace
crates as resolved MIR, plus ADTs, impls and traits."""
import json, os, re
from .counted import normalise

STD_VARIANTS = {
    'core::option::Option': {0: 'None', 1: 'Some'},
    'core::result::Result': {0: 'Ok', 1: 'Err'},
    'core::ops::control_flow::ControlFlow': {0: 'Continue', 1: 'Break'},
    'core::cmp::Ordering': {-1: 'Less', 255: 'Less', 0: 'Equal', 1: 'Greater'},
    'alloc::borrow::Cow': {0: 'Borrowed', 1: 'Owned'},
    'std::collections::hash::map::Entry': {0: 'Occupied', 1: 'Vacant'},
}


def canon(n):
    """std / alloc / core re-export paths are printed in more than one way; keep one spelling."""
    return n


class Program:
    def __init__(self, dump_dir):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.crates = []
        for f in sorted(os.listdir(dump_dir)):
            if not f.endswith('.json'):
                continue
            d = json.load(open(os.path.join(dump_dir, f)))
            self.crates.append(d['crate'])
            for fn in d['fns']:
                fn['crate'] = d['crate']
                if 'blocks' in fn:
                    normalise(fn)
                self.fns[fn['id']] = fn
            for a in d['adts']:
                a['crate'] = d['crate']
                self.adts[a['n']] = a
            for i in d['impls']:
                i['crate'] = d['crate']
                self.impls.append(i)
            for t in d['traits']:
                self.traits[t['n']] = t
        self.by_nice = {}
        for fn in self.fns.values():
            self.by_nice.setdefault(fn['n'], []).append(fn)
        # trait item -> implementing bodies
        self.impl_of_item = {}
        for fn in self.fns.values():
            if 'titem' in fn:
                self.impl_of_item.setdefault(fn['titem'], []).append(fn['id'])
        self._vt = {}

    # ---- lookup ----
    def fn(self, suffix):
        """The unique function whose nice name ends with `suffix` (on a :: or < boundary)."""
        r = self.find(suffix)
        if len(r) != 1:
            raise Missing(f'expected one function named {suffix}, found {len(r)}: {[x["n"] for x in r][:5]}')
        return r[0]

    def find(self, suffix):
        out = []
        for n, fs in self.by_nice.items():
            s = strip_generics(n)
            if s == suffix or s.endswith('::' + suffix):
                out += [f for f in fs if f['kind'] in ('Fn', 'AssocFn')]
        return out

    def adt(self, suffix):
        r = [a for n, a in self.adts.items() if n == suffix or n.endswith('::' + suffix)]
        if len(r) != 1:
            raise Missing(f'expected one type named {suffix}, found {len(r)}')
        return r[0]

    def variants(self, ty):
        """discriminant -> variant name for a type string"""
        if ty in self._vt:
            return self._vt[ty]
        base = strip_generics(ty.lstrip('&').replace('mut ', '').strip())
        r = None
        for k, v in STD_VARIANTS.items():
            if base == k or base.split('::')[-1] == k.split('::')[-1]:
                r = v
        if r is None:
            a = self.adts.get(base)
            if a is None:
                c = [x for n, x in self.adts.items() if n.split('::')[-1] == base.split('::')[-1]]
                a = c[0] if len(c) == 1 else None
            if a is not None and a['enum']:
                r = {v['d']: v['n'] for v in a['vs']}
        self._vt[ty] = r
        return r

    def line(self, s):
        if not s:
            return '?'
        return f'{s[0]}:{s[1]}'


class Missing(Exception):
    """An anchor the rule needs is absent: the check fails closed."""


def strip_generics(s):
    """Remove `<...>` generic argument lists but keep `<T as Trait>::f` / `<impl ...>` prefixes readable."""
    out = []
    depth = 0
    i = 0
    # leading `<A as B>::f` form: keep the inside, stripped
    if s.startswith('<'):
        # find the matching >
        d = 0
        for j, c in enumerate(s):
            if c == '<':
                d += 1
            elif c == '>' and s[j - 1] != '-':
                d -= 1
                if d == 0:
                    inner = s[1:j]
                    rest = s[j + 1:]
                    return '<' + strip_inner(inner) + '>' + strip_plain(rest)
    return strip_plain(s)


def strip_inner(s):
    return strip_plain(s)


def strip_plain(s):
    out = []
    depth = 0
    prev = ''
    for c in s:
        if c == '<':
            depth += 1
            if depth == 1 and out[-2:] == [':', ':']:
                out = out[:-2]
        elif c == '>' and prev != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
        prev = c
    return ''.join(out)


def short(n):
    """last path segments: Type::method or function"""
    s = strip_generics(n)
    return '::'.join(s.split('::')[-2:])


def last(n):
    return strip_generics(n).split('::')[-1]
