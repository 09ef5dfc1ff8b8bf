"""Slot-provenance round trip: every scalar slot of a value is given its own identity tag, the value is passed through an
encode/decode client, and original and result are compared slot by slot."""
import re

from .absint import *
from .program import ClassRef

SCALARS = ('float', 'int', 'bool', 'num', 'any')


def taggable(a):
    return isinstance(a, Opaque) and a.t in SCALARS or \
        isinstance(a, Const) and isinstance(a.v, (int, float)) and not isinstance(a.v, bool)


def reachable(I, roots):
    seen, todo = {}, [a for r in roots for a in r.atoms]
    while todo:
        a = todo.pop()
        if isinstance(a, Tup):
            todo += [x for v in a.items for x in v.atoms]
        elif isinstance(a, Bound):
            todo += list(a.self_.atoms)
        elif isinstance(a, Obj) and a not in seen:
            seen[a] = True
            if isinstance(a.cls, Obj):
                todo.append(a.cls)
            for v in I.fields(a).values():
                todo += list(v.atoms)
    return list(seen)


def okname(o):
    c = o.cls
    while isinstance(c, Obj):
        c = c.cls
    return c.name if isinstance(c, ClassRef) else (c or o.kind)


def defaults_of(I, objs):
    """(class, field) -> the constants that the slot is known to hold at some time of its life"""
    out = {}
    for o in objs:
        for f, v in I.heap.get(o, {}).items():
            out.setdefault((okname(o) if o.kind in ('inst', 'class') else 'ANY', f), set()).update(
                a.v for a in v.atoms if isinstance(a, Const) and hashable(a.v))
    return out


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def isext(o):
    c = o.cls
    return isinstance(c, ClassRef) and c.module.kind == 'pyx'


def tag_scalars(I, objs, skip=lambda o, f: False):
    """replace the scalars of every slot by one tagged unknown"""
    n = 0
    for k, o in enumerate(sorted(objs, key=lambda o: (repr(o), repr(o.site)))):
        for f, v in list(I.heap.get(o, {}).items()):
            if f.startswith('?') or skip(o, f):
                continue
            sc = [a for a in v.atoms if taggable(a)]
            tups = [a for a in v.atoms if isinstance(a, Tup)]
            rest = {a for a in v.atoms if a not in set(sc) and not isinstance(a, Tup)}
            base = '%s.%s' % (okname(o) if o.kind == 'inst' else o.kind, f if o.kind == 'inst' or o.kind == 'class' else '[]')
            new = set(rest)
            lab = v.labels
            if sc and all(isinstance(a, Const) for a in sc) and not isext(o) and (len(sc) == 1 or o.kind not in ('inst', 'class')):
                new |= set(sc)          # a constant is its own identity
            elif sc:
                new.add(Opaque(kind(sc), (base, k)))
                lab = lab | {'%s#%d' % (base, k)}
                n += 1
            for t in tups:
                new.add(tag_tup(t, base, k))
            strip = o.kind == 'inst' and Const(None) in new and (sc or any(isinstance(a, Obj) for a in new))
            if strip:
                new.discard(Const(None))        # the slot is followed in the state where it is set
            if sc or tups or strip:
                I.heap[o][f] = Val(new, lab)
    return n


def kind(sc):
    ts = {a.t if isinstance(a, Opaque) else type(a.v).__name__ for a in sc}
    if ts <= {'int', 'bool'}:
        return 'bool' if ts == {'bool'} else 'int'
    if ts <= {'int', 'float', 'num', 'bool'}:
        return 'float'
    return 'any' if 'any' in ts else 'float'


def tag_tup(t, base, k):
    items = []
    for n, v in enumerate(t.items):
        sc = [a for a in v.atoms if taggable(a)]
        new = {a for a in v.atoms if a not in set(sc) and not isinstance(a, Tup)}
        if sc:
            new.add(Opaque(kind(sc), (base + '(%d)' % n, k)))
        for x in v.atoms:
            if isinstance(x, Tup):
                new.add(tag_tup(x, base + '(%d)' % n, k))
        items.append(Val(new, v.labels))
    return Tup(items)


class Diff:
    def __init__(self, I, ignore=lambda cls, field: False, defaults=None):
        self.defaults = defaults or {}
        self.I = I
        self.ignore = ignore
        self.seen = set()
        self.out = {}
        self.slots = set()
        self.classes = set()

    def add(self, path, kind, msg):
        self.out.setdefault(path, {}).setdefault(kind, msg)

    def groups(self, v):
        g = {}
        for a in v.atoms:
            if isinstance(a, Obj):
                if a.kind == 'inst' or a.kind == 'dict' and not isinstance(a.cls, str):
                    key = ('inst', okname(a))
                elif a.kind == 'class':
                    key = ('class', okname(a))
                elif a.kind == 'dict':
                    key = ('dict', '')
                elif a.kind in ('list', 'ndarray', 'iter'):
                    key = ('seq', '')
                else:
                    key = (a.kind, '')
                g.setdefault(key, set()).add(a)
            elif isinstance(a, Tup):
                g.setdefault(('seq', ''), set()).add(a)
        return g

    def scalars(self, v):
        return {a for a in v.atoms if isinstance(a, (Const, Opaque))}

    def compare(self, a, b, path):
        """a: original, b: result"""
        self.slots.add(path)
        sa, sb = self.scalars(a), self.scalars(b)
        ta = {x.tag for x in sa if isinstance(x, Opaque) and x.tag}
        tb = {x.tag for x in sb if isinstance(x, Opaque) and x.tag}
        oka = {t[0] for t in ta}
        last = {x.rsplit('.', 1)[-1] for x in oka}
        if ta and not (ta & tb) and not any(t[0].rsplit('.', 1)[-1] in last for t in tb):
            self.add(path, 'vague' if any(x.t == 'any' for x in sb if isinstance(x, Opaque) and not x.tag) else 'lost',
                     'the value does not come back (found %s)' % (short(b),))
        foreign = {t[0] for t in tb if t[0].rsplit('.', 1)[-1] not in last} - oka
        if foreign:
            self.add(path, 'foreign', 'receives the value of %s' % ', '.join(sorted(foreign)))
        ca = {x for x in sa if isinstance(x, Const)}
        cb = {x for x in sb if isinstance(x, Const)}
        plain_a = {x for x in sa if isinstance(x, Opaque) and not x.tag}
        plain_b = {x for x in sb if isinstance(x, Opaque) and not x.tag}
        known = self.known(path)
        cb = {x for x in cb if x in ca or not (hashable(x.v) and x.v in known)}
        if cb - ca and not plain_a and a.atoms:
            self.add(path, 'extra', 'may come back as %s' % ', '.join(sorted(repr(x.v) for x in cb - ca)))
        if ca and not cb and not plain_b and not tb and a.atoms:
            self.add(path, 'lost', 'the value %s does not come back (found %s)' % (', '.join(sorted(repr(x.v) for x in ca)), short(b)))
        elif ca - cb and not (plain_b or plain_a):
            self.add(path, 'lost', 'the value %s does not come back' % ', '.join(sorted(repr(x.v) for x in ca - cb)))
        if plain_b and not plain_a:
            self.add(path, 'vague' if any(x.t == 'any' for x in plain_b) else 'changed', 'may come back as a different value')
        ga, gb = self.groups(a), self.groups(b)
        for key, os in ga.items():
            if key not in gb:
                self.add(path, 'lost', 'no %s comes back (found %s)' % (key[1] or key[0], short(b)))
                continue
            self.pair(key, os, gb[key], path)

    def known(self, path):
        m = re.match(r'(\w+)\.(\w+)$', path)
        if m:
            return self.defaults.get(m.groups(), ())
        m = re.search(r"\[('\w+')\]$", path)
        return self.defaults.get(('ANY', 'k:' + m.group(1)), ()) if m else ()

    def fieldval(self, objs, f):
        return joinall(self.I.field(o, f, BOT) for o in objs)

    def pair(self, key, A, B, path):
        k = (key, frozenset(A), frozenset(B))
        if k in self.seen:
            return
        self.seen.add(k)
        I = self.I
        if key[0] in ('inst', 'class'):
            self.classes.add(key[1])
            oa = [o for o in A if isinstance(o, Obj)]
            ob = [o for o in B if isinstance(o, Obj)]
            ta = Val([o.cls for o in oa if isinstance(o.cls, Obj)])
            tb = Val([o.cls for o in ob if isinstance(o.cls, Obj)])
            if ta.atoms or tb.atoms:
                self.compare(ta, tb, '%s.__class__' % key[1])
            fs = []
            for o in oa:
                for f in I.fields(o):
                    if f not in fs and not f.startswith('?'):
                        fs.append(f)
            for f in sorted(fs):
                if f.startswith(('k:', 'o:', 'k*', 'elem')):
                    continue
                if self.ignore(key[1], f):
                    continue
                va = self.fieldval(oa, f)
                if va.bot:
                    continue
                self.compare(va, self.fieldval(ob, f), '%s.%s' % (key[1], f))
            if any(o.kind == 'dict' for o in oa):
                self.dicts(oa, ob, key[1])
        elif key[0] == 'dict':
            self.dicts(list(A), list(B), path)
        else:
            if key[0] == 'set':
                self.compare(joinall(self.elem(x) for x in A), joinall(self.elem(x) for x in B), path + '{}')
                return
            la, lb = [self.fixed(x) for x in A], [self.fixed(x) for x in B]
            n = {len(x) if x is not None else None for x in la + lb}
            if len(n) == 1 and None not in n:
                for i in range(n.pop()):
                    self.compare(joinall(x[i] for x in la), joinall(x[i] for x in lb), path + '[%d]' % i)
            else:
                ea, eb = joinall(self.elem(x) for x in A), joinall(self.elem(x) for x in B)
                if not ea.bot:
                    self.compare(ea, eb, path + '[]')

    def fixed(self, x):
        if isinstance(x, Tup):
            return list(x.items)
        f = self.I.fields(x)
        if f.get('elem', BOT).atoms:
            return None
        ks = sorted((int(k[2:]) for k in f if k.startswith('i:')))
        if ks and ks == list(range(len(ks))):
            return [f['i:%d' % k] for k in ks]
        return None

    def elem(self, x):
        if isinstance(x, Tup):
            return joinall(x.items)
        return joinall(v for k, v in self.I.fields(x).items() if not k.startswith('?') and k not in ('k*',))

    def dicts(self, oa, ob, path):
        I = self.I
        ks = []
        for o in oa:
            for f in I.fields(o):
                if f.startswith(('k:', 'o:')) and f not in ks:
                    ks.append(f)
        star_b = self.fieldval(ob, 'k*')
        for f in ks:
            va = self.fieldval(oa, f)
            vb = joinall(I.field(o, f, BOT) for o in ob)
            if f.startswith('o:') and vb.bot:
                # keyed by an object: match by class
                vb = joinall(v for o in ob for k, v in I.fields(o).items() if k.startswith('o:'))
            if vb.bot:
                vb = star_b
            if va.bot:
                continue
            self.compare(va, vb, path + '[%s]' % (f[2:] if f.startswith('k:') else '*'))
        st = self.fieldval(oa, 'k*')
        if not st.bot:
            vb = joinall(v for o in ob for k, v in I.fields(o).items() if k.startswith(('k:', 'o:', 'k*')))
            self.compare(st, vb, path + '[*]')


def short(v):
    if v.bot:
        return 'nothing'
    return ', '.join(sorted(repr(a)[:40] for a in v.atoms))[:120]
