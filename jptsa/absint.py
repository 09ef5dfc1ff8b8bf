"""Whole-program abstract interpreter for the repository.

The interpreter works on the syntax trees of :mod:`jptsa.program` (Python and
Cython alike).  It never runs repository code and never picks concrete inputs:

* a value is a set of *atoms* (known constants, abstract heap objects named by
  allocation site, tuples, functions/classes, opaque scalars) plus a set of
  provenance labels;
* the heap is global and grows monotonically (flow-insensitive, field
  sensitive; dictionaries are sensitive to constant keys);
* local variables are flow-sensitive, branches are joined, loops are iterated to
  a fixpoint, calls are analysed once per abstract argument tuple (memoised),
  the whole analysis is repeated until the heap is stable.
"""
import ast
import sys
from collections import defaultdict

from .program import AnalysisBroken, ClassRef, FuncRef

MAXCONST = 24


# ----------------------------------------------------------------------------------------------
# values

class Const:
    __slots__ = ('v', '_h')

    def __init__(self, v):
        self.v = v
        self._h = hash((type(v).__name__, repr(v) if isinstance(v, float) else v))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) is type(self.v) and (o.v == self.v or (o.v != o.v and self.v != self.v))

    def __repr__(self):
        return repr(self.v)


class Opaque:
    """An unknown value of a known or unknown type ('any', 'float', 'int', 'str', 'bool', 'num' ...)."""
    __slots__ = ('t', 'tag')

    def __init__(self, t, tag=None):
        self.t = t
        self.tag = tag            # identity of the value: survives copying, never an operation

    def __hash__(self):
        return hash(('opq', self.t, self.tag))

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.t == self.t and o.tag == self.tag

    def __repr__(self):
        return '?' + self.t + ('' if self.tag is None else '#%s' % (self.tag,))


POSITIVE = '>0'              # tag of the length of something that is not empty


class Obj:
    """An abstract heap object."""
    __slots__ = ('kind', 'cls', 'site', 'phase', '_h', 'loc')

    def __init__(self, kind, cls, site, phase, loc=None):
        if isinstance(cls, str):
            cls = sys.intern(cls)
        self.kind, self.cls, self.site, self.phase, self.loc = kind, cls, site, phase, loc
        self._h = hash((kind, id(cls) if cls is not None and not isinstance(cls, str) else cls, site, phase))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Obj) and o._h == self._h and o.kind == self.kind and o.cls is self.cls
                             and o.site == self.site and o.phase == self.phase)

    def clsname(self):
        if isinstance(self.cls, ClassRef):
            return self.cls.name
        if isinstance(self.cls, Obj):
            return self.cls.clsname()
        return self.cls or self.kind

    def __repr__(self):
        return '<%s %s@%s/%s>' % (self.kind, self.clsname(), self.loc, self.phase)


class Tup:
    __slots__ = ('items', '_h')

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(('tup', self.items))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Tup) and o._h == self._h and o.items == self.items

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class Bound:
    __slots__ = ('fn', 'self_')

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __hash__(self):
        return hash(('bound', self.fn, self.self_))

    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn == self.fn and o.self_ == self.self_

    def __repr__(self):
        return '<bound %r>' % (self.fn,)


class Ext:
    """Something outside the repository, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(('ext', self.name))

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __repr__(self):
        return '<ext %s>' % self.name


class ExtM:
    """Method ``name`` of a value that is not an instance of a repository class."""
    __slots__ = ('recv', 'name', '_h')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name
        self._h = hash(('extm', recv, name))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, ExtM) and o._h == self._h and o.recv == self.recv and o.name == self.name

    def __repr__(self):
        return '<extm %r.%s>' % (self.recv, self.name)


class ModAtom:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(('mod', self.name))

    def __eq__(self, o):
        return isinstance(o, ModAtom) and o.name == self.name


class Super:
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def __hash__(self):
        return hash(('super', id(self.cls), self.self_))

    def __eq__(self, o):
        return isinstance(o, Super) and o.cls is self.cls and o.self_ == self.self_


class Partial:
    """attrgetter/itemgetter and friends."""
    __slots__ = ('what', 'args')

    def __init__(self, what, args):
        self.what, self.args = what, args

    def __hash__(self):
        return hash(('partial', self.what, self.args))

    def __eq__(self, o):
        return isinstance(o, Partial) and o.what == self.what and o.args == self.args


NOLABELS = frozenset()


class Val:
    __slots__ = ('atoms', 'labels', '_h')

    def __init__(self, atoms=(), labels=NOLABELS):
        self.atoms = frozenset(atoms)
        self.labels = frozenset(labels)
        self._h = hash((self.atoms, self.labels))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Val) and o._h == self._h and o.atoms == self.atoms and o.labels == self.labels

    def __bool__(self):
        raise TypeError('Val has no truth value')

    def __repr__(self):
        return 'Val(%s%s)' % (', '.join(map(repr, self.atoms)), (' |' + ','.join(sorted(self.labels))) if self.labels else '')

    @property
    def bot(self):
        return not self.atoms

    def with_labels(self, labels):
        if not labels or labels <= self.labels:
            return self
        return Val(self.atoms, self.labels | labels)

    def relabel(self, labels):
        return Val(self.atoms, labels)

    def objs(self):
        return [a for a in self.atoms if isinstance(a, Obj)]

    def consts(self):
        return [a.v for a in self.atoms if isinstance(a, Const)]


BOT = Val()
NONE = Val([Const(None)])
TRUE = Val([Const(True)])
FALSE = Val([Const(False)])
BOOL = Val([Const(True), Const(False)])
ANY = Val([Opaque('any')])


def C(v):
    return Val([Const(v)])


def O(t='any', labels=NOLABELS):
    return Val([Opaque(t)], labels)


def leq(a, b):
    return a is b or (a.atoms <= b.atoms and a.labels <= b.labels)


def subsume(atoms):
    """drop tuples that are componentwise contained in another tuple of the set"""
    tups = [a for a in atoms if isinstance(a, Tup)]
    if len(tups) < 2:
        return atoms
    tups.sort(key=lambda t: -sum(len(v.atoms) for v in t.items))
    keep, drop = [], set()
    for t in tups:
        if any(len(k.items) == len(t.items) and all(leq(x, y) for x, y in zip(t.items, k.items)) for k in keep):
            drop.add(t)
        else:
            keep.append(t)
    return frozenset(a for a in atoms if a not in drop) if drop else atoms


def widen(atoms):
    atoms = subsume(atoms)
    cs = [a for a in atoms if isinstance(a, Const) and a.v is not None and not isinstance(a.v, bool)]
    if len(cs) > MAXCONST:
        rest = {a for a in atoms if a not in set(cs)}
        return frozenset(rest | {Opaque(type(c.v).__name__) for c in cs})
    tups = [a for a in atoms if isinstance(a, Tup)]
    if len(tups) > 12:
        by = defaultdict(list)
        for t in tups:
            by[len(t.items)].append(t)
        rest = {a for a in atoms if not isinstance(a, Tup)}
        for n, ts in by.items():
            items = [BOT] * n
            for t in ts:
                items = [join(a, b) for a, b in zip(items, t.items)]
            rest.add(Tup(items))
        return frozenset(rest)
    if len(atoms) > 4:
        # a value nested ever deeper in tuples is cut
        pass
    return atoms


def join(a, b):
    if a is b or a == b:
        return a
    if not a.atoms and not a.labels:
        return b
    if not b.atoms and not b.labels:
        return a
    return Val(widen(a.atoms | b.atoms), a.labels | b.labels)


def joinall(vs):
    r = BOT
    for v in vs:
        r = join(r, v)
    return r


def tupdepth(v):
    d = 0
    for a in v.atoms:
        if isinstance(a, Tup):
            d = max(d, 1 + max([tupdepth(x) for x in a.items] or [0]))
    return d


class Abort(Exception):
    """The current expression cannot complete normally (a callee never returns)."""


# ----------------------------------------------------------------------------------------------
# state

class State:
    __slots__ = ('env',)

    def __init__(self, env):
        self.env = env

    def copy(self):
        return State(dict(self.env))


def join_state(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = dict(a.env)
    for k, v in b.env.items():
        if k in env:
            env[k] = join(env[k], v)
        else:
            env[k] = v
    return State(env)


def states_equal(a, b):
    if a is None or b is None:
        return a is b
    return a.env == b.env


class Frame:
    def __init__(self, interp, fn, key, cs):
        self.interp = interp
        self.fn = fn
        self.key = key
        self.cs = cs
        self.ret = BOT
        self.yields = BOT
        self.yends = []           # has something been yielded at each return?
        self.raises = {}          # class name -> set of nodes
        self.guards = []          # [(test node, polarity, labels)]
        self.cls = fn.cls if fn is not None else None
        self.module = fn.module if fn is not None else None
        self.globals_ = set()
        self.try_stack = []       # for every enclosing try: joined state so far
        self.loops = []
        self.part = None
        self.recv = None


class Result:
    __slots__ = ('ret', 'returns', 'raises')

    def __init__(self, ret, returns, raises):
        self.ret, self.returns, self.raises = ret, returns, raises

    def __eq__(self, o):
        return isinstance(o, Result) and self.ret == o.ret and self.returns == o.returns and self.raises == o.raises
