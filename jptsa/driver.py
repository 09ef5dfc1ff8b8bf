"""Abstract harnesses: client code of the public API that the interpreter analyses symbolically.

The text below is never executed by Python; it is interpreted abstractly with unknown inputs
(FLOAT, INT, STR, BOOLV, FRAME ... stand for every value of that type).
"""
import ast
import sys

from .absint import *
from .interp import Interp
from .program import AnalysisBroken, FuncRef, Module, Program

SETUP = '''
from jpt.variables import (NumericVariable, SymbolicVariable, IntegerVariable, VariableMap, LabelAssignment, ValueAssignment,
                           Variable, infer_from_dataframe)
from jpt.distributions.univariate import (Numeric, ScaledNumeric, NumericType, Multinomial, SymbolicType, Bool, Integer, IntegerType)
from jpt.distributions.univariate.distribution import Distribution
from jpt.trees import JPT, Leaf, DecisionNode, Node
from jpt.base.intervals import ContinuousSet, RealSet
from jpt.base.errors import Unsatisfiability
from jpt.base.functions import PiecewiseFunction
from jpt.distributions.quantile.quantiles import QuantileDistribution


def make_num():
    return NumericVariable('num', Numeric, min_impurity_improvement=FLOAT, blur=FLOAT, max_std=FLOAT, precision=FLOAT)

def make_sca():
    return NumericVariable('sca', NumericType('ScaType', FLOATS), min_impurity_improvement=FLOAT, blur=FLOAT, max_std=FLOAT, precision=FLOAT)

def make_sym():
    return SymbolicVariable('sym', SymbolicType('SymType', STRS), min_impurity_improvement=FLOAT, invert_impurity=BOOLV)

def make_int():
    return IntegerVariable('int', IntegerType('IntType', INT, INT), min_impurity_improvement=FLOAT)

def make_vars():
    return [make_num(), make_sca(), make_sym(), make_int()]

def new_tree(variables):
    return JPT(variables=variables, targets=TARGETS, features=FEATURES, min_samples_leaf=MSL, min_impurity_improvement=FLOAT,
               max_leaves=INT, max_depth=INT)

def learn_tree(tree):
    return tree.learn(data=FRAME, keep_samples=BOOLV)
'''


class World:
    """Interpreter + the client module."""

    def __init__(self, root, text=SETUP, globals_=None):
        self.p = Program(root)
        self.i = Interp(self.p)
        self.add_module('client', text, globals_)

    def add_module(self, name, text, globals_=None):
        tree = ast.parse(text)
        m = Module(name, '/client/%s.py' % name, tree, 'py')
        m.rel = '<%s>' % name
        for n in ast.walk(tree):
            n._mod = m
        self.p.modules[name] = m
        self.gl = globals_ or {}

    def load(self):
        for m in list(self.p.modules):
            self.i.load_module(m)
        env = self.i.modenv['client']
        for k, v in self.gl.items():
            env[k] = v

    def client(self, name):
        return self.i.modenv['client'][name]

    def call(self, name, *args, **kw):
        """call a client function; -> value or None when it cannot return"""
        fr = Frame(self.i, None, ('client', name), None)
        fr.module = self.p.modules['client']
        try:
            r = self.i.call(self.client(name), list(args), kw, None, fr)
        except Abort:
            r = None
        self.last_raises = fr.raises
        return r


def prim_values(I, phase='input'):
    """The unknown inputs of the client programs."""
    ph, I.phase = I.phase, phase

    def lst(site, el, cls='list'):
        o = Obj('list', cls, ('input', site), phase, site)
        I.heap.setdefault(o, {})
        I.write(o, 'elem', el)
        I.write(o, '?ne', TRUE)
        return Val([o])
    fr = Obj('ext', 'DataFrame', ('input', 'FRAME'), phase, 'FRAME')
    I.heap.setdefault(fr, {})
    I.write(fr, 'elem', O('any'))
    nd = Obj('ndarray', 'ndarray', ('input', 'NDARR'), phase, 'NDARR')
    I.heap.setdefault(nd, {})
    I.write(nd, 'elem', O('any'))
    g = dict(FLOAT=O('float'), INT=O('int'), STR=O('str'), BOOLV=BOOL, FLOATS=lst('FLOATS', O('float')), STRS=lst('STRS', O('str')),
             FRAME=Val([fr]), NDARR=Val([nd]), TARGETS=NONE, FEATURES=NONE, MSL=Val([Opaque('int'), Opaque('float')]),
             pick=Val([Ext('client.pick')]))
    I.phase = ph
    return g


class Session:
    """A learned abstract model, and queries on it."""

    def __init__(self, root, extra='', splitparts=False, **gl):
        from . import clients
        sys.setrecursionlimit(30000)
        self.w = World(root, SETUP + clients.QUERIES + clients.DISTS + extra)
        self.i = self.w.i
        self.i.splitparts = splitparts
        self.w.gl = prim_values(self.i)
        self.w.gl.update(gl)
        self.w.load()

    def learn(self):
        def th():
            self.i.phase = 'learn'
            v = self.w.call('make_vars')
            t = self.w.call('new_tree', v)
            self.w.call('learn_tree', t)
            return t
        self.tree = self.i.run(th, max_iter=15)
        if self.tree is None or getattr(self.i, 'unstable', False):
            raise AnalysisBroken('the abstract learning run does not return')
        return self.tree

    def query(self, *names, phase='query', args=None, max_iter=15):
        out = {}

        def th():
            for n in names:
                self.i.phase = phase
                out[n] = self.w.call(n, *(args if args is not None else [self.tree]))
                self.i.raises_of = getattr(self.i, 'raises_of', {})
                self.i.raises_of[n] = dict(self.w.last_raises)
            return out
        return self.i.run(th, max_iter=max_iter)
