"""Contract language used by specs/*.py.

A contract is a python function which (1) builds arbitrary inputs, (2) assumes the
precondition, (3) runs the *real* source of the function under contract through
the verification-condition generator, (4) states the postcondition with `ensure`.
"""
import z3
from . import prover as P
from .values import *
from .values import norm_bool, Unsupported, SymRaise, Gone, Cx, Ext
from . import ops as O
from . import arrays as A
from .arrays import sym_array, as_dtype, Arr
from .state import ctx, Infeasible
from . import interp as I_
from . import npmodel as N_
from . import loops as L_

INTERP = I_.INTERP


class Contract:
    def __init__(self, name, fn, case, targets, opts):
        self.name, self.fn, self.case = name, fn, case
        self.targets, self.opts = targets, opts

    def run(self):
        if self.case is None:
            return self.fn()
        return self.fn(**self.case)


REG = []


def vc(name, *targets, cases=None, **opts):
    """register a contract; `targets` are the functions it puts under contract"""
    def deco(fn):
        if cases is None:
            REG.append(Contract(name, fn, None, targets, opts))
        else:
            for c in cases:
                tag = ','.join('%s=%s' % (k, getattr(v, '__name__', v))
                               for k, v in c.items())
                REG.append(Contract('%s[%s]' % (name, tag), fn, c, targets, opts))
        return fn
    return deco


# ------------------------------------------------------------------- inputs
def dim(name, lo=1, hi=2**31 - 1):
    n = z3.Int(name)
    ctx.assume(n >= lo)
    if hi is not None:
        ctx.assume(n <= hi)
    return n


def integer(name, lo=None, hi=None):
    n = z3.Int(name)
    if lo is not None:
        ctx.assume(zi(n) >= zi(lo))
    if hi is not None:
        ctx.assume(zi(n) < zi(hi))
    return n


def index(name, n, lo=0):
    """an arbitrary index in [lo, n)"""
    i = z3.Int(name)
    ctx.assume(z3.And(zi(lo) <= i, i < zi(n)))
    return i


def real(name):
    return z3.Real(name)


def boolean(name):
    return z3.Bool(name)


def assume(c):
    ctx.assume(c)


INPUTS = []           # arrays built by the running contract, with their contents
MUTED = [False]       # postconditions are not of interest (used by frame contracts)


def arr(name, shape, dtype='float64', ext=False):
    a = sym_array(name, tuple(shape), dtype, ext=ext)
    INPUTS.append((name, a, a.snap()))
    return a


# -------------------------------------------------------------------- calls
def fn(q):
    m, name = q.split(':')
    last = name.split('.')[-1]
    if last.startswith('_') and not last.endswith('__') and not INTERP.defines(m, name):
        raise Gone(q)
    return INTERP.func(q)


def call(q, *a, **kw):
    f = fn(q) if isinstance(q, str) else q
    with code(q if isinstance(q, str) else getattr(q, 'qual', '?')):
        return INTERP.call(f, list(a), kw)


def get(o, name):
    """attribute of an object of the code (its properties run)"""
    with code(name):
        return INTERP.getattr(o, name)


def put(o, name, v):
    with code(name):
        return INTERP.setattr(o, name, v)


def method(o, name, *a, **kw):
    return call(get(o, name), *a, **kw)


class code:
    """the real code runs inside (its side conditions become obligations)"""
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.q, ctx.quiet = ctx.quiet, 0
        ctx.func = self.name

    def __exit__(self, *a):
        ctx.quiet = self.q
        return False


def ensure(name, goal):
    """postcondition: must hold at this point of every path"""
    if MUTED[0]:
        return
    ctx.node = None
    q, ctx.quiet = ctx.quiet, 0
    ctx.oblige(name, goal)
    ctx.quiet = q


def raises(thunk, cls=None):
    """run thunk; -> exception class name or None"""
    try:
        thunk()
    except SymRaise as e:
        return e.cls
    return None


def at(a, *idx):
    """cell of an array (no bounds obligation)"""
    return a.at(*idx)


def eq(a, b):
    return O.same(a, b)


def implies(a, b):
    return b_implies(norm_bool(a), norm_bool(b))


def both(*xs):
    return b_and(*[norm_bool(x) for x in xs])


def either(*xs):
    return b_or(*[norm_bool(x) for x in xs])


def no(x):
    return b_not(norm_bool(x))


def shape_is(a, *shape):
    if len(a.shape) != len(shape):
        return False
    return b_and(*[O.same(x, y) for x, y in zip(a.shape, shape)])


def every(decl, fact):
    """assume `fact` of every application of an input function (e.g. array cells)"""
    key = (decl, fact.__code__.co_filename, fact.__code__.co_firstlineno)
    if key in P.EVERY:
        return
    P.EVERY.add(key)
    old = P.DECL_FACTS.get(decl)
    if old is None:
        P.DECL_FACTS[decl] = fact
    else:
        P.DECL_FACTS[decl] = lambda x: z3.And(zb(old(x)), zb(fact(x)))


def user_function(src, module='ssqueezepy.utils.backend', **names):
    """a function value of the calling program (python source of a lambda)"""
    import ast
    node = ast.parse(src, mode='eval').body
    env = I_.Env(INTERP.module(module))
    env.vars.update(names)
    return INTERP.eval(node, env)
