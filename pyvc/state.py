"""Global verification context: path condition, obligations, branching oracle."""
import z3
from .values import *
from .values import norm_bool
from . import prover as P


class Obligation:
    __slots__ = ('name', 'func', 'pc', 'goal', 'status', 'info', 'where')

    def __init__(self, name, func, pc, goal, where=''):
        self.name, self.func, self.pc, self.goal = name, func, pc, goal
        self.status, self.info, self.where = None, None, where


class Infeasible(Exception):
    """the current path contradicts its path condition"""


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.prover = P.Prover()
        self.obligations = []
        self.begin_path()
        self.func = '?'
        self.quiet = 0            # >0: do not record obligations (spec evaluation)

    def begin_path(self):
        self.pc = []
        self.oracles = []         # stack of Oracle
        self.frames = []          # stack of symbolic loop frames
        self.bufs = []
        self.rdreg = {}
        self.frame_uid = 0
        self.node = None

    # --------------------------------------------------------------- facts
    def assume(self, c):
        c = norm_bool(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)

    def entails(self, c):
        c = norm_bool(c)
        if isinstance(c, bool):
            return c
        return self.prover.entails(list(self.pc), c)

    def simplify_cond(self, c):
        """decide a condition from the path condition when that is cheap"""
        c = norm_bool(c)
        if isinstance(c, bool):
            return c
        if self.prover.entails(list(self.pc), c):
            return True
        if self.prover.entails(list(self.pc), z3.Not(c)):
            return False
        return c

    # --------------------------------------------------------- obligations
    def oblige(self, name, goal):
        if self.quiet:
            return
        goal = norm_bool(goal)
        where = ''
        if self.node is not None and hasattr(self.node, 'lineno'):
            where = 'line %d' % self.node.lineno
        self.obligations.append(Obligation(name, self.func, list(self.pc), goal, where))
        # from here on the obligation may be assumed (it is proved separately)
        if not isinstance(goal, bool):
            self.pc.append(goal)

    # ------------------------------------------------------------ branching
    def branch(self, c):
        c = norm_bool(c)
        if isinstance(c, bool):
            return c
        if self.prover.entails(list(self.pc), c):
            return True
        if self.prover.entails(list(self.pc), z3.Not(c)):
            return False
        if not self.oracles:
            raise Unsupported('symbolic branch outside exploration')
        d = self.oracles[-1].decide()
        f = c if d else z3.Not(c)
        self.oracles[-1].conds.append(f)
        self.pc.append(f)
        return d


class Oracle:
    def __init__(self, prefix):
        self.prefix, self.pos, self.trace = prefix, 0, []
        self.conds = []
        self.alts = []

    def decide(self):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = True
            self.alts.append(self.trace + [False])
        self.pos += 1
        self.trace.append(d)
        return d


ctx = Ctx()
