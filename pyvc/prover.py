"""Proof back end: z3 (with cvc5 as second opinion on demand) plus

  * lazily instantiated axioms for the uninterpreted scalar functions,
  * `Functional` terms -- finite sums, extrema, FFTs of lines, searches -- kept as
    uninterpreted applications whose *defining closures* are recorded; two
    applications are identified only after their closures were proved pointwise
    equal (congruence), sums additionally by linearity,
  * polynomial normalisation (sympy) for identities of rational functions.
"""
import time
import itertools
from fractions import Fraction
import z3
from .values import (b_and, b_not, b_or, zb, zr, is_z3, Unsupported, norm_bool,
                     z3ify, components, Cx, Ext)

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()

UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in UF:
        UF[k] = z3.Function(name, *sorts)
    return UF[k]


DECL_FACTS = {}          # declaration name -> (app -> Bool) assumed for every app


_DEEP = {}


def deep_names(t):
    """declaration names occurring in `t`, inside functional closures too"""
    out = set()
    for x in consts_of(t).values():
        n = x.decl().name()
        out.add(n)
        if n in RECORDS:
            if n not in _DEEP:
                r = RECORDS[n]
                acc = set()
                for b in r.body[0] + r.body[1] + [q for bd in r.bounds for q in bd[1:]]:
                    acc |= deep_names(b)
                _DEEP[n] = acc
            out |= _DEEP[n]
    return out


def rewrite_apps(t, match, fn):
    """replace every application x with match(decl name) by fn(x), also inside the
    closures of functionals (which are rebuilt)"""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][0]
        r = x
        if z3.is_quantifier(x):
            if any(match(n) for n in deep_names(x)):
                raise Unsupported('recurrence under a quantifier')
        elif z3.is_app(x):
            n = x.decl().name()
            if n in RECORDS and any(match(m) for m in deep_names(x)):
                kind, tag, vs, los, his, body, ext = instantiate(x)
                r = functional(kind, [(v, go(l), go(h)) for v, l, h in
                                      zip(vs, los, his)], [go(b) for b in body],
                               x.sort(), tag, [go(e) for e in ext])
            else:
                ch = x.children()
                nch = [go(c) for c in ch]
                if any(not a.eq(b) for a, b in zip(ch, nch)):
                    r = x.decl()(*nch)
                if match(n):
                    r = fn(r)
        memo[k] = (r, x)
        return r
    return go(t)


def uf_real(name, *args):
    return uf(name, *([R] * (len(args) + 1)))(*[zr(a) for a in args])


rnd = uf('rnd', R, I)            # round half to even
log2 = uf('log2', R, R)
cabs = uf('cabs', R, R, R)

_counter = itertools.count()


def reset_names():
    global _counter
    _counter = itertools.count()


def fresh(prefix, sort=I):
    return z3.Const('%s!%d' % (prefix, next(_counter)), sort)


def bindvar(hint='i'):
    return fresh('ix!' + hint, I)


def consts_of(t, acc=None, seen=None):
    """all uninterpreted constants and applications in a term"""
    acc = {} if acc is None else acc
    stack = [t]
    seen = set() if seen is None else seen
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[k] = x
            stack.extend(x.children())
    return acc


def free_bindables(*ts):
    out = {}
    seen = set()
    acc = {}
    for t in ts:
        consts_of(t, acc, seen)
    for k, x in acc.items():
        if x.num_args() == 0:
            n = x.decl().name()
            if n.startswith('ix!') or n.startswith('rd!') or n.startswith('bvc!'):
                out[k] = x
    return sorted(out.values(), key=lambda x: x.decl().name())


def contains(t, consts):
    ids = {c.get_id() for c in consts}
    acc = consts_of(t)
    return any(k in ids for k in acc)


# ------------------------------------------------------------- functionals
class Record:
    def __init__(self, kind, fvs, bounds, body, sort, tag):
        self.kind, self.fvs, self.bounds, self.body = kind, fvs, bounds, body
        self.sort, self.tag = sort, tag


RECORDS = {}
_CACHE = {}


def reset_functionals():
    RECORDS.clear()
    _DEEP.clear()
    DECL_FACTS.clear()
    EVERY.clear()
    _CACHE.clear()
    KEEP.clear()
    _ABS.clear()
    _FV.clear()


KEEP = []


EVERY = set()


def functional(kind, bounds, body, sort=R, tag='', extra=()):
    """kind: name; bounds: [(var, lo, hi)] (var ranges over lo <= var < hi);
    body: list of z3 terms (guard first where relevant); extra: scalar args."""
    vs = [b[0] for b in bounds]
    canon = [z3.Const('bvc!%d' % i, I) for i in range(len(vs))]
    # canonical variables may already occur free (nested construction): shift
    sub = list(zip(vs, canon))
    body = [z3ify(t) for t in body]
    body = [z3.simplify(t) for t in body]
    los = [z3.simplify(z3ify(b[1])) for b in bounds]
    his = [z3.simplify(z3ify(b[2])) for b in bounds]
    ext = [z3.simplify(z3ify(e)) for e in extra]
    if any(contains(t, canon) for t in body + los + his + ext):
        ren = [(c, fresh('ix!c', I)) for c in canon]
        raise Unsupported('canonical bound variable captured')
    body_c = [z3.substitute(t, *sub) if sub else t for t in body]
    los_c = [z3.substitute(t, *sub) if sub else t for t in los]
    his_c = [z3.substitute(t, *sub) if sub else t for t in his]
    fvs = [v for v in free_bindables(*(body + los + his + ext))
           if not any(v.eq(w) for w in vs)]
    # canonicalise free variables as well so that records are parametric
    pfv = [z3.Const('pfv!%d!%s' % (i, v.sort().name()), v.sort())
           for i, v in enumerate(fvs)]
    psub = list(zip(fvs, pfv))

    def P(t):
        return z3.substitute(t, *psub) if psub else t
    body_p = [P(t) for t in body_c]
    los_p, his_p, ext_p = ([P(t) for t in los_c], [P(t) for t in his_c],
                           [P(t) for t in ext])
    key = (kind, tag, sort.name(), tuple(t.get_id() for t in body_p),
           tuple(t.get_id() for t in los_p), tuple(t.get_id() for t in his_p),
           tuple(t.get_id() for t in ext_p),
           tuple(v.sort().name() for v in fvs))
    if key not in _CACHE:
        name = '%s#%d' % (kind, len(RECORDS))
        dom = [v.sort() for v in fvs]
        decl = (z3.Function(name, *dom, sort) if dom else
                z3.Const(name, sort).decl())
        RECORDS[name] = Record(kind, pfv, list(zip(canon, los_p, his_p)),
                               (body_p, ext_p), sort, tag)
        KEEP.append((body_p, los_p, his_p, ext_p))
        _CACHE[key] = decl
    decl = _CACHE[key]
    return decl(*fvs)


def instantiate(app):
    """Record of `app` with parameters substituted and fresh bound variables:
    returns (kind, tag, vars, los, his, body, extra)"""
    r = RECORDS[app.decl().name()]
    fresh_vs = [bindvar('b') for _ in r.bounds]
    sub = [(p, app.arg(i)) for i, p in enumerate(r.fvs)]
    sub += [(b[0], v) for b, v in zip(r.bounds, fresh_vs)]

    def S(t):
        return z3.substitute(t, *sub) if sub else t
    body, ext = r.body
    return (r.kind, r.tag, fresh_vs, [S(b[1]) for b in r.bounds],
            [S(b[2]) for b in r.bounds], [S(t) for t in body], [S(t) for t in ext])


def small(t, cap=150):
    """fewer than cap nodes (as a tree)"""
    todo, n = [t], 0
    while todo:
        n += 1
        if n > cap:
            return False
        todo += todo.pop().children()
    return True


def functional_apps(*ts):
    acc, seen = {}, set()
    for t in ts:
        consts_of(t, acc, seen)
    return [x for x in acc.values() if x.decl().name() in RECORDS and not free_vars(x)]


def has_uf(t):
    """applications of exp, log, powers or other named functions"""
    acc = {}
    consts_of(t, acc, set())
    return any(x.num_args() for x in acc.values())


def nesting(t, lim=6):
    """how deep functionals occur inside bodies of functionals"""
    if lim == 0 or not is_z3(t):
        return 0
    acc = {}
    consts_of(t, acc, set())
    return max([1 + max([nesting(b, lim - 1) for b in RECORDS[x.decl().name()].body[0]] or [0])
                for x in acc.values() if x.decl().name() in RECORDS] or [0])


# ------------------------------------------------------------- axioms
def _ln(n, t, pos):
    """logarithm of a power, product or quotient, given that the terms in pos are positive"""
    k, name = t.decl().kind(), t.decl().name()
    if name == 'exp' and n == 'log' or name == 'pow2' and n == 'log2':
        return t.arg(0)
    if name == 'powr':
        return t.arg(1) * _ln(n, t.arg(0), pos)
    if k == z3.Z3_OP_DIV:
        return _ln(n, t.arg(0), pos) - _ln(n, t.arg(1), pos)
    if k == z3.Z3_OP_MUL:
        return z3.Sum([_ln(n, c, pos) for c in t.children()])
    pos.append(t > 0)
    return z3.Function(n, z3.RealSort(), z3.RealSort())(t)


def axioms_for(terms):
    acc, seen = {}, set()
    for t in terms:
        consts_of(t, acc, seen)
    ax = []
    logs = []
    mono = {}
    for x in list(acc.values()):
        n = x.decl().name()
        if x.num_args() == 0:
            continue
        if free_vars(x):            # below a quantifier
            continue
        if n in DECL_FACTS:
            ax.append(DECL_FACTS[n](x))
        if n == 'rnd':
            a = x.arg(0)
            d = a - z3.ToReal(x)
            half = z3.RealVal(Fraction(1, 2))
            ax.append(d <= half)
            ax.append(-half <= d)
            ax.append(z3.Implies(z3.Or(d == half, d == -half), x % 2 == 0))
        elif n == 'cabs':
            re, im = x.arg(0), x.arg(1)
            ax.append(x >= 0)
            ax.append((x == 0) == z3.And(re == 0, im == 0))
            ax.append(z3.Implies(z3.Not(z3.And(re == 0, im == 0)),
                                 re * re + im * im > 0))
        elif n in ('log2', 'log', 'log10'):
            mono.setdefault(n, []).append(x)
            ax.append(z3.Implies(x.arg(0) > 0, z3.And((x.arg(0) == 1) == (x == 0),
                                                      (x.arg(0) > 1) == (x > 0))))
            a = x.arg(0)
            a = z3.simplify(a)
            if z3.is_rational_value(a) and a.numerator_as_long() > 0:
                # the interpreter folds logarithms of constants the same way
                import math
                ax.append(x == z3.RealVal(Fraction(getattr(math, n)(float(a.as_fraction())))))
            if z3.is_app(a) and a.decl().name() == 'pow2' and n == 'log2':
                ax.append(x == a.arg(0))
            if z3.is_app(a) and a.decl().name() == 'exp' and n == 'log':
                ax.append(x == a.arg(0))
            if z3.is_app(a) and a.decl().name() == 'powr':
                pos = []
                v = _ln(n, a, pos)
                ax.append(z3.Implies(z3.And(pos), x == v))
        elif n in ('exp', 'pow2'):
            ax.append(x > 0)
            mono.setdefault(n, []).append(x)
            ax.append(z3.And((x.arg(0) == 0) == (x == 1), (x.arg(0) > 0) == (x > 1)))
        elif n == 'sqrt':
            ax.append(x >= 0)
            ax.append(z3.Implies(x.arg(0) >= 0, x * x == x.arg(0)))
        elif n == 'powr':
            a, b = x.arg(0), x.arg(1)
            ax.append(z3.Implies(a > 0, x > 0))
            ax.append(z3.Implies(b == 0, x == 1))
            ax.append(z3.Implies(b == 1, x == a))
            ax.append(z3.Implies(a == 1, x == 1))
            mono.setdefault('powr', []).append(x)
        elif n == 'gamma' and x.num_args() == 1:
            ax.append(z3.Implies(x.arg(0) > 0, x > 0))
        elif n in ('cos', 'sin'):
            ax.append(z3.And(x >= -1, x <= 1))
            ax.append(z3.Implies(x.arg(0) == 0, x == (1 if n == 'cos' else 0)))
    for n, xs in mono.items():
        if n == 'powr':
            for a, b in itertools.combinations(xs, 2):
                if a.arg(0).eq(b.arg(0)):
                    u, v, w = a.arg(1), b.arg(1), a.arg(0)
                    ax.append(z3.Implies(w > 1, z3.And((u < v) == (a < b), (v < u) == (b < a))))
                    ax.append(z3.Implies(z3.And(w < 1, w > 0), z3.And(
                        (u < v) == (a > b), (v < u) == (b > a))))
                elif a.arg(1).eq(b.arg(1)):
                    u, v, w = a.arg(0), b.arg(0), a.arg(1)
                    ax.append(z3.Implies(z3.And(w > 0, u > 0, v > 0), z3.And(
                        (u < v) == (a < b), (v < u) == (b < a))))
            continue
        for a, b in itertools.combinations(xs, 2):
            u, v = a.arg(0), b.arg(0)
            if n.startswith('log'):
                g = z3.And(u > 0, v > 0)
                ax.append(z3.Implies(z3.And(g, u < v), a < b))
                ax.append(z3.Implies(z3.And(g, v < u), b < a))
            else:
                ax.append(z3.Implies(u < v, a < b))
                ax.append(z3.Implies(v < u, b < a))
    # extrema: instance-wise defining axioms are added by extremum_axioms
    return ax


_LIN = {}


def is_linear(t):
    """no product / quotient of two non-numerals"""
    k0 = t.get_id()
    if k0 in _LIN and _LIN[k0][0].eq(t):
        return _LIN[k0][1]
    stack, seen, ok = [t], set(), True
    while stack and ok:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            ok = False
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL:
                if sum(not (z3.is_rational_value(c) or z3.is_int_value(c))
                       for c in x.children()) > 1:
                    ok = False
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER):
                d = x.arg(1)
                if not (z3.is_rational_value(d) or z3.is_int_value(d)):
                    ok = False
            stack.extend(x.children())
    _LIN[k0] = (t, ok)
    return ok


_ABS = {}


def abstract_nl(t):
    """products, quotients and powers of non-numerals as uninterpreted functions:
    what is proved of the abstraction holds of the arithmetic (congruence only)"""
    k0 = t.get_id()
    if k0 in _ABS:
        return _ABS[k0][0]
    r = t
    if z3.is_quantifier(t):
        pass
    elif z3.is_app(t) and t.num_args():
        ch = [abstract_nl(c) for c in t.children()]
        k = t.decl().kind()
        num = lambda c: z3.is_rational_value(c) or z3.is_int_value(c)
        fs = [c for c in ch if not num(c)]
        if k == z3.Z3_OP_MUL and len(fs) > 1:
            fs.sort(key=lambda c: c.get_id())
            so = t.sort()
            p = fs[0]
            for q in fs[1:]:
                p = uf('nl!mul' + so.name(), so, so, so)(p, q)
            for c in ch:
                if num(c):
                    p = c * p
            r = p
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not num(ch[1]) \
                or k == z3.Z3_OP_POWER:
            so = t.sort()
            r = uf('nl!%d%s%s' % (k, so.name(), ch[0].sort().name()),
                   ch[0].sort(), ch[1].sort(), so)(*ch)
        elif any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = t.decl()(*ch)
    _ABS[k0] = (r, t)
    return r


def has_quant(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def sign_axioms(terms):
    """sign rules of the abstracted products and quotients"""
    acc, seen = {}, set()
    for t in terms:
        consts_of(t, acc, seen)
    ax = []
    for x in acc.values():
        n = x.decl().name()
        if n.startswith('nl!mul') and x.num_args() == 2:
            a, b = x.arg(0), x.arg(1)
            if a.eq(b):
                ax += [x >= 0, (x == 0) == (a == 0)]
                continue
        elif n.startswith('nl!%d' % z3.Z3_OP_DIV):
            a, b = x.arg(0), x.arg(1)
            ax.append(z3.Implies(z3.And(b != 0, a == b), x == 1))
            ax.append(z3.Implies(z3.And(b > 0, 0 <= a, a <= b), x <= 1))
        else:
            continue
        ok = b != 0 if not n.startswith('nl!mul') else z3.BoolVal(True)
        ax += [z3.Implies(z3.And(a > 0, b > 0), x > 0), z3.Implies(z3.And(a < 0, b < 0), x > 0),
               z3.Implies(z3.And(a > 0, b < 0), x < 0), z3.Implies(z3.And(a < 0, b > 0), x < 0),
               z3.Implies(z3.And(ok, z3.Or(a == 0, b == 0)), x == 0)]
    return ax


def index_terms(terms, cap=14):
    """integer terms used as arguments (candidate instances)"""
    acc, seen = {}, set()
    for t in terms:
        consts_of(t, acc, seen)
    out = {}
    for x in acc.values():
        if x.num_args() == 0:
            if x.sort() == I and x.decl().name() not in RECORDS:
                out[x.get_id()] = x
        for c in x.children():
            if c.sort() == I and not z3.is_int_value(c) and not free_vars(c):
                out[c.get_id()] = c
    return list(out.values())[:cap]


_FV = {}


def free_vars(t):
    k = t.get_id()
    if k not in _FV:
        _FV[k] = (_free_vars(t), t)
    return _FV[k][0]


def _free_vars(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        stack.extend(x.children())
    return False


def has_strong(terms):
    acc, seen = {}, set()
    for t in terms:
        if is_z3_(t):
            consts_of(t, acc, seen)
    return any(x.decl().name() == 'cabs' for x in acc.values())


def is_z3_(t):
    return isinstance(t, z3.ExprRef)


def strong_axioms(terms):
    """nonlinear facts, only used when a first attempt fails"""
    acc, seen = {}, set()
    for t in terms:
        consts_of(t, acc, seen)
    ax = []
    for x in acc.values():
        if x.decl().name() == 'cabs' and x.num_args() == 2:
            re, im = x.arg(0), x.arg(1)
            ax.append(x * x == re * re + im * im)
    return ax


def extremum_axioms(apps, terms):
    """amin/amax/argmin/argmax/last/first over one bound variable: the defining
    property instantiated at the candidate indices occurring in the query."""
    ax = []
    cand = None
    for x in apps:
        kind = RECORDS[x.decl().name()].kind
        if kind[:4] in ('amin', 'amax', 'argm') and cand is None:
            cand = index_terms(terms)
        if kind in ('amin', 'amax', 'argmin', 'argmax', 'argminl', 'argmaxl',
                    'last', 'first', 'exists'):
            kind, tag, vs, los, his, body, ext = instantiate(x)
            if len(vs) != 1:
                continue
            v, lo, hi = vs[0], los[0], his[0]

            def at(k, t):
                return z3.substitute(t, (v, k))
            if kind.startswith('arg'):
                # argmin / argmax: least extremal index; ...l: greatest one
                f = body[0]
                mn = kind.startswith('argmin')
                le = (lambda a, b: a <= b) if mn else (lambda a, b: a >= b)
                lt = (lambda a, b: a < b) if mn else (lambda a, b: a > b)
                ax.append(z3.Implies(lo < hi, z3.And(lo <= x, x < hi)))
                q = fresh('qv', I)
                ax.append(z3.ForAll([q], z3.Implies(
                    z3.And(lo <= q, q < hi),
                    z3.And(le(at(x, f), at(q, f)),
                           z3.Implies(q > x if kind.endswith('l') else q < x,
                                      lt(at(x, f), at(q, f)))))))
                for c in cand:
                    if not c.eq(x):
                        ax.append(z3.Implies(z3.And(lo <= c, c < hi), le(at(x, f), at(c, f))))
            elif kind in ('amin', 'amax'):
                f = body[0]
                le = (lambda a, b: a <= b) if kind == 'amin' else (lambda a, b: a >= b)
                w = functional('arg' + kind[1:], [(v, lo, hi)], [f], I, tag)
                ax.append(z3.Implies(lo < hi, z3.And(lo <= w, w < hi, x == at(w, f))))
                q = fresh('qv', I)
                ax.append(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi),
                                                    le(x, at(q, f)))))
                ends = [lo, hi - 1] if z3.is_int_value(lo) and z3.is_int_value(hi) else []
                for c in cand + [z3.simplify(e) for e in ends]:
                    ax.append(z3.Implies(z3.And(lo <= c, c < hi), le(x, at(c, f))))
            elif kind in ('last', 'first'):
                g = body[0]
                # x = greatest / least index with guard, lo-1 / hi when none
                none = (lo - 1) if kind == 'last' else hi
                q = fresh('qv', I)
                rng = z3.And(lo <= q, q < hi)
                beyond = (q > x) if kind == 'last' else (q < x)
                ax.append(z3.Or(x == none, z3.And(lo <= x, x < hi, at(x, g))))
                ax.append(z3.ForAll([q], z3.Implies(z3.And(rng, beyond),
                                                    z3.Not(at(q, g)))))
            elif kind == 'exists':
                g = body[0]
                q = fresh('qv', I)
                ax.append(x == z3.Exists([q], z3.And(lo <= q, q < hi, at(q, g))))
    return ax


def sorting_axioms(apps, terms):
    """searchsorted: its place between two neighbours; argsort: a permutation which sorts,
    instantiated at the positions and the indices occurring in the query"""
    ax, groups = [], []
    kinds = [(x, RECORDS[x.decl().name()].kind) for x in apps]
    if not any(k.startswith(('argsort', 'searchsorted')) for _, k in kinds):
        return ax
    for x, kind in kinds:           # places may themselves be given by other places
        if kind.startswith(('argsort', 'searchsorted')):
            for y in functional_apps(*instantiate(x)[6]):
                if not any(y.eq(z) for z, _ in kinds):
                    kinds.append((y, RECORDS[y.decl().name()].kind))
    for x, kind in kinds:
        if kind.startswith('searchsorted'):
            kind, tag, (v,), (lo,), (hi,), body, (a,) = instantiate(x)
            at = lambda k: z3.substitute(body[0], (v, k))
            left = kind.endswith('left')
            ax += [lo <= x, x <= hi,
                   z3.Implies(x > lo, at(x - 1) < a if left else at(x - 1) <= a),
                   z3.Implies(x < hi, at(x) >= a if left else at(x) > a)]
    seen = functional_apps(*ax, *[x for x, _ in kinds])
    cand = None
    for x in seen:
        if RECORDS[x.decl().name()].kind != 'argsort':
            continue
        kind, tag, (v,), (lo,), (hi,), body, (j,) = instantiate(x)
        w = z3.Const('bvc!sort', I)
        b = z3.simplify(z3.substitute(body[0], (v, w)))
        for g in groups:
            if g[0].eq(b) and g[1].eq(lo) and g[2].eq(hi):
                break
        else:
            g = (b, lo, hi, [])
            groups.append(g)
            if cand is None:
                cand = [c for c in index_terms(terms) if not functional_apps(c)]
            for c in cand:
                r = functional('rank', [(v, lo, hi)], body, I, '', [c])
                g[3].append((r, c))
                ax.append(z3.Implies(z3.And(lo <= c, c < hi), z3.And(lo <= r, r < hi)))
        g[3].append((j, x))
        ax.append(z3.Implies(z3.And(lo <= j, j < hi), z3.And(lo <= x, x < hi)))
    for b, lo, hi, js in groups:
        f = lambda k: z3.substitute(b, (z3.Const('bvc!sort', I), k))
        for j, x in js:
            for k, y in js:
                if not (j.eq(k) and x.eq(y)):
                    inside = [z3.And(lo <= t, t < hi) for t in (j, k, x, y)]
                    ax.append(z3.Implies(z3.And(*inside, j <= k), f(x) <= f(y)))
                    ax.append(z3.Implies(z3.And(*inside), (j == k) == (x == y)))
    return ax


# ------------------------------------------------------------- the prover
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.backend = {}

    def count(self, name):
        self.backend[name] = self.backend.get(name, 0) + 1


def limited(timeout):
    """a solver that gives up after a deterministic amount of work (about `timeout`
    ms on an idle core); the clock is only a safety net, so that the outcome does
    not depend on the load of the machine"""
    s = z3.Solver()
    s.set('timeout', int(4 * timeout))
    s.set('rlimit', int(2500 * timeout))
    return s


class Prover:
    def __init__(self, timeout_ms=4000):
        self.timeout = timeout_ms
        self.stats = Stats()
        self._memo = {}
        self._keep = []
        self.deadline = None
        self.strong = False
        self.focus = []

    # -- raw z3 query: are `assumptions` and not goal unsatisfiable?
    def _z3(self, assumptions, goal, timeout, extra_axioms=True, abstract=False):
        t0 = time.time()
        s = limited(timeout)
        terms = list(assumptions) + [goal]
        if extra_axioms:
            ax = axioms_for(terms)
            apps = functional_apps(*terms)
            if self.strong:
                ax = ax + strong_axioms(terms)
            ea = extremum_axioms(apps, terms) + sorting_axioms(apps, terms)
            if ea:
                ax = ax + ea + axioms_for(ea)
            for a in ax:
                s.add(a)
        for a in assumptions:
            s.add(a)
        s.add(z3.Not(goal))
        if abstract:
            fs = list(s.assertions())
            s = limited(timeout)
            fs = [abstract_nl(f) for f in fs if not has_quant(f)]
            for f in fs + sign_axioms(fs):
                s.add(f)
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'refuted', s.model()
        return 'unknown', None

    def feasible(self, assumptions, timeout=700):
        """may the path be taken?  (unknown counts as yes)"""
        r, _ = self._z3(assumptions, z3.BoolVal(False), timeout)
        return r != 'proved'

    def entails(self, assumptions, goal, timeout=1200):
        goal = norm_bool(goal)
        if isinstance(goal, bool):
            return goal or (not self.feasible(assumptions, timeout))
        key = (tuple(a.get_id() for a in assumptions), goal.get_id())
        if key in self._memo:
            return self._memo[key]
        self._keep.append((assumptions, goal))
        r, _ = self._z3(assumptions, goal, timeout)
        self._memo[key] = (r == 'proved')
        return self._memo[key]

    def prove(self, assumptions, goal, depth=3, timeout=None):
        r = self._prove(assumptions, goal, depth, timeout)
        if r[0] != 'proved' and not self.strong and depth >= 3 and \
                has_strong(list(assumptions) + [goal]):
            self.strong = True
            try:
                r2 = self._prove(assumptions, goal, depth, timeout)
            finally:
                self.strong = False
            if r2[0] == 'proved':
                return r2
        if r[0] != 'proved' and depth == 3 and nesting(goal) >= 3:
            r2 = self._prove(assumptions, goal, 4, timeout)
            if r2[0] == 'proved':
                return r2
        return r

    def _prove(self, assumptions, goal, depth=3, timeout=None):
        """-> (status, info); status in proved / refuted / unknown"""
        timeout = timeout or self.timeout
        assumptions = [zb(a) for a in assumptions if a is not True]
        goal = norm_bool(goal)
        if goal is True:
            self.stats.count('syntactic')
            return 'proved', 'syntactic'
        if goal is False:
            r, m = self._z3(assumptions, z3.BoolVal(False), timeout)
            if r == 'proved':
                self.stats.count('z3')
                return 'proved', 'z3'
            return ('refuted' if r == 'refuted' else 'unknown'), m
        # split conjunctions
        if z3.is_and(goal):
            for g in goal.children():
                r, info = self.prove(assumptions, g, depth, timeout)
                if r != 'proved':
                    return r, info
            return 'proved', 'z3'
        if z3.is_implies(goal):
            return self.prove(assumptions + [goal.arg(0)], goal.arg(1), depth, timeout)
        g2 = z3.simplify(goal)
        if z3.is_true(g2):
            self.stats.count('syntactic')
            return 'proved', 'syntactic'
        if z3.is_eq(goal) and goal.arg(0).sort() == R and self._sum_exact(goal):
            self.stats.count('sum-linearity')
            return 'proved', 'sum-linearity'
        lin_goal = is_linear(goal)
        if not lin_goal:
            r, m = self._z3(assumptions, goal, 1500, abstract=True)
            if r == 'proved':
                self.stats.count('z3')
                return 'proved', 'z3'
            if z3.is_eq(goal) and goal.arg(0).sort() == R and not functional_apps(goal) and \
                    has_uf(goal) and self._poly(assumptions, goal):
                self.stats.count('poly')
                return 'proved', 'polynomial'
        r, m = self._z3(assumptions, goal, min(timeout, 2500))
        if r == 'proved':
            self.stats.count('z3')
            return 'proved', 'z3'
        last = (r, m)
        if r == 'unknown' and z3.is_not(goal) and z3.is_eq(goal.arg(0)) and goal.arg(0).arg(0).sort() == R:
            a, b = goal.arg(0).children()
            if self._nonzero(assumptions, a - b):
                self.stats.count('poly')
                return 'proved', 'polynomial'
        if r == 'unknown' and is_linear(goal):
            lin = [a for a in assumptions if is_linear(a)]
            if len(lin) < len(assumptions):
                r2, _ = self._z3(lin, goal, 2500)
                if r2 == 'proved':
                    self.stats.count('z3')
                    return 'proved', 'z3'
        if depth <= 0:
            return last
        # case split on the conditions of if-then-elses around functionals
        if functional_apps(goal):
            cond = self._ite_cond(goal)
            if cond is not None:
                self.focus.append(cond)
                try:
                    for c in (cond, z3.Not(cond)):
                        g3 = z3.simplify(z3.substitute(
                            goal, (cond, z3.BoolVal(c is cond))))
                        r1, i1 = self.prove(assumptions + [c], g3, depth, timeout)
                        if r1 != 'proved':
                            return r1, i1
                finally:
                    self.focus.pop()
                return 'proved', 'split'
        # sums of equal bounds: linearity before pairwise congruence
        sums = z3.is_eq(goal) and goal.arg(0).sort() == R and any(
            RECORDS[a.decl().name()].kind == 'sum' for a in functional_apps(goal))
        if sums and self._sum_linear(assumptions, goal, depth, quick=True):
            self.stats.count('sum-linearity')
            return 'proved', 'sum-linearity'
        # congruence of functionals
        eqs = self._congruences(assumptions, goal, depth)
        if eqs:
            if not lin_goal:
                r, m = self._z3(assumptions + eqs, goal, 1500, abstract=True)
                if r == 'proved':
                    self.stats.count('z3+congruence')
                    return 'proved', 'congruence'
            r, m = self._z3(assumptions + eqs, goal, timeout)
            if r == 'proved':
                self.stats.count('z3+congruence')
                return 'proved', 'congruence'
            last = (r, m)
        if z3.is_eq(goal) and goal.arg(0).sort() == R:
            if self._sum_linear(assumptions + eqs, goal, depth):
                self.stats.count('sum-linearity')
                return 'proved', 'sum-linearity'
            if self._poly(assumptions, goal):
                self.stats.count('poly')
                return 'proved', 'polynomial'
        if timeout > 2500:
            r, m = self._z3(assumptions + eqs, goal, timeout)
            if r == 'proved':
                self.stats.count('z3')
                return 'proved', 'z3'
            last = (r, m)
        return last

    # -- find an if condition (free of bound canonical vars) in the goal
    def _ite_cond(self, goal):
        stack, seen = [goal], set()
        while stack:
            x = stack.pop(0)
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE and not z3.is_true(x.arg(0)):
                    return x.arg(0)
                stack.extend(x.children())
        return None

    def _congruences(self, assumptions, goal, depth):
        apps = functional_apps(goal, *assumptions)
        # conditions split on are part of the goal
        gapps = {a.get_id() for a in functional_apps(goal, *self.focus)}
        eqs = []
        by = {}
        for a in apps:
            rec = RECORDS[a.decl().name()]
            by.setdefault((rec.kind, rec.tag, rec.sort.name(), len(rec.bounds),
                           len(rec.body[0]), len(rec.body[1])), []).append(a)
        for grp in by.values():
            if len(grp) < 2:
                continue
            reps = []
            for a in grp:
                for b in reps:
                    if a.get_id() not in gapps and b.get_id() not in gapps:
                        continue
                    if self.congruent(assumptions + eqs, a, b, depth - 1):
                        eqs.append(a == b)
                        break
                else:
                    reps.append(a)
        return eqs

    def congruent(self, assumptions, a, b, depth):
        """prove two functional applications equal from their closures"""
        if a.eq(b):
            return True
        ka, ta, va, la, ha, ba, ea = instantiate(a)
        kb, tb, vb, lb, hb, bb, eb = instantiate(b)
        if ka != kb or ta != tb or len(va) != len(vb):
            return False
        if len(ea) != len(eb):
            return False
        for x, y in list(zip(la, lb)) + list(zip(ha, hb)) + list(zip(ea, eb)):
            if x.eq(y):
                continue
            r, _ = self.prove(assumptions, x == y, depth, 1500)
            if r != 'proved':
                return False
        perms = [list(range(len(vb)))]
        for p in perms:
            sub = [(vb[p[i]], va[i]) for i in range(len(va))]
            bb2 = [z3.substitute(t, *sub) if sub else t for t in bb]
            rng = [z3.And(l <= v, v < h) for v, l, h in zip(va, la, ha)]
            ok = True
            for x, y in zip(ba, bb2):
                if x.eq(y):
                    continue
                r, _ = self.prove(assumptions + rng, x == y, depth, 3000)
                if r != 'proved':
                    ok = False
                    break
            if ok:
                return True
        return False

    # -- linearity of finite sums
    def _linearize(self, t):
        """t -> dict(app id -> (app, coef)), rest"""
        t = z3.simplify(t, som=False)
        k = t.decl().kind() if z3.is_app(t) else None
        name = t.decl().name() if z3.is_app(t) else ''
        zero = z3.RealVal(0)
        if name in RECORDS and RECORDS[name].kind == 'sum':
            return {t.get_id(): (t, z3.RealVal(1))}, zero
        if not any(RECORDS[a.decl().name()].kind == 'sum'
                   for a in functional_apps(t)):
            return {}, t
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            out, rest = {}, zero
            for i, c in enumerate(t.children()):
                sgn = -1 if (k == z3.Z3_OP_SUB and i > 0) else 1
                d, r = self._linearize(c)
                if d is None:
                    return None, None
                for kk, (a, co) in d.items():
                    co = sgn * co
                    out[kk] = (a, out[kk][1] + co) if kk in out else (a, co)
                rest = rest + sgn * r
            return out, rest
        if k == z3.Z3_OP_UMINUS:
            d, r = self._linearize(t.arg(0))
            if d is None:
                return None, None
            return {kk: (a, -c) for kk, (a, c) in d.items()}, -r
        if k == z3.Z3_OP_MUL:
            lin = [c for c in t.children()
                   if any(RECORDS[a.decl().name()].kind == 'sum'
                          for a in functional_apps(c))]
            if len(lin) != 1:
                return None, None
            co = z3.RealVal(1)
            for c in t.children():
                if not c.eq(lin[0]):
                    co = co * c
            d, r = self._linearize(lin[0])
            if d is None:
                return None, None
            return {kk: (a, c * co) for kk, (a, c) in d.items()}, r * co
        if k == z3.Z3_OP_DIV:
            if any(RECORDS[a.decl().name()].kind == 'sum'
                   for a in functional_apps(t.arg(1))):
                return None, None
            d, r = self._linearize(t.arg(0))
            if d is None:
                return None, None
            return {kk: (a, c / t.arg(1)) for kk, (a, c) in d.items()}, r / t.arg(1)
        return None, None

    def _sum_exact(self, goal):
        """sums over the same range whose terms cancel as they are written"""
        if not any(RECORDS[a.decl().name()].kind == 'sum' for a in functional_apps(goal)):
            return False
        d, rest = self._linearize(goal.arg(0) - goal.arg(1))
        if not d or len(d) < 2 or len(d) > 6:
            return False
        groups = []
        for a, co in d.values():
            _, _, vs, los, his, body, _ = instantiate(a)
            for gvs, glos, ghis, terms in groups:
                if len(gvs) == len(vs) and all(
                        x.eq(y) for x, y in zip(los + his, glos + ghis)):
                    terms.append(z3.substitute(body[0], *zip(vs, gvs)) * co)
                    break
            else:
                groups.append((vs, los, his, [body[0] * co]))
        null = lambda t: (lambda z: z3.is_rational_value(z) and z.numerator_as_long() == 0)(
            z3.simplify(t, som=True))
        return null(rest) and all(len(g[3]) > 1 and all(small(t, 400) for t in g[3]) and
                                  null(z3.Sum(g[3])) for g in groups)

    def _sum_linear(self, assumptions, goal, depth, quick=False):
        d, rest = self._linearize(goal.arg(0) - goal.arg(1))
        if not d or (quick and len(d) > 4):
            return False
        insts = [(instantiate(a), co) for a, co in d.values()]
        # group by provably equal bounds
        groups = []
        for inst, co in insts:
            kind, tag, vs, los, his, body, ext = inst
            for g in groups:
                gvs, glos, ghis, terms = g
                if len(gvs) != len(vs):
                    continue
                if all(x.eq(y) or self.prove(assumptions, x == y, 1, 1500)[0] == 'proved'
                       for x, y in zip(list(los) + list(his), list(glos) + list(ghis))):
                    sub = list(zip(vs, gvs))
                    terms.append((z3.substitute(body[0], *sub), co))
                    break
            else:
                groups.append((vs, los, his, [(body[0], co)]))
        r, _ = self.prove(assumptions, rest == 0, 1, 2000)
        if r != 'proved':
            return False
        for vs, los, his, terms in groups:
            tot = z3.RealVal(0)
            for b, co in terms:
                tot = tot + co * b
            rng = [z3.And(l <= v, v < h) for v, l, h in zip(vs, los, his)]
            r, _ = self.prove(assumptions + rng, tot == 0, 0 if quick else depth - 1,
                              2500 if quick else 4000)
            if r != 'proved':
                return False
        return True

    # -- rational identities by polynomial normal form
    def _poly(self, assumptions, goal):
        import sympy
        atoms = {}
        conds = []
        memo = {}
        known, apps, busy = {}, {}, set()

        def is_app(t):
            return (z3.is_app(t) and t.num_args() > 0 and t.sort() == R and
                    t.decl().kind() == z3.Z3_OP_UNINTERPRETED and
                    t.decl().name() not in RECORDS)

        def facts(a):
            if z3.is_and(a):
                for c in a.children():
                    facts(c)
            elif z3.is_eq(a):
                x, y = a.arg(0), a.arg(1)
                if is_app(x):
                    known.setdefault(x.decl().name(), []).append((x, y))
                elif is_app(y):
                    known.setdefault(y.decl().name(), []).append((y, x))
        for a in assumptions:
            if z3.is_expr(a):
                facts(a)

        def zero(e):
            if e == 0:
                return True
            num, _ = sympy.fraction(sympy.together(e))
            return sympy.expand(num) == 0

        def same_args(x, y):
            return all(a.eq(b) or (a.sort() == b.sort() and a.sort() in (R, I) and
                                   zero(conv(a) - conv(b)))
                       for a, b in zip(x.children(), y.children()))

        def uf_atom(t):
            """applications with equal arguments are one atom; known values replace them"""
            n = t.decl().name()
            for x, y in known.get(n, ()):
                if x.get_id() not in busy and same_args(x, t):
                    busy.add(x.get_id())
                    try:
                        return conv(y)
                    finally:
                        busy.discard(x.get_id())
            for x, sym in apps.get(n, ()):
                if same_args(x, t):
                    return sym
            sym = sympy.Symbol('f%d_%s' % (sum(map(len, apps.values())), n))
            apps.setdefault(n, []).append((t, sym))
            return sym

        def conv(t):
            k = t.get_id()
            if k in memo and not busy:
                return memo[k]
            r = conv_(t)
            if not busy:
                memo[k] = r
            return r

        def conv_(t):
            if z3.is_rational_value(t):
                return sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
            if z3.is_int_value(t):
                return sympy.Integer(t.as_long())
            k = t.decl().kind() if z3.is_app(t) else None
            if k == z3.Z3_OP_ADD:
                return sympy.Add(*[conv(c) for c in t.children()])
            if k == z3.Z3_OP_SUB:
                cs = [conv(c) for c in t.children()]
                return cs[0] - sympy.Add(*cs[1:])
            if k == z3.Z3_OP_MUL:
                return sympy.Mul(*[conv(c) for c in t.children()])
            if k == z3.Z3_OP_UMINUS:
                return -conv(t.arg(0))
            if k == z3.Z3_OP_DIV:
                conds.append(t.arg(1))
                return conv(t.arg(0)) / conv(t.arg(1))
            if k == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(t.arg(1))):
                return conv(t.arg(0)) ** z3.simplify(t.arg(1)).as_long()
            if k == z3.Z3_OP_TO_REAL:
                return conv(t.arg(0))
            if k == z3.Z3_OP_ITE:
                r = self.entails(assumptions, t.arg(0))
                if r:
                    return conv(t.arg(1))
                if self.entails(assumptions, z3.Not(t.arg(0))):
                    return conv(t.arg(2))
            if is_app(t):
                return uf_atom(t)
            kk = t.get_id()
            if kk not in atoms:
                atoms[kk] = (sympy.Symbol('a%d' % len(atoms)), t)
            return atoms[kk][0]
        try:
            if not zero(conv(goal.arg(0)) - conv(goal.arg(1))):
                return False
        except Exception:
            return False
        for c in conds:
            if z3.is_rational_value(c):
                continue
            r, _ = self._z3(assumptions, c != 0, 500)
            if r != 'proved' and not self._nonzero(assumptions, c):
                return False
        return True

    # -- a rational expression other than zero, factor by factor
    def _nonzero(self, assumptions, t):
        import sympy
        atoms, back, divs = {}, {}, []

        def conv(t):
            if z3.is_rational_value(t):
                return sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
            if z3.is_int_value(t):
                return sympy.Integer(t.as_long())
            k = t.decl().kind() if z3.is_app(t) else None
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                cs = [conv(c) for c in t.children()]
                if k == z3.Z3_OP_ADD:
                    return sympy.Add(*cs)
                if k == z3.Z3_OP_MUL:
                    return sympy.Mul(*cs)
                return -cs[0] if k == z3.Z3_OP_UMINUS else cs[0] - sympy.Add(*cs[1:])
            if k == z3.Z3_OP_DIV:
                d = conv(t.arg(1))
                if not d.is_Rational:
                    divs.append(d)
                return conv(t.arg(0)) / d
            if t.get_id() not in atoms:
                s = sympy.Symbol('a%d' % len(atoms))
                atoms[t.get_id()] = s
                back[s] = z3.ToReal(t) if t.sort() == I else t
            return atoms[t.get_id()]

        def small(a):
            n, st = 0, [a]
            while st:
                u = st.pop()
                n += 1
                if n > 40 or z3.is_quantifier(u):
                    return False
                if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(u.arg(1)):
                    return False
                st.extend(u.children())
            return True

        def z(e):
            if e.is_Rational:
                return z3.RealVal(Fraction(int(e.p), int(e.q)))
            if e.is_Symbol:
                return back[e]
            if e.is_Add:
                return z3.Sum([z(c) for c in e.args])
            if e.is_Mul:
                return z3.Product([z(c) for c in e.args])
            if e.is_Pow and e.exp.is_Integer and e.exp > 0:
                return z3.Product([z(e.base)] * int(e.exp))
            raise ValueError
        few = [a for a in assumptions if z3.is_expr(a) and small(a)]
        try:
            todo = [conv(t)] + divs
            done = set()
            for e in todo:
                num, _ = sympy.fraction(sympy.together(e))
                k, fs = sympy.factor_list(num)
                if k == 0:
                    return False
                for f, _ in fs:
                    if f in done:
                        continue
                    done.add(f)
                    r, _ = self._z3(few, z(f) != 0, 2500)
                    if r != 'proved':
                        return False
            return True
        except Exception:
            return False
