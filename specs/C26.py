"""C26  Test signals follow their stated frequency laws.

The frequency law of a chirp is stated as: the derivative (by the rules of differentiation)
of the phase its function returns is the angular frequency it reports.
Powers are read as a**b = exp(b ln a)."""
from .common import *

S = 'ssqueezepy._test_signals:'
T_ = S + 'TestSignals.'


# ------------------------------------------------------------ mathematics
def ln(t):
    """logarithm of a positive term made of products, quotients, powers and exponentials"""
    t = z3.simplify(t) if not z3.is_app(t) else t
    k, n = t.decl().kind(), t.decl().name()
    if n == 'exp':
        return t.arg(0)
    if n == 'powr':
        return t.arg(1) * ln(t.arg(0))
    if k == z3.Z3_OP_DIV:
        return ln(t.arg(0)) - ln(t.arg(1))
    if k == z3.Z3_OP_MUL:
        return z3.Sum([ln(c) for c in t.children()])
    if k == z3.Z3_OP_POWER:
        return t.arg(1) * ln(t.arg(0))
    return P.uf('log', P.R, P.R)(t)


def powers(t, memo=None):
    """t with every power written exp(b ln a)"""
    memo = {} if memo is None else memo
    if t.get_id() in memo:
        return memo[t.get_id()][1]
    r = t
    if z3.is_app(t) and t.num_args():
        cs = [powers(c, memo) for c in t.children()]
        n = t.decl().name()
        if n == 'powr':
            r = P.uf('exp', P.R, P.R)(cs[1] * ln(cs[0]))
        elif n == 'log':
            r = ln(cs[0])
        else:
            r = t.decl()(*cs)
    memo[t.get_id()] = (t, r)
    return r


def derivative(t, x):
    """d t / d x"""
    if t.eq(x):
        return z3.RealVal(1)
    if not contains(t, x):
        return z3.RealVal(0)
    k, n = t.decl().kind(), t.decl().name()
    c = t.children()
    d = lambda u: derivative(u, x)
    if k == z3.Z3_OP_ADD:
        return z3.Sum([d(u) for u in c])
    if k == z3.Z3_OP_SUB:
        return d(c[0]) - z3.Sum([d(u) for u in c[1:]])
    if k == z3.Z3_OP_UMINUS:
        return -d(c[0])
    if k == z3.Z3_OP_MUL:
        return z3.Sum([z3.Product([d(u) if j == i else u for j, u in enumerate(c)]) for i in range(len(c))
                       if contains(c[i], x)])
    if k == z3.Z3_OP_DIV:
        return (d(c[0]) * c[1] - c[0] * d(c[1])) / (c[1] * c[1])
    if k == z3.Z3_OP_POWER and z3.is_int_value(c[1]) or z3.is_rational_value(c[1] if len(c) > 1 else t):
        return c[1] * c[0] ** (c[1] - 1) * d(c[0])
    if n == 'exp':
        return t * d(c[0])
    raise AssertionError('derivative of ' + n)


def general(terms, x, num, den):
    """the terms with their greatest subterms free of x replaced by constants (equal ones by the
    same); divisors, +- num / den, stay other than zero"""
    new, div = [], []

    def go(t):
        if not contains(t, x):
            if z3.is_rational_value(t) or z3.is_int_value(t):
                return t
            for u, c in new:
                if u.eq(t):
                    return c
            c = z3.FreshConst(t.sort(), 'c')
            new.append((t, c))
            return c
        if t.eq(x):
            return t
        r = t.decl()(*[go(c) for c in t.children()])
        if t.decl().kind() == z3.Z3_OP_DIV:
            div.extend(zip(factors(t.arg(1)), factors(r.arg(1))))
        return r
    out = [go(t) for t in terms]
    ensure('positive', num > 0)
    done = []
    for a, b in div:
        if not contains(a, x) or any(a.eq(c) for c in done):
            continue
        done.append(a)
        sg = sign_of(a * den / num)
        ensure('divisor', eq(a * den, sg * num))
        ensure('divisor is not zero', a != 0)
        assume(b != 0)
    return out


def factors(t):
    if t.decl().kind() == z3.Z3_OP_MUL:
        return [f for c in t.children() for f in factors(c)]
    return [t]


def sign_of(t):
    """sign of a term at some numbers (a guess; what it is used for is proved)"""
    vs, seen, st = [], set(), [t]
    while st:
        u = st.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            vs.append(u)
        else:
            st.extend(u.children())
    at = {'tmin': 0, 'tmax': 4, 'p_fmin': 2, 'p_fmax': 3}
    r = z3.simplify(z3.substitute(t, *[(v, z3.RealVal(at.get(v.decl().name(), 1))) for v in vs
                                       if v.sort() == z3.RealSort()]))
    return -1 if z3.is_rational_value(r) and r.as_fraction() < 0 else 1


def contains(t, x):
    seen, st = set(), [t]
    while st:
        u = st.pop()
        if u.eq(x):
            return True
        if u.get_id() not in seen:
            seen.add(u.get_id())
            st.extend(u.children())
    return False


def value(v):
    """element of an array that has to be finite"""
    if isinstance(v, Ext):
        seen, st = set(), [c for c in (v.pinf, v.ninf, v.nan) if z3.is_expr(c)]
        while st:
            c = st.pop()
            if z3.is_eq(c):
                if c.get_id() not in seen:
                    ensure('divisor is not zero', no(c))
                seen.add(c.get_id())
            else:
                st.extend(c.children())
        ensure('finite', no(either(v.pinf, v.ninf, v.nan)))
        return zr(v.val)
    return zr(v)


# ----------------------------------------------------------------- chirps
def bound(name, kind):
    """a frequency: any (of the linear kinds), or any positive one"""
    if kind == 'echirp':
        u = real('u_' + name)
        return P.uf('exp', P.R, P.R)(u), u
    if kind == 'hchirp':
        p = real('p_' + name)
        assume(p > 0)
        return O.mul(p, p), p
    f = real(name)
    return f, f


def law(kind, tmin, tmax, f0, f1, u0, u1, t):
    """frequency at t, between f0 at tmin and f1 at tmax"""
    if kind == 'lchirp':
        return f0 + (f1 - f0) * (t - tmin) / (tmax - tmin)
    if kind == 'echirp':            # in logarithms
        return u0 + (u1 - u0) * (t - tmin) / (tmax - tmin)
    e = P.uf('exp', P.R, P.R)
    if kind == 'echirp_pc':
        return f0 + (f1 - f0) * (e(t) - e(tmin)) / (e(tmax) - e(tmin))


def ordered(tmin, tmax):
    assume(tmin < tmax)


@vc('laws', *[T_ + '_%s_fn' % k for k in ('lchirp', 'echirp', 'hchirp', 'echirp_pc')],
    cases=[dict(kind=k) for k in ('lchirp', 'echirp', 'hchirp', 'echirp_pc')], timeout=20000)
def laws(kind):
    n = dim('n')
    t = arr('t', (n,))
    tmin, tmax = real('tmin'), real('tmax')
    ordered(tmin, tmax)
    f0, u0 = bound('fmin', kind)
    f1, u1 = bound('fmax', kind)
    if kind in ('echirp', 'hchirp'):
        assume(u0 != u1)
    if kind == 'hchirp':
        ensure('frequencies differ', u0 * u0 - u1 * u1 != 0)
    every('t', lambda v: z3.And(tmin <= v, v <= tmax))
    k = index('k', n)
    x = t.at(k)
    phi, w = call(T_ + '_%s_fn' % kind, object(), t, tmin, tmax, f0, f1, get_w=True)
    only = call(T_ + '_%s_fn' % kind, object(), t, tmin, tmax, f0, f1)
    ensure('shapes', both(shape_is(phi, n), shape_is(w, n), shape_is(only, n)))
    p, v = value(phi.at(k)), value(w.at(k))
    ensure('same phase', eq(value(only.at(k)), p))
    at = lambda e, y: z3.substitute(e, (x, zr(y)))
    p, v = powers(p), powers(v)
    # hyperbolic: 1 / sqrt(f) is a straight line
    line = (x - tmin) * u0 + (tmax - x) * u1
    if kind == 'hchirp':
        # the square root is exact: the frequencies are squares
        root = u0 * u0 * u0 * u1 * u1 * u1 * (tmax - tmin) * (tmax - tmin)
        p, v = roots(p, root), roots(v, root)
    p, v = z3.simplify(p), z3.simplify(v)
    ensure('phase starts at zero', eq(at(p, tmin), 0))
    gp, gv = general([p, v], x, line, u1 - u0) if kind == 'hchirp' else (p, v)
    ensure('reported frequency is the derivative of the phase', eq(derivative(gp, x), gv))
    two_pi = zr(TWO_PI)
    if kind in ('lchirp', 'echirp_pc'):
        y = law(kind, tmin, tmax, f0, f1, u0, u1, x)
        ensure('law', eq(v, two_pi * y))
        if kind == 'echirp_pc':
            e = P.uf('exp', P.R, P.R)
            ensure('fraction', both(e(x) >= e(tmin), e(x) <= e(tmax), e(tmin) < e(tmax)))
            c = real('c')
            assume(c * (e(tmax) - e(tmin)) == e(x) - e(tmin))
        else:
            c = real('c')
            assume(c * (tmax - tmin) == x - tmin)
        ensure('part', both(c >= 0, c <= 1))
        ensure('between', both(eq(y, f0 + (f1 - f0) * c), implies(f0 <= f1, both(f0 <= f0 + (f1 - f0) * c, f0 + (f1 - f0) * c <= f1)),
                               implies(f1 <= f0, both(f1 <= f0 + (f1 - f0) * c, f0 + (f1 - f0) * c <= f0))))
    elif kind == 'echirp':
        e = exponent(v)
        ensure('exponent', eq(e, law(kind, tmin, tmax, f0, f1, u0, u1, x)))
        c = real('c')
        assume(c * (tmax - tmin) == x - tmin)
        ensure('part', both(c >= 0, c <= 1))
        ensure('between', both(eq(e, u0 + (u1 - u0) * c), implies(u0 <= u1, both(u0 <= u0 + (u1 - u0) * c, u0 + (u1 - u0) * c <= u1)),
                               implies(u1 <= u0, both(u1 <= u0 + (u1 - u0) * c, u0 + (u1 - u0) * c <= u0))))
    else:
        ensure('law', eq(v * line * line, two_pi * (tmax - tmin) * (tmax - tmin) * u0 * u0 * u1 * u1))
        for a, b in ((u0, u1), (u1, u0)):
            ensure('between', implies(a <= b, both(a * (tmax - tmin) <= line, line <= b * (tmax - tmin))))


def exponent(v):
    """c of 2 pi exp(c)"""
    ks, es = [], []
    def go(t):
        if t.decl().kind() == z3.Z3_OP_MUL:
            for c in t.children():
                go(c)
        elif t.decl().name() == 'exp':
            es.append(t.arg(0))
        else:
            ks.append(t)
    go(v)
    ensure('factor', eq(z3.Product(ks), TWO_PI))
    return z3.Sum(es)


def roots(t, root):
    """t with its square roots replaced by the equal term"""
    out, seen, st = [], set(), [t]
    while st:
        u = st.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.decl().name() == 'sqrt':
            out.append(u)
        st.extend(u.children())
    for u in out:
        ensure('square root', eq(u.arg(0), root * root))
    return z3.substitute(t, *[(u, root) for u in out])


# ------------------------------------------------------- signals from laws
CHIRPS = ('lchirp', 'echirp', 'echirp_pc', 'hchirp')
PHI = lambda kind, *a: P.uf('phase!' + kind, *[P.R] * (len(a) + 1))(*map(zr, a))
FREQ = lambda kind, *a: P.uf('freq!' + kind, *[P.R] * (len(a) + 1))(*map(zr, a))


def phase_stub(kind):
    """contract of the phase functions above: a phase and a frequency of each time"""
    def f(self, t, tmin, tmax, fmin, fmax, get_w=False):
        s = t.snap()
        phi = A.new_arr(t.shape, 'float64', lambda i: PHI(kind, s(i), tmin, tmax, fmin, fmax))
        if not get_w:
            return phi
        return phi, A.new_arr(t.shape, 'float64', lambda i: FREQ(kind, s(i), tmin, tmax, fmin, fmax))
    INTERP.stubs[T_ + '_%s_fn' % kind] = f


def signals(**kw):
    kw.setdefault('warn_alias', False)
    return call(S + 'TestSignals', **kw)


def grid(tmin, tmax, n, endpoint):
    return lambda k: O.add(tmin, O.mul(O.sub(tmax, tmin), O.div(zr(k), zr(O.sub(n, 1) if endpoint else n), 'raw')))


def times(given):
    if not given:
        return 0, 1, {}
    tmin, tmax = real('tmin'), real('tmax')
    ordered(tmin, tmax)
    return tmin, tmax, dict(tmin=tmin, tmax=tmax)


def cosine(phi):
    return P.uf('cos', P.R, P.R)(zr(phi))


def sine(phi):
    return P.uf('sin', P.R, P.R)(zr(phi))


@vc('chirps', T_ + '_generate', T_ + '_process_params', S + '_t', *[T_ + k for k in CHIRPS],
    cases=[dict(kind=k, tgiven=t, end=e, top=h, own=o) for k in CHIRPS for t, e, h, o in (
        (True, True, True, False), (True, False, True, False), (False, None, False, False), (True, None, False, True),
        (False, False, True, False))])
def chirps(kind, tgiven, end, top, own):
    """x = cos(phase) on the requested grid, from fmin to fmax (half the length unless given)"""
    N = dim('N', 2)
    tmin, tmax, kw = times(tgiven)
    if end is not None:
        kw['endpoint'] = end
    f0, f1 = real('fmin'), real('fmax')
    if top:
        kw['fmax'] = f1
    else:
        f1 = O.floordiv(N, 2)
    phase_stub(kind)
    ts = signals(**(dict(N=N) if own else {}))
    x, t = method(ts, kind, None if own else N, fmin=f0, **kw)
    k = index('k', N)
    ensure('lengths', both(shape_is(x, N), shape_is(t, N)))
    g = grid(tmin, tmax, N, end is not False)
    ensure('time grid', eq(t.at(k), g(k)))
    ensure('cosine of the phase', eq(x.at(k), cosine(PHI(kind, t.at(k), tmin, tmax, f0, f1))))


@vc('automatic length', T_ + '_est_N_nonalias', T_ + '_process_params',
    cases=[dict(kind=k, up=u) for k in CHIRPS for u in (True, False)])
def automatic(kind, up):
    """the least length of which no step of the phase can exceed pi"""
    tmin, tmax, kw = times(True)
    f0, f1 = real('fmin'), real('fmax')
    assume(both(f0 >= 0, f1 >= 0, f0 < f1 if up else f1 < f0))
    phase_stub(kind)
    lo, hi = (f0, f1) if up else (f1, f0)
    P_ = zr(TWO_PI)
    # the laws (above): from f0 at tmin to f1 at tmax, in between in between
    a = (tmin, tmax, f0, f1)
    from pyvc.prover import DECL_FACTS
    DECL_FACTS['freq!' + kind] = lambda v: z3.Implies(
        z3.And(tmin <= v.arg(0), v.arg(0) <= tmax, *[v.arg(i + 1) == c for i, c in enumerate(a)]),
        z3.And(P_ * lo <= v, v <= P_ * hi, z3.Implies(v.arg(0) == tmin, v == P_ * f0),
               z3.Implies(v.arg(0) == tmax, v == P_ * f1)))
    x, t = method(signals(), kind, None, fmin=f0, fmax=f1, endpoint=True, **kw)
    n = t.shape[0]
    T = tmax - tmin
    ensure('lengths', both(shape_is(x, n), t.ndim == 1))
    ensure('does not alias', O.le(O.mul(O.mul(2, hi), T), O.sub(n, 1)))
    ensure('no longer than needed', O.lt(O.sub(n, 2), O.mul(O.mul(2, hi), T)))


# ------------------------------------------------ sinusoids and modulations
@vc('sinusoids', T_ + 'sine', T_ + 'cosine', T_ + 'am_sine', T_ + 'am_cosine',
    cases=[dict(kind=k, am=a, end=e, tgiven=t) for k in ('sine', 'cosine') for a in (False, True)
           for e, t in ((None, True), (True, True), (False, False))])
def sinusoids(kind, am, end, tgiven):
    N = dim('N', 2)
    tmin, tmax, kw = times(tgiven)
    if end is not None:
        kw['endpoint'] = end
    f, p = real('f'), real('phi0')
    wave = sine if kind == 'sine' else cosine
    k = index('k', N)
    if am:
        a, b = real('amin'), real('amax')
        x, t = method(signals(), 'am_' + kind, N, f=f, amin=a, amax=b, phi=p, **kw)
        want = lambda w: a + (b - a) * (w + 1) / 2
    else:
        x, t = method(signals(), kind, N, f=f, phi0=p, **kw)
        want = lambda w: w
    ensure('lengths', both(shape_is(x, N), shape_is(t, N)))
    ensure('time grid', eq(t.at(k), grid(tmin, tmax, N, bool(end))(k)))
    phase = z3.simplify(zr(O.add(O.mul(O.mul(TWO_PI, f), t.at(k)), p)))
    got = z3.simplify(zr(x.at(k)))
    ensure('wave', eq(got, want(wave(phase))))


@vc('modulations', T_ + 'am_exp', T_ + 'am_gauss', cases=[dict(kind=k) for k in ('am_exp', 'am_gauss')])
def modulations(kind):
    N = dim('N', 2)
    tmin, tmax, kw = times(kind == 'am_exp')
    a, b = real('amin'), real('amax')
    k = index('k', N)
    if kind == 'am_exp':
        # the frequency of an exponential chirp, in cycles
        phase_stub('echirp')
        x, t = method(signals(), kind, N, amin=a, amax=b, **kw)
        ensure('lengths', both(shape_is(x, N), shape_is(t, N)))
        ensure('time grid', eq(t.at(k), grid(tmin, tmax, N, True)(k)))
        ensure('modulation', eq(O.mul(x.at(k), TWO_PI), FREQ('echirp', t.at(k), tmin, tmax, a, b)))
        return
    assume(a <= b)
    x, t = method(signals(), kind, N, amin=a, amax=b)
    ensure('lengths', both(shape_is(x, N), shape_is(t, N)))
    ensure('time grid', eq(t.at(k), grid(-1, 1, N, False)(k)))
    # (sum of 0..N-1 = N (N - 1) / 2)
    assume(eq(N_.NP.mean(t), O.neg(O.div(1, N, 'raw'))))
    u = O.add(t.at(k), O.div(1, N, 'raw'))
    g = P.uf('exp', P.R, P.R)(zr(O.mul(-5, O.mul(u, u))))
    ensure('gaussian', eq(x.at(k), a + (b - a) * g))
    ensure('between', both(a <= x.at(k), x.at(k) <= b))


# ------------------------------------------------------------- compounds
def chirp_stub(kind, seen=None):
    """contract of the chirp methods: a signal that depends on length, bounds and times"""
    def f(self, N=None, fmin=None, fmax=None, **tkw):
        key = tuple(sorted(tkw))
        a = [zr(v) for v in (fmin, fmax) + tuple(tkw[k] for k in key)]
        x = A.new_arr((N,), 'float64', lambda i: SIG(kind, key, i, a))
        t = A.new_arr((N,), 'float64', lambda i: SIG('time', key, i, a[2:]))
        if seen is not None:
            seen.append((N, fmin, fmax, tkw))
        return x, t
    INTERP.stubs[T_ + kind] = f


def SIG(kind, key, i, a):
    return P.uf('signal!' + '!'.join((kind,) + key), P.I, *[P.R] * (len(a) + 1))(zi(i), *a)


BOUNDS = ('fmin1', 'fmax1', 'fmin2', 'fmax2')


@vc('parallel', *[T_ + 'par_' + k for k in CHIRPS if k != 'echirp_pc'],
    cases=[dict(kind=k, given=g) for k in ('lchirp', 'echirp', 'hchirp') for g in range(16)] +
          [dict(kind=k, given=15, own=True) for k in ('lchirp', 'echirp', 'hchirp')])
def parallel(kind, given, own=False):
    """sum of two chirps; bounds not given lie the same distance or ratio apart"""
    N = dim('N', 2)
    f = {n: real(n) for b, n in enumerate(BOUNDS) if given >> b & 1}
    tmin, tmax, kw = times(given % 2)
    chirp_stub(kind)
    ts = signals(**(dict(N=N) if own else {}))
    x, t = method(ts, 'par_' + kind, None if own else N, **f, **kw)
    r = dict(echirp=1.5, hchirp=3).get(kind)
    d = O.div(N, 10, 'raw')
    up = (lambda v: O.add(v, d)) if r is None else (lambda v: O.mul(v, r))
    dn = (lambda v: O.sub(v, d)) if r is None else (lambda v: O.div(v, r, 'raw'))
    half = O.div(N, 2, 'raw')
    a = f.get('fmin1', 0 if kind == 'lchirp' else 1)
    b = f.get('fmin2', up(a))
    if 'fmax1' in f:
        c = f['fmax1']
        e = f.get('fmax2', ite(O.le(up(c), half), up(c), half))
    else:
        e = f.get('fmax2', half)
        c = dn(e)
    k = index('k', N)
    key = tuple(sorted(kw))
    ts = [zr(kw[n]) for n in key]
    ensure('lengths', both(shape_is(x, N), shape_is(t, N)))
    ensure('sum of both', eq(x.at(k), O.add(SIG(kind, key, k, [zr(a), zr(c)] + ts), SIG(kind, key, k, [zr(b), zr(e)] + ts))))
    ensure('time', eq(t.at(k), SIG('time', key, k, ts)))


@vc('jumps', T_ + 'jumps', cases=[dict(n=n, end=e) for n in (None, 1, 2, 3, 5) for e in (None, False)])
def jumps(n, end):
    """one frequency after the other, each for the same number of samples"""
    m = n or 4
    N = dim('N', 2 * m)
    f = [real('f%d' % i) for i in range(m)] if n else None
    kw = {} if end is None else dict(endpoint=end)
    x, t = method(signals(), 'jumps', N, freqs=f, **kw)
    M = O.floordiv(N, m)
    if not n:
        f = [1, O.div(M, 4, 'raw'), O.div(M, 2, 'raw'), O.div(M, 16, 'raw')]
    L = O.mul(M, m)
    k = index('k', L)
    ensure('lengths', both(shape_is(x, L), shape_is(t, L)))
    ensure('time grid', eq(t.at(k), grid(0, m, L, end is None)(k)))
    ph = 0
    for i in reversed(range(m)):
        w = cosine(z3.simplify(zr(O.mul(O.mul(TWO_PI, f[i]), t.at(k)))))
        ph = w if i == m - 1 else ite(O.lt(k, O.mul(M, i + 1)), w, ph)
    ensure('jumps', eq(z3.simplify(zr(x.at(k))), ph))


@vc('packed', T_ + 'packed', cases=[dict(n=n, end=e) for n in (None, 1, 2, 3, 4) for e in (None, False)])
def packed(n, end):
    """bands over the first and last part of the time, in turn"""
    N = dim('N', 2)
    v = real('overlap')
    assume(both(v > 0, v <= 1, O.ge(O.mul(v, N), 1)))
    tmin, tmax, kw = times(True)
    if end is not None:
        kw['endpoint'] = end
    f = [real('f%d' % i) for i in range(n)] if n else None
    x, t = method(signals(), 'packed', N, freqs=f, overlap=v, **kw)
    if not n:
        q = lambda d: O.div(N, d, 'raw')
        f = [.5, 1, 2, q(10), O.add(q(10), q(50)), O.add(q(10), q(25)), q(5), q(4), q(3), O.add(q(3), q(10))]
    M = N_.NP.floor(O.mul(v, N))
    k = index('k', N)
    ensure('lengths', both(shape_is(x, N), shape_is(t, N)))
    ensure('time grid', eq(t.at(k), grid(tmin, tmax, N, end is None)(k)))
    want = 0
    for i, g in enumerate(f):
        w = cosine(z3.simplify(zr(O.mul(O.mul(TWO_PI, g), t.at(k)))))
        on = O.lt(k, M) if i % 2 == 0 else O.ge(k, O.sub(N, M))
        want = O.add(want, ite(on, w, 0))
    ensure('bands', eq(z3.simplify(zr(x.at(k))), want))


# --------------------------------------------------------------- by name
NAMED = [('lchirp', {}, {}), ('#lchirp', dict(fmin=2), {}), ('par-echirp', dict(fmin1=1), {}), ('jumps', {}, {}),
         ('lchirp:am-cosine', dict(fmin=2, endpoint=False), dict(f=3)),
         ('#hchirp:am-exp', dict(tmin=1, tmax=3), dict(amax=2)), ('am-sine', {}, {}), ('sine:am-cosine', {}, {}),
         ('sine:am-cosine', dict(f=5), dict(amin=.25)), ('echirp:am-gauss', dict(fmax=9), {}),
         ('echirp:am-sine', dict(tmin=0, tmax=2), dict(f=3, tmax=1)), ('lchirp:am-cosine', {}, dict(tmin=-1, endpoint=True))]


@vc('by name', T_ + 'make_signals', T_ + '_process_input',
    cases=[dict(i=i, pair=q, own=o) for i in range(len(NAMED)) for q, o in ((True, False), (False, True))
           if q or not NAMED[i][2]])
def by_name(i, pair, own):
    """carrier times modulator, reflected if so named; parameters passed take precedence"""
    name, fp, ap = NAMED[i]
    N = dim('N', 2)
    seen = {}

    def stub(m):
        def f(self, n=None, **kw):
            seen[m] = (n, kw)
            return (A.new_arr((n if n is not None else N,), 'float64', lambda j: P.uf('signal!' + m, P.I, P.R)(zi(j))),
                    A.new_arr((n if n is not None else N,), 'float64', lambda j: P.uf('time!' + m, P.I, P.R)(zi(j))))
        INTERP.stubs[T_ + m] = f
    for m in ('lchirp', 'echirp', 'hchirp', 'par_echirp', 'jumps', 'sine', 'cosine', 'am_sine', 'am_cosine', 'am_exp',
              'am_gauss'):
        stub(m)
    own_args = {'lchirp': dict(fmin=7, fmax=8), 'am-cosine': dict(amin=.75)}
    ts = signals(**(dict(N=N, default_args={k: dict(v) for k, v in own_args.items()}) if own else {}))
    defaults = {'cosine': dict(f=64, phi0=0), 'sine': dict(f=64, phi0=0), 'lchirp': dict(tmin=0, tmax=1, fmin=0, fmax=None),
                'echirp': dict(tmin=0, tmax=1, fmin=1, fmax=None), 'hchirp': dict(tmin=0, tmax=1, fmin=1, fmax=None),
                'am-cosine': dict(amin=.1), 'am-sine': dict(amin=.1), 'am-exp': dict(amin=.1), 'am-gauss': dict(amin=.01)}
    if own:
        defaults.update(own_args)
    fp0, ap0 = dict(fp), dict(ap)
    sig = (name, (fp, ap)) if pair and ap else (name, fp) if pair or fp else name
    data = call(get(ts, 'make_signals'), [sig], N, get_params=True)
    base = name.lstrip('#')
    car, _, mod = base.partition(':')
    if base.startswith('am-'):
        car, mod = 'cosine', base
    both_ = {'sine:am-cosine': (dict(f=16), dict(amin=.5))}.get(base)
    fd, ad = both_ or (defaults.get(car, {}), defaults.get(mod, {}))
    want_f = dict(fd, **fp0)
    want_a = dict(ad, **ap0)
    ensure('one signal', len(data) == 1)
    x, t, params = list(data.values())[0]
    c, m = car.replace('-', '_'), mod.replace('-', '_')
    ensure('carrier', both(c in seen, eq(seen[c][0], N)))
    ensure('parameters of the carrier', eq(seen[c][1], want_f))
    k = index('k', N)
    one = lambda j: O.mul(P.uf('signal!' + c, P.I, P.R)(zi(j)), P.uf('signal!' + m, P.I, P.R)(zi(j)) if m else 1)
    if m:
        times_ = {n: v for n, v in dict(want_f, **want_a).items() if n in ('tmin', 'tmax', 'endpoint')}
        ensure('parameters of the modulator', both(eq(seen[m][0], N), eq(seen[m][1], dict(want_a, **times_))))
    want = O.add(one(k), one(O.sub(O.sub(N, 1), k))) if name[0] == '#' else one(k)
    ensure('signal', both(shape_is(x, N), eq(x.at(k), want)))
    ensure('time', eq(t.at(k), P.uf('time!' + c, P.I, P.R)(k)))
    ensure('what was passed stays as it was', both(fp == fp0, ap == ap0))


@vc('unknown names', T_ + '_process_input', cases=[dict(s=s) for s in ('lchirps', 'lchirp:am', 5, None)] +
    [dict(s=[s]) for s in ('sine:am-cos', 3, ('lchirp', 3), ('lchirp', ({}, 2)), (1, {}))])
def unknown(s):
    try:
        call(get(signals(), 'make_signals'), s, dim('N', 2))
    except SymRaise as e:
        ensure('rejected', e.cls in ('TypeError', 'ValueError'))
        return
    ensure('rejected', False)
