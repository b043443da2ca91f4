"""C15  Ridge path: least total cost."""
from .common import *

R_ = 'ssqueezepy.ridge_extraction:'
F_, B_ = R_ + '_accumulated_penalty_energy_fw', R_ + '_accumulated_penalty_energy_bw'


@vc('fw', F_, R_ + '__accumulated_penalty_energy_fw', R_ + '__accumulated_penalty_energy_fwp',
    cases=[dict(par=p) for p in (False, True)])
def fw(par):
    M, N = dim('M'), dim('N')
    E, pen = arr('E', (M, N)), arr('pen', (M, M))
    P_, r = call(F_, E, pen, par)
    e0 = E.snap()
    f, g, t = index('f', M), index('g', M), index('t', N)
    ensure('shape', both(shape_is(P_, M, N), shape_is(r, N)))
    ensure('starts with the energy', eq(P_.at(f, 0), e0(f, 0)))
    ensure('one path per time', both(O.ge(r.at(t), 0), O.lt(r.at(t), M)))
    ensure('ends of the forward pass are least', O.le(P_.at(r.at(t), t), P_.at(f, t)))
    ensure('input unchanged', eq(E.at(f, t), e0(f, t)))
    if ctx.branch(t > 0):
        first = ctx.branch(t == 1)
        jump = lambda g: O.add(e0(g, 0) if first else P_.at(g, t - 1), pen.at(f, g))
        step = O.sub(P_.at(f, t), e0(f, t))
        ensure('cost-to-go at most every predecessor', O.le(step, jump(g)))
        q = P.bindvar('q')
        m = P.functional('amin', [(q, 0, M)], [zr(jump(q))])
        ensure('cost-to-go attained', eq(step, m))


@vc('bw', B_, R_ + '__accumulated_penalty_energy_bw', R_ + '__accumulated_penalty_energy_bwp',
    cases=[dict(par=p) for p in (False, True)])
def bw(par):
    M, N = dim('M'), dim('N')
    E, pen, pe = arr('E', (M, N)), arr('pen', (M, M)), arr('pe', (M, N))
    r0 = arr('r0', (N,), 'int64')
    every('r0', lambda x: z3.And(x >= 0, x < M))
    r00 = r0.snap()
    r = call(B_, E, pen, pe, r0, par)
    f, t = index('f', M), index('t', N)
    ensure('shape', shape_is(r, N))
    ensure('rows in range', both(O.ge(r.at(t), 0), O.lt(r.at(t), M)))
    ensure('last row kept', eq(r.at(N - 1), r00(N - 1)))
    if ctx.branch(t < N - 1):
        nxt = r.at(t + 1)
        cost = lambda g: O.add(pe.at(g, t), pen.at(nxt, g))
        ensure('best predecessor', O.le(cost(r.at(t)), cost(f)))


@vc('least cost path', 'lemma:dynamic programming', cases=[dict(part=p) for p in (
    'base', 'lower bound', 'attained', 'conclusion')])
def optimal(part):
    """Induction over time on the contracts of the two passes.  P: forward pass output,
    E: tracked energy, pen: jump penalty, r: returned path, q: any path,
    C(p, t): cost of path p up to time t."""
    M, N = dim('M'), dim('N')
    E = P.uf('E', P.I, P.I, P.R)
    pen = P.uf('pen', P.I, P.I, P.R)
    Pf = P.uf('P', P.I, P.I, P.R)
    r, q = P.uf('r', P.I, P.I), P.uf('q', P.I, P.I)
    Cr, Cq = P.uf('Cr', P.I, P.R), P.uf('Cq', P.I, P.R)
    t = integer('t', 0, N)
    f = z3.Int('f!')
    inr = lambda x: z3.And(x >= 0, x < M)
    for p in (r, q):
        assume(inr(p(t)))
        assume(inr(p(t + 1)))
    # contract of the forward pass at t + 1, of every predecessor
    least = z3.ForAll([f, z3.Int('g!')], z3.Implies(
        z3.And(inr(f), inr(z3.Int('g!'))),
        Pf(f, t + 1) - E(f, t + 1) <= Pf(z3.Int('g!'), t) + pen(f, z3.Int('g!'))))
    g1 = z3.Int('g1')
    attained = z3.And(inr(g1), Pf(r(t + 1), t + 1) - E(r(t + 1), t + 1) ==
                      Pf(g1, t) + pen(r(t + 1), g1))
    # contract of the backward pass at t
    best = z3.ForAll([f], z3.Implies(inr(f), Pf(r(t), t) + pen(r(t + 1), r(t)) <=
                                     Pf(f, t) + pen(r(t + 1), f)))
    cost = lambda C, p: C(t + 1) == C(t) + E(p(t + 1), t + 1) + pen(p(t + 1), p(t))
    if part == 'base':
        assume(z3.And(Pf(r(0), 0) == E(r(0), 0), Pf(q(0), 0) == E(q(0), 0)))
        assume(z3.And(Cr(0) == E(r(0), 0), Cq(0) == E(q(0), 0)))
        ensure('base', z3.And(Pf(q(0), 0) <= Cq(0), Pf(r(0), 0) == Cr(0)))
    elif part == 'lower bound':
        assume(z3.And(least, cost(Cq, q), Pf(q(t), t) <= Cq(t)))
        ensure('no path costs less than the forward cost', Pf(q(t + 1), t + 1) <= Cq(t + 1))
    elif part == 'attained':
        assume(z3.And(least, attained, best, cost(Cr, r), Pf(r(t), t) == Cr(t)))
        ensure('the returned path has the forward cost', Pf(r(t + 1), t + 1) == Cr(t + 1))
    else:
        n = zi(N) - 1
        assume(z3.And(inr(q(n)), inr(r(n))))
        assume(z3.ForAll([f], z3.Implies(inr(f), Pf(r(n), n) <= Pf(f, n))))
        assume(z3.And(Pf(q(n), n) <= Cq(n), Pf(r(n), n) == Cr(n)))
        ensure('least total cost', Cr(n) <= Cq(n))


def tracked(k, transform, params, dt, sc2, par):
    """extract_ridges with its two passes replaced by their contracts"""
    for q in (F_, B_):
        fn(q)
    M, N = dim('M', 2), dim('N')
    T = arr('Tf', (M, N), dt)
    s = arr('scales', (M, 1) if sc2 else (M,))
    every('scales', lambda x: x > 0)
    bw, penalty = integer('bw', 0, 2**31), real('penalty')
    T0, s0 = T.snap(), s.snap()
    scale = lambda i: s0(i, 0) if sc2 else s0(i)
    passes, paths = [], []

    def fw_(energy, pen, parallel):
        n = len(passes)
        P_ = arr('P%d' % n, (M, N))
        r = arr('rf%d' % n, (N,), 'int64')
        every('rf%d' % n, lambda x: z3.And(x >= 0, x < M))
        passes.append((energy.snap(), energy.shape, pen.snap(), pen.shape, P_, r))
        return P_, r

    def bw_(energy, pen, P_, r, parallel):
        n = len(paths)
        ensure('backward pass gets the forward result',
               P_ is passes[n][4] and r is passes[n][5])
        i, j, g = index('i', M), index('j', N), index('g', M)
        ensure('same energy in both passes', eq(at(energy, i, j), passes[n][0](i, j)))
        ensure('same penalty in both passes', eq(at(pen, i, g), passes[n][2](i, g)))
        o = arr('r%d' % n, (N,), 'int64')
        every('r%d' % n, lambda x: z3.And(x >= 0, x < M))
        paths.append(o.snap())
        return o
    INTERP.stubs[F_] = fw_
    INTERP.stubs[B_] = bw_
    out = call(R_ + 'extract_ridges', T, s, penalty, k, bw, transform, params, par)
    idx = out[0] if params else out
    f, g, t = index('f', M), index('g', M), index('t', N)
    ensure('one pass of each kind per ridge', len(passes) == k and len(paths) == k)
    ensure('shape', shape_is(idx, N, k))

    def energy(n):
        """energy when ridge n is searched"""
        def e(i, j):
            v = O.fabs(lift_cx(T0(i, j)))
            v = O.mul(v, v)
            for m in range(n):
                r = paths[m](j)
                v = ite(ctx.simplify_cond(both(O.ge(i, O.sub(r, bw)), O.lt(i, O.add(r, bw)))),
                        0.0, v)
            return v
        return e
    eps = 2.0**-52 if dt == 'complex128' else 2.0**-23
    lg = (lambda x: O.log_('log', x)) if transform == 'cwt' else (lambda x: x)
    return dict(out=out, idx=idx, f=f, g=g, t=t, M=M, N=N, passes=passes, paths=paths,
                energy=energy, eps=eps, lg=lg, scale=scale, penalty=penalty, bw=bw, T=T, T0=T0, s=s, s0=s0)


XC = [dict(k=k, transform=tr, params=True, dt=dt, sc2=False, par=p)
      for k, tr, dt, p in [(1, 'cwt', 'complex128', True), (2, 'cwt', 'complex64', False),
                           (2, 'stft', 'complex128', True), (3, 'cwt', 'complex128', False)]]
XC += [dict(k=1, transform='cwt', params=False, dt='complex128', sc2=True, par=True),
       dict(k=2, transform='stft', params=False, dt='complex128', sc2=True, par=True)]


@vc('extract_ridges', R_ + 'extract_ridges', cases=XC, timeout=30000)
def extract(**c):
    d = tracked(**c)
    f, g, t, M = d['f'], d['g'], d['t'], d['M']
    for n in range(c['k']):
        ensure('ridge %d is the path found' % n, eq(at(d['idx'], t, n), d['paths'][n](t)))
    for n in [c['k'] - 1]:
        e, eshape, pen, pshape = d['passes'][n][:4]
        En = d['energy'](n)
        ls = lambda i: d['lg'](d['scale'](i))
        D = O.sub(ls(f), ls(g))
        ensure('penalty %d' % n, eq(pen(f, g), O.mul(d['penalty'], O.mul(D, D))))
        for m in range(n):
            r = d['paths'][m](t)
            ctx.branch(zb(O.ge(f, O.sub(r, d['bw'])))) and ctx.branch(zb(O.lt(f, O.add(r, d['bw']))))
        q = P.bindvar('q')
        mx = P.functional('amax', [(q, 0, M)], [zr(En(q, t))])
        ensure('energy is not negative', O.ge(En(f, t), 0))
        ensure('largest energy of the time step', O.ge(mx, En(f, t)))
        mx = z3.RealVal(1) if ctx.branch(mx == 0) else mx
        rel = O.div(En(f, t), mx, 'raw')
        ensure('relative energy is not negative', O.ge(rel, 0))
        want = -P.uf('log', P.R, P.R)(zr(rel) + zr(d['eps']))
        ensure('tracked energy %d' % n, eq(e(f, t), want))
    ensure('transform unchanged', eq(d['T'].at(f, t), d['T0'](f, t)))
