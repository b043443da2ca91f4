"""Loops with symbolic trip counts.

The body is executed once for an arbitrary iteration t (all branches explored); its
writes become universally quantified effects.  Values read from buffers that the
loop itself writes are resolved by proof: not written by an earlier iteration
(initial contents), an accumulation (sum), or a single-assignment recurrence.
For `prange` loops the iterations are additionally proved free of data races.
"""
import ast
import z3
from .values import *
from .values import norm_bool
from . import ops as O
from . import prover as P
from . import arrays as A
from .arrays import Arr, Effect, Write, IterStart, Rec, Base
from .state import ctx, Oracle, Infeasible
from . import interp as I_


class Restart(Exception):
    def __init__(self, frame):
        self.frame = frame


def range_len(r):
    if isinstance(r, range):
        return len(r)
    a, b, s = r.a, r.b, r.step
    if isinstance(s, int):
        if s == 0:
            raise SymRaise('ValueError', 'range step 0')
        d = O.sub(b, a) if s > 0 else O.sub(a, b)
        k = abs(s)
        n = d if k == 1 else O.floordiv(O.add(d, k - 1), k)
    elif ctx.entails(O.gt(s, 0)):
        n = O.floordiv(O.add(O.sub(b, a), O.sub(s, 1)), s)
    elif ctx.entails(O.lt(s, 0)):
        ns = O.neg(s)
        n = O.floordiv(O.add(O.sub(a, b), O.sub(ns, 1)), ns)
    else:
        raise Unsupported('range step of unknown sign')
    return unz3(z3.simplify(n)) if is_z3(n) else n


def concrete_items(it, limit):
    """-> list of items when the iteration is concrete and short enough"""
    if isinstance(it, I_.SymRange):
        n = range_len(it)
        if isinstance(n, int):
            n = max(n, 0)
            if n <= limit:
                return [O.add(it.a, O.mul(it.step, i)) for i in range(n)]
        elif ctx.entails(O.le(n, 0)):
            return []
        return None
    if isinstance(it, range):
        return list(it) if len(it) <= max(limit, 64) else None
    if isinstance(it, (list, tuple, set, frozenset)):
        return list(it)
    if isinstance(it, str):
        return list(it)
    if isinstance(it, dict):
        return list(it)
    if isinstance(it, Arr):
        if it.ndim == 0:
            raise SymRaise('TypeError', 'iteration over a 0-d array')
        n = it.shape[0]
        if isinstance(n, int) and n <= limit:
            return [A.getitem(it, i) for i in range(n)]
        return None
    if isinstance(it, I_.SymSeq):
        if isinstance(it.n, int) and it.n <= limit:
            return [it.fn(i) for i in range(it.n)]
        return None
    if isinstance(it, (I_.Zip, I_.Enum)):
        return None
    if is_z3(it) or it is None or isinstance(it, (int, float)):
        raise SymRaise('TypeError', 'object is not iterable')
    if hasattr(it, '__iter__'):
        return list(it)
    raise Unsupported('iteration over %r' % (it,))


def iteration(it):
    """-> (n, bind) with bind(i) the i-th item"""
    if isinstance(it, range):
        return len(it), lambda i: O.add(it.start, O.mul(it.step, i))
    if isinstance(it, I_.SymRange):
        n = range_len(it)
        return n, lambda i: O.add(it.a, O.mul(it.step, i))
    if isinstance(it, Arr):
        return it.shape[0], lambda i: A.getitem(it, i)
    if isinstance(it, I_.SymSeq):
        return it.n, it.fn
    if isinstance(it, I_.Enum):
        n, b = iteration(it.it)
        return n, lambda i: (O.add(it.start, i), b(i))
    if isinstance(it, I_.Zip):
        parts = [iteration(p) for p in it.parts]
        n = parts[0][0]
        for m, _ in parts[1:]:
            if not A.dims_eq(n, m):
                n = O.min2(n, m)
        return n, lambda i: tuple(b(i) for _, b in parts)
    if isinstance(it, (list, tuple)):
        return len(it), lambda i: A.pick(list(it), i)
    raise Unsupported('iteration over %r' % (it,))


# ------------------------------------------------------------------ frames
class Frame:
    def __init__(self, par):
        ctx.frame_uid += 1
        self.uid = ctx.frame_uid
        self.par = par
        self.written = []
        self.carried = {}
        self.inv = {}
        self.reads = []
        self.t = None
        self.prefix = 'rd!%d!' % self.uid
        self.rdname = {}

    def need_written(self, buf):
        if buf not in self.written:
            self.written.append(buf)
            raise Restart(self)

    def need_carry(self, name):
        self.carried[name] = None
        raise Restart(self)

    def propose(self, buf, n):
        self.inv[buf] = n
        raise Restart(self)

    def app(self, prefix, buf, idx):
        """scalar value of fresh function symbol(s) for the contents of buf"""
        k = buf.dtype.kind
        dom = [P.I] * len(idx)
        args = [zi(i) for i in idx]
        base = '%s%d!%d' % (prefix, self.uid, self.written.index(buf))

        def ap(suf, sort):
            nm = base + suf
            if prefix == 'rd!':
                nm = '%s%d%s' % (self.prefix, self.written.index(buf), suf)
                ctx.rdreg[nm] = (self, buf)
            if args:
                return P.uf(nm, *dom, sort)(*args)
            return z3.Const(nm, sort)
        if k == 'c':
            return Cx(ap('.re', P.R), ap('.im', P.R))
        if k == 'f':
            if buf.ext:
                return mk_ext(ap('', P.R), ap('.pinf', P.B), ap('.ninf', P.B),
                              ap('.nan', P.B))
            return ap('', P.R)
        if k == 'i':
            v = ap('', P.I)
            if buf in self.inv:
                n = self.inv[buf]
                P.DECL_FACTS[v.decl().name()] = (
                    lambda x, n=zi(n): z3.And(0 <= x, x < n))
            return v
        return ap('', P.B)

    def rd(self, buf, idx):
        if self.par:
            self.reads.append((buf, idx, list(ctx.pc)))
        return self.app('rd!', buf, idx)

    def carries(self, t):
        return is_z3(t) and any(n.startswith(self.prefix) for n in P.deep_names(t))

    def carries_val(self, v):
        return any(self.carries(c) for c in components(v))


class BodyPath:
    __slots__ = ('conds', 'effects', 'vars')


def assigned_names(st, aug=True):
    out = set()

    def walk(n):
        if not aug and isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp,
                          ast.DictComp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(st.target)
    for s in st.body:
        walk(s)
    return out


def chain_effects(st, frame, buf):
    out = []
    while not (isinstance(st, IterStart) and st.frame is frame):
        if isinstance(st, Write):
            out.append(st.eff)
            st = st.parent
        elif isinstance(st, Rec):
            raise Unsupported('recurrence inside an outer loop')
        else:
            raise Unsupported('buffer replaced inside a loop')
    out.reverse()
    return out


def symbolic_for(interp, st, it, env):
    par = isinstance(it, I_.SymRange) and it.par
    if par:
        f = env
        while f is not None and not hasattr(f, 'func'):
            f = f.parent
        fn = getattr(f, 'func', None)
        par = bool(fn is not None and fn.parallel) and not any(
            fr.par for fr in ctx.frames)
    n, bind = iteration(it)
    if st.orelse:
        raise Unsupported('loop else')
    # arrays that are only updated in place (`x += ...`) are not rebound
    names = {k for k in assigned_names(st) if not (
        isinstance(env.vars.get(k), Arr) and env.vars[k].ndim > 0 and
        k not in assigned_names(st, aug=False))}
    frame = Frame(par)
    entry_vars = dict(env.vars)
    entry_states = [(b, b.state) for b in ctx.bufs]
    nbuf, npc, nob = len(ctx.bufs), len(ctx.pc), len(ctx.obligations)
    nfr, nor_, quiet = len(ctx.frames), len(ctx.oracles), ctx.quiet
    t = P.bindvar('t')
    frame.t = t
    func, node = ctx.func, ctx.node
    uid0 = ctx.frame_uid

    def restore():
        for b, s in entry_states:
            b.state = s
        del ctx.bufs[nbuf:]
        del ctx.pc[npc:]
        del ctx.frames[nfr:]
        del ctx.oracles[nor_:]
        ctx.quiet = quiet
        ctx.func, ctx.node = func, node
        env.vars.clear()
        env.vars.update(entry_vars)

    tries = 0
    while True:
        tries += 1
        if tries > 40:
            raise Unsupported('loop analysis does not converge')
        del ctx.obligations[nob:]
        try:
            paths = _explore(interp, st, env, frame, t, n, bind, names, restore,
                             entry_vars, entry_states)
            break
        except Restart as r:
            restore()
            if r.frame is not frame:
                raise
            continue
        except (SymRaise, Unsupported, Infeasible):
            restore()
            raise
    restore()
    _summarise(frame, t, n, paths, names, env, entry_vars, entry_states, nob)


def _carry_symbol(frame, name, v):
    nm = '%sv!%s' % (frame.prefix, name)
    if isinstance(v, Arr) and v.ndim == 0:
        v = v.at()
    if isinstance(v, (Cx, complex)):
        return Cx(z3.Const(nm + '.re', P.R), z3.Const(nm + '.im', P.R))
    if I_.is_scalar(v):
        if is_boollike(v):
            return z3.Const(nm, P.B)
        if is_intlike(v) and not frame.carried.get(name) == 'real':
            return z3.Const(nm, P.I)
        return z3.Const(nm, P.R)
    raise Unsupported('loop-carried variable %s' % name)


def _explore(interp, st, env, frame, t, n, bind, names, restore, entry_vars,
             entry_states):
    results = []
    pending = [[]]
    parent_state = dict((id(b), s) for b, s in entry_states)
    count = 0
    frame.reads = []
    while pending:
        count += 1
        if count > 200:
            raise Unsupported('too many paths through a loop body')
        prefix = pending.pop()
        restore()
        frame.sym = {}
        for nm in names:
            if nm in entry_vars:
                if nm in frame.carried:
                    s = _carry_symbol(frame, nm, entry_vars[nm])
                    frame.sym[nm] = s
                    env.vars[nm] = s
                else:
                    env.vars[nm] = I_.CarryProbe(frame, nm)
        ctx.frames.append(frame)
        for b in frame.written:
            b.state = IterStart(frame, b, parent_state[id(b)])
        o = Oracle(prefix)
        ctx.oracles.append(o)
        ctx.pc.append(zb(b_and(O.le(0, t), O.lt(t, n))))
        dead = False
        try:
            interp.assign(st.target, bind(t), env)
            interp.exec_block(st.body, env)
        except I_.Continue:
            pass
        except (I_.Break, I_.Return):
            raise Unsupported('break / return in a loop of symbolic length')
        except SymRaise as e:
            ctx.oblige('no-exception(%s: %s)' % (e.cls, e.msg), False)
            dead = True
        except Infeasible:
            dead = True
        pending.extend(o.alts)
        if not dead:
            p = BodyPath()
            p.conds = list(o.conds)
            p.effects = {b: chain_effects(b.state, frame, b) for b in frame.written}
            p.vars = {nm: env.vars.get(nm) for nm in names if nm in env.vars}
            results.append(p)
    return results


# ------------------------------------------------------------------ summary
def _unify(e1, e2):
    """rename e2's bound variables to e1's when the shapes agree"""
    if len(e1.bounds) != len(e2.bounds) or e1.kind != e2.kind or \
            len(e1.idx) != len(e2.idx):
        return None
    sub = [(v2, v1) for (v1, _, _), (v2, _, _) in zip(e1.bounds, e2.bounds)]
    f = e2.subst(sub, dict((a.get_id(), b) for a, b in sub)) if sub else e2

    def same(a, b):
        if is_z3(a) or is_z3(b):
            return z3.simplify(zi(a) - zi(b)).eq(z3.IntVal(0))
        return a == b
    for (v1, l1, h1), (v2, l2, h2) in zip(e1.bounds, f.bounds):
        if not (same(l1, l2) and same(h1, h2)):
            return None
    for a, b in zip(e1.idx, f.idx):
        if not same(a, b):
            return None
    return f


def merge_paths(paths, buf):
    """list of (effect, position) valid for an arbitrary iteration, guards
    including the path conditions; effects at one position are exclusive"""
    lists = []
    for p in paths:
        c = b_and(*p.conds)
        es = [Effect(e.buf, e.bounds, b_and(c, e.guard), e.idx, e.kind, e.val)
              for e in p.effects[buf]]
        lists.append(es)
    lists = [l for l in lists if l]
    if not lists:
        return []
    out = []
    if all(len(l) == len(lists[0]) for l in lists):
        k = len(lists[0])
        cols = []
        ok = True
        for i in range(k):
            base = lists[0][i]
            cur = base
            for l in lists[1:]:
                u = _unify(base, l[i])
                if u is None:
                    ok = False
                    break
                g = norm_bool(b_or(cur.guard, u.guard))
                cur = Effect(buf, base.bounds, g, base.idx, base.kind,
                             ite(cur.guard, cur.val, u.val))
            if not ok:
                break
            cols.append(cur)
        if ok:
            return cols
    # keep separate, but merge what is identical across paths
    for l in lists:
        out.extend(l)
    return out


def _range_facts(e):
    return [zb(b_and(O.le(lo, v), O.lt(v, hi))) for v, lo, hi in e.bounds]


def _summarise(frame, t, n, paths, names, env, entry_vars, entry_states, nob):
    entry = dict((id(b), s) for b, s in entry_states)
    base_pc = list(ctx.pc)
    trange = zb(b_and(O.le(0, t), O.lt(t, n)))
    prover = ctx.prover

    # ---- carried scalars
    closed = {}
    finals = {}
    scan = _find_scan(frame, paths, t, n, names, entry_vars, base_pc)
    for nm in frame.carried:
        if scan is not None and nm in scan.names:
            continue
        sym = _carry_symbol(frame, nm, entry_vars[nm])
        finals[nm] = _carry_closed(frame, nm, sym, paths, t, n, entry_vars[nm], closed)
    if frame.par and frame.carried:
        for nm in frame.carried:
            if finals[nm] is None or finals[nm][0] != 'sum':
                ctx.oblige('no-loop-carried-scalar(%s)-in-prange' % nm, False)

    def sub_closed(x):
        if not closed or not is_z3(x):
            return x
        return P.rewrite_apps(x, lambda m: m in closed, lambda a: closed[a.decl().name()])

    if closed:
        for ob in ctx.obligations[nob:]:
            if is_z3(ob.goal):
                ob.goal = sub_closed(ob.goal)
            ob.pc = [sub_closed(c) for c in ob.pc]
        for p in paths:
            p.conds = [sub_closed(c) for c in p.conds]
            for b in p.effects:
                p.effects[b] = [e.map_terms(sub_closed) for e in p.effects[b]]

    effs = {}
    for b in frame.written:
        effs[b] = merge_paths(paths, b)
    if scan is not None:
        if frame.par:
            ctx.oblige('no-loop-carried-scalar-in-prange', False)
        scan.close(effs, entry, entry_vars, nob)
        finals.update(scan.finals)

    def full(e):
        """effect over all iterations"""
        return Effect(e.buf, [(t, 0, n)] + e.bounds, e.guard, e.idx, e.kind, e.val)

    # ---- loop invariants on index arrays
    for b, m in frame.inv.items():
        ivs = [P.bindvar('v') for _ in b.shape]
        ctx.pc.extend(A.range_pc(ivs, b.shape))
        v0 = A.read_state(entry[id(b)], tuple(ivs))
        ctx.oblige('loop-invariant-initial', b_and(O.le(0, v0), O.lt(v0, m)))
        del ctx.pc[len(base_pc):]
        for e in effs[b]:
            if e.kind != 'set':
                raise Unsupported('invariant with accumulation')
            ctx.pc.append(trange)
            ctx.pc.extend(_range_facts(e))
            ctx.pc.append(zb(e.guard))
            ctx.oblige('loop-invariant-maintained', b_and(O.le(0, e.val),
                                                          O.lt(e.val, m)))
            del ctx.pc[len(base_pc):]

    # ---- data races
    if frame.par:
        _race_obligations(frame, t, n, effs, base_pc)

    # ---- resolve reads of loop-written buffers
    resolved = {}
    for b in frame.written:
        out = []
        for e in effs[b]:
            if scan is not None and e in scan.done:
                out.append((e, False))
            else:
                out.append(_resolve(frame, t, n, e, effs, entry, base_pc))
        resolved[b] = out
    recs = [b for b in frame.written if any(r[1] for r in resolved[b])]
    del ctx.pc[len(base_pc):]

    # ---- final states
    for b in frame.written:
        es = [r[0] if scan is not None and r[0] in scan.done else full(r[0])
              for r in resolved[b]]
        if not es:
            b.state = entry[id(b)]
            continue
        if b in recs or any(frame_mentions_out(frame, r[0], b) for r in resolved[b]):
            b.state = _rec_state(frame, b, es, entry[id(b)])
        else:
            if len(es) > 1:
                _check_order(frame, t, n, es, base_pc)
            _check_last(es)
            stt = entry[id(b)]
            for e in es:
                stt = Write(stt, e.rename())
            b.state = stt
        b.written = True
        for f in ctx.frames[b.depth:]:
            f.need_written(b)
        if b.depth < len(ctx.frames) and isinstance(b.state, Write):
            # accumulate form relative to the enclosing loops
            stt, ws = b.state, []
            for _ in es:
                ws.append(stt.eff)
                stt = stt.parent
            b.state = stt
            for e in reversed(ws):
                b.state = Write(b.state, A.to_add(b, e))

    # ---- scalars after the loop
    for nm in names:
        if nm in finals and finals[nm] is not None:
            env.vars[nm] = finals[nm][1]
            continue
        env.vars[nm] = _after(frame, nm, paths, t, n, entry_vars)


def frame_mentions_out(frame, e, b):
    pre = 'out!%d!' % frame.uid

    def m(x):
        return is_z3(x) and any(nm.startswith(pre) for nm in P.deep_names(x))
    return any(m(c) for c in components(e.val)) or m(e.guard) or any(m(i) for i in e.idx)


def _after(frame, nm, paths, t, n, entry_vars):
    vals = [p.vars.get(nm) for p in paths]
    last = z3.simplify(zi(n) - 1)
    if not vals or any(v is None or isinstance(v, I_.CarryProbe) for v in vals):
        if all(isinstance(v, I_.CarryProbe) or v is None for v in vals):
            return entry_vars.get(nm, I_.UNBOUND)
        return I_.Poison('assigned on some paths of a loop')
    if not all(I_.is_scalar(v) for v in vals):
        return I_.Poison('non-scalar assigned in a loop')
    r = vals[-1]
    for p, v in zip(paths[:-1], vals[:-1]):
        r = ite(b_and(*p.conds), v, r)
    if frame.carries_val(r):
        return I_.Poison('value depends on loop-carried contents')

    def S(x):
        return z3.substitute(x, (t, last)) if is_z3(x) else x
    r = map_components(S, r)
    if ctx.entails(O.gt(n, 0)):
        return simp(r)
    e = entry_vars.get(nm)
    if e is not None and I_.is_scalar(e):
        return ite(O.gt(n, 0), r, e)
    return I_.Poison('loop may run zero times')


def _carry_closed(frame, nm, sym, paths, t, n, entry_v, closed):
    """closed form of a carried scalar -> ('sum', final) or None"""
    if isinstance(entry_v, Arr):
        entry_v = entry_v.at()
    news = [p.vars.get(nm, sym) for p in paths]
    if any(not I_.is_scalar(v) for v in news):
        raise Unsupported('loop-carried %s' % nm)
    syms = components(sym)
    if is_boollike(sym):
        raise Unsupported('loop-carried boolean %s' % nm)
    if any(not is_intlike(v) and not isinstance(v, Cx) for v in news) and \
            is_intlike(sym):
        if frame.carried[nm] != 'real':
            frame.carried[nm] = 'real'
            raise Restart(frame)
    deltas = [simp(O.sub(v, sym)) for v in news]
    if any(frame.carries_val(d) for d in deltas):
        raise Unsupported('loop-carried variable %s is not an accumulation' % nm)
    isint = is_intlike(sym)

    def tot(upto):
        d = None
        const = len(deltas) == 1 and not any(
            is_z3(c) and P.contains(c, [t]) for c in components(deltas[0]))
        if const:
            return O.add(entry_v, O.mul(deltas[0], upto))
        r = deltas[-1]
        for p, v in zip(paths[:-1], deltas[:-1]):
            r = ite(b_and(*p.conds), v, r)
        if frame.carries_val(r):
            raise Unsupported('loop-carried variable %s' % nm)
        v2 = P.bindvar('s')
        r = map_components(lambda x: z3.substitute(x, (t, v2)) if is_z3(x) else x, r)
        s = A.make_sum([(v2, 0, upto)], True, r)
        if isint:
            s = z3.ToInt(s)
        return O.add(entry_v, s)
    at_t = tot(t)
    for s, c in zip(syms, components(lift_cx(at_t) if isinstance(sym, Cx) else at_t)):
        closed[s.decl().name()] = zr(c) if s.sort() == P.R else zi(c)
    if ctx.entails(O.ge(n, 0)):
        fin = tot(n)
    else:
        fin = ite(O.gt(n, 0), tot(n), entry_v)
    return ('sum', fin)


class Scan:
    """running extremum:  if A(t) <op> v: v = A(t); <others keep their last value>.
    The update fires for the last time at the extremum of A (the greatest one for
    <= / >=, the least one for < / >)."""

    def __init__(self, frame, t, n, base_pc, sym, nm, A_, op, upd, follow):
        self.frame, self.t, self.n, self.base_pc = frame, t, n, base_pc
        self.sym, self.nm, self.A, self.op, self.upd = sym, nm, A_, op, upd
        self.follow = follow
        self.names = {nm} | set(follow)
        self.done = []
        self.finals = {}

    def own(self, x):
        return is_z3(x) and P.contains(x, [self.sym] + [f[0] for f in self.follow.values()])

    def close(self, effs, entry, entry_vars, nob):
        frame, t, n = self.frame, self.t, self.n

        def resolved(v):
            e, rec = _resolve(frame, t, n, Effect(None, [], True, (), 'set', v), effs, entry,
                              self.base_pc)
            if rec:
                raise Unsupported('running extremum over a recurrence')
            return e.val
        a = resolved(self.A)
        if isinstance(a, (Ext, Cx)):
            raise Unsupported('running extremum of non-real values')
        kind = 'amin' if self.op in ('le', 'lt') else 'amax'
        isint = is_intlike(a)
        q = P.bindvar('m')

        def at(k, v):
            return map_components(lambda x: z3.substitute(x, (t, k)) if is_z3(x) else x, v)
        body = zi(at(q, a)) if isint else zr(at(q, a))
        best = P.functional(kind, [(q, 0, n)], [body], P.I if isint else P.R)
        if self.op in ('lt', 'gt'):
            r = P.functional('arg' + kind[1:], [(q, 0, n)], [body], P.I)
        else:
            r = P.functional('arg' + kind[1:] + 'l', [(q, 0, n)], [body], P.I)
        entry_v = entry_vars[self.nm]
        if isinstance(entry_v, Arr):
            entry_v = entry_v.at()
        cmp_ = getattr(O, self.op)
        some = ctx.simplify_cond(b_and(O.gt(n, 0), cmp_(best, entry_v)))
        self.finals[self.nm] = ('scan', best if some is True else ite(some, best, entry_v))
        for nm, (sym, val) in self.follow.items():
            f = at(r, resolved(val))
            e0 = entry_vars[nm]
            e0 = e0.at() if isinstance(e0, Arr) else e0
            self.finals[nm] = ('scan', f if some is True else ite(some, f, e0))
        for b in list(effs):
            out = []
            for e in effs[b]:
                if not (self.own(e.guard) or any(self.own(c) for c in components(e.val))
                        or any(self.own(i) for i in e.idx)):
                    out.append(e)
                    continue
                if len(effs[b]) != 1 or e.kind != 'set' or e.bounds or \
                        any(is_z3(i) and P.contains(i, [t]) for i in e.idx) or \
                        any(self.own(c) for c in components(e.val)) or \
                        not self.equiv(e.guard, self.upd):
                    raise Unsupported('writes under a running extremum')
                v = at(r, resolved(e.val))
                f = Effect(e.buf, [], some, e.idx, 'set', v)
                self.done.append(f)
                out.append(f)
            effs[b] = out
        for ob in ctx.obligations[nob:]:
            ob.pc = [c for c in ob.pc if not self.own(c)]
            if self.own(ob.goal):
                raise Unsupported('obligation about a running extremum')

    def equiv(self, a, b):
        return ctx.prover.entails(
            self.base_pc + [zb(b_and(O.le(0, self.t), O.lt(self.t, self.n)))],
            zb(a) == zb(b), 3000)


def _find_scan(frame, paths, t, n, names, entry_vars, base_pc):
    cands = {}
    for nm in frame.carried:
        sym = _carry_symbol(frame, nm, entry_vars[nm])
        if isinstance(sym, Cx) or sym.sort() == P.B:
            continue
        up, vals = [], []
        ok = True
        for p in paths:
            v = p.vars.get(nm, sym)
            if isinstance(v, I_.CarryProbe) or (is_z3(v) and v.eq(sym)):
                continue
            if not I_.is_scalar(v) or isinstance(v, (Cx, Ext)):
                ok = False
                break
            up.append(b_and(*p.conds))
            vals.append(v)
        if not ok or not up or len(up) == len(paths):
            continue
        cands[nm] = (sym, up, vals)
    if not cands:
        return None
    syms = [c[0] for c in cands.values()]
    hyp = base_pc + [zb(b_and(O.le(0, t), O.lt(t, n)))]
    for nm, (sym, up, vals) in cands.items():
        if any(is_z3(v) and P.contains(v, syms) for v in vals):
            continue
        upd = b_or(*up)
        if not (is_z3(upd) and P.contains(upd, [sym])):
            continue
        r = vals[-1]
        for c, v in zip(up[:-1], vals[:-1]):
            r = ite(c, v, r)
        if is_z3(r) and P.contains(r, syms):
            continue
        if not is_intlike(r) and sym.sort() == P.I:
            if frame.carried[nm] != 'real':
                frame.carried[nm] = 'real'
                raise Restart(frame)
        for op in ('le', 'lt', 'ge', 'gt'):
            if ctx.prover.entails(hyp, zb(upd) == zb(getattr(O, op)(r, sym)), 3000):
                break
        else:
            continue
        follow = {}
        for nm2, (s2, up2, v2) in cands.items():
            if nm2 == nm or any(is_z3(v) and P.contains(v, syms) for v in v2):
                continue
            if ctx.prover.entails(hyp, zb(b_or(*up2)) == zb(upd), 3000):
                f = v2[-1]
                for c, v in zip(up2[:-1], v2[:-1]):
                    f = ite(c, v, f)
                follow[nm2] = (s2, f)
        return Scan(frame, t, n, base_pc, sym, nm, r, op, upd, follow)
    return None


def _race_obligations(frame, t, n, effs, base_pc):
    t2 = P.bindvar('t2')
    for b in frame.written:
        es = effs[b]
        for i, e1 in enumerate(es):
            for e2 in es[i:]:
                f2 = e2.rename()
                sub = [(t, t2)]
                f2 = f2.subst(sub)
                hyp = [zb(b_and(O.le(0, t), O.lt(t, n))),
                       zb(b_and(O.le(0, t2), O.lt(t2, n))), t != t2]
                hyp += _range_facts(e1) + _range_facts(f2)
                hyp += [zb(e1.guard), zb(f2.guard)]
                same = b_and(*[zi(a) == zi(c) for a, c in zip(e1.idx, f2.idx)])
                ctx.pc.extend(h for h in hyp if not isinstance(h, bool))
                ctx.oblige('no-write-write-race', b_not(same))
                del ctx.pc[len(base_pc):]
        for rb, ridx, rpc in frame.reads:
            if rb is not b:
                continue
            for e2 in es:
                f2 = e2.rename().subst([(t, t2)])
                hyp = list(rpc[len(base_pc):])
                hyp += [zb(b_and(O.le(0, t2), O.lt(t2, n))), t != t2]
                hyp += _range_facts(f2) + [zb(f2.guard)]
                same = b_and(*[zi(a) == zi(c) for a, c in zip(ridx, f2.idx)])
                ctx.pc.extend(h for h in hyp if not isinstance(h, bool))
                ctx.oblige('no-read-write-race', b_not(same))
                del ctx.pc[len(base_pc):]


def _resolve(frame, t, n, e, effs, entry, base_pc):
    """replace rd(b, c) in effect e by initial contents or by out(b, c).
    -> (effect, uses recurrence?)"""
    terms = [c for c in components(e.val) if is_z3(c)] + \
        ([e.guard] if is_z3(e.guard) else []) + [i for i in e.idx if is_z3(i)]
    if not any(frame.carries(x) for x in terms):
        return e, False
    rec = [False]
    facts = [zb(b_and(O.le(0, t), O.lt(t, n)))] + _range_facts(e)
    guard_free = e.guard if not frame.carries(e.guard) else True
    if guard_free is not True:
        facts.append(zb(guard_free))

    def read(app):
        nm = app.decl().name()
        _, buf = ctx.rdreg[nm]
        idx = tuple(app.children())
        suf = nm[len('%s%d' % (frame.prefix, frame.written.index(buf))):]
        ctx.pc.extend(facts)
        try:
            w = _written_before(frame, t, idx, effs[buf])
            if w is False:
                v = A.read_state(entry[id(buf)], idx)
                return _component(v, suf, app.sort())
            rec[0] = True
            o = frame.app('out!', buf, idx)
            if w is True:
                return _component(o, suf, app.sort())
            v0 = A.read_state(entry[id(buf)], idx)
            return _component(ite(w, o, v0), suf, app.sort())
        finally:
            del ctx.pc[len(base_pc):]
    match = lambda m: m.startswith(frame.prefix) and m in ctx.rdreg

    def R(x):
        return P.rewrite_apps(x, match, read) if is_z3(x) else x
    e2 = e.map_terms(R)
    left = [c for c in components(e2.val) if frame.carries(c)] + \
        [x for x in [e2.guard] + list(e2.idx) if frame.carries(x)]
    if left:
        raise Unsupported('unresolved loop-carried value')
    return e2, rec[0]


def _component(v, suf, sort):
    if suf in ('.re', '.im'):
        v = lift_cx(v)
        return zr(v.re if suf == '.re' else v.im)
    if suf in ('.pinf', '.ninf', '.nan'):
        v = lift_ext(v)
        return zb(getattr(v, suf[1:]))
    if isinstance(v, Ext):
        v = v.val
    return zr(v) if sort == P.R else (zi(v) if sort == P.I else zb(v))


def _written_before(frame, t, idx, es):
    """is cell idx written by an iteration before t?  False / True / condition"""
    conds = []
    for e in es:
        t1 = P.bindvar('tb')
        f = e.rename().subst([(t, t1)])
        hyp = [0 <= t1, t1 < t] + _range_facts(f)
        g = f.guard if not (is_z3(f.guard) and frame.carries(f.guard)) else True
        hyp.append(zb(g))
        ids_ok = [i for i, x in enumerate(f.idx) if not (is_z3(x) and frame.carries(x))]
        hyp += [zi(f.idx[i]) == zi(idx[i]) for i in ids_ok]
        hyp = [h for h in hyp if not z3.is_true(h)]
        if ctx.prover.entails(list(ctx.pc) + hyp, z3.BoolVal(False)):
            continue
        if len(ids_ok) != len(f.idx) or g is True and f.guard is not True:
            raise Unsupported('data-dependent recurrence')
        full = Effect(f.buf, [(t1, 0, t)] + f.bounds, f.guard, f.idx, f.kind, f.val)
        bounds, cond, _ = A.solve_hit(full, idx)
        if bounds:
            raise Unsupported('recurrence with unsolved indices')
        cond = ctx.simplify_cond(cond)
        conds.append(cond)
    return b_or(*conds)


def _rec_state(frame, b, es, entry_state):
    if len(es) != 1 or es[0].kind != 'set':
        raise Unsupported('recurrence over several writes')
    e = es[0].rename()

    def out(idx):
        return frame.app('out!', b, idx)

    def defn(idx):
        bounds, cond, val = A.solve_hit(e, idx)
        if bounds:
            raise Unsupported('recurrence with unsolved indices')
        cond = ctx.simplify_cond(cond)
        return ite(cond, val, A.read_state(entry_state, idx))
    return Rec(out, defn)


def _check_order(frame, t, n, es, base_pc):
    """several effects on a buffer may be applied one after another only if no
    later iteration's earlier effect overwrites an earlier iteration's later one"""
    for i, e1 in enumerate(es):
        for e2 in es[i + 1:]:
            if e1.kind == 'add' and e2.kind == 'add':
                continue
            a = e1.rename()
            c = e2.rename()
            ta, tc = a.bounds[0][0], c.bounds[0][0]
            hyp = _range_facts(a) + _range_facts(c) + [zb(a.guard), zb(c.guard), tc < ta]
            hyp += [zi(x) == zi(y) for x, y in zip(a.idx, c.idx)]
            hyp = [h for h in hyp if not isinstance(h, bool)]
            if not ctx.prover.entails(base_pc + hyp, z3.BoolVal(False), 3000):
                raise Unsupported('order of writes in a loop')


def _check_last(es):
    """set effects over several variables must be solvable or value-independent;
    decided when the cell is read"""
    return


def explore(setup, limit=400):
    """run `setup()` once per feasible path; yields nothing, obligations accumulate
    in ctx.obligations.  setup must build its inputs deterministically."""
    pending = [[]]
    npaths = 0
    while pending:
        prefix = pending.pop()
        npaths += 1
        if npaths > limit:
            raise Unsupported('too many paths')
        ctx.begin_path()
        P.reset_names()
        import itertools
        A._bufno = itertools.count()
        I_.INTERP.fresh_run()
        o = Oracle(prefix)
        ctx.oracles.append(o)
        try:
            setup()
        except Infeasible:
            pass
        except Restart:
            raise Unsupported('internal restart')
        pending.extend(o.alts)
    return npaths
