"""Generate and discharge the obligations of a set of contracts."""
import os, sys, time, json, traceback, multiprocessing as mp, signal

sys.setrecursionlimit(20000)


def run_contract(spec_name, i, timeout_ms, budget_s):
    """-> dict: obligations of one contract, each proved / refuted / unknown"""
    import importlib
    from . import spec as S
    from .state import ctx
    from .values import Unsupported, SymRaise, Gone
    from . import prover as P
    from . import loops as L
    t0 = time.time()
    mod = importlib.import_module(spec_name)
    c = mod_contracts(mod)[i]
    ctx.reset()
    P.reset_functionals()
    S.INTERP.reset()
    S.INTERP.environ = dict(SSQ_PARALLEL='0', SSQ_GPU='0')
    S.INTERP.calls = set() if isinstance(S.INTERP.calls, set) else type(S.INTERP.calls)()
    S.INTERP.stubs.clear()
    res = dict(contract=c.name, targets=list(c.targets), obligations=[], error=None,
               paths=0, covered=0)
    cov = [0]

    def setup():
        ctx.quiet = 1
        try:
            c.run()
        except SymRaise as e:
            ctx.quiet = 0
            # an exception escaping the contract: the path must be infeasible
            ctx.node = e.node or ctx.node
            ctx.oblige('no-uncaught-%s(%s)' % (e.cls, str(e.msg)[:80]), False)
            return
        if ctx.prover.feasible(list(ctx.pc)):
            cov[0] += 1
    try:
        res['paths'] = L.explore(setup, limit=c.opts.get('paths', 400))
    except Gone as e:
        res['gone'] = str(e)
    except Unsupported as e:
        node = e.node if hasattr(e, 'node') and e.node is not None else ctx.node
        res['error'] = 'unsupported: %s (%s, line %s)' % (
            e, ctx.func, getattr(node, 'lineno', '?'))
    except RecursionError:
        res['error'] = 'unsupported: recursion'
    except Exception:
        res['error'] = 'engine: ' + traceback.format_exc()[-1800:]
    res['covered'] = cov[0]
    res['gen_s'] = round(time.time() - t0, 2)
    # ---------------------------------------------------------- discharge
    seen = {}
    tmo = c.opts.get('timeout', timeout_ms)
    for o in ctx.obligations:
        goal = o.goal
        key = (o.name, o.func, tuple(x.get_id() for x in o.pc),
               goal if isinstance(goal, bool) else goal.get_id())
        if key in seen:
            continue
        t1 = time.time()
        if time.time() - t0 > budget_s:
            st, info = 'unknown', 'time budget of the contract used up'
        else:
            try:
                st, info = ctx.prover.prove(o.pc, goal, timeout=tmo)
            except Unsupported as e:
                st, info = 'unknown', 'unsupported in proof: %s' % e
            except Exception:
                st, info = 'unknown', traceback.format_exc()[-600:]
        seen[key] = st
        r = dict(name=o.name, func=o.func, where=o.where, status=st,
                 s=round(time.time() - t1, 3))
        if st != 'proved':
            r['goal'] = str(goal)[:1500]
            r['info'] = str(info)[:1500]
        res['obligations'].append(r)
    st = ctx.prover.stats
    res['queries'], res['solver_s'] = st.queries, round(st.solver_s, 2)
    res['backends'] = dict(st.backend)
    res['calls'] = sorted(S.INTERP.calls)
    res['s'] = round(time.time() - t0, 2)
    return res


def mod_contracts(mod):
    from . import spec as S
    if not hasattr(mod, '_CONTRACTS'):
        # specs register at import
        mod._CONTRACTS = [c for c in S.REG if c.fn.__module__ == mod.__name__
                          or c.fn in getattr(mod, 'INCLUDE', ())]
    return mod._CONTRACTS


def _child(conn, args):
    try:
        conn.send(run_contract(*args))
    except BaseException:
        conn.send(dict(contract='?', error='engine: ' + traceback.format_exc()[-1500:],
                       obligations=[], targets=[], paths=0, covered=0, calls=[],
                       queries=0, solver_s=0, backends={}, s=0, gen_s=0))
    conn.close()


def run_spec(spec_name, jobs=8, timeout_ms=8000, budget_s=240, only=None, hard_s=420):
    import importlib
    mod = importlib.import_module(spec_name)
    cs = mod_contracts(mod)
    todo = [i for i, c in enumerate(cs) if only is None or only in c.name]
    out = {}
    running = {}
    pend = list(todo)
    ctxm = mp.get_context('fork')
    while pend or running:
        while pend and len(running) < jobs:
            i = pend.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=_child, args=(b, (spec_name, i, timeout_ms, budget_s)))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i, (p, a, t) in list(running.items()):
            done = None
            if a.poll(0.02):
                try:
                    done = a.recv()
                except EOFError:
                    done = 'crashed'
            elif not p.is_alive():
                done = 'crashed'
            elif time.time() - t > hard_s:
                p.kill()
                done = 'ran out of time (%ds)' % hard_s
            if done is not None:
                if isinstance(done, str):
                    done = dict(contract=cs[i].name, targets=list(cs[i].targets),
                                obligations=[], error='engine: worker ' + done, paths=0,
                                covered=0, calls=[], queries=0, solver_s=0, backends={},
                                s=round(time.time() - t, 1), gen_s=0)
                p.join(1)
                out[i] = done
                del running[i]
    return [out[i] for i in todo]


VB = int(os.environ.get('VB', '500'))


def report(results, verbose=False):
    for r in results:
        n = len(r['obligations'])
        bad = [o for o in r['obligations'] if o['status'] != 'proved']
        print('%-60s paths=%d covered=%d obl=%d proved=%d gen=%ss total=%ss %s' % (
            r['contract'][:60], r['paths'], r['covered'], n, n - len(bad), r['gen_s'],
            r['s'], 'OK' if not bad and not r['error'] and n and r['covered'] else 'FAIL'))
        if r['error']:
            print('    ERROR', r['error'])
        for o in bad:
            print('   ', o['status'], o['name'], o['func'], o['where'])
            if verbose:
                print('        goal:', o['goal'][:VB].replace('\n', '\n        '))
                print('        info:', o['info'][:VB//2].replace('\n', '\n        '))
        if verbose:
            print('    names:', sorted({o['name'] for o in r['obligations']}))
            print('    slow:', [(o['name'], o['s']) for o in r['obligations'] if o['s'] > 2])


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('spec')
    ap.add_argument('-k', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-t', type=int, default=8000)
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    report(run_spec('specs.' + a.spec, jobs=a.j, only=a.k, timeout_ms=a.t), a.v)
