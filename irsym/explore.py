"""Path exploration: every path of every configuration, spread over worker processes."""
import os, sys, time, traceback, multiprocessing as mp, collections
import build, vm, sym


def run_path(cfg, cm, prefix, st):
    status = 'done'
    why = ''
    nr = 0
    carry = []          # alternatives left behind by an attempt that started over with another witness
    while True:
        S = vm.State(cm, prefix, cfg, st)
        S.restarts = nr
        S.pending = carry
        try:
            status, why = run_once(S, cfg)
            return S, status, why
        except vm.Restart as r:
            prefix = r.prefix
            carry = S.pending
            nr += 1


def run_once(S, cfg):
    status = 'done'
    why = ''
    try:
        S.call('harness', [])
    except vm.PathEnd as e:
        status = 'infeasible'
        why = e.why
    except vm.Violation as v:
        try:
            if S.sol.check([c for c in v.conds], S.qt, full=True) == 'unsat':
                status = 'infeasible'
            elif S.record(v.kind, v.msg, list(v.conds)) is False:
                status = 'infeasible'
            else:
                status = 'violation'
        except Exception as e:
            status, why = 'unsupported', 'record: %s' % e
    except (sym.Unsupported, vm.MergeAbort, vm.SymThrow) as e:
        status = 'unsupported'
        why = '%s: %s' % (type(e).__name__, e)
    except RecursionError:
        status, why = 'unsupported', 'recursion'
    except (AttributeError, TypeError, KeyError, ValueError, OverflowError, ZeroDivisionError, AssertionError) as e:
        if cfg.get('debug'):
            raise
        status = 'unsupported'
        why = 'engine: ' + traceback.format_exc()[-600:]
    return status, why


def work(cfg, cm, prefix, budget, maxp):
    """depth-first from prefix for up to budget seconds"""
    t0 = time.time()
    st = sym.Stats()
    stack = [prefix]
    res = dict(paths=0, done=0, infeasible=0, unsupported=collections.Counter(), viol=[], reached={}, checks=0,
               inconcl=collections.Counter(), fns=collections.Counter(), steps=0, assumed=0, nz=0, maxdec=0, samples=[], wins=[], uins=[])
    while stack:
        p = stack.pop()
        S, status, why = run_path(cfg, cm, p, st)
        res['paths'] += 1
        if status == 'done':
            res['done'] += 1
        elif status == 'infeasible':
            res['infeasible'] += 1
        elif status == 'unsupported':
            res['unsupported'][why] += 1
            if len(res['uins']) < 2 and not S.viol:
                try:
                    res['uins'].append((S.fullmodel(None), why))
                except Exception:
                    pass
        for v in S.viol:
            v['path'] = len(p[0])
            res['viol'].append(v)
        for k, v in S.reached.items():
            if res['reached'].get(k) != 'sat':
                res['reached'][k] = v
        res['checks'] += S.nchecks
        for m in S.inconcl:
            res['inconcl'][m] += 1
        for f, n in S.fnseen.items():
            res['fns'][f] += n
        res['steps'] += S.steps
        res['assumed'] += S.assumed
        res['nz'] += S.ctx.assumed_nonzero
        res['maxdec'] = max(res['maxdec'], len(S.trace))
        if len(res['samples']) < 2 and status == 'done':
            res['samples'].append({'decisions': len(S.trace), 'blocks': S.steps, 'checks': S.nchecks,
                                   'path_condition_terms': len(S.sol.pc),
                                   'pc_head': [str(c)[:120] for c in S.sol.pc[:3]]})
        if status == 'done' and len(res['wins']) < 2 and all(getattr(c, 'wit', False) for c in S.sol.pc):
            res['wins'].append(S.fullmodel(None))
        stack.extend(S.pending)
        if time.time() - t0 > budget or res['paths'] >= maxp or len(res['viol']) >= 6:
            break
    res['q'] = st.q
    res['qt'] = st.t
    res['sat'], res['unsat'], res['unk'] = st.sat, st.unsat, st.unk
    res['left'] = stack
    return res


_CFGS = None
_CMS = None


def _task(a):
    i, prefixes, budget, maxp = a
    try:
        r = None
        for p in prefixes:
            x = work(_CFGS[i], _CMS[i], p, budget, maxp)
            r = x if r is None else merge(r, x)
        return i, r, None
    except Exception:
        return i, None, traceback.format_exc()


def merge(a, b):
    for k in ('paths', 'done', 'infeasible', 'checks', 'steps', 'assumed', 'nz', 'q', 'qt', 'sat', 'unsat', 'unk'):
        a[k] += b[k]
    for k in ('unsupported', 'inconcl', 'fns'):
        a[k].update(b[k])
    a['viol'] += b['viol']
    a['maxdec'] = max(a['maxdec'], b['maxdec'])
    for k, v in b['reached'].items():
        if a['reached'].get(k) != 'sat':
            a['reached'][k] = v
    a['samples'] = (a['samples'] + b['samples'])[:2]
    a['uins'] = (a.get('uins', []) + b.get('uins', []))[:4]
    a['wins'] = (a.get('wins', []) + b.get('wins', []))[:3]
    if 'left' in b:
        a['left'] = a.get('left', []) + b['left']
    return a


def explore(cfgs, wall, jobs=8, verbose=False):
    """-> list of result dicts (one per configuration)"""
    global _CFGS, _CMS
    t0 = time.time()
    sys.setrecursionlimit(20000)
    _CFGS = cfgs
    _CMS = []
    errs = {}
    for i, c in enumerate(cfgs):
        try:
            cm = build.module(c)
            for f in cm.m.fns:
                pass
            cm.fn('harness')
            _CMS.append(cm)
        except Exception as e:
            _CMS.append(None)
            errs[i] = '%s: %s' % (type(e).__name__, e)
    total = [None] * len(cfgs)
    todo = collections.deque((i, [([], {})]) for i in range(len(cfgs)) if i not in errs)
    left = collections.Counter()
    busy = 0
    with mp.get_context('fork').Pool(jobs, maxtasksperchild=60) as pool:
        import queue
        q = queue.Queue()
        stop = set()
        while todo or busy:
            now = time.time() - t0
            while todo and busy < jobs * 2 and now < wall:
                i, ps = todo.popleft()
                if i in stop:
                    left[i] += len(ps)
                    continue
                first = total[i] is None and len(ps) == 1 and ps[0] == ([], {})
                budget = 0.6 if first else 2.5
                pool.apply_async(_task, ((i, ps, budget, 5000),), callback=q.put,
                                 error_callback=lambda e: q.put((-1, None, repr(e))))
                busy += 1
            if now >= wall and todo:
                for i, ps in todo:
                    left[i] += len(ps)
                todo.clear()
            if not busy:
                break
            try:
                i, r, err = q.get(timeout=max(5.0, wall - now + 60))
            except queue.Empty:
                for k in range(len(cfgs)):
                    errs.setdefault(k, 'worker timeout')
                pool.terminate()
                break
            busy -= 1
            if err:
                errs[i] = err
                continue
            ps = r.pop('left')
            total[i] = r if total[i] is None else merge(total[i], r)
            if len(total[i]['viol']) >= 12 or total[i]['paths'] >= cfgs[i].get('maxpaths', 10 ** 9):
                stop.add(i)
                left[i] += len(ps)
                ps = []
            # split the left-over prefixes into chunks so that all workers get some
            if ps:
                n = max(1, len(ps) // (jobs * 2))
                for k in range(0, len(ps), n):
                    todo.append((i, ps[k:k + n]))
    out = []
    for i in range(len(cfgs)):
        r = total[i] or dict(paths=0, done=0, infeasible=0, unsupported=collections.Counter(), viol=[], reached={},
                             checks=0, inconcl=collections.Counter(), fns=collections.Counter(), steps=0, assumed=0,
                             nz=0, maxdec=0, samples=[], wins=[], q=0, qt=0.0, sat=0, unsat=0, unk=0)
        r['left'] = left[i]
        r['error'] = errs.get(i)
        r['name'] = cfgs[i]['name']
        out.append(r)
    return out
