#!/usr/bin/env python3-vt
"""Decides one property: symbolic execution of /repo's current sources, SMT verdicts, native replay.
usage: check.py ID [--tier quick|thorough]"""
import sys, os, time, json, fnmatch, subprocess, traceback, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'irsym'))
sys.setrecursionlimit(20000)
import build, explore, props

MEMKINDS = ('oob', 'uaf', 'free', 'null', 'leak', 'badcall', 'div0', 'overflow', 'shift', 'badptr')


def known():
    """known-findings.txt: '<id> <config glob> <message glob>' after 'KNOWN '; 'fixed:' lines suppress nothing"""
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('known: '):
                d = dict(x.split('=', 1) for x in l[7:].strip().split(' | '))
                out.append(d)
    return out


def try_replay(cfg, v, outf, seed):
    """-> (reproduced, sanitizer, text)"""
    kind = v['kind']
    order = ['msan', 'plain'] if kind == 'uninit' else ['plain', 'asan'] if kind == 'check' or kind == 'leak' else ['asan', 'plain']
    order = cfg.get('replay', order)
    last = ''
    for mode, sd in [(0, 0)] + [(1, seed + k) for k in range(6)]:
        for san in order:
            try:
                ok, txt = build.replay(cfg, v['inputs'], san, outf, mode, sd)
            except build.BuildError as e:
                last = 'native build failed: %s' % e
                continue
            last = txt
            if ok:
                with open(outf, 'a') as f:
                    pass
                return True, '%s%s' % (san, ' mode=%d seed=%d' % (mode, sd) if mode else ''), txt
        if not any(a for a in v['inputs']) or cfg.get('noperturb'):
            break
    return False, '', last


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    evf = os.path.join(evd, pid + '.json')
    spec = props.PROPS[pid]
    cfgs = [dict(c) for c in spec['cfgs'](tier)]
    for c in cfgs:
        c.setdefault('sources', ['CORE'])
        c.setdefault('wseed', seed)
        c['env'] = {k: str(v) for k, v in c.get('env', {}).items()}
    wall = spec.get('wall', {}).get(tier, 60 if tier == 'quick' else 600)
    # keep a frozen copy of what is being checked consistent: everything compiles from the tree as it is now
    err = None
    try:
        res = explore.explore(cfgs, wall, jobs=int(os.environ.get('VERIF_JOBS', '8')))
    except Exception:
        err = traceback.format_exc()
        res = []
    notes, viols, knownhits, seen = [], [], [], set()
    kn = known()
    ncand = nrepro = 0
    for c, r in zip(cfgs, res):
        if r['error']:
            notes.append('%s: not decided: %s' % (c['name'], r['error'][-400:]))
        want = c.get('reach', ['end'])
        for tg in want:
            if r['reached'].get(tg) is None and not r['viol']:
                notes.append('%s: vacuity witness %r not reached' % (c['name'], tg))
        tried = {}
        for v in sorted(r['viol'], key=lambda v: (v['kind'] != 'check', v.get('path', 0))):
            key = (c['name'], v['msg'])
            if key in seen or tried.get(v['msg'], 0) >= 3:
                continue
            tried[v['msg']] = tried.get(v['msg'], 0) + 1
            ncand += 1
            outf = os.path.join(evd, '%s.%d.replay' % (pid, len(viols) + len(knownhits)))
            ok, how, txt = try_replay(c, v, outf, seed)
            if not ok:
                notes.append('%s: candidate counterexample not reproduced natively (%s: %s): %s' %
                             (c['name'], v['kind'], v['msg'][:200], txt.strip()[-200:]))
                if os.path.exists(outf):
                    os.unlink(outf)
                continue
            nrepro += 1
            seen.add(key)
            k = next((k for k in kn if k.get('property') == pid and fnmatch.fnmatch(c['name'], k.get('config', '*'))
                      and fnmatch.fnmatch(v['msg'], k.get('message', '*'))), None)
            meta = {'property': pid, 'config': {x: c[x] for x in ('name', 'harness', 'sources', 'env') if x in c},
                    'kind': v['kind'], 'message': v['msg'], 'inputs': {a: str(b) for a, b in v['inputs'].items()},
                    'reproduced_with': how, 'native_output': txt[-1500:],
                    'rerun': 'python3-vt /verif/replay.py %s.json' % outf}
            with open(outf + '.json', 'w') as f:
                json.dump(meta, f, indent=1)
            if k:
                knownhits.append((k, c['name'], v))
                continue
            viols.append((outf + '.json', c['name'], v))
            if len(viols) >= 3:
                break
        if len(viols) >= 3:
            break
    # validate the encoding: the witness inputs of each harness must run clean in the natively compiled code
    validated, mism = 0, []
    if not viols and not err:
        for c, r in zip(cfgs, res):
            if time.time() - t0 > 600 and tier == 'quick':
                break
            for wi in r.get('wins', [])[:3]:
                try:
                    bad, txt = build.replay(c, wi, c.get('vsan', 'plain'))
                except build.BuildError as e:
                    notes.append('native build failed: %s' % str(e)[-300:])
                    break
                if txt.startswith('assumption not met'):
                    continue
                if bad:
                    mism.append('%s: witness run natively: %s' % (c['name'], txt[-300:]))
                else:
                    validated += 1
    # paths the encoding cannot follow to the end: the input the solver found for them decides on the real code
    if not viols and not err:
        for c, r in zip(cfgs, res):
            for wi, why in r.get('uins', []):
                if len(viols) >= 3 or (time.time() - t0 > 600 and tier == 'quick'):
                    break
                v = {'kind': 'check', 'msg': 'fails on the input reaching a path the encoding cannot follow (%s)' % why[-120:], 'inputs': wi}
                outf = os.path.join(evd, '%s.%d.replay' % (pid, len(viols) + len(knownhits)))
                for san in c.get('replay', ['plain', 'asan']):
                    try:
                        ok, txt = build.replay(c, wi, san, outf)
                    except build.BuildError:
                        continue
                    if ok:
                        break
                else:
                    continue
                if (c['name'], why) in seen:
                    continue
                seen.add((c['name'], why))
                with open(outf + '.json', 'w') as f:
                    json.dump({'property': pid, 'config': {x: c[x] for x in ('name', 'harness', 'sources', 'env') if x in c}, 'kind': v['kind'], 'message': v['msg'],
                               'inputs': {a: str(b) for a, b in wi.items()}, 'reproduced_with': san, 'native_output': txt[-1500:],
                               'rerun': 'python3-vt /verif/replay.py %s.json' % outf}, f, indent=1)
                nrepro += 1
                viols.append((outf + '.json', c['name'], v))
    tot = lambda k: sum(r[k] for r in res)
    unsup, incon, fns, reached = {}, {}, {}, {}
    for c, r in zip(cfgs, res):
        for k, n in r['unsupported'].items():
            unsup[k[:200]] = unsup.get(k[:200], 0) + n
        for k, n in r['inconcl'].items():
            incon[k[:200]] = incon.get(k[:200], 0) + n
        for k, n in r['fns'].items():
            fns[k] = fns.get(k, 0) + n
        for k, n in r['reached'].items():
            reached[k] = n
    repofns = {k: v for k, v in fns.items() if not k.startswith(('h_', 'harness'))}
    cov = {
        'states': tot('steps') if res else 0, 'transitions': tot('paths') if res else 0,
        'traces_validated_against_impl': validated + nrepro,
        'samples': [dict(s, config=r['name']) for r in res for s in r['samples']][:6],
        'what_is_counted': 'states: basic blocks executed symbolically; transitions: symbolic paths explored; '
                           'traces_validated_against_impl: witness inputs and counterexamples run through the native build',
        'technique': 'symbolic execution of the LLVM IR of /repo, SMT (z3) verdict per path and assertion',
        'configurations': [{'name': r['name'], 'params': c['env'], 'paths': r['paths'], 'completed': r['done'],
                            'infeasible': r['infeasible'], 'unexplored_prefixes': r['left'],
                            'assertions_decided': r['checks'],
                            'branches_fixed_to_witness': r['assumed']} for c, r in zip(cfgs, res)],
        'functions_encoded': {k: repofns[k] for k in sorted(repofns)},
        'assertions_decided': tot('checks') if res else 0,
        'queries': tot('q') if res else 0, 'queries_sat': tot('sat') if res else 0,
        'queries_unsat': tot('unsat') if res else 0, 'queries_unknown': tot('unk') if res else 0,
        'solver_time_s': round(tot('qt'), 2) if res else 0,
        'undecided_assertions': incon, 'unsupported_paths': unsup, 'reached': reached,
        'candidates': ncand, 'reproduced': nrepro, 'bounds': spec['bounds'],
        'exhaustive_within_bounds': bool(res) and not any(r['left'] or r['error'] or r['unsupported'] or r['inconcl'] or r['assumed'] for r in res),
        'notes': notes, 'native_mismatches': mism,
    }
    if err:
        cov['error'] = err[-1500:]
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'model_checking',
          'coverage': cov, 'assumptions': props.COMMON + spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(viols)}
    with open(evf, 'w') as f:
        json.dump(ev, f, indent=1)
    for k, cn, v in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (pid, k.get('what', v['msg'])))
    print('%s: %d configurations, %d paths, %d assertions, %d queries, %.1f s solver, %.1f s wall, %d undecided, %d unsupported, %d unexplored' %
          (pid, len(cfgs), cov['transitions'], cov['assertions_decided'], cov['queries'], cov['solver_time_s'], time.time() - t0,
           sum(incon.values()), sum(unsup.values()), sum(r['left'] for r in res)))
    for n in notes[:8] + mism[:4]:
        print('note: ' + n[:600])
    if '-v' in sys.argv:
        for r in res:
            print(r['name'], r['paths'], r['done'], 'viol', len(r['viol']), 'left', r['left'], 'uns', dict(r['unsupported']), 'inc', dict(r['inconcl']), 'q', r['q'], '%.1f' % r['qt'], r['reached'], 'assumed', r['assumed'])
    if err:
        print('note: ' + err[-1500:])
    if viols:
        for f, cn, v in viols:
            print('VIOLATION property=%s replay=%s  [%s] %s: %s' % (pid, f, cn, v['kind'], v['msg'][:300]))
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
