"""Driver: python3-vt -m hmv.check PROPERTY [--unit GLOB] [--jobs N] [-v]"""
import argparse
import fnmatch
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--unit')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('HMV_JOBS', os.cpu_count() or 4)))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from . import load, build
    from .units import UNITS, run_unit
    load()
    import gc
    gc.disable()
    if a.prop != 'ALL':
        from . import exec as E
        E.ACTIVE[0] = a.prop
    us = [u for u in UNITS if (a.prop == 'ALL' or a.prop in u.props) and (tier == 'thorough' or a.unit or (not u.thorough and (u.quick is None or u.quick(a.prop, u.cfg, u.kw))))]
    if a.unit:
        us = [u for u in us if fnmatch.fnmatch(u.name, a.unit)]
    if not us:
        print('no unit for', a.prop)
        return 2
    try:
        for k in sorted({(u.cfg, u.cxx) for u in us}):
            build.module(*k)
    except Exception as e:
        print('ERROR: extraction of the source failed: %s' % e)
        return 2
    us.sort(key=lambda u: -u.cost)
    from . import par
    if a.jobs > 1:
        par.TOKENS[0] = mp.get_context('fork').Semaphore(a.jobs)
    limit = 850 if tier == 'quick' else 3 * 3600
    res = []
    if a.jobs > 1 and len(us) > 1:
        with mp.get_context('fork').Pool(min(a.jobs, len(us)), maxtasksperchild=8) as pool:
            for r in pool.imap_unordered(run_index, [UNITS.index(u) for u in us], chunksize=1):
                res.append(r)
                if a.v:
                    show(r)
                now = time.time()
                if any(not o[2] and (a.prop == 'ALL' or a.prop in o[1]) for o in r['obs']) and a.prop != 'ALL' and tier == 'quick':
                    limit = min(limit, now - t0 + 20)      # a violation is known: only a little longer for others
                if now - t0 > limit:
                    pool.terminate()
                    break
    else:
        for u in us:
            r = run_unit(u)
            res.append(r)
            if a.v:
                show(r)
    code = report(a, res, us, t0, tier, seed, limit)
    return code


def run_index(i):
    from .units import UNITS, run_unit
    return run_unit(UNITS[i])


def show(r):
    bad = [o for o in r['obs'] if not o[2]]
    print('%-50s %6.1fs %5d obligations %d failed %d paths %s' % (r['unit'], r['time'], len(r['obs']), len(bad), r['paths'], r['error'] or ''), flush=True)
    if r.get('tb') and r['error']:
        print(r['tb'])


def report(a, res, us, t0, tier, seed, limit):
    P = a.prop
    rel = [(r, o) for r in res for o in r['obs'] if P == 'ALL' or P in o[1]]
    failed = [(r, o) for r, o in rel if not o[2]]
    errors = [r for r in res if r['error']]
    missing = len(us) - len(res)
    code = 0
    seen = set()
    rdir = os.path.join(HERE, 'replay')
    n = 0
    from .replay import replay
    for r, o in failed:
        key = (o[0], (r['unit'].split('[')[0]).split('@')[0])
        if key in seen:
            continue
        seen.add(key)
        if n >= 8:
            break
        n += 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.txt' % (P, n))
        with open(path, 'w') as f:
            f.write('property %s\nfailed obligation: %s\nunit (function under contract): %s\nconfiguration: %s\n' % (P, o[0], r['unit'], r['cfg']))
            i = o[3] or {}
            f.write('at: %s\ninfo: %s\n\nbranches taken: %s\n\nevents on the path:\n' % (i.get('where'), i.get('info'), i.get('trace')))
            for e in i.get('events', []):
                f.write('  %s\n' % e)
            f.write('\nsolver: the negated obligation is satisfiable (z3 %s); counterexample:\n' % z3v())
            for k, v in sorted((i.get('model') or {}).items()):
                f.write('  %s = %s\n' % (k, v))
        found = False
        try:
            found = replay(P, r, o, path)
        except Exception as e:
            with open(path, 'a') as f:
                f.write('\nreplay failed: %r\n' % e)
        print('  failed obligation: %s  [%s at %s]' % (o[0], r['unit'], (o[3] or {}).get('where')))
        print('VIOLATION property=%s replay=%s%s' % (P, path, '' if found else ' no-failing-input-found'))
        code = 1
    if code == 0 and (errors or missing):
        # obligations that cannot be generated or decided are not discharged: the property is not shown for this source
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-undecided.txt' % P)
        found = False
        with open(path, 'w') as f:
            f.write('property %s\nobligations that could not be generated or decided:\n' % P)
            for r in errors:
                print('ERROR %s: %s' % (r['unit'], r['error']))
                f.write('%s: %s\n%s\n' % (r['unit'], r['error'], r.get('tb') or ''))
                if a.v and r.get('tb'):
                    print(r['tb'])
            if missing:
                print('ERROR: time limit, %d units not finished' % missing)
                f.write('time limit: %d units not finished\n' % missing)
        try:
            found = replay(P, None, None, path)
        except Exception as e:
            with open(path, 'a') as f:
                f.write('\nreplay failed: %r\n' % e)
        print('VIOLATION property=%s replay=%s%s' % (P, path, '' if found else ' no-failing-input-found'))
        code = 1
    if not rel and code == 0:
        print('ERROR: no obligation for %s' % P)
        code = 2
    for k in known(P):
        print('KNOWN-FINDING: property=%s %s' % (P, k))
    if P != 'ALL':
        evidence(P, res, rel, failed, tier, seed, time.time() - t0)
    under = sorted({f for r in res for f in r['under']})
    print('%s: %d units, %d functions under contract, %d obligations, %d failed, %d paths, %d solver queries, %.1fs solver, %.1fs wall' %
          (P, len(res), len(under), len(rel), len(failed), sum(r['paths'] for r in res), sum(r['queries'] for r in res), sum(r['solver'] for r in res), time.time() - t0))
    return code


def z3v():
    import z3
    return z3.get_version_string()


def known(P):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            if l.startswith('KNOWN-FINDING: property=%s ' % P):
                out.append(l.split(' ', 2)[2].strip())
    except OSError:
        pass
    return out


def evidence(P, res, rel, failed, tier, seed, wall):
    from . import TRUSTED, ASSUMPTIONS
    under = sorted({f for r in res for f in r['under']})
    inl = sorted({f for r in res for f in r['inlined']} - set(under))
    used = sorted({f for r in res for f in r['contracts']})
    ev = {
        'property': P, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(rel),
            'discharged': len(rel) - len(failed),
            'checker_cmd': './check %s' % P,
            'trusted_base': TRUSTED,
            'functions_under_contract': under,
            'inlined_into_them': inl,
            'contracts_used_at_call_sites': used,
            'back_end': 'z3 %s' % z3v(),
            'units': [{'unit': r['unit'], 'configuration': r['cfg'], 'obligations': sum(1 for o in r['obs'] if P in o[1]), 'paths': r['paths'],
                       'solver_queries': r['queries'], 'solver_s': round(r['solver'], 2), 'wall_s': round(r['time'], 2)} for r in sorted(res, key=lambda r: r['unit'])],
            'solver_s': round(sum(r['solver'] for r in res), 2),
            'undecided_units': [r['unit'] for r in res if r['error']],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(failed),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', P + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
