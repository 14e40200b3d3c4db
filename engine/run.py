"""Runs the check of one property:  run.py <property-id> [quick|thorough]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: nothing could be explored."""
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
import build as B
import explore as X
from config import PROPS


def demangle(names):
    import subprocess
    try:
        return subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    except Exception:
        return names


def short(n):
    n = n.split('(')[0]
    while '<' in n and '>' in n:
        i = n.rfind('<')
        j = n.find('>', i)
        if i < 0 or j < 0:
            break
        n = n[:i] + n[j + 1:]
    n = n.replace('auto ', '').strip()
    return n.split(' ')[-1] if ' ' in n and 'operator' not in n else n


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                # finding: property=Cxx unit=<harness> label=<label> :: text
                head, text = l.split(' :: ', 1)
                kv = dict(t.split('=', 1) for t in head.split()[1:])
                out.append((kv.get('unit'), kv['label'].replace('~', ' '), text))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='nlcgv_%s_' % pid)
    os.environ['VTIER'] = tier
    os.environ['OMP_NUM_THREADS'] = '1'
    known = known_findings(pid)
    hit = {}
    viol = []
    units = []
    total = 840 if tier == 'quick' else 3 * 3600
    cov = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'decisions': 0, 'obligations': 0, 'discharged': 0, 'undecided': 0, 'replays_ok': 0, 'funcs': set()}
    samples = []
    failed_build = []
    n_ok = 0
    pend = []
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(3)
    for u in prop['units']:
        if tier == 'quick' and u.get('thorough_only'):
            continue
        wd = os.path.join(work, u['name'])
        pend.append((u, ex.submit(B.build, os.path.join(ROOT, 'harness', u['harness']), wd, u.get('driver', False), u.get('defines', ()))))
    nruns = sum(len(u.get('envs', [{}])) for u, _ in pend)
    for u, fut in pend:
        rec = {'unit': u['name'], 'harness': u['harness'], 'mode': u.get('mode', 'real'), 'bounds': u.get('bounds', '')}
        units.append(rec)
        try:
            b = fut.result()
        except B.BuildError as e:
            rec['build_error'] = str(e)[-1500:]
            failed_build.append(u['name'])
            continue
        opts = dict(u.get('cfg', {}))
        opts.update(u.get(tier + '_cfg', {}))
        budget = u.get('budget', {}).get(tier, max(200, 760 // nruns) if tier == 'quick' else 2400)
        for env in u.get('envs', [{}]):
            cfg = X.Cfg(mode=u.get('mode', 'real'), seed=seed, **opts)
            cfg.env = dict(env)

            def onv(v, u=u):
                for ku, kl, kt in known:
                    if ku in (None, u['name']) and (kl == v['label'] or (kl.endswith('*') and v['label'].startswith(kl[:-1]))):
                        hit[(kl, kt)] = v
                        return False
                return True
            t1 = time.time()
            dl = min(t1 + budget, t0 + total)
            r = X.explore(b, cfg, dl, on_violation=onv)
            n_ok += 1
            names = set()
            for i in r.funcs:
                if i < len(b['funcs']):
                    names.add(b['funcs'][i])
                if i >= 100000:
                    names.add(b['dfuncs'][i - 100000])
            dn = sorted({short(x) for x in demangle(sorted(names)) if x})
            cov['funcs'] |= set(dn)
            proved = sum(d['proved'] + d['trivial'] for d in r.labels.values())
            und = len(r.undecided)
            obl = proved + und + len(r.violations)
            rec.setdefault('runs', []).append({
                'env': env, 'paths': r.paths, 'infeasible_paths': r.infeasible, 'paths_with_sat_witness': r.wit,
                'native_witness_replays_ok': r.native_ok, 'native_witness_disagreements': r.native_bad[:5],
                'max_decisions_on_a_path': r.maxdepth, 'max_expression_nodes': r.maxnodes,
                'queries': r.queries, 'solver_s': round(r.solver_s, 2), 'solver_unknown': r.unknown,
                'labels': r.labels, 'undecided': r.undecided[:12], 'undecided_count': und, 'cut_paths': r.cuts,
                'unexplored_prefixes': r.unexplored, 'uninitialised_branches': r.poison,
                'notes': dict(list(r.notes.items())[:10]), 'functions_encoded': len(dn), 'wall_s': round(time.time() - t1, 1)})
            cov['queries'] += r.queries
            cov['solver_s'] += r.solver_s
            cov['paths'] += r.paths
            cov['decisions'] += r.decisions
            cov['obligations'] += obl
            cov['discharged'] += proved
            cov['undecided'] += und
            cov['replays_ok'] += r.native_ok
            samples += r.samples[:3]
            for v in r.violations:
                viol.append((u, env, v))
            if viol:
                break
        if viol:
            break
    ex.shutdown(wait=False, cancel_futures=True)
    level = 'model_checking'
    evd = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'states': cov['paths'], 'transitions': cov['decisions'], 'traces_validated_against_impl': cov['replays_ok'],
            'samples': samples[:10] or ['none'],
            'obligations': cov['obligations'], 'discharged': cov['discharged'], 'undecided': cov['undecided'],
            'queries_discharged': cov['queries'], 'solver_time_s': round(cov['solver_s'], 2),
            'functions_encoded': sorted(cov['funcs']), 'bounds': prop.get('bounds', ''), 'units': units,
            'build_failures': failed_build,
            'explanation': 'states = complete symbolic paths of the instrumented real code; transitions = solver- or choice-decided branches on them; '
                           'an obligation is one assertion on one path, discharged when z3 answers unsat for (path condition and not assertion)'},
        'assumptions': prop.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evd, f, indent=1, default=str)
    for (kl, kt), v in hit.items():
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kt, kl))
    rc = 0
    if viol:
        u, env, v = viol[0]
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + '.txt')
        with open(path, 'w') as f:
            f.write('# property %s, harness %s, assertion: %s (%s)\n' % (pid, u['harness'], v['label'], v['status']))
            f.write('# native run of the real code with these values: %s\n' % v['native_output'].replace('\n', '\n# '))
            f.write('# re-run: python3-vt %s/engine/replay.py %s\n' % (ROOT, path))
            f.write('#unit %s %s\n' % (pid, u['name']))
            for k, x in env.items():
                f.write('#env %s=%s\n' % (k, x))
            f.write(v['replay'])
        print('assertion failed: %s [%s] %s' % (v['label'], u['harness'], v['status']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif n_ok == 0:
        print('no harness of %s could be built: %s' % (pid, failed_build))
        for r in units:
            print(r.get('build_error', '')[-1500:])
        rc = 2
    else:
        print('%s %s: %d paths, %d obligations, %d discharged, %d undecided, %d queries, %.1f s solver, %.1f s wall%s' % (
            pid, tier, cov['paths'], cov['obligations'], cov['discharged'], cov['undecided'], cov['queries'], cov['solver_s'],
            time.time() - t0, ' build failures: %s' % failed_build if failed_build else ''))
    sys.stdout.flush()
    shutil.rmtree(work, ignore_errors=True)
    os._exit(rc)


if __name__ == '__main__':
    main()
