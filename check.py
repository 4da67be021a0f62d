#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the simulation from /repo's tree,
explores seeded runs, confirms and minimises what it finds, writes evidence."""
import glob, hashlib, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
from checks import CHECKS, RULES, STUB_NOTE
from build_lists import TARGETS

OUT = build.OUT

def merge(d):
    tot = {'stats': {}, 'probes': {}, 'per': {}, 'known': {}, 'known_samples': {}}
    viol, samples, incs, bad = [], [], [], []
    for f in sorted(glob.glob(d + '/w*.json')):
        j = json.load(open(f))
        for k in ('runs', 'ok', 'violations_n', 'inconclusive', 'harness', 'nontrivial', 'replay_checks', 'replay_mismatch', 'sim_seconds', 'steps', 'decisions'):
            tot[k] = tot.get(k, 0) + j[k]
        tot['wall'] = max(tot.get('wall', 0), j['wall'])
        for a, b in (('stats', 'stats'), ('probes', 'probes'), ('known_hits', 'known')):
            for k, v in (j[a] or {}).items(): tot[b][k] = tot[b].get(k, 0) + v
        for k, v in (j['known_samples'] or {}).items(): tot['known_samples'].setdefault(k, v)
        for s, v in (j['per_scenario'] or {}).items():
            q = tot['per'].setdefault(s, {})
            for k, n in v.items(): q[k] = round(q.get(k, 0) + n, 3)
        viol += j['violations']; samples += j['samples']; incs += j['inconclusive_list']; bad += j['bad']
    hs = set(); ss = set()
    for ext, st in (('.hash', hs), ('.sched', ss)):
        for f in glob.glob(d + '/w*' + ext):
            b = open(f, 'rb').read()
            for i in range(0, len(b), 8): st.add(b[i:i + 8])
    tot['distinct_nontrivial'] = len(hs); tot['distinct_schedules'] = len(ss)
    return tot, viol, samples, incs, bad

def replay(binary, f, known, timeout=150):
    r = subprocess.run([binary, 'replay', f, '--known', known], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    try:
        return json.loads(r.stdout)
    except Exception:
        return {'verdict': 'harness', 'detail': r.stdout[-300:], 'tag': '', 'trace_hash': ''}

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    C = CHECKS[prop]
    t0 = time.time()
    if build.build([C['bin']], quiet=True) != 0:
        print('build failed', flush=True); return 2
    tb = time.time() - t0
    binary = '%s/%s' % (OUT, C['bin'])
    known = V + '/known_findings.json'
    budget = C[tier]
    if tier == 'quick': budget = max(20, min(budget, 840 - tb - 150))
    work = '%s/run-%s-%d' % (OUT, prop, os.getpid())
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LC_ALL': 'C', 'HOME': '/root'}
    ncpu = len(os.sched_getaffinity(0))
    cmd = [binary, 'explore', '--scenarios', C['scen'], '--seed', str(seed), '--workers', str(max(2, min(16, ncpu))),
           '--time', str(budget), '--stop', '4', '--out', work, '--known', known]
    rc = subprocess.run(cmd, env=env).returncode
    tot, viol, samples, incs, bad = merge(work)
    ev_viol = []
    confirmed = []
    unconfirmed = []
    os.makedirs(V + '/replays', exist_ok=True)
    groups = {}
    for v in viol: groups.setdefault((v['scenario'], v['expect']['tag']), []).append(v)
    tmin = time.time()
    for key in sorted(groups, key=lambda k: min(len(v['decisions']) for v in groups[k])):
        if confirmed and time.time() - tmin > 30: break
        for v in sorted(groups[key], key=lambda v: len(v['decisions']))[:3]:
            v['property'] = prop
            h = hashlib.sha1(json.dumps([v['scenario'], v['seed']]).encode()).hexdigest()[:10]
            raw = '%s/%s-%s.raw.json' % (work, prop, h)
            json.dump(v, open(raw, 'w'))
            out = '%s/replays/%s-%s.json' % (V, prop, h)
            # reproduce as recorded first
            a = replay(binary, raw, known)
            if a.get('verdict') != 'violation' or a.get('tag') != v['expect']['tag']:
                unconfirmed.append((v, a)); continue
            m = subprocess.run([binary, 'minimise', raw, out, '--time', '15' if tier == 'quick' else '120', '--known', known]).returncode
            if m != 0: shutil.copy(raw, out)
            a, b = replay(binary, out, known), replay(binary, out, known)
            if not (a.get('matches_expect') and b.get('matches_expect')):
                # fall back to the unminimised recording
                shutil.copy(raw, out)
                a, b = replay(binary, out, known), replay(binary, out, known)
            if a.get('verdict') == 'violation' and a.get('trace_hash') == b.get('trace_hash'):
                confirmed.append((v, a, out)); break
            unconfirmed.append((v, a))
    wall = time.time() - t0
    hours = max(tot.get('wall', 1e-9), 1e-9) / 3600
    note = STUB_NOTE[C['bin']]
    faults = {k: tot['stats'].get(k, 0) for k in ('msg_delayed', 'msg_drop_retransmit', 'msg_lost', 'msg_partitioned', 'msg_reordered',
              'recv_timeout', 'throttle_block', 'thread_stall', 'spurious_wakeup', 'io_eio', 'io_enospc', 'io_short', 'io_eintr', 'io_emfile',
              'io_subprocess_fault', 'torn_subprocess_output', 'torn_write_at_kill', 'crash_self_at_point', 'crash_external', 'clock_jump', 'alloc_fail',
              'preempt_sync', 'preempt_mem')}
    known_doc = json.load(open(known))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 1),
        'coverage': {
            'evaluations': tot.get('runs', 0),
            'distinct_nontrivial': tot['distinct_nontrivial'],
            'rule': RULES[prop] + '. Distinct = distinct executed schedule (hash of the sequence of thread switches of all parties) per scenario among the non-trivial runs.',
            'samples': (samples or [{'note': 'no non-trivial run finished'}])[:6],
            'runs_ok': tot.get('ok', 0), 'runs_inconclusive': tot.get('inconclusive', 0), 'runs_violating': tot.get('violations_n', 0),
            'runs_known_finding': sum(tot['known'].values()),
            'runs_per_hour': int(tot.get('runs', 0) / hours), 'seeds_per_hour': int(tot.get('runs', 0) / hours),
            'simulated_seconds': round(tot.get('sim_seconds', 0), 3), 'simulated_steps': tot.get('steps', 0),
            'nondefault_decisions': tot.get('decisions', 0),
            'faults_fired': faults,
            'activity': {k: tot['stats'].get(k, 0) for k in ('context_switches', 'messages', 'io_ops', 'threads', 'memory_accesses')},
            'distinct_schedules': tot['distinct_schedules'],
            'reach_probes': tot['probes'], 'per_scenario': tot['per'],
            'replay_checks': tot.get('replay_checks', 0), 'replay_mismatch': tot.get('replay_mismatch', 0),
            'inconclusive_examples': incs[:4], 'harness_errors': bad[:4],
            'real_components': note['real'], 'stubbed_components': note['stub'],
            'build_s': round(tb, 1),
        },
        'violations': len(confirmed),
        'violation_list': [{'tag': v['expect']['tag'], 'detail': a['detail'], 'seed': v['seed'], 'replay': o} for v, a, o in confirmed],
        'known_findings_seen': tot['known'],
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    print('%s %s: %d runs (%d distinct non-trivial), %d violating, %d known, %d inconclusive, %.0fs build, %.0fs total' % (
        prop, tier, tot.get('runs', 0), tot['distinct_nontrivial'], tot.get('violations_n', 0), sum(tot['known'].values()), tot.get('inconclusive', 0), tb, wall))
    for e in known_doc.get('findings', []):
        if e['property'] == prop:
            print('KNOWN-FINDING: property=%s %s (seen in %d runs)' % (prop, e['what'], tot['known'].get(e['id'], 0)))
    for b in bad[:3]: print('harness:', json.dumps(b)[:400])
    shutil.rmtree(work, ignore_errors=True)
    if confirmed:
        for v, a, o in confirmed:
            print('  %s: %s' % (a['tag'], a['detail'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, o), flush=True)
        return 1
    for v, a in unconfirmed[:3]:
        print('unconfirmed: seed %s %s -> %s' % (v['seed'], v['expect'], json.dumps(a)[:300]))
    if unconfirmed or rc != 0: return 2
    if tot.get('ok', 0) == 0: return 2
    if tot.get('replay_mismatch', 0) > max(2, 0.02 * tot.get('replay_checks', 0)): return 2
    if tot.get('harness', 0) > max(3, 0.02 * tot.get('runs', 0)): return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
