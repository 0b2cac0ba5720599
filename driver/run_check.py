#!/opt/veriftools/pyvenv/bin/python
"""run_check.py ID: decides one property by generated cases (see DESIGN.md).

Environment: VERIF_SEED, VERIF_TIER (quick|thorough). Exit 0: held on every
case; exit 1 with 'VIOLATION property=ID replay=PATH'; exit 2: the check itself
could not run (reported on stderr).
"""
import argparse
import collections
import glob
import hashlib
import importlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B          # noqa: E402
from worker import Worker  # noqa: E402


def spec_of(pid):
    sys.path.insert(0, os.path.join(HERE, 'props'))
    return importlib.import_module(pid.lower())


def canon(case):
    return json.dumps(case, sort_keys=True)


def evaluate(spec, worker, case, np, timeout, retry=True):
    """One evaluation of the property: worker checks + Python-side oracle."""
    if 'sub' in case:
        np = len(case['sub'])
    r = worker.run(case, timeout)
    if r.get('harness'):
        raise RuntimeError('harness: %s on %s' % (r['harness'], canon(case)))
    if not r['fails'] and hasattr(spec, 'post'):
        out = spec.post(case, r['info'], np)
        r['fails'] = list(out.get('fails', []))
        r['nt'] = r['nt'] or out.get('nt', False)
        r['labels'] = r['labels'] + list(out.get('labels', []))
    if r['fails'] and retry and hasattr(spec, 'alternatives'):
        # numerically unlucky cases (see DESIGN.md): a failure counts only if the
        # equivalent cases fail as well
        for alt in spec.alternatives(case, r):
            a = evaluate(spec, worker, alt, np, timeout, False)
            if not a['fails']:
                a['labels'] = a['labels'] + ['unlucky, alternative passed']
                return a
    return r


def confirm(spec, exe, base, np, threads, history, timeout, times=3):
    """The result iff the last case of history fails each time on fresh workers.

    A property of schedules sets CONFIRM = (a, b) instead: a times out of b."""
    need, times = getattr(spec, 'CONFIRM', (times, times))
    bad, worst = 0, None
    for k in range(times):
        last = None
        w = Worker(exe, np, base, threads)
        try:
            for c in history:
                last = evaluate(spec, w, c, np, timeout)
                if last['fails'] and c is not history[-1]:
                    break
        finally:
            w.stop()
        if last and last['fails']:
            bad, worst = bad + 1, last
        if bad >= need:
            return worst
        if bad + times - k - 1 < need:
            return None
    return worst if bad >= need else None


def on_part(shards, scale=0.12):
    """Shards that run problems on some of the processes only, in another order."""
    from hypothesis import strategies as st
    if all(sh.get('np', 1) == 1 for sh in shards):
        return []
    out = []
    for np, world in ((1, 2), (2, 3), (3, 3)):
        for sh in shards:
            if sh.get('np', 1) == np and sh.get('strategy') is not None and sh.get('threads', 1) == 1 and sh['n'] >= 40:
                subs = [list(s) for s in itertools.permutations(range(world), np) if list(s) != list(range(np))]
                out.append(dict(sh, np=world, name='on ranks', n=max(8, int(scale * sh['n'])), strategy=st.tuples(sh['strategy'], st.sampled_from(subs)).map(
                    lambda t: dict(t[0], sub=t[1]))))
                break
    return out


def run_shard(spec, exe, base, sh, seed, cap):
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
    import hypothesis.errors as HE
    try:  # independent cases: every second one would be a mutation of the one before
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        ConjectureRunner.generate_mutations_from = lambda self, data: None
    except (ImportError, AttributeError):
        pass
    np, n, threads = sh.get('np', 1), sh['n'], sh.get('threads', 1)
    timeout = sh.get('timeout', 60)
    w = Worker(exe, np, base, threads)
    st = dict(np=np, threads=threads, evaluations=0, nontrivial=[], labels=collections.Counter(), samples=[],
              skipped=0, sec=0.0, max_sec=0.0, excluded=0, flaky=[], shard=sh.get('name', ''))
    t0 = time.time()
    fail = {}              # canon -> (result, history)
    found = [None]
    nts = set()
    known = getattr(spec, 'is_known', None)

    class Bad(Exception):
        pass

    def body(case):
        if 'np' in case and case['np'] != np:
            case = dict(case)
        key = canon(case)
        now = time.time()
        if found[0] is None:
            if now - t0 > cap:
                st['skipped'] += 1
                return
        else:
            if key in fail:
                raise Bad(key)
            if now - found[0] > sh.get('shrink', 45):
                return
        r = evaluate(spec, w, case, np, timeout)
        st['evaluations'] += 1
        st['sec'] += r['sec']
        st['max_sec'] = max(st['max_sec'], r['sec'])
        if r['fails'] and known and known(case, len(case.get('sub', range(np))), r):
            st['excluded'] += 1
            return
        for lab in set(r['labels']):
            st['labels'][lab] += 1
        if r['nt'] and not r['fails']:
            h = hashlib.sha1((key + str(np)).encode()).hexdigest()[:16]
            if h not in nts:
                nts.add(h)
                if len(st['samples']) < 3 and len(nts) % 7 in (1, 3):
                    st['samples'].append({'np': np, 'case': case})
        if r['fails']:
            fail[key] = (case, r, list(w.history))
            if found[0] is None:
                found[0] = time.time()
            raise Bad(key)

    # regression corpus first
    todo = [e['case'] for e in sh.get('corpus', [])]
    try:
        for c in todo:
            try:
                body(c)
            except Bad:
                break
        if not fail and n > 0:
            test = settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
                            suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False)(
                hseed(seed)(given(sh['strategy'])(lambda case: body(case))))
            try:
                test()
            except Bad:
                pass
            except (HE.Flaky, HE.FlakyFailure, ExceptionGroup) as e:
                if not fail:
                    raise
    finally:
        w.stop()
    viol = None
    # smallest failing cases first; a case counts only if it fails again, thrice
    for key in sorted(fail, key=lambda k: (len(k), k))[:3]:
        case, r, hist = fail[key]
        again = confirm(spec, exe, base, np, threads, [case], timeout * 1.5)
        if again:
            viol = dict(np=np, threads=threads, history=[case], fails=again['fails'])
            break
    if fail and not viol:
        # depends on what ran before in the same process?
        key = min(fail, key=lambda k: len(fail[k][2]))
        case, r, hist = fail[key]
        hist = hist[-60:] if len(hist) > 60 else hist
        again = confirm(spec, exe, base, np, threads, hist, timeout * 1.5)
        if again:
            viol = dict(np=np, threads=threads, history=hist, fails=again['fails'])
        else:
            st['flaky'].append({'case': case, 'fails': r['fails'][:3]})
    st['nontrivial'] = sorted(nts)
    st['labels'] = dict(st['labels'])
    st['violation'] = viol
    st['wall'] = time.time() - t0
    return st


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--exe')
    ap.add_argument('--base')
    ap.add_argument('--out')
    ap.add_argument('--scale', type=float, default=float(os.environ.get('VF_SCALE', '1')))
    a = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    spec = spec_of(a.id)
    shards = spec.shards(tier)
    shards += on_part(shards)
    cfile = os.path.join(VERIF, 'corpus', a.id + '.jsonl')
    corpus = [json.loads(x) for x in open(cfile) if x.strip()] if os.path.exists(cfile) else []
    seen = set()
    for sh in shards:
        k = (sh.get('np', 1), sh.get('threads', 1))
        sh['corpus'] = []
        if k not in seen:
            seen.add(k)
            sh['corpus'] = [e for e in corpus if (e.get('np', 1), e.get('threads', 1)) == k]
    for k in sorted({(e.get('np', 1), e.get('threads', 1)) for e in corpus} - seen):
        shards.append(dict(np=k[0], threads=k[1], n=0, strategy=None,
                           corpus=[e for e in corpus if (e.get('np', 1), e.get('threads', 1)) == k]))
    cap = getattr(spec, 'CAP', {}).get(tier, 60 if tier == 'quick' else 900)
    if a.shard is not None:
        sh = shards[a.shard]
        sh['n'] = max(1, int(sh['n'] * a.scale)) if sh['n'] else 0
        try:
            st = run_shard(spec, a.exe, a.base, sh, seed * 1000 + a.shard, cap)
        except BaseException:
            st = {'error': traceback.format_exc()[-4000:]}
        with open(a.out + '.tmp', 'w') as f:
            json.dump(st, f)
        os.replace(a.out + '.tmp', a.out)
        return 0

    t0 = time.time()
    try:
        exe, tb = B.build(getattr(spec, 'BIN', a.id), spec.SRC, spec.GROUP, getattr(spec, 'PCH', True))
    except B.BuildError as e:
        sys.stderr.write('build failed\n%s\n' % e)
        return 2
    base = tempfile.mkdtemp(prefix='vf', dir='/tmp')
    res = [None] * len(shards)
    try:
        procs = []
        pending = list(range(len(shards)))
        running = {}
        slots = 9
        stop_at = None
        while pending or running:
            used = sum(shards[i].get('np', 1) * shards[i].get('threads', 1) for i in running)
            for i in list(pending):
                need = shards[i].get('np', 1) * shards[i].get('threads', 1)
                if not running or used + need <= slots:
                    out = os.path.join(base, 's%d.json' % i)
                    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), a.id, '--shard', str(i), '--exe', exe,
                                          '--base', base, '--out', out, '--scale', str(a.scale)],
                                         stdout=subprocess.DEVNULL, start_new_session=True)
                    running[i] = (p, out)
                    pending.remove(i)
                    used += need
            time.sleep(0.1)
            for i in list(running):
                p, out = running[i]
                if p.poll() is not None:
                    del running[i]
                    res[i] = json.load(open(out)) if os.path.exists(out) else {'error': 'shard died with %s' % p.returncode}
                    if res[i].get('violation') and stop_at is None:
                        stop_at = time.time() + 3
            if stop_at and time.time() > stop_at:
                pending = []
                for i, (p, out) in list(running.items()):
                    # the shard's workers are in sessions of their own: find them by their scratch path
                    import signal
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    res[i] = {'cancelled': True}
                running = {}
                subprocess.run(['pkill', '-KILL', '-f', base + '/'])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    errors = [r['error'] for r in res if r and r.get('error')]
    done = [r for r in res if r and 'evaluations' in r]
    viols = [r['violation'] for r in done if r.get('violation')]
    labels = collections.Counter()
    nts = set()
    for r in done:
        labels.update(r['labels'])
        nts.update(r['nontrivial'])
    ev = {
        'property': a.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in done),
            'distinct_nontrivial': len(nts),
            'rule': spec.RULE,
            'samples': [s for r in done for s in r['samples']][:8],
            'labels': dict(sorted(labels.items())),
            'shards': [{k: r[k] for k in ('np', 'threads', 'evaluations', 'skipped', 'excluded', 'max_sec', 'wall', 'shard')} for r in done],
            'regression_cases': len(corpus),
            'not_reproduced': [x for r in done for x in r['flaky']],
            'build_s': round(tb, 1),
        },
        'assumptions': getattr(spec, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d evaluations, %d distinct non-trivial, %.1f s (build %.1f s)' % (
        a.id, ev['coverage']['evaluations'], len(nts), ev['wall_s'], tb))
    for x in ev['coverage']['not_reproduced']:
        print('note: not reproduced, not reported: %s' % json.dumps(x)[:600])
    kf = os.path.join(VERIF, 'known_findings.json')
    for f in (json.load(open(kf))['findings'] if os.path.exists(kf) else []):
        if f['property'] == a.id and f.get('status') == 'open':
            print('KNOWN-FINDING: property=%s %s' % (a.id, f['what']))
    if viols:
        v = min(viols, key=lambda v: (len(v['history']), len(canon(v['history']))))
        v['property'] = a.id
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (a.id, hashlib.sha1(canon(v).encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('case (np=%d): %s' % (v['np'], canon(v['history'][-1])[:1500]))
        for m in v['fails'][:5]:
            print('  ' + m[:700])
        print('VIOLATION property=%s replay=%s' % (a.id, path))
        return 1
    if errors:
        sys.stderr.write('check error:\n' + '\n'.join(errors) + '\n')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
