"""Runs one property's check: generate, judge, shrink, report, write evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from collections import Counter
from . import model, sx, drv, shrink
from .build import VERIF, build

KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Res:
    __slots__ = ('kind', 'msg', 'labels', 'nontrivial')

    def __init__(self, kind, msg='', labels=(), nontrivial=False):
        self.kind, self.msg, self.labels, self.nontrivial = kind, msg, labels, nontrivial


class Ctx:
    """what a worker gives to a check: drivers and a scratch directory"""

    def __init__(self, check):
        self.check = check
        self.drivers = {}
        self.tmp = tempfile.mkdtemp(prefix='pscm-%s-' % check.ID, dir=os.environ.get('VERIF_TMP') or None)

    def drv(self, variant='plain'):
        d = self.drivers.get(variant)
        if d is None:
            d = self.drivers[variant] = drv.Driver(variant, cwd=self.tmp, env=getattr(self.check, 'ENV', None))
        return d

    def run(self, forms, mode='p', timeout=3000, variant='plain'):
        try:
            st, data = self.drv(variant).run(forms, mode, timeout)
        except drv.DriverDied:
            self.drivers.pop(variant, None)
            st, data = self.drv(variant).run(forms, mode, timeout)
        if st == 't':
            st, data = self.drv(variant).run(forms, mode, timeout * 8)
        return st, data

    def close(self):
        for d in self.drivers.values():
            d.close()
        shutil.rmtree(self.tmp, ignore_errors=True)


def judge_model(ctx, case, check=None):
    """differential check against the reference interpreter"""
    forms = case['forms']
    try:
        data = [sx.read_one(f) for f in forms]
        m = model.run_program(data, max_steps=case.get('steps', 60000), files=case.get('files'))
    except (model.Unsupported, sx.ReadError, RecursionError) as e:
        return Res('skip', 'model: %s' % (e,), ('skip: %s' % (e,),))
    except (AttributeError, IndexError, TypeError, KeyError) as e:
        return Res('skip', 'model: %r' % (e,), ('skip: malformed',))
    st, out = ctx.run(forms, case.get('mode', 'p'))
    recs, done = drv.parse(out)
    labels = sorted(m.stats)
    nt = check.nontrivial(case, m) if check is not None else True
    if st != '0':
        return Res('fail', 'the interpreter ended with %s after %d records; expected %s' % (
            drv_status(st), len(recs), brief(m.recs)), labels, nt)
    msg = drv.agree(m.recs, recs)
    if msg:
        return Res('fail', msg, labels, nt)
    return Res('ok', '', labels, nt)


def errors_of(case):
    """how many top-level forms end in an error by the model (shrinking must not add any)"""
    try:
        m = model.run_program([sx.read_one(f) for f in case['forms']], max_steps=case.get('steps', 60000), files=case.get('files'))
        return sum(1 for r in m.recs if r[0] == 'E')
    except Exception:
        return 0


def drv_status(st):
    if st == 't':
        return 'no end within the CPU limit'
    if st.startswith('s'):
        return 'signal ' + st[1:]
    return 'exit code ' + st[1:]


def brief(recs):
    return ', '.join(drv.show(r) for r in recs[-3:])


class Check:
    ID = ''
    TECH = 'model-based property testing: random programs against a reference interpreter'
    RULE = ''
    N = {'quick': 40000, 'thorough': 600000}
    LEVEL = 'exploration'
    ASSUME = []

    def gen(self, rng):
        raise NotImplementedError

    def judge(self, ctx, case):
        return judge_model(ctx, case, self)

    def nontrivial(self, case, m):
        return True

    def fixed_cases(self):
        """regression cases, always run first"""
        return corpus(self.ID)

    def shrink(self, ctx, case):
        limit = errors_of(case)

        def fails(fs):
            c = dict(case)
            c['forms'] = fs
            return self.judge(ctx, c).kind == 'fail' and errors_of(c) <= limit
        c = dict(case)
        c['forms'] = shrink.shrink_forms(list(case['forms']), fails)
        return c

    def show(self, case):
        return '\n'.join(case['forms']) if 'forms' in case else json.dumps(case)


def corpus(pid):
    """known/<id>.scm: cases separated by blank lines; lines starting with ;; are comments"""
    out = []
    p = os.path.join(VERIF, 'known', pid + '.scm')
    if not os.path.exists(p):
        return out
    with open(p) as f:
        for blk in f.read().split('\n\n'):
            lines = [x for x in blk.split('\n') if x.strip() and not x.startswith(';;')]
            if lines:
                out.append({'forms': [sx.text(d) for d in sx.read_all('\n'.join(lines))]})
    return out


def known(pid):
    """list of (case, text) known findings of this property"""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get('property') == pid and d.get('status') == 'known':
                        out.append(d)
    return out


def load(pid):
    return importlib.import_module('checks.' + pid.lower()).CHECK


# ---- workers ----
_ctx = None
_check = None


def _init(pid):
    global _ctx, _check
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    _check = load(pid)
    _ctx = Ctx(_check)
    import atexit
    from multiprocessing import util
    util.Finalize(None, _ctx.close, exitpriority=10)


def casekey(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).digest()[:8]


def _work(a):
    pid, tier, seed, lo, hi, deadline = a
    n = Counter()
    labels = Counter()
    keys = set()
    samples = []
    fails = []
    for i in range(lo, hi):
        if time.time() > deadline:
            n['notrun'] += hi - i
            break
        rng = random.Random('%s:%s:%d' % (seed, pid, i))
        _check.tier = tier
        try:
            case = _check.gen(rng)
        except RecursionError:
            n['generr'] += 1
            continue
        try:
            r = _check.judge(_ctx, case)
        except Exception:
            # a mistake of the check's own code: never an alarm, but never silent either
            traceback.print_exc()
            n['harness'] += 1
            r = Res('skip', 'error in the check', ('skip: error in the check',))
        n['cases'] += 1
        n[r.kind] += 1
        for l in r.labels:
            labels[l] += 1
        if r.kind != 'skip' and r.nontrivial:
            n['nontrivial'] += 1
            keys.add(casekey(case))
            if len(samples) < 2:
                samples.append(_check.show(case)[:1200])
        if r.kind == 'fail':
            if confirm(case):
                fails.append((i, case, r.msg))
                if len(fails) >= 3:
                    break
            else:
                n['unstable'] += 1
    return dict(n), dict(labels), keys, samples, fails


def confirm(case):
    """the failure must repeat three times with a fresh interpreter process"""
    for _ in range(3):
        for d in _ctx.drivers.values():
            d.close()
        _ctx.drivers.clear()
        if _check.judge(_ctx, case).kind != 'fail':
            return False
    return True


def _shrink(a):
    i, case, msg = a
    if os.environ.get('VERIF_NO_SHRINK'):
        return i, case, msg
    try:
        c = _check.shrink(_ctx, case)
        r = _check.judge(_ctx, c)
        if r.kind == 'fail':
            return i, c, r.msg
    except Exception:
        traceback.print_exc()
    return i, case, msg


def main(pid, tier, seed, workers=8, scale=1.0, quiet=False, no_known=False):
    t0 = time.time()
    check = load(pid)
    check.tier = tier
    for v in getattr(check, 'VARIANTS', ['plain']):
        build(v)
    if hasattr(check, 'prepare'):
        check.prepare()
    total = max(workers, int(check.N[tier] * scale))
    chunk = max(1, min(getattr(check, 'CHUNK', 200), total // (workers * 4) or 1))
    limit = {'quick': 420, 'thorough': 3000}[tier]
    deadline = t0 + limit
    tot = Counter()
    labels = Counter()
    keys = set()
    samples = []
    fails = []
    knownmsgs = []
    # corpus and known findings in this process
    sys.setrecursionlimit(20000)
    global _ctx, _check
    _check = check
    _ctx = Ctx(check)
    try:
        for c in check.fixed_cases():
            r = check.judge(_ctx, c)
            tot['corpus'] += 1
            if r.kind == 'fail' and confirm(c):
                fails.append((-1, c, r.msg))
            if r.kind == 'skip':
                tot['corpus-skip'] += 1
                if not quiet:
                    print('note: corpus case not judged (%s): %s' % (r.msg, check.show(c)[:200]))
        if not no_known:
            for k in known(pid):
                r = check.judge(_ctx, k['case'])
                if r.kind == 'fail':
                    knownmsgs.append(k['what'])
    finally:
        _ctx.close()
    for w in knownmsgs:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    jobs = [(pid, tier, seed, lo, min(lo + chunk, total), deadline) for lo in range(0, total, chunk)]
    ctxm = mp.get_context('fork')
    root = os.environ['VERIF_TMP'] = tempfile.mkdtemp(prefix='pscm-verif-')
    if not fails:
        with ctxm.Pool(workers, _init, (pid,)) as pool:
            for n, lb, ks, sm, fl in pool.imap_unordered(_work, jobs):
                tot.update(n)
                labels.update(lb)
                keys |= ks
                if len(samples) < 6:
                    samples += sm
                fails += fl
                if len(fails) >= 4 or (fails and time.time() > t0 + 120):
                    break
            fails.sort(key=lambda f: (f[0], len(str(f[1]))))
            if fails:
                pool.terminate()
        if fails:
            with ctxm.Pool(min(4, workers), _init, (pid,)) as pool:
                fails = pool.map(_shrink, fails[:4], 1)
                pool.close()
                pool.join()
            fails.sort(key=lambda f: len(check.show(f[1])))
    shutil.rmtree(root, ignore_errors=True)
    del os.environ['VERIF_TMP']
    wall = time.time() - t0
    rep = []
    if fails:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        for i, case, msg in fails:
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join('replay', '%s-%s.json' % (pid, h))
            with open(os.path.join(VERIF, path), 'w') as f:
                json.dump({'property': pid, 'seed': seed, 'index': i, 'message': msg, 'case': case}, f, indent=1)
            rep.append((path, msg, check.show(case)))
    cov = {
        'evaluations': tot['cases'] + tot['corpus'],
        'distinct_nontrivial': len(keys),
        'rule': check.RULE,
        'samples': samples[:6] or ['(none)'],
        'judged_ok': tot['ok'], 'not_judged': tot['skip'], 'failed': tot['fail'], 'unstable': tot['unstable'],
        'not_run_for_time': tot['notrun'], 'corpus_cases': tot['corpus'],
        'classes': dict(sorted(labels.items(), key=lambda x: -x[1])[:60]),
        'known_findings_seen': len(knownmsgs),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': check.LEVEL, 'coverage': cov,
          'wall_s': round(wall, 2), 'violations': [{'replay': p, 'message': m[:500]} for p, m, _ in rep]}
    if check.ASSUME:
        ev['assumptions'] = check.ASSUME
    if not os.environ.get('VERIF_NO_EVIDENCE'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    if not quiet:
        print('%s %s seed=%d: %d cases, %d non-trivial distinct, %d not judged, %d failed, %d unstable, %d not run, %.1f s' % (
            pid, tier, seed, cov['evaluations'], len(keys), tot['skip'], tot['fail'] + (1 if tot['corpus'] and fails and fails[0][0] < 0 else 0),
            tot['unstable'], tot['notrun'], wall))
    for p, m, s in rep:
        print('--- %s\n%s' % (m, s))
    if rep:
        print('VIOLATION property=%s replay=%s' % (pid, rep[0][0]))
        return 1
    if tot['harness'] > 0.01 * tot['cases'] + 5:
        print('error: the check itself failed on %d cases' % tot['harness'])
        return 2
    if tot['ok'] < 0.3 * max(1, tot['cases']) and total > 100:
        print('error: too few cases were judged')
        return 2
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    check = load(d['property'])
    global _ctx, _check
    _check = check
    check.tier = 'quick'
    if hasattr(check, 'prepare'):
        check.prepare()
    ctx = _ctx = Ctx(check)
    try:
        r = check.judge(ctx, d['case'])
        print(check.show(d['case']))
        print(r.kind, r.msg)
    finally:
        ctx.close()
    if r.kind == 'fail':
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    return 0
