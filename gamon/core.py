"""Runner: cases -> parallel workers -> verdict, evidence, replay."""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GAMON_REPO', '/repo')
NPROC = int(os.environ.get('GAMON_PROCS', '8'))


class Timeout(BaseException):
    pass


class HarnessError(Exception):
    pass


class Rec:
    """What the monitors saw during one case."""

    def __init__(self, prop, spec):
        self.prop = prop
        self.spec = spec
        self.events = {}
        self.keys = set()
        self.violations = []
        self.notes = {}

    def event(self, kind, key=None, n=1):
        """One monitored observation that an oracle decided."""
        self.events[kind] = self.events.get(kind, 0) + n
        if key is not None:
            self.keys.add(hashlib.md5(('%s|%s' % (kind, key)).encode()).hexdigest()[:16])

    def note(self, kind, n=1):
        self.notes[kind] = self.notes.get(kind, 0) + n

    def violate(self, sig, msg):
        if len(self.violations) < 20:
            self.violations.append({'sig': sig, 'msg': str(msg)[:1500]})

    def check(self, ok, kind, key, sig, msg):
        self.event(kind, key)
        if not ok:
            self.violate(sig, msg() if callable(msg) else msg)
        return ok


def lib_frames(tb):
    """True when the exception was raised from inside galgebra (or sympy called by it)."""
    seen = False
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep):
            seen = True
        elif os.sep + 'gamon' + os.sep in f.filename:
            seen = False
    return seen


def sympy_internal(e):
    """A crash inside sympy's own simplifiers (not galgebra's doing)."""
    fs = [f.filename.replace(os.sep, '/') for f in traceback.extract_tb(e.__traceback__)]
    if not fs or not any('/sympy/simplify/' in f for f in fs):
        return False
    return ((isinstance(e, ZeroDivisionError) and '/sympy/polys/' in fs[-1]) or
            (isinstance(e, NotImplementedError) and '/sympy/simplify/' in fs[-1]))


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def load_check(prop):
    return importlib.import_module('gamon.checks.' + prop.lower())


def run_case(prop, spec, tmo):
    mod = load_check(prop)
    rec = Rec(prop, spec)
    t0 = time.time()
    status = 'ok'

    def on_alarm(signum, frame):
        raise Timeout()
    signal.signal(signal.SIGALRM, on_alarm)
    # random_crc: galgebra/sympy do not draw from the global RNG for values, but keep it pinned
    random.seed(str(spec))
    signal.setitimer(signal.ITIMER_REAL, tmo)
    try:
        with quiet():
            mod.run(spec, rec)
    except Timeout:
        status = 'timeout'
    except Exception as e:  # noqa: BLE001
        signal.setitimer(signal.ITIMER_REAL, 0)
        if type(e).__name__ in ('Malformed', 'NonFinite'):
            # an object read back from the library does not denote a multivector
            rec.event('unreadable', str(spec))
            rec.violate('unreadable:' + type(e).__name__, '%s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-4:])))
        elif sympy_internal(e):
            rec.note('sympy-simplifier-crash')
        elif lib_frames(e.__traceback__):
            rec.event('raised', str(spec))
            last = [f for f in traceback.extract_tb(e.__traceback__)
                    if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)][-1]
            rec.violate('exception:%s:%s' % (type(e).__name__, last.name),
                        'unexpected %s: %s\n%s' % (type(e).__name__, e,
                                                   ''.join(traceback.format_tb(e.__traceback__)[-6:])))
        elif isinstance(e, (HarnessError, MemoryError, OSError, ImportError)):
            status = 'harness-error: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])
        else:
            # the monitor could not read what the library returned (None, a wrong type, a missing attribute):
            # no workload does this on results that have the documented type
            last = traceback.extract_tb(e.__traceback__)[-1]
            rec.event('unreadable', str(spec))
            rec.violate('unreadable:%s:%s' % (type(e).__name__, last.name),
                        'a result of the library does not have the documented type: %s: %s\n%s' % (
                            type(e).__name__, e, traceback.format_exc()[-3000:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {'spec': spec, 'status': status, 'events': rec.events, 'keys': list(rec.keys),
            'violations': rec.violations, 'notes': rec.notes, 'secs': time.time() - t0}


def _worker(args):
    return run_case(*args)


def known_findings():
    """``finding:`` lines of known_findings.txt: [(prop, sig, text)]."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--limit', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    prop, tier, seed = a.prop, a.tier, a.seed
    sys.path.insert(0, REPO)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    from . import ref
    ref.self_test()
    import galgebra
    where = os.path.realpath(os.path.dirname(galgebra.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'galgebra')):
        print('ERROR: galgebra imported from', where, 'not', REPO)
        return 2
    mod = load_check(prop)
    kf = [k for k in known_findings() if k[0] == prop]

    if a.replay:
        d = json.load(open(a.replay))
        r = run_case(prop, d['spec'], 600)
        print(json.dumps({k: r[k] for k in ('status', 'events', 'violations')}, indent=1))
        bad = [v for v in r['violations'] if not any(v['sig'] == k[1] for k in kf)]
        if bad:
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        return 0

    t0 = time.time()
    cases = list(mod.cases(tier, seed))
    if a.family:
        cases = [c for c in cases if re.search(a.family, str(c.get('family')))]
    if a.limit:
        cases = cases[:a.limit]
    tmo = getattr(mod, 'CASE_TIMEOUT', {}).get(tier, 60 if tier == 'quick' else 240)
    hard = float(os.environ.get('GAMON_WALL', 600 if tier == 'quick' else 3000))
    # longest-looking families first is not known; deterministic shuffle spreads heavy cases
    random.Random(seed).shuffle(cases)
    results = []
    dropped = 0
    ctx = mp.get_context('fork')
    with ctx.Pool(min(NPROC, max(1, len(cases))), maxtasksperchild=1 if getattr(mod, 'FRESH', False) else 60) as pool:
        it = pool.imap_unordered(_worker, [(prop, c, c.get('tmo', tmo) if tier == 'quick' else tmo) for c in cases], chunksize=1)
        for i in range(len(cases)):
            left = hard - (time.time() - t0)
            try:
                r = it.next(timeout=max(left, 0.01))
            except mp.TimeoutError:
                dropped = len(cases) - i
                pool.terminate()
                break
            results.append(r)
            if a.v:
                print(r['spec'], r['status'][:300], round(r['secs'], 2), r['events'], r['violations'], flush=True)
    return finish(mod, prop, tier, seed, cases, results, dropped, kf, t0, a)


def finish(mod, prop, tier, seed, cases, results, dropped, kf, t0, a):
    events, notes, keys, fam = {}, {}, set(), {}
    vio, harness, timeouts = [], [], []
    for r in results:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v
        keys.update(r['keys'])
        f = r['spec'].get('family', '?')
        fam[f] = fam.get(f, 0) + 1
        if r['status'] == 'timeout':
            timeouts.append(r['spec'])
        elif r['status'] != 'ok':
            harness.append((r['spec'], r['status']))
        for v in r['violations']:
            vio.append((r['spec'], v))
    known, new = {}, []
    for spec, v in vio:
        k = [x for x in kf if x[1] == v['sig']]
        if k:
            known.setdefault(k[0], []).append((spec, v))
        else:
            new.append((spec, v))
    for k in known:
        print('KNOWN-FINDING: property=%s %s [%d occurrence(s)]' % (prop, k[2], len(known[k])))
    total = sum(events.values())
    wall = time.time() - t0
    # replays
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    lines = []
    seen = set()
    for spec, v in new:
        if v['sig'] in seen or len(seen) >= 10:
            continue
        seen.add(v['sig'])
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.md5(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (prop, h))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'spec': spec, 'violation': v}, fh, indent=1)
        print('--- %s: %s' % (v['sig'], v['msg'][:800]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    rng = random.Random(seed)
    ok = [r for r in results if r['status'] == 'ok' and r['events']]
    samples = [{'case': r['spec'], 'observed': r['events']} for r in rng.sample(ok, min(6, len(ok)))]
    expected = getattr(mod, 'REQUIRED', [])
    missing = [k for k in expected if not any(re.fullmatch(k, e) for e in events)]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': samples,
            'cases_run': len(results), 'cases_by_family': fam,
            'observed_events': dict(sorted(events.items())),
            'case_timeouts': len(timeouts), 'cases_dropped_at_wall_limit': dropped,
            'skipped': notes,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    if not (a.family or a.limit):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    print('%s tier=%s seed=%d cases=%d events=%d distinct=%d timeouts=%d dropped=%d wall=%.1fs' % (
        prop, tier, seed, len(results), total, len(keys), len(timeouts), dropped, wall))
    if a.v or a.family:
        print(events, notes)
    for l in lines:
        print(l)
    if lines:
        return 1
    if harness:
        print('HARNESS ERROR in %d case(s); first: %s\n%s' % (len(harness), harness[0][0], harness[0][1]))
        return 2
    if total == 0 or (missing and not (a.family or a.limit)):
        print('INCONCLUSIVE: monitors observed %d events; missing kinds: %s' % (total, missing))
        return 2
    if len(timeouts) + dropped > max(3, 0.25 * len(cases)):
        print('INCONCLUSIVE: too many cases unfinished; timeouts', timeouts[:5])
        return 2
    if timeouts:
        print('timeouts (not judged):', json.dumps(timeouts[:5]))
    return 0


if __name__ == '__main__':
    sys.exit(main())
