"""
runs one check: feeds cases to worker processes, collects what the monitors observed, writes the
evidence file and gives the verdict
"""
import argparse, collections, hashlib, importlib, json, os, resource, signal, sys, time, traceback
import multiprocessing as mp
import multiprocessing.connection as mpc
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')

CPU_LIMIT = 150          # CPU seconds one case may take; the slowest takes a few seconds
MEM_LIMIT = 6 << 30


class Hang(BaseException):
    """a case used up its CPU time"""


class Skip(Exception):
    """the case does not meet the preconditions of the property"""


def rng_for(*key):
    h = hashlib.sha256('|'.join(map(str, key)).encode()).digest()
    return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))


def short(x, k=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= k else s[:k] + '...'


class Monitor(object):
    """what was observed in one case"""

    def __init__(self):
        self.events = collections.Counter()     # observations checked, by kind
        self.tallies = collections.Counter()    # features of the inputs and behaviours reached
        self.keys = set()                       # distinct non-trivial behaviours
        self.fails = []
        self.skips = collections.Counter()
        self.sample = None

    def event(self, kind, k=1): self.events[kind] += k
    def tally(self, *names):
        for nm in names: self.tallies[str(nm)] += 1

    def seen(self, *key):
        self.keys.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def skip(self, why):
        self.skips[why] += 1

    def fail(self, mech, msg):
        self.fails.append((mech, short(msg, 1500)))

    def true(self, mech, cond, msg=''):
        self.events[mech] += 1
        if not cond: self.fail(mech, msg() if callable(msg) else msg)
        return bool(cond)

    def equal(self, mech, got, want, what=''):
        self.events[mech] += 1
        if not (got == want):
            self.fail(mech, f'{what}: got {short(got)}, expected {short(want)}')
            return False
        return True

    def close(self, mech, got, want, tol=1e-8, scale=None, what=''):
        """
        arrays agree in shape and, elementwise, within tol relative to the size of what is compared
        """
        self.events[mech] += 1
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        except (TypeError, ValueError) as err:
            self.fail(mech, f'{what}: not numbers: {err}: {short(got)}')
            return False
        if g.shape != w.shape:
            self.fail(mech, f'{what}: shape {g.shape}, expected {w.shape}')
            return False
        if g.size == 0: return True
        s = max(1.0, float(np.max(np.abs(w)))) if scale is None else scale
        nan = np.isnan(g) != np.isnan(w)
        with np.errstate(invalid='ignore'):
            bad = nan | (np.abs(g - w) > tol*s) | (np.isinf(g) & ~np.isinf(w))
            bad &= ~(np.isinf(g) & (g == w))
        if bad.any():
            i = tuple(int(t) for t in np.argwhere(bad)[0])
            self.fail(mech, f'{what}: {int(bad.sum())} of {g.size} entries differ (tol {tol:g} x {s:g}); first at {i}: '
                            f'got {g[i]!r}, expected {w[i]!r}; got {short(np.array2string(g, precision=6), 300)} '
                            f'expected {short(np.array2string(w, precision=6), 300)}')
            return False
        return True

    def raises(self, mech, thunk, kinds=Exception, what=''):
        """the call is answered with an exception"""
        self.events[mech] += 1
        try:
            r = thunk()
        except kinds:
            return True
        except Hang:
            raise
        self.fail(mech, f'{what}: accepted, gave {short(r)}')
        return False


class Check(object):
    """base of the checks; one subclass per property"""
    prop = ''
    rule = ''
    assumptions = []
    sizes = dict(quick=200, thorough=2000)
    caps = dict(quick=280, thorough=780)
    min_nontrivial = 5
    explained = {}

    def fixed(self, tier): return []
    def gen(self, rng, i, tier): raise NotImplementedError
    def run(self, case, mon): raise NotImplementedError
    def worker_init(self): pass


# ------------------------------------------------------------------------------ one case

def _on_alarm(*_):
    raise Hang()


def run_case(check, case):
    mon = Monitor()
    t0 = time.time()
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(check, 'cpu_limit', CPU_LIMIT))
    try:
        with np.errstate(all='ignore'):
            check.run(case, mon)
    except Skip as s:
        mon.skip(str(s))
    except Hang:
        mon.fail('no-end', 'the case did not end within the CPU limit:\n' + short(traceback.format_exc(), 1200))
    except MemoryError:
        mon.fail('memory', 'the case used up all memory')
    except Exception as err:
        tb = traceback.format_exc().strip().splitlines()
        mon.fail('exception:' + type(err).__name__, '\n'.join(tb[:1] + tb[-10:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return mon, time.time() - t0


def _worker(check, cases, seed, tier, counter, total, stop, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    check.worker_init()
    while not stop.value:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= total: break
        try:
            case = cases[i] if i < len(cases) else check.gen(rng_for(seed, check.prop, i - len(cases)), i - len(cases), tier)
        except Exception:
            conn.send(('broken', i, traceback.format_exc())); break
        if case is None:
            conn.send(('none', i)); continue
        conn.send(('start', i, case))
        mon, dt = run_case(check, case)
        if mon.sample is None: mon.sample = short(json.dumps(case, default=str), 700)
        conn.send(('done', i, dict(events=mon.events, tallies=mon.tallies, keys=mon.keys, fails=mon.fails,
                                   skips=mon.skips, sample=mon.sample, dt=dt)))
    conn.send(('end',))
    conn.close()


# ------------------------------------------------------------------------------- driver

def load_known(prop):
    out = []
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known:') and f'property={prop} ' in line:
                fields = dict(t.split('=', 1) for t in line[6:].split(' | ')[0].split() if '=' in t)
                out.append((fields.get('mechanism'), fields.get('case'), line.split(' | ', 1)[-1]))
    except FileNotFoundError:
        pass
    return out


def jsonable(x):
    if isinstance(x, np.ndarray): return x.tolist()
    if isinstance(x, np.generic): return x.item()
    if isinstance(x, (set, tuple)): return list(x)
    return str(x)


def find_check(prop):
    for m in sorted(os.listdir(os.path.join(HERE, 'vmon'))):
        if m.startswith('chk_') and m.endswith('.py'):
            mod = importlib.import_module('vmon.' + m[:-3])
            for c in getattr(mod, 'CHECKS', []):
                if c.prop == prop: return c()
    raise SystemExit(f'no check for {prop}')


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0, help='fraction of the usual number of random cases')
    ap.add_argument('--all', action='store_true', help='do not stop early at violations')
    a = ap.parse_args(argv)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)

    try:
        import pynare
    except Exception:
        # a package that cannot be imported has no property
        traceback.print_exc()
        print('the package cannot be imported')
        sys.exit(2)
    check = find_check(a.prop)

    if a.replay:
        d = json.load(open(a.replay))
        check.worker_init()
        mon, dt = run_case(check, d['case'])
        for mech, msg in mon.fails: print(f'[{mech}] {msg}')
        print('events', dict(mon.events), 'skips', dict(mon.skips))
        if mon.fails:
            print(f'VIOLATION property={a.prop} replay={a.replay}')
        sys.exit(1 if mon.fails else 0)

    cases = check.fixed(a.tier)
    total = a.cases if a.cases is not None else len(cases) + int(check.sizes[a.tier]*a.scale)
    cap = check.caps[a.tier]
    counter, stop = mp.Value('l', 0), mp.Value('b', 0)

    ctx = mp.get_context('fork')
    workers = {}

    def spawn():
        r, w = ctx.Pipe(False)
        pr = ctx.Process(target=_worker, args=(check, cases, a.seed, a.tier, counter, total, stop, w), daemon=True)
        pr.start(); w.close()
        workers[r] = [pr, None]

    for _ in range(min(a.jobs, max(1, total))): spawn()

    events, tallies, skips = collections.Counter(), collections.Counter(), collections.Counter()
    keys, fails, samples = set(), [], {}
    done = nones = 0
    slow = (0, None)
    broken = []
    t_fail = None
    truncated = False
    while workers:
        for r in mpc.wait(list(workers), timeout=2):
            try:
                m = r.recv()
            except EOFError:
                pr, cur = workers.pop(r)
                pr.join(5)
                if cur is not None:
                    fails.append((cur[1], 'worker-died', f'the process running this case ended with code {pr.exitcode}'))
                    if not stop.value: spawn()
                continue
            if m[0] == 'start': workers[r][1] = m[1:]
            elif m[0] == 'none': nones += 1
            elif m[0] == 'broken': broken.append(m[2]); stop.value = 1
            elif m[0] == 'done':
                case = workers[r][1][1]; workers[r][1] = None
                d = m[2]; done += 1
                events.update(d['events']); tallies.update(d['tallies']); skips.update(d['skips']); keys |= d['keys']
                if d['keys'] and not d['fails'] and len(samples) < 2000: samples[m[1]] = d['sample']
                if d['dt'] > slow[0]: slow = (d['dt'], short(json.dumps(case, default=jsonable), 300))
                for mech, msg in d['fails']: fails.append((case, mech, msg))
        if fails and t_fail is None: t_fail = time.time()
        if not a.all and ((t_fail and time.time() - t_fail > 8) or len(fails) > 30): stop.value = 1
        if time.time() - t0 > cap and not stop.value: stop.value = 1; truncated = True
        if time.time() - t0 > cap + 60:
            # whoever still runs is stuck
            for pr, cur in workers.values():
                if cur is not None and pr.is_alive():
                    fails.append((cur[1], 'no-end', 'the case was still running when the time was up'))
                pr.kill()
            break
        if stop.value and t_fail and time.time() - t_fail > 30:
            for pr, cur in workers.values(): pr.kill()
            break

    known, new, hit = load_known(a.prop), [], {}
    for case, mech, msg in fails:
        label = case.get('label', '') if isinstance(case, dict) else ''
        k = next((k for k in known if k[0] == mech and k[1] in (None, label)), None)
        if k: hit[k] = hit.get(k, 0) + 1
        else: new.append((case, mech, msg))

    rule = check.rule
    cov = dict(
        evaluations=done, distinct_nontrivial=len(keys), rule=rule,
        samples=[samples[i] for i in sorted(samples)][:3] + [samples[i] for i in sorted(samples)][-2:],
        monitor_observations=dict(sorted(events.items())), reached=dict(sorted(tallies.items())),
        not_judged=dict(skips), generator_rejections=nones, fixed_cases=len(cases), truncated_by_time=truncated,
        slowest_case_s=round(slow[0], 2),
    )
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
              assumptions=list(check.assumptions), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, f'{a.prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=jsonable)

    print(f'{a.prop} {a.tier} seed={a.seed}: {done} cases, {len(keys)} distinct non-trivial, '
          f'{sum(events.values())} observations judged, {sum(skips.values())} not judged, {nones} rejected by the generator, '
          f'{ev["wall_s"]} s' + (' (stopped by the time cap)' if truncated else ''))
    for k, c in hit.items():
        print(f'KNOWN-FINDING: property={a.prop} {k[2]} ({c} observations)')
    if new:
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        by = {}
        for case, mech, msg in new:
            size = len(json.dumps(case, default=jsonable))
            if mech not in by or size < by[mech][0]: by[mech] = (size, case, msg)
        for j, (mech, (_, case, msg)) in enumerate(sorted(by.items(), key=lambda t: t[1][0])[:4]):
            path = os.path.join(EVID, 'replay', f'{a.prop}-{a.seed}-{j}.json')
            with open(path, 'w') as fh:
                json.dump(dict(property=a.prop, mechanism=mech, message=msg, case=case), fh, indent=1, default=jsonable)
            print(f'[{mech}] {msg}')
            print(f'VIOLATION property={a.prop} replay={path}')
        sys.exit(1)
    if broken:
        print(broken[0]); sys.exit(2)
    if len(keys) < check.min_nontrivial and a.cases is None:
        print(f'inconclusive: the monitors judged too little ({len(keys)} distinct cases); not judged: {dict(skips)}')
        sys.exit(2)
    sys.exit(0)
