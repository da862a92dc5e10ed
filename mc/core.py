"""Explorer: enumerates every case of the slices of a check, in parallel,
evaluates the property on each of them on the real code, and writes evidence,
violations and replay files.

A check is a module mc/checks/cNN.py with
  ID, TITLE, BOUNDS (text), ASSUMPTIONS (list)
  tasks(tier)        -> list of picklable task payloads, simplest first
  cases(task)        -> iterator of JSON-able cases of the task (exhaustive)
  evaluate(case, st) -> list of messages, one per violation (empty: it held);
                        counts what it did in st
"""
import faulthandler
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CASE_SECONDS = 30      # a check may set its own
# development only (mutation runs): output elsewhere, every n-th task, no
# confirmation of violations
OUT = os.environ.get('MC_OUT') or VERIF
STRIDE = int(os.environ.get('MC_STRIDE', '1'))
CONFIRM = not os.environ.get('MC_NOCONFIRM')


class Hang(BaseException):
    pass


class Stats(object):
    """Counters of one run, all measured."""

    def __init__(self):
        self.cases = 0
        self.states = 0        # distinct states (inputs/histories) visited
        self.transitions = 0   # operations of the implementation executed
        self.traces = 0        # complete traces compared with the model
        self.outcomes = set()  # hashes of distinct observed outcomes
        self.extra = {}
        self.samples = []

    def outcome(self, obj):
        self.outcomes.add(int(hashlib.md5(
            repr(obj).encode()).hexdigest()[:15], 16))

    def incr(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def merge(self, o):
        self.cases += o.cases
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.outcomes |= o.outcomes
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        if len(self.samples) < 12:
            self.samples.extend(o.samples[:12 - len(self.samples)])


def _alarm(signum, frame):
    raise Hang('no result within the time limit of a case')


def guarded(check, case, st):
    """evaluate with a watchdog; an unexpected exception of the code under
    test is a violation of the property on an accepted input."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL,
                     getattr(check, 'CASE_SECONDS', CASE_SECONDS))
    try:
        return check.evaluate(case, st)
    except Hang as e:
        return ['does not terminate: %s' % e]
    except HarnessError:
        raise
    except MemoryError as e:
        return ['out of memory: %r' % e]
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name)
                            for f in tb[::-1][:4])
        return ['unexpected %s: %s (%s)' % (type(e).__name__,
                                            str(e)[:200], where)]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class HarnessError(Exception):
    """The machinery itself is wrong; never reported as a violation."""


_CHECK = None


def _init(name):
    global _CHECK
    _CHECK = importlib.import_module(name)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass


def _work(job):
    idx, task = job
    st = Stats()
    bad = []
    try:
        for case in _CHECK.cases(task):
            st.cases += 1
            msgs = guarded(_CHECK, case, st)
            if len(st.samples) < 1 and st.cases == 1:
                st.samples.append(case)
            if msgs:
                bad.append((case, msgs[:5]))
                if len(bad) >= 3:
                    break
    except HarnessError:
        return idx, st, bad, traceback.format_exc()
    except Exception:
        return idx, st, bad, traceback.format_exc()
    return idx, st, bad, None


def known_findings(pid):
    """'known: property=<id> case=<json>\t<what>' lines of the file."""
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('known: property=%s ' % pid):
                    head, what = line.rstrip('\n').split('\t', 1)
                    case = json.loads(head.split(' case=', 1)[1])
                    out.append((case, what))
    return out


def write_replay(pid, case, msgs):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': pid, 'case': case, 'violation': msgs,
            'how': 'run: ./run.sh replay <this file>'}
    text = json.dumps(body, indent=1, sort_keys=True)
    name = '%s-%s.json' % (pid, hashlib.md5(
        json.dumps(case, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        f.write(text + '\n')
    return path


def confirm(pid, path):
    """Replay the artefact in two fresh processes."""
    import subprocess
    n = 0
    for _ in range(2):
        try:
            r = subprocess.run([sys.executable, '-m', 'mc', 'replay', path],
                               cwd=VERIF, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=120)
            n += r.returncode == 1
        except Exception:
            pass
    return n


def run(pid, tier):
    name = 'mc.checks.%s' % pid.lower()
    check = importlib.import_module(name)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    deadline = t0 + (660 if tier == 'quick' else 6 * 3600)
    jobs = list(enumerate(check.tasks(tier)))[::STRIDE]
    procs = int(os.environ.get('MC_PROCS', '0')) or os.cpu_count() or 1
    procs = max(1, min(procs, 8, len(jobs)))
    total = Stats()
    bad = []
    capped = False
    done = 0
    known = known_findings(pid)
    hits = []
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(procs, _init, (name,))
    try:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        while done < len(jobs):
            try:
                idx, st, b, err = it.next(timeout=max(
                    1.0, deadline - time.time()))
            except multiprocessing.TimeoutError:
                capped = True
                break
            except StopIteration:
                break
            done += 1
            if err:
                sys.stderr.write(err)
                return 2
            total.merge(st)
            for case, msgs in b:
                k = [w for c, w in known if c == case]
                if k:
                    hits.append((case, k[0]))
                else:
                    bad.append((idx, case, msgs))
            if len(bad) >= 3:
                break
    finally:
        pool.terminate()
        pool.join()
    wall = time.time() - t0
    extra = dict(total.extra)
    cov = {
        'states': total.states,
        'transitions': total.transitions,
        'traces_validated_against_impl': total.traces,
        'samples': total.samples[:8],
        'bounds': check.BOUNDS[tier] if isinstance(check.BOUNDS, dict)
        else check.BOUNDS,
        'tasks_completed': done, 'tasks': len(jobs),
        'exhaustive': bool(done == len(jobs) and not capped and not bad),
        'stopped_by_time_cap': capped,
    }
    if total.outcomes:
        cov['distinct_outcomes'] = len(total.outcomes)
    cov.update(extra)
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': 'model_checking', 'coverage': cov,
          'assumptions': list(check.ASSUMPTIONS), 'wall_s': round(wall, 2),
          'violations': len(bad)}
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d '
          'tasks=%d/%d %.1fs%s' % (
              pid, tier, total.cases, total.states, total.transitions,
              total.traces, len(total.outcomes), done, len(jobs), wall,
              ' CAPPED' if capped else ''))
    if extra:
        print('   ' + ' '.join('%s=%s' % kv for kv in sorted(extra.items())))
    for case, what in hits:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if bad:
        bad.sort(key=lambda b: (len(json.dumps(b[1])), b[0]))
        for _, case, msgs in bad[:3]:
            path = write_replay(pid, case, msgs)
            print('   case: %s' % json.dumps(case)[:600])
            for m in msgs:
                print('   -> %s' % m[:600])
            if CONFIRM:
                print('   reproduced in %d of 2 fresh processes'
                      % confirm(pid, path))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if capped:
        print('   time cap hit: the tasks counted above were fully covered')
    return 0


def replay(path):
    with open(path) as f:
        body = json.load(f)
    check = importlib.import_module('mc.checks.%s' % body['property'].lower())
    st = Stats()
    msgs = guarded(check, body['case'], st)
    print('property', body['property'])
    print('case', json.dumps(body['case'], indent=1))
    for m in msgs:
        print('->', m)
    print('violated' if msgs else 'held')
    return 1 if msgs else 0


def main(argv):
    faulthandler.enable()
    sys.setrecursionlimit(1000)
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        return run(argv[0], tier)
    except Exception:
        traceback.print_exc()
        return 2
