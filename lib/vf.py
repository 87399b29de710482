"""
Common frame of all checks: seeded cases, time budgets, verdicts, evidence,
replay files and known findings.

A check is a module ``checks/<id>.py`` with a function ``run(ctx)``.  It drives
the real code of /repo through generated workloads, every observation is handed
to an oracle (a plain reference model in the check), and a difference is
reported with ``ctx.violation``.
"""
import faulthandler
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


# errors of the file system that tell about files, not about the machine
MISPLACED = (FileNotFoundError, FileExistsError, NotADirectoryError,
             IsADirectoryError)


# seconds after which quick checks look at their time limits
PATIENCE = 300


class Stop(Exception):
    """ends the run, the verdict is already recorded"""


class Violation(Exception):
    def __init__(self, message, key=None, witness=None):
        super().__init__(message)
        self.key = key
        self.witness = witness


class Stuck(BaseException):
    """an operation that normally takes milliseconds did not come back"""


class Inconclusive(Exception):
    pass


def load_findings():
    """key -> text of the findings listed (not the fixed ones), by property"""
    found = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as reader:
            for line in reader:
                if not line.startswith('finding:'):
                    continue
                parts = line.split(None, 3)
                prop = parts[1].split('=', 1)[1]
                key = parts[2].split('=', 1)[1]
                found.setdefault(prop, {})[key] = parts[3].strip()
    return found


class Ctx:
    def __init__(self, prop, tier, seed, level='exploration', replay=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.level = level
        self.quick = tier != 'thorough'
        self.start = time.monotonic()
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.evaluations = 0
        self.rule = ''
        self.assumptions = []
        self.violations = []
        self.known_seen = {}
        self.known = load_findings().get(prop, {})
        self.replay = replay
        self.current = None
        self.trace = []
        self.required = {}
        self.scratch = tempfile.mkdtemp(prefix=f'vf-{prop}-')
        self.lock = threading.Lock()
        self.max_violations = 3

    # ---- observations -------------------------------------------------
    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def peak(self, name, value):
        with self.lock:
            self.counters[name] = max(self.counters.get(name, value), value)

    def saw(self, *what):
        """records a distinct, non-trivial thing that was observed"""
        digest = hashlib.blake2b(repr(what).encode('utf-8', 'replace'),
                                 digest_size=10).digest()
        with self.lock:
            self.distinct.add(digest)

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def require(self, **minimum):
        """counters that must be reached, or the run is inconclusive"""
        self.required.update(minimum)

    def step(self, *op):
        """remembers an operation of the current case for the witness"""
        self.trace.append(op)
        if len(self.trace) > 400:
            del self.trace[:100]

    # ---- cases --------------------------------------------------------
    def cases(self, name, count, seconds=None, stuck=120):
        """
        Yields a seeded Random per case.  Ends after ``count`` cases or (with
        at least one case done) after ``seconds``.  A quick check has a fixed
        number of cases, so that it sees the same on a slow machine; the time
        only matters when it takes very long.
        """
        if self.replay and self.replay.get('case') != name:
            return
        begin = time.monotonic()
        wanted = range(count)
        if self.replay:
            wanted = [self.replay['index']]
        for index in wanted:
            if seconds and index and not self.replay \
                    and time.monotonic() - begin > seconds \
                    and not (self.quick and
                             time.monotonic() - self.start < PATIENCE):
                break
            self.current = (name, index)
            self.trace = []
            self.evaluations += 1
            rng = random.Random(f'{self.seed}:{name}:{index}')
            rng.case_index = index
            self._alarm(stuck)
            yield rng
            self._alarm(0)
        self.current = None

    def _alarm(self, seconds):
        if threading.current_thread() is threading.main_thread():
            signal.setitimer(signal.ITIMER_REAL, seconds)

    def case(self, fn, name, count, seconds=None, stuck=120):
        """runs fn(rng) for each case and turns failures into verdicts"""
        for rng in self.cases(name, count, seconds, stuck):
            self.guard(lambda: fn(rng))

    def guard(self, fn):
        try:
            fn()
        except Violation as error:
            self.violation(str(error), error.key, error.witness)
        except Stuck:
            self.violation('operation did not finish: '
                           + ''.join(traceback.format_exc())[-1500:])
            # threads that hang would disturb what follows
            raise Stop()
        except Stop:
            raise
        except Inconclusive:
            raise
        except BaseException as error:
            if isinstance(error, (KeyboardInterrupt, SystemExit)):
                raise
            if from_repo(error) or isinstance(error, MISPLACED) \
                    or not isinstance(error, (OSError, MemoryError)):
                # also in the check itself: it got something unexpected
                self.violation(
                    'unexpected exception: '
                    + ''.join(traceback.format_exception(error))[-2500:])
            else:
                raise
        finally:
            self._alarm(0)

    # ---- verdicts -----------------------------------------------------
    def violation(self, message, key=None, witness=None):
        if key is not None and key in self.known:
            with self.lock:
                self.known_seen[key] = self.known_seen.get(key, 0) + 1
            return
        with self.lock:
            record = {
                'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                'case': self.current[0] if self.current else None,
                'index': self.current[1] if self.current else None,
                'message': message, 'key': key, 'witness': witness,
                'trace': [[repr(part)[:300] for part in op]
                          for op in self.trace[-80:]],
            }
            folder = os.path.join(VERIF, 'replays')
            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder,
                                f'{self.prop}-{len(self.violations)}.json')
            with open(path, 'w', encoding='utf-8',
                      errors='backslashreplace') as writer:
                json.dump(record, writer, indent=1, default=repr)
            self.violations.append(path)
            print(f'VIOLATION property={self.prop} replay={path}', flush=True)
            print('  ' + message[:1500].replace('\n', '\n  ')
                  .encode('utf-8', 'backslashreplace').decode('utf-8'),
                  flush=True)
        if len(self.violations) >= self.max_violations:
            raise Stop()

    def expect(self, condition, message, key=None, witness=None):
        self.count('oracle_checks')
        if not condition:
            if callable(message):
                message = message()
            raise Violation(message, key, witness)

    def equal(self, got, wanted, what, key=None):
        self.count('oracle_checks')
        if got != wanted:
            raise Violation(f'{what}: got {short(got)}, expected '
                            f'{short(wanted)}', key)

    def raises(self, kinds, fn, what, key=None):
        self.count('oracle_checks')
        try:
            got = fn()
        except kinds as error:
            return error
        raise Violation(f'{what}: no exception, returned {short(got)}', key)

    # ---- end ----------------------------------------------------------
    def folder(self, name='d'):
        return tempfile.mkdtemp(prefix=name + '-', dir=self.scratch)

    def finish(self):
        coverage = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule or 'see DESIGN.md',
            'samples': self.samples or ['none'],
            'observed': dict(sorted(self.counters.items())),
        }
        if self.known_seen:
            coverage['known_findings_seen'] = self.known_seen
        evidence = {
            'property': self.prop,
            'tier': 'quick' if self.quick else 'thorough',
            'seed': self.seed, 'level': self.level, 'coverage': coverage,
            'assumptions': self.assumptions,
            'wall_s': round(time.monotonic() - self.start, 3),
            'violations': len(self.violations),
        }
        folder = os.path.join(VERIF, 'evidence')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f'{self.prop}.json')
        with open(path + '.tmp', 'w', encoding='utf-8',
                  errors='backslashreplace') as writer:
            json.dump(evidence, writer, indent=1, default=repr)
        os.replace(path + '.tmp', path)


def short(value, limit=600):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + '...'


def from_repo(error):
    """whether the exception came out of (or through) the code under test"""
    seen = set()
    while error is not None and id(error) not in seen:
        seen.add(id(error))
        for frame, _ in traceback.walk_tb(error.__traceback__):
            name = os.path.abspath(frame.f_code.co_filename)
            if name.startswith(REPO + '/'):
                return True
        error = error.__cause__ or error.__context__
    return False


def _on_alarm(signum, frame):
    raise Stuck()


def main(prop, run, level='exploration'):
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('tier', nargs='?',
                        default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int,
                        default=int(os.environ.get('VERIF_SEED', '1') or 1))
    parser.add_argument('--replay')
    args = parser.parse_args()
    replay = None
    if args.replay:
        with open(args.replay) as reader:
            replay = json.load(reader)
        args.seed, args.tier = replay['seed'], replay['tier']
    limit = 780 if args.tier != 'thorough' else 7200

    faulthandler.enable()
    signal.signal(signal.SIGALRM, _on_alarm)
    ctx = Ctx(prop, args.tier, args.seed, level, replay)

    def watchdog():
        faulthandler.dump_traceback(all_threads=True)
        print(f'INCONCLUSIVE property={prop} watchdog after {limit}s',
              flush=True)
        os._exit(1 if ctx.violations else 3)
    timer = threading.Timer(limit, watchdog)
    timer.daemon = True
    timer.start()

    code = 0
    try:
        try:
            run(ctx)
        except Stop:
            pass
        except Inconclusive as error:
            print(f'INCONCLUSIVE property={prop} {error}')
            code = 3
        except BaseException as error:
            if isinstance(error, SystemExit):
                raise
            traceback.print_exc()
            code = 2
            if from_repo(error) and not isinstance(
                    error, (OSError, MemoryError, KeyboardInterrupt)):
                # outside of all cases
                try:
                    ctx.violation('unexpected exception: ' + ''.join(
                        traceback.format_exception(error))[-2500:])
                except Stop:
                    pass
        if not ctx.violations and code == 0 and not replay:
            for name, minimum in ctx.required.items():
                if ctx.counters.get(name, 0) < minimum:
                    print(f'INCONCLUSIVE property={prop} {name}='
                          f'{ctx.counters.get(name, 0)} < {minimum}')
                    code = 3
        ctx.finish()
        for key, text in ctx.known.items():
            if ctx.known_seen.get(key):
                print(f'KNOWN-FINDING: property={prop} {text}')
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    if ctx.violations:
        code = 1
    elif code == 0:
        print(f'HELD property={prop} tier={ctx.tier} seed={ctx.seed} '
              f'cases={ctx.evaluations} distinct={len(ctx.distinct)} '
              f'checks={ctx.counters.get("oracle_checks", 0)} '
              f'{time.monotonic() - ctx.start:.1f}s')
    sys.stdout.flush()
    sys.stderr.flush()
    # no interpreter shutdown: threads of servers under test may linger
    os._exit(code)
