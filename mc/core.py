"""Explorer: runs every case of a property on the real code, in parallel, and writes evidence."""

import collections
import datetime
import decimal
import hashlib
import itertools
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')

CASE_CPU_BUDGET = 90.0
WORKER_MEMORY = 3500 * 1024 * 1024
MAX_REPORTED = 3

class Violation(Exception):
    """The implementation broke the property."""
    def __init__(self, message, key=None):
        super(Violation, self).__init__(message)
        self.key = key

def namespace():
    """Names available in literal cases."""
    ns = {
        'nan': float('nan'), 'inf': float('inf'),
        'datetime': datetime, 'Decimal': decimal.Decimal,
        'OrderedDict': collections.OrderedDict,
    }
    from mc import spec
    ns.update(spec.LITERALS)
    return ns

def load_scheme(fresh=False):
    """Imports scheme from the repository under test; with ``fresh``, discards any copy of it
    already imported, so that all module- and class-level state is rebuilt."""
    if fresh:
        for name in list(sys.modules):
            if name == 'scheme' or name.startswith('scheme.'):
                del sys.modules[name]
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import scheme
    path = os.path.realpath(scheme.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('scheme imported from %s, not from %s' % (path, REPO))
    return scheme

class Output(object):
    """Stand-in for stdout and stderr which only records."""
    encoding = 'utf-8'
    def __init__(self):
        self.text = []
    def write(self, text):
        self.text.append(text)
        return len(text)
    def flush(self):
        pass
    def isatty(self):
        return False
    def take(self):
        text, self.text = ''.join(self.text), []
        return text

class Stats(object):
    """What one worker covered."""
    def __init__(self, known=()):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.known = dict(known)
        self.found = set()
        self.output = None

    def state(self, *key):
        self.states.add(hash(key))

    def step(self, count=1):
        self.transitions += count

    def trace(self, outcome=None, count=1):
        self.traces += count
        if outcome is not None:
            self.outcomes[outcome] += count

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:600])

    def violate(self, message, key=None):
        """Reports a violation, unless it is a listed finding."""
        if key is not None and key in self.known:
            self.found.add(key)
            return
        raise Violation(message, key)

def known_findings(property):
    findings = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % property):
                    words = line.split(' ', 3)
                    findings[words[2][len('key='):]] = words[3]
    return findings

def _cpu(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            fields = f.read().rpartition(')')[2].split()
        return (int(fields[11]) + int(fields[12])) / float(os.sysconf('SC_CLK_TCK'))
    except Exception:
        return None

def cases_of(module, property, tier):
    from mc import omitted
    return itertools.chain(module.cases(tier), omitted.cases(property))

def run_case(module, case, stats):
    try:
        if case[0] == 'omitted':
            from mc import omitted
            omitted.run_omitted(stats, *case[1:])
        else:
            module.run(case, stats)
    except Violation as exception:
        return exception.args[0], exception.key
    except Exception:
        return 'unexpected exception:\n' + traceback.format_exc()[-3000:], None
    return None

def _worker(module, property, tier, index, count, shared, directory, known):
    stats = Stats(known)
    violations = []
    result = {'error': None}
    slot = 8 + 16 * index
    try:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        scratch = os.path.join(directory, 'w%d' % index)
        os.mkdir(scratch)
        os.chdir(scratch)
        stats.output = sys.stdout = Output()
        sys.stderr = Output()
        if getattr(module, 'PRELOAD', True):
            load_scheme()
        cases = 0
        for number, case in enumerate(cases_of(module, property, tier)):
            if number % count != index:
                continue
            if shared[0:1] != b'\0':
                break
            struct.pack_into('q', shared, slot, number)
            cases += 1
            if not stats.samples:
                stats.sample(repr(case))
            outcome = run_case(module, case, stats)
            if outcome:
                violations.append((number, repr(case), outcome[0], outcome[1]))
                shared[0:1] = b'\1'
                break
        result['cases'] = cases
    except BaseException:
        result['error'] = traceback.format_exc()
    result.update(transitions=stats.transitions, traces=stats.traces,
        outcomes=dict(stats.outcomes), samples=stats.samples, found=stats.found,
        violations=violations)
    import array
    with open(os.path.join(directory, 'states%d' % index), 'wb') as f:
        array.array('q', stats.states).tofile(f)
    with open(os.path.join(directory, 'result%d.tmp' % index), 'wb') as f:
        pickle.dump(result, f)
    os.rename(f.name, os.path.join(directory, 'result%d' % index))
    os._exit(0)

def get_module(property):
    return __import__('mc.props.' + property.lower(), None, None, ['x'])

def write_replay(property, tier, number, case, message):
    directory = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(directory, exist_ok=True)
    digest = hashlib.sha1(('%s %s' % (case, message)).encode('utf-8', 'replace')).hexdigest()[:10]
    path = os.path.join(directory, '%s-%s.json' % (property, digest))
    with open(path, 'w') as f:
        json.dump({'property': property, 'tier': tier, 'case_number': number, 'case': case,
            'message': message, 'replay_with': 'bash run.sh replay ' + path}, f, indent=1)
    return path

def check(property, tier, seed):
    started = time.time()
    module = get_module(property)
    known = known_findings(property)
    count = int(os.environ.get('MC_WORKERS', 0)) or os.cpu_count() or 4
    directory = tempfile.mkdtemp(prefix='mc-%s-' % property)
    shared = mmap.mmap(-1, 8 + 16 * count)
    for index in range(count):
        struct.pack_into('q', shared, 8 + 16 * index, -1)

    pids = {}
    violations, errors = [], []
    try:
        sys.stdout.flush()
        for index in range(count):
            pid = os.fork()
            if not pid:
                _worker(module, property, tier, index, count, shared, directory, known)
            pids[pid] = index
        progress = dict((pid, (None, 0.0)) for pid in pids)
        alive = set(pids)
        while alive:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid:
                alive.discard(pid)
                continue
            time.sleep(0.05)
            for pid in list(alive):
                number = struct.unpack_from('q', shared, 8 + 16 * pids[pid])[0]
                used = _cpu(pid)
                if used is None:
                    continue
                if progress[pid][0] != number:
                    progress[pid] = (number, used)
                elif number >= 0 and used - progress[pid][1] > getattr(module,
                        'CASE_CPU_BUDGET', CASE_CPU_BUDGET):
                    os.kill(pid, signal.SIGKILL)

        states = set()
        total = collections.Counter()
        outcomes = collections.Counter()
        samples, found = [], set()
        for index in range(count):
            path = os.path.join(directory, 'result%d' % index)
            if not os.path.exists(path):
                number = struct.unpack_from('q', shared, 8 + 16 * index)[0]
                if number < 0:
                    errors.append('worker %d died before its first case' % index)
                    continue
                for n, case in enumerate(cases_of(module, property, tier)):
                    if n == number:
                        break
                violations.append((number, repr(case),
                    'the case did not finish within its processor-time budget, or ended the'
                    ' interpreter', None))
                continue
            with open(path, 'rb') as f:
                result = pickle.load(f)
            if result['error']:
                errors.append(result['error'])
            import array
            values = array.array('q')
            with open(os.path.join(directory, 'states%d' % index), 'rb') as f:
                values.frombytes(f.read())
            states.update(values)
            for name in ('cases', 'transitions', 'traces'):
                total[name] += result.get(name, 0)
            outcomes.update(result['outcomes'])
            samples.extend(result['samples'][:1])
            found |= result['found']
            violations.extend(result['violations'])
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(directory, ignore_errors=True)

    violations.sort(key=lambda v: v[0])
    wall = time.time() - started
    evidence = {
        'property': property, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states), 'transitions': total['transitions'],
            'traces_validated_against_impl': total['traces'],
            'cases': total['cases'],
            'samples': samples[:4] or ['(none)'],
            'outcomes': dict(outcomes.most_common(60)),
            'exhaustive': not violations and not errors,
            'bounds': getattr(module, 'BOUNDS', {}).get(tier, ''),
            'explanation': (module.__doc__ or '').strip(),
            'known_findings_met': sorted(found),
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'wall_s': round(wall, 3),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', property + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.rename(path + '.tmp', path)

    for key in sorted(found):
        print('KNOWN-FINDING: property=%s %s: %s' % (property, key, known[key]))
    print('%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d violations=%d %.1fs' % (
        property, tier, total['cases'], len(states), total['transitions'], total['traces'],
        len(outcomes), len(violations), wall))
    for number, case, message, key in violations[:MAX_REPORTED]:
        path = write_replay(property, tier, number, case, message)
        print('VIOLATION property=%s replay=%s' % (property, path))
        print('  case %d: %s' % (number, case[:1500]))
        print('  ' + message[:3000].replace('\n', '\n  '))
        if key is not None:
            print('  key=%s' % key)
    for error in errors:
        print('ERROR in the checker: %s' % error)
    sys.stdout.flush()
    if violations:
        return 1
    if errors:
        return 2
    if not total['traces']:
        print('ERROR: nothing was explored')
        return 2
    return 0

def replay(path):
    with open(path) as f:
        record = json.load(f)
    module = get_module(record['property'])
    if getattr(module, 'PRELOAD', True):
        load_scheme()
    case = eval(record['case'], namespace())
    stats = Stats(known_findings(record['property']))
    stats.output = Output()
    out, sys.stdout = sys.stdout, stats.output
    directory = tempfile.mkdtemp(prefix='mc-replay-')
    os.chdir(directory)
    try:
        outcome = run_case(module, case, stats)
    finally:
        sys.stdout = out
        os.chdir('/')
        shutil.rmtree(directory, ignore_errors=True)
    if outcome:
        print('VIOLATION property=%s replay=%s' % (record['property'], path))
        print(outcome[0])
        return 1
    print('no violation')
    return 0

def main(argv):
    sys.setrecursionlimit(3000)
    if argv[0] == 'replay':
        return replay(argv[1])
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 0)
    if argv[0] == 'selftest':
        from mc import selftest
        return selftest.main()
    return check(argv[0], tier, seed)
