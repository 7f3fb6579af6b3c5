"""
Runs the case groups of one property in worker processes, collects what the
monitors observed, and gives the verdict.

Verdicts: 0 held on everything explored; 1 violation (with a replay file);
anything else: inconclusive or an error of the check.
"""
import collections
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vlib import build

VERIF = build.VERIF
REPO = build.REPO
PYTHON = sys.executable
CRASH_SIGNALS = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
                 signal.SIGILL)


class Group(object):
    """
    A family of generated cases: `func(rng, env)` in checks/<module>.py.
    quick, thorough: number of cases.  wall: seconds after which no new case
    is started (quick, thorough); at least `minimum` part of the cases must have
    run by then, or else the result is inconclusive.
    """
    def __init__(self, name, module, func, quick, thorough, ext='c',
                 wall=(60, 600), minimum=0.02, cpu=120, stop=300, must=(),
                 workers=8, note='', preload=None):
        self.name = name
        self.module = module
        self.func = func
        self.count = {'quick': quick, 'thorough': thorough}
        self.ext = ext
        self.wall = {'quick': wall[0], 'thorough': wall[1]}
        self.minimum = minimum
        self.cpu = cpu
        self.stop = stop
        self.must = must # counters that have to be positive
        self.workers = workers
        self.note = note
        self.preload = preload # 'recorder'


def case_seed(seed, prop, group, index):
    text = '%s/%s/%s/%s' % (seed, prop, group, index)
    return hashlib.sha256(text.encode()).hexdigest()[:24]


def scratch_root():
    for path in ('/dev/shm', '/tmp'):
        if os.path.isdir(path) and os.access(path, os.W_OK):
            stat = os.statvfs(path)
            if stat.f_bavail * stat.f_frsize > 2 * 2**30:
                return path
    return tempfile.gettempdir()


def base_env():
    env = dict(os.environ)
    for name in list(env):
        if name.startswith(('PYTHON', 'LD_', 'ASAN', 'UBSAN', 'LISTEN_')):
            del env[name]
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPYCACHEPREFIX='/nonexistent/pycache',
               VERIF_REPO=REPO, PYTHONPATH=VERIF)
    return env


def worker_env(ext, preload=None):
    env = base_env()
    if preload == 'recorder':
        env['LD_PRELOAD'] = env['VERIF_RECORDER'] = build.recorder()
    if ext == 'asan':
        env.update(
            LD_PRELOAD=build.asan_runtime(), PYTHONMALLOC='malloc',
            ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:halt_on_error=1:'
                'handle_segv=1:allocator_may_return_null=1:'
                'detect_stack_use_after_return=0',
            UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1:'
                'print_stacktrace=1')
    return env


def ext_path(ext):
    if ext in ('py', 'none'):
        return None
    return build.extension('asan' if ext == 'asan' else 'plain')


class Runner(object):

    def __init__(self, prop, groups, tier, seed):
        self.prop = prop
        self.groups = groups
        self.tier = tier
        self.seed = seed
        self.tmp = tempfile.mkdtemp(prefix='vp-%s-' % prop,
                                    dir=scratch_root())
        self.counts = collections.Counter()
        self.evaluations = collections.Counter()
        self.digests = collections.defaultdict(set)
        self.samples = collections.defaultdict(list)
        self.violations = []
        self.problems = []

    def tasks(self):
        for group in self.groups:
            total = group.count[self.tier]
            if not total:
                continue
            exts = ['c', 'py'] if group.ext == 'both' else [group.ext]
            n = min(group.workers, total)
            for shard in range(n):
                for number, ext in enumerate(exts):
                    indices = range(shard, total, n)
                    if len(exts) > 1:
                        indices = [i for i in indices
                                   if i // n % len(exts) == number]
                    if len(indices):
                        yield group, ext, list(indices)

    def start(self, task, serial):
        group, ext, indices = task
        out = os.path.join(self.tmp, 'out%d' % serial)
        spec = dict(
            prop=self.prop, group=group.name, module=group.module,
            func=group.func, ext=ext, ext_path=ext_path(ext), repo=REPO,
            seed=self.seed, tier=self.tier, indices=indices, out=out,
            tmp=os.path.join(self.tmp, 'scratch%d' % serial),
            wall=group.wall[self.tier], cpu=group.cpu)
        os.mkdir(spec['tmp'])
        path = os.path.join(self.tmp, 'spec%d' % serial)
        with open(path, 'w') as f:
            json.dump(spec, f)
        err = open(out + '.err', 'wb')
        process = subprocess.Popen(
            [PYTHON, os.path.join(VERIF, 'vlib', 'worker.py'), path],
            stdin=subprocess.DEVNULL, stdout=err, stderr=err,
            env=worker_env(ext, group.preload), cwd=spec['tmp'],
            start_new_session=True)
        err.close()
        return dict(process=process, spec=spec, group=group, out=out,
                    started=time.time(), killed=None,
                    limit=spec['wall'] + group.stop)

    def kill(self, job):
        try:
            os.killpg(job['process'].pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        job['process'].wait()

    def collect(self, job):
        group = job['group']
        key = group.name
        current = None
        ended = False
        try:
            lines = open(job['out']).read().split('\n')
        except OSError:
            lines = []
        for line in lines:
            try:
                item = json.loads(line)
            except ValueError:
                continue
            kind = item['kind']
            if kind == 'start':
                current = item
            elif kind == 'done':
                current = None
                self.evaluations[key] += 1
                for name, n in item['counts'].items():
                    self.counts[name] += n
                if item['nontrivial']:
                    self.digests[key].add(item['digest'])
                if item.get('sample') and len(self.samples[key]) < 2:
                    self.samples[key].append(item['sample'])
            elif kind == 'violation':
                current = None
                self.violations.append(item)
            elif kind == 'problem':
                current = None
                self.problems.append('%s[%s]: %s' % (
                    key, item.get('index'), item['text']))
            elif kind == 'end':
                ended = True
        code = job['process'].returncode
        if ended or job['killed'] == 'stop':
            return
        try:
            err = open(job['out'] + '.err', 'rb').read()[-6000:].decode(
                'utf8', 'replace')
        except OSError:
            err = ''
        if job['killed'] == 'limit':
            self.problems.append('%s: no result within the wall clock limit, '
                                 'case %s' % (key, current))
        elif code < 0 and -code in CRASH_SIGNALS and current is not None:
            self.violations.append(dict(
                current, kind='violation', group=key,
                message='the interpreter crashed: %s' %
                    signal.Signals(-code).name, trace=err.split('\n')[-80:]))
        else:
            self.problems.append('%s: worker ended with %s in case %s\n%s' % (
                key, code, current, err))

    def run(self):
        queue = collections.deque(self.tasks())
        running = []
        serial = 0
        parallel = max(2, min(8, os.cpu_count() or 8))
        while queue or running:
            while queue and len(running) < parallel and not self.violations:
                running.append(self.start(queue.popleft(), serial))
                serial += 1
            if self.violations:
                queue.clear()
                for job in running:
                    job['killed'] = 'stop'
                    self.kill(job)
            time.sleep(0.02)
            for job in list(running):
                if job['process'].poll() is None:
                    if time.time() - job['started'] > job['limit']:
                        job['killed'] = job['killed'] or 'limit'
                        self.kill(job)
                if job['process'].poll() is not None:
                    running.remove(job)
                    self.kill(job) # and what it may have left behind.
                    self.collect(job)
        for group in self.groups:
            total = group.count[self.tier]
            if self.violations or not total:
                continue
            if self.evaluations[group.name] < group.minimum * total:
                self.problems.append('%s: only %d of %d cases ran' % (
                    group.name, self.evaluations[group.name], total))
            for name in group.must:
                if not self.counts[name]:
                    self.problems.append(
                        '%s: the monitor observed no %r' % (group.name, name))


def known_findings():
    """-> {(property, key)} of the findings that are listed as unrepaired."""
    result = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            words = line.split(None, 3)
            if words and words[0] == 'known:':
                result[words[1].partition('=')[2],
                       words[2].partition('=')[2]] = words[3].strip()
    return result


def check(prop, info, tier, seed):
    started = time.time()
    runner = Runner(prop, info.groups, tier, seed)
    try:
        runner.run()
    finally:
        shutil.rmtree(runner.tmp, ignore_errors=True)
    known = known_findings()
    for (known_prop, key), text in known.items():
        if known_prop == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    violations = [v for v in runner.violations
                  if (prop, v.get('key')) not in known]
    evaluations = sum(runner.evaluations.values())
    distinct = sum(len(x) for x in runner.digests.values())
    samples = []
    for group in info.groups:
        for sample in runner.samples[group.name][:2]:
            samples.append(dict(group=group.name, case=sample))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=info.level,
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=distinct,
            rule=info.rule, samples=samples or ['none'],
            groups=[dict(name=g.name, cases=runner.evaluations[g.name],
                         distinct_nontrivial=len(runner.digests[g.name]),
                         persistence_base=g.ext, about=g.note)
                    for g in info.groups],
            observed=dict(sorted(runner.counts.items()))),
        assumptions=info.assumptions,
        wall_s=round(time.time() - started, 2),
        violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.rename(path + '.tmp', path)
    print('%s %s seed=%s: %d cases, %d distinct non-trivial, %.1f s' % (
        prop, tier, seed, evaluations, distinct, time.time() - started))
    for name, n in sorted(runner.counts.items()):
        print('    %-40s %d' % (name, n))
    if violations:
        directory = os.path.join(VERIF, 'replays')
        os.makedirs(directory, exist_ok=True)
        item = violations[0]
        name = os.path.join(directory, '%s-%s-%s.json' % (
            prop, item.get('group'), item.get('case_seed')))
        with open(name, 'w') as f:
            json.dump(dict(item, property=prop, tier=tier, seed=seed), f,
                      indent=1)
        print('%s: %s' % (item.get('group'), item.get('message')))
        for line in item.get('trace', [])[-30:]:
            print('    ' + str(line))
        print('VIOLATION property=%s replay=%s' % (prop, name))
        return 1
    if runner.problems:
        for text in runner.problems[:3]:
            print('INCONCLUSIVE ' + text)
        return 3
    if not distinct:
        print('INCONCLUSIVE nothing was observed')
        return 3
    return 0


def replay(prop, info, path):
    with open(path) as f:
        item = json.load(f)
    for group in info.groups:
        if group.name == item['group']:
            break
    else:
        raise SystemExit('no group %r' % item['group'])
    tmp = tempfile.mkdtemp(prefix='vp-%s-' % prop, dir=scratch_root())
    try:
        ext = item.get('ext') or group.ext
        spec = dict(
            prop=prop, group=group.name, module=group.module,
            func=group.func, ext=ext, ext_path=ext_path(ext), repo=REPO,
            seed=item['seed'], tier=item['tier'], indices=[item['index']],
            out=os.path.join(tmp, 'out'), tmp=os.path.join(tmp, 'scratch'),
            wall=1000, cpu=group.cpu)
        os.mkdir(spec['tmp'])
        with open(os.path.join(tmp, 'spec'), 'w') as f:
            json.dump(spec, f)
        code = subprocess.call(
            [PYTHON, os.path.join(VERIF, 'vlib', 'worker.py'),
             os.path.join(tmp, 'spec')], env=worker_env(ext, group.preload),
            cwd=spec['tmp'])
        text = open(spec['out']).read()
        for line in text.split('\n'):
            if line:
                for k, v in json.loads(line).items():
                    if isinstance(v, list):
                        print('%s:' % k)
                        for x in v:
                            print('    %s' % x)
                    else:
                        print('%s: %s' % (k, v))
        if code < 0 or '"kind": "violation"' in text:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
