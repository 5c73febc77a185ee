#!/usr/bin/env python3
"""Check one property of rustyalgebra by running the monitor over numbered cases.

  check.py ID [--tier quick|thorough] [--seed N]     decide a property
  check.py --replay FILE                             run one reported case again, step by step
  check.py --setup                                   check that the tools answer and the monitor builds

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: no answer (build or harness error).
"""
import array, fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
TARGET = os.path.join(VERIF, 'target')
OUT = os.path.join(VERIF, 'out')
EVID = os.path.join(VERIF, 'evidence')
NPROC = max(1, min(8, os.cpu_count() or 1))
HOST = 'x86_64-unknown-linux-gnu'

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


class NoAnswer(Exception):
    pass


# ------------------------------------------------------------------------------------- building
def tree_hash():
    """Content of everything a build reads; mtimes are not trusted."""
    h = hashlib.sha256()
    for root in (REPO, HARNESS):
        files = []
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('.git', 'target'))
            files += [os.path.join(d, f) for f in fs if f.endswith(('.rs', '.toml', '.md')) or f == 'Cargo.lock']
        for f in sorted(files):
            if root == REPO and f.endswith('Cargo.lock'):
                continue
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read() + b'\0')
    return h.hexdigest()


FLAVOURS = {
    # name: (toolchain, profile, extra RUSTFLAGS, extra cargo args, output dir)
    'checked': ('stable', 'dev', '', [], 'debug'),
    'release': ('stable', 'release', '', [], 'release'),
    'asan': ('nightly', 'dev', '-Zsanitizer=address', ['--target', HOST], HOST + '/debug'),
    'tsan': ('nightly', 'dev', '-Zsanitizer=thread', ['--target', HOST, '-Zbuild-std'], HOST + '/debug'),
    'miri': ('nightly', 'dev', '', [], None),
}
MIRIFLAGS = '-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-symbolic-alignment-check'


def cargo_env(flavour, hooks, tdir, opt=None):
    tc, _, rf, _, _ = FLAVOURS[flavour]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(('CARGO_PROFILE', 'CARGO_BUILD', 'CARGO_ENCODED')) or k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
            del env[k]
    env['RUSTUP_TOOLCHAIN'] = tc
    env['CARGO_TARGET_DIR'] = tdir
    env['RUSTFLAGS'] = (rf + (' --cfg verif_hooks' if hooks else '')).strip()
    if opt is not None:
        env['CARGO_PROFILE_%s_OPT_LEVEL' % FLAVOURS[flavour][1].upper()] = str(opt)
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TERM_COLOR'] = 'never'
    return env


class Build:
    def __init__(self, prop, flavour, hooks):
        self.prop, self.flavour, self.hooks = prop, flavour, hooks
        self.tdir = os.path.join(TARGET, '%s-%s%s' % (prop, 'native' if flavour in ('checked', 'release') else flavour, '-h' if hooks else ''))
        self.feature = prop.lower()
        self.exe = None
        self.log = ''

    def prepare(self, want):
        """Drop whatever was built from other sources."""
        stamp = os.path.join(self.tdir, '.sources')
        try:
            ok = open(stamp).read() == want
        except OSError:
            ok = False
        if not ok:
            shutil.rmtree(self.tdir, ignore_errors=True)
            os.makedirs(self.tdir)
            with open(stamp, 'w') as f:
                f.write(want)

    def start(self):
        tc, profile, _, extra, _ = FLAVOURS[self.flavour]
        self.env = cargo_env(self.flavour, self.hooks, self.tdir, PROPS[self.prop].get('opt', {}).get(self.flavour))
        if self.flavour == 'miri':
            # builds, then interprets zero cases
            self.env['MIRIFLAGS'] = MIRIFLAGS
            cmd = ['cargo', 'miri', 'run', '--offline', '--features', self.feature, '--', self.prop, '--count', '0']
        else:
            cmd = ['cargo', 'build', '--offline', '--profile', profile, '--features', self.feature] + extra
        self.p = subprocess.Popen(cmd, cwd=HARNESS, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def finish(self):
        out, _ = self.p.communicate()
        self.log = out.decode(errors='replace')
        if self.p.returncode != 0:
            return False
        d = FLAVOURS[self.flavour][4]
        self.exe = os.path.join(self.tdir, d, 'monitor') if d else 'miri'
        return True

    def command(self, args):
        if self.flavour == 'miri':
            return ['cargo', 'miri', 'run', '--offline', '--features', self.feature, '--', *args]
        return [self.exe, *args]


def build_all(prop, flavours, hooks):
    want = tree_hash() + ' ' + hooks_name(hooks)
    builds = [Build(prop, f, hooks) for f in flavours]
    seen = set()
    for b in builds:
        if b.tdir not in seen:
            seen.add(b.tdir)
            b.prepare(want)
    # the two native profiles share a directory and cargo's lock: one after the other; others in parallel
    groups = {}
    for b in builds:
        groups.setdefault(b.tdir, []).append(b)
    import threading
    bad = []

    def work(bs):
        for b in bs:
            b.start()
            if not b.finish():
                bad.append(b)
                return
    ts = [threading.Thread(target=work, args=(g,)) for g in groups.values()]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return builds, bad


def hooks_name(h):
    return 'hooks' if h else 'plain'


# ------------------------------------------------------------------------------------- running
def cpu_seconds(pid):
    """CPU time of a process and its children (cargo miri runs the interpreter as a child)."""
    tot = 0.0
    tick = os.sysconf('SC_CLK_TCK')
    todo = [pid]
    while todo:
        p = todo.pop()
        try:
            with open('/proc/%d/stat' % p) as f:
                a = f.read().rsplit(')', 1)[1].split()
            tot += (int(a[11]) + int(a[12])) / tick
            with open('/proc/%d/task/%d/children' % (p, p)) as f:
                todo += [int(x) for x in f.read().split()]
        except (OSError, IndexError, ValueError):
            pass
    return tot


def limits(flavour):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if flavour in ('checked', 'release'):
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f


class Job:
    """One worker: cases start, start+stride, ... of one build."""
    n = 0

    def __init__(self, run, build, start, stride, count, miri_seed=None):
        Job.n += 1
        self.id = Job.n
        self.run, self.build, self.first, self.stride, self.count = run, build, start, stride, count
        self.miri_seed = miri_seed
        self.base = os.path.join(run.work, 'j%d' % self.id)
        self.proc = None

    def args(self, start, count):
        a = [self.run.prop, '--seed', str(self.run.seed), '--start', str(start), '--stride', str(self.stride), '--count', str(count)]
        if self.run.tier == 'thorough':
            a.append('--thorough')
        if self.build.flavour == 'miri':
            a.append('--small')
        return a

    def environment(self):
        env = dict(self.build.env)
        if self.build.flavour == 'miri':
            env['MIRIFLAGS'] = MIRIFLAGS + (' -Zmiri-seed=%d -Zmiri-preemption-rate=0.05' % self.miri_seed if self.miri_seed is not None else '')
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1'
        env['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:second_deadlock_stack=1'
        return env

    def launch(self, start=None, count=None, extra=()):
        self.start = self.first if start is None else start
        self.left = self.count if count is None else count
        a = self.args(self.start, self.left) + ['--progress', self.base + '.prog', '--out', self.base + '.out', '--fps', self.base + '.fps', *extra]
        for s in ('.out', '.fps', '.prog'):
            try:
                os.unlink(self.base + s)
            except OSError:
                pass
        self.cmd = self.build.command(a)
        self.stdout = open(self.base + '.txt', 'wb')
        self.proc = subprocess.Popen(self.cmd, cwd=HARNESS, env=self.environment(), stdout=self.stdout, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, preexec_fn=limits(self.build.flavour))
        self.t0 = time.time()
        self.case, self.case_cpu, self.case_wall, self.cpu_now = None, 0.0, time.time(), 0.0

    def current(self):
        try:
            with open(self.base + '.prog') as f:
                return int(f.read(20))
        except (OSError, ValueError):
            return None

    def text(self):
        try:
            with open(self.base + '.txt', errors='replace') as f:
                return f.read()
        except OSError:
            return ''

    def report(self):
        try:
            with open(self.base + '.out') as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def poll(self, cpu_cap, wall_cap):
        """None while running, else a verdict ('ok'|'found'|'crash'|'hang', detail)"""
        rc = self.proc.poll()
        if rc is None:
            c = self.current()
            cpu = cpu_seconds(self.proc.pid)
            if c != self.case:
                self.case, self.case_cpu, self.case_wall = c, cpu, time.time()
            elif c is not None and cpu - self.case_cpu > cpu_cap:
                self.kill()
                return ('hang', 'case %d used more than %d s of CPU time without finishing' % (c, cpu_cap))
            elif c is not None and time.time() - self.case_wall > wall_cap and cpu - self.case_cpu < 1:
                self.kill()
                return ('hang', 'case %d is blocked: no CPU time used for %d s' % (c, wall_cap))
            return None
        self.stdout.close()
        t = self.text()
        rep = self.report()
        if rc == 0 and rep is not None:
            return ('ok', '')
        m = re.search(r'^FOUND (.*)', t, re.M)
        if rc == 1 and m:
            return ('found', m.group(1))
        return ('crash', describe_crash(rc, t))


def describe_crash(rc, t):
    for pat in (r'error: Undefined Behavior: .*', r'error: memory leaked.*', r'error: .*deadlock.*', r'error: unsupported operation.*',
                r'ERROR: AddressSanitizer: .*', r'WARNING: ThreadSanitizer: .*', r'unsafe precondition\(s\) violated.*',
                r'.*has overflowed its stack.*', r'memory allocation of .* failed', r'.*panic in a destructor.*', r'.*panic in a function that cannot unwind.*',
                r'error: abnormal termination.*', r'double free.*', r'malloc.*corrupt.*', r'free\(\): .*'):
        m = re.search(pat, t)
        if m:
            return m.group(0).strip() + where(t)
    if rc is not None and rc < 0:
        return 'killed by %s' % signal.Signals(-rc).name
    return 'exit status %s: %s' % (rc, t.strip()[-300:])


def where(t):
    m = re.search(r'(/repo/src/[^\s:]+:\d+)', t)
    return ' (at %s)' % m.group(1) if m else ''


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = PROPS[prop]
        self.work = os.path.join(OUT, 'work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.found = []
        self.known = []
        self.skipped = []
        self.errors = []
        self.per = {}
        self.events, self.notes, self.samples, self.fps = {}, set(), [], []
        self.cases = 0
        self.out_of_time = 0

    # -------------------------------------------------------------- verdicts
    def benign(self, verdict, detail):
        """Crashes which do not violate this property (C01 is about undefined behaviour only)."""
        if self.prop != 'C01':
            return False
        return verdict == 'hang' or 'overflowed its stack' in detail or 'memory allocation of' in detail or 'out of memory' in detail

    def inconclusive(self, verdict, detail):
        return 'unsupported operation' in detail or 'killed by SIGKILL' in detail or 'killed by SIGTERM' in detail or detail.startswith('exit status')

    def confirm(self, job, case):
        """Run the case alone, then the whole job up to it."""
        for (start, count) in ((case, 1), (job.start, (case - job.start) // job.stride + 1)):
            j = Job(self, job.build, job.first, job.stride, job.count, job.miri_seed)
            j.launch(start, count)
            while True:
                v = j.poll(self.cpu_cap(), 200)
                if v:
                    break
                time.sleep(0.05)
            if v[0] != 'ok':
                return v, (start, count)
        return None, None

    def cpu_cap(self):
        return 30 if self.prop == 'C01' else 60

    def violation(self, job, case, msg, span=None):
        for k in known_findings():
            if k['property'] == self.prop and k['match'] in msg:
                self.known.append(k)
                return False
        self.found.append({'flavour': job.build.flavour, 'case': case, 'message': msg,
                           'start': (span or (case, 1))[0], 'count': (span or (case, 1))[1], 'stride': job.stride,
                           'miri_seed': job.miri_seed, 'hooks': job.build.hooks})
        return True

    def absorb(self, job):
        r = job.report()
        if not r:
            return
        self.cases += r['cases']
        self.per[job.build.flavour] = self.per.get(job.build.flavour, 0) + r['cases']
        for k, v in r['events'].items():
            self.events[k] = self.events.get(k, 0) + v
        self.notes.update(r['notes'])
        if len(self.samples) < 6:
            self.samples += ['[%s] %s' % (job.build.flavour, s) for s in r['samples'][:1]]
        try:
            a = array.array('Q')
            a.frombytes(open(job.base + '.fps', 'rb').read())
            self.fps.append(a)
        except OSError:
            pass

    def distinct(self):
        total = sum(len(a) for a in self.fps)
        parts = 1 + total // 4000000
        return sum(len({x for a in self.fps for x in a if x % parts == r}) if parts > 1 else len(set().union(*self.fps)) for r in range(parts))

    # -------------------------------------------------------------- scheduling
    def execute(self, jobs, deadline):
        pending = list(jobs)
        active = []
        skips = {}
        while pending or active:
            late = time.time() > deadline
            if late:
                self.out_of_time += sum(j.count for j in pending)
                pending = []
            while pending and len(active) < NPROC and not self.found:
                j = pending.pop(0)
                j.launch(*getattr(j, 'resume', (None, None)))
                active.append(j)
            if self.found:
                for j in active:
                    j.kill()
                return
            busy = True
            for j in list(active):
                if self.found:
                    break
                v = j.poll(self.cpu_cap(), 240)
                if v is None:
                    if late:
                        j.kill()
                        active.remove(j)
                        self.out_of_time += j.count
                    continue
                busy = False
                active.remove(j)
                verdict, detail = v
                if verdict == 'ok':
                    self.absorb(j)
                    self.cleanup(j)
                    continue
                case = j.current()
                if verdict == 'found':
                    m = re.match(r'case (\d+): ', detail)
                    if m:
                        case = int(m.group(1))
                    if not self.violation(j, case, detail):
                        self.resume(j, case, pending, skips)
                    continue
                if case is None:
                    if 'Undefined Behavior' in detail or 'memory leaked' in detail:
                        case = j.start
                    else:
                        self.errors.append('%s: %s' % (j.build.flavour, detail))
                        continue
                # crash or hang
                if 'memory leaked' in detail and case is not None:
                    self.violation(j, case, detail, (j.start, j.left))
                    continue
                sure = re.search(r'AddressSanitizer|ThreadSanitizer|Undefined Behavior|unsafe precondition', detail) and 'out-of-memory' not in detail \
                    and 'allocation-size-too-big' not in detail and 'stack-overflow' not in detail
                if sure:
                    self.violation(j, case, 'case %s: %s' % (case, detail), (case, 1) if self.reproduces(j, case) else (j.start, (case - j.start) // j.stride + 1))
                    continue
                if re.search(r'out-of-memory|allocation-size-too-big|stack-overflow', detail) and self.prop == 'C01' or self.benign(verdict, detail):
                    self.skipped.append('%s case %s: %s' % (j.build.flavour, case, detail))
                    self.resume(j, case, pending, skips)
                    continue
                v2, span = self.confirm(j, case)
                if v2 is None:
                    if verdict == 'crash' and 'killed by SIG' in detail and not self.inconclusive(verdict, detail):
                        self.violation(j, case, 'case %s: %s (seen once)' % (case, detail), (j.start, (case - j.start) // j.stride + 1))
                    else:
                        self.errors.append('not reproduced: %s case %s: %s' % (j.build.flavour, case, detail))
                elif self.inconclusive(*v2):
                    self.errors.append('%s case %s: %s' % (j.build.flavour, case, v2[1]))
                else:
                    self.violation(j, case, 'case %s: %s' % (case, v2[1]), span)
            if busy and active:
                time.sleep(0.03)

    def reproduces(self, job, case):
        j = Job(self, job.build, job.first, job.stride, job.count, job.miri_seed)
        j.launch(case, 1)
        while True:
            v = j.poll(self.cpu_cap() * 2, 200)
            if v:
                return v[0] != 'ok'
            time.sleep(0.05)

    def resume(self, j, case, pending, skips):
        """Carry on after a case that ended the worker."""
        key = (j.build.flavour, j.first)
        skips[key] = skips.get(key, 0) + 1
        done = (case - j.start) // j.stride + 1
        left = j.left - done
        r = j.report()
        if r:
            self.absorb(j)
        if left > 0 and skips[key] <= (2 if self.prop == 'C01' else 50):
            n = Job(self, j.build, j.first, j.stride, j.count, j.miri_seed)
            n.resume = (case + j.stride, left)
            pending.append(n)

    def cleanup(self, j):
        for s in ('.out', '.fps', '.prog', '.txt'):
            try:
                os.unlink(j.base + s)
            except OSError:
                pass


def known_findings():
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) match="([^"]+)" (.*)', l)
            if m:
                out.append({'property': m.group(1), 'match': m.group(2), 'what': m.group(3).strip()})
    except OSError:
        pass
    return out


def save_replay(run, i, v):
    d = os.path.join(OUT, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s-%d.json' % (run.prop, run.tier, run.seed, i))
    doc = dict(v, property=run.prop, tier=run.tier, seed=run.seed, how='python3 %s --replay %s' % (os.path.join(VERIF, 'check.py'), path))
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    return path


def replay(path):
    d = json.load(open(path))
    builds, bad = build_all(d['property'], [d['flavour']], d['hooks'])
    if bad:
        print(bad[0].log[-4000:])
        return 2
    r = Run(d['property'], d['tier'], d['seed'])
    j = Job(r, builds[0], d['start'], d['stride'], d['count'], d.get('miri_seed'))
    j.launch(extra=['--verbose'])
    while True:
        v = j.poll(120, 300)
        if v:
            break
        time.sleep(0.05)
    print(j.text()[-20000:])
    print('recorded: ' + d['message'])
    print('now:      %s %s' % v)
    return 0 if v[0] == 'ok' else 1


def decide(prop, tier, seed):
    cfg = PROPS[prop]
    t0 = time.time()
    plan = cfg['quick'] if tier == 'quick' else cfg['thorough']
    flavours = list(plan)
    hooks = cfg['hooks'] in (True, 'optional')
    builds, bad = build_all(prop, flavours, hooks)
    hooked = hooks
    if bad and cfg['hooks'] == 'optional':
        hooked = False
        builds, bad = build_all(prop, flavours, False)
    if bad:
        print(bad[0].log[-6000:])
        raise NoAnswer('the %s build failed' % bad[0].flavour)
    built = time.time() - t0
    run = Run(prop, tier, seed)
    jobs = []
    base = 0
    per_flavour = []
    for b in builds:
        n = plan[b.flavour]
        js = []
        if cfg.get('fresh'):
            # one process per case
            for k in range(n):
                js.append(Job(run, b, base + k, 1, 1, miri_seed=seed * 1000 + k if b.flavour == 'miri' else None))
        else:
            w = min(n, NPROC * (1 if tier == 'quick' else 4))
            if b.flavour == 'miri':
                w = min(n, NPROC * (3 if tier == 'quick' else 12))
            for k in range(w):
                js.append(Job(run, b, base + k, w, len(range(k, n, w))))
        base += n
        per_flavour.append(js)
    # interleave flavours so that running out of time starves none of them
    while any(per_flavour):
        for js in per_flavour:
            if js:
                jobs.append(js.pop(0))
    cap = cfg.get('cap', 420) if tier == 'quick' else cfg.get('thorough_cap', 3000)
    cap = float(os.environ.get('VERIF_CAP', cap))
    run.execute(jobs, time.time() + cap)
    for k in {x['what'] for x in run.known}:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    distinct = run.distinct()
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': run.cases,
            'distinct_nontrivial': distinct,
            'rule': cfg['rule'],
            'samples': run.samples,
            'cases_by_build': run.per,
            'events_observed': dict(sorted(run.events.items())),
            'distinct_configurations': len(run.notes),
            'configurations': sorted(run.notes)[:40],
            'hooks_on': hooked,
            'cases_not_run_for_lack_of_time': run.out_of_time,
            'cases_ended_by_other_failures': run.skipped[:20],
            'build_s': round(built, 1),
        },
        'assumptions': cfg['assumptions'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(run.found),
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, prop + '.json'))
    if run.found:
        for i, v in enumerate(run.found[:3]):
            path = save_replay(run, i, v)
            print('found by the %s build: %s' % (v['flavour'], v['message'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        shutil.rmtree(run.work, ignore_errors=True)
        return 1
    if run.errors:
        raise NoAnswer('; '.join(run.errors[:3]))
    for b in builds:
        if not run.per.get(b.flavour) and not run.skipped:
            raise NoAnswer('no case of the %s build completed' % b.flavour)
    if not distinct:
        raise NoAnswer('no non-trivial case was observed')
    for e in cfg['must_see']:
        if not run.events.get(e) and not run.skipped:
            raise NoAnswer('the monitor observed no "%s" event' % e)
    shutil.rmtree(run.work, ignore_errors=True)
    print('%s held: %d cases (%s), %d distinct non-trivial, %d events observed, %.0f s' % (
        prop, run.cases, ', '.join('%s %d' % x for x in run.per.items()), distinct, sum(run.events.values()), time.time() - t0))
    return 0


def setup():
    """Nothing to install; check that the tools answer and the harness builds."""
    for c in (['cargo', '+stable', '--version'], ['cargo', '+nightly', '--version'], ['cargo', '+nightly', 'miri', '--version']):
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(' '.join(c), '->', r.stdout.decode().strip())
        if r.returncode:
            return 2
    for p, c in (('C07', PROPS['C07']),):
        builds, bad = build_all(p, list(c['quick']), bool(c['hooks']))
        if bad:
            print(bad[0].log[-3000:])
            return 2
        print('built', p, ', '.join(b.flavour for b in builds), flush=True)
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ['--replay']:
        return replay(a[1])
    if a[:1] == ['--setup']:
        return setup()
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    for i, x in enumerate(a):
        if x == '--tier':
            tier = a[i + 1]
        if x == '--seed':
            seed = int(a[i + 1])
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = seed & 0x7fffffffffffffff
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(OUT, prop + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            return decide(prop, tier, seed)
        except NoAnswer as e:
            print('NO ANSWER property=%s: %s' % (prop, e))
            return 2


if __name__ == '__main__':
    sys.exit(main())
