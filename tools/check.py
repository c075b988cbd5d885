#!/usr/bin/env python3
"""Runs one property's check: check.py ID  |  check.py ID --replay FILE  |  check.py --setup

Exit 0: held on everything explored (known findings are printed).
Exit 1: VIOLATION property=<id> replay=<path>.
Exit 2: the check itself failed (build error, harness error, inconclusive).
"""
import fnmatch, glob, json, os, re, resource, shutil, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/tools')
REPO = os.environ.get('VERIF_REPO', '/repo')
import build as B
from checks import CHECKS

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2500:'
                    'detect_stack_use_after_return=1:handle_abort=1:strict_init_order=0:check_initialization_order=0:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4',
}


def known(pid):
    r = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3).strip()))
    return r


def crash_key(log):
    """A stable identity for a sanitizer report or abort: kind + first repo frame."""
    kind = 'exit'
    m = re.search(r'ERROR: (?:Address|Undefined\w*|Thread|Leak)Sanitizer:? ([\w-]+)', log) or \
        re.search(r'WARNING: ThreadSanitizer: ([\w -]+?) \(', log)
    if m:
        kind = m.group(1).replace(' ', '-')
    m = re.search(r'runtime error: ([^\n]{0,120})', log)
    if m:
        kind = 'ub-' + re.sub(r'[^a-z]+', '-', re.sub(r"'[^']*'|-?\b\d[\d.e+]*", '', m.group(1)).lower())[:60].strip('-')
    if 'terminate called' in log or 'libc++abi: terminating' in log:
        m = re.search(r"what\(\):\s*(\S.*)|throwing an instance of '([^']+)'", log)
        kind = 'uncaught-exception'
    m = re.search(r'CHECK-FAILED ([^\n]{0,80})', log)
    if m:
        kind = 'check-failed'
    if 'Assertion' in log and 'glibcxx' in log.lower():
        kind = 'glibcxx-assert'
    fn = ''
    for m in re.finditer(r'^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+', log, re.M):
        if m.group(2).startswith(REPO) or m.group(2).startswith('/repo/'):
            fn = re.sub(r'\(.*', '', m.group(1)).replace('iamf_tools::', '').replace('(anonymous namespace)::', '')
            break
    return re.sub(r'\s+', '_', 'crash:%s:%s' % (kind, fn))[:200]


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = CHECKS[pid]
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid, dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        self.viol, self.inconclusive = [], []
        self.hung = False  # a case was found that does not finish: the other shards stop too
        self.evals, self.counts, self.samples = 0, {}, []
        self.distinct = set()
        self.lock = threading.Lock()

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def env(self):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e['VERIF_SEED'] = str(self.seed)
        e['VERIF_TIER'] = self.tier
        e['VERIF_TESTDATA'] = REPO + '/iamf/cli/testdata'
        e['VERIF_REPO'] = REPO
        e['VERIF_DIR'] = VERIF
        sym = shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18')
        if sym:
            e['ASAN_SYMBOLIZER_PATH'] = sym
            e['TSAN_OPTIONS'] += ':external_symbolizer_path=' + sym
        for k, v in self.cfg.get('env', {}).items():
            e[k] = (e[k] + ':' + v) if k in SAN_ENV else v
        return e

    def shard(self, exe, name, k, n):
        out = '%s/%s_%d' % (self.scratch, name, k)
        wd = out + '_wd'
        os.makedirs(wd, exist_ok=True)
        start = None
        crashes = 0
        timeout = self.cfg.get('timeout', 700 if self.tier == 'quick' else 5400)
        cmd0 = exe if isinstance(exe, list) else [exe]
        while True:
            part = '%s_p%d' % (out, crashes)
            cmd = cmd0 + ['--seed', str(self.seed), '--shard', str(k), '--nshards', str(n), '--out', part, '--scratch', wd]
            if self.tier == 'thorough':
                cmd.append('--thorough')
            if start:
                cmd += ['--from', start]
            log = part + '.log'
            timed = False
            with open(log, 'wb') as lf:
                p = subprocess.Popen(cmd, cwd=wd, stdout=lf, stderr=subprocess.STDOUT, env=self.env(), start_new_session=True)
                rc, timed = self.watch(p, part + '.progress', timeout)
            if self.hung:
                return
            self.collect(part)
            text = self.tail(log)
            if rc == 0 and not timed:
                return
            prog = ''
            try:
                prog = open(part + '.progress', 'rb').read(256).split(b'\n')[0].decode()
            except OSError:
                pass
            if rc == 3 or ('HARNESS-BUG' in text) or ':' not in prog:
                with self.lock:
                    self.inconclusive.append('%s shard %d rc=%s: %s' % (name, k, rc, text[-1500:]))
                return
            g, c = prog.split('\0')[0].rsplit(':', 1)
            if timed or rc == -9:
                # Re-run the case alone before calling it a hang.
                if self.alone(cmd0, g, int(c), wd):
                    with self.lock:
                        self.inconclusive.append('%s shard %d stopped (rc=%s timed=%s) at %s' % (name, k, rc, timed, prog))
                    return
                key, msg = 'hang:' + g, 'case %s does not finish (re-run alone)' % prog
                self.hung = True
            else:
                key, msg = crash_key(text), text[-6000:]
            with self.lock:
                self.viol.append({'harness': name, 'key': key, 'group': g, 'case': int(c), 'msg': msg})
            crashes += 1
            if crashes >= 6 or self.hung:
                return
            start = '%s:%d' % (g, int(c) + 1)

    def watch(self, p, progress, timeout):
        """Waits for a shard; ends it when it, or a single case of it, takes too long."""
        t0 = t1 = time.time()
        seen = None
        while True:
            try:
                return p.wait(timeout=1), False
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            try:
                at = open(progress, 'rb').read(256)
            except OSError:
                at = None
            if at != seen:
                seen, t1 = at, now
            stall = (now - t1 > 150) if self.tier == 'quick' else False
            if stall or now - t0 > timeout or self.hung:
                os.killpg(p.pid, 9)
                return p.wait(), True

    def alone(self, cmd0, g, c, wd):
        """True if the case finishes within a generous limit of its own."""
        cmd = cmd0 + ['--seed', str(self.seed), '--only', '%s:%d' % (g, c), '--out', self.scratch + '/alone', '--scratch', wd]
        if self.tier == 'thorough':
            cmd.append('--thorough')
        try:
            subprocess.run(cmd, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=self.env(), timeout=120)
            return True
        except subprocess.TimeoutExpired:
            return False

    def tail(self, log):
        with open(log, 'rb') as f:
            d = f.read()
        if len(d) > 400000:
            d = d[:100000] + b'\n...\n' + d[-300000:]
        return d.decode(errors='replace')

    def collect(self, part):
        with self.lock:
            try:
                s = json.load(open(part + '.stats'))
                self.evals += s['evaluations']
                for k, v in s['counts'].items():
                    self.counts[k] = self.counts.get(k, 0) + v
                if len(self.samples) < 6:
                    self.samples += s['samples'][:2]
                d = open(part + '.distinct', 'rb').read()
                self.distinct.update(struct.unpack('<%dQ' % (len(d) // 8), d))
            except (OSError, ValueError):
                pass
            try:
                for line in open(part + '.viol'):
                    v = json.loads(line)
                    v['harness'] = os.path.basename(part)
                    self.viol.append(v)
            except (OSError, ValueError):
                pass

    def run(self):
        for spec in self.cfg['harnesses']:
            name, flavor = spec['name'], spec.get('flavor', 'asan')
            if flavor == 'python':
                exe = [spec.get('python', sys.executable), VERIF + '/harness/' + name + '.py']
            else:
                b, r = B.build(flavor, [name])
                if not r[0]:
                    print('BUILD-ERROR %s' % name)
                    return 2
                exe = r[0]
            n = spec.get('shards', 8)
            ts = [threading.Thread(target=self.shard, args=(exe, name, k, n)) for k in range(n)]
            [t.start() for t in ts]
            [t.join() for t in ts]
        return self.verdict()

    def verdict(self):
        kn = known(self.pid)
        new, seen_known = {}, {}
        for v in self.viol:
            for pat, desc in kn:
                if fnmatch.fnmatchcase(v['key'], pat):
                    seen_known.setdefault(pat, desc)
                    break
            else:
                new.setdefault(v['key'], v)
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.distinct), 'rule': self.cfg['rule'],
               'samples': self.samples[:6] or ['(none)'], 'observed': self.counts}
        need = self.cfg.get('min_counts', {})
        starved = [k for k, m in need.items() if self.counts.get(k, 0) < m]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.cfg.get('level', 'exploration'), 'coverage': cov,
              'assumptions': self.cfg.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.pid), 'w') as f:
            json.dump(ev, f, indent=1)
        for pat, desc in kn:
            if pat in seen_known or not self.cfg.get('known_only_if_seen', False):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, desc))
        if new:
            os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
            for i, (k, v) in enumerate(sorted(new.items())[:10]):
                path = '%s/evidence/replay/%s-%d.json' % (VERIF, self.pid, i)
                v.update(property=self.pid, seed=self.seed, tier=self.tier)
                with open(path, 'w') as f:
                    json.dump(v, f, indent=1)
                print('  %s: %s' % (k, v['msg'][:1500]))
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if self.inconclusive:
            print('INCONCLUSIVE ' + '\n'.join(self.inconclusive)[:4000])
            return 2
        if starved or self.evals == 0 or len(self.distinct) < self.cfg.get('min_distinct', 2):
            print('INCONCLUSIVE: observed too little: %s evals=%d distinct=%d' % (starved, self.evals, len(self.distinct)))
            return 2
        print('OK property=%s evaluations=%d distinct=%d wall=%.1fs' % (self.pid, self.evals, len(self.distinct), time.time() - self.t0))
        return 0


def replay(pid, path):
    v = json.load(open(path))
    name = re.sub(r'_\d+_p\d+$', '', v['harness'])
    spec = next(s for s in CHECKS[pid]['harnesses'] if s['name'] == name)
    r = Runner(pid, v['tier'], v['seed'])
    try:
        if spec.get('flavor') == 'python':
            cmd = [spec.get('python', sys.executable), VERIF + '/harness/' + name + '.py']
        else:
            _, x = B.build(spec.get('flavor', 'asan'), [name])
            cmd = [x[0]]
        cmd += ['--seed', str(v['seed']), '--only', '%s:%d' % (v['group'], v['case']), '--out', r.scratch + '/r', '--scratch', r.scratch]
        if v['tier'] == 'thorough':
            cmd.append('--thorough')
        print(' '.join(cmd))
        return subprocess.run(cmd, cwd=r.scratch, env=r.env()).returncode
    finally:
        r.cleanup()


def setup():
    """Compiles everything once; later runs rebuild only what changed."""
    by = {}
    for c in CHECKS.values():
        for s in c['harnesses']:
            if s.get('flavor', 'asan') != 'python':
                by.setdefault(s.get('flavor', 'asan'), set()).add(s['name'])
    rc = 0
    for fl in sorted(by):
        b = B.Builder(fl)
        names = sorted(by[fl])
        b.compile_many([VERIF + '/harness/%s.cc' % n for n in names] + b.srcs)
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex:
            for n, x in zip(names, ex.map(b.binary, names)):
                if not x:
                    print('setup: cannot build', fl, n)
                    rc = 1
        print('setup: flavor', fl, 'compiled', b.compiled, 'binaries', len(names))
    return rc


def main():
    a = sys.argv[1:]
    if a[0] == '--setup':
        return setup()
    pid = a[0]
    if '--replay' in a:
        return replay(pid, a[a.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if 'thorough' in a:
        tier = 'thorough'
    elif 'quick' in a:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    r = Runner(pid, tier, seed)
    try:
        return r.run()
    finally:
        r.cleanup()


if __name__ == '__main__':
    sys.exit(main())
