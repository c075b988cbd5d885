"""Driver for Python harnesses: the same command line, case numbering and output files as vlib.h."""
import hashlib, json, os, random, struct, sys, traceback

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)


def _mix(x):
    x = (x + 0x9E3779B97F4A7C15) & (2**64 - 1)
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & (2**64 - 1)
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & (2**64 - 1)
    return x ^ (x >> 31)


class Harness:
    def __init__(self):
        a = sys.argv[1:]
        g = lambda n, d=None: a[a.index(n) + 1] if n in a else d
        self.seed = int(g('--seed', '1'))
        self.shard, self.nshards = int(g('--shard', '0')), int(g('--nshards', '1'))
        self.out, self.scratch = g('--out', '/tmp/vlib_py'), g('--scratch', '/tmp')
        self.thorough = '--thorough' in a
        self.only, self.frm = g('--only'), g('--from')
        self.started = self.frm is None
        self.evals, self.counts, self.samples, self.distinct, self.nviol = 0, {}, [], set(), 0
        self.viol = open(self.out + '.viol', 'w')
        self.keys = {}
        self.group, self.case = '', 0

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def seen(self, *what):
        self.distinct.add(int.from_bytes(hashlib.blake2b(repr(what).encode(), digest_size=8).digest(), 'little'))

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s[:300])

    def fail(self, key, msg):
        self.nviol += 1
        self.keys[key] = self.keys.get(key, 0) + 1
        if self.keys[key] <= 3:
            self.viol.write(json.dumps(dict(key=key, group=self.group, case=self.case, msg=msg[:4000])) + '\n')
            self.viol.flush()
        if self.only:
            print('ORACLE', key, msg)

    def expect(self, ok, key, msg=''):
        self.evals += 1
        if not ok:
            self.fail(key, str(msg) if not callable(msg) else msg())
        return ok

    def cases(self, group, n, fn):
        """fn(rng, i): exceptions of the harness itself stop the run; those of the code under test must be caught inside fn."""
        for i in range(n):
            if self.only:
                if self.only != '%s:%d' % (group, i):
                    continue
            elif _mix(i) % self.nshards != self.shard:
                continue
            if not self.started:
                g, c = self.frm.rsplit(':', 1)
                if g != group or i < int(c):
                    continue
                self.started = True
            self.group, self.case = group, i
            with open(self.out + '.progress', 'w') as f:
                f.write('%s:%d\n' % (group, i))
            fn(random.Random('%d/%s/%d' % (self.seed, group, i)), i)

    def done(self):
        json.dump(dict(done=1, evaluations=self.evals, violations=self.nviol, counts=self.counts, samples=self.samples),
                  open(self.out + '.stats', 'w'))
        with open(self.out + '.distinct', 'wb') as f:
            f.write(struct.pack('<%dQ' % len(self.distinct), *self.distinct))
        self.viol.close()
        if self.only:
            print(json.dumps(self.counts), self.evals, self.nviol)
        sys.stdout.flush()
        os._exit(0 if not (self.only and self.nviol) else 1)


def run(main):
    """An exception that reaches here is a harness bug unless raised inside repo code, which main must guard."""
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        print('HARNESS-BUG')
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)


def came_from_repo(e):
    """True when the exception passed through a frame of the repository: then it is the code's, not the harness's."""
    t = e.__traceback__
    while t:
        if t.tb_frame.f_code.co_filename.startswith(REPO + '/'):
            return True
        t = t.tb_next
    return False
