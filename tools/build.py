#!/usr/bin/env python3
"""Builds the real /repo sources (instrumented) plus the harnesses in /verif/harness.

build.py FLAVOR HARNESS...   -> prints the path of each binary, one per line
build.py --all FLAVOR        -> compiles every TU of the flavor (used by setup)

Objects are cached under /verif/build keyed by the *content* of the source, of
every header it read (from -MD) and of the flags; nothing depends on mtimes.
A binary only needs the TUs its symbols reach: the closure is found with nm on
up-to-date objects, so an edit elsewhere in the tree costs nothing and an
unrelated TU that does not compile does not matter.
"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_BUILD', VERIF + '/build')
GEN = OUT + '/gen'
JOBS = max(2, min(8, os.cpu_count() or 2))

COMMON = ['-std=c++20', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-w',
          '-ffp-contract=off',
          '-include', 'absl/strings/str_format.h', '-include', 'optional', '-include', 'cstdint',
          '-I' + VERIF + '/shims', '-I' + REPO, '-I' + GEN, '-I/usr/include/eigen3',
          '-I' + REPO + '/iamf/include/iamf_tools', '-I' + VERIF]
SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,function',
       '-fno-sanitize-recover=all']
FLAVORS = {
    'asan': {'c': ['-O1'] + SAN, 'l': SAN},
    'tsan': {'c': ['-O1', '-fsanitize=thread', '-DVERIF_TSAN'], 'l': ['-fsanitize=thread']},
    'fuzz': {'c': ['-O1'] + SAN + ['-fsanitize=fuzzer-no-link'], 'l': SAN + ['-fsanitize=fuzzer-no-link']},
    'plain': {'c': ['-O1'], 'l': []},
}
CXX = 'clang++'
LIBS = ['-lprotobuf', '-lexpat', '-labsl_raw_hash_set', '-labsl_hash', '-labsl_city', '-labsl_low_level_hash',
        '-labsl_hashtablez_sampler', '-labsl_exponential_biased', '-labsl_statusor', '-labsl_status', '-labsl_cord', '-labsl_cordz_info',
        '-labsl_cordz_handle', '-labsl_cordz_functions', '-labsl_cord_internal', '-labsl_crc32c', '-labsl_crc_internal',
        '-labsl_bad_optional_access', '-labsl_bad_variant_access', '-labsl_strerror',
        '-labsl_synchronization', '-labsl_graphcycles_internal', '-labsl_stacktrace', '-labsl_symbolize',
        '-labsl_malloc_internal', '-labsl_debugging_internal', '-labsl_demangle_internal', '-labsl_time',
        '-labsl_civil_time', '-labsl_time_zone', '-labsl_strings', '-labsl_strings_internal', '-labsl_base',
        '-labsl_spinlock_wait', '-labsl_int128', '-labsl_throw_delegate', '-labsl_raw_logging_internal',
        '-labsl_log_severity', '-labsl_str_format_internal',
        '-labsl_random_distributions', '-labsl_random_seed_sequences', '-labsl_random_internal_pool_urbg',
        '-labsl_random_internal_randen', '-labsl_random_internal_randen_hwaes', '-labsl_random_internal_randen_hwaes_impl',
        '-labsl_random_internal_randen_slow', '-labsl_random_internal_platform', '-labsl_random_internal_seed_material',
        '-labsl_random_seed_gen_exception', '-lpthread']
SKIP = re.compile(r'(/tests?/|_test\.cc$|_fuzz|_fuzzer|benchmark|_test_utils?\.cc$)')


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


_fh, _fl = {}, threading.Lock()


def fhash(path):
    with _fl:
        if path in _fh:
            return _fh[path]
    try:
        with open(path, 'rb') as f:
            v = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        v = 'missing'
    with _fl:
        _fh[path] = v
    return v


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = '%s.%d' % (path, os.getpid())
    with open(tmp, 'wb' if isinstance(data, bytes) else 'w') as f:
        f.write(data)
    os.replace(tmp, path)


def protos():
    """Generates C++ from the repo's .proto files (via the proto2 rewrite)."""
    src = REPO + '/iamf/cli/proto'
    names = sorted(f for f in os.listdir(src) if f.endswith('.proto'))
    conv = VERIF + '/tools/protoconv.py'
    key = sha('v3', *[n + fhash(src + '/' + n) for n in names], fhash(conv))
    stamp = GEN + '/stamp'
    try:
        if open(stamp).read() == key:
            return
    except OSError:
        pass
    root = OUT + '/protoroot'
    dst = root + '/iamf/cli/proto'
    subprocess.run([sys.executable, conv, src, dst], check=True)
    os.makedirs(GEN, exist_ok=True)
    subprocess.run(['protoc', '-I' + root, '--cpp_out=' + GEN] + [dst + '/' + n for n in names], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    g = GEN + '/iamf/cli/proto'
    helper = '''
#ifndef VERIF_PB_STR_
#define VERIF_PB_STR_
#include <string>
#include <string_view>
#include <type_traits>
namespace verif_pb {
template <class T> inline decltype(auto) Str(T&& t) {
  if constexpr (std::is_same_v<std::decay_t<T>, std::string_view>) return std::string(t);
  else return static_cast<T&&>(t);
}
}
#endif
'''
    for f in os.listdir(g):
        if f.endswith('.pb.h'):
            s = open(g + '/' + f).read()
            s = s.replace('.Set(static_cast<ArgT0 &&>(arg0)', '.Set(::verif_pb::Str(static_cast<ArgT0 &&>(arg0))')
            s = s.replace('#include <string>\n', '#include <string>\n' + helper, 1)
            write(g + '/' + f, s)
    write(stamp, key)


def sources():
    """Every non-test TU of the repository, plus generated protos and shims."""
    r = []
    for top in ('iamf', 'validation'):
        for d, dirs, files in os.walk(REPO + '/' + top):
            dirs.sort()
            for f in sorted(files):
                p = d + '/' + f
                if f.endswith(('.cc', '.cpp')) and not SKIP.search(p[len(REPO):]):
                    r.append(p)
    for d, dirs, files in os.walk(GEN):
        r += [d + '/' + f for f in sorted(files) if f.endswith('.pb.cc')]
    r.append(VERIF + '/shims/ext/ext.cc')
    r.append(VERIF + '/shims/ext/absl_impl.cc')
    return r


class Builder:
    def __init__(self, flavor):
        protos()
        self.flavor = flavor
        self.dir = OUT + '/' + flavor
        os.makedirs(self.dir, exist_ok=True)
        self.cflags = FLAVORS[flavor]['c'] + COMMON
        self.fkey = sha(CXX, *self.cflags)
        self.srcs = sources()
        self.compiled = 0
        self.failed = {}
        self.fresh = {}
        self.lock = threading.Lock()

    def obj(self, src):
        n = src
        for pre, tag in ((REPO + '/', 'r/'), (GEN + '/', 'g/'), (VERIF + '/', 'v/')):
            if src.startswith(pre):
                n = tag + src[len(pre):]
                break
        return self.dir + '/' + n.replace('/', '_') + '.o'

    def meta(self, src):
        try:
            return json.load(open(self.obj(src) + '.json'))
        except (OSError, ValueError):
            return None

    def is_fresh(self, src):
        m = self.meta(src)
        if not m or m['fkey'] != self.fkey or not os.path.exists(self.obj(src)):
            return None
        for d, h in m['deps'].items():
            if fhash(d) != h:
                return None
        return m

    def compile(self, src, extra=()):
        """Brings src's object up to date; returns its meta or None on failure."""
        with self.lock:
            if src in self.fresh:
                return self.fresh[src]
        m = self.is_fresh(src)
        if not m:
            o = self.obj(src)
            dep = o + '.d'
            p = subprocess.run([CXX] + self.cflags + list(extra) + ['-MD', '-MF', dep, '-c', src, '-o', o + '.tmp'],
                               capture_output=True, text=True)
            with self.lock:
                self.compiled += 1
            if p.returncode != 0:
                with self.lock:
                    self.failed[src] = p.stderr[-4000:]
                    self.fresh[src] = None
                return None
            deps = open(dep).read().replace('\\\n', ' ').split(':', 1)[1].split()
            deps = {d: fhash(d) for d in sorted(set(deps)) if d.startswith((REPO, VERIF, OUT))}
            os.replace(o + '.tmp', o)
            os.unlink(dep)
            defs, undefs = [], []
            for line in subprocess.run(['nm', '-P', o], capture_output=True, text=True).stdout.splitlines():
                w = line.split()
                if len(w) < 2:
                    continue
                if w[1] == 'U':
                    undefs.append(w[0])
                elif w[1] in 'TDBRVWGSC':
                    # weak symbols are emitted wherever they are used
                    (defs.append(w[0]) if w[1] in 'TDBRGSC' else None)
            m = {'fkey': self.fkey, 'deps': deps, 'defs': defs, 'undefs': undefs, 'id': sha(*[k + v for k, v in deps.items()], self.fkey)}
            write(o + '.json', json.dumps(m))
        with self.lock:
            self.fresh[src] = m
        return m

    def compile_many(self, srcs):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(self.compile, srcs))

    def closure(self, roots):
        """TUs reachable from the root TUs by symbol, all up to date."""
        metas = {s: self.meta(s) for s in self.srcs}
        unknown = [s for s in self.srcs if metas[s] is None]
        if unknown:
            for s, m in zip(unknown, self.compile_many(unknown)):
                metas[s] = m
        tried_all = False
        root_metas = dict(zip(roots, self.compile_many(roots)))
        while True:
            # What a harness defines itself stands in for the repository's definition.
            where = {d: s for s, m in root_metas.items() if m for d in m['defs']}
            for s in self.srcs:
                if s.endswith('_main.cc'):
                    continue
                for d in (metas[s] or {}).get('defs', ()):
                    where.setdefault(d, s)
            need, todo, missing = set(), list(roots), set()
            stale_seen = False
            while todo:
                batch = [s for s in dict.fromkeys(todo) if s not in need]
                todo = []
                if not batch:
                    break
                for s, m in zip(batch, self.compile_many(batch)):
                    need.add(s)
                    if m is None:
                        if s in roots or True:
                            continue
                    if s in metas and metas[s] is not m and set((metas[s] or {}).get('defs', ())) != set(m['defs']):
                        stale_seen = True
                    if s in metas:
                        metas[s] = m
                    for u in m['undefs']:
                        t = where.get(u)
                        if t:
                            if t not in need:
                                todo.append(t)
                        elif 'iamf_tools' in u:
                            missing.add(u)
            if stale_seen:
                continue
            if missing and not tried_all:
                # A symbol moved to a TU whose recorded symbols are stale.
                tried_all = True
                for s, m in zip(self.srcs, self.compile_many(self.srcs)):
                    metas[s] = m
                continue
            return sorted(need)

    def binary(self, harness):
        if os.path.isabs(harness):
            src = harness
            name = os.path.basename(harness)[:-3]
        else:
            src = VERIF + '/harness/' + harness + '.cc'
            name = harness
        need = self.closure([src, VERIF + '/shims/ext/ext.cc', VERIF + '/shims/ext/absl_impl.cc'])
        bad = [s for s in need if self.fresh.get(s) is None]
        if bad:
            for s in bad:
                sys.stderr.write('COMPILE FAILED %s\n%s\n' % (s, self.failed.get(s, '')))
            return None
        exe = self.dir + '/bin_' + name
        key = sha(*[s + self.fresh[s]['id'] for s in need], *LIBS, *FLAVORS[self.flavor]['l'])
        try:
            if open(exe + '.key').read() == key and os.path.exists(exe):
                return exe
        except OSError:
            pass
        extra = ['-fsanitize=fuzzer'] if name.startswith('fuzz_') else []
        p = subprocess.run([CXX, '-fuse-ld=lld' if os.path.exists('/usr/bin/ld.lld') else '-O0'] + FLAVORS[self.flavor]['l'] + extra +
                           [self.obj(s) for s in need] + ['-o', exe + '.tmp', '-Wl,--as-needed'] + LIBFLAGS,
                           capture_output=True, text=True)
        if p.returncode != 0:
            sys.stderr.write('LINK FAILED %s\n%s\n' % (name, p.stderr[-6000:]))
            return None
        os.replace(exe + '.tmp', exe)
        write(exe + '.key', key)
        return exe


def _have(lib):
    n = lib[2:]
    return any(os.path.exists('/usr/lib/x86_64-linux-gnu/lib%s.%s' % (n, e)) for e in ('so', 'a')) or n == 'pthread'


LIBFLAGS = ['-Wl,--start-group'] + [l for l in LIBS if _have(l)] + ['-Wl,--end-group']


def build(flavor, names):
    b = Builder(flavor)
    r = [b.binary(n) for n in names]
    return b, r


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--all':
        b = Builder(a[1])
        b.compile_many(b.srcs)
        for s, e in b.failed.items():
            sys.stderr.write('FAILED %s\n%s\n' % (s, '\n'.join(e.splitlines()[:6])))
        print('compiled', b.compiled, 'failed', len(b.failed))
    else:
        b, r = build(a[0], a[1:])
        print('\n'.join(str(x) for x in r))
        sys.exit(0 if all(r) else 2)
