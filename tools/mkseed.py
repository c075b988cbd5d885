"""Development helper (no check uses it): create and confirm a planted bug.

mkseed.make(id, property, [(file, old, new)], demo_files, demo_sh, needs, breaks)
Confirms: patch applies, demo passes without and fails with it; with confirm=True also builds and runs the stable tests.
"""
import json, os, shutil, subprocess, sys, tempfile

DEMO = '''#!/bin/bash
# Exit 0: behaves; non-zero: the property is broken.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -w %(san)s -I"$D" %(inc)s -I"$PWD" "$D/demo.cc" %(srcs)s -o "$T/demo" %(libs)s || exit 90
cd "$T" && timeout 120 ./demo
'''
LIBS = ('-Wl,--start-group -labsl_status -labsl_statusor -labsl_str_format_internal -labsl_strings -labsl_strings_internal -labsl_hash '
        '-labsl_raw_hash_set -labsl_cord -labsl_cord_internal -labsl_cordz_info -labsl_cordz_handle -labsl_cordz_functions -labsl_city '
        '-labsl_low_level_hash -labsl_base -labsl_spinlock_wait -labsl_raw_logging_internal -labsl_throw_delegate -labsl_int128 '
        '-labsl_strerror -labsl_stacktrace -labsl_symbolize -labsl_debugging_internal -labsl_demangle_internal -labsl_malloc_internal '
        '-labsl_time -labsl_time_zone -labsl_civil_time -labsl_synchronization -labsl_graphcycles_internal -labsl_exponential_biased '
        '-labsl_hashtablez_sampler -labsl_bad_optional_access -labsl_bad_variant_access -labsl_log_severity -Wl,--end-group -lpthread')

SHIM = {  # headers newer than the installed Abseil, reduced to what the demos need
'absl/base/no_destructor.h': '''#pragma once
#include <utility>
#include <new>
namespace absl {
template <typename T> class NoDestructor {
 public:
  template <typename... A> explicit NoDestructor(A&&... a) { new (s_) T(std::forward<A>(a)...); }
  NoDestructor(const T& x) { new (s_) T(x); }
  const T& operator*() const { return *get(); } T& operator*() { return *get(); }
  const T* operator->() const { return get(); } T* operator->() { return get(); }
  const T* get() const { return reinterpret_cast<const T*>(s_); } T* get() { return reinterpret_cast<T*>(s_); }
 private:
  alignas(T) unsigned char s_[sizeof(T)];
};
}
''',
'absl/base/nullability.h': '''#pragma once
#define absl_nullable
#define absl_nonnull
#define absl_nullability_unknown
namespace absl { template <class T> using Nonnull = T; template <class T> using Nullable = T; }
''',
'absl/log/absl_log.h': '''#pragma once
#include <ostream>
struct NullS { template <class T> NullS& operator<<(const T&) { return *this; } };
#define ABSL_LOG(x) NullS()
#define ABSL_LOG_IF(x, c) NullS()
#define ABSL_LOG_FIRST_N(x, n) NullS()
#define ABSL_VLOG(x) NullS()
#define ABSL_LOG_EVERY_N_SEC(x, n) NullS()
#define ABSL_LOG_EVERY_POW_2(x) NullS()
''',
'absl/log/absl_check.h': '''#pragma once
#include <cstdlib>
#include "absl/log/absl_log.h"
struct ChkS { bool f; ~ChkS() { if (f) std::abort(); } template <class T> ChkS& operator<<(const T&) { return *this; } };
#define ABSL_CHECK(c) ChkS{!(c)}
#define ABSL_CHECK_OK(c) ChkS{!(c).ok()}
#define ABSL_CHECK_EQ(a, b) ChkS{!((a) == (b))}
#define ABSL_CHECK_NE(a, b) ChkS{!((a) != (b))}
#define ABSL_CHECK_LE(a, b) ChkS{!((a) <= (b))}
#define ABSL_CHECK_LT(a, b) ChkS{!((a) < (b))}
#define ABSL_CHECK_GE(a, b) ChkS{!((a) >= (b))}
#define ABSL_CHECK_GT(a, b) ChkS{!((a) > (b))}
#define ABSL_DCHECK(c) ChkS{!(c)}
#define ABSL_DCHECK_GE(a, b) ChkS{!((a) >= (b))}
#define ABSL_DCHECK_LE(a, b) ChkS{!((a) <= (b))}
#define ABSL_DCHECK_GT(a, b) ChkS{!((a) > (b))}
#define ABSL_DCHECK_LT(a, b) ChkS{!((a) < (b))}
#define ABSL_DCHECK_EQ(a, b) ChkS{!((a) == (b))}
#define ABSL_DCHECK_NE(a, b) ChkS{!((a) != (b))}
''',
}


def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(id, prop, edits, demo_cc=None, srcs=(), needs='', breaks='', demo_sh=None, files=None, san='', shim=False, confirm=True, libs=LIBS):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert run('git -C /repo status --porcelain').stdout == '', 'repo dirty'
    if demo_cc is not None:
        open(d + '/demo.cc', 'w').write(demo_cc)
        demo_sh = DEMO % dict(san=san, inc='-I"$D/shim"' if shim else '', srcs=' '.join('"$PWD/%s"' % s for s in srcs), libs=libs)
    if shim:
        for k, v in SHIM.items():
            os.makedirs(os.path.dirname(d + '/shim/' + k), exist_ok=True)
            open(d + '/shim/' + k, 'w').write(v)
    for k, v in (files or {}).items():
        os.makedirs(os.path.dirname(d + '/' + k), exist_ok=True)
        open(d + '/' + k, 'w').write(v)
    open(d + '/demo.sh', 'w').write(demo_sh)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    ok = run('cp -r %s /tmp/demo_copy && cd /repo && bash /tmp/demo_copy/demo.sh; r=$?; rm -rf /tmp/demo_copy; exit $r' % d)
    print(id, 'demo on unchanged:', ok.returncode, ok.stdout[-1500:] if ok.returncode else '')
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = run('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        bad = run('cd /repo && bash %s/demo.sh' % d)
        print(id, 'demo with bug:', bad.returncode, bad.stdout[-400:])
        if confirm:
            b = run('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/w/seedtest.json')
            t = open('/tmp/w/seedtest.json').read() if os.path.exists('/tmp/w/seedtest.json') else ''
            print(id, 'build+test rc', b.returncode, t[:600].replace('\n', ' '))
            if b.returncode:
                print(b.stdout[-1500:])
    finally:
        run('git -C /repo checkout -- .')
    if confirm:
        run('bash /opt/vp/build.sh')
    print(id, 'GOOD' if ok.returncode == 0 and bad.returncode not in (0, 90) else 'BAD SEED')
