"""C30: the IAMF verifier run against scripted stand-in tools; verdict, ledger, tool calls and left-over files are compared with the script."""
import contextlib, io, os, re, shutil, sys, tempfile, warnings
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
H = vlib.Harness()
os.environ['NUMBA_CACHE_DIR'] = H.scratch
import struct
import numpy as np
warnings.simplefilter('ignore')

TOOL = r'''#!/bin/sh
# A stand-in tool: logs its arguments, then does what the plan for it says.
P="@PLAN@"
NAME="@NAME@"
{ printf '%s' "$NAME"; for a in "$@"; do printf '\037%s' "$a"; done; printf '\036'; } >> "$P/log"
rep=""; out=""; in=""; layout=""; mix=""; prev=""
for a in "$@"; do
  case "$prev" in --report_file) rep="$a";; -o) out="$a";; -i) in="$a";; --output_filename) out="$a";; --input_filename) in="$a";; --output_layout) layout="$a";; --mix_id) mix="$a";; esac
  case "$a" in
    --report_file=*) rep="${a#*=}";;
    --output_filename=*) out="${a#*=}";;
    --input_filename=*) in="${a#*=}";;
    --output_layout=*) layout="${a#*=}";;
    --mix_id=*) mix="${a#*=}";;
  esac
  prev="$a"
done
key="$NAME"
if [ "$NAME" = dec ]; then
  read -r who < "$in"
  key="dec_${who}_${layout}_${mix}"
fi
[ -f "$P/$key.report" ] && [ -n "$rep" ] && cp "$P/$key.report" "$rep"
[ -f "$P/$key.out" ] && [ -n "$out" ] && cp "$P/$key.out" "$out"
echo "output of $NAME"
[ -f "$P/$key.rc" ] && exit "$(cat "$P/$key.rc")"
[ "$NAME" = dec ] && exit 77
exit 0
'''
LAYOUTS = ('7.1.4', '2.0', 'Binaural')


def wav(path, x, rate=48000, ch=1, width=2):
    d = np.clip(np.round(x * 32767), -32768, 32767).astype('<i2').tobytes() if width == 2 else \
        np.clip(np.round(x * 2**30), -2**31, 2**31 - 1).astype('<i4').tobytes()
    with open(path, 'wb') as f:
        f.write(b'RIFF' + struct.pack('<I', 36 + len(d)) + b'WAVEfmt ' + struct.pack('<IHHIIHH', 16, 1, ch, rate, rate * ch * width, ch * width, 8 * width) +
                b'data' + struct.pack('<I', len(d)) + d)


def tree(d):
    r = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            r[q] = open(q, 'rb').read() if os.path.isfile(q) else None
        r[p] = None
    return r


def main():
    from validation.iamf_verifier import iamf_verifier as V
    from absl import flags, logging
    logging.set_verbosity(logging.FATAL)
    F = flags.FLAGS
    S = 4 if H.thorough else 1
    base = H.scratch + '/v'
    HAVE = False
    try:
        import inspect
        HAVE = {'ref_file', 'test_file', 'cw_cmd', 'decoder_cmd', 'loudness_cmd', 'opus_hoa_cmd', 'gpac_cmd', 'layouts',
                'loudness_tolerance_lufs'} <= set(inspect.signature(V._run_verifier).parameters)
    except (AttributeError, ValueError):
        pass

    def one(rng, i):
        shutil.rmtree(base, ignore_errors=True)
        plan, tmp, files, tools = [base + '/' + x for x in ('plan', 'tmp', 'files', 'tools')]
        for d in (plan, tmp, files, tools):
            os.makedirs(d)
        tempfile.tempdir = tmp
        os.environ['TMPDIR'] = tmp

        def put(name, s):
            with open(plan + '/' + name, 'w') as f:
                f.write(s)
        via_main = rng.random() < .3 or not HAVE
        tol, lays = .1, LAYOUTS
        extra = {}
        if not via_main and rng.random() < .4:
            lays = tuple(rng.sample(['7.1.4', '2.0', 'Binaural', '5.1', '9.1.6', '3.1.2', '1.0'], rng.randint(1, 4)))
            tol = rng.choice([.1, .5, 0.0, 2.0])
            extra = dict(layouts=lays, loudness_tolerance_lufs=tol)
        missing = rng.choice(['cw', 'dec', 'loud', 'hoa', 'gpac']) if rng.random() < .08 else None
        mp4 = rng.random() < .35
        use_hoa = rng.random() < .5
        cmds = {}
        for n in ('cw', 'dec', 'loud', 'hoa', 'gpac'):
            p = tools + '/' + n
            cmds[n] = p
            if n == missing:
                continue
            with open(p, 'w') as f:
                f.write(TOOL.replace('@PLAN@', plan).replace('@NAME@', n))
            os.chmod(p, 0o755)
        ref, test = files + '/ref.iamf', files + '/' + rng.choice(['test', 'a b', 'x.mp4.y']) + ('.mp4' if mp4 else '.iamf')
        open(ref, 'w').write('ref\n')
        open(test, 'w').write('mp4\n' if mp4 else 'test\n')
        fails, raises, checks = [], False, 0
        if rng.random() < .12:
            put('cw.rc', str(rng.choice([1, 2, 255])))
            fails.append('cw')
        checks += 1
        nm = rng.choice([0, 1, 1, 2, 2, 3])
        ids = []
        while len(ids) < nm:
            v = rng.choice([0, 1, 42, rng.randrange(1000), 4294967295, rng.randrange(2**32)])
            if v not in ids:
                ids.append(v)
        no_report = rng.random() < .05
        if no_report:
            ids = []
        else:
            t = 'Comparing files\n'
            for k in ids:
                t += 'Comparing Mix Presentation ID: %s%d\n  sub-mix 0 loudness ok %d\n  layout 3 delta 0.0\n' % (rng.choice(['', ' ', '  ']), k, rng.randrange(9))
            put('loud.report', t + rng.choice(['', 'done\n', 'Mix Presentation ID 99 skipped\n']))
        if rng.random() < .12:
            put('loud.rc', str(rng.choice([1, 3])))
            fails.append('loud')
        checks += 1
        if use_hoa:
            checks += 1
            k = rng.choice(['ok', 'ok', 'ok', 'noreport', 'bad', 'rc'])
            if k == 'ok':
                put('hoa.report', 'Elements: 1\nResult: All Elements Canonical\n')
            elif k == 'bad':
                put('hoa.report', 'Elements: 1\nResult: Non-Canonical Elements Detected\n')
                fails.append('hoa')
            elif k == 'rc':
                put('hoa.rc', '1')
                fails.append('hoa')
        if mp4:
            k = rng.choice(['ok'] * 6 + ['rc', 'noout'])
            if k != 'noout':
                put('gpac.out', 'test\n')
            if k == 'rc':
                put('gpac.rc', '1')
            if k != 'ok':
                raises = True
        decodes, maybe = [], []
        r = np.random.RandomState(rng.getrandbits(31))
        n = rng.randint(600, 3000)
        bad_at = rng.choice([None, None, None, (rng.choice(ids), rng.choice(lays))]) if ids else None
        for m in ids:
            for lay in lays:
                x = r.uniform(-.5, .5, n)
                y = x
                rc = {'ref': 0, 'test': 0}
                k = 'same'
                if bad_at == (m, lay) or rng.random() < .02:
                    k = rng.choice(['short', 'long', 'noise', 'gain', 'click', 'refrc', 'testrc', 'noout', 'refnoout', 'rate', 'garbage', 'width', 'empty-rc'])
                elif rng.random() < .2:
                    k = 'tiny'
                rate, width, out = 48000, 2, {'ref': True, 'test': True}
                if k == 'short':
                    y = x[:-rng.choice([1, 2, 300])]
                elif k == 'long':
                    y = np.concatenate([x, x[:rng.choice([1, 40])]])
                elif k == 'noise':
                    y = r.uniform(-.5, .5, n)
                elif k == 'gain':
                    y = x * .97
                elif k == 'click':
                    y = x.copy()
                    y[rng.randrange(n)] = .99
                    y[rng.randrange(n):][:40] = 0
                elif k == 'tiny':
                    y = x * .9995
                elif k == 'refrc':
                    rc['ref'] = rng.choice([1, 134])
                elif k == 'testrc':
                    rc['test'] = rng.choice([1, 134])
                elif k == 'noout':
                    out['test'] = False
                elif k == 'refnoout':
                    out['ref'] = False
                elif k == 'rate':
                    rate = 44100
                elif k == 'width':
                    width = 4
                for who, s in (('ref', x), ('test', y)):
                    key = 'dec_%s_%s_%d' % (who, lay, m)
                    put(key + '.rc', str(rc[who]))
                    if out[who] and not (k == 'empty-rc' and who == 'test'):
                        wav(plan + '/' + key + '.out', s, rate if who == 'test' else 48000, 1, width if who == 'test' else 2)
                    elif k == 'empty-rc':
                        put(key + '.rc', '1')
                    if k == 'garbage' and who == 'test':
                        put(key + '.out', 'not a wave file')
                if k not in ('same', 'tiny'):
                    fails.append('%s/%s/%d' % (k, lay, m))
                if k in ('noout', 'refnoout', 'rate', 'garbage', 'width'):
                    maybe.append(k)  # an exception is as good a refusal as a FAIL entry
                decodes.append(('ref', lay, m))
                if k != 'refrc':
                    decodes.append(('test', lay, m))
                checks += 1
        if not ids:
            fails.append('no-mix')
            checks += 1
        need = [c for c in ('cw', 'dec', 'loud') ] + (['hoa'] if use_hoa else []) + (['gpac'] if mp4 else [])
        dep = missing in need
        want_pass = not fails and not raises and not dep
        ctx = 'mp4=%d hoa=%d ids=%s fails=%s raises=%d missing=%s main=%d' % (mp4, use_hoa, ids, fails, raises, missing, via_main)
        before = tree(files)
        got, text, exc, rep = None, None, None, base + '/report.txt'
        so = io.StringIO()
        try:
            with contextlib.redirect_stdout(so):
                if via_main:
                    F(['prog', '--ref_file=' + ref, '--test_file=' + test, '--cw_cmd=' + cmds['cw'], '--decoder_cmd=' + cmds['dec'], '--loudness_cmd=' + cmds['loud'],
                       '--gpac_cmd=' + cmds['gpac'], '--report_file=' + rep] + (['--opus_hoa_cmd=' + cmds['hoa']] if use_hoa else ['--opus_hoa_cmd=']))
                    V.main(['prog'])
                    got = True
                else:
                    got, text = V._run_verifier(ref_file=ref, test_file=test, cw_cmd=cmds['cw'], decoder_cmd=cmds['dec'], loudness_cmd=cmds['loud'],
                                                opus_hoa_cmd=cmds['hoa'] if use_hoa else None, gpac_cmd=cmds['gpac'], **extra)
        except SystemExit as e:
            got = e.code in (0, None)
        except Exception as e:
            if not vlib.came_from_repo(e):
                raise
            exc = e
        H.seen(ctx)
        H.sample(ctx)
        H.count('runs')
        H.count('expected-pass' if want_pass else 'expected-fail')
        if exc is not None:
            H.count('raised')
            H.expect(raises or dep or maybe, 'unexpected-exception', lambda: '%r %s' % (exc, ctx))
        else:
            H.expect(not raises and not dep, 'missing-exception', lambda: 'verdict %r %s' % (got, ctx))
            H.expect(bool(got) == want_pass, 'verdict', lambda: 'got %r want %r %s' % (got, want_pass, ctx))
            if via_main:
                H.expect(os.path.exists(rep), 'report-missing', ctx)
                text = open(rep).read() if os.path.exists(rep) else ''
                H.expect(text.strip() and text.strip() in so.getvalue(), 'report-not-printed', ctx)
            H.expect(re.findall(r'^OVERALL RESULT: (\w+)$', text, re.M) == ['PASS' if got else 'FAIL'], 'ledger-result', lambda: text[-300:])
            np_, nf = len(re.findall(r'^\[PASS\]', text, re.M)), len(re.findall(r'^\[FAIL\]', text, re.M))
            H.expect(np_ + nf == checks, 'ledger-entries', lambda: '%d+%d entries, %d checks %s\n%s' % (np_, nf, checks, ctx, text))
            H.expect((nf == 0) == bool(got), 'ledger-verdict', lambda: text)
            H.expect(nf == len(fails), 'ledger-fail-count', lambda: '%d entries, %d failures %s' % (nf, len(fails), ctx))
            H.expect('Reference File: %s\n' % os.path.basename(ref) in text and 'Test File: %s\n' % os.path.basename(test) in text, 'ledger-names', text[:300])
        if via_main and exc is not None:
            H.expect(not os.path.exists(rep), 'report-after-failure', ctx)
        # Tool calls.
        calls = []
        if os.path.exists(plan + '/log'):
            for line in open(plan + '/log').read().split('\036')[:-1]:
                a = line.split('\037')
                calls.append((a[0], a[1:]))
        H.count('tool-calls', len(calls))
        if dep:
            H.expect(not calls, 'ran-with-missing-tool', lambda: '%s %s' % (calls[:2], ctx))
        by = lambda nme: [c[1] for c in calls if c[0] == nme]

        def val(a, name):
            for k, s in enumerate(a):
                if s == name and k + 1 < len(a):
                    return a[k + 1]
                if s.startswith(name + '='):
                    return s[len(name) + 1:]
        stop = exc is not None
        if not dep and not raises:
            H.expect(len(by('cw')) == 1, 'cw-calls', lambda: '%s %s' % (by('cw'), ctx))
            H.expect(by('cw') and by('cw')[0][-1] == test and val(by('cw')[0], '-s') == ('iamf_isobmff' if mp4 else 'iamf'), 'cw-args', lambda: '%s %s' % (by('cw'), ctx))
            L = by('loud')
            if H.expect(len(L) == 1, 'loudness-calls', ctx):
                H.expect(val(L[0], '--file1') == ref, 'loudness-ref', L[0])
                H.expect((val(L[0], '--file2') == test) == (not mp4), 'loudness-test', L[0])
                H.expect(float(val(L[0], '--tolerance')) == tol, 'loudness-tolerance', L[0])
            H.expect(len(by('hoa')) == (1 if use_hoa else 0), 'hoa-calls', ctx)
            if use_hoa and by('hoa'):
                H.expect((val(by('hoa')[0], '--input') == test) == (not mp4), 'hoa-args', by('hoa')[0])
            H.expect(len(by('gpac')) == (1 if mp4 else 0), 'gpac-calls', ctx)
            D = []
            for a in by('dec'):
                f = val(a, '--input_filename')
                D.append(('ref' if f == ref else 'test', val(a, '--output_layout'), int(val(a, '--mix_id') or -1)))
                H.expect(f == ref or (f == test) == (not mp4), 'decode-input', a)
                H.expect(os.path.dirname(val(a, '--output_filename') or '').startswith(tmp), 'decode-output-place', a)
            if not stop:
                H.expect(sorted(D) == sorted(decodes), 'decodes', lambda: 'got %s want %s %s' % (D, decodes, ctx))
                H.count('decodes', len(D))
            else:
                H.expect(set(D) <= set(decodes) and len(D) == len(set(D)), 'decodes', lambda: '%s %s' % (D, ctx))
        # Nothing left behind, nothing touched.
        H.expect(os.listdir(tmp) == [], 'temp-left', lambda: '%s %s' % (os.listdir(tmp), ctx))
        H.expect(tree(files) == before, 'inputs-changed', ctx)
        H.expect(set(os.listdir(base)) <= {'plan', 'tmp', 'files', 'tools', 'report.txt'}, 'stray-files', lambda: str(os.listdir(base)))
    cwd = os.getcwd()
    H.cases('run', 600 * S, one)
    H.done()


vlib.run(main)
