"""C29: the Mel log-spectral-distance comparator against an independent implementation (plain NumPy FFT and filter bank)."""
import math, os, re, sys, warnings
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('NUMBA_NUM_THREADS', '1')
os.environ.setdefault('NUMBA_CACHE_DIR', os.environ.get('VERIF_SCRATCH', '/tmp'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
H = vlib.Harness()
os.environ['NUMBA_CACHE_DIR'] = H.scratch
import struct
import numpy as np
warnings.simplefilter('ignore')

_bank = {}


def mel_bank(sr, n_fft=2048, n_mels=128):
    """Slaney-style mel filters, area normalised."""
    if sr in _bank:
        return _bank[sr]

    def hz2mel(f):
        return f * 3 / 200 if f < 1000 else 15 + math.log(f / 1000) / (math.log(6.4) / 27)

    def mel2hz(m):
        return m * 200 / 3 if m < 15 else 1000 * math.exp((m - 15) * math.log(6.4) / 27)
    top = hz2mel(sr / 2)
    edges = [mel2hz(top * k / (n_mels + 1)) for k in range(n_mels + 2)]
    f = np.arange(n_fft // 2 + 1) * (sr / n_fft)
    w = np.zeros((n_mels, len(f)))
    for m in range(n_mels):
        lo, c, hi = edges[m:m + 3]
        w[m] = np.maximum(0, np.minimum((f - lo) / (c - lo), (hi - f) / (hi - c))) * (2 / (hi - lo))
    _bank[sr] = w
    return w


def ref_mlsd(a, b, sr):
    """a, b: (n,) float arrays."""
    def logmel(x):
        n_fft, hop = 2048, 512
        win = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n_fft) / n_fft)
        p = np.concatenate([np.zeros(n_fft // 2), x, np.zeros(n_fft // 2)])
        frames = 1 + (len(p) - n_fft) // hop
        out = []
        for t in range(frames):
            s = np.abs(np.fft.rfft(p[t * hop:t * hop + n_fft] * win)) ** 2
            out.append(10 * np.log10(mel_bank(sr) @ s + 1e-4))
        return np.array(out)
    d = logmel(a) - logmel(b)
    return np.sqrt(np.mean(d * d, axis=1))


FULL = {'int16': 32767, 'int32': 2147483647, 'uint8': 255}


def signal(rng, n, kind=None):
    """Floats in [-1, 1]."""
    kind = kind or rng.choice(['noise', 'sine', 'silence', 'impulse', 'steps', 'quiet', 'chirp'])
    t = np.arange(n)
    r = np.random.RandomState(rng.getrandbits(31))
    if kind == 'noise':
        x = r.uniform(-1, 1, n) * rng.random()
    elif kind == 'sine':
        x = np.sin(t * rng.uniform(.001, 3)) * rng.random()
    elif kind == 'impulse':
        x = np.zeros(n)
        for _ in range(3):
            if n:
                x[rng.randrange(n)] = rng.choice([-1, 1, .5])
    elif kind == 'steps':
        x = np.where((t // rng.randint(1, 400)) % 2 == 0, .5, -.5) * rng.random()
    elif kind == 'quiet':
        x = r.uniform(-1, 1, n) * 1e-4
    elif kind == 'chirp':
        x = np.sin(t * t * rng.uniform(1e-6, 1e-3)) * .8
    else:
        x = np.zeros(n)
    return x, kind


def quant(x, dt):
    if dt == 'uint8':
        return np.clip(np.round(128 + x * 127), 0, 255).astype(np.uint8)
    return np.clip(np.round(x * FULL[dt]), -FULL[dt] - 1, FULL[dt]).astype(dt)


def distort(rng, x):
    k = rng.choice(['same', 'noise', 'gain', 'click', 'mute', 'lowbit', 'other', 'tail'])
    y = x.copy()
    n = len(y)
    r = np.random.RandomState(rng.getrandbits(31))
    if k == 'noise':
        y = y + r.uniform(-1, 1, n) * 10 ** rng.uniform(-5, -1)
    elif k == 'gain':
        y = y * 10 ** rng.uniform(-.3, .1)
    elif k == 'click' and n:
        y[rng.randrange(n)] += rng.choice([.01, .1, .9])
    elif k == 'mute' and n:
        a = rng.randrange(n)
        y[a:a + rng.randint(1, 8000)] = 0
    elif k == 'lowbit':
        y = np.round(y * 2 ** 9) / 2 ** 9
    elif k == 'other':
        y, _ = signal(rng, n)
    elif k == 'tail' and n:
        a = max(0, n - rng.randint(1, 600))
        y[a:] = y[a:] * .2 + .05
    return np.clip(y, -1, 1), k


def wav(path, rate, width, chans):
    """chans: list of equally long int arrays (dtype by width; 24 bit as int32 left-justified)."""
    x = np.stack(chans, axis=1) if chans[0].size else np.zeros((0, len(chans)), dtype=chans[0].dtype)
    if width == 3:
        raw = x.astype('<i4').tobytes()
        data = b''.join(raw[i + 1:i + 4] for i in range(0, len(raw), 4))
    else:
        data = x.astype({1: 'u1', 2: '<i2', 4: '<i4'}[width]).tobytes()
    n = len(chans)
    with open(path, 'wb') as f:
        f.write(b'RIFF' + struct.pack('<I', 36 + len(data) + (len(data) & 1)) + b'WAVEfmt ' +
                struct.pack('<IHHIIHH', 16, 1, n, rate, rate * n * width, n * width, 8 * width) +
                b'data' + struct.pack('<I', len(data)) + data + (b'\0' if len(data) & 1 else b''))


def ref_glitches(m, ch, thr, hop):
    return [dict(type='Transient Glitch', channel=ch, frame_index=i, time_ms=i * hop, mlsd=float(v)) for i, v in enumerate(m) if v > thr]


def ref_sustained(m, ch, thr, hop, ms):
    need = max(1, math.ceil(ms / hop))
    out, i, n = [], 0, len(m)
    while i < n:
        if not m[i] > thr:
            i += 1
            continue
        j = i
        while j < n and m[j] > thr:
            j += 1
        k = j - i
        if k * hop >= ms or k >= need:
            out.append(dict(type='Sustained Degradation', channel=ch, start_frame=i, end_frame=j - 1, start_ms=i * hop,
                            end_ms=i * hop + k * hop, duration_ms=k * hop, avg_mlsd=sum(float(v) for v in m[i:j]) / k))
        i = j
    if n == 0:
        best = 0.0
    else:
        w = min(need, n)
        best = max(min(float(v) for v in m[a:a + w]) for a in range(n - w + 1))
    return out, best


def same(a, b, tol=1e-9):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= tol * max(1, abs(a), abs(b))
    return a == b


def order(an):
    return sorted(an, key=lambda d: (d['channel'], d['type'], d.get('frame_index', d.get('start_frame'))))


def guard(fn, *a, **k):
    """(value, exception of the code under test)."""
    try:
        return fn(*a, **k), None
    except SystemExit:
        raise
    except Exception as e:
        if not vlib.came_from_repo(e):
            raise
        return None, e


def main():
    from validation.mlsd_comparator import mlsd_comparator as M
    from validation.mlsd_comparator import mlsd_comparator_main as MM
    from absl import flags, logging
    logging.set_verbosity(logging.FATAL)
    S = 4 if H.thorough else 1

    def mel(rng, i):
        n = rng.choice([1, 2, 100, 511, 512, 513, 1023, 1024, 2047, 2048, 2049, rng.randint(1, 9000), rng.randint(1, 9000)])
        ch = rng.choice([1, 1, 2, 3, 5])
        dt = rng.choice(['int16', 'int16', 'int32', 'uint8'])
        sr = rng.choice([8000, 16000, 44100, 48000, 48000, 96000])
        a, b, ks = [], [], []
        for _ in range(ch):
            x, k1 = signal(rng, n)
            y, k2 = distort(rng, x)
            a.append(quant(x, dt)); b.append(quant(y, dt)); ks.append((k1, k2))
        A = a[0] if ch == 1 else np.stack(a, 1)
        B = b[0] if ch == 1 else np.stack(b, 1)
        A0, B0 = A.copy(), B.copy()
        got, e = guard(M.calc_per_channel_mlsd_pcm, A, B, sr)
        ctx = '%s n=%d ch=%d %s sr=%d' % (ks, n, ch, dt, sr)
        if not H.expect(e is None, 'mlsd-raises', lambda: '%r %s' % (e, ctx)):
            return
        H.count('mel-pairs')
        H.seen('mel', A.tobytes(), B.tobytes(), sr)
        H.expect(np.array_equal(A, A0) and np.array_equal(B, B0), 'input-changed', ctx)
        if not H.expect(len(got) == ch, 'channel-count', ctx):
            return
        back, e2 = guard(M.calc_per_channel_mlsd_pcm, B, A, sr)
        zero, e3 = guard(M.calc_per_channel_mlsd_pcm, A, A.copy(), sr)
        if not H.expect(e2 is None and e3 is None, 'mlsd-raises', ctx):
            return
        for c in range(ch):
            want = ref_mlsd(a[c].astype(float) / FULL[dt], b[c].astype(float) / FULL[dt], sr)
            g = np.asarray(got[c])
            if not H.expect(g.shape == want.shape, 'frame-count', lambda: '%s vs %s %s' % (g.shape, want.shape, ctx)):
                continue
            d = float(np.max(np.abs(g - want)))
            H.count('mel-frames', len(want))
            H.expect(d < 1e-3, 'distance-value', lambda: 'channel %d differs by %g at frame %d: %g want %g %s' % (c, d, int(np.argmax(np.abs(g - want))), g[int(np.argmax(np.abs(g - want)))], want[int(np.argmax(np.abs(g - want)))], ctx))
            H.expect(np.allclose(g, back[c], rtol=1e-6, atol=1e-9), 'not-symmetric', ctx)
            H.expect(not np.any(zero[c]), 'identical-not-zero', ctx)
            if np.array_equal(a[c], b[c]):
                H.expect(not np.any(g), 'identical-not-zero', ctx)
        H.sample(ctx)
    H.cases('mel', 700 * S, mel)

    def arr(rng):
        n = rng.choice([0, 1, 1, 2, 3, rng.randint(4, 60), rng.randint(4, 300)])
        thr = rng.choice([0.0, 0.04, 0.2, 1.0, rng.random()])
        m, k = [], 0
        while len(m) < n:
            run = rng.choice([1, 1, 2, 3, 9, 10, 11, rng.randint(1, 40)])
            hi = rng.random() < .5
            for _ in range(run):
                m.append(thr if rng.random() < .03 else max(0.0, thr + (rng.random() + 1e-9) * (1 if hi else -1) * rng.choice([1e-6, .1, 3])))
        return np.array(m[:n], dtype=float), thr

    def detect(rng, i):
        m, thr = arr(rng)
        ch = rng.randint(0, 23)
        hop = rng.choice([512 / 48000 * 1000, 512 / 44100 * 1000, 10.0, 32.0, rng.uniform(.5, 70)])
        ms = rng.choice([100.0, 0.0, hop, 2 * hop, hop * 3.5, 1.0, rng.uniform(0, 500), 10 * hop])
        ctx = 'n=%d thr=%g hop=%g ms=%g m=%s' % (len(m), thr, hop, ms, [round(float(v), 5) for v in m[:60]])
        H.seen('detect', m.tobytes(), thr, hop, ms)
        g, e = guard(M.detect_transient_glitches, m, ch, thr, hop)
        if H.expect(e is None, 'glitch-raises', lambda: '%r %s' % (e, ctx)):
            want = ref_glitches(m, ch, thr, hop)
            H.count('glitches', len(want))
            H.expect(same(order(g[0]), want), 'glitches', lambda: 'got %s want %s %s' % (g[0][:3], want[:3], ctx))
            H.expect(same(float(g[1]), float(max(m)) if len(m) else 0.0), 'glitch-peak', lambda: '%r %s' % (g[1], ctx))
        s, e = guard(M.detect_sustained_degradations, m, ch, thr, hop, ms)
        if H.expect(e is None, 'sustained-raises', lambda: '%r %s' % (e, ctx)):
            want, best = ref_sustained(m, ch, thr, hop, ms)
            H.count('sustained-blocks', len(want))
            # A block whose duration is the limit up to rounding may go either way.
            near = any(abs(k * hop - ms) < 1e-9 * max(1, ms) and k < max(1, math.ceil(ms / hop)) for k in range(1, len(m) + 1))
            if not near:
                H.expect(same(order(s[0]), want), 'sustained', lambda: 'got %s want %s %s' % (s[0][:3], want[:3], ctx))
            H.expect(same(float(s[1]), best), 'sustained-max', lambda: '%r want %r %s' % (s[1], best, ctx))
    H.cases('detect', 6000 * S, detect)

    def make_pair(rng, mismatch):
        width = rng.choice([1, 2, 2, 3, 4])
        dt = {1: 'uint8', 2: 'int16', 3: 'int32', 4: 'int32'}[width]
        ch = rng.choice([1, 2, 2, 3, 12])
        sr = rng.choice([16000, 44100, 48000])
        n = rng.choice([1, 200, 511, 512, rng.randint(1, 20000), rng.randint(1, 20000)])
        if ch == 12:
            n = min(n, 3000)
        a, b = [], []
        for _ in range(ch):
            x, _ = signal(rng, n)
            y, _ = distort(rng, x)
            qa, qb = quant(x, dt), quant(y, dt)
            if width == 3:
                qa, qb = qa & ~255, qb & ~255
            a.append(qa); b.append(qb)
        if rng.random() < .2:
            b = [x.copy() for x in a]
        pa, pb = '%s/ref_%d.wav' % (H.scratch, rng.randrange(10)), '%s/test_%d.wav' % (H.scratch, rng.randrange(10))
        srb, chb, wb, bb = sr, b, width, b
        if mismatch == 'rate':
            srb = sr + rng.choice([1, -1, 100, sr])
        elif mismatch == 'channels':
            bb = b + [b[0]] if rng.random() < .5 or ch == 1 else b[:-1]
        elif mismatch == 'frames':
            k = rng.choice([1, 2, 50])
            bb = [np.concatenate([x, x[:1].repeat(k)]) for x in b] if rng.random() < .5 or n <= k else [x[:-k] for x in b]
        elif mismatch == 'width':
            wb = rng.choice([w for w in (1, 2, 3, 4) if w != width])
            bb = [quant(x.astype(float) / FULL[dt] * .9, {1: 'uint8', 2: 'int16', 3: 'int32', 4: 'int32'}[wb]) for x in b]
        wav(pa, sr, width, a)
        wav(pb, srb, wb, bb)
        if rng.random() < .5 and mismatch:
            pa, pb = pb, pa
        return pa, pb, a, b, sr, FULL[dt], 'w=%d ch=%d sr=%d n=%d mismatch=%s' % (width, ch, sr, n, mismatch)

    def expected(a, b, sr, full, peak, sus, ms):
        hop = 512 / sr * 1000
        an, mp, mx, near = [], 0.0, 0.0, False
        for c in range(len(a)):
            m = ref_mlsd(a[c].astype(float) / full, b[c].astype(float) / full, sr)
            near = near or bool(np.any(np.abs(m - peak) < 2e-3) or np.any(np.abs(m - sus) < 2e-3))
            if np.array_equal(a[c], b[c]):
                m = np.zeros_like(m)
                near = near and (peak > 0 or sus > 0)
            an += ref_glitches(m, c, peak, hop)
            s, best = ref_sustained(m, c, sus, hop, ms)
            an += s
            mp, mx = max(mp, float(np.max(m))), max(mx, best)
        return an, mp, mx, near

    def full(rng, i):
        mism = rng.choice([None] * 5 + ['rate', 'channels', 'frames', 'width'])
        pa, pb, a, b, sr, fs, ctx = make_pair(rng, mism)
        peak, sus, ms = rng.choice([.04, .5, 3.0, 0.0, 40.0]), rng.choice([.2, .05, 2.0, 30.0]), rng.choice([100.0, 20.0, 0.0, 400.0])
        if rng.random() < .3:
            peak, sus, ms = .04, .2, 100.0
            got, e = guard(M.evaluate_audio_quality, pa, pb)
        else:
            got, e = guard(M.evaluate_audio_quality, pa, pb, peak_threshold=peak, sustained_threshold=sus, sustained_ms=ms)
        ctx += ' thr=%g/%g/%g' % (peak, sus, ms)
        H.seen('eval', ctx, a[0].tobytes()[:4000], b[0].tobytes()[:4000])
        if mism:
            H.count('mismatched-refused' if isinstance(e, ValueError) else 'mismatched-other')
            H.expect(isinstance(e, ValueError), 'mismatch-not-refused', lambda: 'got %r %r %s' % (got and got[0], e, ctx))
            return
        if not H.expect(e is None, 'evaluate-raises', lambda: '%r %s' % (e, ctx)):
            return
        H.count('evaluated')
        an, mp, mx, near = expected(a, b, sr, fs, peak, sus, ms)
        H.expect(same(float(got[2]), mp, 2e-3), 'evaluate-peak', lambda: '%r want %r %s' % (got[2], mp, ctx))
        H.expect(same(float(got[3]), mx, 2e-3), 'evaluate-sustained', lambda: '%r want %r %s' % (got[3], mx, ctx))
        H.expect(bool(got[0]) == (len(got[1]) == 0), 'verdict-inconsistent', ctx)
        if not near:
            H.count('verdict-pass' if not an else 'verdict-fail')
            H.expect(bool(got[0]) == (not an), 'verdict', lambda: 'got %r, %d anomalies expected %s' % (got[0], len(an), ctx))
            H.expect(same(order(got[1]), order(an), 2e-3), 'anomalies', lambda: 'got %s want %s %s' % (order(got[1])[:3], order(an)[:3], ctx))
        if all(np.array_equal(x, y) for x, y in zip(a, b)):
            H.expect(bool(got[0]) and got[2] == 0 and got[3] == 0, 'identical-fails', ctx)
            H.count('identical')
    H.cases('eval', 400 * S, full)

    F = flags.FLAGS

    def report(rng, i):
        mism = rng.choice([None] * 5 + ['rate', 'channels', 'frames', 'width'])
        pa, pb, a, b, sr, fs, ctx = make_pair(rng, mism)
        peak, sus, ms = rng.choice([.04, .5, 3.0, 40.0]), rng.choice([.2, 2.0, 30.0]), rng.choice([100.0, 20.0, 400.0])
        rep = H.scratch + '/report.txt'
        bad_report = rng.random() < .05
        if os.path.exists(rep):
            os.unlink(rep)
        F(['prog', '--ref_wav=' + pa, '--test_wav=' + pb, '--peak_threshold=%r' % peak, '--sustained_threshold=%r' % sus, '--sustained_ms=%r' % ms,
           '--report_file=' + (H.scratch + '/no/such/dir/r.txt' if bad_report else rep)])
        _, e = guard(MM.main, ['prog'])
        ctx += ' thr=%g/%g/%g' % (peak, sus, ms)
        H.seen('report', ctx, i)
        if not H.expect(e is None, 'main-raises', lambda: '%r %s' % (e, ctx)) or bad_report:
            return
        if not H.expect(os.path.exists(rep), 'no-report', ctx):
            return
        t = open(rep).read()
        H.count('reports')
        res = re.findall(r'^Result: (\w+)$', t, re.M)
        H.expect('Reference: %s\n' % os.path.basename(pa) in t and 'Test: %s\n' % os.path.basename(pb) in t, 'report-names', t[:300])
        if mism:
            H.expect(res == ['ERROR'], 'report-error', lambda: '%s %s' % (res, ctx))
            return
        an, mp, mx, near = expected(a, b, sr, fs, peak, sus, ms)
        for pat, want in ((r'^Maximum Peak MLSD: ([\d.]+) \(Threshold: ([\d.]+)\)$', (mp, peak)),
                          (r'^Maximum Sustained MLSD: ([\d.]+) \(Threshold: ([\d.]+) over ([\d.]+) ms\)$', (mx, sus, ms))):
            mm = re.findall(pat, t, re.M)
            H.expect(len(mm) == 1 and all(abs(float(x) - y) <= .0076 for x, y in zip(mm[0], want)), 'report-maxima', lambda: '%s want %s %s' % (mm, want, ctx))
        if near:
            return
        H.expect(res == ['FAIL' if an else 'PASS'], 'report-result', lambda: '%s %d anomalies %s' % (res, len(an), ctx))
        lines = [x for x in t.split('\n') if x.startswith('- ')]
        want = []
        for s in an:
            if s['type'].startswith('Sus'):
                want.append(('S', s['channel'], s['start_ms'], s['end_ms'], s['avg_mlsd']))
        for c in sorted({x['channel'] for x in an if x['type'].startswith('Tr')}):
            g = [x for x in an if x['type'].startswith('Tr') and x['channel'] == c]
            want.append(('G', c, len(g), g[0]['time_ms'], g[-1]['time_ms'], max(x['mlsd'] for x in g)))
        got = []
        for x in lines:
            m1 = re.fullmatch(r'- Sustained Degradation \(Channel (\d+)\): ([\d.]+)ms to ([\d.]+)ms \(Avg MLSD: ([\d.]+)\)', x)
            m2 = re.fullmatch(r'- 1 Transient Glitch \(Channel (\d+)\): at ([\d.]+)ms \(MLSD: ([\d.]+)\)', x)
            m3 = re.fullmatch(r'- (\d+) Transient Glitches \(Channel (\d+)\): clustered from ([\d.]+)ms to ([\d.]+)ms \(Max MLSD: ([\d.]+)\)', x)
            if m1:
                got.append(('S', int(m1[1]), float(m1[2]), float(m1[3]), float(m1[4])))
            elif m2:
                got.append(('G', int(m2[1]), 1, float(m2[2]), float(m2[2]), float(m2[3])))
            elif m3:
                got.append(('G', int(m3[2]), int(m3[1]), float(m3[3]), float(m3[4]), float(m3[5])))
            else:
                got.append(x)
        key = lambda z: (z[0], z[1], z[2])
        ok = len(got) == len(want) and not any(isinstance(z, str) for z in got)
        if ok:
            for g, w in zip(sorted(got, key=key), sorted(want, key=key)):
                ok = ok and g[:2] == w[:2] and all(abs(p - q) <= .0601 for p, q in zip(g[2:], w[2:]))
        H.count('report-lines', len(lines))
        H.expect(ok, 'report-lines', lambda: 'got %s want %s %s' % (got[:4], want[:4], ctx))
    H.cases('report', 200 * S, report)
    H.done()


vlib.run(main)
