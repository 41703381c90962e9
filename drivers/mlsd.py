"""V01: the audio comparator. Distances are recorded in micro-dB or centi-dB;
thresholds lie half-way between two representable values."""
import os, random, re, sys, tempfile, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vtrace
import numpy as np
from scipy.io import wavfile
import librosa
from absl import flags
from validation.mlsd_comparator import mlsd_comparator as M
from validation.mlsd_comparator import mlsd_comparator_main as MAIN

A = vtrace.args()
T = vtrace.Trace(A['out'])
R = random.Random(int(A.get('seed', 1)))
N = int(A.get('n', 40))
micro = lambda v: int(math.floor(float(v) * 1e6 + 0.5)) if abs(float(v)) < 2000 else 2000000000


def call(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except ValueError as e:
        return 'mismatch' if 'different' in str(e) else 'crash: ' + repr(e), None
    except Exception as e:
        return 'crash: ' + repr(e), None


def transient(anoms):
    return [{'ch': a['channel'], 'frame': a['frame_index'], 'v': micro(a['mlsd']), 't': micro(a['time_ms'] / 1000)}
            for a in anoms if a['type'] == 'Transient Glitch']


def sustained(anoms):
    return [{'ch': a['channel'], 'first': a['start_frame'], 'last': a['end_frame'],
             'sum': micro(a['avg_mlsd'] * (a['end_frame'] - a['start_frame'] + 1) / 1000),
             'start': micro(a['start_ms'] / 1000), 'end': micro(a['end_ms'] / 1000), 'dur': micro(a['duration_ms'] / 1000)}
            for a in anoms if a['type'] == 'Sustained Degradation']


def kinds(anoms):
    return len(anoms)


def detect(values, hop_ms, thr, sus_ms, ch):
    """values, thr in thousandths; hop and duration in ms."""
    x = np.array([v / 1000 for v in values], dtype=float)
    half = R.choice([0, 0.5])  # a distance equal to the threshold does not exceed it
    st, r = call(M.detect_transient_glitches, x, ch, (thr + half) / 1000, float(hop_ms))
    T.ev('transient', status=st, frames=values, thr=thr, hop=hop_ms, ch=ch,
         found=transient(r[0]) if r else [], n=kinds(r[0]) if r else 0, max=micro(r[1]) if r else 0)
    st, r = call(M.detect_sustained_degradations, x, ch, (thr + half) / 1000, float(hop_ms), float(sus_ms))
    T.ev('sustained', status=st, frames=values, thr=thr, hop=hop_ms, sus=sus_ms, ch=ch,
         found=sustained(r[0]) if r else [], n=kinds(r[0]) if r else 0, max=micro(r[1]) if r else 0)


def signal(n, ch, amp, dtype, seed):
    g = np.random.default_rng(seed)
    top = np.iinfo(dtype).max
    x = (g.uniform(-1, 1, (n, ch)) * amp * top).astype(dtype)
    return x[:, 0] if ch == 1 else x


def write(d, name, rate, x, width):
    p = os.path.join(d, name)
    if width == 3:  # scipy writes no 24-bit files
        import wave
        w = wave.open(p, 'wb')
        w.setnchannels(1 if x.ndim == 1 else x.shape[1]); w.setsampwidth(3); w.setframerate(rate)
        w.writeframes(b''.join(int(v >> 8).to_bytes(3, 'little', signed=True) for v in x.reshape(-1)))
        w.close()
    else:
        wavfile.write(p, rate, x)
    return p


def centi(a):
    return [[int(round(float(v) * 100)) for v in row] for row in a]


def spectra(x, rate):
    """The log mel spectrum of each frame of each channel, as librosa gives it, in centi-dB."""
    y = x / np.iinfo(x.dtype).max
    cols = [y] if y.ndim == 1 else [y[:, i] for i in range(y.shape[1])]
    return [centi((10 * np.log10(librosa.feature.melspectrogram(y=c, sr=rate, n_fft=2048, hop_length=512) + 1e-4)).T) for c in cols]


def mlsd_event(ref, sig, rate, full):
    st, r = call(M.calc_per_channel_mlsd_pcm, ref, sig, rate)
    ok = st == 'ok' and all(getattr(c, 'ndim', 0) == 1 for c in r)
    T.ev('mlsd', status=st if st != 'ok' else 'ok' if ok else 'shape', n=int(ref.shape[0]), channels=1 if ref.ndim == 1 else int(ref.shape[1]),
         ref=spectra(ref, rate) if full else [], sig=spectra(sig, rate) if full else [],
         same=[bool(np.array_equal(ref[..., i] if ref.ndim > 1 else ref, sig[..., i] if ref.ndim > 1 else sig))
               for i in range(1 if ref.ndim == 1 else ref.shape[1])],
         out=[[int(round(float(v) * 100)) for v in c] for c in r] if ok else [])


def evaluate(d, ref, sig, rates, widths, peak_k, sus_k, sus_ms, via_main, same_file=False):
    p1 = write(d, 'ref.wav', rates[0], ref, widths[0])
    p2 = p1 if same_file else write(d, 'test.wav', rates[1], sig, widths[1])
    shape = lambda x, r, w: [r, 1 if x.ndim == 1 else x.shape[1], int(x.shape[0]), w]
    s1, s2 = shape(ref, rates[0], widths[0]), (shape(ref, rates[0], widths[0]) if same_file else shape(sig, rates[1], widths[1]))
    # the distances the files have, by the comparator's own distance function (checked by the mlsd events)
    per = []
    if s1 == s2:
        _, a = wavfile.read(p1)
        _, b = wavfile.read(p2)
        st, r = call(M.calc_per_channel_mlsd_pcm, a, b, rates[0])
        if st == 'ok' and all(getattr(c, 'ndim', 0) == 1 for c in r):
            per = [[micro(v) for v in c] for c in r]
        else:
            per = []
    peak, sus = (peak_k + 0.5) * 1e-6, (sus_k + 0.5) * 1e-6
    st, r = call(M.evaluate_audio_quality, p1, p2, peak, sus, float(sus_ms))
    T.ev('evaluate', status=st, ref=s1, sig=s2, identical=bool(same_file or (s1 == s2 and np.array_equal(ref, sig))), per=per,
         peak=peak_k, sus=sus_k, sus_ms=sus_ms, passed=bool(r[0]) if r else False, n=kinds(r[1]) if r else 0,
         transient=[{'ch': a['ch'], 'frame': a['frame']} for a in transient(r[1])] if r else [],
         sustained=[{'ch': a['ch'], 'first': a['first'], 'last': a['last']} for a in sustained(r[1])] if r else [],
         maxpeak=micro(r[2]) if r else 0, maxsus=micro(r[3]) if r else 0)
    if via_main:
        rep = os.path.join(d, 'report.txt')
        if os.path.exists(rep):
            os.remove(rep)
        flags.FLAGS(['main', f'--ref_wav={p1}', f'--test_wav={p2}', f'--peak_threshold={peak!r}',
                     f'--sustained_threshold={sus!r}', f'--sustained_ms={float(sus_ms)}', f'--report_file={rep}'])
        st2, _ = call(MAIN.main, ['main'])
        text = open(rep).read() if os.path.exists(rep) else ''
        res = [l.split(':', 1)[1].strip() for l in text.splitlines() if l.startswith('Result:')]
        tenth = lambda x: int(round(float(x) * 10))
        sus_l = [[int(m[0]), tenth(m[1]), tenth(m[2])] for m in re.findall(
            r'^- Sustained Degradation \(Channel (\d+)\): ([\d.]+)ms to ([\d.]+)ms', text, re.M)]
        gl_l = [[int(m[1]), int(m[0]), tenth(m[3]), tenth(m[5] or m[3])] for m in re.findall(
            r'^- (\d+) Transient Glitch(?:es)? \(Channel (\d+)\): (at|clustered from) ([\d.]+)ms( to ([\d.]+)ms)?', text, re.M)]
        nums = [tenth(float(m) * 10) for m in re.findall(r'^Maximum (?:Peak|Sustained) MLSD: ([\d.]+)', text, re.M)]
        T.ev('report', rate=rates[0], sustained_lines=sus_l, glitch_lines=gl_l, maxima=nums,
             maxpeak=micro(r[2]) if r else 0, maxsus=micro(r[3]) if r else 0,
             transient=[{'ch': a['ch'], 'frame': a['frame']} for a in transient(r[1])] if r else [],
             sustained=[{'ch': a['ch'], 'first': a['first'], 'last': a['last']} for a in sustained(r[1])] if r else [],
             status=st2, verdict=res, expect='ERROR' if st == 'mismatch' else 'none' if st != 'ok' else 'PASS' if r[0] else 'FAIL')


with tempfile.TemporaryDirectory() as d:
    for t in range(N):
        n = R.choice([0, 1, 2, 3, 5, 8, 12, 20])
        thr = R.choice([3, 7, 40, 200])
        lo, hi = R.choice([(thr + 1, thr + 1), (thr, thr + 1), (0, 2 * thr)])
        vals = []
        while len(vals) < n:
            run = R.randint(1, 6)
            above = R.random() < 0.6
            vals += [R.randint(thr + 1, 3 * thr + 1) if above else R.randint(0, thr) for _ in range(run)]
        detect(vals[:n], R.choice([1, 4, 5, 10, 12]), thr, R.choice([0, 1, 7, 10, 20, 24, 25, 40, 100]), R.choice([0, 1, 5]))
        if t % 4 == 0:
            ch = R.choice([1, 1, 2, 3])
            ns = R.choice([1, 100, 511, 512, 513, 1024, 2047, 2048, 3000, 5000])
            dt = R.choice([np.int16, np.int32])
            ref = signal(ns, ch, R.choice([0.02, 0.2, 0.9]), dt, R.randint(0, 10**6))
            sig = ref.copy()
            mode = R.choice(['same', 'gain', 'click', 'noise'])
            if mode == 'gain':
                sig = (sig * R.choice([0.25, 0.5, 0.9])).astype(dt)
            elif mode == 'click':
                k = R.randrange(ns)
                if ch == 1: sig[k] = np.iinfo(dt).max
                else: sig[k, R.randrange(ch)] = np.iinfo(dt).max
            elif mode == 'noise':
                o = signal(ns, ch, 0.05, dt, R.randint(0, 10**6))
                if ch > 1: o[:, R.randrange(ch)] = 0
                sig = (ref // 2 + o // 2).astype(dt)
                ref = (ref // 2).astype(dt)
            mlsd_event(ref, sig, R.choice([16000, 44100, 48000]), full=ns * ch <= 5000)
            # whole files
            ns = R.choice([1, 200, 511, 512, 700, 5000, 12000])
            rate = R.choice([16000, 48000])
            w = R.choice([2, 2, 3, 4])
            dt = np.int16 if w == 2 else np.int32
            ref = signal(ns, ch, 0.3, dt, R.randint(0, 10**6))
            if w == 3: ref = (ref >> 8 << 8)
            sig = ref.copy()
            if R.random() < 0.6:
                k0 = R.randrange(ns); k1 = min(ns, k0 + R.choice([1, 600, 6000]))
                g = R.choice([0.5, 0.9, 0.99])
                if ch == 1: sig[k0:k1] = (sig[k0:k1] * g).astype(dt)
                else:
                    c = R.randrange(ch); sig[k0:k1, c] = (sig[k0:k1, c] * g).astype(dt)
                if w == 3: sig = (sig >> 8 << 8)
            rates, widths, s2 = [rate, rate], [w, w], sig
            bad = R.choice(['', '', '', '', 'rate', 'len', 'ch', 'width'])
            if bad == 'rate': rates[1] = 44100
            if bad == 'len': s2 = np.concatenate([sig, sig[-1:]])
            if bad == 'ch': s2 = np.stack([sig if sig.ndim == 1 else sig[:, 0]] * (ch + 1), axis=1)
            if bad == 'width': widths[1] = 4 if w == 2 else 2; s2 = sig.astype(np.int32 if w == 2 else np.int16)
            evaluate(d, ref, s2, rates, widths, R.choice([40000, 400000, 2000000]), R.choice([20000, 200000, 1000000]),
                     R.choice([0, 20, 50, 100]), via_main=True, same_file=R.random() < 0.2)
