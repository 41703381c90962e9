"""V02: the verifier's verdict. The external tools are replaced by small
programs in a scratch directory whose outcome each scenario chooses and which
record how they were called."""
import json, os, random, re, shutil, stat, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vtrace
import numpy as np
from scipy.io import wavfile
from absl import flags, logging
from validation.iamf_verifier import iamf_verifier as V
logging.set_verbosity(logging.FATAL)

A = vtrace.args()
T = vtrace.Trace(A['out'])
R = random.Random(int(A.get('seed', 1)))
N = int(A.get('n', 40))
LAYOUTS = ['7.1.4', '2.0', 'Binaural']

TOOL = r'''#!/bin/sh
# Records its call; answers as the scenario's plan says.
me=${0##*/}
d=${0%/*}
{ printf '%s' "$me"; for a in "$@"; do printf '\t%s' "$a"; done; printf '\n'; } >> "$d/calls"
. "$d/plan"
case "$me" in
 cw) echo "cw says"; exit $CW_RC;;
 gpac) [ "$GPAC_OUT" = 1 ] && echo x > "$4"; exit $GPAC_RC;;
 loudness) for a in "$@"; do last=$a; done
   [ "$LOUD_REPORT" = 1 ] && cp "$d/loud_report" "$last"; echo loud; exit $LOUD_RC;;
 opus) for a in "$@"; do case "$a" in --report_file=*) r=${a#--report_file=};; esac; done
   [ "$OPUS_REPORT" = 1 ] && cp "$d/opus_report" "$r"; exit $OPUS_RC;;
 dec) for a in "$@"; do case "$a" in
     --input_filename=*) i=${a#--input_filename=};; --output_filename=*) o=${a#--output_filename=};;
     --output_layout=*) l=${a#--output_layout=};; --mix_id=*) m=${a#--mix_id=};; esac; done
   case "$i" in */ref.iamf) k=ref;; *) k=test;; esac
   f="$d/dec_${k}_${m}_${l}"
   [ -e "$f.wav" ] && cp "$f.wav" "$o"
   [ -e "$f.rc" ] && exit 1
   exit 0;;
esac
'''
X = np.random.default_rng(1).uniform(-0.3, 0.3, 2400)


def wav(path, kind):
    x = X.copy()
    if kind == 'bad':
        x[600:1800] *= 0.3
    if kind == 'short':
        x = x[:-1]
    if kind == 'stereo':
        x = np.stack([x, x], axis=1)
    wavfile.write(path, 44100 if kind == 'rate' else 48000, (x * 32767).astype(np.int16))


def scenario(d, force, force2):
    for f in os.listdir(d):
        os.remove(os.path.join(d, f)) if not os.path.isdir(os.path.join(d, f)) else shutil.rmtree(os.path.join(d, f))
    bad = lambda p: R.random() < p
    mp4 = bad(0.3)
    opus = bad(0.5)
    tools = ['cw', 'loudness', 'dec'] + (['opus'] if opus or bad(0.5) else []) + (['gpac'] if mp4 or bad(0.5) else [])
    missing = ''
    if 'missing' in (force, force2):
        missing = R.choice(['cw', 'loudness', 'dec'] + (['opus'] if opus else []) + (['gpac'] if mp4 else []))
    for t in tools:
        if t != missing:
            p = os.path.join(d, t)
            open(p, 'w').write(TOOL)
            os.chmod(p, 0o755)
    mixes = R.choice([[1], [42], [1, 2], [7, 3, 11], [0]])
    if 'nomix' in (force, force2):
        mixes = []
    plan = dict(CW_RC=0, GPAC_RC=0, GPAC_OUT=1, LOUD_RC=0, LOUD_REPORT=1, OPUS_RC=0, OPUS_REPORT=1)
    oreport = R.choice(['', 'Result: All Elements Canonical\n'])
    if 'cw' in (force, force2): plan['CW_RC'] = R.choice([1, 2, 255])
    if 'loud' in (force, force2): plan['LOUD_RC'] = R.choice([1, 3])
    if 'loudreport' in (force, force2): plan['LOUD_REPORT'] = 0
    if 'opusrc' in (force, force2): plan['OPUS_RC'] = R.choice([1, 9])
    if 'opustext' in (force, force2): oreport = 'x\nResult: Non-Canonical Elements Detected\n'
    if 'opusnoreport' in (force, force2): plan['OPUS_REPORT'] = 0
    if 'gpacrc' in (force, force2): plan['GPAC_RC'] = 1
    if 'gpacout' in (force, force2): plan['GPAC_OUT'] = 0
    open(f'{d}/loud_report', 'w').write(''.join(f'Comparing Mix Presentation ID: {m}\n Loudness ok\n' for m in mixes) or 'none\n')
    open(f'{d}/opus_report', 'w').write(oreport)
    open(f'{d}/plan', 'w').write(''.join(f'{k}={v}\n' for k, v in plan.items()))
    todo = [(m, l) for m in mixes for l in LAYOUTS]
    victim = R.choice(todo) if todo else None
    outcome = {}
    for m, l in todo:
        for k in ('ref', 'test'):
            kind, rc = 'good', 0
            if (m, l) == victim:
                if 'decref' in (force, force2) and k == 'ref': rc = 1
                if 'dectest' in (force, force2) and k == 'test': rc = 1
                if 'nowav' in (force, force2) and k == 'test': kind = 'none'
                if k == 'test':
                    for f in (force, force2):
                        if f in ('bad', 'short', 'stereo', 'rate'): kind = f
                if 'shortref' in (force, force2) and k == 'ref': kind = 'short'
            b = f'{d}/dec_{k}_{m}_{l}'
            if kind != 'none':
                wav(b + '.wav', kind)
            if rc:
                open(b + '.rc', 'w').close()
            outcome[(k, m, l)] = 'rc' if rc else kind
    ref = f'{d}/ref.iamf'
    test = f'{d}/in.mp4' if mp4 else f'{d}/in.iamf'
    open(ref, 'w').write('r'); open(test, 'w').write('t')
    rep = f'{d}/report.txt'
    argv = ['verifier', f'--ref_file={ref}', f'--test_file={test}', f'--cw_cmd={d}/cw', f'--decoder_cmd={d}/dec',
            f'--loudness_cmd={d}/loudness', f'--gpac_cmd={d}/gpac', f'--report_file={rep}']
    flags.FLAGS.unparse_flags()
    flags.FLAGS['opus_hoa_cmd'].value = None
    flags.FLAGS(argv + ([f'--opus_hoa_cmd={d}/opus'] if opus else []))
    T.ev('begin', mp4=mp4, opus=opus, missing=missing, cw=plan['CW_RC'] == 0, gpac=plan['GPAC_RC'] == 0 and plan['GPAC_OUT'] == 1,
         loud=plan['LOUD_RC'] == 0, mixes=mixes if plan['LOUD_REPORT'] else [],
         opusok=plan['OPUS_RC'] == 0 and not (plan['OPUS_REPORT'] and 'Non-Canonical' in oreport),
         layouts=[{'mix': m, 'layout': l, 'ref': outcome[('ref', m, l)], 'test': outcome[('test', m, l)]} for m, l in todo])
    out = open(os.devnull, 'w')
    so, sys.stdout = sys.stdout, out
    try:
        V.main(['verifier'])
        code = 'success'
    except SystemExit as e:
        code = 'success' if not e.code else 'failure'
    except Exception as e:
        code = 'exception'
    finally:
        sys.stdout = so
        out.close()
    calls = [l.rstrip('\n').split('\t') for l in open(f'{d}/calls')] if os.path.exists(f'{d}/calls') else []
    for c in calls:
        name, a = c[0], c[1:]
        kv = dict(x[2:].split('=', 1) for x in a if x.startswith('--') and '=' in x)
        tail = lambda p: 'ref' if p == ref else 'test' if p == test else 'extracted' if p.endswith('.iamf') else '?'
        if name == 'cw':
            T.ev('cw', spec=a[a.index('-s') + 1] if '-s' in a else '', file=tail(a[-1]))
        elif name == 'gpac':
            T.ev('gpac', file=tail(a[a.index('-i') + 1]))
        elif name == 'loudness':
            g = lambda k: a[a.index(k) + 1] if k in a else kv.get(k[2:], '')
            T.ev('loudness', file1=tail(g('--file1')), file2=tail(g('--file2')), tolerance=int(round(float(g('--tolerance') or 0) * 1000)))
        elif name == 'opus':
            T.ev('opus', file=tail(kv.get('input', '')))
        elif name == 'dec':
            T.ev('decode', file=tail(kv.get('input_filename', '')), layout=kv.get('output_layout', ''), mix=int(kv.get('mix_id', -1)))
    text = open(rep).read() if os.path.exists(rep) else ''
    m = re.findall(r'^OVERALL RESULT: (\w+)$', text, re.M)
    T.ev('verdict', code=code, report=m, passes=text.count('[PASS]'), fails=text.count('[FAIL]'))


FORCE = ['', '', 'missing', 'nomix', 'cw', 'loud', 'loudreport', 'opusrc', 'opustext', 'opusnoreport', 'gpacrc', 'gpacout',
         'decref', 'dectest', 'nowav', 'bad', 'short', 'shortref', 'stereo', 'rate']
with tempfile.TemporaryDirectory() as d:
    os.environ['PATH'] = '/usr/bin:/bin'
    for t in range(N):
        scenario(d, FORCE[(t + int(A.get('shard', 0))) % len(FORCE)], R.choice(FORCE) if R.random() < 0.2 else '')
