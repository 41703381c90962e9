"""What each property's check runs."""
import concurrent.futures as cf
import os
import build as B
import core

os.environ['VERIF_DATA'] = os.path.join(core.VERIF, 'spec', 'data')
CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def together(*fns):
    """Runs the functions at the same time; the first exception is raised."""
    with cf.ThreadPoolExecutor(len(fns)) as ex:
        fs = [ex.submit(f) for f in fns]
        return [f.result() for f in fs]


def shards(c, binary, n_quick, n_thorough, k=core.NCPU, **kw):
    """k seeded runs of a driver, n scenarios in all."""
    n = c.pick(n_quick, n_thorough)
    res = []
    for i in range(k):
        a = ['--seed', c.seed * 1000 + i, '--shard', i, '--n', max(1, n // k)]
        for key, v in kw.items():
            a += [f'--{key}', v]
        res.append((binary, a))
    return res


@check('R01')
def r01(c):
    def models():
        for r, k in ((2, 2), (1, 3), (3, 1)) + (((2, 3), (3, 2)) if c.thorough() else ()):
            c.model('GainsModel', f'SPECIFICATION Spec\nCONSTANTS R = {r} C = {k}\n'
                    'INVARIANTS RoundTrip CutRefused GrowRefused Shape\nCHECK_DEADLOCK FALSE\n', note=f'{r}x{k} matrices')
    b, _ = together(lambda: B.build('gains', ['gains.cc']), models)
    c.conform('GainsTrace', shards(c, b, 2400, 60000))


PY = '/opt/iamf-venv/bin/python'
PYENV = {'PYTHONPATH': B.REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'NUMBA_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
         'OPENBLAS_NUM_THREADS': '1'}


def pyruns(c, script, n_quick, n_thorough, k=core.NCPU):
    return [(PY, [os.path.join(core.VERIF, 'drivers', script)] + a, PYENV)
            for _, a in shards(c, None, n_quick, n_thorough, k)]


@check('V01')
def v01(c):
    c.model('MlsdModel', 'SPECIFICATION Spec\nCONSTANTS N = %d Levels = {0, 1, 2} Thr = 1\n'
            'INVARIANTS Exact InOrder SustainedLevel PeakLevel\nCHECK_DEADLOCK FALSE\n' % c.pick(6, 8))
    c.conform('MlsdTrace', pyruns(c, 'mlsd.py', 1200, 12000))
    c.assumptions.append('librosa and scipy behave as installed')


@check('V02')
def v02(c):
    lay = 'CONSTANT AllLayouts = {"7.1.4", "2.0", "Binaural"}\n'
    def models():
        c.model('VerifierModel', 'SPECIFICATION Spec\nCONSTANT AllLayouts = {"7.1.4", "2.0"}\n'
                'INVARIANTS SuccessIsEarned FailureIsReal\nCHECK_DEADLOCK FALSE\n')
    together(models, lambda: c.conform('VerifierTrace', pyruns(c, 'verifier.py', 480, 8000), cfg=lay))
    c.assumptions.append('the external tools are stand-ins whose outcome each scenario chooses')


@check('N01')
def n01(c):
    def models():
        c.model('NumericModel', 'SPECIFICATION Spec\nCONSTANTS LB = 4 BB = 3 W = 4\n'
                'INVARIANTS RoundTrip Orders OneStep Refusal WideAdd WideLeq WideShr\nCHECK_DEADLOCK FALSE\n')
    b, _ = together(lambda: B.build('numeric', ['numeric.cc']), models)
    c.conform('NumericTrace', shards(c, b, 4800, 60000, dense=c.pick(0, 1)), cfg='CONSTANTS LB = 65536 BB = 256\n')


@check('M01')
def m01(c):
    def models():
        c.model('ProcessorModel', 'SPECIFICATION Spec\nCONSTANT MaxIn = %d\n'
                'INVARIANTS Conserve AllOut Delayed Written Removed OutShape\nCHECK_DEADLOCK FALSE\n' % c.pick(4, 7))
    b, _ = together(lambda: B.build('processor', ['processor.cc']), models)
    c.conform('ProcessorTrace', shards(c, b, 3200, 60000))


@check('E03')
def e03(c):
    def models():
        c.model('LpcmModel', 'SPECIFICATION Spec\nCONSTANTS LB = 4 BB = 2 W = 3 MaxFrames = 2 Spf = %d\n'
                'INVARIANTS Lossless Order Ends NoneLater\nCHECK_DEADLOCK FALSE\n' % c.pick(1, 1))
    b, _ = together(lambda: B.build('lpcm', ['lpcm.cc']), models)
    c.conform('LpcmTrace', shards(c, b, 1600, 40000), cfg='CONSTANTS LB = 65536 BB = 256 W = 4\n')


@check('P02')
def p02(c):
    def models():
        c.model('ProbeJsonModel', 'SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANTS RoundTrip NoLoss NoMore\nCHECK_DEADLOCK FALSE\n' % c.pick(1, 2))
    b, _ = together(lambda: B.build('probe_json', ['probe_json.cc']), models)
    c.conform('ProbeJsonTrace', shards(c, b, 400, 8000))


@check('A01')
def a01(c):
    def models():
        c.model('Bw64Model', 'SPECIFICATION Spec\nCONSTANT MaxChunks = %d\n'
                'INVARIANTS WholeTable Accept Same NoInvention\nCHECK_DEADLOCK FALSE\n' % c.pick(3, 4))
    b, _ = together(lambda: B.build('bw64', ['bw64.cc']), models)
    c.conform('Bw64Trace', shards(c, b, 800, 16000))
    c.assumptions.append('the XML parser is the installed expat; WAV headers are written by a stand-in of the absent library')


@check('M04')
def m04(c):
    def models():
        c.model('OutputModel', 'SPECIFICATION Spec\nINVARIANTS Permutation Ascending Distinct Inverse Interleaved\nCHECK_DEADLOCK FALSE\n')
    b, _ = together(lambda: B.build('output', ['output.cc']), models)
    c.conform('OutputTrace', shards(c, b, 1600, 40000))


@check('B02')
def b02(c):
    def models():
        for cap, mb, mr in ((1, 2, 16), (2, 3, 9)) + (((3, 5, 26), (1, 4, 33)) if c.thorough() else ()):
            c.model('BitsModel', f'SPECIFICATION Spec\nCONSTANTS Cap = {cap} MaxBytes = {mb} MaxRead = {mr}\n'
                    'INVARIANTS ReadsRight Position InBounds Window\nCHECK_DEADLOCK FALSE\n', note=f'window of {cap}, source of {mb} bytes, reads of up to {mr} bits')
        c.model('LebModel', f'SPECIFICATION Spec\nCONSTANT Dense = {c.pick(20, 1000)}\n'
                'INVARIANTS LebBack IsoBack Minimal CutExhausts\nCHECK_DEADLOCK FALSE\n')
    b, _ = together(lambda: B.build('bits', ['bits.cc']), models)
    c.conform('BitsTrace', shards(c, b, 2400, 60000))


@check('B01')
def b01(c):
    def models():
        c.model('ObuModel', 'SPECIFICATION Spec\nCONSTANTS Lebs <- L Exts <- X Sizes <- N Modes <- M\n'
                'INVARIANTS RoundTrip Total Prefix Refused\nCHECK_DEADLOCK FALSE\n')
    b, _ = together(lambda: B.build('obu', ['obu.cc']), models)
    c.conform('ObuTrace', shards(c, b, 1600, 40000))


def decoder(c, mode, obus, whole, n_quick, n_thorough):
    def models():
        for k, w in obus if isinstance(obus, tuple) else ((obus, whole),):
            c.model('DecoderModel', f'SPECIFICATION Spec\nCONSTANTS MaxObus = {k}\n Whole = {w}\n'
                    'INVARIANTS InOrder NotHeld Drained Blame GoodOnly\nCHECK_DEADLOCK FALSE\n', note=f'streams of up to {k} OBUs')
    b, _ = together(lambda: B.build('decoder', ['decoder.cc']), models)
    c.conform('DecoderTrace', shards(c, b, n_quick, n_thorough, mode=mode))


@check('D01')
def d01(c):
    decoder(c, 'd01', c.pick(5, 6), 'FALSE', 1600, 24000)


@check('D02')
def d02(c):
    decoder(c, 'd02', ((4, 'FALSE'), (c.pick(5, 6), 'TRUE')), None, 1200, 24000)


@check('D03')
def d03(c):
    decoder(c, 'd03', c.pick(5, 7), 'FALSE', 2400, 40000)


@check('D04')
def d04(c):
    def models():
        c.model('DescriptorsModel', f'SPECIFICATION Spec\nCONSTANT MaxObus = {c.pick(4, 5)}\n'
                'INVARIANTS Meant Whole Stands\nCHECK_DEADLOCK FALSE\n', note='every sequence of OBUs, every prefix')
    b, _ = together(lambda: B.build('descr', ['descr.cc']), models)
    c.conform('DescriptorsTrace', shards(c, b, 2400, 60000))


@check('S01')
def s01(c):
    def models():
        c.model('LayersModel', f'SPECIFICATION Spec\nCONSTANTS MaxLayers = {c.pick(3, 5)} Top = 10\n'
                'INVARIANTS Once Complete Tight Needed Grows Counted\nCHECK_DEADLOCK FALSE\n', note='every sequence of layers')
    b, _ = together(lambda: B.build('layers', ['layers.cc']), models)
    c.conform('LayersTrace', shards(c, b, 16000, 200000))


@check('C01')
def c01(c):
    def models():
        c.model('ProfilesModel', f'SPECIFICATION Spec\nCONSTANTS MaxEls = 2 Hps = {c.pick("{0, 2}", "{0, 1, 2, 3}")}\n'
                'INVARIANTS Nested Contained\nPROPERTY Narrows\nCHECK_DEADLOCK FALSE\n')
    b, _ = together(lambda: B.build('profiles', ['profiles.cc']), models)
    c.conform('ProfilesTrace', shards(c, b, 1200, 20000))


@check('D05')
def d05(c):
    def models():
        for lays, sub in ((('{200, 300}', 'FALSE'), ('{200, 201}', 'FALSE')) + ((('{200, 201, 300}', 'FALSE'), ('{200, 300}', 'TRUE')) if c.thorough() else ())):
            c.model('SelectModel', f'SPECIFICATION Spec\nCONSTANTS Lays = {lays} Subs2 = {sub}\n'
                    'INVARIANTS ById AsWanted First Untouched Irrelevant Stable Prefers\nCHECK_DEADLOCK FALSE\n', note=f'every pair of mixes over the layouts {lays}')
    b, _ = together(lambda: B.build('select', ['select.cc']), models)
    c.conform('SelectTrace', shards(c, b, 2400, 40000))


@check('T01')
def t01(c):
    def models():
        c.model('TimingModel', f'SPECIFICATION Spec\nCONSTANTS MaxSteps = {c.pick(5, 6)} Durs = {{1, 2}}\n'
                'INVARIANTS Tiled Known NoGaps\nCHECK_DEADLOCK FALSE\n', note='every interleaving of frames and blocks')
    b, _ = together(lambda: B.build('timing', ['timing.cc']), models)
    c.conform('TimingTrace', shards(c, b, 1200, 16000, mode='t01'))


@check('T02')
def t02(c):
    def models():
        c.model('ParamsModel', f'SPECIFICATION Spec\nCONSTANTS Frames = {c.pick(4, 5)} Modes = {c.pick("{0, 4}", "{0, 2, 4}")}\n'
                'INVARIANTS Followed InRange Covered Current Agree\nCHECK_DEADLOCK FALSE\n', note='every order of blocks, queries and updates')
    b, _ = together(lambda: B.build('timing', ['timing.cc']), models)
    c.conform('ParamsTrace', shards(c, b, 1200, 16000, mode='t02'))


@check('M03')
def m03(c):
    def models():
        c.model('DownmixModel', f'SPECIFICATION Spec\nCONSTANTS Bases = {c.pick("{7919, 104729}", "{7919, 104729, 31337, 65003, 15013, 88883}")} Modes = {{1, 2, 3}}\n'
                'INVARIANTS Same Tight Passed\nCHECK_DEADLOCK FALSE\n', note='every rising chain of up to three layouts')
    b, _ = together(lambda: B.build('downmix', ['downmix.cc']), models)
    c.conform('DownmixTrace', shards(c, b, 3200, 40000))

@check('B04')
def b04(c):
    def models():
        c.model('BlocksModel', f'SPECIFICATION Spec\nCONSTANTS MaxDur = {c.pick(9, 24)} MaxLong = {c.pick(4, 9)} Longest = {c.pick(6, 24)} Offsets = {c.pick("{32468, 32768, 33023}", "{0, 32468, 32768, 33023, 34048}")}\n'
                'INVARIANTS Adds Equal Strict Back BlockBack Writable\nCHECK_DEADLOCK FALSE\n', note='every small schedule, definition, block and animation')
    b, _ = together(lambda: B.build('blocks', ['blocks.cc']), models)
    c.conform('BlocksTrace', shards(c, b, 2400, 40000))


@check('B03')
def b03(c):
    def models():
        c.model('DescriptorBytesModel', f'SPECIFICATION Spec\nCONSTANTS Numbers = {c.pick("{300}", "{0, 127, 300, 70000}")} Modes = {c.pick("{0, 3}", "{0, 1, 2, 3, 8}")} Wide = {c.pick(2, 3)}\n'
                'INVARIANTS RoundTrip Refused\nCHECK_DEADLOCK FALSE\n', note='small descriptors of every kind, every truncation')
    b, _ = together(lambda: B.build('descrbytes', ['descrbytes.cc']), models)
    c.conform('DescriptorBytesTrace', shards(c, b, 3200, 24000))


@check('W01')
def w01(c):
    def models():
        c.model('WavModel', f'SPECIFICATION Spec\nCONSTANTS Ticks = {c.pick(6, 12)} Frames = {c.pick(3, 5)}\nINVARIANTS InOrder AllThere Ends\nCHECK_DEADLOCK FALSE\n', note='small files, whole and cut, read by two elements in every order')
    b, _ = together(lambda: B.build('wav', ['wav.cc']), models)
    c.conform('WavTrace', shards(c, b, 12000, 120000))


@check('G01')
def g01(c):
    def models():
        c.model('GenerateModel', 'SPECIFICATION Spec\nINVARIANTS NothingLost ReadBack\nCHECK_DEADLOCK FALSE\n', note='layers, positions, codecs and elements with values at and beyond their bounds, in pairs')
    b, _ = together(lambda: B.build('generate', ['generate.cc']), models)
    c.conform('GenerateTrace', shards(c, b, 8000, 80000))


@check('G02')
def g02(c):
    def models():
        c.model('GenerateBlocksModel', f'SPECIFICATION Spec\nCONSTANTS Most = {c.pick(2, 3)}\nINVARIANTS NoGap Written Again\nCHECK_DEADLOCK FALSE\n', note='blocks of four definitions in every order')
    b, _ = together(lambda: B.build('genblocks', ['genblocks.cc']), models)
    c.conform('GenerateBlocksTrace', shards(c, b, 16000, 160000))


@check('P01')
def p01(c):
    def models():
        c.model('ProbeModel', f'SPECIFICATION Spec\nCONSTANTS Longest = {c.pick(3, 4)}\nINVARIANTS CountsOk WhyOk UnitsOk BudgetOk\nCHECK_DEADLOCK FALSE\n',
                note='every sequence of OBUs of eleven kinds after the descriptors, cut at every byte')
    b, _ = together(lambda: B.build('probe', ['probe.cc']), models)
    c.conform('ProbeTrace', shards(c, b, 1200, 12000))


@check('E04')
def e04(c):
    def models():
        c.model('PartitionModel', f'SPECIFICATION Spec\nCONSTANTS Longest = {c.pick(3, 4)} Most = 2 Values = {c.pick("{0, 3, 7}", "{0, 1, 5, 9}")}\nINVARIANTS SameInstants Covered Refused\nCHECK_DEADLOCK FALSE\n', note='every block of up to two subblocks, every split')
        c.model('PartitionModel', 'SPECIFICATION Spec\nCONSTANTS Longest = 2 Most = 3 Values = {0, 3}\nINVARIANTS SameInstants Covered Refused\nCHECK_DEADLOCK FALSE\n', note='up to three subblocks')
    b, _ = together(lambda: B.build('partition', ['partition.cc']), models)
    c.conform('PartitionTrace', shards(c, b, 8000, 80000))


@check('E02')
def e02(c):
    def models():
        c.model('SequencerModel', f'SPECIFICATION Spec\nCONSTANTS Steps = {c.pick(5, 7)} Faults = {{0, 1}} Nil <- NoBytes\n'
                'INVARIANTS InTurn AllOut DescrFirst OnlyOnce NothingAfter Left Gone Timed\nCHECK_DEADLOCK FALSE\n', note='every short history of calls and faults on three outputs')
    b, _ = together(lambda: B.build('sequencer', ['sequencer.cc']), models)
    c.conform('SequencerTrace', shards(c, b, 4000, 60000), cfg='CONSTANT Nil = ""\n')


@check('M02')
def m02(c):
    def models():
        c.model('MixingModel', f'SPECIFICATION Spec\nCONSTANTS Amounts = {c.pick("{0, 3}", "{0, 1, 4}")} Powers = {c.pick("{0, 2}", "{0, 1, 2}")}\n'
                'INVARIANTS Always Linear Silent Apart Trimmed Instant\nCHECK_DEADLOCK FALSE\n', note='small mixes of one or two elements: linear, instant, trimmed')
    b, _ = together(lambda: B.build('mixing', ['mixing.cc']), models)
    c.conform('MixingTrace', shards(c, b, 6400, 60000))


@check('E01')
def e01(c):
    def models():
        c.model('EncoderModel', f'SPECIFICATION Spec\nCONSTANTS S = 3 Delays = {c.pick("{0, 1, 3, 5}", "{0, 1, 2, 3, 5, 7}")} Extra = {{0, 1, 4}} Calls = {c.pick(3, 4)}\n'
                'INVARIANTS Once Whole Stuck Counted\nCHECK_DEADLOCK FALSE\n', note='every short history of an encoder: what a trimming decoder hears')
    b, _ = together(lambda: B.build('encoder', ['encoder.cc']), models)
    c.conform('EncoderTrace', shards(c, b, 16000, 160000))
