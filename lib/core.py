"""Runs one property's check: build the driver from /repo, model-check the
specification, record the code's behaviour, validate it against the
specification with TLC, and write the evidence."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def tlc(module, cfg, work, env=None, workers=1, timeout=600, mem='2g', extra=()):
    """Runs TLC on spec/<module>.tla; returns a dict with its verdict."""
    d = tempfile.mkdtemp(dir=work, prefix=f'tlc-{module}-')
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    with open(f'{d}/{module}.cfg', 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', f'-Xmx{mem}', '-Xss256m',
           f'-Djava.io.tmpdir={d}', '-Dtlc2.TLC.stopAfter=0' if False else '-Dverif=1', '-cp', CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', f'{d}/meta', '-noGenerateSpecTE', '-config', f'{module}.cfg',
           *extra, f'{module}.tla']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors='replace')
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), -1
    res = {'rc': rc, 'out': out, 'wall': time.time() - t0, 'states': 0, 'distinct': 0, 'depth': 0}
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', '') if False else out)
    m = m or re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if m:
        res['states'], res['distinct'] = (int(x.replace(',', '')) for x in m[-1])
    m = re.findall(r'depth of the complete state graph search is (\d+)', out)
    if m:
        res['depth'] = int(m[-1])
    res['ok'] = rc == 0 and ('No error has been found' in out)
    shutil.rmtree(d, ignore_errors=True)
    return res


TRACE_CFG = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'


def validate(module, trace, work, timeout, cfg=''):
    """Returns None when the trace is a behaviour of spec/<module>, else the
    1-based number of the first event it does not allow (0: not known)."""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return None, {'states': 0, 'events': 0}
    r = tlc(module, TRACE_CFG + cfg, work, env={'TRACE': trace}, timeout=timeout, mem='3g')
    r['events'] = n
    if r['ok']:
        return None, r
    if r['rc'] == -1 or 'OutOfMemoryError' in r['out'] or 'Parsing or semantic analysis failed' in r['out'] \
            or 'Parse Error' in r['out'] or 'Could not find or load' in r['out']:
        raise CheckError(f'TLC on {module} gave no answer:\n' + r['out'][-3000:])
    m = re.search(r'REJECT_AT", (\d+)', r['out'])
    if m:
        return int(m.group(1)), r
    m = re.findall(r'^(?:/\\ )?l = (\d+)', r['out'], re.M)
    return (int(m[-1]) if m else 0), r


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.events = {}
        self.models = []
        self.assumptions = []
        self.violations = 0
        self.known = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('{'):
                    k = json.loads(line)
                    if k['property'] == pid:
                        self.known.append(k)

    # --- models -----------------------------------------------------------
    def model(self, module, cfg, workers=2, timeout=800, mem='4g', note=''):
        if os.environ.get('VERIF_DEV_NOMODEL'):
            return None
        r = tlc(module, cfg, self.work, workers=workers, timeout=timeout, mem=mem)
        if not r['ok']:
            raise CheckError(f'model {module} does not check:\n' + r['out'][-4000:])
        self.models.append({'module': module, 'states': r['states'], 'distinct': r['distinct'], 'depth': r['depth'],
                            'wall_s': round(r['wall'], 1), 'constants': note or ' '.join(cfg.split())[:300]})
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += r['states']
        return r

    # --- recording --------------------------------------------------------
    def record(self, binary, args, out, timeout, env=None):
        """Runs a driver that appends one JSON event per line to `out`. An
        abnormal end is recorded as an event that no specification allows."""
        cmd = [binary] + [str(a) for a in args] + ['--out', out]
        e = dict(os.environ)
        e.update(env or {})
        e.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1')
        err = out + '.stderr'
        scratch = tempfile.mkdtemp(dir=self.work)
        try:
            with open(err, 'w') as ef:
                rc = subprocess.run(cmd, cwd=scratch, env=e, stdout=ef, stderr=ef, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        shutil.rmtree(scratch, ignore_errors=True)
        if not os.path.exists(out):
            open(out, 'w').close()
        if rc != 0:
            data = open(out, 'rb').read()
            if data and not data.endswith(b'\n'):  # cut-off last line
                data = data[:data.rfind(b'\n') + 1]
            tail = open(err, errors='replace').read()[-1500:]
            with open(out, 'wb') as f:
                f.write(data + json.dumps({'e': 'abnormal-end', 'rc': str(rc), 'stderr': tail}).encode() + b'\n')
        return cmd

    def conform(self, module, runs, timeout=700, jobs=NCPU, cfg='', rec_timeout=300):
        """runs: list of (binary, args). Records each, validates each trace,
        repeats a rejected one and reports it if it is rejected again."""
        def one(i, run, attempt=0):
            out = f'{self.work}/t{module}-{i}-{attempt}.ndjson'
            cmd = self.record(run[0], run[1], out, rec_timeout, run[2] if len(run) > 2 else None)
            bad, r = validate(module, out, self.work, timeout, cfg)
            return out, cmd, bad, r

        with cf.ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda t: one(*t), enumerate(runs)))
        for i, (out, cmd, bad, r) in enumerate(res):
            for line in open(out):
                ev = line[:200]
                m = re.search(r'"e": ?"([^"]*)"', ev)
                k = m.group(1) if m else '?'
                self.events[k] = self.events.get(k, 0) + 1
            self.cov['traces_validated_against_impl'] += 1
            self.cov['transitions'] += r.get('events', 0)
            if bad is not None:
                if self.violations >= 3:
                    continue
                out2, cmd2, bad2, r2 = one(i, runs[i], 1)
                if bad2 is None:
                    print(f'note: a rejected trace was accepted when repeated: {" ".join(cmd)}', file=sys.stderr)
                    continue
                self.report(module, cmd2, out2, bad2, r2)
        return res

    def report(self, module, cmd, trace, idx, r):
        lines = open(trace).read().splitlines()
        idx = max(1, min(idx or len(lines), len(lines)))
        start = idx - 1
        while start > 0 and '"e":"begin"' not in lines[start].replace(' ', '')[:40]:
            start -= 1
        if '"e":"begin"' not in lines[start].replace(' ', '')[:40]:
            start = idx - 1
        ev = lines[idx - 1]
        for k in self.known:
            if all(re.search(x, '\n'.join(lines[start:idx])) for x in k['match']):
                print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
                return
        rd = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f'{self.pid}-{self.violations}.json')
        json.dump({'property': self.pid, 'spec': f'spec/{module}.tla', 'driver': [os.path.basename(cmd[0])] + cmd[1:],
                   'event_number': idx, 'rejected_event': ev[:20000], 'scenario': [x[:4000] for x in lines[start:idx]],
                   'tlc': r['out'][-3000:]}, open(path, 'w'), indent=1)
        self.violations += 1
        print(f'the specification {module} does not allow event {idx}: {ev[:600]}')
        print(f'VIOLATION property={self.pid} replay={path}', flush=True)

    # --- end --------------------------------------------------------------
    def finish(self, level='model_checking'):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': {'states': self.cov['states'], 'transitions': self.cov['transitions'],
                           'traces_validated_against_impl': self.cov['traces_validated_against_impl'],
                           'samples': self.samples(), 'events_by_kind': self.events, 'models': self.models},
              'wall_s': round(time.time() - self.t0, 1), 'assumptions': self.assumptions,
              'violations': self.violations}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w'), indent=1)
        return 1 if self.violations else 0

    def samples(self):
        res = []
        for f in sorted(os.listdir(self.work)):
            if f.endswith('.ndjson') and len(res) < 6:
                with open(os.path.join(self.work, f)) as h:
                    ls = [x for _, x in zip(range(3), h)]
                res += [x.strip()[:300] for x in ls[1:2] or ls[:1]]
        return res

    def cleanup(self):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.work, ignore_errors=True)
        else:
            print('work in', self.work)

    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick
