"""
Shared machinery of the checks: scratch build of /repo, TLC runs, running the
code under test in forked workers, evidence files and verdicts.
"""

import atexit
import hashlib
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
HARNESS = VERIF / 'harness'
REPO = Path(os.environ.get('VT_REPO', '/repo'))
# evidence and replays; of checks on changed copies (tools/) they go elsewhere
OUT = Path(os.environ.get('VT_OUT', VERIF))
VENV_PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
CLASSPATH = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'

NPROC = os.cpu_count() or 4


class MachineryError(Exception):
    """The check itself failed (no verdict)"""


# --------------------------------------------------------------------------
# Scratch space
# --------------------------------------------------------------------------
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = Path(tempfile.mkdtemp(prefix='vt_check_'))
        _scratch.chmod(0o755)
        owner = os.getpid()

        def cleanup():
            if os.getpid() == owner and not os.environ.get('VT_KEEP'):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(cleanup)
        for sig in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(sig, lambda *_: sys.exit(3))
    return _scratch


def code_env(copy):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'VT_'))}
    env.update({
        'PATH': f'{copy}/src/bin:/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'PYTHONPATH': f'{copy}/src/lib',
        'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONHASHSEED': '0',
        'MPLBACKEND': 'Agg',
        'MPLCONFIGDIR': str(copy / 'mplconfig'),
        'TMPDIR': str(scratch()),
        'OMP_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1',
    })
    return env


# --------------------------------------------------------------------------
# Build of the code under test (in a scratch copy of the working tree)
# --------------------------------------------------------------------------
class Build:
    """Copies /repo's working tree and compiles the extension there"""

    def __init__(self):
        self.copy = scratch() / 'tree'
        self.error = None
        self._thread = threading.Thread(target=self._run)
        self._thread.start()

    def _run(self):
        try:
            self.copy.mkdir()
            ign = shutil.ignore_patterns('*.so', '__pycache__', '*.pyc', 'build', '*.egg-info')
            shutil.copytree(REPO / 'src', self.copy / 'src', ignore=ign)
            for f in ('setup.py', 'README.rst'):
                if (REPO / f).exists():
                    shutil.copy(REPO / f, self.copy / f)
            mpl = self.copy / 'mplconfig'
            mpl.mkdir()
            for f in Path('/opt/venv/mplconfig').glob('*'):
                if f.is_file():
                    shutil.copy(f, mpl)
            p = subprocess.run([VENV_PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'],
                               cwd=self.copy, env=code_env(self.copy), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=300)
            if p.returncode != 0:
                self.error = 'the extension does not compile:\n' + p.stdout[-2000:]
        except Exception as e:
            self.error = repr(e)

    def wait(self):
        self._thread.join()
        if self.error:
            raise MachineryError(self.error)
        return self.copy


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
_classes = None
_classes_lock = threading.Lock()


def java_classes():
    global _classes
    with _classes_lock:
        if _classes is None:
            out = scratch() / 'classes'
            out.mkdir()
            src = SPEC / 'java/tlc2/overrides/FltOverrides.java'
            subprocess.run(['javac', '-nowarn', '-cp', CLASSPATH, '-d', str(out), str(src)], check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            _classes = out
    return _classes


def cached(run, *key):
    """
    Models do not look at the code. While many changed copies of the code are
    tried (tools/mutate.py), their results are kept; checks themselves always run them.
    """
    d = os.environ.get('VT_MODEL_CACHE')
    if not d:
        return run()
    text = ''.join(f.read_text() for f in sorted(SPEC.glob('**/*')) if f.is_file())
    f = Path(d) / hashlib.sha1((text + repr(key)).encode()).hexdigest()
    if f.exists():
        return pickle.loads(f.read_bytes())
    r = run()
    f.parent.mkdir(parents=True, exist_ok=True)
    tmp = f.with_suffix(f'.{os.getpid()}')
    tmp.write_bytes(pickle.dumps(r))
    tmp.rename(f)
    return r


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc = rc
        self.out = out
        self.wall = wall
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
        if not m:
            m2 = re.findall(r'(\d+) states generated', out)
            m = [(m2[-1], m2[-1])] if m2 else []
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else 0
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                try:
                    text = json.loads(line)
                except ValueError:
                    # TLC does not escape everything JSON wants escaped
                    text = line[1:-1].replace('\\"', '"').replace('\\\\', '\\')
                tag, _, rest = text[2:].partition('@@')
                self.prints.append((tag, json.loads(rest)))
        # action coverage: "<Act line 1, col 1 to line 2, col 3 of module M>: 3:5"
        self.actions = {}
        for name, d, g in re.findall(r'^<(\w+) line [^>]*>: (\d+):(\d+)', out, re.M):
            self.actions[name] = max(self.actions.get(name, 0), int(g))

    @property
    def ok(self):
        return self.rc == 0

    def tagged(self, tag):
        return [v for t, v in self.prints if t == tag]


_tlc_count = 0


def tlc(module, cfg, *, env=None, workers=None, timeout=800, args=(), heap='6g', coverage=False):
    """
    Run TLC on spec/<module>.tla. 'cfg' is the text of the configuration.
    """
    global _tlc_count
    with _classes_lock:
        _tlc_count += 1
        n = _tlc_count
    meta = scratch() / f'tlc{n}'
    meta.mkdir()
    cfgfile = meta / 'M.cfg'
    cfgfile.write_text(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', f'-Xmx{heap}',
           f'-Djava.io.tmpdir={meta}',
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:'
           'tlc2.overrides.CommunityModules:tlc2.overrides.FltOverrides',
           '-cp', f'{java_classes()}:{CLASSPATH}', 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', str(meta / 'states'),
           '-workers', str(workers or NPROC), '-config', str(cfgfile)]
    if coverage:
        cmd += ['-coverage', '10']
    cmd += list(args) + [f'{module}.tla']
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f'TLC did not finish in {timeout} s on {module}')
    finally:
        shutil.rmtree(meta / 'states', ignore_errors=True)
    if os.environ.get('VT_VERBOSE'):
        print(p.stdout[-6000:], file=sys.stderr)
    return TlcResult(p.returncode, p.stdout, time.time() - t0)


# --------------------------------------------------------------------------
# Running the code under test
# --------------------------------------------------------------------------
def run_cases(build, cases, *, jobs=None, case_timeout=90, name='cases'):
    """
    Run every case (a dict with 'driver' and whatever the driver needs) in a
    forked worker on the scratch copy. Returns a list with one observation
    per case.
    """
    copy = build.wait()
    d = scratch()
    fin = d / f'{name}.in.json'
    fout = d / f'{name}.out.json'
    fin.write_text(json.dumps(cases))
    work = d / f'{name}.work'
    work.mkdir(parents=True, exist_ok=True)
    cmd = [VENV_PY, str(HARNESS / 'runner.py'), str(fin), str(fout), str(work),
           str(jobs or NPROC), str(case_timeout)]
    p = subprocess.run(cmd, cwd=work, env=code_env(copy), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode != 0 or not fout.exists():
        raise MachineryError('the case runner failed:\n' + p.stdout[-3000:])
    res = json.loads(fout.read_text())
    shutil.rmtree(work, ignore_errors=True)
    if not os.environ.get('VT_KEEP'):
        fin.unlink()
        fout.unlink()
    if len(res) != len(cases):
        raise MachineryError('the case runner lost cases')
    return res


# --------------------------------------------------------------------------
# Trace validation
# --------------------------------------------------------------------------
TRACE_CFG = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n'


class Validation:
    """Result of checking a set of traces against a trace specification"""

    def __init__(self):
        self.failures = []       # (trace index, line, [clauses], detail)
        self.accepted = 0
        self.states = 0
        self.generated = 0
        self.events = 0


def _validate(module, traces, extra_env, timeout, label):
    path = scratch() / f'trace_{label}.json'
    path.write_text(json.dumps([{**t, 'k': k} for k, t in enumerate(traces, 1)]))
    env = {'VT_TRACE': str(path)}
    env.update(extra_env or {})
    r = tlc(module, TRACE_CFG, env=env, timeout=timeout)
    if not os.environ.get('VT_KEEP'):
        path.unlink()
    return r


def validate(module, traces, *, env=None, timeout=800, label='t'):
    """
    Check the traces (a list of {"id":…, "ev":[…]}) against spec/<module>.tla
    with TLC. Every trace ends in a DONE or a FAIL print; a trace TLC cannot
    even evaluate is no behaviour of the specification.
    """
    v = Validation()
    if not traces:
        return v
    v.events = sum(len(t['ev']) for t in traces)

    def collect(r, idx):
        v.states += r.distinct
        v.generated += r.generated
        done = {x['t'] for x in r.tagged('DONE')}
        failed = {}
        for x in r.tagged('FAIL'):
            failed.setdefault((x['t'], x['l']), x)
        for (t, l), x in sorted(failed.items()):
            v.failures.append((idx[t - 1], l, x['c'], x.get('d')))
        ended = done | {t for t, _ in failed}
        v.accepted += len(done - {t for t, _ in failed})
        return [i for k, i in enumerate(idx) if (k + 1) not in ended]

    r = _validate(module, traces, env, timeout, label)
    todo = collect(r, list(range(len(traces))))
    if todo:
        # TLC stopped on an evaluation error: run the remaining traces one by one
        if len(todo) == len(traces) and ('Parsing or semantic analysis failed' in r.out
                                         or 'ConfigFileException' in r.out):
            raise MachineryError('specification error:\n' + r.out[-3000:])
        if os.environ.get('VT_DEBUG'):
            print(r.out[-5000:], file=sys.stderr)
        for n, i in enumerate(todo):
            if n >= 12:
                break
            r1 = _validate(module, [traces[i]], env, timeout, label)
            rest = collect(r1, [i])
            if rest:
                m = re.search(r'Error: (.{0,600})', r1.out, re.S)
                if 'OutOfMemory' in r1.out:
                    raise MachineryError('TLC ran out of memory')
                v.failures.append((i, 0, ['ObservationNotInSpecUniverse'],
                                   m.group(1) if m else r1.out[-600:]))
    return v


# --------------------------------------------------------------------------
# Known findings
# --------------------------------------------------------------------------
def known_findings(prop):
    out = []
    f = VERIF / 'known_findings.jsonl'
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith('fixed:'):
                continue
            k = json.loads(line)
            if k['property'] == prop:
                out.append(k)
    return out


# --------------------------------------------------------------------------
# Evidence
# --------------------------------------------------------------------------
def write_evidence(prop, tier, seed, level, coverage, assumptions, wall, violations):
    d = OUT / 'evidence'
    d.mkdir(parents=True, exist_ok=True)
    e = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': coverage, 'assumptions': assumptions,
        'wall_s': round(wall, 2), 'violations': violations,
    }
    (d / f'{prop}.json').write_text(json.dumps(e, indent=1) + '\n')


def sha(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:12]
