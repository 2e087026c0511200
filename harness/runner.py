#!/opt/venv/bin/python
"""
Runs cases on the code under test (the tree on PYTHONPATH), each in a forked
process of its own with a time limit and its own scratch folder.

usage: runner.py CASES.json OUT.json WORKDIR JOBS TIMEOUT
"""

import json
import os
import select
import shutil
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def child(case, folder, out):
    """Run one case; the observation is written to the file 'out'"""
    os.makedirs(folder)
    os.chdir(folder)
    devnull = os.open(os.devnull, os.O_RDWR)
    log = os.open(folder + '.log', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(devnull, 0)
    os.dup2(log, 1)
    os.dup2(log, 2)
    sys.stdin = open(0)
    sys.stdout = open(1, 'w')
    sys.stderr = open(2, 'w')
    import drivers
    import guard
    guard.install(os.path.dirname(os.path.dirname(folder)))
    try:
        obs = drivers.run(case)
    except BaseException as e:           # noqa: the code under test may raise anything
        obs = {'kind': 'raise', 'type': type(e).__name__, 'msg': str(e)[:300],
               'where': traceback.format_exc()[-1500:]}
    with open(out, 'w') as fp:
        json.dump(obs, fp)


def main():
    fin, fout, work, jobs, timeout = sys.argv[1:6]
    jobs, timeout = int(jobs), float(timeout)
    with open(fin) as fp:
        cases = json.load(fp)

    # Import everything before forking
    try:
        import drivers
        drivers.preload()
    except Exception:
        traceback.print_exc()
        # The package does not import: that is an observation for every case
        msg = traceback.format_exc()[-1500:]
        with open(fout, 'w') as fp:
            json.dump([{'kind': 'raise', 'type': 'ImportError', 'msg': '', 'where': msg} for _ in cases], fp)
        return 0

    results = [None]*len(cases)
    running = {}
    nxt = 0
    while nxt < len(cases) or running:
        while nxt < len(cases) and len(running) < jobs:
            folder = os.path.join(work, f'c{nxt}')
            out = folder + '.json'
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setsid()
                    child(cases[nxt], folder, out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            t = timeout*cases[nxt].get('timeout_factor', 1)
            running[pid] = (nxt, folder, out, time.time() + t)
            nxt += 1
        # Reap
        reaped = False
        while True:
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if pid == 0:
                break
            reaped = True
            i, folder, out, _ = running.pop(pid)
            results[i] = collect(status, out, folder, False)
        now = time.time()
        for pid, (i, folder, out, deadline) in list(running.items()):
            if now > deadline:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                _, status = os.waitpid(pid, 0)
                running.pop(pid)
                results[i] = collect(status, out, folder, True)
                reaped = True
        if not reaped:
            time.sleep(0.003)

    with open(fout, 'w') as fp:
        json.dump(results, fp)
    return 0


def collect(status, out, folder, timed_out):
    res = None
    if os.path.exists(out):
        try:
            with open(out) as fp:
                res = json.load(fp)
        except ValueError:
            res = None
        os.unlink(out)
    if res is None:
        tail = ''
        if os.path.exists(folder + '.log'):
            with open(folder + '.log', errors='replace') as fp:
                tail = fp.read()[-800:]
        if timed_out:
            res = {'kind': 'hang', 'type': 'timeout', 'msg': tail, 'where': ''}
        elif os.WIFSIGNALED(status):
            res = {'kind': 'crash', 'type': f'signal{os.WTERMSIG(status)}', 'msg': tail, 'where': ''}
        else:
            res = {'kind': 'crash', 'type': f'exit{os.WEXITSTATUS(status)}', 'msg': tail, 'where': ''}
    shutil.rmtree(folder, ignore_errors=True)
    if os.path.exists(folder + '.log'):
        os.unlink(folder + '.log')
    return res


if __name__ == '__main__':
    sys.exit(main())
