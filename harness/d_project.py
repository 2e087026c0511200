"""
The command line tool in a working directory. Every command runs in a process
of its own, as an unprivileged user who owns nothing but the scratch folder.
"""
import hashlib
import json
import os
import random
import runpy
import shutil
import sys
import traceback

NOBODY = 65534


def script():
    import pytornado
    return os.path.join(os.path.dirname(pytornado.__file__), '..', '..', 'bin', 'pytornado')


def cli(argv, cwd, log):
    """Exit status of the tool run with these arguments"""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            if os.getuid() == 0:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
            os.chdir(cwd)
            sys.argv = ['pytornado'] + argv
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            try:
                runpy.run_path(script(), run_name='__main__')
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code & 0xff)
    _, status = os.waitpid(pid, 0)
    return os.WEXITSTATUS(status) if os.WIFEXITED(status) else 200


def own(root):
    if os.getuid() != 0:
        return
    os.chown(root, NOBODY, NOBODY)
    for d, dirs, files in os.walk(root):
        for x in dirs + files:
            os.chown(os.path.join(d, x), NOBODY, NOBODY, follow_symlinks=False)


def snapshot(root):
    """path -> content (files and links), and the list of directories"""
    files, dirs = {}, []
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            p = os.path.join(d, x)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                files[r] = 'link ' + os.readlink(p)
            elif os.path.isdir(p):
                dirs.append(r)
            else:
                with open(p, 'rb') as fp:
                    files[r] = hashlib.sha1(fp.read()).hexdigest()[:16]
    return files, sorted(dirs)


def load(p):
    with open(p) as fp:
        return json.load(fp)


def dump(x, p):
    with open(p, 'w') as fp:
        json.dump(x, fp)


def first_settings(w, slot):
    d = f'{w}/{slot}/settings'
    fs = sorted(f for f in os.listdir(d) if f.endswith('.json')) if os.path.isdir(d) else []
    return f'{d}/{fs[0]}' if fs else None


def settings_files(w, slot):
    """The settings files of a project: in its settings folder, and one beside"""
    out = []
    f = first_settings(w, slot)
    if f:
        out.append(f)
    if os.path.exists(f'{w}/{slot}/second.v2.json'):
        out.append(f'{w}/{slot}/second.v2.json')
    return out


def tune(w, slot, rng, how):
    """Change inputs of a project: save options, number of points, panels"""
    f = first_settings(w, slot)
    if not f:
        return
    s = load(f)
    s['vlm_autopanels_c'], s['vlm_autopanels_s'] = 1, rng.choice([1, 2])
    s['save_results'] = {k: rng.random() < 0.6 for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system')}
    for k in s['plot']:
        s['plot'][k].update({'show': False, 'save': how == 'plots' and k in ('matrix_downwash', 'geometry')})
    dump(s, f)
    st = f'{w}/{slot}/state/{s["state"]}'
    if os.path.isfile(st):
        n = rng.choice([1, 1, 2, 3])
        a = load(st)['aero']
        dump({'aero': {k: None if v is None else [1.0*rng.randint(1, 5)]*n for k, v in a.items()}}, st)
    if how != 'first':
        s2 = dict(s)
        s2['save_results'] = {k: rng.random() < 0.6 for k in s['save_results']}
        dump(s2, f'{w}/{slot}/second.v2.json')


def put(w, slot, place, rng):
    p = f'{w}/{slot}'
    base = {'root': p, 'aircraft': f'{p}/aircraft', 'results': f'{p}/_results', 'plots': f'{p}/_plots'}[place]
    deep = rng.choice(['', '', '/mine', '/deep/er', '/template_000'])
    if place == 'root':
        deep = rng.choice(['', '/_archive', '/_results_old', '/_plots.bak', '/mine', '/plots', '/results', '/_tmp', '/tmp/_results'])
    name = rng.choice(['notes.txt', 'x.json', '.hidden', 'log.txt.old', '_keep', 'results.csv', '_plots.txt', 'a.log', 'x.png'])
    os.makedirs(base + deep, exist_ok=True)
    with open(f'{base}{deep}/{name}', 'w') as fp:
        fp.write(f'of the user {rng.random()}\n')
    if rng.random() < 0.5:
        # a link into another folder of the user
        os.makedirs(f'{w}/elsewhere/data', exist_ok=True)
        with open(f'{w}/elsewhere/data/precious.txt', 'w') as fp:
            fp.write('precious\n')
        l = f'{base}/link{rng.randint(0, 9)}'
        if not os.path.lexists(l):
            os.symlink(os.path.relpath(f'{w}/elsewhere/data', base), l)


def wreck(w, slot, how, rng):
    """Make the inputs of a project invalid; returns how to undo it"""
    f = first_settings(w, slot)
    if how == 'settings':
        g = rng.choice(settings_files(w, slot))
        changes = {}
        for g in settings_files(w, slot):
            changes[g] = open(g).read()
            s = load(g)
            k = rng.choice(['suffix', 'type', 'json', 'epsilon', 'nested'])
            if k == 'suffix':
                s['aircraft'] = 'model.txt'
            elif k == 'type':
                s['vlm_autopanels_c'] = 'five'
            elif k == 'epsilon':
                s['_epsilon'] = 0.0
            elif k == 'nested':
                s['save_results']['global'] = 'yes'
            text = json.dumps(s)
            with open(g, 'w') as fp:
                fp.write(text if k != 'json' else text[:-5])
        return changes
    s = load(f)
    k = rng.choice(['refs', 'noaircraft', 'state', 'nostate'])
    a, t = f'{w}/{slot}/aircraft/{s["aircraft"]}', f'{w}/{slot}/state/{s["state"]}'
    g = a if k in ('refs', 'noaircraft') else t
    changes = {g: open(g).read()}
    x = load(g)
    if k == 'refs':
        del x['refs']['area']
        dump(x, g)
    elif k == 'state':
        x['aero']['alpha'] = [1.0]*7
        dump(x, g)
    else:
        os.remove(g)
    return changes


BAD = [
    ['--make-example', '--ldb'], ['-r', 'S', '--mdb', 'boxwing'], ['-v', '-d', '-r', 'S'], ['-c', '--clean-only', '-r', 'S'],
    ['-c'], ['--clean-only'], ['-c', '--make-example'], ['--clean-only', '--ldb'], ['--clean-only', '--make-example'],
    ['--nonsense'], ['-r'], ['-r', 'missing.json'], ['-c', '-r', 'missing.json'], ['--clean-only', '-r', 'no/such.json'],
    ['-q', '-v', '--make-example'], ['--mdb'], ['-c', '--mdb', 'boxwing'], ['--make-example', '-r', 'S'],
    ['S'], ['--cpacs2json', 'x.xml', '-r', 'S'], ['--clean-only', '--mdb', 'bwb'], ['--make-example', '--mdb', 'bwb'],
    ['-d', '-q', '-c', '-r', 'S'], ['--run', 'S', '--list-example-from-db'], ['--mdb', 'boxwing', '--clean-only', '-c'],
    ['-c', '--cpacs2json', 'x.xml'], ['--make-example', 'S'], ['-r', 'S', '--no-such-option'],
]
INFO = [[], ['--ldb'], ['-h'], ['--list-example-from-db'], ['-v'], ['--help'], ['-q', '--ldb']]
DB = ['NASA_CRM', 'boxwing', 'bwb', 'd150', 'optimale']


def run(case):
    rng = random.Random(case['seed'])
    w = os.path.abspath('w')
    log = os.path.abspath('w.log')
    os.makedirs(w)
    with open(w + '/mine.txt', 'w') as fp:
        fp.write('of the user\n')
    out = []
    undo = {}
    logs = os.path.abspath('logs')
    os.makedirs(logs)
    for d in (w, logs):
        own(d)
    for c in case['hist']:
        cmd = c['cmd']
        ev = {'c': c, 'tool': cmd in ('example', 'db', 'run', 'bad', 'info')}
        if not ev['tool']:
            slot = c.get('slot', 'pytornado')
            if cmd == 'put':
                put(w, slot, c['place'], rng)
            elif cmd == 'edit':
                tune(w, slot, rng, rng.choice(['edit', 'edit', 'plots']))
            elif cmd == 'break':
                undo[slot] = wreck(w, slot, c['how'], rng)
            elif cmd == 'repair':
                for g, text in undo.pop(slot, {}).items():
                    g = g if os.path.isdir(os.path.dirname(g)) else g.replace('/pytornado/', '/other/')
                    with open(g, 'w') as fp:
                        fp.write(text)
            elif cmd == 'occupy':
                if c['kind'] == 'file':
                    with open(w + '/pytornado', 'w') as fp:
                        fp.write('a file\n')
                else:
                    os.makedirs(w + '/pytornado/settings' if rng.random() < 0.5 else w + '/pytornado')
                    if rng.random() < 0.5:
                        with open(w + '/pytornado/keep.txt', 'w') as fp:
                            fp.write('keep\n')
            elif cmd == 'move':
                os.rename(w + '/pytornado', w + '/other')
                if 'pytornado' in undo:
                    undo['other'] = {g.replace('/pytornado/', '/other/'): t for g, t in undo.pop('pytornado').items()}
            own(w)
            out.append(ev)
            continue
        slot = c.get('slot', rng.choice(['pytornado', 'other']))
        have = settings_files(w, slot)
        S = have[rng.randrange(len(have))] if have else f'{w}/{slot}/settings/template.json'
        ev['base'] = os.path.basename(S)[:-5]
        ev['made'] = ''
        cwd = w
        verb = rng.choice([[], [], ['-v'], ['-q'], ['-d']])
        if cmd == 'example':
            args = ['--make-example']
            ev['made'] = 'template'
        elif cmd == 'db':
            name = rng.choice(case.get('names') or DB) if c['known'] else rng.choice(['nonesuch', 'boxwin', 'Boxwing', '*', '.', 'tools', 'box wing'])
            ev['made'] = name
            args = ['--mdb', rng.choice([name, name + '.json'] if c['known'] else [name])]
        elif cmd == 'run':
            form = rng.randrange(4)
            if form == 0 or not have:
                arg = S
            elif form == 1:
                arg = os.path.relpath(S, w)
            elif form == 2:
                cwd = f'{w}/{slot}'
                arg = os.path.relpath(S, cwd)
            else:
                cwd = os.path.dirname(S)
                arg = './' + os.path.basename(S)
            args = [rng.choice(['-r', '--run']), arg] + {'no': [], 'yes': [rng.choice(['-c', '--clean'])], 'only': ['--clean-only']}[c['clean']]
            args = verb + args if rng.random() < 0.5 else args + verb
        elif cmd == 'bad':
            args = [a if a != 'S' else os.path.relpath(S, w) for a in rng.choice(BAD)]
        else:
            args = rng.choice(INFO)
        ev['before'], ev['bdirs'] = snapshot(w)
        ev['opts'], ev['plots'], ev['n'] = [], False, 0
        try:
            s = load(S)
            ev['opts'] = sorted(k if k != 'matrix_system' else 'matrix' for k, v in s['save_results'].items() if v)
            ev['plots'] = any(v['save'] for v in s['plot'].values())
            a = load(f'{w}/{slot}/state/{s["state"]}')['aero']['alpha']
            ev['n'] = len(a) if isinstance(a, list) else 1
        except Exception:
            pass
        ev['args'] = args
        ev['exit'] = cli(args, cwd, f'{logs}/{len(out)}.log')
        if ev['exit'] != 0:
            with open(f'{logs}/{len(out)}.log', errors='replace') as fp:
                ev['stderr'] = fp.read()[-200:]
        ev['after'], ev['adirs'] = snapshot(w)
        out.append(ev)
        if ev['exit'] == 0 and cmd in ('example', 'db') and not case.get('asis'):
            # keep the following runs small
            tune(w, 'pytornado', rng, 'first' if rng.random() < 0.3 else 'both')
            own(w)
    return {'kind': 'ok', 'ev': out}
