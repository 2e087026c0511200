#!/usr/bin/env python3
"""
Systematic mutants of PyTornado against the checks: mutate.py OUT.jsonl [--n N] [--seed S] [--only REGEX] [--jobs J]

For every function a number of small changes (operators, constants, conditions,
dropped statements, swapped names) is drawn and tried in a scratch copy with the
quick checks that should notice. Survivors are for reading: many are equivalent.
Not used by any check.
"""
import argparse
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/lib/pytornado'
REPO = os.environ.get('VT_REPO', '/repo')
# file -> [(function regex, checks)]
CHECKS = {
    'aero/vlm.py': [('set_autopanels', 'C05'), ('pre_panelling', 'C04 C05 C03'), ('gen_lattice', 'C05 C08 C06'), ('.*', 'C09 C10 C02 C20')],
    'aero/c_lattice.cpp': [('.*', 'C06')],
    'aero/c_downwash.cpp': [('.*', 'C09')],
    'aero/c_boundary.cpp': [('.*', 'C09')],
    'aero/c_results.cpp': [('.*', 'C10')],
    'aero/c_vlm.cpp': [('.*', 'C10 C06')],
    'objects/aircraft.py': [('Aircraft\\.', 'C17 C21 C22 C15 C16'), ('Wing\\.', 'C17 C22 C21 C16 C07'), ('WingSegment\\.', 'C03 C04 C21 C17 C16 C08'),
                            ('WingControl\\.', 'C17 C19 C04'), ('SegmentStrip|StripSubdivision', 'C04 C07 C08 C03 C16'), ('.*', 'C04 C07 C17 C08 C16')],
    'objects/objecttools.py': [('.*', 'C22 C05')],
    'objects/settings.py': [('.*', 'C14 C13 C12')],
    'objects/state.py': [('.*', 'C01 C02 C18')],
    'objects/utils.py': [('.*', 'C14 C15')],
    'objects/vlm_struct.py': [('.*', 'C05 C10 C02 C12')],
    'plot/downwash.py': [('.*', 'C19')],
    'plot/makeplots.py': [('.*', 'C19')],
    'plot/plottools.py': [('.*', 'C19')],
    'stdfun/run.py': [('.*', 'C13 C12 C02 C19 C18')],
    'stdfun/setup.py': [('.*', 'C13 C18')],
    'database/tools.py': [('.*', 'C22 C13')],
    'fileio/native/aircraft.py': [('.*', 'C15 C17 C18')],
    'fileio/native/deformation.py': [('.*', 'C16 C13')],
    'fileio/native/results.py': [('.*', 'C12')],
    'fileio/native/settings.py': [('.*', 'C14 C13')],
    'fileio/native/state.py': [('.*', 'C15 C01')],
    'fileio/utils.py': [('.*', 'C13 C12 C15')],
    'fileio/cpacs/aircraft.py': [('.*', 'C18')],
    'fileio/cpacs/results.py': [('.*', 'C18')],
    'fileio/cpacs/state.py': [('.*', 'C18')],
    'fileio/cpacs/utils.py': [('.*', 'C18')],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: None}


def quiet(node):
    """Statements that are not worth changing: messages"""
    if isinstance(node, ast.Expr):
        if isinstance(node.value, ast.Constant):
            return True
        if isinstance(node.value, ast.Call):
            f = ast.unparse(node.value.func)
            return f.startswith('logger.') or f in ('print', 'hlogger')
    return isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom))


def swaps(text):
    """Neighbouring names: inner/outer, a/b, ..."""
    for a, b in (('inner', 'outer'), ('xsi_a', 'xsi_b'), ('eta_a', 'eta_b'), ('xsi_c', 'xsi_d'), ('xsi1', 'xsi2'), ('xsi_h1', 'xsi_h2'), ('num_c', 'num_s'),
                 ('alpha', 'beta'), ('rate_P', 'rate_R'), ('rate_Q', 'rate_P'), ('global', 'panelwise'), ('save', 'show'), ('deflection_mirror', 'deflection'),
                 ('flap', 'slat'), ('span', 'chord'), ('area', 'span'), ('gcenter', 'rcenter'), ('sin', 'cos'), ('min', 'max'), ('mach', 'airspeed'), ('lift', 'drag')):
        yield a, b
        yield b, a


def python_mutants(source):
    """(function, line, what, new source)"""
    tree = ast.parse(source)
    out = []

    def functions(node, prefix=''):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                yield from functions(n, n.name + '.')
            elif isinstance(n, ast.FunctionDef):
                yield prefix + n.name, n
                yield from functions(n, prefix + n.name + '.')

    lines = source.splitlines(keepends=True)

    def emit(fn, node, new, what):
        """Replace the text of node"""
        if node.lineno == node.end_lineno:
            ln = lines[node.lineno - 1].encode()
            text = (ln[:node.col_offset] + new.encode() + ln[node.end_col_offset:]).decode()
            res = ''.join(lines[:node.lineno - 1] + [text] + lines[node.lineno:])
        else:
            first = lines[node.lineno - 1].encode()[:node.col_offset].decode()
            last = lines[node.end_lineno - 1].encode()[node.end_col_offset:].decode()
            res = ''.join(lines[:node.lineno - 1]) + first + new + last + ''.join(lines[node.end_lineno:])
        try:
            ast.parse(res)
        except SyntaxError:
            return
        out.append((fn, node.lineno, what, res))

    def visit(fn, node):
        if quiet(node):
            return
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(node, ast.JoinedStr):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            c = copy.deepcopy(node)
            c.ops[0] = CMP[type(node.ops[0])]()
            emit(fn, node, '(' + ast.unparse(c) + ')', f'{ast.unparse(node)} -> {ast.unparse(c)}')
        elif isinstance(node, ast.BinOp) and BIN.get(type(node.op)):
            c = copy.deepcopy(node)
            c.op = BIN[type(node.op)]()
            emit(fn, node, '(' + ast.unparse(c) + ')', f'{ast.unparse(node)} -> {ast.unparse(c)}')
        elif isinstance(node, ast.BoolOp):
            c = copy.deepcopy(node)
            c.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            emit(fn, node, '(' + ast.unparse(c) + ')', f'{ast.unparse(node)} -> {ast.unparse(c)}')
            for k in range(len(node.values)):
                d = copy.deepcopy(node)
                v = d.values.pop(k)
                emit(fn, node, '(' + ast.unparse(d) + ')', f'{ast.unparse(node)}: without {ast.unparse(v)}')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            emit(fn, node, '(' + ast.unparse(node.operand) + ')', f'{ast.unparse(node)} -> {ast.unparse(node.operand)}')
        elif isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)) and node.value is not None and node.value is not Ellipsis:
            v = node.value
            for n in ([not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, int) else [v*2, v*0.9]):
                emit(fn, node, repr(n), f'{v!r} -> {n!r}')
        elif isinstance(node, ast.Constant) and isinstance(node.value, str):
            for a, b in swaps(node.value):
                if re.search(rf'(?<![a-z]){a}(?![a-z])', node.value):
                    n = re.sub(rf'(?<![a-z]){a}(?![a-z])', b, node.value)
                    emit(fn, node, repr(n), f'{node.value!r} -> {n!r}')
                    break
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            for a, b in swaps(node.id):
                n = node.id.replace(a, b)
                if n != node.id and n in names.get(fn, ()):
                    emit(fn, node, n, f'{node.id} -> {n}')
                    break
        elif isinstance(node, ast.IfExp):
            c = copy.deepcopy(node)
            c.body, c.orelse = node.orelse, node.body
            emit(fn, node, '(' + ast.unparse(c) + ')', f'swap of {ast.unparse(node)}')
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and not quiet(node):
            emit(fn, node, 'pass', f'without {ast.unparse(node)[:90]}')
        if isinstance(node, (ast.Continue, ast.Break)):
            emit(fn, node, 'pass', f'without {ast.unparse(node)}')
        if isinstance(node, ast.If):
            emit(fn, node.test, f'not ({ast.unparse(node.test)})', f'not {ast.unparse(node.test)[:90]}')
            emit(fn, node.test, 'False', f'never {ast.unparse(node.test)[:90]}')
            emit(fn, node.test, 'True', f'always {ast.unparse(node.test)[:90]}')
        for n in ast.iter_child_nodes(node):
            visit(fn, n)

    names = {}
    fns = list(functions(tree))
    for name, f in fns:
        names[name] = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} | {a.arg for a in f.args.args}
    for name, f in fns:
        for d in f.args.defaults:
            visit(name, d)
        for n in f.body:
            visit(name, n)
    return out


CPP = [(r'(?<=[\w\])]) \+ (?=[\w(])', ' - '), (r'(?<=[\w\])]) - (?=[\w(])', ' + '), (r'(?<=[\w\])])\*(?=[\w(])', '/'), (r'(?<=[\w\])])/(?=[\w(])', '*'),
       (r'(?<=[\w\])])-(?=[\w(])', '+'), (r'\+=', '='), (r'(?<![+\-*/=!<>])= (?=\w)', '+= '), (r' < ', ' <= '), (r' > ', ' < '), (r'==', '!='),
       (r'\b0\.75\b', '0.7'), (r'\b0\.25\b', '0.3'), (r'\b0\.5\b', '0.4'), (r'(?<=[ (\[])1(?=[)\] *;])', '2'), (r'(?<=[ (\[])0(?=[)\] ;])', '1'), (r'(?<=[ (\[])2(?=[)\] *;])', '1'),
       (r'_x\b', '_y'), (r'_y\b', '_z'), (r'_z\b', '_x'), (r'\bsin', 'cos'), (r'\bcos', 'sin'), (r'alpha\b', 'beta'), (r'span\b', 'chord'), (r'index_P\b', 'index_Q'),
       (r'index_R\b', 'index_S'), (r'\.CG|->CG', '->RP'), (r'->RP', '->CG')]


def cpp_mutants(source):
    out = []
    lines = source.split('\n')
    comment = False
    for i, ln in enumerate(lines):
        if '/*' in ln and '*/' not in ln:
            comment = True
        if '*/' in ln:
            comment = False
            continue
        code = ln.split('//')[0]
        if comment or not code.strip() or code.lstrip().startswith(('#', '*', '/*')) or 'std::c' in code or 'HasAttr' in code or 'double ' == code.strip()[:7] and '=' not in code:
            continue
        for pat, rep in CPP:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + rep + code[m.end():]
                out.append((f'line{i//40}', i + 1, f'{code.strip()[:100]} -> {new.strip()[:100]}', '\n'.join(lines[:i] + [new] + lines[i + 1:])))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=3, help='mutants for each function')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--only', default='')
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    rng = random.Random(a.seed)
    work = []
    for f, rules in CHECKS.items():
        source = open(f'{REPO}/{SRC}/{f}').read()
        by = {}
        for m in (python_mutants if f.endswith('.py') else cpp_mutants)(source):
            by.setdefault(m[0], []).append(m)
        for fn, ms in by.items():
            checks = next(c for r, c in rules if re.match(r, fn)).split()
            for _, line, what, new in rng.sample(ms, min(len(ms), a.n if len(ms) < 40 else 2*a.n if len(ms) < 120 else 4*a.n)):
                if re.search(a.only, f'{f}:{fn}'):
                    work.append((f, fn, line, what, new, checks))
    done = set()
    if os.path.exists(a.out):
        done = {(r['file'], r['line'], r['what']) for r in map(json.loads, open(a.out))}
    work = [w for w in work if (w[0], w[2], w[3]) not in done]
    rng.shuffle(work)
    print(len(work), 'mutants')
    if a.list:
        for w in work:
            print(w[0], w[1], w[2], w[3])
        return

    def one(w):
        f, fn, line, what, new, checks = w
        d = tempfile.mkdtemp(prefix='mutant')
        try:
            subprocess.run(['git', 'clone', '-q', REPO, d], check=True)
            with open(f'{d}/{SRC}/{f}', 'w') as fp:
                fp.write(new)
            res = {}
            for c in checks:
                r = subprocess.run([f'{HERE}/bin/check', c], capture_output=True, text=True,
                                   env={**os.environ, 'VT_REPO': d, 'VT_OUT': d, 'VT_MODEL_CACHE': '/tmp/model_cache', 'VERIF_TIER': 'quick'})
                res[c] = r.returncode
                if r.returncode == 1:
                    break
                if r.returncode > 1:
                    res['error'] = (r.stdout + r.stderr)[-300:]
                    break
        finally:
            shutil.rmtree(d)
        verdict = 'caught' if 1 in res.values() else 'error' if 'error' in res else 'MISSED'
        with open(a.out, 'a') as fp:
            fp.write(json.dumps({'file': f, 'fn': fn, 'line': line, 'what': what, 'verdict': verdict, 'checks': res}) + '\n')
        if verdict != 'caught':
            print(verdict, f, fn, line, what, res, flush=True)

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, work))


if __name__ == '__main__':
    sys.exit(main())
