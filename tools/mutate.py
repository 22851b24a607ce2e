"""Mutation survey (development tool; no check uses it): small syntactic changes to functions of
/repo in scratch copies, and which checks notice.

  mutate.py FILE FUNC[,FUNC..] CHECK[,CHECK..] [-n SAMPLE] [-s SEED] [-j JOBS]
A mutant counts as caught when one of the checks exits 1; survivors are printed with their diff line.
"""
import argparse
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.BitAnd: '|', ast.BitOr: '&'}
STR = {'following': 'preceding', 'preceding': 'following', 'left': 'inner', 'right': 'left', 'outer': 'inner', 'first': 'last', 'last': 'first', 'forward': 'backward', 'backward': 'forward'}


def seg(src, offs, n):
    return offs[n.lineno - 1] + len(src[n.lineno - 1].encode()[:n.col_offset].decode()), offs[n.end_lineno - 1] + len(src[n.end_lineno - 1].encode()[:n.end_col_offset].decode())


def mutants(text, funcs):
    lines = text.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l))
    tree = ast.parse(text)
    out = []

    def add(n, new, what):
        a, b = seg(lines, offs, n)
        out.append((a, b, new, n.lineno, what))

    def src(n):
        a, b = seg(lines, offs, n)
        return text[a:b]

    def walk(f):
        doc = ast.get_docstring(f, clean=False)
        for n in ast.walk(f):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add(n, f'({src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])})', 'cmp')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, f'({src(n.left)} {BIN[type(n.op)]} {src(n.right)})', 'bin')
                if isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.JoinedStr):
                    add(n, f'({src(n.left)})', 'drop right')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                add(n, f'({src(n.operand)})', 'unary')
            elif isinstance(n, ast.BoolOp):
                op = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + op.join(src(v) for v in n.values) + ')', 'bool')
            elif isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    add(n, str(not v), 'const')
                elif isinstance(v, int):
                    add(n, str(v + 1), 'const')
                    if v in (0, 1, -1):
                        add(n, str(v - 1), 'const')
                elif isinstance(v, float):
                    add(n, repr(v * 1.07 if v else .01), 'const')
                elif isinstance(v, str) and v in STR:
                    add(n, repr(STR[v]), 'str')
            elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
                add(n, f'{src(n.func)}({src(n.args[1])}, {src(n.args[0])})', 'args')
            elif isinstance(n, ast.IfExp):
                add(n, f'({src(n.orelse)} if {src(n.test)} else {src(n.body)})', 'ifexp')
            elif isinstance(n, ast.Attribute) and n.attr in ('min', 'max'):
                add(n, src(n.value) + '.' + {'min': 'max', 'max': 'min'}[n.attr], 'minmax')
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n.targets[0] if isinstance(n, ast.Assign) else n.target, (ast.Subscript, ast.Attribute)):
                add(n, 'pass', 'drop assignment')
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(n, 'pass', 'drop call')
            elif isinstance(n, ast.If):
                add(n.test, f'not ({src(n.test)})', 'negate')
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and (n.name in funcs if funcs else isinstance(n, ast.FunctionDef)):
            walk(n)
    res, seen = [], set()
    for a, b, new, ln, what in out:
        t = text[:a] + new + text[b:]
        if t in seen:
            continue
        seen.add(t)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        line = lines[ln - 1]
        if any(w in line for w in ('print(', 'raise ', 'logging.', 'warnings.warn', 'plt.', 'fig', 'ax.')):
            continue
        res.append((t, ln, what, text[a:b].replace('\n', ' ')[:110], new.replace('\n', ' ')[:110]))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file'); ap.add_argument('funcs'); ap.add_argument('checks')
    ap.add_argument('-n', type=int, default=20); ap.add_argument('-s', type=int, default=1); ap.add_argument('-j', type=int, default=3)
    a = ap.parse_args()
    raw = open('/repo/' + a.file, newline='').read()
    crlf = '\r\n' in raw
    ms = mutants(raw.replace('\r\n', '\n'), set(a.funcs.split(',')) if a.funcs != '*' else None)
    total = len(ms)
    random.Random(a.s).shuffle(ms)
    ms = ms[:a.n]

    def one(m):
        wt = tempfile.mkdtemp(prefix='mut_')
        try:
            subprocess.run(f'mkdir -p {wt} && cp -a /repo/frm {wt}/ && cp -a /repo/tests {wt}/', shell=True, check=True)
            with open(os.path.join(wt, a.file), 'w', newline='') as f:
                f.write(m[0].replace('\n', '\r\n') if crlf else m[0])
            res = []
            for c in a.checks.split(','):
                try:
                    p = subprocess.run([V + '/check', c, 'quick'], env=dict(os.environ, FRM_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                res.append(rc)
                if rc == 1:
                    break
            return m, res
        finally:
            shutil.rmtree(wt, ignore_errors=True)
    caught = 0
    with ThreadPoolExecutor(a.j) as ex:
        for m, res in ex.map(one, ms):
            if 1 in res:
                caught += 1
            else:
                print(f'SURVIVED {a.file}:{m[1]} [{m[2]}] {res}  {m[3]}  ==>  {m[4]}', flush=True)
    print(f'{a.file} {a.funcs} {a.checks}: {caught} of {len(ms)} caught ({total} mutants in all)', flush=True)


main()
