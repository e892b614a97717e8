#!/usr/bin/env python3
"""Small mechanical changes to the code under test: which of those that the stable tests let pass do the checks report?

usage: mutate.py list FILE...                 the changes, one per line
       mutate.py run WORKDIR [FILTER] [N]     test N of them at random (those whose name has FILTER), results in WORKDIR/results.jsonl

Works on copies in WORKDIR (should be a memory file system) and a copy of /verif; the tests run in namespaces of their own.
"""
import ast, glob, json, os, random, re, shutil, subprocess, sys, threading

REPO, VERIF = '/repo', '/verif'
FILES = sorted(os.path.relpath(f, REPO) for f in glob.glob(REPO + '/resync/*.py')) + ['resync-build', 'resync-explorer', 'resync-sync']
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
       ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
QUIET = re.compile(r'\blog(ger)?\.(debug|info|warning|error)|^\s*raise\b')


def mutants(f):
    src = open(os.path.join(REPO, f)).read()
    tree = ast.parse(src)
    offs = [0]
    for l in src.encode().split(b'\n'):
        offs.append(offs[-1] + len(l) + 1)
    raw = src.encode()
    mod = 'resync.' + os.path.basename(f)[:-3] if f.endswith('.py') else f
    out = []

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def add(n, new, what, q):
        a, b = pos(n)
        m = raw[:a] + new.encode() + raw[b:]
        try:
            t = ast.parse(m)
        except SyntaxError:
            return
        if ast.dump(t) == ast.dump(tree):
            return
        out.append({'id': '%s:%d:%d %s' % (f, n.lineno, len(out), what), 'file': f, 'line': n.lineno, 'func': q, 'old': raw[a:b].decode(),
                    'new': new, 'src': m.decode()})

    def visit(n, q, quiet):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = q + '.' + n.name
        if isinstance(n, ast.FunctionDef) and n.name in ('write_warc', '__repr__') and 'ChangeType' in q + n.name + 'write_warc' and n.name == 'write_warc':
            return
        body = []
        for k in ('body', 'orelse', 'finalbody'):
            body += [x for x in getattr(n, k, []) if isinstance(x, ast.stmt)] if isinstance(getattr(n, k, None), list) else []
        for s in body:
            t = text(s)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) and not QUIET.search(t) \
                    and not isinstance(n, (ast.Module, ast.ClassDef)):
                add(s, 'pass', 'drop `%s`' % t.split('\n')[0][:60], q)
            if isinstance(s, ast.Raise):
                add(s, 'pass', 'drop raise', q)
            if isinstance(s, ast.Return) and s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                add(s, 'return None', 'return None', q)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, 'True', 'cond True', q)
            add(n.test, 'False', 'cond False', q)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            for o in CMP[type(n.ops[0])]:
                add(n, '(%s %s %s)' % (l, o, r), 'cmp %s' % o, q)
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(' + text(v) + ')' for v in n.values) + ')', 'boolop' + op, q)
            same = ' and ' if isinstance(n.op, ast.And) else ' or '
            for i in range(len(n.values)):
                add(n, '(' + same.join('(' + text(v) + ')' for j, v in enumerate(n.values) if j != i) + ')', 'drop operand %d' % i, q)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(' + text(n.operand) + ')', 'drop not', q)
        if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv) and not quiet:
            o = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/'}[type(n.op)]
            if not isinstance(n.left, ast.Constant) or not isinstance(n.left.value, str):
                add(n, '(%s %s %s)' % (text(n.left), o, text(n.right)), 'binop ' + o, q)
        if isinstance(n, ast.Constant) and not quiet and q != mod:
            if n.value is True or n.value is False:
                add(n, str(not n.value), 'bool', q)
            elif isinstance(n.value, (int, float)):
                add(n, str(n.value + 1), 'const+1', q)
                if n.value:
                    add(n, '(%s)' % (n.value - 1), 'const-1', q)
            elif isinstance(n.value, str) and n.value and '\n' not in text(n):
                add(n, repr(n.value + 'X'), 'str %r' % n.value[:30], q)
        if isinstance(n, ast.Call) and not quiet:
            for i, k in enumerate(n.keywords):
                if k.arg:
                    rest = [text(a) for a in n.args] + ['%s=%s' % (x.arg, text(x.value)) if x.arg else '**' + text(x.value)
                                                        for x in n.keywords if x is not k]
                    add(n, '%s(%s)' % (text(n.func), ', '.join(rest)), 'drop arg %s' % k.arg, q)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            qt = quiet or isinstance(c, ast.stmt) and bool(QUIET.search(text(c))) and not hasattr(c, 'body')
            visit(c, q, qt)
    visit(tree, mod, False)
    return out


def checks_for(m):
    got = []
    for fn in glob.glob(VERIF + '/evidence/C*.json'):
        e = json.load(open(fn))
        fs = e['coverage']['functions_encoded']
        if not m['file'].endswith('.py') or any(x == m['func'] or x.startswith(m['func'] + '.') for x in fs):
            if m['file'].endswith('.py') or e['property'] == 'C30':
                got.append((e.get('wall_s') or e['coverage'].get('wall_s') or 20, e['property']))
    return [p for _, p in sorted(got)]


def stable_ok(d, out):
    subprocess.run(['unshare', '-Urnm', 'sh', '-c', 'ip link set lo up; mount --bind %s /repo; mount -t tmpfs tmpfs /tmp; '
                    'timeout 120 bash /opt/vp/test.sh %s >/dev/null 2>&1' % (d, out)])
    try:
        ps = set(json.load(open(out))['passed'])
    except Exception:
        return False
    return all(x in ps for x in json.load(open('/opt/vp/BASELINE.json'))['stable'])


def main():
    if sys.argv[1] == 'list':
        for f in sys.argv[2:] or FILES:
            for m in mutants(f):
                print(m['id'], '|', m['func'])
        return
    work = sys.argv[2]
    flt = sys.argv[3] if len(sys.argv) > 3 else ''
    num = int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 6
    os.makedirs(work, exist_ok=True)
    res = work + '/results.jsonl'
    done = set(json.loads(l)['key'] for l in open(res)) if os.path.exists(res) else set()
    ms = [m for f in FILES for m in mutants(f) if re.search(flt, m['id'] + ' ' + m['func'])]
    for m in ms:
        m['key'] = '%s|%s|%s|%s' % (m['file'], m['line'], m['old'], m['new'])
    ms = [m for m in ms if m['key'] not in done and 'write_warc' not in m['func'] and 'help' not in m['id']]
    random.Random(os.environ.get('SEED', '1')).shuffle(ms)
    ms = ms[:num]
    print(len(ms), 'changes', flush=True)
    lock = threading.Lock()
    only = os.environ.get('TESTS_ONLY')

    def worker(k, procs):
        d, v = '%s/r%d' % (work, k), '%s/v%d' % (work, k)
        for x in (d, v):
            shutil.rmtree(x, ignore_errors=True)
        subprocess.run(['cp', '-a', REPO, d], check=True)
        subprocess.run(['cp', '-a', VERIF, v], check=True)
        while True:
            with lock:
                if not ms:
                    break
                m = ms.pop()
            fn = os.path.join(d, m['file'])
            keep = open(fn).read()
            open(fn, 'w').write(m['src'])
            r = {k2: m[k2] for k2 in ('key', 'id', 'func', 'old', 'new')}
            try:
                if m.get('survives') or stable_ok(d, '%s/o%d.json' % (work, k)):
                    r['result'] = 'survives'
                    if not only:
                        r['result'], r['by'] = 'missed', []
                        for p in checks_for(m):
                            x = subprocess.run(['python3-vt', '-m', 'symx.run', p, 'quick', '--budget', '400'], cwd=v, capture_output=True,
                                               text=True, env=dict(os.environ, SYMX_REPO=d, SYMX_PROCS=str(procs)))
                            if x.returncode == 1:
                                r['result'] = 'caught ' + p
                                break
                            if x.returncode:
                                r['by'].append('%s rc=%d' % (p, x.returncode))
                else:
                    r['result'] = 'tests'
            finally:
                open(fn, 'w').write(keep)
            with lock:
                open(res, 'a').write(json.dumps(r) + '\n')
                if r['result'] != 'tests':
                    print(r['result'], r['id'], '|', r['func'], r.get('by', ''), flush=True)
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)
    n = int(os.environ.get('WORKERS', '8' if only else '4'))
    ts = [threading.Thread(target=worker, args=(k, 8 // n if n < 8 else 1)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == '__main__':
    main()
