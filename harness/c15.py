import os
from resync.client import Client
from resync.dump import Dump, DumpError
from resync.mapper import Mapper
from resync.resource import Resource
from resync.resource_list import ResourceList

INFO = {
    'bounds': 'up to 4 resources (5 thorough) with symbolic sizes, declared lengths, file and size limits; files in directories of '
              'depth 0-3 (relative, absolute and with dot components) with symbolic one or two character names, including the name '
              'of the manifest; list or set of resources; compression on and off; separate manifests on and off; dump of '
              'scanned directory through the client',
    'outside': 'several resources with the same file or URI; WARC; file times outside the years 1980 to 2107 (refused by ZIP); '
               'files changing meanwhile',
}
SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
RS = '{http://www.openarchives.org/rs/terms/}'
T = 1577836800


def manifest_entries(doc):
    """[(uri, path, length)], capability of a manifest."""
    out, cap = [], None
    for k in doc.kids:
        if k.tag == RS + 'md':
            cap = dict(k.attrs).get('capability')
        if k.tag == SM + 'url':
            loc, atts = None, {}
            for x in k.kids:
                if x.tag == SM + 'loc':
                    loc = x.text
                elif x.tag == RS + 'md':
                    atts = dict(x.attrs)
            out.append((loc, atts.get('path'), atts.get('length')))
    return out, cap


def comps(path):
    """Absolute normalized components."""
    out = [] if path.startswith('/') else [c for c in os.getcwd().split('/') if c]
    for c in path.split('/'):
        if c == '..':
            out.pop()
        elif len(c) and c != '.':
            out.append(c)
    return out


def common(paths):
    """Number of leading directories all files share."""
    n = len(paths[0]) - 1
    for p in paths[1:]:
        n = min(n, len(p) - 1)
    for p in paths[1:]:
        i = 0
        while i < n and p[i] == paths[0][i]:
            i += 1
        n = i
    return n


def archives(env, base):
    """{file: members} of the archives written."""
    return {f: env.zip_members('out/' + f) for f in sorted(env.tree('out')) if f.startswith(base) and f.endswith('.zip')}


def check_archive(sx, members, rs, arc):
    """members of an archive are the manifest and the resources rs: [(uri, content, size, path)]."""
    env = sx.env
    sx.check(members is not None, 'the archive can be read')
    sx.check(len(members) == len(rs) + 1, 'an archive holds the manifest and its resources')
    man = [d for n, d in members if n == 'manifest.xml']
    sx.check(len(man) == 1, 'there is one member named as the manifest')
    doc = env.doc_of_text(man[0])
    sx.check(doc is not None, 'the manifest can be read')
    es, cap = manifest_entries(doc)
    sx.check(cap == 'resourcedump-manifest', 'the manifest is one')
    sx.check(len(es) == len(rs), 'the manifest has one entry for each resource')
    names = []
    for uri, content, size, path in rs:
        e = None
        for x in es:
            if x[0] == uri:
                e = x
        sx.check(e is not None, 'the manifest lists the resource')
        sx.check(e[1] is not None, 'with archive path')
        got = None
        for n, d in members:
            if n == e[1]:
                got = d
        sx.check(got is not None, 'the file is stored under the path listed')
        sx.check(got == content, 'it is the file of that resource')
        sx.check(e[2] is not None and int(e[2]) == size, 'the length listed is that of the file')
        want = arc(path)
        if want is not None:
            sx.check(e[1] == want, 'the archive path is relative to the common directory')
        sx.check(not e[1].startswith('/'), 'the archive path is relative')
        for c in e[1].split('/'):
            sx.check(c != '..', 'the archive path has no parent directory component')
        for n in names:
            sx.check(n != e[1], 'archive paths are distinct')
        names.append(e[1])


def check_separate(sx, a, base, separate):
    """Manifests beside the archives are those in the archives."""
    env = sx.env
    beside = sorted([f for f in env.tree('out') if f.startswith(base) and not f.endswith('.zip')])
    sx.check(beside == ([f[:-3] + 'xml' for f in sorted(a)] if separate else []),
             'a manifest is written beside each archive exactly if asked for')
    if separate:
        for f in a:
            doc = env.read_doc('out/' + f[:-3] + 'xml')
            sx.check(doc is not None, 'the manifest beside the archive can be read')
            es, cap = manifest_entries(doc)
            inside, cap2 = manifest_entries(env.doc_of_text([d for n, d in a[f] if n == 'manifest.xml'][0]))
            sx.check(cap == cap2 and len(es) == len(inside), 'the manifest beside the archive lists what that inside does')
            for x, y in zip(es, inside):
                for i, j in zip(x, y):
                    sx.check((i is None) == (j is None), 'the manifest beside the archive lists what that inside does')
                    if i is not None:
                        sx.check(i == j, 'the manifest beside the archive lists what that inside does')
            sx.reach('separate')


def p_paths(sx):
    """Archive paths for files anywhere."""
    env = sx.env
    env.mkdir('out')
    n = sx.choice('n', [1, 2, 3] if not sx.thorough else [1, 2, 3, 4])
    dirs = ['', 'd/', 'dd/', 'd/e/', './d/../d/', os.getcwd() + '/d/', '../']
    rs = []
    for i in range(n):
        d = sx.choice('dir%d' % i, (dirs if n < 3 or sx.thorough else ['', 'd/', 'd/e/']) if i < 2 else ['d/', 'd/e/', 'f/'])
        name = 'manifest.xml' if i == 0 and sx.flag('manifest') else sx.str(
            'name%d' % i, 'ade.' if n < 3 else 'de', 1, 2 if i == 0 and n < 3 else 1)
        sx.assume(sx.and_(name != '.', name != '..'))
        p = d + name
        c = comps(p)
        for q in rs:
            o = comps(q[3])
            k = min(len(c), len(o))
            same = True
            for x, y in zip(c[:k], o[:k]):
                if not x == y:
                    same = False
                    break
            sx.assume(not same)             # distinct files, none a directory of the other
        k = comps('out')
        sx.assume(c[:len(k)] != k)
        b = env.blob(i, i + 3)
        env.mkdir(d or '.')
        if i == 1 and n == 2 and sx.flag('link'):
            env.mkdir('elsewhere')
            env.mkfile('elsewhere/target', b, T + i)
            env.symlink(p, os.getcwd() + '/elsewhere/target')
            sx.reach('link')
        else:
            env.mkfile(p, b, T + i)
        rs.append(('http://h/%d' % i, b, i + 3, p))
    res = [Resource(u, path=p, length=s) for u, b, s, p in rs]
    if n != 2 or sx.flag('list'):
        container = res
    else:
        container = ResourceList()
        container.add(res)
    d = Dump(container, compress=n > 1 or sx.flag('compress'))
    separate = n == 1 and sx.flag('separate')
    o = sx.attempt(d.write, 'out/r', separate)
    sx.check(o.ok, 'the dump is written')
    sx.check(o.value == 1, 'the number of archives is returned')
    a = archives(env, 'r')
    sx.check(sorted(a) == ['r00000.zip'], 'one archive is written')
    cs = [comps(p) for u, b, s, p in rs]
    top = common(cs)
    clash = False
    for c in cs:
        if len(c) == top + 1 and c[-1] == 'manifest.xml':
            clash = True
    if clash:
        sx.reach('manifest')
    else:
        sx.reach('other')
    check_separate(sx, a, 'r', separate)
    check_archive(sx, a['r00000.zip'], rs, lambda p: '/'.join(comps(p)[top - (1 if clash else 0):]))
    if not clash and len(cs[0]) > top + 1:
        sx.reach('subdirectory')
    sx.observe('names', sorted(sx.concrete(x[0]) for x in a['r00000.zip']))


def p_limits(sx):
    """Partition over archives."""
    env = sx.env
    env.mkdir('out')
    n = sx.choice('n', [0, 1, 2, 3, 4] + ([5] if sx.thorough else []))
    max_size = sx.int('max_size', 1, 8)
    max_files = sx.int('max_files', 1, 4)
    rs = []
    res = []
    for i in range(n):
        if i < 2 and sx.flag('empty%d' % i):
            size, b = 0, b''
        else:
            size = sx.int('size%d' % i, 1, 4)
            b = env.blob(i, size)
        sx.assume(size <= max_size)
        p = 'd/%s/f' % 'badec'[i]
        env.mkfile(p, b, T)
        u = 'http://h/%d' % i
        rs.append((u, b, size, p))
        res.append(Resource(u, path=p, length=size if i % 2 == 0 and sx.flag('length%d' % i) else None))
    d = Dump(res)
    d.max_size = max_size
    d.max_files = max_files
    separate = n > 1 and sx.flag('separate')
    o = sx.attempt(d.write, 'out/r', separate)
    sx.check(o.ok, 'the dump is written')
    parts = [[]]
    total = 0
    for r in rs:
        if len(parts[-1]) >= max_files or total >= max_size and len(parts[-1]):
            parts.append([])
            total = 0
        parts[-1].append(r)
        total = total + r[2]
    if not rs:
        parts = []
    a = archives(env, 'r')
    sx.check(sorted(a) == ['r%05d.zip' % i for i in range(len(parts))], 'a new archive is started exactly when a limit is reached')
    sx.check(o.value == len(parts), 'the number of archives is returned')
    for i, p in enumerate(parts):
        check_archive(sx, a['r%05d.zip' % i], p, lambda p: p[2:] if n > 1 else None)
    check_separate(sx, a, 'r', separate)
    if len(parts) > 1:
        sx.reach('several')
    elif parts:
        sx.reach('one')
    else:
        sx.reach('none')
    sx.observe('n', [len(p) for p in parts])


def p_refuse(sx):
    """Nothing is written if a resource is not fit."""
    env = sx.env
    env.mkdir('out')
    n = sx.choice('n', [1, 2, 3])
    bad = sx.choice('bad', list(range(n)))
    how = sx.choice('how', ['nopath', 'missing', 'length', 'large', 'format'])
    max_size = sx.int('max_size', 4, 9)
    res = []
    for i in range(n):
        size = sx.int('size%d' % i, 1, 20)
        length = size if sx.flag('length%d' % i) else None
        p = 'd/%d' % i
        env.mkfile(p, env.blob(i, size), T)
        sx.assume((size > max_size) if i == bad and how == 'large' else (size <= max_size))
        if i == bad:
            if how == 'nopath':
                p = None
            elif how == 'missing':
                p = 'd/none'
            elif how == 'length':
                length = sx.int('wrong', 0, 21)
                sx.assume(length != size)
        res.append(Resource('http://h/%d' % i, path=p, length=length))
    d = Dump(res)
    d.max_size = max_size
    d.max_files = sx.choice('max_files', [1, 9])
    if how == 'format':
        d.format = sx.choice('format', ['odd', 'ZIP', ''])
    o = sx.attempt(d.write, 'out/r')
    sx.check(not o.ok, 'the dump is refused')
    sx.check(how == 'missing' or isinstance(o.exc, DumpError), 'with the error for dumps')
    sx.check(sorted(env.tree('out')) == [], 'before anything is written')
    sx.reach(how)


def p_client(sx):
    """Dump of the files on disk."""
    env = sx.env
    env.mkdir('out')
    rs = []
    for i, p in enumerate(['d/b', 'd/a/x', 'd/a/y']):
        if i == 0 or sx.flag('there%d' % i):
            size = sx.int('size%d' % i, 1, 5)
            b = env.blob(sx.int('tag%d' % i, 0, 3), size)
            env.mkfile(p, b, T)
            rs.append(('http://h/s' + p[1:], b, size, p))
    c = Client(hashes=['md5'] if sx.flag('md5') else [])
    c.mapper = Mapper(['http://h/s', 'd'])
    o = sx.attempt(c.write_resource_list, outfile='out/r', dump=True)
    sx.check(o.ok, 'the dump is written')
    a = archives(env, 'r')
    sx.check(sorted(a) == ['r00000.zip'], 'one archive is written')
    check_archive(sx, a['r00000.zip'], rs, lambda p: p[2:])
    sx.reach('done')


HARNESSES = [('paths', p_paths, {'expect': ['manifest', 'other', 'subdirectory', 'link']}),
             ('limits', p_limits, {'expect': ['several', 'one', 'none', 'separate']}),
             ('refuse', p_refuse, {'expect': ['nopath', 'missing', 'length', 'large', 'format']}),
             ('client', p_client, {'expect': ['done']})]
