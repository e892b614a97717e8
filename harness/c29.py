import os
from resync.explorer import Explorer, XResource, ExplorerQuit
from resync.client_utils import ClientFatalError
from .lib import BASE, entry, listing, when
from .c24 import resolve

INFO = {
    'bounds': 'one listed resource, in a local or web list, with every combination of expected and actual length, time and type, '
              'symbolic in lengths of 0-12, times of 0-9 seconds with and without fraction, and types of one symbolic character; '
              'all document types with entries of all types; expected types; references of 1-3 (quick) or 1-4 (thorough) symbolic '
              'characters over a letter, dot and slash, and absolute ones; lists of up to 23 entries',
    'outside': 'web dates in formats other than the HTTP one (compared to the second); dump manifests (not capability documents '
               'of the explorer); references with query or fragment',
}
DAY = 'Wed, 01 Jan 2020 00:00:0%d GMT'
BASETYPES = ['resourcelist', 'changelist', 'resourcedump', 'changedump']
ARCHIVES = [t + '-archive' for t in BASETYPES]
# What entries of each kind of document are, from the specification
ALLOWED = {'descriptionindex': ['description'], 'description': ['capabilitylist'], 'capabilitylist': BASETYPES + ARCHIVES}
for t in BASETYPES:
    ALLOWED[t] = []               # resources, not documents
    ALLOWED[t + 'index'] = [t]
    ALLOWED[t + '-archive'] = [t]


def web(sx, table):
    def handler(rec):
        for u, v in table:
            if rec['url'] == u:
                return v
        return OSError('HTTP Error 404: Not Found')
    sx.env.handler = handler


def explorer(sx):
    return Explorer()


def follow(sx, e, xr, inputs, back=False):
    """Outcome of exploring and the lines shown."""
    env = sx.env
    env.inputs[:] = inputs
    start = len(env.out)
    o = sx.attempt(e.explore_uri, xr, back)
    return o, env.out[start:]


def has(sx, lines, text):
    return any([type(l) is type(text) and l == text or l == text for l in lines])


def p_head(sx):
    """Headers shown for a resource chosen from a list."""
    env = sx.env
    place = sx.choice('place', ['local', 'web', 'file:'])
    # expected
    md, lastmod, exp = {}, None, {}
    if sx.flag('elen'):
        exp['content-length'] = sx.int('elen.n', 0, 12)
        md['length'] = '%d' % exp['content-length']
    frac = ''
    if sx.flag('etime'):
        frac = sx.choice('frac', ['', '.5'])
        lastmod, ts = when(sx, 'ets', 0, 9, frac)
        exp['last-modified'] = ts
    if sx.flag('etype'):
        exp['content-type'] = md['type'] = 'text/' + sx.str('etype.c', 'aA;', 1, 2)
    # actual
    act = {}
    want = []
    if place == 'local':
        uri = 'x/r'
        half = sx.flag('half')
        size = sx.int('size', 1, 12)
        d = sx.int('mtime', 0, 9)
        env.mkfile('x/r', env.blob(1, size), BASE + d + (0.5 if half else 0))
        act = {'content-length': size, 'last-modified': BASE + d + (0.5 if half else 0)}
        text = {'content-length': '%d' % size,
                'last-modified': '2020-01-01T00:00:0%d%sZ' % (d, '.500000' if half else '')}
        same = {'last-modified': 'last-modified' in exp and act['last-modified'] == exp['last-modified']}
    elif place == 'file:':
        size = sx.int('size', 1, 12)
        d = sx.int('mtime', 0, 9)
        env.mkfile('x/r', env.blob(1, size), BASE + d)
        uri = 'file://' + os.getcwd() + '/x/r'
        act = {'content-length': size, 'last-modified': BASE + d}
        text = {'content-length': '%d' % size, 'last-modified': DAY % d}
        same = {'last-modified': 'last-modified' in exp and exp['last-modified'] - (0.5 if frac else 0) == BASE + d}
        text['content-type'] = 'text/plain'
        same['content-type'] = False
    else:
        uri = 'http://h/r'
        text, same = {}, {}
        if sx.flag('alen'):
            act['content-length'] = sx.int('alen.n', 0, 12)
            text['content-length'] = '%d' % act['content-length']
        if sx.flag('atime'):
            d = sx.int('ats', 0, 9)
            text['last-modified'] = DAY % d
            same['last-modified'] = 'last-modified' in exp and exp['last-modified'] - BASE - (0.5 if frac else 0) == d
        if sx.flag('atype'):
            text['content-type'] = 'text/' + sx.str('atype.c', 'aA;', 1, 3 if sx.thorough else 2)
            same['content-type'] = 'content-type' in exp and text['content-type'] == exp['content-type']
        if sx.flag('etag'):
            text['etag'] = '"' + sx.strn('etag.c', 'ab', 1) + '"'
    if 'content-length' in act and 'content-length' in exp:
        same['content-length'] = act['content-length'] == exp['content-length']
    doc = env.xml(listing(sx, 'resourcelist', [entry(sx, uri, lastmod=lastmod, **md)]))
    if place == 'web':
        heads = dict((k.title(), v) for k, v in text.items())
        web(sx, [('http://h/l.xml', sx.Response(doc)), (uri, sx.Response(b'', headers=heads))])
        where = 'http://h/l.xml'
    else:
        env.mkfile('l.xml', doc, BASE)
        where = 'l.xml'
    e = explorer(sx)
    o, lines = follow(sx, e, XResource(where), ['z', '1'])
    sx.check(o.ok, 'the list is explored')
    xr = o.value
    if len(exp) == 0 and sx.flag('direct'):         # asked for without a list
        xr = XResource(uri, 'resource')
    o, lines = follow(sx, e, xr, ['b'], True)
    sx.check(o.ok and o.value is None, 'the resource is explored')
    shown = [l for l in lines if l.startswith('  ')]
    sx.check(shown[0] == '  status: 200', 'the status is shown')
    shown = shown[1:]
    if place == 'web':
        recs = [r for r in env.requests if r['url'] == uri]
        sx.check(len(recs) == 1 and recs[0]['method'] == 'HEAD', 'the resource is asked for by HEAD')
    for h in ('content-length', 'last-modified', 'content-type', 'etag'):
        hit = [l for l in shown if l.startswith('  ' + h + ': ')]
        if h not in text:
            if not (place == 'file:' and h == 'content-type'):
                sx.check(len(hit) == 0, 'only headers present are shown')
            continue
        sx.check(len(hit) == 1, 'each known header present is shown')
        l = hit[0]
        base = '  ' + h + ': ' + text[h]
        if h not in exp:
            sx.check(l == base, 'as it is if nothing is expected')
            sx.reach('plain')
        elif l.endswith(' MATCHES EXPECTED VALUE'):
            sx.check(sx.and_(l == base + ' MATCHES EXPECTED VALUE', same[h]), 'marked as matching only if it is the same value')
            sx.reach('match ' + h)
        else:
            sx.check(sx.not_(same[h]), 'marked as matching if it is the same value')
            if h == 'content-length':
                ex = '%d' % exp[h]
            elif h == 'content-type':
                ex = exp[h]
            else:
                ex = '%s%sZ' % (lastmod[:19], '.500000' if frac else '')
            sx.check(l == base + ' EXPECTED ' + ex, 'otherwise the expected value is shown')
            sx.reach('mismatch ' + h)
    sx.reach(place)


def p_missing(sx):
    """Resources that cannot be read."""
    env = sx.env
    place = sx.choice('place', ['local', 'web', 'file:', 'dir'])
    uri = {'local': 'x/' + sx.strn('n', 'ab', 1), 'web': 'http://h/' + sx.strn('m', 'ab', 1),
           'file:': 'file://' + os.getcwd() + '/nothing', 'dir': 'd'}[place]
    env.mkdir('d')
    web(sx, [])
    o, lines = follow(sx, explorer(sx), XResource(uri, 'resource', {'content-length': 3}), ['b'], True)
    sx.check(o.ok and o.value is None, 'the user can go back')
    sx.check(not has(sx, lines, '  status: 200'), 'no success is shown')
    sx.check(not any([l.startswith('  content-') or l.startswith('  last') for l in lines]), 'and no headers')
    sx.reach(place)


TYPES = list(ALLOWED) + ['capabilitylistindex', 'other', 'none']


def document(sx, cap, entries, more=()):
    root, c = 'urlset', cap
    if cap.endswith('index'):
        root, c = 'sitemapindex', cap[:-5]
    md = [('capability', c)] if cap != 'none' else []
    kids = [sx.E('rs:md', md)] if md else []
    tag = 'url' if root == 'urlset' else 'sitemap'
    return sx.env.xml(sx.E('sm:' + root, [], None, kids + list(more) + [entry(sx, u, tag=tag, capability=k) for u, k in entries]))


def p_types(sx):
    """Entry types offered and documents flagged."""
    env = sx.env
    cap = sx.choice('type', TYPES)
    kinds = [None, 'capabilitylist', 'description', 'resourcelist', 'changedump', 'resourcedump-archive', 'odd', 'resource']
    es = []
    for i in range(sx.choice('entries', [0, 1, 2])):
        es.append(('http://h/' + sx.strn('n%d' % i, 'ab', 1) + '%d' % i, sx.choice('k%d' % i, kinds if i == 0 else kinds[:4])))
    acc = sx.choice('acc', [None, 'same', 'other', 'two'])
    accept = None if acc is None else [cap] if acc == 'same' else ['resourcelist', cap] if acc == 'two' else ['odd']
    local = sx.flag('local')
    if local:
        env.mkfile('doc.xml', document(sx, cap, es), BASE)
        loc = 'doc.xml'
    else:
        loc = 'http://h/doc.xml'
        web(sx, [(loc, sx.Response(document(sx, cap, es)))])
    allowed = ALLOWED.get(cap, [])
    e = explorer(sx)
    e.verbose = sx.flag('verbose') if acc is None and not local else False
    pick = sx.choice('pick', ['q'] + [str(i + 1) for i in range(len(es))])
    o, lines = follow(sx, e, XResource(loc, accept), ['9', pick, 'q'])
    parsed = [l for l in lines if l.startswith('Parsed ')]
    sx.check(len(parsed) == 1, 'the document is read')
    name = '(unknown capability)' if cap == 'none' else cap
    sx.check(parsed[0] == 'Parsed %s document with %d entries:' % (name, len(es)), 'its type is shown')
    flagged = [l for l in lines if l.startswith('WARNING - expected a ')]
    sx.check(len(flagged) == (1 if acc == 'other' or cap == 'none' and acc in ('same', 'two') else 0), 'documents of other types are flagged')
    if flagged:
        sx.check(flagged[0] == 'WARNING - expected a %s document' % ','.join(accept), 'with the types expected')
        sx.reach('flagged')
    unknown = [l for l in lines if l.startswith('WARNING - unknown ')]
    sx.check(len(unknown) == (0 if cap in ALLOWED else 1), 'unknown document types are flagged')
    at = [i for i, l in enumerate(lines) if l.startswith('[')]
    sx.check(len(at) == len(es), 'each entry is shown')
    for n, ((u, k), i) in enumerate(zip(es, at)):
        sx.check(lines[i] == '[%d] %s' % (n + 1, u), 'each entry is offered by number')
        if e.verbose:
            i = i + 1
            sx.check(lines[i] == '  [ %s | None | None | None ]' % u, 'with what is known of it')
        rest = lines[i + 1] if i + 1 < len(lines) and lines[i + 1].startswith('  ') else None
        if k is None:
            if len(allowed) == 1:
                sx.check(rest == '  capability not specified, should be ' + allowed[0], 'the only type allowed is supplied')
            else:
                sx.check(rest is None, 'nothing is said about entries that are resources')
        elif k in allowed:
            sx.check(rest == '  ' + k, 'an allowed entry type is shown')
        else:
            head = '  %s (EXPECTED ' % k
            sx.check(rest is not None and rest.startswith(head), 'an entry type that is not allowed is flagged')
            sx.check(sorted(rest[len(head):-1].split(' or ')) == sorted(allowed or ['']), 'with the types allowed')
    if pick == 'q':
        sx.check(o.kind == 'ExplorerQuit', 'the user can quit')
        sx.reach('quit')
        return
    u, k = es[int(pick) - 1]
    sx.check(o.ok and o.value.uri == u, 'the entry chosen is followed')
    got = o.value.acceptable_capabilities
    if k == 'resource':
        want = 'resource'
    elif k is not None:
        want = [k]
    elif cap in BASETYPES:
        want = 'resource'
    else:
        want = allowed
    if cap in ALLOWED or k is not None:
        sx.check(isinstance(got, str) == isinstance(want, str) and (got == want if isinstance(want, str) else set(got) == set(want)),
                 'and expected to be what the entry type says')
    sx.reach('followed')


def p_refs(sx):
    """References are resolved against the document."""
    env = sx.env
    form = sx.choice('form', ['relative', 'name', 'absolute'])
    if form == 'relative':
        ref = sx.str('ref', 'a./', 1, 4 if sx.thorough else 3)
        sx.assume('//' not in ref)
    elif form == 'name':
        ref = sx.choice('up', ['', '../', '/', './', '../../../']) + sx.strn('n', 'ab', 1) + '/c.xml'
    else:
        ref = sx.choice('abs', ['http://o/', 'https://h/', 'ftp://h/x']) + sx.strn('n', 'ab', 1)
    doc = 'http://h/x/y/doc.xml'
    key = sx.choice('key', ['1', 'u', 'i', 'd'])
    rel = {'u': 'up', 'i': 'index', 'd': 'describedby'}.get(key)
    if rel:
        es = [('http://h/e', None)]
        more = [sx.E('rs:ln', [('rel', rel), ('href', ref)])]
        if sx.flag('others'):
            more = [sx.E('rs:ln', [('rel', x), ('href', 'http://h/' + x)]) for x in ('up', 'index', 'describedby') if x != rel] + more
    else:
        es, more = [(ref, None)], []
    web(sx, [(doc, sx.Response(document(sx, 'resourcelist', es, more)))])
    want = ref if form == 'absolute' else resolve(doc, ref)
    o, lines = follow(sx, explorer(sx), XResource(doc), [key])
    sx.check(o.ok, 'the reference can be followed')
    sx.check(o.value.uri == want, 'references are resolved against the document that contains them')
    a = o.value.acceptable_capabilities
    sx.check(a is None if key in 'ui' else a == 'resource', 'and read as what they refer to')
    sx.reach(key)


def p_local(sx):
    """References in local documents lead to the files they name."""
    env = sx.env
    where = sx.choice('where', ['x/', '', 'x/y/', 'full/', 'file:'])
    name = sx.strn('name', 'a #?', 1) if where in ('x/', 'full/') else 'n'
    dirs = {'x/': 'x' + name + '/', '': '', 'x/y/': 'x/y/', 'full/': 'f' + name + '/', 'file:': 'x/'}[where]
    loc = dirs + 'doc.xml'
    ref = sx.choice('ref', ['r.xml', '../r.xml', './s/r.xml', 'abs'])
    up = '' if '/' not in dirs else dirs[:-1].rpartition('/')[0]
    up = up + '/' if up else ''
    if dirs == '':
        sx.assume(ref != '../r.xml')
    target = {'r.xml': dirs + 'r.xml', '../r.xml': up + 'r.xml', './s/r.xml': dirs + 's/r.xml', 'abs': 'q/r.xml'}[ref]
    if ref == 'abs':
        ref = os.getcwd() + '/q/r.xml'
        if where == 'file:':
            ref = 'file://' + ref
    env.mkfile(loc, document(sx, 'capabilitylist', [(ref, 'resourcelist')]), BASE)
    n = sx.int('n', 1, 3)
    env.mkfile(target, document(sx, 'resourcelist', [('http://h/%d' % n, None)]), BASE)
    if where == 'file:':
        loc = 'file://' + os.getcwd() + '/' + loc
    elif where == 'full/':
        loc = os.getcwd() + '/' + loc
    e = explorer(sx)
    o, lines = follow(sx, e, XResource(loc), ['1'])
    sx.check(o.ok, 'the reference can be followed')
    o, lines = follow(sx, e, o.value, ['1'], True)
    sx.check(o.ok, 'the document it names is read')
    sx.check(has(sx, lines, 'Parsed resourcelist document with 1 entries:'), 'as the resource list it is')
    sx.check(has(sx, lines, '[1] http://h/%d' % n), 'from the place named')
    sx.reach(where)


def p_many(sx):
    """Long documents: the first entries are shown."""
    env = sx.env
    n = sx.choice('n', [20, 21, 22, 23])
    es = [('http://h/%d/' % i + sx.strn('n%d' % i, 'ab', 1), None) for i in range(n)]
    web(sx, [('http://h/doc.xml', sx.Response(document(sx, 'changelist', es)))])
    pick = sx.choice('pick', ['1', '20', '21', '22'])
    o, lines = follow(sx, explorer(sx), XResource('http://h/doc.xml'), [pick, '2'])
    top = n if n <= 21 else 20
    for i in range(n):
        sx.check(has(sx, lines, '[%d] %s' % (i + 1, es[i][0])) == (i < top), 'the entries shown are the first')
    hidden = [l for l in lines if 'not showing' in l]
    sx.check(len(hidden) == (1 if n > top else 0), 'it is said that entries are not shown')
    if hidden:
        sx.check('%d' % (n - top) in hidden[0], 'and how many')
        sx.reach('cut')
    k = int(pick) if int(pick) <= top else 2
    sx.check(o.ok and o.value.uri == es[k - 1][0], 'numbers shown are offered and others not')
    sx.reach('done')


def reading(lines):
    return [l[len('Reading '):] for l in lines if l.startswith('Reading ')]


def p_starts(sx):
    """Where the explorer starts, and that documents of the right type are not flagged."""
    env = sx.env
    e = explorer(sx)
    kind = sx.choice('kind', ['sitemap', 'host', 'path', 'dir', 'file', 'nothing'])
    c = sx.strn('c', 'ab#', 1)
    wk = 'http://h/.well-known/resourcesync'
    types = {}
    if kind == 'sitemap':
        want = ['http://h/' + c + '.xml']
        e.sitemap_name = want[0]
        if sx.flag('map'):
            e.set_mappings(['http://o/x=d'])
    elif kind == 'host':
        e.set_mappings(['http://h=d'])
        want = [wk]
    elif kind == 'path':
        q = sx.choice('query', ['', '?k', '/?'])
        e.set_mappings(['http://h/x' + c + q + '=d'])
        want = ['http://h/x' + c + q, wk]
        sx.assume(c != '#')
    elif kind == 'dir':
        env.mkdir('l' + c)
        sx.assume(c != '#')
        want = []
        for n in ('resourcesync', 'capabilities.xml', 'resourcelist.xml', 'changelist.xml', 'other.xml'):
            if sx.flag(n):
                if n != 'other.xml':
                    want.append('l' + c + '/' + n)
                env.mkfile('l' + c + '/' + n, document(sx, 'capabilitylist', []), BASE)
        e.set_mappings(['l' + c + '=d'])
    elif kind == 'file':
        sx.assume(c != '#')
        env.mkfile('l' + c + '/z', document(sx, 'capabilitylist', []), BASE)
        want = ['l' + c + '/z']
        e.set_mappings(['l' + c + '/z=d'])
    else:
        want = None
    if want is None or not want:
        o = sx.attempt(e.explore)
        sx.check(o.kind == 'ClientFatalError' and len(reading(env.out)) == 0, 'nothing to start from is reported')
        sx.reach('nothing')
        return
    t = sx.choice('type', ['description', 'descriptionindex', 'capabilitylist', 'resourcelist'])
    if kind not in ('dir', 'file'):
        web(sx, [(u, sx.Response(document(sx, t, []))) for u in want])
    k = sx.choice('quit', range(len(want) + 1))     # documents left by going back before the end
    env.inputs[:] = ['b'] * k + ['q']
    o = sx.attempt(e.explore)
    sx.check(o.ok, 'the user can quit')
    got = reading(env.out)
    sx.check(len(got) == min(k + 1, len(want)), 'every starting point is offered in turn until the user quits')
    for a, b in zip(got, want):
        sx.check(a == b, 'starting points are the documented ones in order')
    if got[-1] == wk:
        flagged = [l for l in env.out if l.startswith('WARNING - expected a ')]
        sx.check((len(flagged) == 0) == t.startswith('description'), 'a source description is expected at the well-known location')
        sx.reach('well-known')
    else:
        sx.check(not any([l.startswith('WARNING - expected a ') for l in env.out]), 'any document is accepted elsewhere')
    sx.reach(kind)


def p_history(sx):
    """Going back leads to the document from which the present one was reached."""
    env = sx.env
    docs = {'http://h/0': ('description', ['http://h/1', 'http://h/2']), 'http://h/1': ('capabilitylist', ['http://h/3']),
            'http://h/2': ('capabilitylist', ['http://h/3', 'http://h/4']), 'http://h/3': ('resourcelist', ['http://h/5']),
            'http://h/4': ('changelist', []), 'http://h/5': None}

    def handler(rec):
        d = docs.get(rec['url'])
        if d is None:
            return sx.Response(b'', headers={'Content-Length': '3'})
        es = []
        for u in d[1]:
            es.append((u, {'http://h/3': 'resourcelist', 'http://h/4': 'changelist'}.get(u) if d[0] == 'capabilitylist' else
                       'capabilitylist' if d[0] == 'description' else None))
        return sx.Response(document(sx, d[0], es, [sx.E('rs:ln', [('rel', 'up'), ('href', 'http://h/0')])]))
    env.handler = handler
    e = explorer(sx)
    e.sitemap_name = 'http://h/0'
    inputs, want, stack = [], ['http://h/0'], ['http://h/0']
    if sx.flag('long'):         # on for a while, back for a while, and on and back once more
        on = sx.choice('on', [3, 4, 5, 6] if sx.thorough else [3, 4])
        plan = [['1', '2', 'u'] if i == 0 or i > 3 else ['1', 'u'] for i in range(on)]
        plan += [['b']] * sx.choice('back', range(1, on + 1)) + [['1', 'u'], ['b'], ['b']]
    else:
        plan = [['1', '2', 'b', 'u', 'x']] * sx.choice('n', [1, 2, 3, 4, 5] if sx.thorough else [1, 3, 4])
    for i in range(len(plan)):
        d = docs[stack[-1]]
        k = sx.choice('i%d' % i, plan[i])
        inputs.append(k)
        if k == 'b':
            stack.pop()
            if not stack:
                break
            want.append(stack[-1])
        elif k == 'u' and d is not None:
            stack.append('http://h/0')
            want.append('http://h/0')
        elif k in '12' and d is not None and int(k) <= len(d[1]):
            stack.append(d[1][int(k) - 1])
            want.append(stack[-1])
    env.inputs[:] = inputs + ['q']
    o = sx.attempt(e.explore)
    sx.check(o.ok, 'the user can leave')
    got = reading(env.out)
    sx.check(got == want, 'entries chosen are followed, and going back leads to the document before')
    sx.check(not any([l.startswith('WARNING - expected') for l in env.out]), 'documents of the type announced are not flagged')
    sx.reach('left' if not stack else 'done')


HARNESSES = [('head', p_head, {'expect': ['plain', 'match content-length', 'match last-modified', 'match content-type',
                                          'mismatch content-length', 'mismatch last-modified', 'mismatch content-type',
                                          'local', 'web', 'file:']}),
             ('missing', p_missing, {'expect': ['local', 'web', 'file:', 'dir']}),
             ('types', p_types, {'expect': ['flagged', 'quit', 'followed']}),
             ('refs', p_refs, {'expect': ['1', 'u', 'i', 'd']}),
             ('local', p_local, {'expect': ['x/', '', 'x/y/', 'full/', 'file:']}), ('many', p_many, {'expect': ['cut', 'done']}),
             ('starts', p_starts, {'expect': ['nothing', 'well-known', 'sitemap', 'host', 'path', 'dir', 'file']}),
             ('history', p_history, {'expect': ['left', 'done']})]
