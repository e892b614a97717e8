from resync.capability_list import CapabilityList
from resync.change_dump import ChangeDump
from resync.change_list import ChangeList
from resync.client import Client
from resync.mapper import Mapper
from resync.resource_dump import ResourceDump
from resync.resource_list import ResourceList
from resync.source_description import SourceDescription
from .lib import BASE, ROOT, WIDE

INFO = {
    'bounds': 'capability lists of 0-3 names with symbolic names and URIs, source descriptions of 0-3 symbolic URIs, resource lists '
              'of 0-3 files (symbolic times and sizes, hashes or not, excluded or not, all or only files and directories named), empty change lists; 0-2 '
              'links with symbolic relation, target and attribute; written to standard output or a file, plain or pretty',
    'outside': 'lists that need several files (C13); dumps (C15); change lists between two states (C20); repeated URIs other than '
               'that they are refused; files both named explicitly and excluded',
    'assumptions': [],
}
SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
RS = '{http://www.openarchives.org/rs/terms/}'
TEXT = WIDE.replace(' ', '').replace('\n', '')


def links(sx, k):
    out = []
    for i in range(k):
        l = {'rel': ['up', 'describedby', 'x'][i] if i else sx.strn('rel', TEXT, 2), 'href': 'http://h/' + sx.strn('href%d' % i, TEXT, 2)}
        if i == 0 and sx.flag('att'):
            l['type'] = sx.strn('type', TEXT, 2)
        out.append(l)
    return out


def output(sx, client, call, *args, **kw):
    """Runs the operation; returns (document, outcome)."""
    env = sx.env
    to_file = sx.flag('file')
    name = sx.choice('outname', ['out.xml', '-', 'n']) if to_file else 'out.xml'
    client.pretty_xml = sx.flag('pretty')
    env.mkfile('other', 'kept', BASE)
    n = len(env.out)
    o = sx.attempt(call, *args, outfile=name if to_file else None, **kw)
    if not o.ok:
        return None, o
    if to_file:
        sx.check(len(env.out) == n, 'nothing is shown if an output file is given')
        doc = env.read_doc(name)
        sx.reach('file')
    else:
        sx.check(env.kind('out.xml') is None and len(env.effects) == 0, 'no file is written if none is given')
        sx.check(len(env.out) == n + 1, 'one document is shown')
        doc = env.doc_of_text(env.out[n])
        sx.reach('shown')
    for x in env.effects:
        sx.check(x[1] == name, 'no other file is changed')
    sx.check(doc is not None, 'an XML document is written')
    return doc, o


def verify(sx, doc, capability, ls, entries):
    """entries: [(uri, capability or None)], in any order."""
    sx.check(doc.tag == SM + 'urlset', 'the document is a list')
    md = [k for k in doc.kids if k.tag == RS + 'md']
    sx.check(len(md) == 1 and md[0].get('capability') == capability, 'the document has the type asked for')
    got = [dict(k.attrs) for k in doc.kids if k.tag == RS + 'ln']
    sx.check(len(got) == len(ls), 'the document has the links given')
    for g, l in zip(got, ls):
        sx.check(sorted(g) == sorted(l), 'the links have the attributes given')
        for k in l:
            sx.check(g[k] == l[k], 'the links have the values given')
    urls = [k for k in doc.kids if k.tag == SM + 'url']
    sx.check(len(urls) == len(entries), 'the document has as many entries as given')
    for uri, cap in entries:
        alts = []
        for u in urls:
            loc = [k for k in u.kids if k.tag == SM + 'loc']
            m = [dict(k.attrs).get('capability') for k in u.kids if k.tag == RS + 'md']
            c = m[0] if m else None
            if (c is None) == (cap is None):
                alts.append(sx.and_(loc[0].text == uri, True if cap is None else c == cap))
        sx.check(sx.or_(*alts), 'every entry given is in the document')
    return urls


def client(mapped=True, **kw):
    c = Client(**kw)
    if mapped:
        c.mapper = Mapper([ROOT, 'd'])
    return c


def p_capabilities(sx):
    k = sx.choice('k', [None, 0, 1, 2, 3])
    caps = None
    es = []
    if k is not None:
        caps = {}
        for i in range(k):
            nm = 'resourcelist' if i == 1 else sx.strn('name', TEXT, 3) if i == 0 else 'changelist-archive'
            uri = 'http://h/' + sx.strn('u%d' % i, TEXT, 2)
            es.append((uri, nm))
            caps[nm] = uri
    ls = links(sx, sx.choice('links', [0, 1, 2]))
    distinct = sx.and_(*[es[i][0] != es[j][0] for i in range(len(es)) for j in range(i)])
    c = client(k is None)
    doc, o = output(sx, c, c.write_capability_list, caps, links=[dict(l) for l in ls] if ls or sx.flag('nolinks') else None)
    if doc is None:
        sx.check(sx.not_(distinct), 'capabilities with different URIs are accepted')
        sx.check(len(sx.env.effects) == 0 and len(sx.env.out) == 0, 'nothing is written if refused')
        sx.reach('refused')
        return
    sx.check(distinct, 'every capability given is written or the list is refused')
    verify(sx, doc, 'capabilitylist', ls, es)
    sx.reach('entries' if es else 'empty')


def p_source(sx):
    k = sx.choice('k', [None, 0, 1, 2, 3])
    uris = None if k is None else ['http://h/' + sx.strn('u%d' % i, TEXT, 2) for i in range(k)]
    ls = links(sx, sx.choice('links', [0, 1, 2]))
    es = [(u, 'capabilitylist') for u in uris or []]
    distinct = sx.and_(*[es[i][0] != es[j][0] for i in range(len(es)) for j in range(i)])
    c = client(k is None)
    doc, o = output(sx, c, c.write_source_description, uris, links=[dict(l) for l in ls] if ls or sx.flag('nolinks') else None)
    if doc is None:
        sx.check(sx.not_(distinct), 'different URIs are accepted')
        sx.check(len(sx.env.effects) == 0 and len(sx.env.out) == 0, 'nothing is written if refused')
        sx.reach('refused')
        return
    sx.check(distinct, 'every URI given is written or the list is refused')
    verify(sx, doc, 'description', ls, es)
    sx.reach('entries' if es else 'empty')


def p_resources(sx):
    env = sx.env
    hashes = sx.choice('hashes', [[], ['md5'], ['sha-1', 'sha-256']])
    env.mkdir('d')
    facts = []
    for i, nm in enumerate(['a', 'x/b', 'c']):
        if sx.flag('p%d' % i):
            b = env.blob(sx.int('t%d' % i, 0, 1), sx.int('s%d' % i, 1, 3))
            env.mkfile('d/' + nm, b, BASE + sx.int('m%d' % i, 0, 9))
            facts.append((nm, b))
    scanned = facts
    paths = sx.choice('paths', [None, 'd/x', 'd/x,d/a'])
    if paths is not None:
        scanned = [f for f in facts if f[0] == 'x/b' or f[0] == 'a' and 'a' in paths]
        sx.assume(len(facts) == 3)
    ls = links(sx, sx.choice('links', [0, 1]))
    c = client(hashes=hashes)
    excl = sx.choice('exclude', [None, ['b'], ['a', '[q-z]']])
    if excl:
        # (whether a file named explicitly is excluded by its name is not specified)
        sx.assume(paths is None or 'a' not in paths or 'a' not in excl)
        c.exclude_patterns = excl
        # a directory given is scanned, whatever its name
        scanned = [f for f in scanned if f[0] == 'c' or len(excl) == 1 and f[0] == 'a' or
                   len(excl) == 2 and f[0] == 'x/b' and paths is not None]
        sx.reach('excluded')
    doc, o = output(sx, c, c.write_resource_list, paths, links=[dict(l) for l in ls] if ls else None)
    sx.check(o.ok, 'the list is written')
    urls = verify(sx, doc, 'resourcelist', ls, [(ROOT + '/' + nm, None) for nm, b in scanned])
    for nm, b in scanned:
        for u in urls:
            if u.first('sm:loc').text == ROOT + '/' + nm:
                m = u.first('rs:md')
                sx.check(u.first('sm:lastmod').text == '2020-01-01T00:00:0%dZ' % (env.mtime('d/' + nm) - BASE),
                         'every entry has the time of the file')
                sx.check(m.get('length') == str(env.size(b)), 'every entry has the size of the file')
                want = [h + ':' + env.digest(h.replace('-', ''), b) for h in hashes]
                got = [] if m.get('hash') is None else m.get('hash').split(' ')
                sx.check(len(got) == len(want), 'every entry has the digests asked for')
                for w in want:
                    sx.check(sx.or_(*[g == w for g in got]), 'every entry has the digests of the file')
    sx.reach('entries' if scanned else 'empty')


def p_changes(sx):
    env = sx.env
    ls = links(sx, sx.choice('links', [0, 1, 2]))
    env.mkfile('d/a', b'a', BASE)
    c = client(sx.flag('mapping'))
    doc, o = output(sx, c, c.write_change_list, empty=True, dump=sx.choice('dump', [None, False]),
                    links=[dict(l) for l in ls] if ls or sx.flag('nolinks') else None)
    sx.check(o.ok, 'an empty change list needs no reference')
    verify(sx, doc, 'changelist', ls, [])
    sx.reach('empty')


def p_refused(sx):
    """Lists that cannot be made are refused before anything is written."""
    env = sx.env
    env.mkfile('d/a', b'a', BASE)
    what = sx.choice('what', ['no mapping', 'bad pattern'])
    c = client(what != 'no mapping')
    if what == 'bad pattern':
        c.exclude_patterns = sx.choice('pattern', [['('], ['a', '*x'], ['[']])
    doc, o = output(sx, c, c.write_resource_list)
    sx.check(o.kind == 'ClientFatalError', 'the reason is reported')
    sx.check(len(env.effects) == 0 and len(env.out) == 0, 'nothing is written if refused')
    sx.reach(what)


def p_paths(sx):
    """Files and directories named explicitly."""
    env = sx.env
    t = sx.strn('name', 'ax ;:#', 1)
    nm = 'k' + t + 'm'
    what = sx.choice('what', ['file', 'directory'])
    f = nm if what == 'file' else nm + '/f'
    env.mkdir('d')
    env.mkfile('d/' + f, b'a', BASE + 1)
    for o in ['k', 'm', 'other', 'x/b'] + (['kx'] if what == 'file' else []):
        env.mkfile('d/' + o, b'b', BASE)
    more = sx.choice('more', ['', 'd/x,', 'd/x/b,'])
    c = client()
    doc, o = output(sx, c, c.write_resource_list, more + 'd/' + nm)
    sx.check(o.ok, 'the list is written')
    verify(sx, doc, 'resourcelist', [], [(ROOT + '/' + f, None)] + ([(ROOT + '/x/b', None)] if more else []))
    sx.reach(what)


def p_objects(sx):
    """Capability lists and source descriptions made from list objects."""
    what = sx.choice('what', ['capabilitylist', 'description'])
    top = CapabilityList() if what == 'capabilitylist' else SourceDescription()
    want = []
    kinds = [ResourceList, ChangeList, ResourceDump, ChangeDump] if what == 'capabilitylist' else [CapabilityList]
    for i in range(sx.int('n', 1, 3 if what == 'capabilitylist' else 2)):
        how = sx.choice('how%d' % i, ['object', 'URI', 'object and URI'][:3 if what == 'capabilitylist' else 2])
        u = 'http://h/%d' % i + sx.strn('u%d' % i, TEXT, 1)
        v = 'http://g/%d' % i + sx.strn('v%d' % i, TEXT, 1)
        lst = sx.choice('class', kinds) if i == 0 else kinds[-1]
        lst = lst()
        name = lst.capability_name
        d = None
        if how != 'URI':
            if how == 'object' or sx.flag('own%d' % i):
                lst.uri = u
            if sx.flag('d%d' % i):
                d = 'http://h/d' + sx.strn('d%d.uri' % i, TEXT, 1)
                lst.describedby = d
        if what == 'description':
            top.add_capability_list(u if how == 'URI' else lst)
            want.append((u if how == 'URI' else lst.uri, name, d if how != 'URI' else None))
        else:
            if how == 'URI':
                top.add_capability(uri=u, name=name)
            elif how == 'object':
                top.add_capability(lst)
            else:
                top.add_capability(lst, v)
            # (a description of a listed capability is not given)
            want.append((v if how == 'object and URI' and lst.uri is None else u, name, None))
    doc = sx.env.doc_of_text(top.as_xml())
    got = []
    for k in doc.kids:
        if k.tag == SM + 'url':
            ln = [dict(x.attrs) for x in k.kids if x.tag == RS + 'ln']
            sx.check(all(x == {'rel': 'describedby', 'href': x['href']} for x in ln) and len(ln) <= 1, 'no other links')
            got.append((k.first('sm:loc').text, k.first('rs:md').get('capability'), ln[0]['href'] if ln else None))
    sx.check(len(got) == len(want), 'the document has the entries added')
    for w in want:
        sx.check(sx.or_(*[sx.and_(g[0] == w[0], g[1] == w[1], g[2] == w[2] if g[2] is not None and w[2] is not None else
                                  g[2] is None and (w[2] is None or what == 'capabilitylist')) for g in got]),
                 'an entry made from a list has its URI, capability and description')
    sx.reach(what)


HARNESSES = [('objects', p_objects, {'expect': ['capabilitylist', 'description']}), ('paths', p_paths, {'expect': ['file', 'directory']}), ('refused', p_refused, {'expect': ['no mapping', 'bad pattern']}),
             ('capabilities', p_capabilities, {'expect': ['file', 'shown', 'entries', 'empty', 'refused']}),
             ('source', p_source, {'expect': ['file', 'shown', 'entries', 'empty', 'refused']}),
             ('resources', p_resources, {'expect': ['file', 'shown', 'entries', 'empty', 'excluded']}),
             ('changes', p_changes, {'expect': ['file', 'shown', 'empty']})]
