import io
from resync.archives import ChangeDumpArchive, ChangeListArchive, ResourceDumpArchive, ResourceListArchive
from resync.capability_list import CapabilityList
from resync.change_dump import ChangeDump
from resync.change_dump_manifest import ChangeDumpManifest
from resync.change_list import ChangeList
from resync.list_base_with_index import ListBaseWithIndex
from resync.resource import Resource
from resync.resource_dump import ResourceDump
from resync.resource_dump_manifest import ResourceDumpManifest
from resync.resource_list import ResourceList, ResourceListOrdered
from resync.source_description import SourceDescription
from .lib import ASCII, BASE

INFO = {
    'bounds': 'one entry with all, one or all but one of its 15 attributes and links, in versions 1.1, 1.1 with lastmod added, '
              'and 1.0; 3 (quick) or 4 (thorough) entries with symbolic URIs, times and change types in 13 list types; strings of '
              '1-2 characters out of & < > " \' blank e-acute and letters; times in 10 s, whole or half seconds; lengths 0-999; '
              'up to 2 links with 7 attributes; written as text and to a file, with and without pretty printing',
    'outside': 'control characters and carriage returns in text; digests containing white space (hash strings separate by it); '
               'link attributes under other names than the reader gives them; the bytes of the XML serialization (standard library); the fragment for one resource '
               '(resource_as_xml, not a document of its own)',
    'assumptions': ['ElementTree writes and defusedxml reads XML faithfully (validated natively on sampled paths)'],
}
TEXT = 'ab&<>"\' \u00e9'
TIMES = ('timestamp', 'ts_datetime', 'ts_at', 'ts_completed', 'ts_from', 'ts_until')
ATTS = TIMES + ('length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'path', 'capability', 'ln')


def value(sx, n, att):
    if att in TIMES:
        return BASE + sx.int(n + att, 0, 9) + (0.5 if att in ('ts_datetime', 'ts_from') else 0)
    if att == 'length':
        return sx.int(n + att, 0, 999)
    if att == 'change':
        return sx.choice(n + att, ['created', 'updated', 'deleted'])
    if att == 'ln':
        links = [{'rel': sx.strn(n + 'rel', TEXT, 1), 'href': 'http://h/' + sx.strn(n + 'href', TEXT, 2),
                  'pri': sx.int(n + 'pri', 1, 12), 'length': sx.int(n + 'llen', 0, 12), 'modified': '2020-01-01T00:00:00Z',
                  'hash': 'md5:' + sx.strn(n + 'lhash', 'xy', 1), 'path': sx.strn(n + 'lpath', TEXT, 1),
                  'mime_type': sx.strn(n + 'ltype', TEXT, 1)},
                 {'rel': sx.strn(n + 'rel2', TEXT, 1), 'href': sx.strn(n + 'href2', TEXT, 1)}]
        return links
    if att in ('md5', 'sha1', 'sha256'):
        return sx.strn(n + att, 'ab:=', 2)
    return sx.strn(n + att, TEXT, 2)


def same_links(sx, got, want):
    if want is None or got is None:
        return (want or None) is None and (got or None) is None
    if len(got) != len(want):
        return False
    fs = []
    for g, w in zip(got, want):
        if set(g) != set(w):
            return False
        for k in w:
            fs.append(sx.eq(g[k], w[k]))
    return sx.and_(*fs)


def same(sx, x, y):
    if x is None or y is None:
        return x is y
    return sx.eq(x, y)


def expected(facts, version):
    """What a reader should see, by version."""
    e = dict(facts)
    t, d = e.get('timestamp'), e.get('ts_datetime')
    if version != '1.1' and t is None:
        e['timestamp'] = d
    if version == '1.0':
        e['ts_datetime'] = None
    return e


def check_entry(sx, r, facts, version):
    e = expected(facts, version)
    sx.check(r.uri == e['uri'], 'the URI is read back')
    for a in ATTS:
        if a == 'ln':
            sx.check(same_links(sx, r.ln, e.get('ln')), 'the links are read back')
        else:
            sx.check(same(sx, getattr(r, a), e.get(a)), '%s is read back' % a)


def options(version):
    return {'spec_version': '1.0' if version == '1.0' else '1.1', 'add_lastmod': version == '1.1+'}


def round_trip(sx, lst, out, how):
    """Write lst and read it into out."""
    if how == 'text':
        out.parse(str_data=lst.as_xml())
    else:
        lst.pretty_xml = how == 'pretty'
        lst.write('list.xml')
        out.read('list.xml')
    return out


def p_entry(sx):
    version = sx.choice('version', ['1.1', '1.1+', '1.0'])
    how = sx.choice('how', ['text', 'pretty'])
    mode = sx.choice('mode', ['all', 'one', 'but'])
    i = sx.choice('att', list(range(len(ATTS)))) if mode != 'all' else 0
    facts = {'uri': 'http://h/' + sx.strn('uri', TEXT, 2)}
    for k, a in enumerate(ATTS):
        if mode == 'all' or (k == i) == (mode == 'one'):
            facts[a] = value(sx, '', a)
    lst = ListBaseWithIndex(capability_name='resourcelist', **options(version))
    lst.add(Resource(**facts))
    out = ListBaseWithIndex(capability_name='resourcelist', **options(version))
    round_trip(sx, lst, out, how)
    got = list(out)
    sx.check(len(got) == 1, 'one entry is read back')
    check_entry(sx, got[0], facts, version)
    sx.check(out.md == {'capability': 'resourcelist'} and out.ln == [], 'no top-level metadata or link is invented')
    sx.observe('read', [getattr(got[0], a) for a in ATTS if a != 'ln'])
    sx.reach(version)


LISTS = {
    'resourcelist': ResourceList, 'changelist': ChangeList, 'resourcedump': ResourceDump, 'changedump': ChangeDump,
    'resourcedump-manifest': ResourceDumpManifest, 'changedump-manifest': ChangeDumpManifest,
    'capabilitylist': CapabilityList, 'description': SourceDescription, 'resourcelist-archive': ResourceListArchive,
    'changelist-archive': ChangeListArchive, 'resourcedump-archive': ResourceDumpArchive,
    'changedump-archive': ChangeDumpArchive, 'ordered': ResourceList,
}
UNIQUE = ('resourcelist', 'resourcedump', 'changedump', 'resourcedump-manifest', 'capabilitylist', 'description', 'ordered')


def p_list(sx):
    """Several entries: order, top-level metadata and links."""
    kind = sx.choice('kind', sorted(LISTS))
    version = sx.choice('version', ['1.1', '1.0', '1.1+'])
    cls = LISTS[kind]
    kw = {'resources_class': ResourceListOrdered} if kind == 'ordered' else {}
    lst = cls(**dict(kw, **options(version)))
    rs = []
    n = sx.choice('n', [0, 1, 3, 4] if sx.thorough else [0, 3])
    for i in range(n):
        f = {'uri': 'http://h/' + sx.strn('uri%d' % i, 'abc' if i < 3 else 'ab', 1), 'timestamp': BASE + sx.int('ts%d' % i, 0, 9)}
        if i == 1:
            f['ts_datetime'] = BASE + sx.int('dt', 0, 9)
        if 'change' in kind:
            f['change'] = sx.choice('change%d' % i, ['created', 'updated', 'deleted']) if i < (2 if sx.thorough else 1) else 'updated'
        if i == 0:
            f['md5'] = sx.strn('md5', 'ab', 1)
            f['ln'] = [{'rel': 'up', 'href': 'http://h/' + sx.strn('href', TEXT, 1)}]
        if i == 2:
            f['capability'] = 'changelist'
        if kind in UNIQUE:
            for o in rs:
                sx.assume(f['uri'] != o['uri'])
        rs.append(f)
        lst.add(Resource(**f))
    md, ln = {}, []
    pick = sx.choice('top', ['none', 'md', 'links', 'both'] if sx.thorough else ['none', 'both'])
    if pick in ('md', 'both'):
        skip = sx.choice('skip', [0, 2, 9])
        for k, a in enumerate(('md_at', 'md_completed', 'md_from', 'md_until')):
            if k != skip:
                md[a] = '2020-01-01T00:00:%02d.5Z' % k
                setattr(lst, a, md[a])
    if pick in ('links', 'both'):
        lst.up = 'http://h/' + sx.strn('up', TEXT, 1)
        lst.link_set('x', sx.strn('x', TEXT, 1), pri=sx.int('pri', 1, 9))
        ln = [{'rel': 'up', 'href': lst.up}, {'rel': 'x', 'href': lst.link_href('x'), 'pri': lst.link('x')['pri']}]
    order = list(lst)
    want = []
    for r in order:
        for f in rs:
            if f['uri'] == r.uri and not any(f is w for w in want):
                want.append(f)
                break
    sx.check(len(want) == n, 'the list holds each entry')
    if kind not in UNIQUE:
        want = rs
    cap = lst.capability_name
    out = round_trip(sx, lst, cls(**dict(kw, **options(version))), sx.choice('how', ['text', 'pretty']) if sx.thorough else
                     'pretty' if pick in ('md', 'both') else 'text')
    got = list(out)
    sx.check(len(got) == n, 'as many entries are read back')
    for g, w in zip(got, want):
        check_entry(sx, g, w, version)
    md['capability'] = cap
    sx.check({k: v for k, v in out.md.items() if v is not None} == md, 'top-level metadata is read back')
    sx.check(same_links(sx, out.ln, ln), 'top-level links are read back')
    sx.observe('uris', [r.uri for r in got])
    sx.reach(kind)


def p_index(sx):
    """Index documents: the entries name other lists."""
    kind = sx.choice('kind', ['changelist', 'description', 'ordered', 'resourcelist', 'resourcedump', 'changelist-archive'])
    version = sx.choice('version', ['1.1', '1.0'])
    cls = LISTS[kind]
    kw = {'resources_class': ResourceListOrdered} if kind == 'ordered' else {}
    lst = cls(**dict(kw, **options(version)))
    lst.sitemapindex = True
    rs = []
    for i in range(3):
        f = {'uri': 'http://h/' + sx.strn('uri%d' % i, ASCII, 1)}
        for k, a in enumerate(ATTS):
            if a == 'change' and i == 0 and 'change' not in kind:
                continue
            if a != 'timestamp' and k % 3 == i:
                f[a] = value(sx, '%d' % i, a)
        f['timestamp'] = BASE + sx.int('ts%d' % i, 0, 9)
        if 'change' in kind and 'change' not in f:
            f['change'] = 'updated'
        if kind in UNIQUE:
            for o in rs:
                sx.assume(f['uri'] != o['uri'])
        rs.append(f)
        lst.add(Resource(**f))
    lst.md_at = '2020-01-01T00:00:00Z'
    want = rs if kind not in UNIQUE or kind == 'ordered' else [f for r in lst for f in rs if f['uri'] == r.uri]
    if kind not in UNIQUE or kind == 'ordered':
        want = rs
    sx.check(len(want) == 3, 'the list holds each entry')
    text = lst.as_xml()
    how = sx.choice('how', ['parse', 'read'])
    cap = lst.capability_name
    if how == 'read':
        out = cls(**dict(kw, **options(version)))
        with open('list.xml', 'w') as fh:
            fh.write(text)
        out.read('list.xml', index_only=True)
        sx.check(out.sitemapindex, 'the document is an index')
    else:
        out = ListBaseWithIndex(capability_name=cap, **options(version))
        s = out.new_sitemap()
        s.parse_xml(fh=io.StringIO(text), resources=out, capability=cap, sitemapindex=True)
        sx.check(s.parsed_index, 'the document is an index')
    got = list(out)
    sx.check(len(got) == 3, 'as many entries are read back')
    for g, w in zip(got, want):
        check_entry(sx, g, w, version)
    sx.check({k: v for k, v in out.md.items() if v is not None} == {'capability': cap, 'md_at': '2020-01-01T00:00:00Z'},
             'top-level metadata is read back')
    sx.reach(kind)


HARNESSES = [
    ('index', p_index, {'expect': ['changelist', 'description', 'ordered', 'resourcelist', 'resourcedump', 'changelist-archive']}),
    ('entry', p_entry, {'expect': ['1.1', '1.1+', '1.0']}),
    ('list', p_list, {'expect': sorted(LISTS)}),
]
