from resync.archives import ResourceListArchive
from resync.change_list import ChangeList
from resync.client import Client
from resync.list_base_with_index import ListBaseIndexError
from resync.mapper import Mapper
from resync.resource import Resource
from resync.resource_list import ResourceList, ResourceListOrdered
from resync.source_description import SourceDescription

INFO = {
    'bounds': 'lists of 0-5 or 6 (quick) or 0-7 (thorough) entries with symbolic one-character URIs out of 3 (repeated where allowed), 5 '
              'list types, limits of 1-4 or none, file names with and without suffix inside and outside the mapping, multi-part '
              'output on and off, with and without metadata and links (also to another index); all part numbers from 0 to one past the last',
    'outside': 'lists longer than 7 entries or with more than 7 parts; input from generators with a declared count',
}
ROOT = 'http://h/s'
KINDS = {'resourcelist': ResourceList, 'ordered': ResourceList, 'changelist': ChangeList, 'description': SourceDescription,
         'archive': ResourceListArchive}
SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
RS = '{http://www.openarchives.org/rs/terms/}'


def new(kind):
    return KINDS[kind](**({'resources_class': ResourceListOrdered} if kind == 'ordered' else {}))


def build(sx, kind, n, root):
    lst = new(kind)
    uris = []
    unique = kind not in ('changelist', 'archive')
    for i in range(n):
        if kind in ('resourcelist', 'description') and i < 3:
            u = root + '/' + sx.strn('uri%d' % i, '024', 1)
        else:
            u = root + '/' + ('1357986'[i] if unique else sx.strn('uri%d' % i, 'ab', 1))
        if unique:
            for o in uris:
                sx.assume(u != o)
        uris.append(u)
    for i, u in enumerate(uris):
        lst.add(Resource(u, length=i, change=sx.choice('change%d' % i, ['created', 'deleted']) if kind == 'changelist' and i == 1
                         else ('updated' if kind == 'changelist' else None)))
    want = list(enumerate(uris))
    if kind in ('resourcelist', 'description'):
        for i in range(n):              # insertion sort
            j = i
            while j > 0 and want[j][1] < want[j - 1][1]:
                want[j], want[j - 1] = want[j - 1], want[j]
                j -= 1
    return lst, [(u, i) for i, u in want]


def entries(doc, tag):
    """[(loc, length)] of a document tree."""
    out = []
    for k in doc.kids:
        if k.tag == SM + tag:
            loc, length = None, None
            for x in k.kids:
                if x.tag == SM + 'loc':
                    loc = x.text
                elif x.tag == RS + 'md':
                    length = dict(x.attrs).get('length')
            out.append((loc, None if length is None else int(length)))
    return out


def top(doc):
    md = [dict(k.attrs) for k in doc.kids if k.tag == RS + 'md']
    ln = [dict(k.attrs) for k in doc.kids if k.tag == RS + 'ln']
    return md, ln


def same_entries(sx, got, want):
    if len(got) != len(want):
        return False
    return sx.and_(*[sx.and_(g[0] == w[0], g[1] == w[1]) for g, w in zip(got, want)])


def part_name(base, i):
    return (base[:-4] if base.endswith('.xml') else base) + '%05d.xml' % i


def split(want, limit):
    out = []
    for x in want:
        if not out or len(out[-1]) >= limit:
            out.append([])
        out[-1].append(x)
    return out


def setup(sx):
    kind = sx.choice('kind', sorted(KINDS))
    n = sx.choice('n', list(range(0, 8 if sx.thorough else 6)) + ([] if sx.thorough or kind not in ('ordered', 'archive') else [6]))
    limit = None if sx.flag('nolimit') else sx.int('limit', 1, 99)
    root = sx.choice('root', ['http', 'https']) + '://h/s' if n == 2 else ROOT
    lst, want = build(sx, kind, n, root)
    lst.max_sitemap_entries = limit
    many = False if limit is None else (True if n > limit else False)
    return kind, n, limit, lst, want, many, root


def p_write(sx):
    kind, n, limit, lst, want, many, root = setup(sx)
    base = sx.choice('base', ['d/list.xml', 'd/list', 'd/a.xml.d/xml.xml'] if kind != 'resourcelist' or n < 3 else ['d/list.xml', 'd/list', 'e/list.xml'])
    multi = sx.flag('multi') if n < 4 else True
    rich = sx.flag('rich') if n == 3 else False
    lst.allow_multifile = multi
    lst.mapper = Mapper([root, 'd'] if n != 3 or kind not in ('resourcelist', 'changelist') or sx.flag('alone') else [root + '=d', 'http://g/t=g'])
    if rich:
        lst.md_at = '2020-01-01T00:00:00Z'
        lst.up = 'http://h/up'
    indexed = rich and sx.flag('indexed')      # the list has a link to another index already
    if indexed:
        lst.index = 'http://h/other'
    sx.env.mkdir('d')
    sx.env.mkdir('e')
    sx.env.mkdir('d/a.xml.d')
    if (n == 3 or sx.thorough and n < 6) and sx.flag('used'):     # the list was used for other documents before
        sx.env.mkdir('d/x')
        lst.max_sitemap_entries, lst.allow_multifile = sx.choice('used.limit', [1, 2, None]), True
        for i in range(2 if sx.thorough else 1):
            o = sx.attempt(lst.write, 'd/x/other%d.xml' % i)
            sx.check(o.ok, 'the list is written for the first time')
        sx.attempt(lst.as_xml, allow_multifile=True)
        sx.env.rm('d/x')
        lst.max_sitemap_entries, lst.allow_multifile = limit, multi
        sx.reach('again')
    o = sx.attempt(lst.write, base)
    written = sorted(d + '/' + f for d in ('d', 'e') for f in sx.env.tree(d) if f != 'a.xml.d')
    cap = lst.capability_name
    if many and (not multi or base.startswith('e')):
        sx.check(not o.ok and isinstance(o.exc, ListBaseIndexError), 'a list that is too large is refused')
        sx.check(written == [], 'with nothing written')
        sx.reach('refused')
        return
    sx.check(o.ok, 'the list is written')
    md = {'capability': cap}
    links = []
    if rich:
        md['at'] = '2020-01-01T00:00:00Z'
        links = [{'rel': 'up', 'href': 'http://h/up'}]
    own = links
    if indexed:
        links = links + [{'rel': 'index', 'href': 'http://h/other'}]
    sx.check(lst.ln == links, 'writing does not alter the links of the list')

    def check_top(doc, links):
        m, l = top(doc)
        sx.check(m == [md], 'every document carries the metadata of the list')
        sx.check(l == links, 'every document carries the links of the list, every part one to the index')
    if not many:
        sx.check(written == [base], 'a single document is written')
        doc = sx.env.read_doc(base)
        sx.check(doc.tag == SM + 'urlset', 'it is a plain document')
        sx.check(same_entries(sx, entries(doc, 'url'), want), 'with every entry')
        check_top(doc, links)
        sx.reach('single')
    else:
        parts = split(want, limit)
        files = [part_name(base, i) for i in range(len(parts))]
        sx.check(written == sorted(files + [base]), 'exactly the parts and the index are written')
        index = sx.env.read_doc(base)
        sx.check(index.tag == SM + 'sitemapindex', 'the index is an index')
        sx.check([x[0] for x in entries(index, 'sitemap')] == [root + f[1:] for f in files],
                 'the index names the parts at their mapped URIs in order')
        check_top(index, links)
        for f, p in zip(files, parts):
            doc = sx.env.read_doc(f)
            sx.check(doc.tag == SM + 'urlset', 'a part is a plain document')
            sx.check(same_entries(sx, entries(doc, 'url'), p), 'a part holds the next entries up to the limit')
            check_top(doc, own + [{'rel': 'index', 'href': root + base[1:]}])
        sx.reach('split')
    # reading back
    out = new(kind)
    out.mapper = lst.mapper
    out.read(base)
    sx.check(same_entries(sx, [(r.uri, r.length) for r in out], want), 'reading back gives the original entries')
    sx.observe('read', [r.uri for r in out])
    if many:
        # a reader restricted to single documents
        out = new(kind)
        out.allow_multifile = False
        out.mapper = lst.mapper
        o = sx.attempt(out.read, base)
        sx.check(not o.ok and isinstance(o.exc, ListBaseIndexError) and len(out) == 0, 'an index is refused if parts are not allowed')


def p_text(sx):
    """Index and parts generated as text."""
    kind, n, limit, lst, want, many, root = setup(sx)
    base = 'http://h/list.' + sx.str('base', 'xml.', 0, 6 if sx.thorough else 4)
    o = sx.attempt(lst.as_xml)
    a = sx.attempt(lst.as_xml, allow_multifile=True, basename=base)
    x = sx.attempt(lst.index_as_xml)
    doc = sx.env.doc_of_text(x.value)
    sx.check(x.ok and doc.tag == SM + 'sitemapindex', 'a list of parts is written as an index')
    sx.check([e[0] for e in entries(doc, 'sitemap')] == [u for u, i in want], 'with every entry')
    sx.check(top(doc)[0] == [{'capability': lst.capability_name}], 'the index has the capability')
    if not many:
        sx.check(o.ok and a.ok, 'a list in limits is written as one document')
        for t in (o.value, a.value):
            doc = sx.env.doc_of_text(t)
            sx.check(doc.tag == SM + 'urlset' and bool(same_entries(sx, entries(doc, 'url'), want)), 'with every entry')
        sx.check(not sx.attempt(lst.as_xml_index, basename=base).ok, 'it has no index')
        sx.check(not sx.attempt(lst.as_xml_part, basename=base, part_number=0).ok, 'it has no parts')
        sx.reach('single')
        return
    sx.check(not o.ok and isinstance(o.exc, ListBaseIndexError), 'a list that is too large is not written as one document')
    parts = split(want, limit)
    i = sx.attempt(lst.as_xml_index, basename=base)
    sx.check(i.ok and a.ok, 'the index is generated')
    for t in (i.value, a.value):
        doc = sx.env.doc_of_text(t)
        sx.check(doc.tag == SM + 'sitemapindex', 'the index is an index')
        sx.check([x[0] for x in entries(doc, 'sitemap')] == [part_name(base, k) for k in range(len(parts))],
                 'the index names all parts')
        sx.check(top(doc)[0] == [{'capability': lst.capability_name}], 'the index has the capability')
    for k in range(len(parts) + 1):
        if k == len(parts):
            k = k + sx.int('beyond', 0, 3)
        o = sx.attempt(lst.as_xml_part, basename=base, part_number=k)
        if k >= len(parts):
            sx.check(not o.ok and isinstance(o.exc, ListBaseIndexError), 'a part beyond the last is refused')
            continue
        sx.check(o.ok, 'a part is generated')
        doc = sx.env.doc_of_text(o.value)
        sx.check(same_entries(sx, entries(doc, 'url'), parts[k]), 'a part holds the entries of the split')
        sx.check(top(doc) == ([{'capability': lst.capability_name}], [{'rel': 'index', 'href': base}]),
                 'a part links back to the index')
    sx.reach('split')


def p_client(sx):
    """Lists written by the client with a maximum number of entries."""
    env = sx.env
    n = sx.choice('n', [0, 1, 2, 3, 4])
    c = Client()
    c.mapper = Mapper([ROOT, 'd'])
    limit = sx.int('limit', 1, 5) if sx.flag('limited') else None
    c.max_sitemap_entries = limit
    what = sx.choice('what', ['resourcelist', 'changelist'])
    env.mkdir('d')
    env.mkdir('o')
    names = 'acbe'[:n]
    for i, x in enumerate(names):
        env.mkfile('d/' + x, 'x' * (i + 1), 60)
    out = sx.choice('out', [None, 'd/list.xml', 'o/list'])
    kw = {}
    if what == 'changelist':
        env.mkfile('old.xml', env.xml(sx.E('sm:urlset', [], None, [sx.E('rs:md', [('capability', 'resourcelist')])])))
        kw = {'ref_sitemap': 'old.xml'}
    before = set(env.tree('d')) | set(env.tree('o'))
    k = len(env.out)
    o = sx.attempt(c.write_resource_list if what == 'resourcelist' else c.write_change_list, outfile=out, **kw)
    written = sorted([d + '/' + f for d in ('d', 'o') for f in env.tree(d) if f not in before])
    many = False if limit is None else bool(n > limit)
    want = [ROOT + '/' + x for x in sorted(names)]
    if many and out != 'd/list.xml':
        sx.check(written == [], 'a list that is too large for one document is not written as one')
        if what == 'changelist' or out is not None:
            sx.check(not o.ok, 'a list that is too large is refused')
            sx.check(len(env.out) == k, 'with nothing written')
        sx.reach('refused')
        return
    sx.check(o.ok, 'the list is written')
    if out is None:
        sx.check(written == [] and len(env.out) == k + 1, 'one document is shown')
        docs = [env.doc_of_text(env.out[k])]
    elif many:
        parts = split(want, limit)
        sx.check(written == sorted(['d/list.xml'] + [part_name('d/list.xml', i) for i in range(len(parts))]),
                 'exactly the parts and the index are written')
        docs = [env.read_doc(part_name('d/list.xml', i)) for i in range(len(parts))]
        for d, p in zip(docs, parts):
            sx.check(len(entries(d, 'url')) == len(p), 'a part holds the next entries up to the limit')
        sx.reach('split')
    else:
        sx.check(written == [out], 'a single document is written')
        docs = [env.read_doc(out)]
        sx.reach('single')
    got = [e[0] for d in docs for e in entries(d, 'url')]
    sx.check(got == want if what == 'resourcelist' else sorted(got) == want, 'every entry is in one part')


HARNESSES = [('client', p_client, {'expect': ['refused', 'single', 'split']}), ('write', p_write, {'expect': ['refused', 'single', 'split', 'again']}), ('text', p_text, {'expect': ['single', 'split']})]
