from .lib import ASCII
from resync.capability_list import CapabilityList
from resync.change_list import ChangeList
from resync.archives import ChangeDumpArchive, ChangeListArchive, ResourceDumpArchive, ResourceListArchive
from resync.change_dump import ChangeDump
from resync.change_dump_manifest import ChangeDumpManifest
from resync.resource_dump import ResourceDump
from resync.resource_dump_manifest import ResourceDumpManifest
from resync.source_description import SourceDescription
from resync.resource_container import ResourceContainer
from resync.resource_list import ResourceList
from resync.sitemap import Sitemap, SitemapIndexError, SitemapParseError

INFO = {
    'bounds': 'documents with any of 5 root elements and up to 3 (quick) or 4 (thorough) top-level children, entries with up to 3 (quick) or 4 '
              'children of 9 kinds; length and priority any text of 0-3 (quick) or 0-4 characters over digits, blank, sign, point and a letter; '
              'change types up to 2 characters off the defined ones; capability wanted: none, resource list, change list; every list class with every capability name, and names up to one character off',
    'outside': 'numbers with underscores or non-ASCII digits (read as Python integers); invalid dates (refused with a value error, '
               'see C10); documents that are no XML',
}
CAPS = ['resourcelist', 'changelist', 'resourcedump', 'changedump', 'resourcedump-manifest', 'changedump-manifest', 'capabilitylist',
        'description', 'resourcelist-archive', 'resourcedump-archive', 'changelist-archive', 'changedump-archive']
CLASSES = [ResourceList, ChangeList, CapabilityList, SourceDescription, ResourceDump, ChangeDump, ResourceDumpManifest,
           ChangeDumpManifest, ResourceListArchive, ChangeListArchive, ResourceDumpArchive, ChangeDumpArchive]
GOODS = ['created', 'updated', 'deleted']


def entry_tag(root):
    return 'sm:sitemap' if root == 'sm:sitemapindex' else 'sm:url'


def read(sx, doc, **kw):
    """Parse a document given as a tree."""
    sx.env.mkfile('doc.xml', sx.env.xml(doc))
    c = ResourceContainer()
    s = Sitemap()
    with open('doc.xml', 'rb') as fh:
        o = sx.attempt(s.parse_xml, fh=fh, resources=c, **kw)
    return o, c, s


def verdict(sx, o, ok):
    if ok:
        sx.check(o.ok, 'a document without a fault is accepted')
        sx.reach('accepted')
    else:
        sx.check(not o.ok, 'a document with a fault is rejected')
        sx.check(isinstance(o.exc, (SitemapParseError, SitemapIndexError)), 'it is rejected with a parse error')
        sx.reach('rejected')


def p_top(sx):
    root = sx.choice('root', ['sm:urlset', 'sm:sitemapindex', 'rs:urlset', 'urlset', 'sm:url'])
    n = sx.choice('n', [0, 1, 2, 3, 4] if sx.thorough else [0, 1, 2, 3])
    if n == 0:
        kinds = []
    else:
        kinds = [sx.choice('kind%d' % i, ['entry', 'md', 'ln', 'unknown']) for i in range(n)]
    want = sx.choice('want', [None, 'resourcelist', 'changelist'])
    index = sx.choice('index', [None, False, True])
    cap = sx.choice('cap', [None, 'resourcelist', 'changelist', 'description', 'any']) if 'md' in kinds else None
    if cap == 'any':
        cap = sx.str('cap.a', ASCII, 0, 1) + sx.choice('cap.b', ['resourcelist', 'changelist', '']) + sx.str('cap.c', ASCII, 0, 1)
        sx.assume(len(cap) > 0)
    # the first metadata element has no attributes
    bare = kinds.index('md') if cap is None and 'md' in kinds and sx.flag('bare') else None
    kids = []
    for i, k in enumerate(kinds):
        if k == 'entry':
            kids.append(sx.E(entry_tag(root), [], None, [sx.E('sm:loc', [], 'http://h/%d' % i), sx.E('rs:md', [('hash', 'md5:a')])]))
        elif k == 'md':
            kids.append(sx.E('rs:md', [] if i == bare else ([('capability', cap)] if cap else []) + [('at', '2020-01-01T00:00:00Z'), ('new', 'x')]))
        elif k == 'ln':
            kids.append(sx.E('rs:ln', [('rel', 'up'), ('href', 'http://h/%d' % i), ('new', 'x')]))
        else:
            kids.append(sx.E(sx.choice('unknown%d' % i, ['rs:new', 'sm:new', 'md']), [('length', 'x')]))
    o, c, s = read(sx, sx.E(root, [], None, kids), capability=want, sitemapindex=index)
    ok = root in ('sm:urlset', 'sm:sitemapindex')
    isindex = root == 'sm:sitemapindex'
    if index is not None and index != isindex:
        ok = False
    if kinds.count('md') > 1:
        ok = False
    if 'entry' in kinds:
        after = kinds[kinds.index('entry'):]
        if 'md' in after or 'ln' in after:
            ok = False
    if want is not None and cap != want and not (want == 'resourcelist' and cap is None):
        ok = False
    verdict(sx, o, ok)
    if ok:
        sx.check(s.parsed_index is isindex, 'index and plain documents are told apart')
        sx.check([r.uri for r in c] == ['http://h/%d' % i for i, k in enumerate(kinds) if k == 'entry'],
                 'every entry is read')
        sx.check([l['href'] for l in c.ln] == ['http://h/%d' % i for i, k in enumerate(kinds) if k == 'ln'],
                 'every link is read')
        if cap is not None:
            sx.check(c.md.get('capability') == cap, 'the capability is read')


def p_lists(sx):
    """Reading through the list classes."""
    cls = sx.choice('class', CLASSES)
    root = sx.choice('root', ['sm:urlset', 'sm:sitemapindex', 'sm:other'])
    cap = sx.choice('cap', [None, 'any'] + CAPS)
    if cap == 'any':
        cap = sx.str('cap.a', ASCII, 1, 1) + cls().capability_name
        if sx.flag('cap.after'):
            cap = cls().capability_name + sx.str('cap.c', ASCII, 1, 1)
    how = sx.choice('how', ['parse', 'read'])
    kids = [sx.E('rs:md', [('capability', cap)])] if cap else []
    kids.append(sx.E(entry_tag(root), [], None, [sx.E('sm:loc', [], 'http://h/part'), sx.E('rs:md', [('change', 'created')])]))
    sx.env.mkfile('doc.xml', sx.env.xml(sx.E(root, [], None, kids)))

    part = sx.choice('part', ['list', 'index', 'entry']) if root == 'sm:sitemapindex' and cap in (cls().capability_name, None) else 'list'
    proot = {'index': 'sm:sitemapindex', 'entry': 'sm:url'}.get(part, 'sm:urlset')

    def handler(rec):
        return sx.Response(sx.env.xml(sx.E(proot, [], None, [sx.E('rs:md', [('capability', cap or 'resourcelist')])] + [sx.E(
            entry_tag(proot), [], None, [sx.E('sm:loc', [], 'http://h/r'), sx.E('rs:md', [('change', 'created')])])])))
    sx.env.handler = handler
    lst = cls()
    own = lst.capability_name
    from resync.mapper import Mapper
    lst.mapper = Mapper(['http://h/', 'd'])
    sx.env.mkfile('d/part', handler(None).content)
    o = sx.attempt(getattr(lst, how), 'doc.xml')
    ok = root != 'sm:other' and (cap == own or (cap is None and own == 'resourcelist'))
    if root == 'sm:sitemapindex' and (how == 'parse' or cls is CapabilityList):
        ok = False
    if part != 'list' and ok:
        sx.check(not o.ok, 'a part that is no plain document is rejected')
        sx.reach('part')
        return
    verdict(sx, o, ok)
    if ok:
        sx.check([r.uri for r in lst] == ['http://h/r' if root == 'sm:sitemapindex' else 'http://h/part'],
                 'index and plain documents are told apart')


KIDS = ['loc', 'empty', 'otherloc', 'lastmod', 'md', 'ln', 'unknown']


def p_entry(sx):
    root = sx.choice('root', ['sm:urlset', 'sm:sitemapindex'])
    n = sx.choice('n', [0, 1, 2, 3, 4] if sx.thorough else [0, 1, 2, 3])
    kinds = []
    for i in range(n):
        kinds.append(sx.choice('kind%d' % i, KIDS))
    kids = []
    for i, k in enumerate(kinds):
        if k == 'loc':
            kids.append(sx.E('sm:loc', [], 'http://h/' + sx.strn('uri%d' % i, 'ab', 1)))
        elif k == 'empty':
            kids.append(sx.E('sm:loc', [], None))
        elif k == 'otherloc':
            kids.append(sx.E('loc', [], 'http://h/other'))
        elif k == 'lastmod':
            kids.append(sx.E('sm:lastmod', [], '2020-01-01T00:00:0%dZ' % sx.int('t%d' % i, 0, 9)))
        elif k == 'md':
            kids.append(sx.E('rs:md', [('length', '1')]))
        elif k == 'ln':
            kids.append(sx.E('rs:ln', [('rel', 'x'), ('href', 'y')]))
        else:
            kids.append(sx.E('sm:new', [], 'x', [sx.E('sm:loc', [], 'http://h/z')]))
    first = sx.E(entry_tag(root), [], None, [sx.E('sm:loc', [], 'http://h/first')])
    doc = sx.E(root, [], None, [first, sx.E(entry_tag(root), [], None, kids)])
    o, c, s = read(sx, doc)
    locs = kinds.count('loc') + kinds.count('empty')
    ok = locs == 1 and 'empty' not in kinds and kinds.count('lastmod') <= 1 and kinds.count('md') <= 1
    verdict(sx, o, ok)
    if ok:
        r = list(c)[1]
        i = kinds.index('loc')
        sx.check(r.uri == kids[i].text, 'the location is read')
        sx.check((r.timestamp is not None) == ('lastmod' in kinds), 'the modification time is read')
        sx.check((r.length == 1) if 'md' in kinds else r.length is None, 'the metadata is read')
        sx.check(len(r.ln or []) == kinds.count('ln'), 'the links are read')


def integer(sx, s):
    """Value of an integer in s, or None."""
    i, j = 0, len(s)
    while i < j and s[i] == ' ':
        i += 1
    while j > i and s[j - 1] == ' ':
        j -= 1
    neg = False
    if i < j and sx.or_(s[i] == '+', s[i] == '-'):
        neg = True if s[i] == '-' else False
        i += 1
    if i == j:
        return None
    v = 0
    for c in s[i:j]:
        if not sx.and_(c >= '0', c <= '9'):
            return None
        v = v * 10 + int(c)
    return -v if neg else v


def p_number(sx):
    where = sx.choice('where', ['length', 'lnlength', 'pri', 'toplength', 'toppri'])
    s = sx.str('s', '01239 +-.x', 0, 4 if sx.thorough else 3) if where in ('length', 'pri') else sx.str('s', '019 -x', 0, 2)
    if where in ('pri', 'toppri') and sx.flag('high'):
        s = '99999' + s
    kids, top = [sx.E('sm:loc', [], 'http://h/a')], []
    if where == 'length':
        kids.append(sx.E('rs:md', [('length', s)]))
    elif where == 'toplength':
        top.append(sx.E('rs:md', [('length', s)]))
    else:
        ln = sx.E('rs:ln', [('rel', 'x'), ('href', 'y'), ('pri' if 'pri' in where else 'length', s)])
        (top if 'top' in where else kids).append(ln)
    o, c, s2 = read(sx, sx.E('sm:urlset', [], None, top + [sx.E('sm:url', [], None, kids)]))
    v = integer(sx, s)
    ok = v is not None
    if ok and 'pri' in where:
        ok = True if sx.and_(v >= 1, v <= 999999) else False
    verdict(sx, o, ok)
    if ok:
        r = list(c)[0]
        if where == 'length':
            g = r.length
        elif where == 'toplength':
            g = c.md['length']
        else:
            g = (c.ln if 'top' in where else r.ln)[0]['pri' if 'pri' in where else 'length']
        sx.check(sx.eq(g, v), 'the number is read')


def p_change(sx):
    mode = sx.choice('mode', ['short', 'near', 'top'])
    if mode == 'short':
        s = sx.str('s', 'cud', 0, 2)
    else:
        s = sx.choice('base', GOODS)
        i = sx.choice('i', list(range(len(s))))
        s = s[:i] + sx.strn('c', 'cdetupaCD ', 1) + s[i + 1:]
        if mode == 'near':
            s = s + sx.str('tail', 'ds ', 0, 1)
    md = sx.E('rs:md', [('change', s)])
    kids = [sx.E('sm:url', [], None, [sx.E('sm:loc', [], 'http://h/a')] + ([] if mode == 'top' else [md]))]
    o, c, s2 = read(sx, sx.E('sm:urlset', [], None, ([md] if mode == 'top' else []) + kids))
    ok = any(s == g for g in GOODS)
    verdict(sx, o, ok)
    if ok and mode != 'top':
        sx.check(list(c)[0].change == s, 'the change type is read')


def p_link(sx):
    atts = []
    if sx.flag('rel'):
        atts.append(('rel', sx.strn('relv', 'ab', 1)))
    if sx.flag('href'):
        atts.append(('href', sx.strn('hrefv', 'ab', 1)))
    if sx.flag('more'):
        which = sx.choice('which', ['new', 'path', 'type', 'length', 'hash'])
        atts.append((which, {'length': '1', 'hash': 'md5:a'}.get(which, 'x')))
    if sx.flag('wrong'):
        atts.append(('rs:href', 'x'))
    top = sx.flag('top')
    ln = sx.E('rs:ln', atts)
    url = [sx.E('sm:loc', [], 'http://h/a')] + ([] if top else [ln])
    o, c, s = read(sx, sx.E('sm:urlset', [], None, ([ln] if top else []) + [sx.E('sm:url', [], None, url)]))
    names = [k for k, v in atts]
    ok = 'rel' in names and 'href' in names
    verdict(sx, o, ok)
    if ok:
        l = (c.ln if top else list(c)[0].ln)[0]
        sx.check(sorted(k for k in l if k in ('href', 'rel')) == ['href', 'rel'] and 'new' not in l and sx.and_(l['rel'] == atts[0][1], l['href'] == atts[1][1]), 'the link is read')


BOTH = {'expect': ['accepted', 'rejected']}
HARNESSES = [('top', p_top, BOTH), ('lists', p_lists, {'expect': BOTH['expect'] + ['part']}), ('entry', p_entry, BOTH), ('number', p_number, BOTH),
             ('change', p_change, BOTH), ('link', p_link, BOTH)]
