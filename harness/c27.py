import argparse
from resync.client_utils import (parse_link, parse_links, parse_capabilities, parse_capability_lists, add_shared_misc_options,
                                 process_shared_misc_options, ClientFatalError)
from resync.client import Client
from .lib import BASE

ABC = 'abR ,="/:\xe9\n'

INFO = {
    'bounds': 'every option text of up to 8 (quick) or 10 (thorough) characters over letters, comma, equals sign, blank, line end, quote, slash, colon and a non-ASCII letter; option '
              'lists of up to two such texts; every combination of --checksum and up to two --hash types',
    'outside': 'link attributes named rel or href; in capabilities an empty URI is taken as given',
}


def link_spec(text):
    """The attributes of a link option, or None if it is malformed."""
    segs = text.split(',')
    if len(segs) < 2 or segs[0] == '' or segs[1] == '':
        return None
    atts = [('rel', segs[0]), ('href', segs[1])]
    for s in segs[2:]:
        if s.count('=') != 1:
            return None
        k, v = s.split('=')
        if k == '' or v == '':
            return None
        atts = [a for a in atts if a[0] != k] + [(k, v)]
    return atts


def caps_spec(text):
    out = []
    for s in text.split(','):
        if s.count('=') != 1:
            return None
        k, v = s.split('=')
        if k == '':
            return None
        if any([x[0] == k for x in out]):
            out = [(a, v if a == k else b) for a, b in out]
        else:
            out.append((k, v))
    return out


def pairs_match(sx, got, want, ordered):
    """A dict holds exactly the pairs (names are distinct)."""
    items = list(got.items())
    sx.check(len(items) == len(want), 'exactly the names given')
    if ordered:
        for (k, v), (a, b) in zip(items, want):
            sx.check(sx.and_(k == a, v == b), 'exactly the pairs given in order')
    else:
        for a, b in want:
            sx.check(sx.or_(*[sx.and_(k == a, v == b) for k, v in items]), 'exactly the attributes given')


def refused(sx, o, option, text):
    sx.check(not o.ok, 'any other text is refused')
    sx.check(o.kind == 'ClientFatalError', 'with a client error')
    sx.check(option in str(o.exc), 'that names the option')
    sx.check(text in str(o.exc), 'and shows its text')


def p_link(sx):
    t = sx.str('text', ABC, 0, 10 if sx.thorough else 8)
    want = link_spec(t)
    many = sx.flag('list')
    o = sx.attempt(parse_links, [t]) if many else sx.attempt(parse_link, t)
    if want is None:
        refused(sx, o, '--link', t)
        sx.reach('refused')
        return
    sx.check(o.ok, 'a well formed option is accepted')
    v = o.value
    if many:
        sx.check(len(v) == 1, 'one link per option')
        v = v[0]
    pairs_match(sx, v, want, False)
    sx.reach('attributes' if len(want) > 2 else 'link')


def p_links(sx):
    k = sx.choice('k', [None, 0, 1, 2, 3])
    if k is None:
        o = sx.attempt(parse_links, None)
        sx.check(o.ok and o.value == [], 'no options give no links')
        sx.reach('none')
        return
    ts = []
    for i in range(k):
        if i == 2:
            ts.append('r,http://h/,type=x')
        else:
            ts.append(sx.choice('f%d' % i, ['r,h', 'r,h,a=', 'r,h,a=b']) + sx.str('t%d' % i, 'a,=', 0, 2))
    o = sx.attempt(parse_links, ts)
    want = [link_spec(t) for t in ts]
    bad = [t for t, w in zip(ts, want) if w is None]
    if bad:
        refused(sx, o, '--link', bad[0])
        sx.reach('refused')
        return
    sx.check(o.ok, 'well formed options are accepted')
    sx.check(len(o.value) == k, 'one link per option')
    for v, w in zip(o.value, want):
        pairs_match(sx, v, w, False)
    sx.reach('links')


def p_caps(sx):
    t = sx.str('text', ABC, 0, 10 if sx.thorough else 8)
    want = caps_spec(t)
    o = sx.attempt(parse_capabilities, t)
    if want is None:
        refused(sx, o, '--capabilitylist', t)
        sx.reach('refused')
        return
    sx.check(o.ok, 'a well formed option is accepted')
    pairs_match(sx, o.value, want, True)
    sx.reach('several' if len(want) > 1 else 'one')


def p_lists(sx):
    """Capability lists: the URIs separated by commas."""
    parts = [sx.str('p%d' % i, 'ab:/', 0, 3) for i in range(sx.choice('k', [1, 2, 3]))]
    o = sx.attempt(parse_capability_lists, ','.join(parts))
    sx.check(o.ok and len(o.value) == len(parts), 'as many URIs as given')
    for a, b in zip(o.value, parts):
        sx.check(a == b, 'the URIs given, in order')
    sx.reach('done')


class Args:
    pass


def p_checksum(sx):
    """--checksum is --hash=md5."""
    types = ['md5', 'sha-1', 'sha-256']
    a, b = Args(), Args()
    k = sx.choice('hashes', [None, 1, 2])
    given = None if k is None else [sx.choice('h%d' % i, types) for i in range(k)]
    remote = sx.flag('remote')
    for x in (a, b):
        x.access_token = x.delay = None
        x.checksum = x is a
        x.hash = None if given is None else list(given)
    b.hash = (b.hash or []) + ['md5']
    alone = sx.flag('neither')
    if alone:
        a.checksum = b.checksum = False
        b.hash = None if given is None else list(given)
    for x in (a, b):
        o = sx.attempt(process_shared_misc_options, x, include_remote=remote)
        sx.check(o.ok, 'the options are accepted')
    ca, cb = Client(hashes=a.hash), Client(hashes=b.hash)
    for t in types:
        sx.check((t in ca.hashes) == (t in cb.hashes), 'asking for checksums is asking for md5')
        want = sx.or_(t == 'md5' and not alone, *[g == t for g in given or []])
        sx.check(want if t in ca.hashes else sx.not_(want), 'exactly the types asked for are used')
    sx.check(all([h in types for h in ca.hashes]), 'and no others')
    sx.reach('neither' if alone else 'none' if k is None else 'with hashes')


HARNESSES = [('link', p_link, {'expect': ['refused', 'attributes', 'link']}), ('links', p_links, {'expect': ['none', 'refused', 'links']}),
             ('caps', p_caps, {'expect': ['refused', 'several', 'one']}), ('lists', p_lists, {'expect': ['done']}),
             ('checksum', p_checksum, {'expect': ['neither', 'none', 'with hashes']})]
