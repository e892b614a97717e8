"""Synchronization scenarios shared by several harnesses."""
from resync.client import Client
from resync.mapper import Mapper
from .lib import BASE, ROOT, LIST, Web, entry, listing, when

CHANGES = ROOT + '/changelist.xml'
STATE = '.resync-client-status.cfg'
SITE = 'http___h_s_resourcelist_xml'      # key of LIST in the state file
KINDS = ['created', 'updated', 'deleted']



def is_state(x):
    """Effect on the state file, or on the file it is prepared in."""
    return x[1].startswith(STATE)


def client(hashes=(), **attrs):
    c = Client(hashes=hashes)
    c.mapper = Mapper([ROOT, 'd'])
    c.sitemap_name = LIST
    for k, v in attrs.items():
        setattr(c, k, v)
    return c


def local(sx, n, path, sizes=2, tags=1):
    """Destination file -> facts."""
    g = {'path': path, 'tag': sx.int(n + '.dtag', 0, tags), 'size': sx.int(n + '.dsize', 1, sizes),
         'mtime': BASE + sx.ts(n + '.mtime', 0, 9, 1)}
    g['content'] = sx.env.blob(g['tag'], g['size'])
    sx.env.mkfile(path, g['content'], g['mtime'])
    return g


def store(sx, text, site=SITE):
    """Stored state before the run (text of the time)."""
    sx.env.mkfile(STATE, '[incremental]\n%s = %s\n\n' % (site, text), BASE)


def stored():
    """Time stored for LIST as the client reads it."""
    from resync.client_state import ClientState
    return ClientState().get_state(LIST)


def served(sx, n, sizes=2, tags=1):
    return sx.env.blob(sx.int(n + '.tag', 0, tags), sx.int(n + '.size', 1, sizes))


def change(sx, uri, ch, lastmod=None, at=None, **md):
    """Change list entry; `at` is the text of the change time (1.1)."""
    if at is not None:
        md['datetime'] = at
    return entry(sx, uri, lastmod=lastmod, change=ch, **md)


def changelist(sx, entries):
    return sx.env.xml(listing(sx, 'changelist', entries))


def resourcelist(sx, entries):
    return sx.env.xml(listing(sx, 'resourcelist', entries))


def fs_effects(env):
    """Effects outside the state file."""
    return [x for x in env.effects if not is_state(x)]


def state_effects(env):
    return [x for x in env.effects if is_state(x)]
