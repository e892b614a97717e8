"""Pieces shared by the symbolic and the plain (native replay) environment."""
import pathlib
import posixpath

SM_NS = 'http://www.sitemaps.org/schemas/sitemap/0.9'
RS_NS = 'http://www.openarchives.org/rs/terms/'
CLOCK = 1500000000.25
# Checks run in a zone that is not UTC, so that a mix of local time and UTC shows.
TZ = 'VRF-05:30'
LOCAL = 19800


class E:
    """XML element in parsed form: '{ns}local' tag, attribute list, text, children."""

    def __init__(self, tag, attrs=(), text=None, kids=()):
        if tag.startswith('sm:'):
            tag = '{%s}%s' % (SM_NS, tag[3:])
        elif tag.startswith('rs:'):
            tag = '{%s}%s' % (RS_NS, tag[3:])
        self.tag = tag
        self.attrs = [(k, v) for k, v in (attrs.items() if hasattr(attrs, 'items') else attrs) if v is not None]
        self.text = text
        self.kids = [k for k in kids if k is not None]

    @property
    def local(self):
        return self.tag.rsplit('}', 1)[-1]

    def get(self, name):
        for k, v in self.attrs:
            if k == name:
                return v
        return None

    def all(self, tag):
        if tag.startswith('sm:'):
            tag = '{%s}%s' % (SM_NS, tag[3:])
        elif tag.startswith('rs:'):
            tag = '{%s}%s' % (RS_NS, tag[3:])
        return [k for k in self.kids if k.tag == tag]

    def first(self, tag):
        r = self.all(tag)
        return r[0] if r else None

    def serialize(self):
        """Namespaced XML text (used in plain mode only)."""
        out = ['<?xml version="1.0" encoding="UTF-8"?>\n']

        def esc(s, q):
            s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
            s = s.replace('\r', '&#13;')
            if q:
                s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')
            return s

        def emit(e):
            ns, local = ('', e.tag)
            if e.tag.startswith('{'):
                ns, local = e.tag[1:].split('}', 1)
            out.append('<x:%s xmlns:x="%s"' % (local, ns) if ns else '<%s' % local)
            if any(k.startswith('rs:') for k, v in e.attrs):
                out.append(' xmlns:rs="%s"' % RS_NS)
            for k, v in e.attrs:
                out.append(' %s="%s"' % (k, esc(v, True)))
            out.append('>')
            if e.text is not None:
                out.append(esc(e.text, False))
            for k in e.kids:
                emit(k)
            out.append('</x:%s>' % local if ns else '</%s>' % local)
        emit(self)
        return ''.join(out).encode('utf-8')


class Response:
    """What the web returns for a request (both modes)."""

    def __init__(self, content=None, headers=None, status=200, fail=None, partial=None, url=''):
        self.content = content       # mode-specific content
        self.hdrs = headers or {}
        self.status = self.code = status
        self.fail = fail             # exception raised once the content is read
        self.closed = False
        self.url = url
        self._parts = None
        self.partial = partial

    def info(self):
        return self.headers

    @property
    def headers(self):
        return self.hdrs if isinstance(self.hdrs, Headers) else Headers(self.hdrs)

    def getcode(self):
        return self.status

    def geturl(self):
        return self.url

    def getheader(self, n, d=None):
        v = self.headers[n]
        return d if v is None else v

    def getheaders(self):
        return list(self.hdrs.items())

    def read(self, n=-1):
        if self._parts is None:
            if self.fail is not None:
                self._parts = [self.partial] if self.partial is not None else []
                self._parts.append(self.fail)
            else:
                self._parts = [self.content] if self.content is not None else []
        if not self._parts:
            return b''
        p = self._parts[0]
        if isinstance(p, BaseException):
            self._parts.pop(0)
            raise p
        if isinstance(p, bytes) and n is not None and n >= 0 and len(p) > n:
            self._parts[0] = p[n:]
            return p[:n]
        self._parts.pop(0)
        return p

    def __iter__(self):
        while True:
            d = self.read()
            if not d:
                return
            yield d

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Headers:
    """Like email.message.Message: case-insensitive, None when missing."""

    def __init__(self, d):
        self.d = {k.lower(): v for k, v in d.items()}

    def __getitem__(self, k):
        return self.get(k)

    def get(self, k, default=None):
        v = self.d.get(k.lower(), default)
        if callable(v):             # computed when asked for
            v = self.d[k.lower()] = v()
        return v

    def __contains__(self, k):
        return k.lower() in self.d

    def keys(self):
        return list(self.d)

    def items(self):
        return [(k, self.get(k)) for k in self.d]

    def __iter__(self):
        return iter(self.d)

    def get_all(self, k, default=None):
        v = self.get(k)
        return default if v is None else [v]


class Skip(BaseException):
    """Path excluded by an assumption (plain mode)."""


class CheckFailed(BaseException):
    """An assertion failed (plain mode)."""


class Effects(list):
    """Recorded effects (operation, path...); concrete paths are kept relative to the working directory."""

    def __init__(self, cwd):
        list.__init__(self)
        self.cwd = cwd

    def norm(self, p):
        if isinstance(p, pathlib.PurePath):
            p = str(p)
        if type(p) is not str:
            return p
        q = posixpath.normpath(p)
        cwd = self.cwd()
        if q == cwd:
            return '.'
        return q[len(cwd) + 1:] if q.startswith(cwd + '/') else q

    def append(self, t):
        list.append(self, (t[0],) + tuple(self.norm(x) for x in t[1:]))
