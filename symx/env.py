"""Symbolic environment: file system, web, clock, digests, XML, date text.

Every stub stands for the documented contract of the real thing; DESIGN.md lists
them.  Replays run against the real file system, XML library, hashlib and so on.
"""
import builtins
import calendar
import collections
import configparser
import datetime
import errno
import fractions
import glob
import hashlib
import io
import operator
import os
import posixpath
import genericpath
import re
import shutil
import stat as stat_
import sys
import tempfile
import time
import types
import urllib.error
import urllib.parse
import urllib.request
import xml.etree.ElementTree as ET
import z3
import zipfile

from . import core, values
from .common import CLOCK, LOCAL, E, Effects, Headers, Response
from .core import Unsupported, Z
from .hooks import (CLASS_MODELS, CLASSMETHODS, MODELS, NATIVE_OK, _hashable, any_sym, has_sym, issym, model, to_str,
                    mkcat, call, twin_call)
from .values import (CMap, SymBool, SymBytes, SymNum, SymStr, and_, concretize_num, concretize_str, digit_items,
                     items_of, it_dom, mkbool, mknum, mkstr, not_, num_of_var, or_, parse_int, EXTRA)

ENV = [None]
TOK = 0xE800
NUMTOK = 0xEE00


def env():
    return ENV[0]


# ---------------------------------------------------------------- content

class Blob:
    """Opaque file content: equal iff tag, size and completeness are equal."""
    __slots__ = ('tag', 'size', 'part')

    def __init__(self, tag, size, part=False):
        self.tag = tag
        self.size = size
        self.part = part

    def __eq__(self, o):
        if type(o) is not Blob:
            return False
        if self.part != o.part:
            return False
        return and_(self.tag == o.tag, self.size == o.size)

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    def length(self):
        return self.size - 1 if self.part else self.size

    def __len__(self):
        return concretize_num(self.length())

    def __bool__(self):
        return bool(self.length() != 0)

    def __repr__(self):
        return '<Blob>'


class XmlDoc:
    """Serialized XML document held as its tree."""
    count = 0

    def __init__(self, root):
        self.root = root

    def encode(self, *a):
        return self

    def decode(self, *a):
        return self

    def __bool__(self):
        return True

    def __str__(self):
        raise Unsupported('text of an XML document')

    def __eq__(self, o):
        return type(o) is XmlDoc and same_tree(self.root, o.root)

    __hash__ = None

    def __len__(self):
        raise Unsupported('size of an XML document')


def same_tree(a, b):
    if a.tag != b.tag or len(a.attrs) != len(b.attrs) or len(a.kids) != len(b.kids):
        return False
    fs = []
    db = dict(b.attrs)
    for k, v in a.attrs:
        if k not in db:
            return False
        fs.append(v == db[k])
    fs.append((a.text or '') == (b.text or ''))
    for x, y in zip(a.kids, b.kids):
        fs.append(same_tree(x, y))
    return and_(*fs)


def content_size(c):
    if type(c) is Blob:
        return c.length()
    if type(c) is XmlDoc:
        p = core.cur
        if not hasattr(c, 'size'):
            c.size = num_of_var(p.fresh('xmlsize', 100, 5000))
        return c.size
    if type(c) is Mixed:
        n = 0
        for x in c.parts:
            n = n + content_size(x)
        return n
    if issym(c):
        return len(c)
    if isinstance(c, str):
        return len(c.encode('utf-8'))
    return len(c)


class Mixed:
    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, o):
        return type(o) is Mixed and len(self.parts) == len(o.parts) and and_(
            *[a == b for a, b in zip(self.parts, o.parts)])

    __hash__ = None


def join_parts(parts, text):
    ps = [p for p in parts if not (isinstance(p, (str, bytes)) and len(p) == 0)]
    if not ps:
        return '' if text else b''
    if len(ps) == 1:
        return ps[0]
    if all(isinstance(p, str) for p in ps):
        its = []
        for p in ps:
            its += items_of(p)
        return mkstr(its)
    if all(isinstance(p, bytes) for p in ps):
        its = []
        for p in ps:
            its += items_of(p)
        return mkstr(its, SymBytes)
    return Mixed(ps)


def to_char(n, base):
    """A character standing for a small symbolic integer."""
    if type(n) is not SymNum:
        return base + n
    if n.var is None or n.s != 0 or n.fl or not n.var.finite or n.var.hi - n.var.lo > 600:
        return base + concretize_num(n)
    v = n.var
    return CMap(v, {k: base + k for k in range(v.lo, v.hi + 1)})


def digest_text(alg, parts):
    """Digest string: an injective token of the content (real digest for concrete bytes)."""
    c = join_parts([p for p in parts], False)
    if type(c) is bytes:
        return hashlib.new(alg, c).hexdigest()
    head = {'md5': 0xE700, 'sha1': 0xE701, 'sha256': 0xE702}[alg]
    if type(c) is Blob:
        return mkstr([head, to_char(c.tag, TOK), to_char(c.size, TOK + 0x100), TOK + 0x300 + int(c.part)])
    if type(c) is SymBytes:
        return mkstr([head] + [to_char(num_of_var(i), TOK) if type(i) is core.Var else TOK + i for i in c.items])
    p = core.cur
    if not hasattr(p, 'opaque'):
        p.opaque = []
    for i, (x, tok) in enumerate(p.opaque):
        if x is c:
            return chr(head) + tok
    tok = chr(NUMTOK + 0x400 + len(p.opaque))
    p.opaque.append((c, tok))
    return chr(head) + tok


class SymHash:
    def __init__(self, alg, data=b''):
        self.alg = alg
        self.name = alg
        self.parts = [data] if data != b'' else []

    def update(self, d):
        if isinstance(d, str):
            raise TypeError('Strings must be encoded before hashing')
        self.parts.append(d)

    def hexdigest(self):
        return digest_text(self.alg, self.parts)

    def digest(self):
        c = join_parts(self.parts, False)
        if type(c) is bytes:
            return hashlib.new(self.alg, c).digest()
        raise Unsupported('binary digest of symbolic content')

    def copy(self):
        h = SymHash(self.alg)
        h.parts = list(self.parts)
        return h


def _hash(alg):
    def fn(data=b'', **kw):
        return SymHash(alg, data)
    return fn


for _a in ('md5', 'sha1', 'sha256'):
    MODELS[getattr(hashlib, _a)] = _hash(_a)


@model(hashlib.new)
def m_hashnew(name, data=b'', **kw):
    n = concretize_str(name).lower().replace('-', '')
    if n in ('md5', 'sha1', 'sha256'):
        return SymHash(n, data)
    return hashlib.new(name, data)


# ---------------------------------------------------------------- file system

class Node:
    __slots__ = ('kind', 'content', 'mtime', 'kids', 'target')

    def __init__(self, kind):
        self.kind = kind
        self.content = None
        self.mtime = 1234567890
        self.kids = [] if kind == 'dir' else None
        self.target = None


def oserr(cls, no, path):
    return cls(no, os.strerror(no), path)


def split_path(p):
    """Components of a path: list of str|SymStr; first is '' if absolute."""
    if isinstance(p, str):
        if issym(p):
            return p.split('/')
        return str(p).split('/')
    if hasattr(p, '__fspath__'):
        return split_path(p.__fspath__())
    raise TypeError('expected str, bytes or os.PathLike object, not %s' % type(p).__name__)


class FS:
    def __init__(self):
        self.root = Node('dir')
        self.cwd = ['w', 'cwd']
        n = self.root
        for c in self.cwd:
            k = Node('dir')
            n.kids.append((c, k))
            n = k
        self.effects = Effects(lambda: '/' + '/'.join(self.cwd))
        self.log_reads = []

    def child(self, node, name):
        for nm, k in node.kids:
            if type(nm) is str and type(name) is str:
                if nm == name:
                    return k
            elif bool(nm == name):
                return k
        return None

    def comps(self, path):
        if isinstance(path, str) and len(path) == 0:
            raise oserr(FileNotFoundError, errno.ENOENT, path)
        cs = split_path(path)
        if len(cs) > 1 and len(cs[0]) == 0:
            return cs
        return [''] + list(self.cwd) + cs

    def walk(self, path, follow=True, parent=False, depth=0):
        """(parent node, last name, node or None)."""
        if depth > 8:
            raise oserr(OSError, errno.ELOOP, path)
        cs = self.comps(path)
        trailing = len(cs) > 1 and len(cs[-1]) == 0
        stack = [self.root]
        names = [c for c in cs if len(c)]
        last = None
        for i, c in enumerate(names):
            cur = stack[-1]
            if cur is None or cur.kind != 'dir':
                if cur is None:
                    raise oserr(FileNotFoundError, errno.ENOENT, path)
                raise oserr(NotADirectoryError, errno.ENOTDIR, path)
            if bool(c == '.'):
                continue
            if bool(c == '..'):
                if len(stack) > 1:
                    stack.pop()
                continue
            k = self.child(cur, c)
            final = i == len(names) - 1
            if k is not None and k.kind == 'link' and (follow or not final or trailing):
                rest = [k.target] + [x for n in names[i + 1:] for x in ('/', n)]
                if not k.target.startswith('/'):
                    rest = ['/'] + [x for n in self.pathof(stack) for x in (n, '/')] + rest
                rest = mkstr([x for s in rest for x in items_of(s)])
                return self.walk(rest, follow, parent, depth + 1)
            stack.append(k)
            last = c
        node = stack[-1]
        if trailing and node is not None and node.kind != 'dir':
            raise oserr(NotADirectoryError, errno.ENOTDIR, path)
        par = stack[-2] if len(stack) > 1 else None
        return par, last, node

    def pathof(self, stack):
        out = []
        for a, b in zip(stack, stack[1:]):
            for nm, k in a.kids:
                if k is b:
                    out.append(nm)
        return out

    def get(self, path, follow=True):
        par, name, node = self.walk(path, follow)
        if node is None:
            raise oserr(FileNotFoundError, errno.ENOENT, path)
        return node

    def find(self, path, follow=True):
        try:
            return self.walk(path, follow)[2]
        except OSError:
            return None

    # construction by the harness (no effects logged)
    def put(self, path, kind):
        stack = [self.root]
        cs = [c for c in self.comps(path) if len(c)]
        for i, c in enumerate(cs):
            if type(c) is str and c == '.':
                continue
            if type(c) is str and c == '..':
                stack.pop()
                continue
            n = stack[-1]
            k = self.child(n, c)
            if k is None:
                k = Node('dir' if i < len(cs) - 1 else kind)
                n.kids.append((c, k))
            stack.append(k)
        k = stack[-1]
        return k

    # operations of the code under test
    def eff(self, *a):
        self.effects.append(a)

    def open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if issym(mode):
            mode = concretize_str(mode)
        if isinstance(path, int):
            raise Unsupported('open of a descriptor')
        if 'w' in mode or 'a' in mode or 'x' in mode:
            flt = env().fault('open', path, mode)
            if flt is not None:
                raise flt
            par, name, node = self.walk(path)
            if par is None or node is not None and node.kind == 'dir':
                raise oserr(IsADirectoryError, errno.EISDIR, path)
            if 'x' in mode and node is not None:
                raise oserr(FileExistsError, errno.EEXIST, path)
            cs = split_path(path)
            if len(cs[-1]) == 0:
                raise oserr(IsADirectoryError, errno.EISDIR, path)
            if node is None:
                node = Node('file')
                par.kids.append((name, node))
            self.eff('write', path)
            node.mtime = env().now()
            if 'a' not in mode:
                node.content = b'' if 'b' in mode else ''
            return SymFile(self, node, mode, path)
        if '+' in mode:
            raise Unsupported('open mode %s' % mode)
        flt = env().fault('open', path, mode)
        if flt is not None:
            raise flt
        node = self.get(path)
        if node.kind == 'dir':
            raise oserr(IsADirectoryError, errno.EISDIR, path)
        if node.kind == 'fifo':
            raise oserr(OSError, errno.EAGAIN, path)     # would block for ever
        self.log_reads.append(path)
        return SymFile(self, node, mode, path)

    def stat(self, path, follow=True):
        n = self.get(path, follow)
        return Stat(n)

    def unlink(self, path):
        flt = env().fault('unlink', path, None)
        if flt is not None:
            raise flt
        par, name, node = self.walk(path, follow=False)
        if node is None:
            raise oserr(FileNotFoundError, errno.ENOENT, path)
        if node.kind == 'dir':
            raise oserr(IsADirectoryError, errno.EISDIR, path)
        self.eff('unlink', path)
        par.kids[:] = [x for x in par.kids if x[1] is not node]

    def utime(self, path, times=None, *, ns=None, follow_symlinks=True):
        node = self.get(path)
        if ns is not None:
            raise Unsupported('utime ns')
        self.eff('utime', path)
        node.mtime = env().now() if times is None else times[1]

    def mkdir(self, path, mode=0o777):
        par, name, node = self.walk(path)
        if node is not None:
            raise oserr(FileExistsError, errno.EEXIST, path)
        self.eff('mkdir', path)
        par.kids.append((name, Node('dir')))

    def mkdirs(self, path, exist_ok=True):
        if len(path) == 0:
            return
        cs = split_path(path)
        pre = None
        made = False
        for c in cs:
            pre = c if pre is None else pre + '/' + c
            if len(pre) == 0:
                pre = ''
                continue
            if len(c) == 0:
                continue
            node = self.find(pre) if len(pre) else self.root
            if node is None:
                par, name, node = self.walk(pre)
                if node is None:
                    self.eff('mkdir', pre)
                    par.kids.append((name, Node('dir')))
                    made = True
                elif node.kind != 'dir':
                    raise oserr(FileExistsError, errno.EEXIST, path)
            elif node.kind != 'dir':
                raise oserr(FileExistsError if c is cs[-1] else NotADirectoryError,
                            errno.EEXIST if c is cs[-1] else errno.ENOTDIR, path)
        if not made and not exist_ok:
            raise oserr(FileExistsError, errno.EEXIST, path)

    def rename(self, a, b):
        flt = env().fault('rename', b, None)
        if flt is not None:
            raise flt
        par, name, node = self.walk(a, follow=False)
        if node is None:
            raise oserr(FileNotFoundError, errno.ENOENT, a)
        par2, name2, node2 = self.walk(b, follow=False)
        if node2 is not None and node2.kind == 'dir':
            raise oserr(IsADirectoryError, errno.EISDIR, b)
        self.eff('rename', a, b)
        par.kids[:] = [x for x in par.kids if x[1] is not node]
        if node2 is not None:
            par2.kids[:] = [x for x in par2.kids if x[1] is not node2]
        par2.kids.append((name2, node))

    def listdir(self, path='.'):
        n = self.get(path)
        if n.kind != 'dir':
            raise oserr(NotADirectoryError, errno.ENOTDIR, path)
        return [nm for nm, k in n.kids]

    def oswalk(self, top, topdown=True, onerror=None, followlinks=False):
        n = self.find(top)
        if n is None or n.kind != 'dir':
            return
        dirs, files = [], []
        for nm, k in n.kids:
            isd = k.kind == 'dir'
            if k.kind == 'link':
                t = self.find(posixpath_join(top, nm))
                isd = t is not None and t.kind == 'dir'
            (dirs if isd else files).append(nm)
        if topdown:
            yield top, dirs, files
        for d in dirs:
            p = posixpath_join(top, d)
            if followlinks or self.find(p, False).kind != 'link':
                yield from self.oswalk(p, topdown, onerror, followlinks)
        if not topdown:
            yield top, dirs, files


def posixpath_join(a, b):
    if bool(b.startswith('/')) if issym(b) else b.startswith('/'):
        return b
    if len(a) == 0:
        return b
    if bool(call(a.endswith, '/')):
        return a + b
    return a + '/' + b


class Stat:
    def __init__(self, n):
        self.st_mtime = n.mtime
        self.st_mtime_ns = None
        self.st_atime = n.mtime
        self.st_ctime = n.mtime
        self.st_size = content_size(n.content) if n.kind == 'file' else 0 if n.kind == 'fifo' else 4096
        self.st_mode = {'file': 0o100644, 'dir': 0o040755, 'link': 0o120777, 'fifo': 0o010644}[n.kind]
        self.st_uid = self.st_gid = 0

    def __getitem__(self, i):
        return {stat_.ST_MTIME: self.st_mtime, stat_.ST_SIZE: self.st_size, stat_.ST_MODE: self.st_mode}[i]


class SymFile:
    def __init__(self, fs, node, mode, path):
        self.node = node
        self.mode = mode
        self.name = path
        self.text = 'b' not in mode
        self.writing = any(c in mode for c in 'wax')
        self.closed = False
        self.parts = []
        if self.writing and 'a' in mode and node.content is not None and len(
                node.content if isinstance(node.content, (str, bytes)) else 'x'):
            self.parts = [node.content]
        self.pos = 0
        self.done = False

    def _data(self):
        c = self.node.content
        if c is None:
            c = b''
        if self.text and type(c) is bytes:
            return c.decode('utf-8')
        if self.text and type(c) is SymBytes:
            return c.decode()
        if not self.text and isinstance(c, str):
            return c.encode('utf-8')
        return c

    def read(self, n=-1):
        if self.writing:
            raise io.UnsupportedOperation('not readable')
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        c = self._data()
        if isinstance(c, (str, bytes)):
            if n is None or n < 0:
                r = c[self.pos:]
            else:
                r = c[self.pos:self.pos + n]
            self.pos += len(r)
            return r
        if self.text and type(c) is Blob:
            raise Unsupported('text of opaque content')
        if self.done or (type(c) is Blob and not bool(c)):
            return b''
        self.done = True
        return c

    def readlines(self):
        return list(self)

    def readline(self):
        c = self._data()
        if not isinstance(c, (str, bytes)):
            raise Unsupported('readline of opaque content')
        rest = c[self.pos:]
        nl = '\n' if self.text else b'\n'
        i = rest.find(nl)
        r = rest if i < 0 else rest[:i + 1]
        self.pos += len(r)
        return r

    def __iter__(self):
        while True:
            line = self.readline()
            if len(line) == 0:
                return
            yield line

    def write(self, x):
        if not self.writing:
            raise io.UnsupportedOperation('not writable')
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if self.text and isinstance(x, (bytes, Blob)):
            raise TypeError('write() argument must be str, not bytes')
        if not self.text and isinstance(x, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        flt = env().fault('write', self.name, self.mode)
        if flt is not None:
            raise flt
        self.parts.append(x)
        self.node.content = join_parts(self.parts, self.text)
        return 1

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def fileno(self):
        raise Unsupported('fileno')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SymIO:
    def __init__(self, initial=''):
        self.parts = [initial] if not (isinstance(initial, str) and len(initial) == 0) else []
        self.closed = False

    def write(self, x):
        self.parts.append(x)
        return 1

    def getvalue(self):
        return join_parts(self.parts, True)

    def read(self, n=-1):
        r = self.getvalue()
        self.parts = []
        return r

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class DistutilsFileError(Exception):
    pass


# ---------------------------------------------------------------- environment object

class SymEnv:
    symbolic = True

    def __init__(self):
        self.fs = FS()
        self.out = []
        self.log = []
        self.requests = []
        self.sleeps = []
        self.handler = None
        self.clock = CLOCK
        self.fault_fn = None
        self.inputs = []
        self.zips = []
        self.ntok = 0
        self.toks = []
        self.keep_log = False

    def now(self):
        return self.clock() if callable(self.clock) else self.clock

    def fault(self, op, path, mode):
        if self.fault_fn is None:
            return None
        return self.fault_fn(op, path, mode)

    # harness API (shared with PlainEnv)
    def mkfile(self, path, content, mtime=None):
        n = self.fs.put(path, 'file')
        n.kind = 'file'
        n.content = content
        if mtime is not None:
            n.mtime = mtime

    def mkdir(self, path):
        self.fs.put(path, 'dir')

    def mkfifo(self, path):
        self.fs.put(path, 'fifo')

    def symlink(self, path, target):
        n = self.fs.put(path, 'link')
        n.target = target

    def rm(self, path):
        par, name, node = self.fs.walk(path, follow=False)
        if node is not None:
            par.kids[:] = [x for x in par.kids if x[1] is not node]

    def content(self, path):
        n = self.fs.find(path)
        return n.content if n is not None and n.kind == 'file' else None

    def mtime(self, path):
        n = self.fs.find(path)
        return None if n is None else n.mtime

    def kind(self, path):
        n = self.fs.find(path, follow=False)
        return None if n is None else n.kind

    def tree(self, path):
        """{relative path: Node-like (kind, content, mtime)} for concrete names."""
        out = {}

        def rec(n, pre):
            for nm, k in n.kids:
                nm = concretize_str(nm)
                out[pre + nm] = (k.kind, k.content, k.mtime)
                if k.kind == 'dir':
                    rec(k, pre + nm + '/')
        n = self.fs.find(path)
        if n is not None and n.kind == 'dir':
            rec(n, '')
        return out

    @property
    def effects(self):
        return self.fs.effects

    def blob(self, tag, size):
        return Blob(tag, size)

    def part_blob(self, b):
        return Blob(b.tag, b.size, True)

    def size(self, content):
        return content_size(content)

    def xml(self, e):
        return XmlDoc(e)

    def read_doc(self, path):
        c = self.content(path)
        return c.root if type(c) is XmlDoc else None

    def doc_of_text(self, text):
        if type(text) is not XmlDoc:
            return None
        return text.root

    def digest(self, alg, content):
        return digest_text(alg, [content])

    def requests_made(self):
        return self.requests

    def zip_members(self, path):
        c = self.content(path)
        return c.members if isinstance(c, ZipContent) else None


def log_record(level, msg, args):
    e = env()
    if e is None:
        return
    if e.keep_log:
        from .hooks import format_percent
        e.log.append((level, to_str(msg) if not args else format_percent(to_str(msg), args)))
    else:
        e.log.append((level, None))


def do_print(args, sep, end, file):
    parts = []
    for i, a in enumerate(args):
        if i:
            parts.append(' ' if sep is None else sep)
        parts.append(a if type(a) is XmlDoc else to_str(a))
    if any(type(p) is XmlDoc for p in parts):
        line = parts[0] if len(parts) == 1 else Mixed(parts)
    else:
        line = mkcat(parts)
    if file is None or file is sys.stdout:
        e = env()
        if e is not None:
            e.out.append(line)
    elif file is sys.stderr:
        pass
    else:
        file.write(line)
        file.write('\n' if end is None else end)


# ---------------------------------------------------------------- os models

def fsmodel(*targets):
    """Model used only while a symbolic environment is active."""
    def deco(fn):
        for t in targets:
            def m(*a, _t=t, **k):
                if env() is None:
                    return _t(*a, **k)
                return fn(*a, **k)
            MODELS[t] = m
        return fn
    return deco


@fsmodel(builtins.open, io.open)
def m_open(*a, **k):
    return env().fs.open(*a, **k)


@fsmodel(os.stat)
def m_stat(path, *, dir_fd=None, follow_symlinks=True):
    return env().fs.stat(path, follow_symlinks)


@fsmodel(os.lstat)
def m_lstat(path):
    return env().fs.stat(path, False)


@fsmodel(os.unlink, os.remove)
def m_unlink(path):
    return env().fs.unlink(path)


@fsmodel(os.utime)
def m_utime(*a, **k):
    return env().fs.utime(*a, **k)


@fsmodel(os.mkdir)
def m_mkdir(path, mode=0o777):
    return env().fs.mkdir(path, mode)


@fsmodel(os.makedirs)
def m_makedirs(name, mode=0o777, exist_ok=False):
    if len(name) == 0:
        raise FileNotFoundError(2, 'No such file or directory', name)
    return env().fs.mkdirs(name, exist_ok)


@fsmodel(os.rename, os.replace)
def m_rename(a, b):
    return env().fs.rename(a, b)


@fsmodel(os.rmdir)
def m_rmdir(path):
    fs = env().fs
    par, name, node = fs.walk(path)
    if node is None:
        raise oserr(FileNotFoundError, errno.ENOENT, path)
    if node.kids:
        raise oserr(OSError, errno.ENOTEMPTY, path)
    fs.eff('rmdir', path)
    par.kids[:] = [x for x in par.kids if x[1] is not node]


@fsmodel(os.listdir)
def m_listdir(path='.'):
    return env().fs.listdir(path)


class DirEntry:
    def __init__(self, top, name):
        self.name = name
        self.path = posixpath_join(top, name)

    def is_dir(self, follow_symlinks=True):
        n = env().fs.find(self.path, follow_symlinks)
        return n is not None and n.kind == 'dir'

    def is_file(self, follow_symlinks=True):
        n = env().fs.find(self.path, follow_symlinks)
        return n is not None and n.kind == 'file'

    def is_symlink(self):
        return env().fs.find(self.path, False).kind == 'link'

    def stat(self, follow_symlinks=True):
        return env().fs.stat(self.path, follow_symlinks)


class ScanIter(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


@fsmodel(os.scandir)
def m_scandir(path='.'):
    return ScanIter([DirEntry(path, nm) for nm in env().fs.listdir(path)])


@fsmodel(os.walk)
def m_walk(top, topdown=True, onerror=None, followlinks=False):
    return env().fs.oswalk(top, topdown, onerror, followlinks)


@fsmodel(os.getcwd)
def m_getcwd():
    return '/' + '/'.join(env().fs.cwd)


for _f in (os.path.abspath, os.path.relpath):       # consult the current directory
    MODELS[_f] = (lambda f: lambda *a, **k: twin_call(f, a, k))(_f)


@fsmodel(os.path.exists)
def m_exists(p):
    return env().fs.find(p) is not None


@fsmodel(os.path.lexists)
def m_lexists(p):
    return env().fs.find(p, False) is not None


@fsmodel(os.path.isdir, genericpath.isdir)
def m_isdir(p):
    n = env().fs.find(p)
    return n is not None and n.kind == 'dir'


@fsmodel(os.path.isfile, genericpath.isfile)
def m_isfile(p):
    n = env().fs.find(p)
    return n is not None and n.kind == 'file'


@fsmodel(os.path.islink)
def m_islink(p):
    n = env().fs.find(p, False)
    return n is not None and n.kind == 'link'


@fsmodel(os.path.getsize)
def m_getsize(p):
    return env().fs.stat(p).st_size


@fsmodel(os.path.getmtime)
def m_getmtime(p):
    return env().fs.stat(p).st_mtime


@fsmodel(os.access)
def m_access(p, mode, **k):
    return env().fs.find(p) is not None


@fsmodel(os.path.realpath)
def m_realpath(p, **k):
    # links are resolved component-wise only for concrete paths
    fs = env().fs
    p = posixpath.join('/' + '/'.join(fs.cwd), p) if not issym(p) else posixpath_join('/' + '/'.join(fs.cwd), p)
    cs = [c for c in split_path(p) if len(c)]
    out = ''
    for i, c in enumerate(cs):
        if bool(c == '.'):
            continue
        if bool(c == '..'):
            out = out.rpartition('/')[0]
            continue
        nxt = out + '/' + c
        n = fs.find(nxt, False)
        if n is not None and n.kind == 'link':
            t = n.target if n.target.startswith('/') else out + '/' + n.target
            rest = t
            for x in cs[i + 1:]:
                rest = rest + '/' + x
            return m_realpath(rest)
        out = nxt
    return out if len(out) else '/'


@fsmodel(shutil.copyfileobj)
def m_copyfileobj(fsrc, fdst, length=0):
    while True:
        buf = fsrc.read(length or 65536)
        if isinstance(buf, (str, bytes)) and len(buf) == 0:
            break
        if not buf:
            break
        fdst.write(buf)


@fsmodel(shutil.copyfile, shutil.copy, shutil.copy2)
def m_copyfile(src, dst, **k):
    fs = env().fs
    with fs.open(src, 'rb') as a:
        with fs.open(dst, 'wb') as b:
            m_copyfileobj(a, b)
    return dst


@fsmodel(shutil.move)
def m_move(a, b, **k):
    env().fs.rename(a, b)
    return b


def _unsupported(f):
    def fn(*a, **k):
        raise Unsupported('%s.%s' % (f.__module__, f.__name__))
    return fn


for _f in (shutil.rmtree, shutil.copytree, shutil.copymode, shutil.copystat, shutil.chown, shutil.make_archive,
           shutil.unpack_archive, tempfile.mkstemp, tempfile.mkdtemp, tempfile.NamedTemporaryFile, tempfile.TemporaryFile,
           glob.glob, glob.iglob, os.open, os.chmod, os.chown, os.link, os.truncate, os.removedirs, os.renames, os.system,
           os.chdir, os.fwalk, os.path.expanduser, os.path.samefile):
    if _f not in MODELS:
        MODELS[_f] = _unsupported(_f)


@fsmodel(time.time)
def m_time():
    return env().now()


@fsmodel(time.sleep)
def m_sleep(x):
    env().sleeps.append(x)


@fsmodel(builtins.input)
def m_input(prompt=''):
    e = env()
    e.out.append(to_str(prompt))
    if not e.inputs:
        raise EOFError('EOF when reading a line')
    return e.inputs.pop(0)


# ---------------------------------------------------------------- web

class SymRequest:
    def __init__(self, url, data=None, headers=None, origin_req_host=None, unverifiable=False, method=None):
        self.url = url
        self.full_url = url
        self.data = data
        self._method = method
        self.headers = {}
        for k, v in (headers or {}).items():
            self.headers[k.capitalize()] = v

    def add_header(self, k, v):
        self.headers[k.capitalize()] = v

    def get_header(self, k, d=None):
        return self.headers.get(k.capitalize(), d)

    def has_header(self, k):
        return k.capitalize() in self.headers

    def get_method(self):
        return self._method or ('POST' if self.data is not None else 'GET')

    def get_full_url(self):
        return self.full_url

    @property
    def method(self):
        return self._method

    def header_items(self):
        return list(self.headers.items())


CLASS_MODELS[urllib.request.Request] = SymRequest


def split_scheme(url):
    """(scheme, rest) of a URL text or (None, url)."""
    i = url.find(':')
    if i < 1:
        return None, url
    s = url[:i]
    if issym(s):
        s = concretize_str(s)
    if not re.match(r'[A-Za-z][A-Za-z0-9+.\-]*$', s):
        return None, url
    return s.lower(), url[i + 1:]


@fsmodel(urllib.request.urlopen)
def m_urlopen(url, data=None, timeout='default', **kw):
    e = env()
    req = url if isinstance(url, SymRequest) else SymRequest(url, data)
    u = req.full_url
    rec = {'url': u, 'method': req.get_method(), 'headers': req.headers, 'timeout': timeout, 'sleeps': len(e.sleeps)}
    e.requests.append(rec)
    scheme, rest = split_scheme(u)
    if scheme is None:
        raise ValueError('unknown url type: %r' % (concretize_str(u),))
    if scheme == 'file':
        return open_file_url(e, u, rest)
    if e.handler is None:
        raise urllib.error.URLError('no route')
    r = e.handler(rec)
    if isinstance(r, BaseException):
        raise r
    return r


def open_file_url(e, u, rest):
    if bool(call(rest.startswith, '//')):
        if not bool(call(rest[2:].startswith, '/')):
            raise urllib.error.URLError('file:// scheme is supported only on localhost')
        rest = rest[2:]
    i = call(rest.find, '#')
    if i >= 0:
        rest = rest[:i]
    if bool(call(lift(rest).contains, '%')):
        rest = urllib.parse.unquote(concretize_str(rest))
    n = e.fs.find(rest)
    if n is None or n.kind == 'dir':
        raise urllib.error.URLError(FileNotFoundError(2, 'No such file or directory') if n is None else
                                    IsADirectoryError(21, 'Is a directory'))
    e.fs.log_reads.append(rest)
    sz = content_size(n.content)
    r = Response(n.content if not isinstance(n.content, str) else n.content.encode(),
                 Headers({'Content-type': lambda: file_type(rest), 'Content-length': to_str(sz),
                          'Last-modified': lambda: http_date(n.mtime)}), None, url=u)
    r.fileish = True
    return r


def file_type(name):
    import mimetypes
    if issym(name):
        name = concretize_str(name)
    return mimetypes.guess_type(name)[0] or 'text/plain'


def http_date(t):
    """email.utils.formatdate(t, usegmt=True)"""
    d = dt_from_ts(t)
    if d is None:
        import email.utils
        return email.utils.formatdate(t, usegmt=True)
    day = concretize_num(d.day)
    w = datetime.date(d.year, d.month, day)
    return mkcat(['%s, %02d %s %04d ' % (DAYNAMES[w.weekday()], day, MONTHNAMES[d.month - 1], d.year),
                  d._2(d.hour), ':', d._2(d.minute), ':', d._2(d.second), ' GMT'])


DAYNAMES = 'Mon Tue Wed Thu Fri Sat Sun'.split()
MONTHNAMES = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()


def lift(s):
    return s if issym(s) else SymStr(items_of(s))


# ---------------------------------------------------------------- XML

def tree_of(elem):
    """Parsed form of what serializing elem and parsing it again gives."""
    def serr(x):
        return TypeError('cannot serialize %r (type %s)' % (x if not issym(x) else '?', x.__class__.__name__))

    def rec(el, ns):
        ns = dict(ns)
        attrs = []
        for k, v in el.attrib.items():
            if not isinstance(k, str):
                raise serr(k)
            if not isinstance(v, str):
                raise serr(v)
            if k == 'xmlns':
                ns[''] = v
            elif k.startswith('xmlns:'):
                ns[k[6:]] = v
            else:
                attrs.append((k, v))

        def resolve(tag, isattr):
            if tag.startswith('{'):
                return tag
            if ':' in tag:
                p, l = tag.split(':', 1)
                if p == 'xml':
                    return '{http://www.w3.org/XML/1998/namespace}' + l
                if p not in ns:
                    raise Unsupported('unbound XML prefix')
                return '{%s}%s' % (ns[p], l)
            if isattr or not ns.get(''):
                return tag
            return '{%s}%s' % (ns[''], tag)
        t = el.text
        if t is not None and not isinstance(t, str):
            raise serr(t)
        if t is not None and len(t) == 0:
            t = None
        kids = [rec(k, ns) for k in el]
        out = E.__new__(E)
        out.tag = resolve(el.tag, False)
        out.attrs = [(resolve(k, True), v) for k, v in attrs]
        out.text = t
        out.kids = kids
        return out
    return rec(elem, {})


def elem_of(e):
    el = ET.Element(e.tag, dict(e.attrs))
    el.text = e.text if e.text is not None and len(e.text) else None
    for k in e.kids:
        el.append(elem_of(k))
    return el


def m_etwrite(self, file_or_filename, encoding=None, xml_declaration=None, default_namespace=None, method=None, *,
              short_empty_elements=True):
    doc = XmlDoc(tree_of(self.getroot()))
    if hasattr(file_or_filename, 'write') and not isinstance(file_or_filename, str):
        file_or_filename.write(doc)
    else:
        with env().fs.open(file_or_filename, 'w') as f:
            f.write(doc)


MODELS[ET.ElementTree.write] = m_etwrite


@model(ET.tostring)
def m_tostring(element, encoding=None, method=None, **kw):
    return XmlDoc(tree_of_loose(element))


def tree_of_loose(element):
    """tostring of a fragment: prefixes may be unbound; keep raw tags."""
    def rec(el):
        out = E.__new__(E)
        out.tag = el.tag
        out.attrs = list(el.attrib.items())
        for k, v in out.attrs:
            if not isinstance(v, str):
                raise TypeError('cannot serialize')
        if el.text is not None and not isinstance(el.text, str):
            raise TypeError('cannot serialize')
        out.text = el.text
        out.kids = [rec(k) for k in el]
        return out
    return rec(element)


def m_parse(source, *a, **k):
    if hasattr(source, 'read'):
        c = source.read()
    else:
        c = env().fs.open(source, 'rb').read()
    if type(c) is not XmlDoc:
        raise ET.ParseError('not XML')
    return ET.ElementTree(elem_of(c.root))


MODELS[ET.parse] = m_parse


def m_fromstring(text, *a, **k):
    if type(text) is not XmlDoc:
        raise ET.ParseError('not XML')
    return elem_of(text.root)


MODELS[ET.fromstring] = m_fromstring
NATIVE_OK.add(ET.SubElement)


def install_defused():
    try:
        import defusedxml.ElementTree as D
    except ImportError:
        sys.path.append('/opt/venv/lib/python3.12/site-packages')
        import defusedxml.ElementTree as D
    MODELS[D.parse] = m_parse
    MODELS[D.fromstring] = m_fromstring
    MODELS[D.tostring] = m_tostring


def install_distutils():
    try:
        import distutils.dir_util as du
    except ImportError:
        d = types.ModuleType('distutils')
        du = types.ModuleType('distutils.dir_util')
        de = types.ModuleType('distutils.errors')
        d.dir_util = du
        d.errors = de
        de.DistutilsFileError = DistutilsFileError

        def mkpath(name, mode=0o777, verbose=1, dry_run=0):
            raise Unsupported('mkpath outside the model')
        du.mkpath = mkpath
        du.DistutilsFileError = DistutilsFileError
        sys.modules['distutils'] = d
        sys.modules['distutils.dir_util'] = du
        sys.modules['distutils.errors'] = de

    def m_mkpath(name, mode=0o777, verbose=True, **kw):
        # setuptools' version remembers directories made by the process
        made = env().__dict__.setdefault('mkpath_made', set())
        path = None if issym(name) else (tuple(env().fs.cwd), str(name))
        if path is not None and path in made:
            return
        try:
            env().fs.mkdirs(name, True)
        except OSError as e:
            raise DistutilsFileError('could not create')
        made.add(path)
    MODELS[du.mkpath] = m_mkpath


# ---------------------------------------------------------------- zip files

class ZipContent:
    def __init__(self):
        self.members = []      # (arcname, content)

    __hash__ = None


class SymZip:
    def __init__(self, file, mode='r', compression=0, allowZip64=True, compresslevel=None, **kw):
        self.filename = file
        self.mode = mode
        if mode not in ('w',):
            raise Unsupported('ZipFile mode %s' % mode)
        self.fh = env().fs.open(file, 'wb')
        self.content = ZipContent()
        self.fh.node.content = self.content
        self.closed = False

    def writestr(self, name, data, *a, **k):
        self.content.members.append((name, data))

    def write(self, filename, arcname=None, *a, **k):
        with env().fs.open(filename, 'rb') as f:
            data = f.node.content
        if arcname is None:
            arcname = filename
        # as ZipInfo.from_file: normalized, leading separators dropped
        arc = call(posixpath.normpath, arcname)
        while len(arc) and bool(arc[0] == '/'):
            arc = arc[1:]
        self.content.members.append((arc, data))

    def namelist(self):
        return [n for n, d in self.content.members]

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


CLASS_MODELS[zipfile.ZipFile] = SymZip
_cs = content_size


def content_size(c):   # noqa: F811
    if isinstance(c, ZipContent):
        return 1000
    return _cs(c)


# ---------------------------------------------------------------- numbers as text, dates

def float_text(x):
    """str() of a symbolic float: an opaque token that float() maps back."""
    e = env()
    for i, y in enumerate(e.toks):
        if y is x:
            return chr(NUMTOK + i)
    e.toks.append(x)
    return chr(NUMTOK + len(e.toks) - 1)


class SymDec(values.Sym):
    """d / 10**n for a symbolic integer d (the float nearest to it)."""
    __slots__ = ('d', 'n')

    def __init__(self, d, n):
        self.d = d
        self.n = n

    @property
    def __class__(self):
        return float

    def __radd__(self, o):
        # o: integer seconds.  The double sum is o + d/10**n rounded to the grid of the binade of o.
        x = SymNum.lift(o)
        if x is None or x.s != 0:
            raise Unsupported('decimal fraction added to a fraction')
        # o is whole, so o + d/10**n < o + 1 stays in the binade of o
        k = binade(x)
        sc = 52 - k
        m = 10 ** self.n
        dd = SymNum.lift(self.d)
        # nearest multiple of 2**-22 (no ties: see DESIGN.md)
        num = dd.e * (1 << (sc + 1)) + m
        fr = num / (2 * m)
        return mknum(x.e * (1 << sc) + fr, x.vs | dd.vs, sc, True)

    __add__ = __radd__

    def _cmp0(self, o, op):
        if o == 0:
            return op(self.d, 0)
        raise Unsupported('comparison of a decimal fraction')

    def __eq__(self, o):
        return self._cmp0(o, lambda a, b: a == b)

    def __bool__(self):
        return bool(self.d != 0)

    def __hash__(self):
        raise Unsupported('hash')


def parse_float(s):
    its = s.items if issym(s) else items_of(s)
    if len(its) == 1 and type(its[0]) is int and NUMTOK <= its[0] < NUMTOK + 0x400:
        return env().toks[its[0] - NUMTOK].to_float()
    if issym(s):
        st = s.strip()
        if not issym(st):
            return parse_float_c(st)
        i = st.find('.')
        if i == 0 and bool(lift(st[1:]).isdigit()):
            n = len(st) - 1
            if n > 9:
                raise Unsupported('long decimal fraction')
            d = parse_int(st[1:])
            if not issym(d):
                return d / 10.0 ** n if d else 0.0
            return SymDec(d, n)
        if i < 0:
            try:
                r = parse_int(st)
                return r.to_float() if issym(r) else float(r)
            except ValueError:
                pass
        return float(concretize_str(st))
    return parse_float_c(s)


def parse_float_c(s):
    if len(s) == 1 and NUMTOK <= ord(s) < NUMTOK + 0x400:
        return env().toks[ord(s) - NUMTOK].to_float()
    return float(s)


def _model_float(*args):
    if args and type(args[0]) is str and len(args[0]) == 1 and env() is not None and \
            NUMTOK <= ord(args[0]) < NUMTOK + len(env().toks):
        r = env().toks[ord(args[0]) - NUMTOK]
        return r.to_float()
    return _float0(*args)


_float0 = CLASS_MODELS[float]
CLASS_MODELS[float] = _model_float


def float_add(x, c):
    """x + c in double arithmetic for a tiny constant c off the dyadic grid."""
    n, d = c.as_integer_ratio()
    if d.bit_length() - 1 <= values.MAXSCALE:
        return None
    if 0 < c < 2.0 ** -23:
        k = binade(x)
        if x.s > 52 - k:
            raise Unsupported('float finer than its binade')
        # x is a multiple of the binade's unit 2**(k-52), so x + c rounds to x + (c rounded to that unit)
        r = round(c * 2.0 ** (52 - k))
        return x.to_float() if r == 0 else mknum(x.e * (1 << (52 - k - x.s)) + r, x.vs, 52 - k, True)
    raise Unsupported('float addition off the dyadic grid')


def binade(x):
    """k with 2**k <= x < 2**(k+1) (forks)."""
    for k in (30, 31, 32, 29, 28, 27, 26, 25, 24, 33, 34, 35, 36, 37):
        lo, hi = 2 ** (k + x.s), 2 ** (k + 1 + x.s)
        if bool(mkbool(Z(z3.And(x.e >= lo, x.e < hi), x.vs))):
            return k
    raise Unsupported('number outside the modelled binades')


EXTRA['float_add'] = float_add


class SymDateTime:
    """datetime.datetime with symbolic fields (year and month concrete)."""

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond
        self.tzinfo = tzinfo

    __class__ = property(lambda self: datetime.datetime)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('datetime.%s of a symbolic time' % name)

    def timetuple(self):
        return SymStruct((self.year, self.month, self.day, self.hour, self.minute, self.second, 0, 0, -1))

    def _off(self):
        return tz_offset(self.tzinfo)

    def _utc(self):
        """Whole seconds since the epoch, the fields taken as UTC less the zone's offset."""
        return calendar.timegm(tuple(self.timetuple())) - (self._off() if self.tzinfo is not None else 0)

    def utctimetuple(self):
        return m_gmtime(self._utc())

    def utcoffset(self):
        return None if self.tzinfo is None else datetime.timedelta(seconds=self._off())

    def date(self):
        raise Unsupported('date of a symbolic time')

    def astimezone(self, tz=None):
        t = self._utc() - (LOCAL if self.tzinfo is None else 0)
        tz = tz or datetime.timezone(datetime.timedelta(seconds=LOCAL))
        r = lift_dt(t + tz_offset(tz))
        r.microsecond = self.microsecond
        r.tzinfo = tz
        return r

    def __sub__(self, o):
        if isinstance(o, (SymDateTime, datetime.datetime)):
            if (self.tzinfo is None) != (o.tzinfo is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return SymDelta(self._utc() - lift_dt(o)._utc(), self.microsecond - o.microsecond)
        if isinstance(o, (SymDelta, datetime.timedelta)):
            return self + -1 * lift_delta(o)
        return NotImplemented

    def __rsub__(self, o):
        return lift_dt(o) - self

    def __add__(self, o):
        if not isinstance(o, (SymDelta, datetime.timedelta)):
            return NotImplemented
        o = lift_delta(o)
        if issym(o.us) or issym(self.microsecond):
            if bool(o.us == 0):
                us, c = self.microsecond, 0
            elif bool(self.microsecond == 0):
                us, c = o.us % 1000000, o.us // 1000000
            else:
                us = self.microsecond + o.us
                us, c = us % 1000000, us // 1000000
        else:
            c, us = divmod(self.microsecond + o.us, 1000000)
        r = lift_dt(calendar.timegm(tuple(self.timetuple())) + o.s + c)
        r.microsecond = us
        r.tzinfo = self.tzinfo
        return r

    __radd__ = __add__

    def _cmp(self, o, op):
        if not isinstance(o, (SymDateTime, datetime.datetime)):
            return NotImplemented
        o = lift_dt(o)
        return op(self._utc() * 1000000 + self.microsecond, o._utc() * 1000000 + o.microsecond)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    __hash__ = None

    def replace(self, **kw):
        d = dict(year=self.year, month=self.month, day=self.day, hour=self.hour, minute=self.minute,
                 second=self.second, microsecond=self.microsecond, tzinfo=self.tzinfo)
        d.update(kw)
        return SymDateTime(**d)

    def _2(self, n, w=2):
        if not issym(n):
            return '%0*d' % (w, n)
        return mkstr(digit_items(n, w))

    def isoformat(self, sep='T', timespec='auto'):
        out = [self._2(self.year, 4), '-', self._2(self.month), '-', self._2(self.day), sep, self._2(self.hour), ':',
               self._2(self.minute), ':', self._2(self.second)]
        us = self.microsecond
        if timespec == 'microseconds' or (timespec == 'auto' and bool(us != 0)):
            out += ['.', self._2(us, 6)]
        elif timespec not in ('auto', 'seconds'):
            raise Unsupported('isoformat timespec %s' % timespec)
        if self.tzinfo is not None:
            m = self._off() // 60
            out.append('%s%02d:%02d' % ('-' if m < 0 else '+', abs(m) // 60, abs(m) % 60))
        its = []
        for o in out:
            its += items_of(o)
        return mkstr(its)

    def strftime(self, fmt):
        m = {'%Y': lambda: self._2(self.year, 4), '%m': lambda: self._2(self.month), '%d': lambda: self._2(self.day),
             '%H': lambda: self._2(self.hour), '%M': lambda: self._2(self.minute), '%S': lambda: self._2(self.second),
             '%f': lambda: self._2(self.microsecond, 6), '%%': lambda: '%'}
        out = []
        i = 0
        while i < len(fmt):
            if fmt[i] == '%':
                if fmt[i:i + 2] not in m:
                    raise Unsupported('strftime %s' % fmt[i:i + 2])
                out += items_of(m[fmt[i:i + 2]]())
                i += 2
            else:
                out.append(ord(fmt[i]))
                i += 1
        return mkstr(out)

    def timestamp(self):
        t = self._utc() - (LOCAL if self.tzinfo is None else 0)
        if bool(self.microsecond == 0):
            return t.to_float() if issym(t) else float(t)
        raise Unsupported('timestamp() with microseconds')


class SymStruct(tuple):
    """time.struct_time with symbolic fields (day of the week and of the year not modelled)."""

    for _i, _n in enumerate(('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec')):
        locals()[_n] = property(lambda self, i=_i: tuple.__getitem__(self, i))


class SymDelta:
    """datetime.timedelta: whole seconds and microseconds (not normalized)."""

    __class__ = property(lambda self: datetime.timedelta)

    def __init__(self, s, us):
        self.s, self.us = s, us

    def total_seconds(self):
        if bool(self.us == 0):
            return self.s.to_float() if issym(self.s) else float(self.s)
        if not issym(self.us):
            f = fractions.Fraction(self.us, 1000000)
            if f.denominator & (f.denominator - 1) == 0:
                return self.s + self.us / 1000000
        raise Unsupported('total_seconds() with microseconds')

    def _norm(self):
        c = self.us // 1000000
        return self.s + c, self.us - c * 1000000

    days = property(lambda self: self._norm()[0] // 86400)
    seconds = property(lambda self: self._norm()[0] % 86400)
    microseconds = property(lambda self: self._norm()[1])

    def __rmul__(self, k):
        if k != -1:
            raise Unsupported('product of a symbolic timedelta')
        return SymDelta(-self.s, -self.us)

    def __neg__(self):
        return SymDelta(-self.s, -self.us)

    def __truediv__(self, o):
        if o != datetime.timedelta(seconds=1):
            raise Unsupported('quotient of a symbolic timedelta')
        return self.total_seconds()

    def __floordiv__(self, o):
        if o != datetime.timedelta(seconds=1):
            raise Unsupported('quotient of a symbolic timedelta')
        return self._norm()[0]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('timedelta.%s of a symbolic time' % name)


def lift_delta(d):
    return d if type(d) is SymDelta else SymDelta(d.days * 86400 + d.seconds, d.microseconds)


def lift_dt(d):
    """A SymDateTime of a datetime or of whole seconds since the epoch."""
    if type(d) is SymDateTime:
        return d
    if not isinstance(d, datetime.datetime):
        if issym(d):
            return dt_from_ts(d)
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=d)
    return SymDateTime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo)


def tz_offset(tz):
    """Offset of a zone in seconds; only zones whose offset does not depend on the date."""
    if tz is None:
        return 0
    a, b = (tz.utcoffset(datetime.datetime(2020, m, 1)) for m in (1, 7))
    if a != b:
        raise Unsupported('time zone with changing offset')
    return int(a.total_seconds())


def m_gmtime(t=None):
    t = env().now() if t is None else t
    if not issym(t):
        return time.gmtime(t)
    return dt_from_ts(t.__floor__() if t.s else t).timetuple()


def m_localtime(t=None):
    t = env().now() if t is None else t
    if not issym(t):
        return time.localtime(t)
    return m_gmtime(t + LOCAL)


def m_mktime(tt):
    if not any(issym(x) for x in tuple(tt)):
        return time.mktime(tuple(tt))
    t = calendar.timegm(tuple(tt)) - LOCAL
    return t.to_float() if issym(t) else float(t)


def m_strftime(fmt, tt=None):
    tt = m_localtime() if tt is None else tt
    if not any(issym(x) for x in tuple(tt)):
        return time.strftime(fmt, tt)
    return SymDateTime(*tuple(tt)[:6]).strftime(fmt)


MODELS.update({time.gmtime: m_gmtime, time.localtime: m_localtime, time.mktime: m_mktime, time.strftime: m_strftime})


def days_to_date(days):
    """(year, month, day) of a possibly symbolic day count since the epoch; forks on year and month."""
    if not issym(days):
        d = datetime.date(1970, 1, 1) + datetime.timedelta(days=days)
        return d.year, d.month, d.day
    base = datetime.date(1970, 1, 1).toordinal()
    lo = values._least(days)
    d = datetime.date.fromordinal(base + lo)
    y, m = d.year, d.month
    for _ in range(2000):
        first = datetime.date(y, m, 1).toordinal() - base
        ny, nm = (y, m + 1) if m < 12 else (y + 1, 1)
        nxt = datetime.date(ny, nm, 1).toordinal() - base
        if bool(and_(days >= first, days < nxt)):
            return y, m, days - first + 1
        y, m = ny, nm
    raise Unsupported('date range')


def dt_from_ts(t):
    if not issym(t):
        return None
    if t.s == 0:
        sec, us = t.trunc(), 0
    else:
        sec = t.__floor__()
        frac = (t - sec)            # exact
        # microseconds rounded half to even, as CPython does
        us = round(frac * 1000000) if issym(frac) else round(frac * 1e6)
        if bool(us == 1000000):
            sec, us = sec + 1, 0
    days = sec // 86400
    rem = sec % 86400
    y, m, d = days_to_date(days)
    return SymDateTime(y, m, d, rem // 3600, (rem // 60) % 60, rem % 60, us)


def m_utcfromtimestamp(t):
    if not issym(t):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return datetime.datetime.utcfromtimestamp(t)
    return dt_from_ts(t)


def m_fromtimestamp(t, tz=None):
    if not issym(t):
        return datetime.datetime.fromtimestamp(t, tz)
    r = dt_from_ts(t + (LOCAL if tz is None else tz_offset(tz)))
    r.tzinfo = tz
    return r


CLASSMETHODS[(datetime.datetime, 'utcfromtimestamp')] = m_utcfromtimestamp
CLASSMETHODS[(datetime.datetime, 'fromtimestamp')] = m_fromtimestamp
CLASSMETHODS[(datetime.datetime, 'utcnow')] = lambda: m_utcfromtimestamp(env().now() if env() else time.time())
CLASSMETHODS[(datetime.datetime, 'now')] = lambda tz=None: m_fromtimestamp(env().now() if env() else time.time(), tz)


def m_datetime(*a, **k):
    if not any_sym(a, k):
        return datetime.datetime(*a, **k)
    names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']
    d = dict(zip(names, a))
    d.update(k)
    return checked_datetime(**d)


def checked_datetime(year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, err=ValueError):
    year = concretize_num(year)
    if not 1 <= year <= 9999:
        raise err('year %i is out of range' % year)
    if not bool(and_(month >= 1, month <= 12)):
        raise err('month must be in 1..12')
    month = concretize_num(month)
    dim = calendar.monthrange(year, month)[1]
    if not bool(and_(day >= 1, day <= dim)):
        raise err('day is out of range for month')
    if not bool(and_(hour >= 0, hour <= 23)):
        raise err('hour must be in 0..23')
    if not bool(and_(minute >= 0, minute <= 59)):
        raise err('minute must be in 0..59')
    if not bool(and_(second >= 0, second <= 59)):
        raise err('second must be in 0..59')
    return SymDateTime(year, month, day, hour, minute, second, microsecond, tzinfo)


CLASS_MODELS[datetime.datetime] = m_datetime


def m_dateparse(timestr, *a, **k):
    if not issym(timestr):
        return _dateutil().parse(timestr, *a, **k)
    if a or k:
        raise Unsupported('dateutil options')
    s = timestr
    n = len(s)
    shape = {17: 'dddd-dd-ddTdd:ddZ', 20: 'dddd-dd-ddTdd:dd:ddZ'}.get(n)
    if shape is None:
        raise Unsupported('dateutil.parse of this text')
    for c, f in zip(s, shape):
        if f == 'd':
            ok = bool(and_(c >= '0', c <= '9'))
        else:
            ok = bool(c == f)
        if not ok:
            return _dateutil().parse(concretize_str(s))

    def num(a, b):
        return parse_int(s[a:b]) if issym(s[a:b]) else int(s[a:b])
    import dateutil.tz
    return checked_datetime(num(0, 4), num(5, 7), num(8, 10), num(11, 13), num(14, 16),
                            num(17, 19) if n == 20 else 0, 0, dateutil.tz.tzutc(), err=_dateutil().ParserError)


def _dateutil():
    import dateutil.parser
    return dateutil.parser


def install_dateutil():
    import dateutil.parser
    MODELS[dateutil.parser.parse] = m_dateparse


def install_configparser():
    """The code under test gets an instrumented copy of the pure-Python configparser."""
    from .instr import std_module, instrument
    m = std_module('configparser')
    exec(instrument(CHAIN, '<chain>', m.__name__), m.__dict__)
    sys.modules['configparser'] = m


CHAIN = '''
class _ChainMap:            # as collections.ChainMap

    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for mapping in self.maps:
            if key in mapping:
                return mapping[key]
        raise KeyError(key)

    def __contains__(self, key):
        for mapping in self.maps:
            if key in mapping:
                return True
        return False

    def get(self, key, default=None):
        return self[key] if key in self else default

    def keys(self):
        d = {}
        for mapping in reversed(self.maps):
            for k in mapping:
                d[k] = None
        return list(d)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]
'''


def install():
    install_defused()
    install_distutils()
    install_dateutil()
    install_configparser()
