"""Native side: runs a harness on concrete inputs against the real code.

Used to replay counterexamples and to validate passing paths.  The uninstrumented
resync from /repo runs on the real file system inside a scratch directory, as an
unprivileged user where possible; calls that would change anything outside the
scratch directory are recorded and refused.
"""
import builtins
import errno
import hashlib
import importlib
import io
import json
import logging
import os
import shutil
import stat
import sys
import tempfile
import time
import traceback
import types
import urllib.error
import urllib.request
import xml.etree.ElementTree as ET
import zipfile

from .common import CLOCK, CheckFailed, E, Effects, Headers, Response, Skip

REAL = {n: getattr(os, n) for n in ('open', 'unlink', 'remove', 'mkdir', 'rename', 'replace', 'utime', 'rmdir', 'symlink',
                                    'link', 'chmod', 'chown', 'truncate', 'stat', 'lstat', 'walk', 'listdir')}
real_open = builtins.open
real_urlopen = urllib.request.urlopen
real_time = time.time
ENV = [None]


class PlainEnv:
    symbolic = False

    def __init__(self, base):
        self.base = os.path.realpath(base)
        self.active = False
        self.effects = Effects(os.getcwd)
        self.refused = []
        self.out = []
        self.log = []
        self.keep_log = True
        self.requests = []
        self.sleeps = []
        self.handler = None
        self.clock = CLOCK
        self.fault_fn = None
        self.inputs = []

    def now(self):
        return self.clock() if callable(self.clock) else self.clock

    def dirs(self, d):
        act, self.active = self.active, False
        try:
            os.makedirs(d, exist_ok=True)
        finally:
            self.active = act

    def mkfile(self, path, content, mtime=1234567890):
        if isinstance(content, str):
            content = content.encode('utf-8')
        d = os.path.dirname(path)
        if d:
            self.dirs(d)
        with real_open(path, 'wb') as f:
            f.write(content)
        if mtime is not None:
            REAL['utime'](path, (mtime, mtime))

    def mkdir(self, path):
        self.dirs(path)

    def mkfifo(self, path):
        d = os.path.dirname(path)
        if d:
            self.dirs(d)
        os.mkfifo(path)

    def symlink(self, path, target):
        d = os.path.dirname(path)
        if d:
            self.dirs(d)
        REAL['symlink'](target, path)

    def rm(self, path):
        if os.path.isdir(path) and not os.path.islink(path):
            act, self.active = self.active, False
            shutil.rmtree(path)
            self.active = act
        elif os.path.lexists(path):
            REAL['unlink'](path)

    def content(self, path):
        if not os.path.isfile(path):
            return None
        with real_open(path, 'rb') as f:
            return f.read()

    def mtime(self, path):
        return REAL['stat'](path).st_mtime if os.path.exists(path) else None

    def kind(self, path):
        if os.path.islink(path):
            return 'link'
        if os.path.isdir(path):
            return 'dir'
        if not os.path.exists(path):
            return None
        return 'file' if os.path.isfile(path) else 'fifo'

    def tree(self, path):
        out = {}
        for d, dirs, files in REAL['walk'](path):
            for n in dirs + files:
                p = os.path.join(d, n)
                k = self.kind(p)
                out[os.path.relpath(p, path)] = (k, self.content(p) if k == 'file' else None, os.lstat(p).st_mtime)
        return out

    def blob(self, tag, size):
        return bytes([97 + tag]) * size

    def part_blob(self, b):
        return b[:-1]

    def size(self, content):
        return len(content.encode() if isinstance(content, str) else content)

    def xml(self, e):
        return e.serialize()

    def read_doc(self, path):
        c = self.content(path)
        return None if c is None else self.doc_of_text(c)

    def doc_of_text(self, text):
        try:
            return e_of(ET.fromstring(text if isinstance(text, bytes) else text.encode('utf-8')))
        except ET.ParseError:
            return None

    def digest(self, alg, content):
        return hashlib.new(alg, content).hexdigest()

    def zip_members(self, path):
        if not os.path.exists(path):
            return None
        with zipfile.ZipFile(path) as z:
            out = []
            for i in z.infolist():
                d = z.read(i)
                out.append((i.filename, d))
            return out

    # -- guards
    def inside(self, path):
        if isinstance(path, int):
            return True
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.join(os.getcwd(), p)
        d = os.path.realpath(os.path.dirname(p.rstrip('/')) or '/')
        q = os.path.realpath(p)
        return (d + '/').startswith(self.base + '/') and (q + '/').startswith(self.base + '/')

    def effect(self, op, path, *more, fault=True):
        if not self.active:
            if not self.inside(path) and not isinstance(path, int):
                raise PermissionError(13, 'outside the scratch directory', path)
            return
        if not self.inside(path):
            self.effects.append((op, path) + more)
            self.refused.append((op, path))
            raise PermissionError(13, 'refused: outside the scratch directory', path)


def e_of(el):
    out = E.__new__(E)
    out.tag = el.tag
    out.attrs = list(el.attrib.items())
    out.text = el.text
    out.kids = [e_of(k) for k in el]
    return out


class FaultyFile:
    """File whose writes may fail as the harness tells."""

    def __init__(self, f, path, mode):
        self.f, self.path, self.mode_ = f, path, mode

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __iter__(self):
        return iter(self.f)

    def write(self, x):
        e = ENV[0]
        if e is not None and e.active and e.fault_fn is not None:
            flt = e.fault_fn('write', self.path, self.mode_)
            if flt is not None:
                raise flt
        return self.f.write(x)

    def writelines(self, xs):
        for x in xs:
            self.write(x)


def patch():
    def g_open(file, mode='r', *a, **k):
        e = ENV[0]
        if e is None or isinstance(file, int):
            return real_open(file, mode, *a, **k)
        w = any(c in mode for c in 'wax+')
        if e.active and (w or e.inside(file)) and e.fault_fn is not None:
            x = e.fault_fn('open', file, mode)
            if x is not None:
                raise x
        if w:
            e.effect('write', file)
            f = real_open(file, mode, *a, **k)
            if e.active:
                e.effects.append(('write', file))
                if e.fault_fn is not None:
                    return FaultyFile(f, file, mode)
            return f
        if e.active and not w and stat.S_ISFIFO(os.stat(file).st_mode):
            raise OSError(errno.EAGAIN, 'would block for ever', file)
        return real_open(file, mode, *a, **k)
    builtins.open = g_open
    io.open = g_open

    def wrap(name, op, both=False):
        real = REAL[name]

        def fn(path, *a, **k):
            e = ENV[0]
            if e is None:
                return real(path, *a, **k)
            if e.active and op == 'unlink' and e.fault_fn is not None:
                x = e.fault_fn('unlink', path, None)
                if x is not None:
                    raise x
            e.effect(op, path, *(a[:1] if both else ()))
            if both:
                if e.active and e.fault_fn is not None:
                    x = e.fault_fn('rename', a[0], None)
                    if x is not None:
                        raise x
                e.effect(op, a[0], path)
            r = real(path, *a, **k)
            if e.active:
                e.effects.append((op, path) + tuple(a[:1] if both else ()))
            return r
        setattr(os, name, fn)
    for n, op in (('unlink', 'unlink'), ('remove', 'unlink'), ('mkdir', 'mkdir'), ('utime', 'utime'), ('rmdir', 'rmdir'),
                  ('chmod', 'chmod'), ('chown', 'chown'), ('truncate', 'write')):
        wrap(n, op)
    for n in ('rename', 'replace'):
        wrap(n, 'rename', True)

    def g_link(src, dst, *a, **k):
        e = ENV[0]
        if e is not None:
            e.effect('link', dst)
        r = REAL['symlink'](src, dst, *a, **k)
        if e is not None and e.active:
            e.effects.append(('link', dst))
        return r
    os.symlink = g_link

    def g_hard(src, dst, *a, **k):
        e = ENV[0]
        if e is not None:
            e.effect('link', dst)
        return REAL['link'](src, dst, *a, **k)
    os.link = g_hard

    def g_osopen(path, flags, *a, **k):
        e = ENV[0]
        if e is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            e.effect('write', path)
            r = REAL['open'](path, flags, *a, **k)
            if e.active:
                e.effects.append(('write', path))
            return r
        return REAL['open'](path, flags, *a, **k)
    os.open = g_osopen

    def g_time():
        e = ENV[0]
        return real_time() if e is None else e.now()
    time.time = g_time

    def g_sleep(x):
        ENV[0].sleeps.append(x)
    time.sleep = g_sleep

    def g_input(prompt=''):
        e = ENV[0]
        e.out.append(str(prompt))
        if not e.inputs:
            raise EOFError('EOF when reading a line')
        return e.inputs.pop(0)
    builtins.input = g_input

    def g_print(*args, sep=' ', end='\n', file=None, flush=False):
        e = ENV[0]
        line = (' ' if sep is None else sep).join(str(a) for a in args)
        if file is None or file is sys.stdout:
            e.out.append(line)
        elif file is sys.stderr:
            pass
        else:
            file.write(line + ('\n' if end is None else end))
    builtins.print = g_print

    def g_urlopen(url, data=None, timeout='default', **kw):
        e = ENV[0]
        req = url if isinstance(url, urllib.request.Request) else urllib.request.Request(url, data)
        u = req.full_url
        e.requests.append({'url': u, 'method': req.get_method(), 'headers': dict(req.headers), 'timeout': timeout,
                           'sleeps': len(e.sleeps)})
        if req.type == 'file':
            return real_urlopen(req)
        if e.handler is None:
            raise urllib.error.URLError('no route')
        r = e.handler(e.requests[-1])
        if isinstance(r, BaseException):
            raise r
        return r
    urllib.request.urlopen = g_urlopen

    def logfn(level):
        def fn(self, msg, *args, **kw):
            e = ENV[0]
            if e is not None:
                try:
                    e.log.append((level, str(msg) % args if args else str(msg)))
                except Exception:
                    e.log.append((level, None))
        return fn
    for n, l in (('debug', 10), ('info', 20), ('warning', 30), ('error', 40), ('critical', 50), ('exception', 40),
                 ('warn', 30)):
        setattr(logging.Logger, n, logfn(l))
        setattr(logging, n, (lambda l: lambda msg, *a, **k: logfn(l)(None, msg, *a, **k))(l))


def patch_datetime():
    """datetime.now and utcnow in resync's modules read the modelled clock."""
    import datetime as real

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real.datetime)

    class datetime(real.datetime, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            return real.datetime.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return real.datetime.fromtimestamp(time.time(), real.timezone.utc).replace(tzinfo=None)

    twin = types.ModuleType('datetime')
    twin.__dict__.update(real.__dict__)
    twin.datetime = datetime
    for n, m in list(sys.modules.items()):
        if n == 'resync' or n.startswith('resync.'):
            for k, v in list(vars(m).items()):
                if v is real.datetime:
                    setattr(m, k, datetime)
                elif v is real:
                    setattr(m, k, twin)


class Outcome:
    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc

    @property
    def kind(self):
        return 'ok' if self.ok else type(self.exc).__name__


class PlainSx:
    symbolic = False
    E = E
    Response = Response
    Headers = Headers

    def __init__(self, env, inputs, tier):
        self.env = env
        self.inp = inputs
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.observations = []
        self.reached = set()
        self.knowns = []

    @staticmethod
    def and_(*xs):
        return all(bool(x) for x in xs)

    @staticmethod
    def or_(*xs):
        return any(bool(x) for x in xs)

    @staticmethod
    def not_(x):
        return not x

    @staticmethod
    def eq(a, b):
        return a == b

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def implies(a, b):
        return (not a) or bool(b)

    def _in(self, name, default):
        if name in self.inp:
            return self.inp[name]
        self.partial = True       # the symbolic run ended before reaching this input
        return default

    def int(self, name, lo, hi):
        return self._in(name, lo)

    def bool(self, name):
        return self._in(name, False) in (1, True)

    flag = bool

    def choice(self, name, options):
        return list(options)[self._in(name, 0)]

    def among(self, name, nums):
        return self._in(name, min(nums))

    def strn(self, name, alphabet, n):
        return self._in(name, min(alphabet) * n if n else '')

    def str(self, name, alphabet, lo, hi):
        return self.strn(name, alphabet, lo)

    def ts(self, name, lo, hi, scale=0):
        return float(self._in(name, lo))

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg, **info):
        if not c:
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def known(self, fid, cond=True):
        if cond:
            self.knowns.append(fid)
            return True
        return False

    def attempt(self, fn, *a, **k):
        try:
            return Outcome(True, fn(*a, **k))
        except (Exception, SystemExit) as e:
            return Outcome(False, exc=e)

    def script(self, name):
        fn = os.path.join(os.environ.get('SYMX_REPO', '/repo'), name)
        src = SCRIPTS[name]
        ns = {'__name__': 'script:' + name}
        exec(compile(src, fn, 'exec'), ns)
        return ns

    def reach(self, label):
        self.reached.add(label)

    def observe(self, key, val):
        self.observations.append([key, ev(val)])

    def concrete(self, s):
        return s

    def exc_text(self, e):
        return str(e)


def ev(x):
    if isinstance(x, E):
        return {'xml': ev_tree(x)}
    if isinstance(x, dict):
        return {'dict': sorted([[ev(k), ev(v)] for k, v in x.items()], key=lambda kv: repr(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [ev(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((ev(y) for y in x), key=repr)
    if isinstance(x, (bytes, bytearray)):
        return {'bytes': x.hex()}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise Exception('cannot report %r' % type(x))


def ev_tree(e):
    return [e.tag, sorted([k, v] for k, v in e.attrs), e.text or None, [ev_tree(k) for k in e.kids]]


def run_case(fn, case, base):
    """Runs in a forked child; returns the result record."""
    wd = os.path.join(base, 'd1/d2/d3/w/cwd')
    os.makedirs(wd)
    try:
        if os.getuid() == 0:
            for d, ds, fs in os.walk(base):
                REAL['chown'](d, 65534, 65534)
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
    except OSError:
        pass
    os.chdir(wd)
    env = PlainEnv(base)
    ENV[0] = env
    sx = PlainSx(env, case['inputs'], case['tier'])
    rec = {'outcome': 'ok'}
    try:
        env.active = True
        fn(sx)
    except Skip:
        rec['outcome'] = 'skip'
    except CheckFailed as e:
        rec['outcome'] = 'check'
        rec['msg'] = str(e)
    except BaseException as e:
        rec['outcome'] = 'raise'
        rec['exc'] = type(e).__name__
        rec['msg'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        rec['trace'] = traceback.format_exc()[-2000:]
    rec['obs'] = sx.observations
    rec['reached'] = sorted(sx.reached)
    rec['known'] = sx.knowns
    rec['effects'] = [[str(x) for x in e] for e in env.effects[:50]]
    return rec


SCRIPTS = {}


def main(argv):
    """plain.py HARNESS CASES.json OUT.json"""
    mod, cases_fn, out_fn = argv
    with real_open(cases_fn) as f:
        cases = json.load(f)
    repo = os.environ.get('SYMX_REPO', '/repo')
    sys.path.insert(0, repo)
    patch()
    h = importlib.import_module('harness.' + mod)
    patch_datetime()
    parts = {p[0]: p[1] for p in h.HARNESSES}
    import encodings.idna  # noqa: F401  (loaded before privileges are dropped)
    import multiprocessing  # noqa: F401
    for n in os.listdir(repo):      # read before privileges are dropped
        fn = os.path.join(repo, n)
        if n.startswith('resync-') and os.path.isfile(fn):
            with real_open(fn) as f:
                SCRIPTS[n] = f.read()
    results = []
    for case in cases:
        base = tempfile.mkdtemp(prefix='symx-replay-')
        REAL['chmod'](base, 0o755)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                rec = run_case(parts[case['part']], case, base)
                data = json.dumps(rec).encode('utf-8', 'surrogatepass')
            except BaseException as e:
                data = json.dumps({'outcome': 'error', 'msg': traceback.format_exc()[-1500:]}).encode()
            ENV[0] = None
            while data:
                n = os.write(w, data)
                data = data[n:]
            os._exit(code)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        shutil.rmtree(base, ignore_errors=True)
        try:
            results.append(json.loads(data.decode('utf-8', 'surrogatepass')))
        except ValueError:
            results.append({'outcome': 'error', 'msg': 'child ended without a result'})
    with real_open(out_fn, 'w') as f:
        json.dump(results, f)


if __name__ == '__main__':
    main(sys.argv[1:])
