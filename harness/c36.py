import logging

import resync.client_utils
from resync.client_utils import count_true_args, init_logging
from resync.dump import Dump
from resync.list_base import ListBase
from resync.mapper import Mapper
from resync.resource_list_builder import ResourceListBuilder
from resync.sitemap import Sitemap
from resync.client import Client
from .lib import BASE, ROOT, LIST, Web, entry, when
from .syncs import client, local, resourcelist, served

INFO = {
    'bounds': 'every combination of console output, log file (given or default), verbose and evaluation mode and up to two further '
              'loggers; one message of symbolic severity (0-60) from any logger the package uses, one below those or one of another '
              'package; times from 2024 to 2026 (quick) or 2000 to 2034 (thorough) to 1/4 s; a baseline sync of up to two resources with all its messages',
    'outside': 'the logging library itself: loggers and handlers are stand-ins with its documented semantics (levels, propagation); '
               'setting logging up more than once; the layout of a line other than time, logger and message in it',
    'assumptions': ['loggers and handlers behave as documented by the logging library'],
}


class Handler:
    def __init__(self, where):
        self.where = where
        self.level = 0
        self.formatter = None
        self.got = []

    def setLevel(self, level):
        self.level = level

    def setFormatter(self, f):
        self.formatter = f


class Logger:
    def __init__(self, logs, name):
        self.logs = logs
        self.name = name
        self.level = 30 if name == '' else 0
        self.handlers = []

    def setLevel(self, level):
        self.level = level

    def addHandler(self, h):
        if h not in self.handlers:
            self.handlers.append(h)

    def log(self, level, text, *args):
        chain = [self]
        n = self.name
        while n != '':
            n = n.rsplit('.', 1)[0] if '.' in n else ''
            if n in self.logs.loggers:
                chain.append(self.logs.loggers[n])
        eff = 0
        for x in chain:
            if x.level != 0:
                eff = x.level
                break
        if level >= eff:
            for x in chain:
                for h in x.handlers:
                    if level >= h.level:
                        h.got.append((self.name, text % args if args else text))

    def debug(self, text, *args):
        self.log(10, text, *args)

    def info(self, text, *args):
        self.log(20, text, *args)

    def warning(self, text, *args):
        self.log(30, text, *args)

    def error(self, text, *args):
        self.log(40, text, *args)

    def critical(self, text, *args):
        self.log(50, text, *args)


class Logs:
    """Stand-ins for loggers and handlers while a block runs."""

    def __init__(self):
        self.loggers = {}
        self.handlers = []
        self.loggers[''] = Logger(self, '')

    def get(self, name=None):
        name = name or ''
        if name not in self.loggers:
            self.loggers[name] = Logger(self, name)
        return self.loggers[name]

    def add(self, where):
        h = Handler(where)
        self.handlers.append(h)
        return h

    def __enter__(self):
        def stream(stream=None):
            return self.add(('console',))

        def to_file(filename, mode='a', **kw):
            return self.add(('file', filename, mode))
        self.saved = []
        for name, fn in (('getLogger', self.get), ('StreamHandler', stream), ('FileHandler', to_file)):
            real = getattr(logging, name)
            for holder in (logging, resync.client_utils):
                for k in list(vars(holder)):
                    if vars(holder)[k] is real and not k.startswith('_'):
                        self.saved.append((holder, k, real))
                        setattr(holder, k, fn)
        return self

    def __exit__(self, *exc):
        for holder, k, real in self.saved:
            setattr(holder, k, real)
        return False

    def got(self, kind):
        """[(logger, text)] that reached this kind of handler."""
        out = []
        for h in self.handlers:
            if h.where[0] == kind:
                out = out + h.got
        return out


class Record:
    """What a formatter uses of a log record."""

    def __init__(self, created, name, text):
        self.created = created
        self.name = name
        self.levelname = 'INFO'
        self.text = text
        self.exc_info = self.exc_text = self.stack_info = None

    def getMessage(self):
        return self.text


def start(sx, logs):
    """Sets logging up; returns the options."""
    o = {'human': not sx.flag('no console'), 'verbose': sx.flag('verbose'), 'eval': sx.flag('eval'), 'file': None, 'extra': [],
         'default': 'client'}
    kw = {'verbose': o['verbose'], 'eval_mode': o['eval']}
    if not o['human']:
        kw['human'] = False
    where = sx.choice('file', ['none', 'given', 'default', 'named but off'])
    if where == 'given':
        o['file'] = kw['logfile'] = 'my.log'
    elif where == 'named but off':
        kw['logfile'] = 'my.log'
    if where in ('given', 'default'):
        kw['to_file'] = True
    if where == 'default' or sx.flag('default given'):
        kw['default_logfile'] = 'default.log'
        if where == 'default':
            o['file'] = 'default.log'
    extra = sx.choice('extra', [None, [], ['x'], ['x', 'y.z']])
    if extra is not None:
        o['extra'] = kw['extra_loggers'] = extra
    if sx.flag('other default'):
        o['default'] = kw['default_logger'] = 'main'
    a = sx.attempt(init_logging, **kw)
    sx.check(a.ok, 'logging is set up')
    files = [h.where for h in logs.handlers if h.where[0] == 'file']
    if o['file'] is None:
        sx.check(len(files) == 0, 'no log file is opened unless asked for')
    else:
        sx.check(files == [('file', o['file'], 'a')], 'the log file named, or else the default one, is appended to')
    sx.check(len([h for h in logs.handlers if h.where[0] == 'console']) == (1 if o['human'] else 0), 'there is one console if any')
    return o


def p_setup(sx):
    with Logs() as logs:
        o = start(sx, logs)
        for h in logs.handlers:
            h.got = []
        ours = ['resync', 'resync.client', 'resync.dump', 'resync.mapper', 'resync.list_base', 'resync.sitemap',
                'resync.resource_list_builder', 'resync.other', o['default']]
        name = sx.choice('logger', ours + ['x', 'y.z', 'y', 'resyncs', 'alien'])
        level = sx.int('level', 0, 60)
        logging.getLogger(name).log(level, 'message')
        seen = logs.got('console')
        kept = logs.got('file')
        covered = name in ours + o['extra']
        sx.check(len(seen) <= 1 and len(kept) <= 1, 'a message appears once')
        if not covered:
            sx.check(len(seen) == 0 and len(kept) == 0, 'messages of other packages are left alone')
            sx.reach('other')
            return
        want = level >= (20 if o['verbose'] else 30)
        sx.check(want if len(seen) else sx.or_(sx.not_(want), not o['human']),
                 'the console shows warnings, and information in verbose mode')
        sx.check(o['human'] or len(seen) == 0, 'the console is off if asked for')
        if len(seen):
            sx.reach('shown')
        want = level >= (10 if o['eval'] else 20)
        sx.check(want if len(kept) else sx.or_(sx.not_(want), o['file'] is None),
                 'the log file gets information, and everything in evaluation mode')
        if len(kept):
            sx.reach('logged')


def p_lines(sx):
    """Lines of the log file and on the console."""
    with Logs() as logs:
        init_logging(to_file=True, logfile='my.log', verbose=sx.flag('verbose'), eval_mode=sx.flag('eval'))
    sec = sx.int('sec', *([946684800, 2051222399] if sx.thorough else [1704067200, 1798761599]))
    t = sec + sx.choice('frac', [0, 0.5, 0.25])
    for h in logs.handlers:
        text = h.formatter.format(Record(1577836803.5, 'resync.x', 'some text'))
        if h.where[0] == 'console':
            sx.check(text == 'some text', 'the console shows the message only')
            sx.reach('console')
        else:
            sx.check('2020-01-01T00:00:03.5' in text and 'Z' in text and 'resync.x' in text and text.endswith('some text'),
                     'a line of the log has time, logger and message')
            s = h.formatter.formatTime(Record(t, 'resync.x', 'some text'), h.formatter.datefmt)
            # read the time back
            sx.check(s[len(s) - 1] == 'Z' and s[10] == 'T', 'times in the log are UTC')
            day = days(int(s[0:4]), int(s[5:7]), int(s[8:10]))
            sx.check(day * 86400 + int(s[11:13]) * 3600 + int(s[14:16]) * 60 + int(s[17:19]) == sec, 'times in the log are true')
            sx.reach('file')


def days(y, m, d):
    """Days since 1970-01-01 (years 1970 to 2100)."""
    n = 0
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    for i, k in enumerate([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30]):
        if m > i + 1:
            n = n + k
    if leap and m > 2:
        n = n + 1
    return 365 * (y - 1970) + (y - 1969) // 4 + n + d - 1


def p_names(sx):
    """The loggers of all parts of the package are among those set up."""
    with Logs() as logs:
        init_logging(to_file=True, logfile='my.log', eval_mode=True, verbose=True)
        what = sx.choice('what', [Client, Dump, ListBase, ResourceListBuilder, Sitemap, Mapper])
        x = what()
        for h in logs.handlers:
            h.got = []
        level = sx.int('level', 20, 60)
        x.logger.log(level, 'message')
        sx.check(len(logs.got('console')) == 1 and len(logs.got('file')) == 1, 'messages of every part of the package appear')
        sx.reach('names')


def p_sync(sx):
    """What a baseline sync shows and records."""
    env = sx.env
    verbose, ev = sx.flag('verbose'), sx.flag('eval')
    table, es, todo = {}, [], []
    for i, nm in enumerate(['a', 'x/b']):
        st = sx.choice('p%d' % i, ['source', 'dest', 'same'])
        uri = ROOT + '/' + nm
        if st == 'dest':
            local(sx, 'f%d' % i, 'd/' + nm)
            todo.append((uri, 'deleted'))
            continue
        text, ts = when(sx, 'f%d.ts' % i)
        f = served(sx, 'f%d' % i)
        es.append(entry(sx, uri, lastmod=text, length='%d' % env.size(f)))
        table[uri] = f
        if st == 'source':
            todo.append((uri, 'created'))
        else:
            env.mkfile('d/' + nm, f, ts)
    es.append(entry(sx, ROOT + '/k', lastmod='2020-01-01T00:00:01Z', length='1'))
    env.mkfile('d/k', b'k', BASE + 1)
    table[LIST] = resourcelist(sx, es)
    env.handler = Web(sx, table)
    allow = sx.flag('delete')
    with Logs() as logs:
        init_logging(to_file=True, default_logfile='my.log', verbose=verbose, eval_mode=ev)
        c = client()
        o = sx.attempt(c.baseline_or_audit, allow_deletion=allow)
        sx.check(o.ok, 'no error is reported')
        seen, kept = logs.got('console'), logs.got('file')
    done = [x for x in todo if x[1] == 'created' or allow]
    for out, msg in ((seen, 'the console shows the status before and after'), (kept, 'the log has the status before and after')):
        sx.check(len([t for n, t in out if t.startswith('Status:')]) == (2 if len(todo) else 1), msg)
    sx.check(len([t for n, t in seen if t.startswith('Event: ')]) == 0, 'events are not shown')
    got = [t for n, t in kept if t.startswith('Event: ')]
    if not ev:
        sx.check(len(got) == 0, 'events are logged in evaluation mode only')
    else:
        sx.check(len(got) == len(done), 'every event is logged in evaluation mode')
        for u, ch in done:
            sx.check(len([t for t in got if repr(u) in t and repr(ch) in t]) == 1, 'every event is logged in evaluation mode')
            sx.reach('event')
    actions = [t for n, t in seen if t.startswith(('created: ', 'updated: ', 'deleted: '))]
    sx.check(len(actions) == (len(done) if verbose else 0), 'actions are shown in verbose mode only')
    sx.reach('verbose' if verbose else 'quiet')


def p_count(sx):
    """Counting options given."""
    n = sx.choice('n', [0, 1, 2, 3])
    vs, want = [], 0
    for i in range(n):
        k = sx.choice('k%d' % i, ['none', 'text', 'number', 'list', 'flag'])
        if k == 'none':
            v, t = None, False
        elif k == 'text':
            v = sx.str('t%d' % i, 'a ', 0, 1)
            t = len(v) > 0
        elif k == 'number':
            v = sx.int('n%d' % i, -1, 2)
            t = v != 0
        elif k == 'list':
            v = sx.choice('l%d' % i, [[], [0]])
            t = len(v) > 0
        else:
            v = t = sx.bool('b%d' % i)
        vs.append(v)
        want = want + sx.ite(t, 1, 0)
    sx.check(count_true_args(*vs) == want, 'options given are counted')
    sx.reach('count')


HARNESSES = [('setup', p_setup, {'expect': ['other', 'shown', 'logged']}), ('lines', p_lines, {'expect': ['console', 'file']}),
             ('names', p_names, {'expect': ['names']}), ('sync', p_sync, {'expect': ['event', 'verbose', 'quiet']}),
             ('count', p_count, {'expect': ['count']})]
