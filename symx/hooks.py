"""Run-time hooks called from instrumented code.

Every call, subscript, membership test, formatting and dict/set display of the
instrumented code comes through here.  Operations on concrete values go to the
real implementation; operations involving symbolic values go to a model of the
C-implemented primitive; anything without a model raises Unsupported (no verdict).
"""
import builtins
import collections
import functools
import io
import math
import operator
import os
import re
import sys
import types

from . import core
from .core import Unsupported
from .values import (Sym, SymBool, SymBytes, SymFrac, SymNum, SymStr, PatStr, allow_hash, and_, concretize_num,
                     concretize_str, digits_of, it_dom, items_of, mkbool, mkstr, not_, or_, parse_int)

INSTRUMENTED = set()
EXECUTED = set()        # qualified names of instrumented functions entered
MODELS = {}             # callable -> model (by identity)
ALLOWED_MODULES = {'contextlib', 'functools', 'abc', 'typing', 'enum', 'dataclasses', 'copy', 'weakref', 'types',
                   'operator', 'collections', 'inspect', 'warnings', 'traceback', 'collections.abc', '_collections_abc',
                   'logging', 'threading', '_weakrefset', 'builtins_ok'}

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinFunctionType = types.BuiltinFunctionType
CMethodType = type(re.compile('a').search)      # 'builtin_method': C methods with a defining class
MethodWrapperType = type([].__str__)
MethodDescriptorType = types.MethodDescriptorType
WrapperDescriptorType = types.WrapperDescriptorType
ClassMethodDescriptorType = types.ClassMethodDescriptorType
PatternType = re.Pattern
MatchType = re.Match
LruType = type(functools.lru_cache(lambda: 0))
SYMT = frozenset([SymBool, SymNum, SymStr, SymBytes, PatStr, SymFrac])


def enter(q):
    EXECUTED.add(q)


def issym(x):
    return type(x) in SYMT


def has_sym(x, depth=2):
    t = type(x)
    if t in SYMT:
        return True
    if depth > 0:
        if t in (list, tuple, set, frozenset):
            for y in x:
                if has_sym(y, depth - 1):
                    return True
        elif isinstance(x, dict):
            for k in dict.keys(x):
                if type(k) in SYMT or has_sym(k, depth - 1):
                    return True
            for y in dict.values(x):
                if has_sym(y, depth - 1):
                    return True
    return False


def any_sym(args, kw):
    for a in args:
        if has_sym(a):
            return True
    if kw:
        for a in kw.values():
            if has_sym(a):
                return True
    return False


def modname_ok(m):
    return m in INSTRUMENTED or m in ALLOWED_MODULES or (
        m is not None and (m.startswith('symx.') or m.startswith('harness') or m == 'symx'))


# ---------------------------------------------------------------- calls

def call(f, /, *args, **kw):
    t = type(f)
    if t is FunctionType:
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **kw)
        if '__symx__' in f.__globals__ or modname_ok(f.__module__):
            return f(*args, **kw)
        if not any_sym(args, kw):
            return f(*args, **kw)
        return twin_call(f, args, kw)
    if t is MethodType:
        fn = f.__func__
        if type(fn) is FunctionType:
            m = MODELS.get(fn)
            if m is not None:
                return m(f.__self__, *args, **kw)
            if '__symx__' in fn.__globals__ or modname_ok(fn.__module__):
                return f(*args, **kw)
            s = f.__self__
            if isinstance(s, type) and modname_ok(s.__module__):
                pass
            if not any_sym(args, kw) and not has_sym(getattr(s, '__dict__', None)):
                return f(*args, **kw)
            return native(f, args, kw)
        return call(fn, f.__self__, *args, **kw)
    if t is BuiltinFunctionType or t is CMethodType or t is MethodWrapperType:
        return call_builtin(f, args, kw)
    if t is MethodDescriptorType or t is WrapperDescriptorType:
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **kw)
        if not args:
            return f(*args, **kw)
        a0 = args[0]
        if issym(a0):
            return call(getattr(a0, f.__name__), *args[1:], **kw)
        oc = f.__objclass__
        if isinstance(a0, dict):
            return dict_method(types.MethodType(f, a0), a0, f.__name__, args[1:], kw) if issubclass(oc, dict) \
                else f(*args, **kw)
        if isinstance(a0, (set, frozenset)) and oc is not object:
            return set_method(types.MethodType(f, a0), a0, f.__name__, args[1:], kw)
        if oc in (object, list, tuple, type, collections.deque) or issubclass(oc, BaseException):
            return f(*args, **kw)
        if not any_sym(args, kw):
            return f(*args, **kw)
        if oc in (str, bytes):
            return str_method(types.MethodType(f, a0), a0, f.__name__, args[1:], kw)
        return native(f, args, kw)
    if t is LruType:
        if f in MODELS:
            return MODELS[f](*args, **kw)
        if any_sym(args, kw):
            return call(f.__wrapped__, *args, **kw)
        return f(*args, **kw)
    if isinstance(f, type):
        return call_class(f, args, kw)
    if t is functools.partial:
        return call(f.func, *(f.args + args), **{**f.keywords, **kw})
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kw)
    if t in (operator.itemgetter, operator.attrgetter, operator.methodcaller):
        if t is operator.itemgetter:
            r, a = f.__reduce__()
            out = tuple(getitem(args[0], k) for k in a)
            return out[0] if len(out) == 1 else out
        if t is operator.methodcaller:
            r, a = f.__reduce__()[:2]
            return call(getattr(args[0], a[0]), *a[1:])
        return f(*args)
    cl = getattr(t, '__call__', None)
    if type(cl) is FunctionType:
        return call(cl, f, *args, **kw)
    if not any_sym(args, kw):
        return f(*args, **kw)
    if t is _wrapped:
        return f(*args, **kw)
    return native(f, args, kw)


CONCRETIZED = collections.Counter()


def conc(x, depth=3):
    """x with every symbolic part forked down to single values (complete: all values are explored)."""
    t = type(x)
    if t in (SymStr, SymBytes, PatStr):
        return concretize_str(x)
    if t is SymNum:
        return concretize_num(x)
    if t is SymBool:
        return bool(x)
    if t is SymFrac:
        raise Unsupported('fraction in an unmodelled call')
    if depth > 0:
        if t in (list, tuple, set, frozenset):
            if has_sym(x):
                return t(conc(y, depth - 1) for y in list(x))
        elif t is dict:
            if has_sym(x):
                return {conc(k, depth - 1): conc(v, depth - 1) for k, v in dict.items(x)}
    return x


def native(f, args, kw):
    """Call of a function without a model: its symbolic arguments are enumerated."""
    CONCRETIZED[getattr(f, '__qualname__', None) or repr(type(f))] += 1
    return f(*[conc(a) for a in args], **{k: conc(v) for k, v in kw.items()})


def lift_self(s):
    if type(s) in SYMT:
        return s
    if isinstance(s, str):
        return SymStr(items_of(s))
    if isinstance(s, bytes):
        return SymBytes(list(s))
    return s


def twin_call(f, args, kw):
    """Run the instrumented copy of a standard-library Python function."""
    from .instr import std_module
    mod = f.__module__
    if mod in TWINS:
        m = std_module(mod)
        o = m
        for part in f.__qualname__.split('.'):
            o = getattr(o, part)
        return o(*args, **kw)
    return native(f, args, kw)


TWINS = {'posixpath', 'genericpath', 'urllib.parse', 'calendar', 'textwrap', 'string', 'fnmatch', 'shlex',
         'configparser', 'base64', 'html', 'shutil', 'email.utils', 'email._parseaddr'}


STR_NATIVE_SYM = {'__len__', '__iter__', '__getitem__'}

# C functions that work on symbolic values through the dunder methods
NATIVE_OK = {
    isinstance, issubclass, callable, id, iter, next, len, abs, divmod, sum, any, all,
    operator.add, operator.mul, operator.eq, operator.lt, operator.le, operator.gt, operator.ge, operator.neg,
    math.ceil, math.floor, math.trunc,
    object.__setattr__, object.__getattribute__,
}


class _wrapped:
    """A builtin callable passed to a higher-order C function."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return call(self.f, *a, **k)


def wrapf(f):
    if f is None or type(f) is FunctionType and modname_ok(f.__module__):
        return f
    return _wrapped(f)


def call_builtin(f, args, kw):
    m = MODELS.get(f) if type(f) is BuiltinFunctionType and _hashable(f) else None
    if m is not None:
        return m(*args, **kw)
    s = f.__self__
    ts = type(s)
    if s is None or ts is types.ModuleType:
        if s is None and not hasattr(f, '__module__'):
            pass
        if not any_sym(args, kw):
            if f is sorted or f is min or f is max:
                if 'key' in kw:
                    kw['key'] = wrapf(kw['key'])
            return f(*args, **kw)
        if f in NATIVE_OK:
            return f(*args, **kw)
        return native(f, args, kw)
    name = f.__name__
    if ts in SYMT:
        return f(*args, **kw)
    if isinstance(s, (str, bytes)):
        return str_method(f, s, name, args, kw)
    if isinstance(s, dict):
        return dict_method(f, s, name, args, kw)
    if isinstance(s, (set, frozenset)):
        return set_method(f, s, name, args, kw)
    if ts is PatternType:
        return pattern_method(f, s, name, args, kw)
    if isinstance(s, (list, tuple, collections.deque)) or ts in LISTLIKE:
        if name == 'sort' and kw.get('key') is not None:
            kw['key'] = wrapf(kw['key'])
        return f(*args, **kw)
    if isinstance(s, type):
        # classmethod / __new__ of a C type
        return classmethod_call(f, s, name, args, kw)
    if isinstance(s, super) or isinstance(s, BaseException):
        return f(*args, **kw)
    if name in ('__init__', '__setattr__', '__getattribute__', '__delattr__', '__init_subclass__', '__new__',
                'send', 'throw', 'close', '__next__', '__iter__', '__enter__', '__exit__'):
        return f(*args, **kw)
    mm = OBJ_METHODS.get((ts.__module__, ts.__name__))
    if mm is not None:
        return mm(f, s, name, args, kw)
    if ts.__module__ in ELEMENT_MODULES:
        return element_method(f, s, name, args, kw)
    if not any_sym(args, kw):
        return f(*args, **kw)
    return native(f, args, kw)


def _hashable(f):
    # bound C methods hash by self; only module-level builtins are looked up
    s = f.__self__
    return s is None or type(s) is types.ModuleType or isinstance(s, type)


LISTLIKE = {type(iter([])), type({}.keys()), type({}.values()), type({}.items()), type(iter(())), enumerate, zip,
            reversed, map, filter, type(iter({})), type(iter(range(0))), range, memoryview, slice}
OBJ_METHODS = {}
ELEMENT_MODULES = {'xml.etree.ElementTree'}


def element_method(f, s, name, args, kw):
    if name in ('append', 'extend', 'insert', 'remove', 'set', 'find', 'findall', 'findtext', 'iter', 'get', 'items',
                'keys', 'itertext', 'clear', 'iterfind', 'makeelement'):
        if name in ('set',) and issym(args[0]):
            raise Unsupported('symbolic XML attribute name')
        return f(*args, **kw)
    if not any_sym(args, kw):
        return f(*args, **kw)
    raise Unsupported('Element.%s' % name)


def classmethod_call(f, s, name, args, kw):
    key = (s, name)
    m = CLASSMETHODS.get(key)
    if m is not None:
        return m(*args, **kw)
    if s is dict and name == 'fromkeys':
        v = args[1] if len(args) > 1 else None
        return mkdict([(k, v) for k in args[0]])
    if s is str and name == 'maketrans' and not any_sym(args, kw):
        return f(*args, **kw)
    if name == '__new__' or not any_sym(args, kw):
        return f(*args, **kw)
    return native(f, args, kw)


CLASSMETHODS = {}


def call_class(cls, args, kw):
    m = CLASS_MODELS.get(cls)
    if m is not None:
        return m(*args, **kw)
    mod = cls.__module__
    if modname_ok(mod) or issubclass(cls, BaseException) or type(cls) is not type and modname_ok(type(cls).__module__):
        return cls(*args, **kw)
    if cls in CLASS_NATIVE:
        return cls(*args, **kw)
    if not any_sym(args, kw):
        return cls(*args, **kw)
    if cls in (map, filter):
        return cls(wrapf(args[0]), *args[1:])
    if cls is type:
        if len(args) == 1:
            return args[0].__class__ if issym(args[0]) else type(args[0])
        return cls(*args, **kw)
    if mod in TWINS or mod in ('urllib.parse',):
        return cls(*args, **kw)
    if mod in ELEMENT_MODULES:
        return cls(*args, **kw)
    if mod.startswith('argparse'):
        return cls(*args, **kw)
    if issubclass(cls, tuple) and hasattr(cls, '_fields'):
        return cls(*args, **kw)
    return native(cls, args, kw)


import itertools  # noqa: E402
CLASS_NATIVE = {list, tuple, enumerate, zip, reversed, object, property, staticmethod, classmethod, slice, super,
                itertools.chain, itertools.islice, collections.deque, types.SimpleNamespace, range, types.MethodType}


def m_type(*args, **kw):
    if len(args) == 1 and not kw:
        return args[0].__class__ if issym(args[0]) else type(args[0])
    return type(*args, **kw)


def m_str(*args, **kw):
    if not args:
        return str(**kw)
    x = args[0]
    if len(args) > 1 or kw:
        if issym(x):
            return x.decode()
        return str(*args, **kw)
    return to_str(x)


def to_str(x):
    t = type(x)
    if t in SYMT:
        if t is SymStr or t is PatStr:
            return x
        if t is SymNum:
            if x.fl:
                return float_text(x)
            return SymStr(None, lambda: digits_of(x))
        if t is SymBool:
            return 'True' if bool(x) else 'False'
        if t is SymBytes:
            return repr_(x)
        raise Unsupported('str of %s' % t)
    if t in (str, int, float, bool, type(None)):
        return str(x)
    if isinstance(x, BaseException):
        s = t.__str__
        if type(s) is FunctionType:
            return s(x)
        if s is BaseException.__str__ or (isinstance(x, OSError) is False and s in EXC_STR):
            if not has_sym(x.args) and not any(isinstance(a, BaseException) for a in x.args):
                return str(x)
            if len(x.args) == 0:
                return ''
            if len(x.args) == 1:
                return to_str(x.args[0])
            return repr_(x.args)
        if isinstance(x, OSError):
            if not has_sym(x.args) and not has_sym((x.filename, x.strerror)):
                return str(x)
            if x.filename is not None:
                return format_percent('[Errno %s] %s: %r', (x.errno, x.strerror, x.filename))
            if len(x.args) == 1:
                return to_str(x.args[0])
            return format_percent('[Errno %s] %s', (x.errno, x.strerror))
        if has_sym(x.args):
            return str(t(*conc(x.args)))
        return str(x)
    s = t.__str__
    if type(s) is FunctionType:
        return s(x)
    if s is object.__str__ or t in (list, dict, tuple, set, frozenset) or isinstance(x, (list, dict, set, tuple)):
        return repr_(x)
    return str(x)


EXC_STR = {BaseException.__str__, Exception.__str__}


def float_text(x):
    from . import env
    return env.float_text(x)


def repr_(x):
    t = type(x)
    if t is SymStr or t is PatStr:
        return SymStr(None, lambda: _repr_str(x))
    if t is SymBytes:
        return SymStr(None, lambda: repr(concretize_str(x)))
    if t in SYMT:
        return to_str(x)
    if t in (list, tuple, dict, set, frozenset) or (isinstance(x, (list, tuple, dict, set)) and
                                                    type(t.__repr__) is not FunctionType and not hasattr(t, '_fields')):
        if not has_sym(x, 4) and not _has_obj(x):
            return repr(x)
        if isinstance(x, dict):
            parts = [mkcat([repr_(k), ': ', repr_(v)]) for k, v in dict.items(x)]
            return mkcat(['{'] + _sep(parts) + ['}'])
        parts = [repr_(y) for y in (x if not isinstance(x, (set, frozenset)) else list(x))]
        if isinstance(x, list):
            return mkcat(['['] + _sep(parts) + [']'])
        if isinstance(x, tuple):
            return mkcat(['('] + _sep(parts) + [',)' if len(parts) == 1 else ')'])
        return mkcat(['{'] + _sep(parts) + ['}']) if parts else 'set()'
    r = t.__repr__
    if type(r) is FunctionType:
        return r(x)
    if isinstance(x, BaseException) and has_sym(x.args):
        return mkcat([t.__name__, repr_(x.args)])
    return repr(x)


def _has_obj(x):
    it = dict.values(x) if isinstance(x, dict) else x
    for y in it:
        if type(type(y).__repr__) is FunctionType or isinstance(y, (list, dict, tuple)):
            return True
    return False


def _sep(parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(', ')
        out.append(p)
    return out


def mkcat(parts):
    """Concatenation; lazy if any part is an unexpanded symbolic string."""
    if all(type(p) is str for p in parts):
        return ''.join(parts)

    def thunk():
        its = []
        for p in parts:
            its += items_of(p)
        return mkstr(its)
    return SymStr(None, thunk)


def _repr_str(x):
    q = 39
    if bool(x.contains("'")) and not bool(x.contains('"')):
        q = 34
    out = [q]
    for it in x.items:
        if type(it) is not int:
            special = 0
            for v in core.mask_values(it_dom(it)):
                c = chr(v)
                if not c.isprintable() or c == '\\' or v == q:
                    special |= 1 << v
            from .values import it_mask
            if bool(mkbool(it_mask(it, special))):
                it = ord(concretize_str(mkstr([it])))
        if type(it) is int:
            c = chr(it)
            if it == q or c == '\\':
                out += [92, it]
            elif not c.isprintable():
                out += [ord(z) for z in repr(c)[1:-1]]
            else:
                out.append(it)
        else:
            out.append(it)
    return mkstr(out + [q])


def m_int(*args, **kw):
    if not args or not issym(args[0]):
        return int(*args, **kw)
    x = args[0]
    t = type(x)
    if t is SymNum:
        return x.trunc()
    if t is SymBool:
        return int(bool(x))
    if t is SymFrac:
        return x.trunc()
    base = args[1] if len(args) > 1 else kw.get('base', 10)
    return parse_int(x, base)


def m_float(*args):
    if not args or not issym(args[0]):
        return float(*args)
    x = args[0]
    if type(x) is SymNum:
        return x.to_float()
    if type(x) is SymBool:
        return float(bool(x))
    from . import env
    return env.parse_float(x)


def m_bool(*args):
    if not args:
        return False
    x = args[0]
    t = type(x)
    if t is SymBool:
        return x
    if t is SymNum:
        return x != 0
    return bool(x)


def m_set(*args):
    if not args:
        return set()
    return mkset(list(args[0]))


def m_frozenset(*args):
    if not args:
        return frozenset()
    return frozenset_of(mkset(list(args[0])))


def frozenset_of(s):
    with allow_hash():
        return frozenset(s)


def m_dict(*args, **kw):
    pairs = []
    if args:
        a = args[0]
        if isinstance(a, dict):
            pairs += [(k, v) for k, v in dict.items(a)] if type(a).__iter__ is dict.__iter__ else \
                [(k, a[k]) for k in a.keys()]
        elif hasattr(a, 'keys'):
            pairs += [(k, getitem(a, k)) for k in a.keys()]
        else:
            pairs += [tuple(p) for p in a]
    pairs += list(kw.items())
    return mkdict(pairs)


def m_bytes(*args, **kw):
    if args and issym(args[0]):
        if isinstance(args[0], str):
            return args[0].encode()
        if type(args[0]) is SymBytes:
            return args[0]
        return bytes(*conc(args), **kw)
    return bytes(*args, **kw)


def m_map(f, *its):
    return map(wrapf(f), *its)


def m_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(wrapf(f), it)


def m_odict(*args, **kw):
    from .instr import SymOrderedDict
    d = SymOrderedDict()
    for k, v in dict.items(m_dict(*args, **kw)):
        setitem(v, d, k)
    return d


CLASS_MODELS = {type: m_type, str: m_str, int: m_int, float: m_float, bool: m_bool, set: m_set, frozenset: m_frozenset,
                dict: m_dict, bytes: m_bytes, map: m_map, filter: m_filter, collections.OrderedDict: m_odict}


def _late():
    from .instr import SymOrderedDict
    CLASS_MODELS[SymOrderedDict] = m_odict


_late()


def model(*targets):
    def deco(fn):
        for t in targets:
            MODELS[t] = fn
        return fn
    return deco


@model(repr)
def m_repr(x):
    return repr_(x)


@model(ord)
def m_ord(c):
    if issym(c):
        its = c.items
        if len(its) != 1:
            raise TypeError('ord() expected a character')
        from .values import num_of_var
        it = its[0]
        if type(it) is int:
            return it
        if type(it) is core.Var:
            return num_of_var(it)
        return ord(concretize_str(c))
    return ord(c)


@model(chr)
def m_chr(n):
    if issym(n):
        if n.var is not None and n.s == 0:
            return mkstr([n.var])
        return chr(concretize_num(n))
    return chr(n)


@model(hash)
def m_hash(x):
    if issym(x):
        raise Unsupported('hash()')
    return hash(x)


@model(sorted)
def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=wrapf(key), reverse=reverse)


@model(min)
def m_min(*a, **k):
    if 'key' in k:
        k['key'] = wrapf(k['key'])
    return min(*a, **k)


@model(max)
def m_max(*a, **k):
    if 'key' in k:
        k['key'] = wrapf(k['key'])
    return max(*a, **k)


@model(round)
def m_round(x, n=None):
    if n is None:
        return round(x)
    return round(x, n)


@model(hasattr)
def m_hasattr(o, n):
    n = concretize_str(n)
    if issym(o):
        return hasattr(str if isinstance(o, str) else o.__class__, n)
    return hasattr(o, n)


@model(getattr)
def m_getattr(o, n, *d):
    return getattr(o, concretize_str(n), *d)


@model(setattr)
def m_setattr(o, n, v):
    return setattr(o, concretize_str(n), v)


@model(delattr)
def m_delattr(o, n):
    return delattr(o, concretize_str(n))


@model(format)
def m_format(x, spec=''):
    return format_value(x, spec)


@model(functools.lru_cache)
def m_lru_cache(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


@model(functools.cache)
def m_cache(f):
    return f


@model(functools.reduce)
def m_reduce(f, *a):
    return functools.reduce(wrapf(f), *a)


@model(os.fspath)
def m_fspath(p):
    if issym(p):
        if isinstance(p, (str, bytes)):
            return p
        raise TypeError('expected str, bytes or os.PathLike object, not ' + p.__class__.__name__)
    return os.fspath(p)


@model(sys.intern)
def m_intern(s):
    return s


@model(sys.exc_info)
def m_exc_info():
    return sys.exc_info()


@model(operator.contains)
def m_contains(b, a):
    return contains(a, b)


@model(operator.getitem)
def m_opgetitem(a, b):
    return getitem(a, b)


@model(operator.mod)
def m_opmod(a, b):
    return op_mod(a, b)


@model(math.fabs)
def m_fabs(x):
    r = abs(x)
    return r.to_float() if issym(r) else float(r)


@model(math.isclose)
def m_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if issym(a) or issym(b):
        return abs(a - b) <= max(rel_tol * max(abs(conc(a)), abs(conc(b))), abs_tol)
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


@model(math.isnan)
def m_isnan(a):
    return False if issym(a) else math.isnan(a)


@model(math.isinf)
def m_isinf(a):
    return False if issym(a) else math.isinf(a)


@model(math.isfinite)
def m_isfinite(a):
    return True if issym(a) else math.isfinite(a)


@model(math.modf)
def m_modf(x):
    if not issym(x):
        return math.modf(x)
    t = x.trunc()
    t = t.to_float() if issym(t) else float(t)
    return (x - t, t)


# posix path helper implemented in C in this Python version
if hasattr(__import__('posix'), '_path_normpath'):
    @model(__import__('posix')._path_normpath)
    def m_path_normpath(path):
        if not issym(path):
            return __import__('posix')._path_normpath(path)
        # the pure Python definition from posixpath
        if not path:
            return '.'
        initial_slashes = bool(path.startswith('/'))
        if initial_slashes and bool(path.startswith('//')) and not bool(path.startswith('///')):
            initial_slashes = 2
        comps = path.split('/')
        new_comps = []
        for comp in comps:
            if len(comp) == 0 or bool(comp == '.'):
                continue
            if (bool(comp != '..') or (not initial_slashes and not new_comps)
                    or (new_comps and bool(new_comps[-1] == '..'))):
                new_comps.append(comp)
            elif new_comps:
                new_comps.pop()
        p = SymStr([47]).join(new_comps)
        if initial_slashes:
            p = '/' * initial_slashes + p
        return p if len(p) else '.'

import posixpath  # noqa: E402
if type(posixpath.normpath) is BuiltinFunctionType and posixpath.normpath not in MODELS:
    MODELS[posixpath.normpath] = MODELS[__import__('posix')._path_normpath]


# ---------------------------------------------------------------- str methods

def str_method(f, s, name, args, kw):
    if name == 'join':
        parts = args[0]
        if type(parts) not in (list, tuple):
            parts = list(parts)
        if has_sym(parts):
            return lift_self(s).join(parts)
        return s.join(parts)
    if not any_sym(args, kw):
        if name == 'format' and any(type(type(a).__format__) is FunctionType or type(type(a).__str__) is FunctionType
                                    for a in list(args) + list(kw.values())):
            return str_format(s, args, kw)
        return f(*args, **kw)
    if name in ('format',):
        return str_format(s, args, kw)
    if name == 'format_map':
        raise Unsupported('format_map')
    if name == '__mod__':
        return format_percent(s, args[0])
    if name == '__contains__':
        return contains(args[0], s)
    if name in ('translate', 'maketrans'):
        return f(*args, **kw)
    return getattr(lift_self(s), name)(*args, **kw)


def str_format(s, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = __import__('_string').formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        v = args[first] if isinstance(first, int) else kw[first]
        for is_attr, k in rest:
            v = getattr(v, k) if is_attr else getitem(v, k)
        if conv == 'r':
            v = repr_(v)
        elif conv == 's':
            v = to_str(v)
        if spec and '{' in spec:
            spec = conc(str_format(spec, args, kw))
        out.append(format_value(v, spec or ''))
    return mkcat(out)


def format_value(v, spec):
    if issym(spec):
        spec = concretize_str(spec)
    if not issym(v):
        if spec == '' and not isinstance(v, (str, int, float)):
            return to_str(v)
        return format(v, spec)
    if spec == '' or (isinstance(v, str) and spec == 's'):
        return to_str(v)
    if isinstance(v, int) and spec == 'd':
        return to_str(v)
    m = re.match(r'^(0?)(\d*)d?$', spec)
    if m and isinstance(v, int):
        w = int(m.group(2) or 0)
        z = bool(m.group(1))
        return SymStr(None, lambda: _pad(digits_of(v), w, '0' if z else ' '))
    return SymStr(None, lambda: format(conc(v), spec))


def _pad(s, w, fill, left=False):
    n = len(items_of(s))
    if n >= w:
        return s
    if fill == '0':
        return lift_self(s).zfill(w)
    pad = fill * (w - n)
    return (s + pad) if left else (pad + s)


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = repr_(v)
        elif conv == 115:
            v = to_str(v)
        elif conv == 97:
            v = ascii(v)
        out.append(format_value(v, spec))
    return mkcat(out)


_pct = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)',
                  re.S)


def format_percent(fmt, args):
    if issym(fmt):
        if bool(fmt.contains('%')):
            fmt = concretize_str(fmt)
        else:
            if isinstance(args, tuple) and len(args):
                raise TypeError('not all arguments converted during string formatting')
            return fmt
    if not isinstance(fmt, str):
        return fmt % args
    out = []
    pos = 0
    idx = 0
    tup = args if isinstance(args, tuple) and not hasattr(type(args), '_fields_never') else None
    used_mapping = False
    for m in _pct.finditer(fmt):
        if m.start() < pos:
            continue
        out.append(fmt[pos:m.start()])
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append('%')
            continue
        key = m.group('key')
        if key is not None:
            used_mapping = True
            v = getitem(args, key)
        else:
            if m.group('width') == '*' or m.group('prec') == '*':
                return fmt % conc(args)
            if tup is not None:
                if idx >= len(tup):
                    raise TypeError('not enough arguments for format string')
                v = tup[idx]
            else:
                if idx >= 1:
                    raise TypeError('not enough arguments for format string')
                v = args
            idx += 1
        spec = '%' + m.group('flags') + (m.group('width') or '') + \
            ('.' + m.group('prec') if m.group('prec') is not None else '') + conv
        out.append(_pct_one(spec, conv, m, v))
    out.append(fmt[pos:])
    if '%' in fmt[pos:]:
        raise ValueError('incomplete format')
    if tup is not None and not used_mapping and idx < len(tup):
        raise TypeError('not all arguments converted during string formatting')
    if tup is None and not used_mapping and idx == 0 and not isinstance(args, (dict, list)) or \
            (tup is None and issym(args) and idx == 0):
        raise TypeError('not all arguments converted during string formatting')
    return mkcat(out)


def _pct_one(spec, conv, m, v):
    w = int(m.group('width') or 0)
    flags = m.group('flags')
    if conv in 'sra':
        s = to_str(v) if conv == 's' else repr_(v)
        if not issym(s):
            if conv == 's':
                return spec % (s,)
            return ('%' + spec[1:-1] + 's') % (s,)
        if m.group('prec') is not None:
            return s[:int(m.group('prec'))]
        if w:
            return SymStr(None, lambda: _pad(s, w, ' ', '-' in flags))
        return s
    if not issym(v):
        return spec % (v,)
    if conv in 'diu':
        if not isinstance(v, (int, float)):
            raise TypeError('%%%s format: a real number is required, not %s' % (conv, v.__class__.__name__))
        if type(v) is SymNum:
            v = v.trunc()
        if m.group('prec') is not None or '+' in flags:
            return SymStr(None, lambda: spec % (conc(v),))
        return SymStr(None, lambda: _pad(digits_of(v), w, '0' if '0' in flags else ' ', '-' in flags))
    if conv in 'fFgGeE':
        if not isinstance(v, (int, float)):
            raise TypeError('must be real number, not %s' % v.__class__.__name__)

        return SymStr(None, lambda: spec % (conc(v),))
    return SymStr(None, lambda: spec % (conc(v),))


# ---------------------------------------------------------------- containers

def keys_of(d):
    return dict.keys(d) if isinstance(d, dict) else d


def resolve(container, k):
    """The key of the dict/set equal to k (same object as stored) or None if absent; forks."""
    ks = list(keys_of(container)) if isinstance(container, dict) else list(set.__iter__(container) if isinstance(
        container, set) else frozenset.__iter__(container))
    if not issym(k) and not _deepsym(k):
        if not any(_deepsym(x) for x in ks):
            return (k,) if (dict.__contains__(container, k) if isinstance(container, dict) else k in container) else None
    for x in ks:
        if x is k:
            return (x,)
    for x in ks:
        if _comparable(x, k) and bool(x == k):
            return (x,)
    return None


def _comparable(x, k):
    return True


def _deepsym(k):
    t = type(k)
    if t in SYMT:
        return True
    if t in (tuple, frozenset):
        return any(_deepsym(y) for y in k)
    return False


def unhashable(k):
    if isinstance(k, (list, dict, set)) and type(k).__hash__ is None:
        raise TypeError("unhashable type: '%s'" % type(k).__name__)


def plain_dict(d):
    return isinstance(d, dict)


def getitem(d, k):
    t = type(d)
    if isinstance(d, dict) and t not in SYMT:
        gi = t.__getitem__
        if type(gi) is FunctionType:
            return d[k]
        unhashable(k)
        r = resolve(d, k)
        if r is not None:
            with allow_hash():
                return dict.__getitem__(d, r[0])
        miss = getattr(t, '__missing__', None)
        if miss is not None:
            if isinstance(d, collections.defaultdict):
                if d.default_factory is None:
                    raise KeyError(k)
                v = call(d.default_factory)
                with allow_hash():
                    dict.__setitem__(d, k, v)
                return v
            if type(miss) is FunctionType:
                return miss(d, k)
            with allow_hash():
                return d[k]
        raise KeyError(k)
    if t in (str, bytes) and issym(k):
        return lift_self(d)[k]
    return d[k]


def setitem(v, d, k):
    t = type(d)
    if isinstance(d, dict):
        si = t.__setitem__
        if type(si) is FunctionType:
            d[k] = v
            return
        dict_set(d, k, v)
        return
    if isinstance(d, list) and type(k) is SymNum:
        k = concretize_num(k)
    if hasattr(d, '__class__') and d is os.environ:
        raise Unsupported('os.environ')
    d[k] = v


def dict_set(d, k, v):
    unhashable(k)
    r = resolve(d, k)
    with allow_hash():
        if isinstance(d, collections.OrderedDict):
            collections.OrderedDict.__setitem__(d, k if r is None else r[0], v)
        else:
            dict.__setitem__(d, k if r is None else r[0], v)


def delitem(d, k):
    if isinstance(d, dict):
        if type(type(d).__delitem__) is FunctionType:
            del d[k]
            return
        r = resolve(d, k)
        if r is None:
            raise KeyError(k)
        with allow_hash():
            if isinstance(d, collections.OrderedDict):
                collections.OrderedDict.__delitem__(d, r[0])
            else:
                dict.__delitem__(d, r[0])
        return
    del d[k]


_AUG = {'add': operator.iadd, 'mul': operator.imul, 'floordiv': operator.ifloordiv, 'truediv': operator.itruediv,
        'lshift': operator.ilshift, 'rshift': operator.irshift, 'pow': operator.ipow, 'matmul': operator.imatmul}


def augitem(d, k, op, val):
    cur = getitem(d, k)
    if op in _AUG:
        new = _AUG[op](cur, val)
    else:
        new = globals()['iop_' + op](cur, val)
    setitem(new, d, k)


def mkdict(pairs):
    d = {}
    for p in pairs:
        if len(p) == 1:
            for k in p[0].keys():
                dict_set(d, k, getitem(p[0], k))
        else:
            k, v = p
            dict_set(d, k, v)
    return d


def set_add(s, k):
    unhashable(k)
    if resolve(s, k) is None:
        with allow_hash():
            set.add(s, k)


def mkset(items):
    s = set()
    for k in items:
        set_add(s, k)
    return s


def contains(a, b):
    t = type(b)
    if t in (SymStr, SymBytes, PatStr):
        return b.contains(a)
    if t is str or (isinstance(b, str) and t not in SYMT):
        if issym(a):
            return SymStr(items_of(b)).contains(a)
        return a in b
    if isinstance(b, dict):
        if type(t.__contains__) is FunctionType:
            return a in b
        unhashable(a)
        if not _deepsym(a) and not any(_deepsym(x) for x in dict.keys(b)):
            return dict.__contains__(b, a)
        return or_(*[x == a for x in dict.keys(b)])
    if t in (set, frozenset, type({}.keys())):
        unhashable(a)
        if not _deepsym(a) and not any(_deepsym(x) for x in b):
            return a in b
        return or_(*[x == a for x in b])
    if t in (list, tuple):
        if issym(a) and not isinstance(a, (list, tuple)) or any(issym(x) for x in b):
            return or_(*[(True if x is a else x == a) for x in b])
        return a in b
    if t is type({}.items()) and has_sym(b):
        for k, v in b:
            if bool(k == a[0]) and bool(v == a[1]):
                return True
        return False
    cf = getattr(t, '__contains__', None)
    if cf is None or type(cf) is FunctionType or not issym(a):
        return a in b
    if isinstance(b, (collections.deque, range)) or t is type({}.values()):
        return a in b
    raise Unsupported('membership in %s' % t)


def not_contains(a, b):
    return not_(contains(a, b))


def is_bool(x, c, neg):
    if type(x) is SymBool:
        r = x if c else not_(x)
        return not_(r) if neg else r
    return (x is not c) if neg else (x is c)


def _isset(x):
    return isinstance(x, (set, frozenset)) or type(x) in (type({}.keys()),)


def op_mod(a, b):
    if type(a) is str:
        if not has_sym(b, 3) and not _pyobj(b):
            return a % b
        return format_percent(a, b)
    return a % b


def _pyobj(b):
    """Contains an object whose text is produced by Python code."""
    if isinstance(b, tuple):
        return any(_pyobj(x) for x in b)
    t = type(b)
    if t in (str, int, float, bool, type(None)):
        return False
    return True


def op_or_(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        return a | b
    if _isset(a) and _isset(b) and (has_sym(list(a)) or has_sym(list(b))):
        return mkset(list(a) + list(b))
    if isinstance(a, dict) and isinstance(b, dict) and (has_sym(a) or has_sym(b)):
        return mkdict([(a,), (b,)])
    return a | b


def op_and_(a, b):
    if _isset(a) and _isset(b) and (has_sym(list(a)) or has_sym(list(b))):
        return mkset([x for x in a if bool(contains(x, b))])
    return a & b


def op_sub(a, b):
    if _isset(a) and _isset(b) and (has_sym(list(a)) or has_sym(list(b))):
        return mkset([x for x in a if not bool(contains(x, b))])
    return a - b


def op_xor(a, b):
    if _isset(a) and _isset(b) and (has_sym(list(a)) or has_sym(list(b))):
        return mkset([x for x in a if not bool(contains(x, b))] + [x for x in b if not bool(contains(x, a))])
    return a ^ b


def _iop(name, native):
    op = globals()['op_' + name]

    def fn(a, b):
        if isinstance(a, set) and _isset(b) and (has_sym(list(a)) or has_sym(list(b))):
            r = op(a, b)
            with allow_hash():
                set.clear(a)
                for x in r:
                    set.add(a, x)
            return a
        if issym(a) or issym(b) or type(a) is str:
            return op(a, b)
        return native(a, b)
    return fn


iop_or_ = _iop('or_', operator.ior)
iop_and_ = _iop('and_', operator.iand)
iop_sub = _iop('sub', operator.isub)
iop_xor = _iop('xor', operator.ixor)
iop_mod = _iop('mod', operator.imod)


def dict_method(f, d, name, args, kw):
    t = type(d)
    if name in ('keys', 'values', 'items', 'clear', '__len__', '__iter__', '__init__', '__reversed__', 'popitem',
                'move_to_end'):
        if name == '__init__' and args:
            for k, v in dict.items(m_dict(*args, **kw)):
                dict_set(d, k, v)
            return None
        if name in ('popitem', 'move_to_end'):
            with allow_hash():
                return f(*args, **kw)
        return f(*args, **kw)
    if name == 'copy':
        with allow_hash():
            return f()
    if name == 'get':
        unhashable(args[0])
        r = resolve(d, args[0])
        if r is None:
            return args[1] if len(args) > 1 else None
        with allow_hash():
            return dict.__getitem__(d, r[0])
    if name == '__getitem__':
        r = resolve(d, args[0])
        if r is None:
            raise KeyError(args[0])
        with allow_hash():
            return dict.__getitem__(d, r[0])
    if name == '__setitem__':
        return dict_set(d, args[0], args[1])
    if name == '__delitem__':
        r = resolve(d, args[0])
        if r is None:
            raise KeyError(args[0])
        with allow_hash():
            return dict.__delitem__(d, r[0])
    if name == '__contains__':
        r = resolve(d, args[0])
        return r is not None
    if name == 'pop':
        r = resolve(d, args[0])
        if r is None:
            if len(args) > 1:
                return args[1]
            raise KeyError(args[0])
        with allow_hash():
            return f(r[0])
    if name == 'setdefault':
        r = resolve(d, args[0])
        if r is None:
            v = args[1] if len(args) > 1 else None
            dict_set(d, args[0], v)
            return v
        with allow_hash():
            return dict.__getitem__(d, r[0])
    if name == 'update':
        for k, v in dict.items(m_dict(*args, **kw)):
            setitem(v, d, k)
        return None
    if not any_sym(args, kw):
        return f(*args, **kw)
    raise Unsupported('dict.%s' % name)


def set_method(f, s, name, args, kw):
    if name in ('clear', '__len__', '__iter__', 'pop'):
        with allow_hash():
            return f(*args, **kw)
    if name == 'copy':
        with allow_hash():
            return f()
    if name == 'add':
        return set_add(s, args[0])
    if name in ('discard', 'remove'):
        r = resolve(s, args[0])
        if r is None:
            if name == 'remove':
                raise KeyError(args[0])
            return None
        with allow_hash():
            return f(r[0])
    if name == '__contains__':
        return resolve(s, args[0]) is not None
    if not any_sym(args, kw) and not has_sym(list(s)):
        return f(*args, **kw)
    others = [list(a) for a in args]
    if name == 'update':
        for o in others:
            for x in o:
                set_add(s, x)
        return None
    if name == 'union':
        return mkset(list(s) + [x for o in others for x in o])
    if name == 'intersection':
        r = list(s)
        for o in others:
            r = [x for x in r if bool(contains(x, o))]
        return mkset(r)
    if name == 'difference':
        r = list(s)
        for o in others:
            r = [x for x in r if not bool(contains(x, o))]
        return mkset(r)
    if name == 'symmetric_difference':
        return op_xor(s, set_of(others[0]))
    if name == 'difference_update':
        return _inplace(s, set_method(s.difference, s, 'difference', args, kw))
    if name == 'intersection_update':
        return _inplace(s, set_method(s.intersection, s, 'intersection', args, kw))
    if name == 'issubset':
        return and_(*[contains(x, others[0]) for x in s])
    if name == 'issuperset':
        return and_(*[contains(x, list(s)) for x in others[0]])
    if name == 'isdisjoint':
        return not_(or_(*[contains(x, others[0]) for x in s]))
    raise Unsupported('set.%s' % name)


def set_of(x):
    return mkset(list(x))


def _inplace(s, r):
    with allow_hash():
        set.clear(s)
        for x in r:
            set.add(s, x)


# ---------------------------------------------------------------- regex

_patcache = {}


def sym_pattern(p, flags=0):
    from .sre import SymPattern
    if isinstance(p, SymPattern):
        return p
    if type(p) is PatternType:
        key = (p.pattern, p.flags)
        r = _patcache.get(key)
        if r is None:
            fl = p.flags & ~re.UNICODE if isinstance(p.pattern, str) else p.flags
            r = _patcache[key] = SymPattern(p.pattern, fl)
        return r
    if isinstance(flags, re.RegexFlag):
        flags = int(flags)
    if type(p) in (str, bytes):
        key = (p, flags)
        r = _patcache.get(key)
        if r is None:
            r = _patcache[key] = SymPattern(p, flags)
        return r
    return SymPattern(p, flags)


def pattern_method(f, p, name, args, kw):
    if not any_sym(args, kw):
        if name in ('sub', 'subn'):
            if callable(args[0]):
                args = (wrapf(args[0]),) + args[1:]
        return f(*args, **kw)
    try:
        return getattr(sym_pattern(p), name)(*args, **kw)
    except Unsupported:
        return native(getattr(conc_pattern(p), name), args, kw)


def conc_pattern(p, flags=0):
    from .sre import SymPattern
    if isinstance(p, SymPattern):
        return re.compile(conc(p.pattern), p.flags)
    if type(p) is PatternType:
        return p
    return re.compile(conc(p), flags)


def _refn(name):
    native = getattr(re, name)

    def fn(pattern, *args, flags=0, **kw):
        from .sre import SymPattern
        npos = {'match': 1, 'search': 1, 'fullmatch': 1, 'findall': 1, 'finditer': 1, 'sub': 3, 'subn': 3,
                'split': 2}[name]
        if len(args) > npos:
            flags = args[npos]
            args = args[:npos]
        if isinstance(pattern, SymPattern) or issym(pattern) or any_sym(args, kw):
            # let CPython reject bad patterns the way it does
            try:
                return getattr(sym_pattern(pattern, flags), name)(*args, **kw)
            except Unsupported:
                return native(getattr(conc_pattern(pattern, flags), name), args, kw)
        if name in ('sub', 'subn') and callable(args[0]):
            args = (wrapf(args[0]),) + args[1:]
        return native(pattern, *args, flags=flags, **kw)
    MODELS[native] = fn


for _n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'sub', 'subn', 'split'):
    _refn(_n)


@model(re.compile)
def m_compile(pattern, flags=0):
    from .sre import SymPattern
    if isinstance(pattern, SymPattern):
        return pattern
    if issym(pattern):
        return SymPattern(pattern, flags)
    return re.compile(pattern, flags)


@model(re.escape)
def m_escape(s):
    if issym(s):
        return PatStr([('lit', s.items)])
    return re.escape(s)


# ---------------------------------------------------------------- logging

import logging  # noqa: E402


def _log(level):
    def fn(self, msg, *args, **kw):
        from . import env
        env.log_record(level, msg, args)
    return fn


for _n, _l in (('debug', 10), ('info', 20), ('warning', 30), ('error', 40), ('critical', 50), ('exception', 40)):
    MODELS[getattr(logging.Logger, _n)] = _log(_l)
    MODELS[getattr(logging, _n)] = (lambda l: lambda msg, *a, **k: _log(l)(None, msg, *a, **k))(_l)
MODELS[logging.Logger.warn] = _log(30)


def _loglog(self, level, msg, *args, **kw):
    from . import env
    env.log_record(level, msg, args)


MODELS[logging.Logger.log] = _loglog


@model(print)
def m_print(*args, sep=' ', end='\n', file=None, flush=False):
    from . import env
    env.do_print(args, sep, end, file)


def m_stringio(initial='', newline='\n'):
    from . import env
    return env.SymIO(initial)


CLASS_MODELS[io.StringIO] = m_stringio


# ---------------------------------------------------------------- URL quoting

import urllib.parse  # noqa: E402
import urllib.request  # noqa: E402

_SAFE = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~'


@model(urllib.parse.quote, urllib.request.pathname2url)
def m_quote(s, safe='/', encoding=None, errors=None):
    if not issym(s) and not issym(safe):
        return urllib.parse.quote(s, safe, encoding, errors)
    from .values import it_mask, mkbool, concretize_str as cs
    if issym(safe) or type(s) is SymBytes:
        return urllib.parse.quote(conc(s), conc(safe), encoding, errors)
    mask = 0
    for c in _SAFE + safe:
        mask |= 1 << ord(c)
    out = []
    for it in items_of(s):
        if bool(mkbool(it_mask(it, mask))):
            out.append(it)
        else:
            out += items_of(urllib.parse.quote(cs(mkstr([it])), safe, encoding, errors))
    return mkstr(out)


# ---------------------------------------------------------------- copies

def copy_any(x, deep, memo):
    t = type(x)
    if t in SYMT or x is None or isinstance(x, (bool, int, float, str, bytes, type, FunctionType, types.ModuleType)):
        return x
    if id(x) in memo:
        return memo[id(x)][1]

    def sub(y):
        return copy_any(y, True, memo) if deep else y

    for name in ('__deepcopy__',) if deep else ('__copy__',):
        m = getattr(t, name, None)
        if m is not None:
            return call(m, x, memo) if deep else call(m, x)
    if t is tuple:
        return tuple(sub(y) for y in x)
    if t in (set, frozenset) and not has_sym(x):
        return t(sub(y) for y in x)
    if t.__module__.startswith('symx.') and not isinstance(x, (list, dict)):
        return x            # opaque contents
    if t in (list, dict, set) or t is collections.OrderedDict or t.__module__ in INSTRUMENTED or isinstance(x, dict):
        if isinstance(x, (list, dict, set)):
            n = t.__new__(t)
            memo[id(x)] = (x, n)
            if isinstance(x, list):
                list.extend(n, [sub(y) for y in list.__iter__(x)])
            elif isinstance(x, dict):
                with allow_hash():
                    for k in list(dict.keys(x)):
                        v = sub(dict.__getitem__(x, k))
                        if isinstance(n, collections.OrderedDict):
                            collections.OrderedDict.__setitem__(n, k, v)
                        else:
                            dict.__setitem__(n, k, v)
            else:
                with allow_hash():
                    for y in list(set.__iter__(x)):
                        set.add(n, y)
        else:
            n = object.__new__(t)
            memo[id(x)] = (x, n)
        for k, v in list(getattr(x, '__dict__', {}).items()):
            n.__dict__[k] = sub(v)
        for c in t.__mro__:
            sl = c.__dict__.get('__slots__', ())
            for s in (sl,) if isinstance(sl, str) else sl:
                if s not in ('__dict__', '__weakref__') and hasattr(x, s):
                    object.__setattr__(n, s, sub(getattr(x, s)))
        return n
    if not has_sym(x):
        return copy_mod.deepcopy(x) if deep else copy_mod.copy(x)
    raise Unsupported('copy of %s' % t.__name__)


import copy as copy_mod  # noqa: E402
MODELS[copy_mod.deepcopy] = lambda x, memo=None: copy_any(x, True, {})
MODELS[copy_mod.copy] = lambda x: copy_any(x, False, {})
