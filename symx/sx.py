"""The API a harness sees: symbolic side.  symx/plain.py has the native counterpart."""
import z3

from . import core, values
from .common import E, Headers, Response
from .core import PathAbort, ViolationFound, Z, In, fvars, mk_not
from .env import Blob, XmlDoc, Mixed, ZipContent, SymDec
from .values import (CMap, SymBool, SymBytes, SymFrac, SymNum, SymStr, PatStr, and_, eq, fo, implies, ite, mkbool, mknum,
                     mkstr, not_, num_of_var, or_, items_of)


SCRIPTS = {}       # compiled instrumented scripts


class Outcome:
    """Result of an attempted call."""

    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc

    @property
    def kind(self):
        return 'ok' if self.ok else type(self.exc).__name__


class KnownFinding(Exception):
    pass


class Sx:
    symbolic = True
    and_ = staticmethod(and_)
    or_ = staticmethod(or_)
    not_ = staticmethod(not_)
    eq = staticmethod(eq)
    ite = staticmethod(ite)
    implies = staticmethod(implies)
    E = E
    Response = Response
    Headers = Headers

    def __init__(self, path, env, tier, seed=1):
        self.path = path
        self.env = env
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'

    # -- inputs
    def _reg(self, name, v):
        if name in self.path.inputs:
            raise Exception('duplicate input ' + name)
        self.path.inputs[name] = v
        return v

    def int(self, name, lo, hi):
        if lo == hi:
            return self._reg(name, lo)
        return self._reg(name, num_of_var(self.path.new_var(name, lo, hi)))

    def bool(self, name):
        v = self.path.new_var(name, 0, 1)
        return self._reg(name, SymBool(In(v, 2)))

    def flag(self, name):
        """A boolean decided at once (the path forks)."""
        v = self.path.new_var(name, 0, 1)
        b = self.path.pick(v) == 1
        return self._reg(name, b)

    def choice(self, name, options):
        """One of the options (the path forks)."""
        options = list(options)
        if len(options) == 1:
            self._reg(name, 0)
            return options[0]
        v = self.path.new_var(name, 0, len(options) - 1)
        i = self.path.pick(v)
        self._reg(name, i)
        return options[i]

    def among(self, name, nums):
        """A symbolic integer out of a set of values."""
        nums = sorted(set(nums))
        mask = 0
        for n in nums:
            mask |= 1 << (n - nums[0])
        return self._reg(name, num_of_var(self.path.new_var(name, nums[0], nums[-1], mask)))

    def char(self, name, alphabet):
        cps = sorted(set(ord(c) for c in alphabet))
        if len(cps) == 1:
            return chr(cps[0])
        mask = 0
        for c in cps:
            mask |= 1 << c
        return self.path.new_var(name, 0, cps[-1], mask)

    def strn(self, name, alphabet, n):
        its = []
        for i in range(n):
            c = self.char('%s[%d]' % (name, i), alphabet)
            its.append(ord(c) if isinstance(c, str) else c)
        return self._reg(name, mkstr(its))

    def str(self, name, alphabet, lo, hi):
        n = lo if lo == hi else self.path.pick(self.path.new_var('len(%s)' % name, lo, hi))
        return self.strn(name, alphabet, n)

    def ts(self, name, lo, hi, scale=0):
        """A float: multiple of 2**-scale seconds in [lo, hi]."""
        v = self.path.new_var(name, lo << scale, hi << scale)
        return self._reg(name, mknum(v.z, frozenset([v]), scale, True, v if scale == 0 else None))

    # -- assertions
    def assume(self, c):
        c = fo(c)
        if c is True:
            return
        if c is False:
            raise PathAbort()
        if self.path.pos >= len(self.path.prefix) and not self.path.feasible(c):
            raise PathAbort()
        self.path.assume_f(c)

    def check(self, c, msg, **info):
        p = self.path
        p.stats.asserts += 1
        f = fo(c) if type(c) in (SymBool, bool) else (fo(mkbool(True)) if bool(c) else False)
        if f is True:
            return
        if f is not False:
            p.stats.asserts_solver += 1
            nf = mk_not(f)
            if p.pos < len(p.prefix):
                return      # decided by the run that created this prefix
            if not p.check(nf):
                return
            p.violation = (msg, nf)
        else:
            p.violation = (msg, None)
        raise ViolationFound(msg)

    def fail(self, msg):
        self.check(False, msg)

    def known(self, fid, cond=True):
        """The documented wrong behaviour `fid` was observed (when cond)."""
        if bool(cond):
            self.path.known.append(fid)
            return True
        return False

    def attempt(self, fn, *a, **k):
        try:
            return Outcome(True, fn(*a, **k))
        except (Exception, SystemExit) as e:
            return Outcome(False, exc=e)

    def script(self, name):
        """Namespace of a command line script of the repository, instrumented."""
        import os
        from . import hooks, instr
        from .run import REPO
        mod = 'resync.script:' + name
        if name not in SCRIPTS:
            fn = os.path.join(REPO, name)
            with open(fn, encoding='utf-8') as f:
                SCRIPTS[name] = instr.instrument(f.read(), fn, mod)
            hooks.INSTRUMENTED.add(mod)
        ns = {'__name__': mod, '__symx__': hooks, '__builtins__': instr._builtins()}
        exec(SCRIPTS[name], ns)
        return ns

    def reach(self, label):
        self.path.reached.add(label)

    def observe(self, key, val):
        self.path.observations.append((key, val))

    def concrete(self, s):
        from .hooks import conc
        return conc(s)

    def exc_text(self, e):
        from .hooks import to_str
        return to_str(e)


# ---------------------------------------------------------------- evaluation under a model

def ev_item(it, m):
    if type(it) is int:
        return it
    if type(it) is core.Var:
        return m[it.name]
    return it.table[m[it.var.name]]


def z3_int(e, vs, m):
    subs = [(v.z, z3.IntVal(m[v.name])) for v in vs]
    r = z3.simplify(z3.substitute(e, *subs) if subs else e)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    raise Exception('cannot evaluate %s' % r)


def ev(x, m):
    """Concrete, JSON-friendly form of a value under a model."""
    t = type(x)
    if t in (SymStr, PatStr):
        return ''.join(chr(ev_item(i, m)) for i in x.items)
    if t is SymBytes:
        return {'bytes': bytes(ev_item(i, m) for i in x.items).hex()}
    if t is SymNum:
        n = z3_int(x.e, x.vs, m)
        if x.s:
            return n / (1 << x.s)
        return float(n) if x.fl else n
    if t is SymBool:
        f = x.f
        return bool(z3_int(core.to_z3(f), fvars(f, set()), m))
    if t is Blob:
        return {'blob': [ev(x.tag, m), ev(x.size, m), bool(x.part)]}
    if t is XmlDoc:
        return {'xml': ev_tree(x.root, m)}
    if isinstance(x, E):
        return {'xml': ev_tree(x, m)}
    if isinstance(x, dict):
        return {'dict': sorted([[ev(k, m), ev(v, m)] for k, v in dict.items(x)], key=lambda kv: repr(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [ev(y, m) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((ev(y, m) for y in x), key=repr)
    if isinstance(x, bytes):
        return {'bytes': x.hex()}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise Exception('cannot report %r' % type(x))


def ev_tree(e, m):
    return [e.tag, sorted([k, ev(v, m)] for k, v in e.attrs), ev(e.text, m) or None, [ev_tree(k, m) for k in e.kids]]


def ev_input(v, m):
    return ev(v, m)
