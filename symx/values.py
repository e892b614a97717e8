"""Symbolic values: SymBool, SymNum (int / dyadic float), SymStr."""
import z3
from . import arith, core
from .core import (And, EqV, In, Inconclusive, Not, Or, PathAbort, Unsupported, Var, Z,
                   fvars, mk_and, mk_eqv, mk_in, mk_not, mk_or, to_z3)


class Sym:
    """Base of all symbolic values."""
    __slots__ = ()


def is_sym(x):
    return isinstance_(x, Sym)


isinstance_ = isinstance


def _type(x):
    return type(x)


# ------------------------------------------------------------------ bool

class SymBool(Sym):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.cur.branch(self.f)

    def __and__(self, o):
        return mkbool(mk_and([self.f, fo(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(mk_or([self.f, fo(o)]))
    __ror__ = __or__

    def __xor__(self, o):
        g = fo(o)
        return mkbool(mk_or([mk_and([self.f, mk_not(g)]), mk_and([mk_not(self.f), g])]))
    __rxor__ = __xor__

    def __invert__(self):
        # note: used by harnesses as logical not (Python's ~bool is different)
        return mkbool(mk_not(self.f))

    def __eq__(self, o):
        if _type(o) is SymBool or o is True or o is False:
            g = fo(o)
            return mkbool(mk_or([mk_and([self.f, g]), mk_and([mk_not(self.f), mk_not(g)])]))
        return int(bool(self)) == o

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return int(bool(self)) < o

    def __le__(self, o):
        return int(bool(self)) <= o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __ge__(self, o):
        return int(bool(self)) >= o

    def __repr__(self):
        return '<SymBool>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def fo(x):
    """Formula of a (symbolic or concrete) boolean."""
    if _type(x) is SymBool:
        return x.f
    return bool(x)


def mkbool(f):
    if f is True or f is False:
        return f
    r = core.cur.ev(f)
    if r is not None:
        return r
    if _type(f) is Z and len(f.vs) == 1:
        v, = f.vs
        if v.finite and v.hi - v.lo <= 4096:
            m = arith.mask_of(f.e, v)
            if m is not None:
                return SymBool(mk_in(v, m))
    return SymBool(f)


def not_(x):
    if _type(x) is SymBool:
        return mkbool(mk_not(x.f))
    return not x


def and_(*xs):
    return mkbool(mk_and([fo(x) for x in xs]))


def or_(*xs):
    return mkbool(mk_or([fo(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def eq(a, b):
    """Equality without forking (for assertions): SymBool or bool; structural."""
    ta, tb = _type(a), _type(b)
    if ta in (list, tuple) and tb is ta:
        if len(a) != len(b):
            return False
        return and_(*[eq(x, y) for x, y in zip(a, b)])
    if ta is dict and tb is dict and not any(is_sym(k) for k in a) and not any(is_sym(k) for k in b):
        if set(a) != set(b):
            return False
        return and_(*[eq(a[k], b[k]) for k in a])
    return a == b


def ite(c, a, b):
    """If-then-else on numbers without forking."""
    if _type(c) is not SymBool:
        return a if c else b
    na, nb = SymNum.lift(a), SymNum.lift(b)
    s = max(na.s, nb.s)
    return mknum(z3.If(to_z3(c.f), na.scaled(s), nb.scaled(s)), na.vs | nb.vs | fvars(c.f, set()), s,
                 na.fl or nb.fl)


# ------------------------------------------------------------------ numbers

MAXSCALE = 24


def _dyadic(fl):
    n, d = fl.as_integer_ratio()
    s = d.bit_length() - 1
    return n, s


class SymNum(Sym):
    """Integer expression e over 2**s; fl: Python float (else int, s == 0).

    As floats these are exact: the harnesses bound magnitudes so that every value
    reached fits the 53-bit significand of a double.
    """
    __slots__ = ('e', 'vs', 's', 'fl', 'var')

    def __init__(self, e, vs, s=0, fl=False, var=None):
        self.e = e
        self.vs = vs
        self.s = s
        self.fl = fl
        self.var = var

    @property
    def __class__(self):
        return float if self.fl else int

    @staticmethod
    def lift(x):
        t = _type(x)
        if t is SymNum:
            return x
        if t is SymBool:
            return SymNum.lift(int(bool(x)))
        if t is bool:
            x = int(x)
            t = int
        if t is int:
            return SymNum(z3.IntVal(x), frozenset())
        if t is float:
            if x != x or x in (float('inf'), float('-inf')):
                raise Unsupported('non-finite float with a symbolic number')
            n, s = _dyadic(x)
            if s > MAXSCALE:
                raise Unsupported('float constant %r is off the dyadic grid' % x)
            return SymNum(z3.IntVal(n), frozenset(), s, True)
        return None

    def scaled(self, s):
        return self.e if s == self.s else self.e * (1 << (s - self.s))

    def _arith(self, o, op):
        n = SymNum.lift(o)
        if n is None:
            return NotImplemented
        s = max(self.s, n.s)
        return mknum(op(self.scaled(s), n.scaled(s)), self.vs | n.vs, s, self.fl or n.fl)

    def __add__(self, o):
        if o.__class__ is float and _type(o) is float:
            h = EXTRA.get('float_add')
            if h is not None:
                r = h(self, o)
                if r is not None:
                    return r
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __neg__(self):
        return mknum(-self.e, self.vs, self.s, self.fl)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.e >= 0, self.e, -self.e), self.vs, self.s, self.fl)

    def __mul__(self, o):
        n = SymNum.lift(o) if _type(o) is not str else None
        if n is None:
            if _type(o) in (str, list, tuple):
                return o * concretize_num(self)
            return NotImplemented
        if self.vs and n.vs:
            n = SymNum.lift(concretize_num(n))      # the path forks
        return mknum(self.e * n.e, self.vs | n.vs, self.s + n.s, self.fl or n.fl)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        n = SymNum.lift(o)
        if n is None:
            return NotImplemented
        if n.vs:
            n = SymNum.lift(concretize_num(n))
        c = z3.simplify(n.e).as_long()
        if c == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        s = max(self.s, n.s)
        a, c = self.scaled(s), c << (s - n.s)
        q = (a / c) if c > 0 else ((-a) / (-c))
        return mknum(q, self.vs, 0, self.fl or n.fl)

    def __mod__(self, o):
        n = SymNum.lift(o)
        if n is None:
            return NotImplemented
        if n.vs:
            n = SymNum.lift(concretize_num(n))
        c = z3.simplify(n.e).as_long()
        if c == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        s = max(self.s, n.s)
        a, c = self.scaled(s), c << (s - n.s)
        r = (a % c) if c > 0 else -((-a) % (-c))
        return mknum(r, self.vs, s, self.fl or n.fl)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        n = SymNum.lift(o)
        if n is None:
            return NotImplemented
        if n.vs:
            n = SymNum.lift(concretize_num(n))
        c = z3.simplify(n.e).as_long()
        if c > 0 and c & (c - 1) == 0 and n.s == 0:
            k = c.bit_length() - 1
            return mknum(self.e, self.vs, self.s + k, True)
        return SymFrac(self, c, n.s)

    def __rtruediv__(self, o):
        return o / concretize_num(self)

    def __rfloordiv__(self, o):
        return o // concretize_num(self)

    def __rmod__(self, o):
        if _type(o) is str:
            return NotImplemented
        return o % concretize_num(self)

    def _cmp(self, o, op, pyop):
        t = _type(o)
        if t is float and not (o == o and abs(o) != float('inf')):
            return pyop(0, o)
        if t is float:
            n, d = o.as_integer_ratio()
            if d & (d - 1) == 0 and d.bit_length() - 1 > MAXSCALE:
                # exact rational comparison
                return mkbool(Z(op(self.e * d, z3.IntVal(n) * (1 << self.s)), self.vs))
        n = SymNum.lift(o)
        if n is None:
            return NotImplemented
        if self.var is not None and not n.vs and self.var.finite and self.s == 0 and n.s == 0:
            c = z3.simplify(n.e).as_long()
            v = self.var
            m = 0
            # mask of values satisfying pyop(value, c)
            key = (v.lo, v.hi, c, pyop)
            m = _maskcache.get(key)
            if m is None:
                m = 0
                if v.hi - v.lo > 5000:
                    m = _range_mask(v.lo, v.hi, c, pyop)
                else:
                    for x in range(v.lo, v.hi + 1):
                        if pyop(x, c):
                            m |= 1 << (x - v.lo)
                _maskcache[key] = m
            return mkbool(mk_in(v, m))
        if (pyop is _eq and self.var is not None and n.var is not None and self.s == n.s):
            return mkbool(mk_eqv(self.var, n.var))
        s = max(self.s, n.s)
        e = op(self.scaled(s), n.scaled(s))
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return mkbool(Z(e, self.vs | n.vs))

    def __eq__(self, o):
        if o is None or _type(o) in (str, SymStr, list, dict, tuple):
            return False
        r = self._cmp(o, lambda a, b: a == b, _eq)
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, _lt)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, _le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, _gt)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, _ge)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return sym_hash(self)

    def __index__(self):
        if self.fl:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize_num(self)

    def __int__(self):
        return concretize_num(self.trunc())

    def __float__(self):
        return float(concretize_num(self))

    def trunc(self):
        if self.s == 0:
            return mknum(self.e, self.vs, 0, False, self.var if not self.fl else None)
        d = 1 << self.s
        return mknum(z3.If(self.e >= 0, self.e / d, -((-self.e) / d)), self.vs, 0, False)

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        return mknum(self.e / (1 << self.s), self.vs, 0, False)

    def __ceil__(self):
        return mknum(-((-self.e) / (1 << self.s)), self.vs, 0, False)

    def __round__(self, n=None):
        if n is not None:
            return round(concretize_num(self), concretize_num(n))
        if self.s == 0:
            return mknum(self.e, self.vs, 0, False)
        d = 1 << self.s
        fl = self.e / d
        rem = self.e % d
        up = z3.Or(2 * rem > d, z3.And(2 * rem == d, fl % 2 == 1))
        return mknum(z3.If(up, fl + 1, fl), self.vs, 0, False)

    def is_integer(self):
        return self.trunc() == self

    def to_float(self):
        return mknum(self.e, self.vs, self.s, True)

    def __repr__(self):
        return '<SymNum>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymFrac(Sym):
    """n / c for a constant c that is not a power of two: only for math.ceil/int."""
    __slots__ = ('n', 'c', 'cs')

    def __init__(self, n, c, cs):
        self.n = n
        self.c = c
        self.cs = cs

    def __ceil__(self):
        s = max(self.n.s, self.cs)
        a, c = self.n.scaled(s), self.c << (s - self.cs)
        return mknum(-((-a) / c), self.n.vs, 0, False)

    def __floor__(self):
        s = max(self.n.s, self.cs)
        a, c = self.n.scaled(s), self.c << (s - self.cs)
        return mknum(a / c, self.n.vs, 0, False)

    def trunc(self):
        # only used for non-negative values here
        if bool(self.n >= 0):
            return self.__floor__()
        return self.__ceil__()


_maskcache = {}
EXTRA = {}


def _eq(a, b):
    return a == b


def _lt(a, b):
    return a < b


def _le(a, b):
    return a <= b


def _gt(a, b):
    return a > b


def _ge(a, b):
    return a >= b


def _range_mask(lo, hi, c, pyop):
    def upto(k):   # mask of values lo..k
        if k < lo:
            return 0
        if k > hi:
            k = hi
        return (1 << (k - lo + 1)) - 1
    full = upto(hi)
    if pyop is _eq:
        return (1 << (c - lo)) if lo <= c <= hi else 0
    if pyop is _lt:
        return upto(c - 1)
    if pyop is _le:
        return upto(c)
    if pyop is _gt:
        return full & ~upto(c)
    return full & ~upto(c - 1)


def mknum(e, vs, s=0, fl=False, var=None):
    if var is None:
        e = z3.simplify(e)
        if z3.is_int_value(e):
            n = e.as_long()
            if fl:
                return n / (1 << s)
            if s == 0:
                return n
    if not fl and s != 0:
        raise Unsupported('internal: scaled int')
    if s > MAXSCALE + 20:
        raise Unsupported('dyadic scale too fine')
    return SymNum(e, frozenset(vs), s, fl, var)


def num_of_var(var):
    return SymNum(var.z, frozenset([var]), 0, False, var)


def num_of_table(v, t):
    """The number t[value of v]."""
    xs = sorted(t)
    if len(xs) == 1:
        return t[xs[0]]
    d, r = divmod(t[xs[1]] - t[xs[0]], xs[1] - xs[0])
    c = t[xs[0]] - d * xs[0]
    if r == 0 and all(t[x] == c + d * x for x in xs):
        if d == 0:
            return c
        return mknum(v.z * d + c, frozenset([v]), 0, False, v if (c, d) == (0, 1) else None)
    e = z3.IntVal(t[xs[-1]])
    for x in xs[:-1]:
        e = z3.If(v.z == x, z3.IntVal(t[x]), e)
    arith.TABLES[e.get_id()] = (e, v.name, t)
    return mknum(e, frozenset([v]))


def concretize_num(n):
    """Fork over the values of a symbolic integer."""
    if _type(n) is not SymNum:
        return n
    if n.fl:
        return concretize_num(mknum(n.e, n.vs, 0, False, n.var if n.s == 0 else None)) / float(1 << n.s)
    if n.var is not None and n.var.finite:
        return core.cur.pick(n.var)
    p = core.cur
    # enumerate by model
    k = 0
    while True:
        # candidate from the solver must be deterministic on replays: use the least value
        lo = _least(n)
        if bool(n == lo):
            return lo
        k += 1
        if k > 64:
            raise Unsupported('concretizing a wide symbolic integer')


def _least(n):
    """Smallest value of n on the current path (binary search by solver)."""
    p = core.cur
    if p.pos < len(p.prefix):
        pass
    lo, hi = -(1 << 40), 1 << 40
    try:
        lo, hi = arith.bounds(n.e, p)
    except arith.No:
        pass
    while lo < hi:
        mid = (lo + hi) // 2
        if p.check(Z(n.e <= mid, n.vs)):
            hi = mid
        else:
            lo = mid + 1
    return lo


def sym_hash(x):
    p = core.cur
    if not ALLOW_HASH[0]:
        raise Unsupported('hash of a symbolic value outside the container models')
    h = p.hashes.get(id(x)) if hasattr(p, 'hashes') else None
    if h is None:
        if not hasattr(p, 'hashes'):
            p.hashes = {}
            p.hashkeep = []
        p.hashctr += 1
        h = 7919 * p.hashctr
        p.hashes[id(x)] = h
        p.hashkeep.append(x)
    return h


ALLOW_HASH = [False]


class allow_hash:
    def __enter__(self):
        self.old = ALLOW_HASH[0]
        ALLOW_HASH[0] = True

    def __exit__(self, *a):
        ALLOW_HASH[0] = self.old


# ------------------------------------------------------------------ strings
# items: int (code point), Var (finite), or CMap(var, table)

class CMap:
    """Character that is table[value of var]."""
    __slots__ = ('var', 'table')

    def __init__(self, var, table):
        self.var = var
        self.table = table

    def pre(self, mask):
        m = 0
        for k, v in self.table.items():
            if (mask >> v) & 1:
                m |= 1 << (k - self.var.lo)
        return m


def it_mask(it, mask):
    """Formula: item's code point is in mask (bit = code point)."""
    if _type(it) is int:
        return bool((mask >> it) & 1)
    if _type(it) is CMap:
        return mk_in(it.var, it.pre(mask))
    return mk_in(it, mask >> it.lo)


def it_dom(it):
    """Code points possible now (mask)."""
    if _type(it) is int:
        return 1 << it
    if _type(it) is CMap:
        d = core.cur.dom[it.var]
        m = 0
        for k, v in it.table.items():
            if (d >> (k - it.var.lo)) & 1:
                m |= 1 << v
        return m
    return core.cur.dom[it] << it.lo


def it_eq(a, b):
    ta, tb = _type(a), _type(b)
    if ta is int and tb is int:
        return a == b
    if ta is int:
        return it_mask(b, 1 << a)
    if tb is int:
        return it_mask(a, 1 << b)
    if ta is Var and tb is Var:
        return mk_eqv(a, b)
    da, db = it_dom(a), it_dom(b)
    if da & db == 0:
        return False
    vals = core.mask_values(da & db)
    return mk_or([mk_and([it_mask(a, 1 << v), it_mask(b, 1 << v)]) for v in vals])


def it_lt(a, b):
    ta, tb = _type(a), _type(b)
    if ta is int and tb is int:
        return a < b
    if tb is int:
        return it_mask(a, (1 << b) - 1)
    if ta is int:
        return it_mask(b, _ALL & ~((1 << (a + 1)) - 1))
    if ta is Var and tb is Var:
        if a is b:
            return False
        da, db = it_dom(a), it_dom(b)
        if da.bit_length() - 1 < (db & -db).bit_length() - 1:
            return True
        if (da & -da).bit_length() >= db.bit_length():
            return False
        return Z(a.z < b.z, frozenset([a, b]))
    vals = core.mask_values(it_dom(a))
    return mk_or([mk_and([it_mask(a, 1 << v), it_lt(v, b)]) for v in vals])


UNI_MAX = 0xF900
_ALL = (1 << (UNI_MAX + 1)) - 1


def norm_item(it):
    """Replace an item whose domain is a singleton by its code point."""
    if _type(it) is int:
        return it
    v = it if _type(it) is Var else it.var
    d = core.cur.dom[v]
    if d & (d - 1) == 0:
        cp = d.bit_length() - 1 + v.lo
        return cp if it is v else it.table[cp]
    return it


def mkstr(items, cls=None):
    """A Python str if everything is concrete, else a SymStr."""
    items = [norm_item(i) for i in items]
    for i in items:
        if _type(i) is not int:
            return (cls or SymStr)(items)
    if cls is SymBytes:
        return bytes(items)
    return ''.join(map(chr, items))


def items_of(x):
    t = _type(x)
    if t is str:
        return [ord(c) for c in x]
    if t is SymStr or t is SymBytes or t is PatStr:
        return x.items
    if t is bytes:
        return list(x)
    if isinstance_(x, str):      # str subclass
        return [ord(c) for c in str.__str__(x)]
    return None


class SymStr(Sym):
    __slots__ = ('_items', '_thunk')
    pytype = str

    def __init__(self, items=None, thunk=None):
        self._items = items
        self._thunk = thunk

    @property
    def __class__(self):
        return self.pytype

    @property
    def items(self):
        if self._items is None:
            r = self._thunk()
            self._items = items_of(r)
            self._thunk = None
        return self._items

    def _mk(self, items):
        return mkstr(items, _type(self) if _type(self) is not PatStr else SymStr)

    def _coerce(self, o):
        """items of o if it is of the same string kind, else None."""
        t = _type(o)
        if self.pytype is str:
            if t is str or t is SymStr or t is PatStr or (isinstance_(o, str) and not is_sym(o)):
                return items_of(o)
            return None
        if t is bytes or t is SymBytes:
            return items_of(o)
        return None

    # -- basics
    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __hash__(self):
        return sym_hash(self)

    def __repr__(self):
        return '<sym:%s>' % (''.join(chr(i) if _type(i) is int else '?' for i in self._items)
                             if self._items is not None else 'lazy')

    def __str__(self):
        return _text(concretize_str(self))

    def __fspath__(self):
        return concretize_str(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __iter__(self):
        for i in self.items:
            yield self._mk([i])

    def __getitem__(self, k):
        if isinstance_(k, slice):
            return self._mk(self.items[k])
        if _type(k) is SymNum:
            k = concretize_num(k)
        return self._mk([self.items[k]])

    def __add__(self, o):
        b = self._coerce(o)
        if b is None:
            if self.pytype is str:
                raise TypeError('can only concatenate str (not "%s") to str' % o.__class__.__name__)
            return NotImplemented
        if _type(o) is PatStr:
            return o.__radd__(self)
        return self._mk(self.items + b)

    def __radd__(self, o):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return self._mk(b + self.items)

    def __mul__(self, n):
        return self._mk(self.items * concretize_num(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        from .hooks import format_percent
        return format_percent(self, args)

    # -- comparison
    def __eq__(self, o):
        if o is self:
            return True
        b = self._coerce(o)
        if b is None:
            return False
        a = self.items
        if len(a) != len(b):
            return False
        return mkbool(mk_and([it_eq(x, y) for x, y in zip(a, b)]))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def _ltf(self, a, b):
        # lexicographic a < b
        if not b:
            return False
        if not a:
            return True
        n = min(len(a), len(b))
        tail = len(a) < len(b)
        f = tail
        for i in range(n - 1, -1, -1):
            f = mk_or([it_lt(a[i], b[i]), mk_and([it_eq(a[i], b[i]), f])])
        return f

    def __lt__(self, o):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return mkbool(self._ltf(self.items, b))

    def __gt__(self, o):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return mkbool(self._ltf(b, self.items))

    def __le__(self, o):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return mkbool(mk_not(self._ltf(b, self.items)))

    def __ge__(self, o):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return mkbool(mk_not(self._ltf(self.items, b)))

    # -- searching
    def _match_at(self, b, i):
        a = self.items
        if i + len(b) > len(a):
            return False
        return mk_and([it_eq(a[i + k], b[k]) for k in range(len(b))])

    def _need(self, o):
        b = self._coerce(o)
        if b is None:
            raise TypeError("must be str, not %s" % o.__class__.__name__)
        return b

    def contains(self, o):
        b = self._coerce(o)
        if b is None:
            raise TypeError("'in <string>' requires string as left operand, not %s" % o.__class__.__name__)
        if not b:
            return True
        return mkbool(mk_or([self._match_at(b, i) for i in range(len(self.items) - len(b) + 1)]))

    def __contains__(self, o):
        return bool(self.contains(o))

    def _bounds(self, start, end):
        n = len(self.items)
        s, e, _ = slice(start if _type(start) is not SymNum else concretize_num(start),
                        end if _type(end) is not SymNum else concretize_num(end)).indices(n)
        return s, e

    def startswith(self, prefix, start=None, end=None):
        if isinstance_(prefix, tuple):
            return or_(*[self.startswith(p, start, end) for p in prefix])
        b = self._need(prefix)
        s, e = self._bounds(start, end)
        if start is not None and start > len(self.items):
            return False
        if e - s < len(b):
            return False
        return mkbool(self._match_at(b, s))

    def endswith(self, suffix, start=None, end=None):
        if isinstance_(suffix, tuple):
            return or_(*[self.endswith(p, start, end) for p in suffix])
        b = self._need(suffix)
        s, e = self._bounds(start, end)
        if e - s < len(b):
            return False
        return mkbool(self._match_at(b, e - len(b)))

    def find(self, sub, start=None, end=None):
        b = self._need(sub)
        s, e = self._bounds(start, end)
        for i in range(s, e - len(b) + 1):
            if bool(mkbool(self._match_at(b, i))):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        b = self._need(sub)
        s, e = self._bounds(start, end)
        for i in range(e - len(b), s - 1, -1):
            if bool(mkbool(self._match_at(b, i))):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        b = self._need(sub)
        s, e = self._bounds(start, end)
        if not b:
            return e - s + 1
        n = 0
        i = s
        while i <= e - len(b):
            if bool(mkbool(self._match_at(b, i))):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    # -- splitting and joining
    def split(self, sep=None, maxsplit=-1):
        a = self.items
        if sep is None:
            return self._split_ws(maxsplit)
        b = self._need(sep)
        if not b:
            raise ValueError('empty separator')
        out = []
        start = i = 0
        while i <= len(a) - len(b) and maxsplit != 0:
            if bool(mkbool(self._match_at(b, i))):
                out.append(self._mk(a[start:i]))
                i += len(b)
                start = i
                maxsplit -= 1
            else:
                i += 1
        out.append(self._mk(a[start:]))
        return out

    def _split_ws(self, maxsplit):
        a = self.items
        out = []
        i, n = 0, len(a)
        while True:
            while i < n and self._is(a[i], WS_MASK):
                i += 1
            if i >= n:
                break
            if maxsplit == 0:
                j = n
                while j > i and self._is(a[j - 1], WS_MASK):
                    j -= 1
                out.append(self._mk(a[i:j]))
                break
            j = i + 1
            while j < n and not self._is(a[j], WS_MASK):
                j += 1
            out.append(self._mk(a[i:j]))
            maxsplit -= 1
            i = j
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit == -1:
                return self.split()
            return concretize_str(self).rsplit(None, maxsplit)
        a = self.items
        b = self._need(sep)
        if not b:
            raise ValueError('empty separator')
        out = []
        end = len(a)
        i = end - len(b)
        while i >= 0 and maxsplit != 0:
            if bool(mkbool(self._match_at(b, i))):
                out.append(self._mk(a[i + len(b):end]))
                end = i
                i -= len(b)
                maxsplit -= 1
            else:
                i -= 1
        out.append(self._mk(a[:end]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        a = self.items
        out = []
        start = i = 0
        n = len(a)
        while i < n:
            if self._is(a[i], NL_MASK):
                j = i + 1
                if self._is(a[i], 1 << 13) and j < n and self._is(a[j], 1 << 10):
                    j += 1
                out.append(self._mk(a[start:j] if keepends else a[start:i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(self._mk(a[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '') if self.pytype is str else (self, b'', b'')
        n = len(items_of(sep))
        return (self._mk(self.items[:i]), sep, self._mk(self.items[i + n:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        n = len(items_of(sep))
        return (self._mk(self.items[:i]), sep, self._mk(self.items[i + n:]))

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            b = self._coerce(p)
            if b is None:
                raise TypeError('sequence item: expected str instance, %s found' % p.__class__.__name__)
            if not first:
                out += self.items
            out += b
            first = False
        return self._mk(out)

    def replace(self, old, new, count=-1):
        b = self._need(old)
        c = self._need(new)
        a = self.items
        if not b:
            out = []
            for i in a:
                if count != 0:
                    out += c
                    count -= 1
                out.append(i)
            if count != 0:
                out += c
            return self._mk(out)
        out = []
        i = 0
        while i < len(a):
            if count != 0 and i + len(b) <= len(a) and bool(mkbool(self._match_at(b, i))):
                out += c
                i += len(b)
                count -= 1
            else:
                out.append(a[i])
                i += 1
        return self._mk(out)

    def _is(self, it, mask):
        return bool(mkbool(it_mask(it, mask)))

    def _strip_mask(self, chars):
        if chars is None:
            return WS_MASK
        b = self._need(chars)
        return b

    def _in_chars(self, it, chars):
        if _type(chars) is int:
            return self._is(it, chars)
        return bool(mkbool(mk_or([it_eq(it, c) for c in chars])))

    def lstrip(self, chars=None):
        m = self._strip_mask(chars)
        a = self.items
        i = 0
        while i < len(a) and self._in_chars(a[i], m):
            i += 1
        return self._mk(a[i:])

    def rstrip(self, chars=None):
        m = self._strip_mask(chars)
        a = self.items
        j = len(a)
        while j > 0 and self._in_chars(a[j - 1], m):
            j -= 1
        return self._mk(a[:j])

    def strip(self, chars=None):
        m = self._strip_mask(chars)
        a = self.items
        i, j = 0, len(a)
        while i < j and self._in_chars(a[i], m):
            i += 1
        while j > i and self._in_chars(a[j - 1], m):
            j -= 1
        return self._mk(a[i:j])

    def removeprefix(self, p):
        return self._mk(self.items[len(items_of(p)):]) if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        b = items_of(p)
        if b and bool(self.endswith(p)):
            return self._mk(self.items[:-len(b)])
        return self

    # -- character mapping
    def _map(self, fn):
        out = []
        for it in self.items:
            if _type(it) is int:
                r = fn(chr(it))
                if len(r) != 1:
                    out += [ord(c) for c in r]
                else:
                    out.append(ord(r))
                continue
            dom = it_dom(it)
            ident = True
            table = {}
            for v in core.mask_values(dom):
                r = fn(chr(v))
                if len(r) != 1:
                    return getattr(concretize_str(self), fn.__name__)()
                table[v] = ord(r)
                if ord(r) != v:
                    ident = False
            if ident:
                out.append(it)
            elif _type(it) is Var:
                out.append(CMap(it, table))
            else:
                out.append(CMap(it.var, {k: table[v] for k, v in it.table.items() if v in table}))
        return self._mk(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def swapcase(self):
        return self._map(str.swapcase)

    def translate(self, table):
        out = []
        for it in self.items:
            vals = core.mask_values(it_dom(it)) if _type(it) is not int else [it]
            hit = [v for v in vals if v in table]
            if not hit:
                out.append(it)
                continue
            c = ord(concretize_str(self._mk([it])))
            if c in table:
                r = table[c]
                if r is None:
                    continue
                out += [r] if _type(r) is int else items_of(r)
            else:
                out.append(c)
        return self._mk(out)

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def title(self):
        return concretize_str(self).title()

    def _all(self, pred, empty=False):
        if not self.items:
            return empty
        fs = []
        for it in self.items:
            if _type(it) is int:
                fs.append(bool(pred(chr(it))))
            else:
                m = 0
                for v in core.mask_values(it_dom(it)):
                    if pred(chr(v)):
                        m |= 1 << v
                fs.append(it_mask(it, m))
        return mkbool(mk_and(fs))

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isascii(self):
        return self._all(str.isascii, True)

    def isprintable(self):
        return self._all(str.isprintable, True)

    def islower(self):
        return concretize_str(self).islower()

    def isupper(self):
        return concretize_str(self).isupper()

    def isidentifier(self):
        if not self.items:
            return False
        return and_(self[:1]._allx(str.isidentifier), self._all(lambda c: ('a' + c).isidentifier()))

    def _allx(self, pred):
        return self._all(pred)

    def zfill(self, w):
        n = len(self.items)
        if n >= w:
            return self
        if n and self._is(self.items[0], (1 << 43) | (1 << 45)):
            return self._mk(self.items[:1] + [48] * (w - n) + self.items[1:])
        return self._mk([48] * (w - n) + self.items)

    def ljust(self, w, fill=' '):
        return self._mk(self.items + items_of(fill) * max(0, w - len(self.items)))

    def rjust(self, w, fill=' '):
        return self._mk(items_of(fill) * max(0, w - len(self.items)) + self.items)

    def center(self, w, fill=' '):
        return concretize_str(self).center(w, fill)

    def expandtabs(self, n=8):
        return concretize_str(self).expandtabs(n)

    def format(self, *a, **k):
        return concretize_str(self).format(*a, **k)

    def encode(self, encoding='utf-8', errors='strict'):
        if not bool(self.isascii()):
            return concretize_str(self).encode(encoding, errors)
        return mkstr(self.items, SymBytes)

    def decode(self, *a):
        raise AttributeError("'str' object has no attribute 'decode'")

    def __format__(self, spec):
        return format(concretize_str(self), spec)


class SymBytes(SymStr):
    __slots__ = ()
    pytype = bytes

    def __getitem__(self, k):
        if isinstance_(k, slice):
            return self._mk(self.items[k])
        it = self.items[k]
        return it if _type(it) is int else num_of_var(it)

    def decode(self, encoding='utf-8', errors='strict'):
        return mkstr(self.items, SymStr)

    def hex(self):
        return concretize_str(self).hex()


class PatStr(SymStr):
    """Result of re.escape on a symbolic string, possibly concatenated.

    pieces: list of ('lit', items) | ('raw', items); as an ordinary string it
    expands (forking on which characters needed escaping).
    """
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        SymStr.__init__(self, None, self._expand)
        self.pieces = pieces

    def _expand(self):
        out = []
        for kind, its in self.pieces:
            if kind == 'raw':
                out += its
            else:
                for it in its:
                    if bool(mkbool(it_mask(it, ESC_MASK))):
                        out.append(92)
                    out.append(it)
        return mkstr(out)

    def __add__(self, o):
        if _type(o) is PatStr:
            return PatStr(self.pieces + o.pieces)
        b = self._coerce(o)
        if b is None:
            raise TypeError('can only concatenate str')
        return PatStr(self.pieces + [('raw', b)])

    def __radd__(self, o):
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return PatStr([('raw', b)] + self.pieces)


def _mask_of(pred, top=UNI_MAX):
    m = 0
    for i in range(top + 1):
        if 0xD800 <= i < 0xE000:
            continue
        if pred(chr(i)):
            m |= 1 << i
    return m


WS_MASK = _mask_of(str.isspace, 0x3000)
NL_MASK = sum(1 << c for c in (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029))
ESC_MASK = sum(1 << ord(c) for c in '()[]{}?*+-|^$\\.&~# \t\n\r\v\f')


def _text(s):
    return s if isinstance_(s, str) else repr(s)


def concretize_str(s):
    """Fork over every character until the string is concrete."""
    if _type(s) not in (SymStr, SymBytes, PatStr):
        return s
    out = []
    for it in s.items:
        if _type(it) is Var:
            out.append(core.cur.pick(it))
        elif _type(it) is CMap:
            out.append(it.table[core.cur.pick(it.var)])
        else:
            out.append(it)
    return ''.join(map(chr, out)) if s.pytype is str else bytes(out)


# ------------------------------------------------------------------ conversions

def digits_of(n):
    """Decimal text of a symbolic integer (forks on sign and digit count)."""
    if _type(n) is not SymNum:
        return str(n)
    if n.fl:
        raise Unsupported('text of a symbolic float')
    neg = bool(n < 0)
    a = -n if neg else n
    if _type(a) is not SymNum:
        return ('-' if neg else '') + str(a)
    k = 1
    while bool(a >= 10 ** k):
        k += 1
        if k > 16:
            raise Unsupported('very long number')
    return mkstr(([45] if neg else []) + digit_items(a, k))


def digit_items(a, k):
    """k decimal digit items of non-negative symbolic a < 10**k."""
    p = core.cur
    if len(a.vs) == 1:
        v, = a.vs
        if v.finite and v.hi - v.lo <= 4096:
            t = arith.table(a.e, v, p.dom[v])
            if t is not None:
                out = []
                for i in range(k):
                    q = 10 ** (k - 1 - i)
                    tt = {x: 48 + (n // q) % 10 for x, n in t.items()}
                    cs = set(tt.values())
                    out.append(cs.pop() if len(cs) == 1 else CMap(v, tt))
                return out
    vs = [p.fresh('dig', 48, 57) for _ in range(k)]
    tot = z3.Sum([(v.z - 48) * 10 ** (k - 1 - i) for i, v in enumerate(vs)])
    f = Z(tot == a.e, frozenset(vs) | a.vs)
    p.assume_f(f)
    return list(vs)


DIGIT_CPS = _mask_of(lambda c: c.isdecimal(), 0x0fff)


def parse_int(s, base=10):
    """int(text) for symbolic text."""
    import unicodedata
    if base != 10:
        return int(concretize_str(s), base)
    st = s.strip()
    its = items_of(st)
    i = 0
    neg = False
    bad = ValueError("invalid literal for int() with base 10: <symbolic>")
    if not its:
        raise bad
    if SymStr._is(s, its[0], (1 << 43) | (1 << 45)):
        neg = SymStr._is(s, its[0], 1 << 45)
        i = 1
    if i >= len(its):
        raise bad
    digs = []
    prev_us = True
    for j in range(i, len(its)):
        it = its[j]
        if SymStr._is(s, it, 1 << 95):
            if prev_us:
                raise bad
            prev_us = True
            continue
        if not SymStr._is(s, it, DIGIT_CPS):
            raise bad
        prev_us = False
        digs.append(it)
    if prev_us:
        raise bad
    mv = {it.var for it in digs if _type(it) is CMap}
    if len(mv) == 1 and all(_type(it) in (int, CMap) for it in digs):
        v, = mv
        t = {}
        for x in core.mask_values(core.cur.dom[v], v.lo):
            n = 0
            for it in digs:
                n = n * 10 + unicodedata.decimal(chr(it if _type(it) is int else it.table[x]))
            t[x] = -n if neg else n
        return num_of_table(v, t)
    tot = z3.IntVal(0)
    vs = set()
    for it in digs:
        if _type(it) is int:
            d = z3.IntVal(unicodedata.decimal(chr(it)))
        elif _type(it) is Var:
            dom = it_dom(it)
            if dom >> 58 == 0:
                d = it.z - 48
                vs.add(it)
            else:
                d = z3.IntVal(unicodedata.decimal(chr(core.cur.pick(it))))
        else:
            d = z3.IntVal(unicodedata.decimal(concretize_str(mkstr([it]))))
        tot = tot * 10 + d
    return mknum(-tot if neg else tot, vs)
