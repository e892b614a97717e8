"""Path state, finite-domain variables, formulas, solver interface.

A path is one run of a harness over symbolic inputs.  Every branch on a symbolic
condition is decided by `Path.branch`: it asks (exactly, by the variable's finite
domain when the condition only concerns unrelated variables, by Z3 otherwise)
which sides are feasible, takes one and queues the other.
"""
import time
import z3

from . import arith

SOLVER_TIMEOUT_MS = 60000


class EngineStop(BaseException):
    """Ends the path even if the code under test swallows it."""

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        if cur is not None and cur.dead is None:
            cur.dead = self


class PathAbort(EngineStop):
    """This path ends here (an assumption excludes it)."""


class Unsupported(EngineStop):
    """The code reached something the engine does not model: no verdict."""


class Inconclusive(EngineStop):
    """The solver gave no answer."""


class ViolationFound(EngineStop):
    """An assertion can fail on this path."""


# ---------------------------------------------------------------- variables

class Var:
    """Integer variable.  dom: bitmask of values offset by lo, or None (wide)."""
    __slots__ = ('name', 'lo', 'hi', 'z', 'finite', 'full', 'serial')

    def __init__(self, name, lo, hi, mask=None, serial=0):
        self.name = name
        self.lo = lo
        self.hi = hi
        self.z = z3.Int(name)
        self.finite = (hi - lo) <= 70000
        self.serial = serial
        if self.finite:
            self.full = mask if mask is not None else (1 << (hi - lo + 1)) - 1
        else:
            self.full = None

    def __repr__(self):
        return 'Var(%s)' % self.name


def mask_values(mask, lo=0):
    v = 0
    out = []
    while mask:
        low = mask & -mask
        out.append(low.bit_length() - 1 + lo)
        mask ^= low
    return out


def mask_intervals(mask, lo=0):
    out = []
    while mask:
        start = (mask & -mask).bit_length() - 1
        m = mask >> start
        run = ((~m) & (m + 1)).bit_length() - 1
        out.append((start + lo, start + run - 1 + lo))
        mask = (m >> run) << (start + run)
    return out


def mask_z3(var, mask):
    parts = []
    for a, b in mask_intervals(mask, var.lo):
        if a == b:
            parts.append(var.z == a)
        else:
            parts.append(z3.And(var.z >= a, var.z <= b))
    if not parts:
        return z3.BoolVal(False)
    return parts[0] if len(parts) == 1 else z3.Or(parts)


# ---------------------------------------------------------------- formulas
# A formula is True, False or one of these.

class In:
    __slots__ = ('var', 'mask')

    def __init__(self, var, mask):
        self.var = var
        self.mask = mask


class EqV:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b


class Z:
    __slots__ = ('e', 'vs')

    def __init__(self, e, vs):
        self.e = e
        self.vs = vs


class And:
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = fs


class Or:
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = fs


class Not:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


def mk_in(var, mask):
    mask &= var.full
    if mask == 0:
        return False
    if mask == var.full:
        return True
    return In(var, mask)


def mk_eqv(a, b):
    if a is b:
        return True
    return EqV(a, b)


def mk_not(f):
    if f is True:
        return False
    if f is False:
        return True
    t = type(f)
    if t is In:
        return mk_in(f.var, f.var.full & ~f.mask)
    if t is Not:
        return f.f
    if t is And:
        return mk_or([mk_not(x) for x in f.fs])
    if t is Or:
        return mk_and([mk_not(x) for x in f.fs])
    return Not(f)


def mk_and(fs):
    out = []
    ins = {}
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        t = type(f)
        if t is And:
            subs = f.fs
        else:
            subs = (f,)
        for g in subs:
            if type(g) is In:
                m = ins.get(g.var)
                if m is None:
                    ins[g.var] = g.mask
                else:
                    m &= g.mask
                    if m == 0:
                        return False
                    ins[g.var] = m
            else:
                out.append(g)
    res = [In(v, m) for v, m in ins.items()] + out
    if not res:
        return True
    if len(res) == 1:
        return res[0]
    return And(res)


def mk_or(fs):
    out = []
    ins = {}
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        t = type(f)
        if t is Or:
            subs = f.fs
        else:
            subs = (f,)
        for g in subs:
            if type(g) is In:
                m = ins.get(g.var, 0) | g.mask
                ins[g.var] = m
            else:
                out.append(g)
    for v, m in ins.items():
        if m == v.full:
            return True
    res = [In(v, m) for v, m in ins.items()] + out
    if not res:
        return False
    if len(res) == 1:
        return res[0]
    return Or(res)


def fvars(f, acc):
    if f is True or f is False:
        return acc
    t = type(f)
    if t is In:
        acc.add(f.var)
    elif t is EqV:
        acc.add(f.a)
        acc.add(f.b)
    elif t is Z:
        acc.update(f.vs)
    elif t is Not:
        fvars(f.f, acc)
    else:
        for g in f.fs:
            fvars(g, acc)
    return acc


def to_z3(f):
    if f is True:
        return z3.BoolVal(True)
    if f is False:
        return z3.BoolVal(False)
    t = type(f)
    if t is In:
        return mask_z3(f.var, f.mask)
    if t is EqV:
        return f.a.z == f.b.z
    if t is Z:
        return f.e
    if t is Not:
        return z3.Not(to_z3(f.f))
    if t is And:
        return z3.And([to_z3(g) for g in f.fs])
    return z3.Or([to_z3(g) for g in f.fs])


# ---------------------------------------------------------------- path

class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.branches = 0       # symbolic branch decisions on explored paths
        self.forks = 0          # of which both sides were feasible
        self.queries = 0        # Z3 checks
        self.solver_s = 0.0
        self.asserts = 0        # assertions posed
        self.asserts_solver = 0  # of which needed / got a Z3 query
        self.path_checks = 0     # final path-condition checks (feasible)

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


class Path:
    """State of one run."""

    def __init__(self, prefix, solver, stats, max_decisions=200000):
        arith.TABLES.clear()
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.frontier = []
        self.solver = solver
        self.stats = stats
        self.dom = {}          # Var -> current mask
        self.memo = {}         # bounds of terms under these
        self.asserted = {}     # Var -> mask known to solver
        self.linked = set()    # vars in non-unary constraints
        self.vars = {}         # name -> Var
        self.inputs = {}       # input name -> symbolic value
        self.serial = 0
        self.nfresh = 0
        self.observations = []
        self.reached = set()
        self.notes = []
        self.known = []
        self.hashctr = 0
        self.sat_checked = False
        self.max_decisions = max_decisions
        self.dead = None

    # -- variables
    def new_var(self, name, lo, hi, mask=None):
        if name in self.vars:
            raise Exception('duplicate symbolic variable %s' % name)
        v = Var(name, lo, hi, mask)
        self.vars[name] = v
        if v.finite:
            self.dom[v] = v.full
        else:
            self.solver.add(v.z >= lo, v.z <= hi)
        return v

    def fresh(self, base, lo, hi, mask=None):
        self.nfresh += 1
        return self.new_var('%s!%d' % (base, self.nfresh), lo, hi, mask)

    # -- evaluation under the domains
    def ev(self, f):
        if f is True or f is False:
            return f
        t = type(f)
        if t is In:
            d = self.dom[f.var]
            if d & f.mask == 0:
                return False
            if d & ~f.mask == 0:
                return True
            return None
        if t is EqV:
            a, b = f.a, f.b
            da = self.dom.get(a)
            db = self.dom.get(b)
            if da is None or db is None:
                return None
            if a.lo != b.lo:
                s = b.lo - a.lo
                if s > 0:
                    db = db << s
                else:
                    da = da << -s
            if da & db == 0:
                return False
            if da == db and da & (da - 1) == 0:
                return True
            return None
        if t is Z:
            try:
                return arith.truth(f.e, self)
            except arith.No:
                return None
        if t is Not:
            r = self.ev(f.f)
            return None if r is None else (not r)
        if t is And:
            unk = False
            for g in f.fs:
                r = self.ev(g)
                if r is False:
                    return False
                if r is None:
                    unk = True
            return None if unk else True
        unk = False
        for g in f.fs:
            r = self.ev(g)
            if r is True:
                return True
            if r is None:
                unk = True
        return None if unk else False

    def quick_feasible(self, f):
        """True / False exactly, or None if Z3 is needed."""
        if f is True or f is False:
            return f
        r = self.ev(f)
        if r is False:
            return False
        if r is True:
            return True   # the path condition is satisfiable (invariant)
        t = type(f)
        if t is In:
            return None if f.var in self.linked else True
        if t is EqV:
            if f.a in self.linked or f.b in self.linked:
                return None
            return True
        if t is Not and type(f.f) is EqV:
            g = f.f
            if g.a in self.linked or g.b in self.linked:
                return None
            return True
        if t is Or:
            allf = True
            for g in f.fs:
                q = self.quick_feasible(g)
                if q is True:
                    return True
                if q is None:
                    allf = False
            return False if allf else None
        if t is And:
            seen = set()
            for g in f.fs:
                q = self.quick_feasible(g)
                if q is False:
                    return False
                if q is None:
                    return None
                vs = fvars(g, set())
                if vs & self.linked:
                    return None
                if vs & seen:
                    return None
                seen |= vs
            return True
        return None

    def sync_solver(self, vs):
        for v in vs:
            if not v.finite:
                continue
            d = self.dom[v]
            if self.asserted.get(v) != d:
                self.solver.add(mask_z3(v, d))
                self.asserted[v] = d

    def check(self, f=None):
        """Z3: is path condition and f satisfiable?"""
        vs = set(self.linked)
        if f is not None:
            fvars(f, vs)
        self.sync_solver(sorted(vs, key=lambda v: v.name))
        t = time.time()
        self.solver.push()
        try:
            if f is not None:
                self.solver.add(to_z3(f))
            r = self.solver.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.unknown:
                raise Inconclusive('solver: ' + self.solver.reason_unknown())
            return r == z3.sat
        finally:
            self.solver.pop()

    def feasible(self, f):
        q = self.quick_feasible(f)
        if q is not None:
            return q
        return self.check(f)

    def assume_f(self, f):
        """Add f to the path condition (known to be consistent)."""
        if f is True:
            return
        t = type(f)
        if f is False:
            raise PathAbort()
        if t is In:
            d = self.dom[f.var] & f.mask
            if d == 0:
                raise PathAbort()
            if d != self.dom[f.var]:
                self.dom[f.var] = d
                self.memo.clear()
            return
        if t is And:
            for g in f.fs:
                self.assume_f(g)
            return
        r = self.ev(f)
        if r is True:
            return
        if r is False:
            raise PathAbort()
        if t is Or:
            # drop members already false
            fs = [g for g in f.fs if self.ev(g) is not False]
            g = mk_or(fs)
            if type(g) is not Or:
                return self.assume_f(g)
            f = g
        if t is EqV:
            a, b = f.a, f.b
            if a.finite and b.finite and a.lo == b.lo:
                d = self.dom[a] & self.dom[b]
                self.dom[a] = d
                self.dom[b] = d
                self.memo.clear()
        vs = fvars(f, set())
        self.sync_solver(sorted(vs, key=lambda v: v.name))
        self.linked |= vs
        self.solver.add(to_z3(f))

    def branch(self, f):
        if self.dead is not None:
            raise self.dead
        r = self.ev(f)
        if r is not None:
            return r
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.assume_f(f if d else mk_not(f))
            return d
        self.stats.branches += 1
        if len(self.decisions) > self.max_decisions:
            raise Inconclusive('decision bound exceeded')
        nf = mk_not(f)
        t = self.feasible(f)
        if not t:
            self.decisions.append(False)
            self.pos += 1
            self.assume_f(nf)
            return False
        e = self.feasible(nf)
        if e:
            self.stats.forks += 1
            self.frontier.append(self.decisions + [False])
        self.decisions.append(True)
        self.pos += 1
        self.assume_f(f)
        return True

    def pick(self, var):
        """Fork over the values of a finite variable; returns the value."""
        while True:
            d = self.dom[var]
            low = d & -d
            if d == low:
                return low.bit_length() - 1 + var.lo
            if self.branch(In(var, low)):
                return low.bit_length() - 1 + var.lo

    def model(self, f=None):
        """A model of path condition (and f), as dict var name -> int."""
        self.sync_solver(sorted(self.dom, key=lambda v: v.name))
        t = time.time()
        self.solver.push()
        try:
            if f is not None:
                self.solver.add(to_z3(f))
            r = self.solver.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.unknown:
                raise Inconclusive('solver: ' + self.solver.reason_unknown())
            if r != z3.sat:
                return None
            m = self.solver.model()
            out = {}
            for name, v in self.vars.items():
                val = m.eval(v.z, model_completion=True)
                out[name] = val.as_long()
            return out
        finally:
            self.solver.pop()


cur = None     # the current Path


def set_path(p):
    global cur
    cur = p


def path():
    return cur
