import z3, itertools, math

_ctr = itertools.count(1)


def uid():
    return next(_ctr)


class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def f(self, *p):
        return Loc(self.root, self.path + p)

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.root, self.path)

    def same(self, o):
        return isinstance(o, Loc) and self.root == o.root and path_eq(self.path, o.path)


def path_eq(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if len(x) > 1 and not same_term(x[1], y[1]):
            return False
    return True


def is_z3(x):
    return isinstance(x, z3.AstRef)


def same_term(a, b):
    if a is b:
        return True
    if is_z3(a):
        return is_z3(b) and a.eq(b)
    if is_z3(b):
        return False
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return type(a) == type(b) and a == b


class SV:
    """record value"""
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t = t
        self.f = f

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return SV(self.t, d)

    def __repr__(self):
        return 'SV(%s)' % self.t.key


class LazyV:
    __slots__ = ('t', 'name')

    def __init__(self, t, name):
        self.t = t
        self.name = name


class StrV:
    """byte string as a rope of pieces (tuple)"""
    __slots__ = ('p',)

    def __init__(self, p=()):
        self.p = p

    def __repr__(self):
        return 'StrV%r' % (self.p,)


class VecV:
    """sequence: base (symbolic, size bsize, identity buid, offset boff) followed by concrete tail."""
    __slots__ = ('et', 'buid', 'bsize', 'boff', 'tail', 'known', 'fixed')

    def __init__(self, et, buid=None, bsize=0, boff=0, tail=(), known=None, fixed=False):
        self.et = et
        self.buid = buid
        self.bsize = bsize
        self.boff = boff
        self.tail = tail
        self.known = known or {}
        self.fixed = fixed

    def __repr__(self):
        return 'VecV(%s,%s+%d)' % (self.et, self.bsize, len(self.tail))


class OptV:
    __slots__ = ('t', 'has', 'v')

    def __init__(self, t, has, v):
        self.t = t
        self.has = has
        self.v = v

    def __repr__(self):
        return 'OptV(%s,%s)' % (self.has, self.v)


class ExpV:
    """std::expected"""
    __slots__ = ('t', 'ok', 'v', 'e')

    def __init__(self, t, ok, v, e):
        self.t = t
        self.ok = ok
        self.v = v
        self.e = e

    def __repr__(self):
        return 'ExpV(%s,%s,%s)' % (self.ok, self.v, self.e)


class VarV:
    """std::variant: idx int|BV8, alts idx->value"""
    __slots__ = ('t', 'idx', 'alts')

    def __init__(self, t, idx, alts):
        self.t = t
        self.idx = idx
        self.alts = alts

    def __repr__(self):
        return 'VarV(%s)' % (self.idx,)


class PtrV:
    """pointer / iterator: null flag, location of the object (or container) and offset"""
    __slots__ = ('null', 'loc', 'off', 't')

    def __init__(self, null, loc, off=None, t=None):
        self.null = null
        self.loc = loc
        self.off = off
        self.t = t

    def __repr__(self):
        return 'PtrV(%s,%s,%s)' % (self.null, self.loc, self.off)


NULLP = PtrV(True, None)


class ClosV:
    __slots__ = ('t', 'caps')

    def __init__(self, t, caps):
        self.t = t
        self.caps = caps


class FnV:
    __slots__ = ('fn', 'tu')

    def __init__(self, fn, tu):
        self.fn = fn
        self.tu = tu


class MapV:
    """unordered_map / set / map: abstract; uid identifies the contents, entries: list of (key,val) known"""
    __slots__ = ('t', 'uid', 'size', 'entries')

    def __init__(self, t, u, size, entries=()):
        self.t = t
        self.uid = u
        self.size = size
        self.entries = entries


class OpqV:
    __slots__ = ('t', 'name', 'info')

    def __init__(self, t, name, info=None):
        self.t = t
        self.name = name
        self.info = info

    def __repr__(self):
        return 'Opq(%s)' % self.name


class VoidV:
    def __repr__(self):
        return 'void'


VOID = VoidV()


def same_val(a, b):
    """structural identity (syntactic)"""
    if a is b:
        return True
    if is_z3(a) or is_z3(b) or isinstance(a, (int, float, bool, str, bytes)):
        return same_term(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, SV):
        if a.t.key != b.t.key:
            return False
        for k in a.f:
            if k not in b.f or not same_val(a.f[k], b.f[k]):
                return False
        return len(a.f) == len(b.f)
    if isinstance(a, LazyV):
        return a.name == b.name
    if isinstance(a, StrV):
        return same_pieces(a.p, b.p)
    if isinstance(a, VecV):
        return a.buid == b.buid and same_term(a.bsize, b.bsize) and same_term(a.boff, b.boff) and len(a.tail) == len(b.tail) and \
            all(same_val(x, y) for x, y in zip(a.tail, b.tail)) and same_known(a.known, b.known)
    if isinstance(a, OptV):
        return same_term(a.has, b.has) and (a.has is False or same_val(a.v, b.v))
    if isinstance(a, ExpV):
        return same_term(a.ok, b.ok) and same_val(a.v, b.v) and same_val(a.e, b.e)
    if isinstance(a, VarV):
        if not same_term(a.idx, b.idx):
            return False
        if isinstance(a.idx, int):
            return same_val(a.alts.get(a.idx), b.alts.get(b.idx))
        return a.alts.keys() == b.alts.keys() and all(same_val(a.alts[k], b.alts[k]) for k in a.alts)
    if isinstance(a, PtrV):
        if a.null is True and b.null is True:
            return True
        if not same_term(a.null, b.null):
            return False
        if a.loc is None or b.loc is None:
            return a.loc is b.loc
        return a.loc.same(b.loc) and same_term(a.off, b.off)
    if isinstance(a, ClosV):
        return a.t.key == b.t.key and len(a.caps) == len(b.caps) and all(k in b.caps and same_val(a.caps[k], b.caps[k]) for k in a.caps)
    if isinstance(a, Loc):
        return a.same(b)
    if isinstance(a, FnV):
        return a.fn is b.fn
    if isinstance(a, MapV):
        return a.uid == b.uid and same_term(a.size, b.size) and len(a.entries) == len(b.entries)
    if isinstance(a, OpqV):
        return a.name == b.name
    if isinstance(a, VoidV):
        return True
    if a is None:
        return b is None
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    return a == b


def same_known(a, b):
    # cached reads are not part of the value; written entries are tagged
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        wx = x is not None and x[1]
        wy = y is not None and y[1]
        if not wx and not wy:
            continue
        if x is None or y is None or not same_val(x[0], y[0]):
            return False
    return True


def same_piece(x, y):
    if isinstance(x, bytes) or isinstance(y, bytes):
        return type(x) is type(y) and x == y
    if x[0] != y[0] or len(x) != len(y):
        return False
    for a, b in zip(x[1:], y[1:]):
        if isinstance(a, tuple) and isinstance(b, tuple) and x[0] == 'choice':
            if not same_pieces(a, b):
                return False
        elif not same_val(a, b):
            return False
    return True


def same_pieces(p, q):
    return len(p) == len(q) and all(same_piece(x, y) for x, y in zip(p, q))


# ---------------------------------------------------------------- arithmetic
def wrap(v, w, s):
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return v


def tobv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, z3.BitVecRef):
        sz = v.size()
        if sz == w:
            return v
        if sz < w:
            return z3.ZeroExt(w - sz, v)
        return z3.Extract(w - 1, 0, v)
    raise TypeError('tobv %r' % (v,))


def simp(x):
    if is_z3(x):
        x = z3.simplify(x)
        if isinstance(x, z3.BoolRef):
            if z3.is_true(x):
                return True
            if z3.is_false(x):
                return False
    return x


def zand(*a):
    r = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return z3.And(*r)


def zor(*a):
    r = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)


def znot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def zimp(a, b):
    return zor(znot(a), b)


def zbool(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a


RNE = z3.RNE()
F64 = z3.Float64()
F32 = z3.Float32()


def tofp(v, w=64):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return z3.FPVal(float(v), F64 if w == 64 else F32)
    return v
