"""helpers used by the property modules"""
import z3
from .engine import *
from .execu import Exec, decay
from .values import *
from .runner import Task


def B64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


def in_arr(name):
    return z3.Array('in!%s' % name, z3.BitVecSort(64), z3.BitVecSort(8))


def byte_at(name, i):
    return z3.Select(in_arr(name), z3.simplify(B64(i)))


def fresh_args(E, st, F, names=None):
    args = []
    for n, p in enumerate(F.params):
        pt = F.tu.T(p['t'])
        nm = names[n] if names else (p['name'] or 'p%d' % n)
        if pt.k == 'ref':
            args.append(E.heap(nm, pt.t, st, E.fresh(pt.t, nm, st) if pt.t.k != 'rec' or is_strish(pt.t) else LazyV(pt.t, nm)))
        else:
            args.append(E.fresh(pt, nm, st))
    return args


def is_strish(t):
    return t.k == 'rec' and t.nn in ('std::basic_string', 'std::basic_string_view')


def fresh_this(E, st, F, name='this'):
    if F.cls is None or F.static:
        return None
    ct = F.tu.T(F.cls)
    return E.heap(name, ct, st, LazyV(ct, name))


def call_fn(E, F, args=None, this=None, st=None):
    st = st or State()
    fr = Frame(-5, None, F.tu, None)
    if this is None:
        this = fresh_this(E, st, F)
    if args is None:
        args = fresh_args(E, st, F)
    E.curfn = F.name
    return E.run_fn(st, F, this, args, fr)


def find(prog, name, nparams=None, pred=None):
    r = [F for F in prog.fns if F.name == name and (nparams is None or len(F.params) == nparams) and (pred is None or pred(F))]
    if not r:
        raise Unsupported('function %s is not in the source' % name)
    return r[0]


def findall(prog, name):
    return [F for F in prog.fns if F.name == name]


# ---------------------------------------------------------------- UTF-8 as the Unicode standard defines it (table 3-7)
def u8_spec(b, i, n):
    """b(k): byte term at k; -> (length term (0: ill formed), code point term) of the sequence at i in a text of n bytes"""
    c = [z3.ZeroExt(24, b(i + k)) for k in range(4)]
    have = [z3.UGT(n - i, k) if k else z3.ULT(i, n) for k in range(4)]

    def rng(x, lo, hi):
        return z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
    cont = [rng(x, 0x80, 0xBF) for x in c]
    l1 = z3.And(have[0], z3.ULT(c[0], 0x80))
    l2 = z3.And(have[1], rng(c[0], 0xC2, 0xDF), cont[1])
    l3 = z3.And(have[2], cont[2], z3.Or(z3.And(c[0] == 0xE0, rng(c[1], 0xA0, 0xBF)),
                                        z3.And(z3.Or(rng(c[0], 0xE1, 0xEC), rng(c[0], 0xEE, 0xEF)), cont[1]),
                                        z3.And(c[0] == 0xED, rng(c[1], 0x80, 0x9F))))
    l4 = z3.And(have[3], cont[2], cont[3], z3.Or(z3.And(c[0] == 0xF0, rng(c[1], 0x90, 0xBF)),
                                                 z3.And(rng(c[0], 0xF1, 0xF3), cont[1]),
                                                 z3.And(c[0] == 0xF4, rng(c[1], 0x80, 0x8F))))
    B = lambda v: z3.BitVecVal(v, 64)
    ln = z3.If(l1, B(1), z3.If(l2, B(2), z3.If(l3, B(3), z3.If(l4, B(4), B(0)))))
    m = [x & 0x3F for x in c]
    cp = z3.If(l1, c[0], z3.If(l2, ((c[0] & 0x1F) << 6) | m[1],
                               z3.If(l3, ((c[0] & 0x0F) << 12) | (m[1] << 6) | m[2],
                                     ((c[0] & 0x07) << 18) | (m[1] << 12) | (m[2] << 6) | m[3])))
    return ln, cp


def len_name(E, name):
    return E.lenvar('in!' + name)


def eq_state(E, st, a, b, t=None, path=''):
    """list of (path, formula or bool): structural equality of two values of the same type, all parts"""
    a, b = E.force(a, st), E.force(b, st)
    if a is b or same_val(a, b):
        return [(path, True)]
    if isinstance(a, SV) and isinstance(b, SV):
        out = []
        for k in list(a.f) + [x for x in b.f if x not in a.f]:
            if k.startswith('@'):
                continue
            if k not in a.f or k not in b.f:
                out.append((path + '.' + k, False))
                continue
            out += eq_state(E, st, a.f[k], b.f[k], None, path + '.' + k)
        return out
    if isinstance(a, OptV) and isinstance(b, OptV):
        ha, hb = zbool(a.has), zbool(b.has)
        out = [(path + '.has_value', simp(ha == hb))]
        if E.feasible(st, simp(z3.And(ha, hb))):
            s2 = st.copy()
            s2.pc.append(z3.And(ha, hb))
            for p, f in eq_state(E, s2, a.v, b.v, None, path + '.value'):
                out.append((p, simp(z3.Implies(z3.And(ha, hb), zbool(f)))))
        return out
    if isinstance(a, (VecV, MapV)) and isinstance(b, (VecV, MapV)):
        na, nb = E.vsize(a), E.vsize(b)
        if isinstance(a, MapV) and isinstance(b, MapV) and a.uid == b.uid and not a.entries and not b.entries:
            return [(path, True)]
        out = [(path + '.size', simp(tobv(na, 64) == tobv(nb, 64)))]
        if isinstance(a, VecV) and isinstance(b, VecV) and not isinstance(a.bsize, int) and a.buid is not None and a.buid == b.buid and \
                same_term(a.bsize, b.bsize) and same_term(a.boff, b.boff) and len(a.tail) == len(b.tail) and all(k in b.known for k, x in a.known.items() if x[1]):
            # the same elements but for those that were assigned
            for i, (x, y) in enumerate(zip(a.tail, b.tail)):
                out += eq_state(E, st, x, y, None, path + '[n+%d]' % i)
            for k, x in b.known.items():
                if x[1]:
                    out += eq_state(E, st, E.vec_get(st, a, x[2])[1], x[0], None, path + ' contents')
        elif isinstance(na, int) and isinstance(nb, int) and na == nb and na and isinstance(a, VecV) and na <= 64:
            for i in range(na):
                out += eq_state(E, st, E.vec_get(st, a, i)[0] if isinstance(E.vec_get(st, a, i), tuple) else E.vec_get(st, a, i),
                                E.vec_get(st, b, i)[0] if isinstance(E.vec_get(st, b, i), tuple) else E.vec_get(st, b, i), None, path + '[%d]' % i)
        elif not (na == 0 or nb == 0) and not same_val(a, b):
            out.append((path + ' contents', simp(tobv(na, 64) == 0)))
        return out
    if isinstance(a, StrV) and isinstance(b, StrV):
        la, lb = E.str_len(a.p), E.str_len(b.p)
        out = [(path + '.length', simp(tobv(la, 64) == tobv(lb, 64)))]
        if not same_pieces(a.p, b.p):
            out.append((path + ' contents', simp(z3.And(tobv(la, 64) == 0, tobv(lb, 64) == 0))))
        return out
    if (isinstance(a, PtrV) and isinstance(a.off, str)) or (isinstance(b, PtrV) and isinstance(b.off, str)):
        return []          # output iterator bound to its own object
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        f = zbool(a.null) == zbool(b.null)
        if a.loc is not None and b.loc is not None and not a.loc.same(b.loc):
            f = z3.And(f, zbool(a.null))
        return [(path, simp(f))]
    if isinstance(a, VarV) and isinstance(b, VarV):
        ia, ib = a.idx, b.idx
        out = [(path + '.alternative', simp(tobv(ia, 8) == tobv(ib, 8)))]
        if isinstance(ia, int) and isinstance(ib, int) and ia == ib and ia in a.alts and ia in b.alts:
            out += eq_state(E, st, a.alts[ia], b.alts[ib], None, path + '.alt')
        return out
    if isinstance(a, (z3.FPRef, float)) or isinstance(b, (z3.FPRef, float)):
        x, y = tofp(a), tofp(b)
        return [(path, simp(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y)))))]
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return [(path, simp(zbool(E.tobool(st, a)) == zbool(E.tobool(st, b))))]
    if isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef)):
        w = a.size() if isinstance(a, z3.BitVecRef) else b.size() if isinstance(b, z3.BitVecRef) else 64
        return [(path, simp(tobv(a, w) == tobv(b, w)))]
    if isinstance(a, OpqV) and isinstance(b, OpqV) and a.name == b.name:
        return [(path, True)]
    raise Unsupported('comparison of %r and %r at %s' % (a, b, path))
