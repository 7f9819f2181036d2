import os
"""Expression and statement semantics, calls and loops (subclass of Engine)."""
import z3, time, math
from .values import *
from .front import norm_name
from .engine import Engine, State, Frame, Ctx, Unsupported, PathEnd, CppThrow, MODELS, CTORS, Call, Obl

LIT = {}


def decay(t):
    while t.k == 'ref':
        t = t.t
    return t


class Exec(Engine):
    # ------------------------------------------------------------ helpers
    def rv(self, st, x):
        if isinstance(x, Loc):
            return self.force(self.load(st, x), st)
        if isinstance(x, LazyV):
            return self.force(x, st)
        return x

    def T(self, fr, e):
        return fr.tu.T(e['t'])

    def evr(self, e, st, fr):
        return self.rv(st, self.ev(e, st, fr))

    def tobool(self, st, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, z3.BitVecRef):
            return simp(v != 0)
        if isinstance(v, PtrV):
            return znot(v.null)
        if isinstance(v, float):
            return v != 0
        if isinstance(v, z3.FPRef):
            return z3.Not(z3.fpIsZero(v))
        if isinstance(v, FnV):
            return True
        if isinstance(v, OptV):
            return v.has
        if isinstance(v, ExpV):
            return v.ok
        raise Unsupported('bool of %r' % (v,))

    def deref(self, st, p, fr=None, line=0):
        if isinstance(p, Loc):
            return p
        if isinstance(p, FnV):
            return p
        if not isinstance(p, PtrV):
            raise Unsupported('deref %r' % (p,))
        if p.null is not False:
            if self.opts.get('check_null'):
                self.oblige(st, znot(p.null), 'pointer dereferenced is not null', line, kind='null')
            if p.null is True:
                raise PathEnd()
            self.assume(st, znot(p.null))
        if p.off is None:
            return p.loc
        v = self.load(st, p.loc)
        if not isinstance(v, (VecV, StrV)):
            # pointer into an array owned by an external library: element contents unconstrained
            if isinstance(p.off, int) and p.off == 0:
                return p.loc
            pt = p.t.t if p.t is not None and p.t.k == 'ptr' else (v.t if isinstance(v, (SV, OpqV)) else None)
            if isinstance(v, PtrV):
                pt = v.t
            if pt is None:
                raise Unsupported('index of %r' % (v,))
            n = 'xa!%s!%s' % (p.loc.root, p.off if isinstance(p.off, int) else p.off.get_id())
            self._keep.append(p.off)
            self.external['array behind external pointer'] = 1
            return self.nheap(n, pt, st, LazyV(pt, n + '.e' if pt.k == 'ptr' else n))
        if self.opts['check_bounds']:
            self.bounds(st, p.loc, p.off, line)
        return Loc(p.loc.root, p.loc.path + (('i', p.off),))

    def bounds(self, st, cloc, i, line, what='element access within bounds'):
        c = self.load(st, cloc)
        try:
            n = self.vsize(c)
        except Unsupported:
            return
        if isinstance(i, int) and isinstance(n, int):
            ok = 0 <= i < n
        else:
            ok = z3.ULT(tobv(i, 64), tobv(n, 64))
        self.oblige(st, ok, what, line, kind='bounds')
        if ok is False:
            raise PathEnd()
        if ok is not True:
            self.assume(st, ok)

    def fld(self, st, loc, name):
        return Loc(loc.root, loc.path + (('f', name),))

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, 'e_' + e['e'], None)
        if m is None:
            raise Unsupported('expr %s' % e['e'])
        return m(e, st, fr)

    def e_const(self, e, st, fr):
        t = self.T(fr, e)
        if t.k == 'bool':
            return bool(e['v'])
        if t.w:
            return wrap(e['v'], t.w, t.s)
        return e['v']

    def e_fconst(self, e, st, fr):
        return float(e['v'])

    def e_str(self, e, st, fr):
        t = self.T(fr, e)
        b = e['b']
        key = '@lit%d' % id(e)
        if key not in st.mem:
            if t.k == 'arr' and t.t.w == 8:
                st.mem[key] = StrV((bytes(b),) if b else ())
            else:
                st.mem[key] = VecV(t.t, None, 0, 0, tuple(b) + (0,), None, True)
            self.rtype[key] = t
            self._keep.append(e)
        return Loc(key)

    def e_SourceLoc(self, e, st, fr):
        return OpqV(None, 'srcloc')

    def e_predef(self, e, st, fr):
        return self.heap('predef', self.T(fr, e), st, StrV((b'func',)))

    def e_null(self, e, st, fr):
        return NULLP

    def e_this(self, e, st, fr):
        th = fr.this
        if th is None and fr.lam is not None:
            th = fr.lam.get('this')
        if isinstance(th, PtrV):
            return th
        if th is None:
            raise Unsupported('no this')
        return PtrV(False, th, None)

    def lookup(self, st, fr, did):
        f = fr
        while f is not None:
            v = st.env.get((f.id, did))
            if v is not None:
                return v
            if f.lam is not None and did in f.lam:
                return f.lam[did]
            f = f.parent if f.id == -1 else None
        return None

    def e_var(self, e, st, fr):
        g = e.get('global')
        v = self.lookup(st, fr, e['id'])
        if v is not None:
            return v
        if g is not None:
            return self.global_loc(g, e, st, fr)
        raise Unsupported('unbound variable %s' % e['n'])

    def global_loc(self, g, e, st, fr):
        key = '@g:' + g
        if key in st.mem:
            return Loc(key)
        gd = fr.tu.globals.get(g)
        tu = fr.tu
        t = decay(fr.tu.T(gd['t'])) if gd else self.T(fr, e)
        if gd and gd.get('init') is None and gd.get('inscope'):
            # declared extern here: take the definition from the translation unit that has it
            for tu2 in self.prog.tus.values():
                g2 = tu2.globals.get(g)
                if g2 and g2.get('init') is not None:
                    gd, tu = g2, tu2
                    t = decay(tu2.T(g2['t']))
                    break
        self.rtype[key] = t
        if gd and gd.get('init') is not None:
            f2 = Frame(-2, None, tu, None)
            v = self.evr(gd['init'], st, f2)
            st.mem[key] = v
        else:
            self.external['global ' + g] = self.external.get('global ' + g, 0) + 1
            st.mem[key] = LazyV(t, 'glob!' + g)
        return Loc(key)

    def e_mem(self, e, st, fr):
        b = self.ev(e['x'], st, fr)
        if e['arrow']:
            b = self.deref(st, self.rv(st, b), fr, e['l'])
        name = e['f']
        if isinstance(b, Loc):
            loc = Loc(b.root, b.path + (('f', name),))
            if self.field_is_ref(fr.tu.T(e['cls']) if e.get('cls') is not None else None, name):
                r = self.load(st, loc)
                return self.force(r, st) if isinstance(r, LazyV) else r
            return loc
        if isinstance(b, LazyV):
            b = self.force(b, st)
        if isinstance(b, SV):
            v = b.f.get(name)
            if v is None:
                raise Unsupported('field %s' % name)
            return v
        if isinstance(b, OpqV):
            raise Unsupported('field %s of opaque %s' % (name, b))
        raise Unsupported('member of %r' % (b,))

    def field_is_ref(self, t, name):
        if t is None or t.rec is None:
            return False
        for f in t.rec.fields:
            if f[0] == name:
                return f[1].k == 'ref'
        return False

    def e_fn(self, e, st, fr):
        F = self.prog.resolve(fr.tu, e['f'])
        return FnV(F, fr.tu) if F else OpqV(None, 'fn:' + e['f']['n'], e['f'])

    def e_temp(self, e, st, fr):
        v = self.ev(e['x'], st, fr)
        if isinstance(v, Loc):
            return v
        return self.nroot(fr, 'tmp!%d!%d' % (fr.id, id(e)), self.T(fr, e), st, v)

    def e_unsupported(self, e, st, fr):
        if e.get('cls') == 'SourceLocExpr':
            return OpqV(None, 'srcloc')
        raise Unsupported('node %s' % e.get('cls'))

    def e_dependent(self, e, st, fr):
        raise Unsupported('dependent expr')

    # ---- casts
    def e_cast(self, e, st, fr):
        ck = e['ck']
        t = self.T(fr, e)
        if ck == 'LValueToRValue':
            return self.rv(st, self.ev(e['x'], st, fr))
        if ck == 'ToVoid':
            self.ev(e['x'], st, fr)
            return VOID
        x = self.ev(e['x'], st, fr)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'LValueBitCast', 'Dependent'):
            return x
        if ck == 'BaseToDerived':
            self.downcast(st, x, fr.tu.T(e['t']))
            return x
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            return x
        if ck == 'ArrayToPointerDecay':
            if isinstance(x, Loc):
                return PtrV(False, x, 0, t)
            l = self.newroot(fr, 'arr', t, st, x)
            return PtrV(False, l, 0, t)
        if ck == 'FunctionToPointerDecay' or ck == 'BuiltinFnToFnPtr':
            return x
        if ck == 'NullToPointer':
            return NULLP
        v = self.rv(st, x)
        if ck == 'BitCast' or ck == 'CPointerToObjCPointerCast':
            return self.bitcast(st, v, t)
        st_t = fr.tu.T(e['x']['t'])
        return self.convert(st, v, st_t, t, ck)

    def downcast(self, st, v, t):
        """an object only known by an empty base class is of the class it is cast to"""
        if t.k in ('ptr', 'ref'):
            t = t.t
            v = self.rv(st, v)
            v = v.loc if isinstance(v, PtrV) else v
        if isinstance(v, Loc) and not v.path and t.k == 'rec':
            cur = st.mem.get(v.root)
            ct = getattr(cur, 't', None)
            if isinstance(cur, (LazyV, SV)) and ct is not None and ct.k == 'rec' and ct.key != t.key and ct.rec is not None and not ct.rec.fields:
                st.mem[v.root] = LazyV(t, 'cast!' + v.root)
                self.rtype[v.root] = t

    def bitcast(self, st, v, t):
        if isinstance(v, PtrV) and v.null is not True and t.k == 'ptr':
            pt = t.t
            cur = st.mem.get(v.loc.root) if v.loc and not v.loc.path else None
            if pt.k == 'rec' and (isinstance(cur, OpqV) or (isinstance(cur, LazyV) and cur.t.key != pt.key)):
                st.mem[v.loc.root] = LazyV(pt, 'cast!' + v.loc.root)
                self.rtype[v.loc.root] = pt
            if pt.k in ('int', 'enum') and pt.w == 8 and v.loc is not None and pt.const:
                # byte view of an integer object (read-only snapshot, little endian)
                try:
                    x = self.load(st, v.loc)
                    if isinstance(x, VecV) and v.off is not None:
                        x = self.load(st, Loc(v.loc.root, v.loc.path + (('i', v.off),)))
                    elif v.off is not None:
                        x = None
                except Unsupported:
                    x = None
                if isinstance(x, z3.BitVecRef) and x.size() in (16, 32, 64) and pt.const:
                    ps = tuple(('ch', z3.simplify(z3.Extract(8 * i + 7, 8 * i, x))) for i in range(x.size() // 8))
                    return PtrV(v.null, self.newroot(None, 'bytes', None, st, StrV(ps)), 0, t)
            return PtrV(v.null, v.loc, v.off, t)
        return v

    def convert(self, st, v, ft, t, ck=None):
        ft = decay(ft)
        if t.k == 'bool':
            return self.tobool(st, v)
        if t.k in ('int', 'enum'):
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, z3.BoolRef):
                return tobv(v, t.w)
            if isinstance(v, int):
                return wrap(v, t.w, t.s)
            if isinstance(v, z3.BitVecRef):
                s = v.size()
                if s == t.w:
                    return v
                if s > t.w:
                    return z3.Extract(t.w - 1, 0, v)
                signed = ft.s if ft.k in ('int', 'enum') else False
                return z3.SignExt(t.w - s, v) if signed else z3.ZeroExt(t.w - s, v)
            if isinstance(v, float):
                if v != v or abs(v) > 2**63:
                    return z3.BitVec('fptoint!%d' % self.uid(), t.w)
                return wrap(int(v), t.w, t.s)
            if isinstance(v, z3.FPRef):
                return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t.w)) if t.s else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t.w))
            if isinstance(v, PtrV):
                return z3.BitVec('ptrint!%d' % self.uid(), t.w)
            raise Unsupported('to int %r' % (v,))
        if t.k == 'float':
            so = F64 if t.w == 64 else F32
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                f = float(v)
                if t.w == 32:
                    import struct
                    f = struct.unpack('f', struct.pack('f', f))[0]
                return f
            if isinstance(v, float):
                if t.w == 32:
                    import struct
                    try:
                        return struct.unpack('f', struct.pack('f', v))[0]
                    except OverflowError:
                        return math.inf if v > 0 else -math.inf
                return v
            if isinstance(v, z3.BitVecRef):
                return z3.fpSignedToFP(RNE, v, so) if ft.s else z3.fpUnsignedToFP(RNE, v, so)
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.FPVal(1.0, so), z3.FPVal(0.0, so))
            if isinstance(v, z3.FPRef):
                if v.sort() == so:
                    return v
                return z3.fpFPToFP(RNE, v, so)
        if t.k == 'ptr':
            if isinstance(v, PtrV):
                return PtrV(v.null, v.loc, v.off, t)
            if isinstance(v, int) and v == 0:
                return NULLP
            if isinstance(v, int):
                return PtrV(False, None, None, t)
        if t.k == 'void':
            return VOID
        return v

    # ---- operators
    def e_un(self, e, st, fr):
        op = e['op']
        if op == '*':
            x = self.rv(st, self.ev(e['x'], st, fr))
            return self.deref(st, x, fr, e['l'])
        if op == '&':
            x = self.ev(e['x'], st, fr)
            if isinstance(x, FnV) or isinstance(x, OpqV):
                return x
            if not isinstance(x, Loc):
                raise Unsupported('address of value')
            return self.addr(x, self.T(fr, e))
        if op == '__extension__':
            return self.ev(e['x'], st, fr)
        if op in ('++', '--'):
            loc = self.ev(e['x'], st, fr)
            old = self.rv(st, loc)
            t = decay(fr.tu.T(e['x']['t']))
            d = 1 if op == '++' else -1
            if isinstance(old, PtrV):
                new = PtrV(old.null, old.loc, self.add64(old.off, d), old.t)
            elif isinstance(old, (float, z3.FPRef)):
                new = old + d if isinstance(old, float) else z3.fpAdd(RNE, old, tofp(float(d), t.w))
            else:
                new = self.arith(st, '+', old, d, t, e['l'])
            self.store(st, loc, new)
            return old if e['post'] else loc
        x = self.evr(e['x'], st, fr)
        t = self.T(fr, e)
        if op == '!':
            return znot(self.tobool(st, x))
        if op == '-':
            if isinstance(x, float):
                return -x
            if isinstance(x, z3.FPRef):
                return z3.fpNeg(x)
            if isinstance(x, int):
                return wrap(-x, t.w, t.s)
            return -x
        if op == '+':
            return x
        if op == '~':
            if isinstance(x, int):
                return wrap(~int(x), t.w, t.s)
            return ~x
        raise Unsupported('unary %s' % op)

    def addr(self, x, t=None):
        if x.path and x.path[-1][0] == 'i':
            return PtrV(False, Loc(x.root, x.path[:-1]), x.path[-1][1], t)
        return PtrV(False, x, None, t)

    def add64(self, a, b):
        if a is None:
            a = 0
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return simp(tobv(a, 64) + tobv(b, 64))

    def arith(self, st, op, a, b, t, line=0):
        """integer arithmetic at type t (operands already converted)"""
        w, s = t.w, t.s
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, z3.BoolRef):
            a = tobv(a, w)
        if isinstance(b, z3.BoolRef):
            b = tobv(b, w)
        if isinstance(a, int) and isinstance(b, int):
            if op == '+':
                return wrap(a + b, w, s)
            if op == '-':
                return wrap(a - b, w, s)
            if op == '*':
                return wrap(a * b, w, s)
            if op in ('/', '%'):
                if b == 0:
                    self.oblige(st, False, 'division by zero', line, kind='div')
                    raise PathEnd()
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return wrap(q, w, s) if op == '/' else wrap(a - q * b, w, s)
            if op == '&':
                return wrap(a & b, w, s)
            if op == '|':
                return wrap(a | b, w, s)
            if op == '^':
                return wrap(a ^ b, w, s)
            if op == '<<':
                return wrap(a << (b & 63), w, s)
            if op == '>>':
                return wrap(a >> (b & 63), w, s)
        A, B = tobv(a, w), tobv(b, w)
        if isinstance(b, z3.BitVecRef) and b.size() < w:
            B = z3.ZeroExt(w - b.size(), b)
        if op == '+':
            return simp(A + B)
        if op == '-':
            return simp(A - B)
        if op == '*':
            return simp(A * B)
        if op in ('/', '%'):
            if self.opts['check_bounds']:
                self.oblige(st, B != 0, 'divisor is not zero', line, kind='div')
                self.assume(st, B != 0)
            if op == '/':
                return A / B if s else z3.UDiv(A, B)
            return z3.SRem(A, B) if s else z3.URem(A, B)
        if op == '&':
            return simp(A & B)
        if op == '|':
            return simp(A | B)
        if op == '^':
            return simp(A ^ B)
        if op == '<<':
            return simp(A << B)
        if op == '>>':
            return simp(A >> B) if s else simp(z3.LShR(A, B))
        raise Unsupported('arith ' + op)

    def farith(self, op, a, b, w):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and w == 64:
            a, b = float(a), float(b)
            try:
                if op == '+':
                    return a + b
                if op == '-':
                    return a - b
                if op == '*':
                    return a * b
                if op == '/' and b != 0:
                    return a / b
            except OverflowError:
                pass
        A, B = tofp(a, w), tofp(b, w)
        if op == '+':
            return z3.fpAdd(RNE, A, B)
        if op == '-':
            return z3.fpSub(RNE, A, B)
        if op == '*':
            return z3.fpMul(RNE, A, B)
        if op == '/':
            return z3.fpDiv(RNE, A, B)
        raise Unsupported('farith ' + op)

    def compare(self, st, op, a, b, t):
        a = self.force(a, st)
        b = self.force(b, st)
        if isinstance(a, StrV) or isinstance(b, StrV):
            r = self.str_eq(st, a, b)
            return r if op == '==' else znot(r) if op == '!=' else self.unk('strcmp')
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return self.ptr_cmp(st, op, a, b)
        if isinstance(a, (float, z3.FPRef)) or isinstance(b, (float, z3.FPRef)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            w = t.w or 64
            A, B = tofp(a, w), tofp(b, w)
            return {'==': z3.fpEQ, '!=': lambda x, y: z3.Not(z3.fpEQ(x, y)), '<': z3.fpLT, '<=': z3.fpLEQ,
                    '>': z3.fpGT, '>=': z3.fpGEQ}[op](A, B)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            if op == '==':
                return simp(zbool(a) == zbool(b))
            if op == '!=':
                return simp(zbool(a) != zbool(b))
        if isinstance(a, (int, z3.BitVecRef, z3.BoolRef)) and isinstance(b, (int, z3.BitVecRef, z3.BoolRef)):
            if isinstance(a, int) and isinstance(b, int):
                return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            w = t.w or (a.size() if isinstance(a, z3.BitVecRef) else b.size())
            A, B = tobv(a, w), tobv(b, w)
            s = t.s
            if op == '==':
                return simp(A == B)
            if op == '!=':
                return simp(A != B)
            if op == '<':
                return simp(A < B if s else z3.ULT(A, B))
            if op == '<=':
                return simp(A <= B if s else z3.ULE(A, B))
            if op == '>':
                return simp(A > B if s else z3.UGT(A, B))
            if op == '>=':
                return simp(A >= B if s else z3.UGE(A, B))
        if op in ('==', '!='):
            if same_val(a, b) and not isinstance(a, OpqV):
                return op == '=='
            if isinstance(a, SV) and isinstance(b, SV) and a.t.key == b.t.key:
                ft = {x[0]: x[1] for x in a.t.rec.fields}
                r = zand(*[self.compare(st, '==', a.f[k], b.f[k], ft[k]) for k in a.f])
                return r if op == '==' else znot(r)
            if isinstance(a, OptV) and isinstance(b, OptV):
                et = a.t.args[0]
                if a.has is False or b.has is False:
                    r = zand(znot(a.has), znot(b.has))
                else:
                    r = zor(zand(znot(a.has), znot(b.has)), zand(a.has, b.has, self.compare(st, '==', a.v, b.v, et)))
                return r if op == '==' else znot(r)
            if isinstance(a, OptV):
                r = zand(a.has, self.compare(st, '==', a.v, b, a.t.args[0]))
                return r if op == '==' else znot(r)
        return self.unk('cmp')

    def unk(self, why):
        return z3.Bool('unk_%s!%d' % (why, self.uid()))

    def same_object(self, a, b):
        """two pointers of different origin are equal: unknown, but always the same answer"""
        if a.loc is None or b.loc is None or any(x is not None and not (isinstance(x, int) and x == 0) for x in (a.off, b.off)) or \
                any(is_z3(y) for l in (a.loc, b.loc) for x in l.path for y in x):
            return self.unk('ptreq')
        return z3.Bool('same!%s!%s' % tuple(sorted(repr((l.root, l.path)) for l in (a.loc, b.loc))))

    def ptr_cmp(self, st, op, a, b):
        if not isinstance(a, PtrV) or not isinstance(b, PtrV):
            raise Unsupported('ptr cmp %r %r' % (a, b))
        r = None
        if b.null is True or a.null is True:
            o = a if b.null is True else b
            r = o.null
            if op in ('==', '!='):
                return r if op == '==' else znot(r)
        if a.loc is not None and b.loc is not None and a.loc.same(b.loc):
            oa, ob = a.off or 0 if a.off is None else a.off, b.off if b.off is not None else 0
            if isinstance(oa, int) and isinstance(ob, int):
                r = {'==': oa == ob, '!=': oa != ob, '<': oa < ob, '<=': oa <= ob, '>': oa > ob, '>=': oa >= ob}[op]
                return r
            A, B = tobv(oa, 64), tobv(ob, 64)
            return simp({'==': A == B, '!=': A != B, '<': z3.ULT(A, B), '<=': z3.ULE(A, B), '>': z3.UGT(A, B),
                         '>=': z3.UGE(A, B)}[op])
        if op in ('==', '!='):
            u = self.same_object(a, b)
            return u if op == '==' else z3.Not(u)
        return self.unk('ptrcmp')

    def str_eq(self, st, a, b):
        if isinstance(a, PtrV):
            a = self.cstr(st, a)
        if isinstance(b, PtrV):
            b = self.cstr(st, b)
        if not isinstance(a, StrV) or not isinstance(b, StrV):
            return self.unk('streq')
        if same_val(a, b):
            return True
        ca, cb = self.concrete_str(a), self.concrete_str(b)
        if ca is not None and cb is not None:
            return ca == cb
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None and len(a.p) == 1 and isinstance(a.p[0], tuple) and a.p[0][0] == 'in' and len(cb) <= 64:
            p = a.p[0]
            arr = z3.Array('in!%s' % p[1], z3.BitVecSort(64), z3.BitVecSort(8))
            cs = [tobv(p[3], 64) == len(cb)]
            for i, ch in enumerate(cb):
                cs.append(z3.Select(arr, z3.simplify(tobv(p[2], 64) + i)) == ch)
            return z3.And(*cs)
        return self.unk('streq')

    def cstr(self, st, p):
        """pointer to characters -> StrV (NUL terminated string)"""
        if isinstance(p, StrV):
            return p
        if isinstance(p, VecV):
            return p
        if not isinstance(p, PtrV):
            raise Unsupported('cstr %r' % (p,))
        if p.null is True:
            raise PathEnd()
        v = self.load(st, p.loc)
        if isinstance(v, LazyV):
            v = self.force(v, st)
        if isinstance(v, VecV) and v.et.w == 8:
            from .models import vec_to_str
            if v.bsize == 0 and isinstance(v.bsize, int) and v.tail:
                z = next((i for i, x in enumerate(v.tail) if not isinstance(x, int) or x == 0), None)
                if z is not None and isinstance(v.tail[z], int):        # the terminating NUL
                    v = VecV(v.et, v.buid, v.bsize, v.boff, v.tail[:z], v.known)
            v = vec_to_str(self, st, v)
        if not isinstance(v, StrV):
            return self.str_fresh('cs%d' % self.uid())
        if p.off not in (None, 0) and isinstance(v, StrV):
            return self.str_sub(st, v, p.off, None)
        return v

    def str_sub(self, st, v, off, n):
        c = self.concrete_str(v)
        if c is not None and isinstance(off, int) and (n is None or isinstance(n, int)):
            r = c[off:] if n is None else c[off:off + n]
            return StrV((r,)) if r else StrV(())
        if len(v.p) == 1 and isinstance(v.p[0], tuple) and v.p[0][0] == 'in':
            p = v.p[0]
            no = simp(tobv(p[2], 64) + tobv(off, 64))
            nl = simp(tobv(p[3], 64) - tobv(off, 64)) if n is None else n
            return StrV((('in', p[1], no, nl),))
        if n is not None:
            ln = n
        else:
            ln = simp(tobv(self.str_len(v.p), 64) - tobv(off, 64))
        return StrV((('in', 'sub%d' % self.uid(), 0, ln),))

    def e_bin(self, e, st, fr):
        op = e['op']
        if op == '=':
            y = self.ev(e['y'], st, fr)
            y = self.rv(st, y)
            x = self.ev(e['x'], st, fr)
            self.store(st, x, y)
            return x
        if op in ('&&', '||'):
            x = self.tobool(st, self.evr(e['x'], st, fr))
            d = self.decide3(st, x)
            if d is None and self.simple(e['y']):
                y = self.tobool(st, self.evr(e['y'], st, fr))
                return simp(zand(x, y) if op == '&&' else zor(x, y))
            if d is None:
                d = self.decide(st, x)
            if op == '&&':
                return False if not d else self.tobool(st, self.evr(e['y'], st, fr))
            return True if d else self.tobool(st, self.evr(e['y'], st, fr))
        if op == ',':
            self.ev(e['x'], st, fr)
            return self.ev(e['y'], st, fr)
        x = self.evr(e['x'], st, fr)
        y = self.evr(e['y'], st, fr)
        xt = decay(fr.tu.T(e['x']['t']))
        t = self.T(fr, e)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(st, op, x, y, xt)
        if op == '<=>':
            return SV_cmp(x, y, xt, self, st)
        if isinstance(x, PtrV) or isinstance(y, PtrV):
            if op == '-' and isinstance(x, PtrV) and isinstance(y, PtrV):
                if x.loc and y.loc and x.loc.same(y.loc):
                    return self.arith(st, '-', x.off or 0, y.off or 0, t)
                return z3.BitVec('ptrdiff!%d' % self.uid(), 64)
            if isinstance(y, PtrV):
                x, y = y, x
                e = dict(e, y=e['x'])
            yt = decay(fr.tu.T(e['y']['t']))
            y = self.convert(st, y, yt, I64)
            if op == '-':
                y = self.arith(st, '-', 0, y, I64)
            return PtrV(x.null, x.loc, self.add64(x.off, y), x.t)
        if t.k == 'float':
            return self.farith(op, x, y, t.w)
        return self.arith(st, op, x, y, t, e['l'])

    SIMPLE = {'const', 'var', 'mem', 'cast', 'bin', 'un', 'this', 'null', 'fconst', 'cond'}

    def simple(self, e):
        """pure expression without memory access obligations or forks"""
        k = e['e']
        if k not in self.SIMPLE:
            return False
        if k == 'un' and e['op'] in ('++', '--', '*'):
            return False
        if k == 'mem' and e['arrow'] and e['x']['e'] not in ('this',) and not (e['x']['e'] == 'cast' and e['x']['x']['e'] == 'this'):
            return False
        if k == 'bin' and e['op'] in ('=', '/', '%', ','):
            return False
        for q in ('x', 'y', 'c'):
            if q in e and isinstance(e[q], dict) and not self.simple(e[q]):
                return False
        return True

    def e_cassign(self, e, st, fr):
        op = e['op'][:-1]
        y = self.evr(e['y'], st, fr)
        loc = self.ev(e['x'], st, fr)
        x = self.rv(st, loc)
        xt = decay(fr.tu.T(e['x']['t']))
        if isinstance(x, PtrV):
            yy = self.convert(st, y, decay(fr.tu.T(e['y']['t'])), I64)
            if op == '-':
                yy = self.arith(st, '-', 0, yy, I64)
            r = PtrV(x.null, x.loc, self.add64(x.off, yy), x.t)
            self.store(st, loc, r)
            return loc
        ct = fr.tu.T(e['ct'])
        clt = fr.tu.T(e['clt'])
        xc = self.convert(st, x, xt, clt)
        if op not in ('<<', '>>'):
            y = self.convert(st, y, decay(fr.tu.T(e['y']['t'])), ct)
        if ct.k == 'float':
            r = self.farith(op, xc, y, ct.w)
        else:
            r = self.arith(st, op, xc, y, ct, e['l'])
        r = self.convert(st, r, ct, xt)
        self.store(st, loc, r)
        return loc

    def e_rewritten(self, e, st, fr):
        # x op y where x is typically (a <=> b) or (a == b)
        op = e['op']
        if op == '!=':
            x = e['x']
            if x['e'] in ('opcall', 'call') and x.get('op', '==') == '==' or True:
                r = self.opcmp(e['x'], e['y'], '==', st, fr)
                return znot(r)
        r = self.opcmp(e['x'], e['y'], op, st, fr)
        return r

    def opcmp(self, xe, ye, op, st, fr):
        xv = self.ev(xe, st, fr)
        yv = self.ev(ye, st, fr)
        x, y = self.rv(st, xv), self.rv(st, yv)
        return self.compare(st, op, x, y, decay(fr.tu.T(xe['t'])))

    def e_cond(self, e, st, fr):
        c = self.tobool(st, self.evr(e['c'], st, fr))
        d = self.decide3(st, c)
        if d is None and self.simple(e['x']) and self.simple(e['y']) and not e.get('lv'):
            x = self.evr(e['x'], st, fr)
            y = self.evr(e['y'], st, fr)
            t = self.T(fr, e)
            try:
                return self.merge_val(c, x, y, t)
            except Engine.NoMerge:
                pass
        if d is None:
            d = self.decide(st, c)
        return self.ev(e['x'] if d else e['y'], st, fr)

    def e_idx(self, e, st, fr):
        b = self.ev(e['x'], st, fr)
        i = self.evr(e['y'], st, fr)
        it = decay(fr.tu.T(e['y']['t']))
        if isinstance(b, PtrV) is False:
            b = self.rv(st, b) if not (isinstance(b, Loc) and decay(fr.tu.T(e['x']['t'])).k == 'arr') else b
        if isinstance(i, z3.BitVecRef):
            i = self.convert(st, i, it, I64)
        if isinstance(b, PtrV):
            loc, off = b.loc, self.add64(b.off, i)
            return self.deref(st, PtrV(b.null, loc, off), fr, e['l'])
        if isinstance(b, Loc):
            if self.opts['check_bounds']:
                self.bounds(st, b, i, e['l'])
            return Loc(b.root, b.path + (('i', i),))
        raise Unsupported('index of %r' % (b,))

    def e_init(self, e, st, fr):
        t = self.T(fr, e)
        a = e['a']
        if t.k == 'rec':
            if t.nn == 'std::array':
                if len(a) == 1 and a[0]['e'] == 'init':
                    r = self.ev(a[0], st, fr)
                    if isinstance(r, VecV):
                        n = t.args[1]
                        if len(r.tail) < n and r.buid is None:
                            r = VecV(t.args[0], None, 0, 0, r.tail + tuple(self.default(t.args[0], st, fr) for _ in range(n - len(r.tail))), None, True)
                        return r
                vals = tuple(self.evr(x, st, fr) for x in a)
                n = t.args[1]
                vals += tuple(self.default(t.args[0], st, fr) for _ in range(n - len(vals)))
                return VecV(t.args[0], None, 0, 0, vals, None, True)
            if t.rec is None or (t.nn.startswith(('std::', '__gnu')) and not t.rec.fields):
                if not a:
                    return self.default(t, st, fr)
                if len(a) == 1:
                    return self.evr(a[0], st, fr)
                raise Unsupported('init of %s' % t.key)
            R = t.rec
            f = {}
            k = 0
            for b in R.bases:
                if k < len(a):
                    bv = self.evr(a[k], st, fr)
                    k += 1
                    if isinstance(bv, SV):
                        f.update(bv.f)
                    elif isinstance(bv, ClosV):
                        f['@clos:%s' % bv.t.rec.id] = bv
            nb = sum(len(b.rec.fields) for b in R.bases if b.rec)
            for fd in R.fields[nb:]:
                if k < len(a):
                    x = self.ev(a[k], st, fr)
                    f[fd[0]] = x if fd[1].k == 'ref' else self.rv(st, x)
                    k += 1
                else:
                    f[fd[0]] = self.default(fd[1], st, fr)
            return SV(t, f)
        if t.k == 'arr':
            if len(a) == 1 and a[0]['e'] == 'str':
                return self.evr(a[0], st, fr)
            vals = tuple(self.evr(x, st, fr) for x in a)
            if t.cnt > 4096 and t.cnt > len(vals):
                return VecV(t.t, self.uid(), t.cnt, 0, (), None, True)
            vals += tuple(self.default(t.t, st, fr) for _ in range(t.cnt - len(vals)))
            return VecV(t.t, None, 0, 0, vals, None, True)
        if not a:
            return self.default(t, st, fr)
        return self.ev(a[0], st, fr)

    def e_zero(self, e, st, fr):
        return self.default(self.T(fr, e), st, fr)

    def e_ilist(self, e, st, fr):
        v = self.evr(e['x'], st, fr)
        return v

    def e_lambda(self, e, st, fr):
        t = self.T(fr, e)
        caps = {}
        R = t.rec
        for c, ini in zip(R.captures or [], e['inits']):
            if c.get('this'):
                th = fr.this if fr.this is not None else (fr.lam.get('this') if fr.lam else None)
                caps['this'] = th
                continue
            v = self.ev(ini, st, fr) if ini is not None else None
            if c.get('copy'):
                v = self.rv(st, v)
                v = self.newroot(None, '@cap', None, st, v)
            if 'var' not in c:
                raise Unsupported('capture kind')
            caps[c['var']] = v
        return ClosV(t, caps)

    def e_new(self, e, st, fr):
        at = fr.tu.T(e['at'])
        if e.get('arr'):
            raise Unsupported('new[]')
        if e['init'] is not None:
            v = self.evr(e['init'], st, fr)
        else:
            v = self.default(at, st, fr)
        loc = self.heap('new', at, st, v)
        h = self.hooks.get('new')
        if h:
            h(self, st, loc, at)
        return PtrV(False, loc, None, self.T(fr, e))

    def e_delete(self, e, st, fr):
        p = self.evr(e['x'], st, fr)
        h = self.hooks.get('delete')
        if h:
            h(self, st, p, fr.tu.T(e['x']['t']))
        return VOID

    def e_throw(self, e, st, fr):
        if e['x'] is None:
            raise CppThrow('rethrow')
        v = self.evr(e['x'], st, fr)
        raise CppThrow('thrown ' + str(fr.tu.T(e['x']['t']).key))

    def e_stmtexpr(self, e, st, fr):
        b = e['b']
        outs = self.cached_outcomes(lambda s: self.exec(b, s, fr), st)
        return self.pick(outs, st)

    # ------------------------------------------------------------ outcome choice
    def cached_outcomes(self, thunk, st):
        if not self.ctxs:
            return thunk(st.copy())
        ctx = self.ctxs[-1]
        key = ('o', ctx.taken, ctx.ncall)
        ctx.ncall += 1
        if key in ctx.memo:
            return ctx.memo[key]
        outs = thunk(st.copy())
        ctx.memo[key] = outs
        return outs

    def pick(self, outs, st):
        if not outs:
            raise PathEnd()
        i = self.choose(len(outs))
        s, k, v = outs[i]
        st.become(s)
        if k == 'throw':
            raise CppThrow(v)
        return v if v is not None else VOID

    # ------------------------------------------------------------ calls
    def e_call(self, e, st, fr):
        f = e.get('f')
        if f is None:
            cal = self.evr(e['callee'], st, fr)
            argv = [self.ev(a, st, fr) for a in e['a']]
            if isinstance(cal, PtrV):
                cal = self.rv(st, self.deref(st, cal)) if cal.loc is not None else cal
            if isinstance(cal, FnV) and cal.fn:
                return self.invoke(st, fr, cal.fn, None, argv, e)
            if isinstance(cal, ClosV):
                return self.call_closure(st, fr, cal, argv, e)
            if isinstance(cal, OpqV) and cal.info:
                return self.extern(st, fr, e, cal.info, None, argv)
            h = self.hooks.get('indirect')
            if h:
                return h(self, st, fr, e, cal, argv)
            return self.havoc_call(st, fr, 'indirect call', argv, self.T(fr, e))
        return self.docall(e, st, fr, f, None, e['a'])

    def e_mcall(self, e, st, fr):
        obj = self.ev(e['obj'], st, fr)
        if e.get('arrow'):
            obj = self.deref(st, self.rv(st, obj), fr, e['l'])
        f = e.get('f')
        if f is None:
            raise Unsupported('member pointer call')
        return self.docall(e, st, fr, f, obj, e['a'])

    def e_opcall(self, e, st, fr):
        f = e.get('f')
        if f is None:
            raise Unsupported('operator call')
        if f.get('m') and not f.get('static'):
            obj = self.ev(e['a'][0], st, fr)
            return self.docall(e, st, fr, f, obj, e['a'][1:])
        return self.docall(e, st, fr, f, None, e['a'])

    def docall(self, e, st, fr, f, obj, argnodes):
        argv = [self.ev(a, st, fr) for a in argnodes]
        nn = norm_name(f['n'])
        ov = self.overrides.get(nn)
        c = None
        if ov is not None:
            c = self.mkcall(e, f, obj, argv, argnodes, fr)
            r = ov(self, st, fr, c)
            if r is not NotImplemented:
                return r
        # closures
        if nn.endswith('::operator()') and obj is not None:
            o = self.rv(st, obj)
            if isinstance(o, ClosV):
                return self.call_closure(st, fr, o, argv, e)
        if f.get('noret'):
            return self.noreturn(st, fr, e, nn)
        F = self.prog.resolve(fr.tu, f)
        if F is not None and F.body is not None:
            if f.get('m') and not f.get('static'):
                if obj is not None and not isinstance(obj, Loc):
                    obj = self.newroot(fr, 'obj', None, st, obj)
                return self.invoke(st, fr, F, obj, argv, e)
            return self.invoke(st, fr, F, None, argv, e)
        return self.extern(st, fr, e, f, obj, argv, argnodes)

    def mkcall(self, e, f, obj, argv, argnodes, fr):
        c = Call()
        c.obj = obj
        c.args = argv
        c.node = e
        c.f = f
        c.tu = fr.tu
        c.type = self.T(fr, e)
        c.argn = argnodes
        return c

    def noreturn(self, st, fr, e, nn):
        if self.opts['check_abort']:
            self.oblige(st, False, 'unreachable: %s' % nn.split('::')[-1], e['l'], kind='abort')
        raise PathEnd()

    def extern(self, st, fr, e, f, obj, argv, argnodes=None):
        nn = norm_name(f['n'])
        m = MODELS.get(nn)
        if m is None and obj is not None:
            # generic member models by method name for known container classes
            m = self.method_model(st, obj, nn)
        if m is None and (nn.endswith('::operator=') and obj is not None):
            # defaulted assignment of a program record
            v = self.rv(st, argv[0])
            self.store(st, obj, v)
            if self.is_move_param(fr.tu, f):
                self.moved(st, argv[0])
            return obj
        if m is None and nn.endswith('::operator==') and f.get('m'):
            return self.compare(st, '==', self.rv(st, obj), self.rv(st, argv[0]), decay(fr.tu.T(f['cls'])))
        if m is None and nn.endswith('operator=='):
            return self.compare(st, '==', self.rv(st, argv[0]), self.rv(st, argv[1]), decay(fr.tu.T(f['pt'][0])))
        if m is not None:
            c = self.mkcall(e, f, obj, argv, argnodes, fr)
            r = m(self, st, fr, c)
            if r is not NotImplemented:
                return r
        self.external[nn] = self.external.get(nn, 0) + 1
        return self.havoc_call(st, fr, nn, ([obj] if obj is not None else []) + argv, self.T(fr, e), f)

    def method_model(self, st, obj, nn):
        return None

    def havoc_call(self, st, fr, nn, argv, t, f=None):
        pure = self.opts.get('pure_externals') or ()
        if nn not in pure:
            self.taint(st, 'havoc:' + nn)
        pts = None
        if f is not None:
            try:
                pts = [fr.tu.T(x) for x in f['pt']]
            except Exception:
                pts = None
        n0 = len(argv) - (len(pts) if pts else 0)
        for i, a in enumerate(argv):
            pt = pts[i - n0] if pts is not None and 0 <= i - n0 < len(pts) else None
            if pt is not None and pt.k in ('ref', 'ptr') and pt.t.const:
                continue
            if isinstance(a, Loc):
                if pt is not None and pt.k not in ('ref', 'ptr'):
                    continue
                self.havoc_loc(st, a)
            elif isinstance(a, PtrV) and a.loc is not None and a.null is not True:
                self.havoc_loc(st, a.loc)
        if t.k == 'void':
            return VOID
        return self.fresh_result(st, fr, t, 'ext!%s!%d' % (nn, self.uid()))

    def fresh_result(self, st, fr, t, name):
        if t.k == 'ref':
            return self.heap(name, t.t, st, LazyV(t.t, name))
        return self.fresh(t, name, st)

    def havoc_loc(self, st, loc):
        try:
            v = self.load(st, loc)
        except Unsupported:
            return
        self.store(st, loc, self.havoc_val(st, v))

    def havoc_val(self, st, v, t=None):
        n = 'hv%d' % self.uid()
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return z3.Bool(n)
        if isinstance(v, z3.BitVecRef):
            return z3.BitVec(n, v.size())
        if isinstance(v, int):
            if t is not None and t.w:
                return z3.BitVec(n, t.w)
            return z3.BitVec(n, 64) if t is None else self.fresh(t, n, st)
        if isinstance(v, (float, z3.FPRef)):
            return z3.FP(n, F64 if isinstance(v, float) else v.sort())
        if isinstance(v, SV):
            ft = {x[0]: x[1] for x in (v.t.rec.fields if v.t.rec else [])}
            return SV(v.t, {k: (x if (k in ft and ft[k].k == 'ref') else self.havoc_val(st, x, ft.get(k))) for k, x in v.f.items()})
        if isinstance(v, StrV):
            return self.str_fresh(n)
        if isinstance(v, VecV):
            if v.fixed:
                return VecV(v.et, self.uid(), self.vsize(v), 0, (), None, True)
            sz = z3.BitVec('sz!' + n, 64)
            self.axioms.append(z3.ULT(sz, z3.BitVecVal(1 << 40, 64)))
            return VecV(v.et, self.uid(), sz)
        if isinstance(v, (OptV, ExpV, VarV)):
            return self.fresh(v.t, n, st)
        if isinstance(v, PtrV):
            return v if v.t is None else self.fresh(v.t, n, st)
        if isinstance(v, MapV):
            sz = z3.BitVec('sz!' + n, 64)
            return MapV(v.t, self.uid(), sz)
        if isinstance(v, LazyV):
            return LazyV(v.t, n)
        if isinstance(v, OpqV):
            return OpqV(v.t, n, None)
        return v

    def is_move_param(self, tu, f):
        if not f.get('pt'):
            return False
        p = tu.T(f['pt'][0])
        return p.k == 'ref' and bool(p.rv)

    def moved(self, st, loc):
        if not isinstance(loc, Loc):
            return
        try:
            v = self.load(st, loc)
        except Unsupported:
            return
        nv = self.moved_val(v, 0)
        if nv is not v:
            self.store(st, loc, nv)

    def moved_val(self, v, d):
        if isinstance(v, StrV):
            return StrV(()) if v.p else v
        if isinstance(v, VecV) and not v.fixed:
            return VecV(v.et)
        if isinstance(v, MapV):
            return MapV(v.t, 'empty', 0)
        if isinstance(v, PtrV) and v.t is not None and v.t.k == 'rec' and v.t.nn == 'std::unique_ptr':
            return PtrV(True, None, None, v.t)
        if d < 3:
            if isinstance(v, OptV) and v.v is not None:
                x = self.moved_val(v.v, d + 1)
                return v if x is v.v else OptV(v.t, v.has, x)
            if isinstance(v, VarV) and isinstance(v.idx, int):
                x = self.moved_val(v.alts[v.idx], d + 1)
                return v if x is v.alts[v.idx] else VarV(v.t, v.idx, {v.idx: x})
            if isinstance(v, SV):
                ch = {}
                for k, x in v.f.items():
                    y = self.moved_val(x, d + 1)
                    if y is not x:
                        ch[k] = y
                if ch:
                    f = dict(v.f)
                    f.update(ch)
                    return SV(v.t, f)
        return v

    # ---- program functions
    def invoke(self, st, fr, F, this, argv, e):
        h = self.fnhooks.get(F.name) or self.fnhooks.get(F.nn) or self.hooks.get('anyfn')
        if h is not None:
            r = h(self, st, fr, F, this, argv, e)
            if r is not NotImplemented:
                self.contract_used.add(F.name)
                return r
        if fr.depth > self.opts['maxdepth']:
            raise Unsupported('call depth')
        q = fr
        while q is not None:
            if q.fn is F:
                # recursive call: everything reachable through its non-const arguments is unconstrained afterwards
                self.assumptions.add('recursive call of %s: frame havoc, body verified separately' % F.name)
                for p, a in zip(F.params, argv):
                    pt = F.tu.T(p['t'])
                    if pt.k in ('ref', 'ptr') and not pt.t.const:
                        if isinstance(a, Loc):
                            self.havoc_loc(st, a)
                        elif isinstance(a, PtrV) and a.loc is not None:
                            self.havoc_loc(st, a.loc)
                if this is not None and not F.const:
                    self.havoc_loc(st, this)
                return self.fresh_result(st, fr, F.tu.T(F.ret), 'rec!%d' % self.uid())
            q = q.parent
        self.inlined.add(F.name)
        line = e.get('l', 0) if isinstance(e, dict) else 0

        def th(s):
            return self.run_fn(s, F, this, argv, fr)
        outs = self.cached_outcomes(th, st)
        return self.pick(outs, st)

    def call_closure(self, st, fr, clos, argv, e):
        op = None
        R = clos.t.rec
        tu = R.tu
        cands = []
        for i in (R.ops or []):
            f = tu.fns.get(i)
            if f is not None:
                cands.append(f)
        if not cands:
            raise Unsupported('closure body')
        op = cands[0]
        if len(cands) > 1:
            # generic lambda: choose by the callee of the call node
            fid = e.get('f', {}).get('id') if isinstance(e, dict) else None
            for c in cands:
                if c.id == fid:
                    op = c
        if isinstance(e, dict) and e.get('f') and tu.fns.get(e['f'].get('id')) is not None:
            ff = tu.fns[e['f']['id']]
            if ff.cls == op.cls:
                op = ff

        def th(s):
            return self.run_fn(s, op, None, argv, fr, clos)
        outs = self.cached_outcomes(th, st)
        return self.pick(outs, st)

    def run_fn(self, st, F, this, argv, pfr, clos=None):
        """execute the body of F; outcomes with kinds n/throw"""
        f2 = Frame(uid(), F, F.tu, this, pfr)
        if clos is not None:
            f2.lam = clos.caps
            f2.this = clos.caps.get('this')
        if f2.depth > self.opts['maxdepth']:
            raise Unsupported('call depth')
        for p, a in zip(F.params, argv):
            pt = F.tu.T(p['t'])
            if pt.k == 'ref':
                if not isinstance(a, Loc) and not isinstance(a, FnV):
                    a = self.newroot(f2, p['name'] or 'p', pt.t, st, a)
                st.env[(f2.id, p['id'])] = a
            else:
                v = self.rv(st, a)
                st.env[(f2.id, p['id'])] = self.newroot(f2, p['name'] or 'p', pt, st, v)
        saved = self.curfn
        if self.opts.get('name_inner', True):
            self.curfn = F.name
        try:
            if F.isctor and F.inits:
                pre = self.run_paths(st, lambda s: self.ctor_inits(s, F, f2))
            else:
                pre = [(st, 'n', None)]
            outs = []
            for s0, k0, v0 in pre:
                if k0 != 'n':
                    outs.append((s0, k0, v0))
                    continue
                outs += self.exec(F.body, s0, f2)
        finally:
            self.curfn = saved
        res = []
        rt = F.tu.T(F.ret)
        for s, k, v in outs:
            if k in ('n', 'ret'):
                k = 'n'
                if v is None:
                    v = VOID
            res.append((s, k, v))
        # drop dead roots
        for s, k, v in res:
            keep = v.root if isinstance(v, Loc) else None
            for r in f2.roots:
                if r != keep:
                    s.mem.pop(r, None)
            for key in [q for q in s.env if q[0] == f2.id]:
                s.env.pop(key, None)
            if keep in f2.roots and pfr is not None:
                pfr.roots.append(keep)
        return self.merge_outs(res)

    def ctor_inits(self, s, F, fr):
        this = fr.this
        for i in F.inits or []:
            if i.get('delegating'):
                v = self.evr(i['e'], s, fr)
                self.store(s, this, v)
                continue
            if i.get('base') is not None:
                v = self.evr(i['e'], s, fr) if i.get('e') else None
                if isinstance(v, SV):
                    cur = self.load(s, this)
                    f = dict(cur.f)
                    f.update(v.f)
                    self.store(s, this, SV(cur.t, f))
                continue
            if i.get('f') is not None and i.get('e') is not None:
                x = self.ev(i['e'], s, fr)
                t = self.field_type(self.load(s, this).t, i['f'])
                if t is None or t.k != 'ref':
                    x = self.rv(s, x)
                self.store(s, Loc(this.root, this.path + (('f', i['f']),)), x)
        return None

    def field_type(self, t, name):
        if t.rec:
            for f in t.rec.fields:
                if f[0] == name:
                    return f[1]
        return None

    # ---- constructors
    def e_ctor(self, e, st, fr):
        t = decay(self.T(fr, e))
        f = e['f']
        if t.k == 'arr':
            n = t.cnt
            return VecV(t.t, None, 0, 0, tuple(self.default(t.t, st, fr) for _ in range(n)), None, True)
        nn = t.nn
        ov = self.overrides.get('ctor ' + nn)
        if ov is not None:
            r = ov(self, st, fr, t, e)
            if r is not NotImplemented:
                return r
        if e.get('copy') or e.get('move'):
            if self.prog.resolve(fr.tu, f) is None or e.get('dflt'):
                src = self.ev(e['a'][0], st, fr)
                v = self.rv(st, src)
                if e.get('move') and isinstance(src, Loc):
                    self.moved(st, src)
                return v
        F = self.prog.resolve(fr.tu, f)
        if F is not None and F.body is not None:
            argv = [self.ev(a, st, fr) for a in e['a']]
            h = self.fnhooks.get(F.name) or self.fnhooks.get(F.nn)
            if h is not None:
                r = h(self, st, fr, F, None, argv, e)
                if r is not NotImplemented:
                    self.contract_used.add(F.name)
                    return r
            loc = self.newroot(fr, 'ctor', t, st, SV(t, {}))
            self.invoke(st, fr, F, loc, argv, e)
            return st.mem.pop(loc.root)
        m = CTORS.get(nn)
        argv = [self.ev(a, st, fr) for a in e['a']]
        if m is not None:
            r = m(self, st, fr, t, argv, e)
            if r is not NotImplemented:
                return r
        if not argv:
            return self.default(t, st, fr, True)
        self.external['ctor ' + nn] = self.external.get('ctor ' + nn, 0) + 1
        self.taint(st, 'havoc:ctor ' + nn)
        return self.fresh(t, 'ctor!%d' % self.uid(), st)

    def coerce(self, st, fr, a, t, srct=None):
        """implicit conversion of argument a (Loc or value) to an object of type t"""
        v = self.rv(st, a)
        t = decay(t)
        if t.k == 'float' and isinstance(v, (int, z3.BitVecRef)) and not isinstance(v, z3.FPRef):
            return self.convert(st, v, srct or I32, t)
        if t.k in ('int', 'enum') and isinstance(v, z3.BitVecRef) and v.size() != t.w:
            return self.convert(st, v, srct or t, t)
        if t.k == 'bool':
            return self.tobool(st, v)
        if t.k == 'rec':
            if t.nn == 'std::variant' and not isinstance(v, VarV):
                return self.mkvariant(st, fr, v, t, srct)
            if t.nn == 'std::optional' and not isinstance(v, OptV):
                return OptV(t, True, self.coerce(st, fr, v, t.args[0], srct))
            if t.nn in ('std::basic_string', 'std::basic_string_view') and isinstance(v, PtrV):
                return self.cstr(st, v)
        return v

    def mkvariant(self, st, fr, v, t, srct):
        alts = t.args[0] if isinstance(t.args[0], list) else t.args
        srct = decay(srct) if srct is not None else None
        if srct is not None:
            for i, a in enumerate(alts):
                if a.key == srct.key:
                    return VarV(t, i, {i: v})
        for i, a in enumerate(alts):
            if isinstance(v, SV) and a.key == v.t.key:
                return VarV(t, i, {i: v})
            if isinstance(v, StrV) and a.k == 'rec' and a.nn == 'std::basic_string':
                return VarV(t, i, {i: v})
        raise Unsupported('variant construction %s from %s' % (t.key, srct))

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        self.visited_lines.add((fr.tu.name, s.get('l')))
        m = getattr(self, 'x_' + s['s'], None)
        if m is None:
            raise Unsupported('stmt %s' % s['s'])
        return m(s, st, fr)

    def x_null(self, s, st, fr):
        return [(st, 'n', None)]

    def x_expr(self, s, st, fr):
        r = self.run_paths(st, lambda q: (self.ev(s['e'], q, fr), None)[1])
        return self.mergek([(a, k, v if k == 'throw' else None) for a, k, v in r])

    def mergek(self, outs):
        """merge the 'n' outcomes"""
        if len(outs) <= 1:
            return outs
        ns = [a for a, k, v in outs if k == 'n']
        rest = [o for o in outs if o[1] != 'n']
        return [(a, 'n', None) for a in self.merge_states(ns)] + rest

    def x_block(self, s, st, fr):
        return self.run_block(s['b'], st, fr)

    def run_block(self, stmts, st, fr):
        states = [st]
        outs = []
        locs = []
        for c in stmts:
            nxt = []
            for q in states:
                for (a, k, v) in self.exec(c, q, fr):
                    if k == 'n':
                        nxt.append(a)
                    else:
                        outs.append((a, k, v))
            if c['s'] == 'decl':
                locs += [(d['id'], d['t']) for d in c['d'] if not d.get('static')]
            states = self.merge_states(nxt) if len(nxt) > 1 else nxt
            if len(states) > self.opts['maxpaths']:
                raise Unsupported('too many states')
            if not states:
                break
        outs = outs + [(a, 'n', None) for a in states]
        dl = [x for x in locs if self.needs_dtor(fr.tu.T(x[1]))]
        if dl:
            res = []
            for (a, k, v) in outs:
                cur = [a]
                for (did, t) in reversed(dl):
                    nx = []
                    for q in cur:
                        nx += self.destroy(q, fr, did, fr.tu.T(t))
                    cur = nx
                res += [(q, k, v) for q in cur]
            outs = res
        if len(outs) > 1:
            outs = self.merge_outs(outs)
        return outs

    def needs_dtor(self, t):
        if t.k != 'rec':
            return False
        if t.nn == 'std::unique_ptr' and len(t.args) > 1 and 'uptr_dtor' in self.hooks:
            return True
        return 'dtor' in self.hooks and t.rec is not None and t.rec.dtor is not None and not t.nn.startswith('std::')

    def destroy(self, st, fr, did, t):
        loc = st.env.get((fr.id, did))
        if loc is None or not isinstance(loc, Loc) or loc.root not in st.mem:
            return [st]
        h = self.hooks.get('uptr_dtor') if t.nn == 'std::unique_ptr' else self.hooks.get('dtor')

        def th(q):
            h(self, q, fr, loc, t)
            return None
        return [a for a, k, v in self.run_paths(st, th)]

    def x_decl(self, s, st, fr):
        def th(q):
            for d in s['d']:
                self.decl(d, q, fr)
            return None
        return self.mergek(self.run_paths(st, th))

    def decl(self, d, q, fr):
        t = fr.tu.T(d['t'])
        if d.get('static') and d.get('init') is not None:
            key = '@sl:%s:%d' % (fr.tu.name, d['id'])
            if key not in q.mem:
                q.mem[key] = self.evr(d['init'], q, fr)
                self.rtype[key] = t
            q.env[(fr.id, d['id'])] = Loc(key)
            return
        if t.k == 'ref':
            v = self.ev(d['init'], q, fr)
            if not isinstance(v, Loc) and not isinstance(v, FnV):
                v = self.nroot(fr, '%s!%d!%d' % (d['name'] or 'ref', fr.id, d['id']), t.t, q, v)
            q.env[(fr.id, d['id'])] = v
            loc = v
        else:
            if d.get('init') is not None:
                v = self.evr(d['init'], q, fr)
                if isinstance(v, Loc):
                    v = self.rv(q, v)
            elif t.k == 'rec':
                v = self.default(t, q, fr, False)
            else:
                v = self.uninit(t, d['name'], q)
            loc = self.nroot(fr, '%s!%d!%d' % (d['name'] or 'v', fr.id, d['id']), t, q, v)
            q.env[(fr.id, d['id'])] = loc
        for b in d.get('bind', []):
            if 'hold' in b:
                self.decl(b['hold'], q, fr)
                q.env[(fr.id, b['id'])] = q.env[(fr.id, b['hold']['id'])]

    def uninit(self, t, name, q):
        return self.fresh(t, 'uninit_%s%d' % (name, self.uid()), q)

    def x_return(self, s, st, fr):
        if s['e'] is None:
            return [(st, 'ret', None)]
        rt = fr.tu.T(fr.fn.ret) if fr.fn is not None else None

        def th(q):
            v = self.ev(s['e'], q, fr)
            if rt is not None and rt.k == 'ref':
                return v
            return self.rv(q, v)
        r = self.run_paths(st, th)
        return self.merge_outs([(a, 'ret' if k == 'n' else k, v) for a, k, v in r])

    def x_break(self, s, st, fr):
        return [(st, 'brk', None)]

    def x_continue(self, s, st, fr):
        return [(st, 'cont', None)]

    def cond_paths(self, s, st, fr, key='c'):
        """evaluate init/cv/cond: list of (state, cond value) plus throw outcomes"""
        def th(q):
            if s.get('cv') is not None:
                self.decl(s['cv'], q, fr)
            return self.tobool(q, self.evr(s[key], q, fr))
        return self.run_paths(st, th)

    def split(self, rs):
        """cond outcomes -> (true states, false states, others)"""
        T, Fs, others = [], [], []
        for a, k, c in rs:
            if k != 'n':
                others.append((a, k, c))
                continue
            d = self.decide3(a, c)
            if d is True:
                T.append(a)
            elif d is False:
                Fs.append(a)
            else:
                c = simp(c)
                b = a.copy()
                a.pc.append(c)
                b.pc.append(znot(c))
                T.append(a)
                Fs.append(b)
        return T, Fs, others

    def x_if(self, s, st, fr):
        pre = [st]
        outs = []
        if s.get('init') is not None:
            pre = []
            for a, k, v in self.exec(s['init'], st, fr):
                (pre.append(a) if k == 'n' else outs.append((a, k, v)))
        ns = []
        for q in pre:
            T, Fs, oth = self.split(self.cond_paths(s, q, fr))
            outs += oth
            T = self.merge_states(T)
            Fs = self.merge_states(Fs)
            for a in T:
                for o in self.exec(s['t'], a, fr):
                    (ns.append(o[0]) if o[1] == 'n' else outs.append(o))
            for a in Fs:
                if s.get('f') is not None:
                    for o in self.exec(s['f'], a, fr):
                        (ns.append(o[0]) if o[1] == 'n' else outs.append(o))
                else:
                    ns.append(a)
        ns = self.merge_states(ns)
        return outs + [(a, 'n', None) for a in ns]

    def flatten(self, b):
        items = []

        def add(x):
            if x['s'] in ('case', 'default'):
                items.append(('label', x))
                if x.get('b') is not None:
                    add(x['b'])
            else:
                items.append(('stmt', x))
        for x in (b['b'] if b['s'] == 'block' else [b]):
            add(x)
        return items

    def x_switch(self, s, st, fr):
        outs = []
        pre = [st]
        if s.get('init') is not None:
            pre = []
            for a, k, v in self.exec(s['init'], st, fr):
                (pre.append(a) if k == 'n' else outs.append((a, k, v)))
        items = self.flatten(s['b'])
        ns = []
        for q0 in pre:
            def th(q):
                if s.get('cv') is not None:
                    self.decl(s['cv'], q, fr)
                return self.evr(s['c'], q, fr)
            for q, k, v in self.run_paths(q0, th):
                if k != 'n':
                    outs.append((q, k, v))
                    continue
                entries = {}
                order = []
                dflt = len(items)
                for i, (kind, x) in enumerate(items):
                    if kind == 'label':
                        # entry point: first following statement
                        j = i
                        while j < len(items) and items[j][0] == 'label':
                            j += 1
                        if x['s'] == 'default':
                            dflt = j
                            continue
                        lo, hi = x['v'], x.get('v2', x['v'])
                        entries.setdefault(j, []).append((lo, hi))
                        if j not in order:
                            order.append(j)
                conds = {}
                if isinstance(v, int):
                    tgt = dflt
                    for j, rs in entries.items():
                        if any(wraps(lo) <= v <= wraps(hi) or (lo & 0xffffffffffffffff) == (v & 0xffffffffffffffff) for lo, hi in rs for wraps in (lambda z: z,)):
                            tgt = j
                    todo = [(tgt, True)]
                else:
                    w = v.size() if isinstance(v, z3.BitVecRef) else None
                    if w is None:
                        raise Unsupported('switch on %r' % (v,))
                    todo = []
                    allc = []
                    for j in order:
                        cs = []
                        for lo, hi in entries[j]:
                            if lo == hi:
                                cs.append(v == z3.BitVecVal(lo, w))
                            else:
                                cs.append(z3.And(v >= lo, v <= hi) if decay(fr.tu.T(s['c']['t'])).s else
                                          z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
                        c = zor(*cs)
                        allc.append(c)
                        if j == dflt:
                            continue
                        todo.append((j, c))
                    dc = [znot(c) for j, c in zip(order, allc) if j != dflt]
                    todo.append((dflt, zand(*dc)))
                for j, c in todo:
                    q2 = q.copy()
                    c = simp(c)
                    if c is False:
                        continue
                    if c is not True:
                        if not self.feasible(q2, c):
                            continue
                        q2.pc.append(c)
                    body = [x for kind, x in items[j:] if kind == 'stmt']
                    for o in self.run_block(body, q2, fr):
                        if o[1] in ('n', 'brk'):
                            ns.append(o[0])
                        else:
                            outs.append(o)
        ns = self.merge_states(ns)
        return self.merge_outs(outs) + [(a, 'n', None) for a in ns]

    def x_try(self, s, st, fr):
        outs = []
        ns = []
        for a, k, v in self.exec(s['b'], st, fr):
            if k != 'throw':
                outs.append((a, k, v))
                continue
            done = False
            if v in ('rethrow', 'any exception'):
                # nothing is known about the exception: every handler up to the first general one may take it
                for h in s['h']:
                    b = a.copy()
                    if not h.get('all'):
                        t = decay(fr.tu.T(h['var']['t']))
                        x = OpqV(t, 'exc%d' % self.uid()) if t.k == 'rec' else self.force(self.fresh(t, 'exc%d' % self.uid(), b), b)
                        if z3.is_bv(x):
                            self.assumptions.add('no error code that is thrown is the code of success')
                            b.pc.append(x != 0)
                        b.env[(fr.id, h['var']['id'])] = self.newroot(fr, 'exc', t, b, x)
                    outs += self.exec(h['b'], b, fr)
                    if h.get('all'):
                        done = True
                        break
                if not done:
                    outs.append((a, k, v))
                continue
            for h in s['h']:
                if not h.get('all'):
                    t = decay(fr.tu.T(h['var']['t']))
                    if not self.exc_match(v, t):
                        continue
                    a.env[(fr.id, h['var']['id'])] = self.newroot(fr, 'exc', t, a, OpqV(t, 'exc%d' % self.uid()))
                outs += self.exec(h['b'], a, fr)
                done = True
                break
            if not done:
                outs.append((a, k, v))
        return self.merge_outs(outs)

    def exc_match(self, v, t):
        if t.k == 'rec' and t.nn in ('std::exception',) and str(v).startswith('std::'):
            return True
        return str(v) == 'thrown ' + t.key

    # ------------------------------------------------------------ loops
    def x_for(self, s, st, fr):
        outs = []
        pre = [st]
        if s.get('init') is not None:
            pre = []
            for a, k, v in self.exec(s['init'], st, fr):
                (pre.append(a) if k == 'n' else outs.append((a, k, v)))
        ns = []
        for q in pre:
            n, o = self.loop(s, q, fr, 'for')
            ns += n
            outs += o
        return outs + [(a, 'n', None) for a in self.merge_states(ns)]

    def x_while(self, s, st, fr):
        n, o = self.loop(s, st, fr, 'while')
        return o + [(a, 'n', None) for a in self.merge_states(n)]

    def x_do(self, s, st, fr):
        n, o = self.loop(s, st, fr, 'do')
        return o + [(a, 'n', None) for a in self.merge_states(n)]

    def x_rfor(self, s, st, fr):
        outs = []
        pre = [st]
        if s.get('init') is not None:
            pre = []
            for a, k, v in self.exec(s['init'], st, fr):
                (pre.append(a) if k == 'n' else outs.append((a, k, v)))
        rt = decay(fr.tu.T(s['rt']))
        ns = []
        std = rt.k == 'arr' or (rt.k == 'rec' and (rt.nn.startswith('std::')))
        for q0 in pre:
            if not std:
                # desugar
                blk = [s['rangestmt'], s['begin'], s['end']]
                for q, k, v in self.run_block_nodtor(blk, q0, fr):
                    if k != 'n':
                        outs.append((q, k, v))
                        continue
                    loop = {'s': 'for', 'c': s['c'], 'inc': s['inc'], 'l': s['l'],
                            'b': {'s': 'block', 'l': s['l'], 'b': [{'s': 'decl', 'l': s['l'], 'd': [s['var']]}, s['b']]}}
                    n, o = self.loop(loop, q, fr, 'for')
                    ns += n
                    outs += o
                continue

            def th(q):
                return self.ev(s['range'], q, fr)
            for q, k, v in self.run_paths(q0, th):
                if k != 'n':
                    outs.append((q, k, v))
                    continue
                if not isinstance(v, Loc):
                    v = self.nroot(fr, 'range!%d!%d' % (fr.id, id(s)), rt, q, v)
                ix = self.nroot(fr, 'rfi!%d!%d' % (fr.id, id(s)), I64U, q, 0)
                spec = {'s': 'rforstd', 'range': v, 'ix': ix, 'var': s['var'], 'b': s['b'], 'l': s['l']}
                n, o = self.loop(spec, q, fr, 'rfor')
                ns += n
                outs += o
        return outs + [(a, 'n', None) for a in self.merge_states(ns)]

    def run_block_nodtor(self, stmts, st, fr):
        states = [(st, 'n', None)]
        for c in stmts:
            nxt = []
            for (q, k, v) in states:
                if k != 'n':
                    nxt.append((q, k, v))
                else:
                    nxt += self.exec(c, q, fr)
            states = nxt
        return states

    def loop_cond(self, s, st, fr, kind):
        """-> run_paths outcomes with condition value"""
        if kind == 'rfor':
            def th(q):
                cont = self.rv(q, s['range'])
                i = self.rv(q, s['ix'])
                n = self.vsize(cont)
                if isinstance(i, int) and isinstance(n, int):
                    return i < n
                return simp(z3.ULT(tobv(i, 64), tobv(n, 64)))
            return self.run_paths(st, th)
        if s.get('c') is None:
            return [(st, 'n', True)]
        return self.cond_paths(s, st, fr)

    def loop_body(self, s, st, fr, kind):
        """-> (next states, break states, others)"""
        nx, br, oth = [], [], []
        pre = [st]
        if kind == 'rfor':
            def th(q):
                self.bind_elem(q, fr, s)
                return None
            pre = []
            for a, k, v in self.run_paths(st, th):
                (pre.append(a) if k == 'n' else oth.append((a, k, v)))
        post = []
        for q in pre:
            for a, k, v in self.exec(s['b'], q, fr):
                if k in ('n', 'cont'):
                    post.append(a)
                elif k == 'brk':
                    br.append(a)
                else:
                    oth.append((a, k, v))
        post = self.merge_states(post)
        for a in post:
            if kind == 'rfor':
                i = self.rv(a, s['ix'])
                self.store(a, s['ix'], self.add64(i, 1))
                nx.append(a)
            elif s.get('inc') is not None:
                def th2(q):
                    self.ev(s['inc'], q, fr)
                    return None
                for a2, k, v in self.run_paths(a, th2):
                    (nx.append(a2) if k == 'n' else oth.append((a2, k, v)))
            else:
                nx.append(a)
        return nx, br, oth

    def bind_elem(self, q, fr, s):
        cont_loc = s['range']
        i = self.rv(q, s['ix'])
        cont = self.rv(q, cont_loc)
        d = s['var']
        t = fr.tu.T(d['t'])
        if isinstance(cont, MapV):
            kv = self.map_elem(q, fr, cont_loc, cont, i)
            eloc = kv
        else:
            eloc = Loc(cont_loc.root, cont_loc.path + (('i', i),))
        if t.k == 'ref':
            q.env[(fr.id, d['id'])] = eloc
        else:
            v = self.rv(q, eloc)
            init = d.get('init')
            # conversion of element to the declared type (e.g. char -> int)
            et = None
            if isinstance(cont, StrV):
                et = I8
            elif isinstance(cont, VecV):
                et = cont.et
            if et is not None and et.k != t.k or (t.k == 'int' and et is not None and et.w != t.w):
                v = self.convert(q, v, et, t)
            elif isinstance(v, int) and t.k == 'int':
                v = wrap(v, t.w, t.s)
            q.env[(fr.id, d['id'])] = self.nroot(fr, '%s!%d!%d' % (d['name'] or 'el', fr.id, d['id']), t, q, v)
        for b in d.get('bind', []):
            if 'hold' in b:
                self.decl(b['hold'], q, fr)
                q.env[(fr.id, b['id'])] = q.env[(fr.id, b['hold']['id'])]

    def map_elem(self, q, fr, loc, cont, i):
        """fresh element (key,value) of a map during iteration"""
        if cont.entries and isinstance(i, int) and i < len(cont.entries):
            ent = cont.entries[i]
            if len(cont.t.args) >= 2 and 'map' in cont.t.nn:
                return self.newroot(fr, 'kv', None, q, SV(PairT(cont.t), {'first': ent[0], 'second': ent[1]}))
            return self.newroot(fr, 'k', None, q, ent[0])
        u = self.uid()
        if 'map' in cont.t.nn:
            v = SV(PairT(cont.t), {'first': LazyV(cont.t.args[0], 'mk!%d' % u), 'second': LazyV(cont.t.args[1], 'mv!%d' % u)})
        else:
            v = LazyV(cont.t.args[0], 'mk!%d' % u)
        h = self.hooks.get('mapelem')
        if h:
            h(self, q, cont, v)
        h = self.hooks.get('mapiter')
        if h:
            h(self, q, cont, v)
        return self.newroot(fr, 'kv', None, q, v)

    def loop(self, s, st, fr, kind):
        """returns (normal exit states, other outcomes)"""
        exits, others = [], []
        cur = [st]
        first = kind == 'do'
        lim = self.opts['unroll']
        it = 0
        while cur:
            if first:
                T, Fs, oth = cur, [], []
                first = False
                und = False
            else:
                T, Fs, oth = [], [], []
                und = False
                for q in cur:
                    rs = self.loop_cond(s, q.copy(), fr, kind)
                    t1, f1, o1 = [], [], []
                    for a, k, c in rs:
                        if k != 'n':
                            o1.append((a, k, c))
                            continue
                        d = self.decide3(a, c)
                        if d and self.opts.get('nopeel') and not isinstance(simp(c), bool):
                            und = True
                            break
                        if d is None:
                            if it < 12 and self.small_bound(s, q, fr, kind):
                                b = a.copy()
                                a.pc.append(zbool(simp(c)))
                                b.pc.append(zbool(znot(simp(c))))
                                t1.append(a)
                                f1.append(b)
                                continue
                            und = True
                            break
                        (t1 if d else f1).append(a)
                    if und:
                        break
                    T += t1
                    Fs += f1
                    oth += o1
            if und or it >= lim or len(cur) > 6:
                # abstract from here
                for q in cur:
                    e2, o2 = self.loop_abs(s, q, fr, kind)
                    exits += e2
                    others += o2
                return self.merge_states(exits), self.merge_outs(others)
            exits += Fs
            others += oth
            nxt = []
            for q in T:
                nx, br, ot = self.loop_body(s, q, fr, kind)
                nxt += nx
                exits += br
                others += ot
            cur = self.merge_states(nxt)
            it += 1
            self.loopstats[0] += 1
        return self.merge_states(exits), self.merge_outs(others)

    def small_bound(self, s, st, fr, kind):
        """the loop condition compares two numbers that are at most 8 apart: worth unrolling"""
        q = st.copy()
        if kind == 'rfor':
            cont = self.rv(q, s['range'])
            x, y = self.rv(q, s['ix']), self.vsize(cont)
        else:
            e = s.get('c')
            while e is not None and e['e'] == 'cast':
                e = e['x']
            if e is None or e['e'] != 'bin' or e['op'] not in ('<', '<=', '>', '>=', '!=') or not self.simple(e['x']) or not self.simple(e['y']):
                return False
            try:
                rs = self.run_paths(q, lambda z: (self.evr(e['x'], z, fr), self.evr(e['y'], z, fr)))
            except Unsupported:
                return False
            if len(rs) != 1 or rs[0][1] != 'n':
                return False
            x, y = rs[0][2]
            q = rs[0][0]
        if isinstance(x, PtrV) and isinstance(y, PtrV):
            x, y = x.off, y.off
        if not isinstance(x, (int, z3.BitVecRef)) or not isinstance(y, (int, z3.BitVecRef)) or isinstance(x, bool) or isinstance(y, bool):
            return False
        w = x.size() if isinstance(x, z3.BitVecRef) else y.size() if isinstance(y, z3.BitVecRef) else 64
        if isinstance(y, z3.BitVecRef) and y.size() != w:
            return False
        x, y = tobv(x, w), tobv(y, w)
        n = z3.BitVecVal(8, w)
        return self.decide3(q, z3.Or(z3.ULE(x - y, n), z3.ULE(y - x, n))) is True

    # ---- abstract loops
    def loop_abs(self, s, st, fr, kind):
        self.loopstats[1] += 1
        if self.opts.get('joint'):
            return self.loop_joint(s, st, fr, kind)
        nobl0 = len(self.obls)
        mods = {}          # (root, path) -> kind info
        ropestates = {}    # (root,path) -> frozenset
        for rnd in range(self.opts['maxloop']):
            del self.obls[nobl0:]
            H = st.copy()
            names = self.havoc_mods(H, mods, ropestates, st)
            changed = self.loop_round(s, H, fr, kind, mods, ropestates, st)
            if not changed:
                break
        else:
            raise Unsupported('loop abstraction did not stabilise')
        del self.obls[nobl0:]
        # candidate invariants
        H = st.copy()
        pairs = self.havoc_mods(H, mods, ropestates, st)
        cands = self.candidates(s, st, H, pairs, fr, kind)
        H0pc = list(H.pc)
        # initiation
        good = []
        for c in cands:
            ci = c[1]
            if ci is True or self.decide3(st, ci) is True:
                good.append(c)
        cands = good
        hd = self.hooks.get('loop_inv')
        for rnd in range(self.opts['maxloop']):
            del self.obls[nobl0:]
            H2 = H.copy()
            H2.pc = H0pc + [zbool(c[0]) for c in cands if c[0] is not True]
            self.assume_exit = None
            T, Fs, oth, nx, br = self.abs_iter(s, H2, fr, kind)
            bad = set()
            for a in nx:
                for i, c in enumerate(cands):
                    if i in bad:
                        continue
                    v = c[2](a)
                    if v is True:
                        continue
                    if v is False or self.decide3(a, v) is not True:
                        bad.add(i)
            if not bad:
                break
            cands = [c for i, c in enumerate(cands) if i not in bad]
        else:
            raise Unsupported('invariant inference did not stabilise')
        self.loop_invs.append((self.curfn, s.get('l'), len(cands)))
        return self.merge_states(Fs + br), self.merge_outs(oth)

    # ---- loops whose head is partitioned by a finite joint state (reader state of ropes x small exact values)
    def joint_parts(self, a, jl):
        """[(state, key)] of a loop head state: key has one component per joint location"""
        out = [(a, ())]
        for (root, path), how in sorted(jl.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            nxt = []
            for q, key in out:
                v = self.load(q, Loc(root, path))
                if isinstance(v, LazyV):
                    v = self.force(v, q)
                if how == 'rope':
                    for w, r in self.rope_dom.worlds(q, v):
                        nxt.append((w, key + (('rope', r),)))
                elif how == 'vec':
                    nxt.append((q, key + (('vec', v.buid, v.bsize.get_id() if is_z3(v.bsize) else v.bsize, tuple(v.tail)),)))
                elif how == 'str':
                    nxt.append((q, key + (('str', v.p),)))
                else:
                    nxt.append((q, key + (('val', v),)))
            out = nxt
        return out

    def joint_kind(self, root, path, x0, x1):
        if isinstance(x0, LazyV) or isinstance(x1, LazyV):
            return None
        if isinstance(x0, StrV) and isinstance(x1, StrV):
            if self.opts['joint'](root, path) == 'exact':
                return 'str' if all(isinstance(y, bytes) or y[0] == 'in' for y in x1.p) and len(x1.p) < 6 else None
            h = self.hooks.get('joint_str')
            if h and not h(self, root, path, x0, x1):
                return None
            return 'rope' if self.rope_dom is not None else None
        if isinstance(x0, VecV) and isinstance(x1, VecV) and x0.buid == x1.buid and not x0.fixed and len(x1.tail) < 6 and \
                same_term(x0.bsize, x1.bsize) and same_known(x0.known, x1.known) and all(isinstance(y, int) for y in x1.tail + x0.tail):
            return 'vec'
        if isinstance(x0, bool) and isinstance(x1, bool):
            return 'val'
        return None

    def loop_joint(self, s, st, fr, kind):
        nobl0 = len(self.obls)
        mods, jl = {}, {}
        lid = self.uid()
        for rnd in range(24):
            del self.obls[nobl0:]
            # ghost record of the loop: what one iteration does, for content obligations (capyver/text.py)
            rec = {'s': s, 'kind': kind, 'fr': fr, 'entry': st, 'its': [], 'exits': []}
            self.loops[lid] = rec
            todo = self.joint_parts(st.copy(), jl)
            done, exits, others, changed = {}, [], [], False
            if self.hooks.get('joint_inv'):
                for a2, k2 in todo:
                    f = self.hooks['joint_inv'](self, s, a2, fr, kind, list(zip(sorted(jl.items(), key=lambda x: (x[0][0], str(x[0][1]))), k2)), False)
                    if f is not None:
                        self.oblige(a2, f, 'loop invariant holds at the start', fn=self.curfn, line=s.get('l'))
            while todo and not changed:
                q0, key = todo.pop()
                if key in done:
                    continue
                done[key] = True
                if len(done) > 60:
                    if os.environ.get('CAPYVER_V') == '3':
                        print('JOINT', s.get('l'), sorted(jl.items(), key=str), *list(done)[:40], sep='\n   ')
                    raise Unsupported('too many joint loop states')
                H = st.copy()
                for (rp, how), comp in zip(sorted(jl.items(), key=lambda x: (x[0][0], str(x[0][1]))), key):
                    loc = Loc(*rp)
                    v = self.load(H, loc)
                    if isinstance(v, LazyV):
                        v = self.force(v, H)
                    if how == 'rope':
                        u = self.uid()
                        self.absof[u] = (lid, v.p)
                        v = StrV((('abs', u, frozenset([comp[1]])),))
                    elif how == 'vec':
                        v = VecV(v.et, v.buid, v.bsize, v.boff, comp[3], v.known, v.fixed)
                    elif how == 'str':
                        v = StrV(comp[1])
                    else:
                        v = comp[1]
                    self.store_raw(H, loc, v)
                self.havoc_mods(H, mods, {}, st)
                jinv = self.hooks.get('joint_inv')
                jkeys = sorted(jl.items(), key=lambda x: (x[0][0], str(x[0][1])))
                if jinv:
                    f = jinv(self, s, H, fr, kind, list(zip(jkeys, key)), True)
                    if f is not None:
                        H.pc.append(zbool(f))
                base = H.copy()
                T, Fs, oth, nx, br = self.abs_iter(s, H, fr, kind)
                for a in nx:
                    for r, v0 in base.mem.items():
                        if r not in a.mem or a.mem[r] is v0:
                            continue
                        for path, x0, x1 in self.diff(v0, a.mem[r], ()):
                            k = (r, path)
                            if any((r, path[:i]) in mods for i in range(len(path) + 1)):
                                if mods.get(k) == 'push' and not (isinstance(x1, VecV) and x0.buid == x1.buid and len(x1.tail) >= len(x0.tail)):
                                    mods[k] = 'vec'
                                    changed = True
                                continue
                            if k in jl:
                                if self.joint_kind(r, path, x0, x1) == jl[k]:
                                    continue
                                if jl[k] == 'rope':
                                    continue
                                del jl[k]
                            else:
                                jk = self.joint_kind(r, path, x0, x1)
                                if jk:
                                    jl[k] = jk
                                    changed = True
                                    continue
                            if isinstance(x0, StrV):
                                mods[k] = 'str'
                            elif isinstance(x0, VecV):
                                mods[k] = 'vec'
                            else:
                                mods[k] = 'val'
                            changed = True
                if changed:
                    break
                exits += Fs + br
                others += oth
                rec['its'] += [(base, a) for a in nx]
                rec['exits'] += [(base, a) for a in Fs + br]
                rec['others'] = rec.get('others', []) + [(base, o) for o in oth]
                rec['breaks'] = rec.get('breaks', 0) + len(br)
                for a in nx:
                    for a2, k2 in self.joint_parts(a, jl):
                        if jinv:
                            f = jinv(self, s, a2, fr, kind, list(zip(jkeys, k2)), False)
                            if f is not None:
                                if not self.feasible(a2):
                                    continue
                                self.oblige(a2, f, 'loop invariant is preserved', fn=self.curfn, line=s.get('l'), detail=str(k2)[:200])
                        todo.append((a2, k2))
            if not changed:
                self.loop_invs.append((self.curfn, s.get('l'), len(done)))
                if self.hooks.get('mark_loops'):
                    for a in exits:
                        a.ghost['ev'] = a.ghost.get('ev', ()) + (('loop', lid),)
                return self.merge_states(exits), self.merge_outs(others)
        raise Unsupported('joint loop abstraction did not stabilise')

    def abs_iter(self, s, H, fr, kind):
        if kind == 'do':
            # body first, then the condition decides
            nx, br, oth = self.loop_body(s, H.copy(), fr, 'do')
            T, Fs = [], []
            for a in nx:
                t1, f1, o1 = self.split(self.loop_cond(s, a, fr, kind))
                T += t1
                Fs += f1
                oth = oth + o1
            return T, Fs, oth, T, br
        rs = self.loop_cond(s, H.copy(), fr, kind)
        T, Fs, oth = self.split(rs)
        nx, br = [], []
        for q in T:
            if not self.feasible(q):
                continue
            a, b, o = self.loop_body(s, q, fr, kind)
            nx += a
            br += b
            oth = oth + o
        Fs = [q for q in Fs if self.feasible(q)]
        return T, Fs, oth, nx, br

    def loop_round(self, s, H, fr, kind, mods, ropestates, st0):
        base = H.copy()
        T, Fs, oth, nx, br = self.abs_iter(s, H, fr, kind)
        changed = False
        for a in nx:
            for r, v0 in base.mem.items():
                if r not in a.mem:
                    continue
                v1 = a.mem[r]
                if v1 is v0:
                    continue
                for path, x0, x1 in self.diff(v0, v1, ()):
                    if self.add_mod(mods, ropestates, r, path, x0, x1, a):
                        changed = True
        # evaluation of the condition may write as well (covered: conditions run inside abs_iter)
        return changed

    def diff(self, a, b, path):
        """list of (path, old, new) that differ"""
        if a is b or same_val(a, b):
            return []
        if isinstance(a, MapV) and isinstance(b, MapV) and 'map' in a.t.nn and a.uid == b.uid and same_term(a.size, b.size) and \
                len(b.entries) > len(a.entries) and all(x[0] is y[0] and (x[1] is y[1] or same_val(x[1], y[1])) for x, y in zip(a.entries, b.entries)):
            return []       # looked up, not changed
        if isinstance(a, LazyV) or isinstance(b, LazyV):
            if isinstance(a, LazyV) and not isinstance(b, LazyV):
                return self.lazy_diff(a, b, path)
            return [(path, a, b)]
        if isinstance(a, SV) and isinstance(b, SV) and a.t.key == b.t.key:
            out = []
            for k in b.f:
                out += self.diff(a.f.get(k), b.f[k], path + (('f', k),))
            return out
        if isinstance(a, VecV) and isinstance(b, VecV) and a.buid == b.buid and same_term(a.bsize, b.bsize) and len(a.tail) == len(b.tail) \
                and isinstance(a.bsize, int) and same_known(a.known, b.known):
            out = []
            for i, (x, y) in enumerate(zip(a.tail, b.tail)):
                out += self.diff(x, y, path + (('i', a.bsize + i),))
            return out
        if isinstance(a, OptV) and isinstance(b, OptV) and a.has is True and b.has is True:
            return self.diff(a.v, b.v, path + (('opt',),))
        # elements read but not written
        if isinstance(a, VecV) and isinstance(b, VecV) and a.buid is not None and a.buid == b.buid and same_term(a.bsize, b.bsize) and same_term(a.boff, b.boff) and \
                len(a.tail) == len(b.tail) and all(not self.diff(x, y, path) for x, y in zip(a.tail, b.tail)) and \
                all(not x[1] or k in a.known and same_val(a.known[k][0], x[0]) for k, x in b.known.items()) and \
                all(k in b.known for k, x in a.known.items() if x[1]):
            return []
        # forced on the way but not changed
        if isinstance(a, VarV) and isinstance(b, VarV) and same_term(a.idx, b.idx) and a.alts.keys() == b.alts.keys() and \
                not any(self.diff(a.alts[i], b.alts[i], path) for i in a.alts):
            return []
        if isinstance(a, OptV) and isinstance(b, OptV) and same_term(a.has, b.has) and not self.diff(a.v, b.v, path):
            return []
        if isinstance(a, ExpV) and isinstance(b, ExpV) and same_term(a.ok, b.ok) and same_val(a.e, b.e) and not self.diff(a.v, b.v, path):
            return []
        return [(path, a, b)]

    def lazy_diff(self, a, b, path):
        # forced but otherwise unchanged: compare against a deterministic re-force
        tmp = State()
        try:
            f = self.fresh_now(a.t, a.name, tmp)
        except Unsupported:
            return [(path, a, b)]
        if isinstance(f, (SV, OptV)) and type(f) is type(b):
            return self.diff(f, b, path)
        if same_val(f, b):
            return []
        if isinstance(f, PtrV) and isinstance(b, PtrV):
            return []
        if isinstance(f, VecV) and isinstance(b, VecV) and not b.tail and is_z3(b.bsize) and not any(x[1] for x in b.known.values()):
            return []   # read-only forcing of a container
        if isinstance(f, StrV) and isinstance(b, StrV) and len(b.p) == 1 and isinstance(b.p[0], tuple) and b.p[0][0] == 'in':
            return []
        if isinstance(f, MapV) and isinstance(b, MapV) and not b.entries:
            return []
        if type(f) is type(b) and isinstance(f, (ExpV, VarV)):
            return self.diff(f, b, path)
        return [(path, a, b)]

    def add_mod(self, mods, rs, root, path, x0, x1, a):
        # is a prefix already modified as a whole?
        for i in range(len(path) + 1):
            k = (root, path[:i])
            if k in mods and mods[k] == 'all' and i < len(path):
                return False
        k = (root, path)
        if isinstance(x0, StrV) and isinstance(x1, StrV):
            if self.rope_dom is not None:
                s1 = self.rope_dom.summary(self, a, x1)
                old = rs.get(k)
                new = s1 if old is None else old | s1
                if k in mods and new == old:
                    return False
                rs[k] = new
                mods[k] = 'rope'
                if len(new) > 200:
                    raise Unsupported('rope abstraction too large')
                return True
            if k in mods:
                return False
            mods[k] = 'str'
            return True
        if isinstance(x0, VecV) and isinstance(x1, VecV):
            # only pushes?
            push = x0.buid == x1.buid and same_term(x0.bsize, x1.bsize) and len(x1.tail) >= len(x0.tail) and \
                all(same_val(p, q) for p, q in zip(x0.tail, x1.tail)) and same_known(x0.known, x1.known)
            old = mods.get(k)
            new = 'push' if push and old in (None, 'push') else 'vec'
            if x0.fixed:
                new = 'vec'
            if old == new:
                return False
            mods[k] = new
            return True
        if k in mods:
            return False
        mods[k] = 'val'
        # drop sub-mods
        return True

    def havoc_mods(self, H, mods, rs, st0):
        """havoc modified locations in H. returns list of (root,path,oldvalue,newvalue,type)"""
        res = []
        for (root, path), kind in sorted(mods.items(), key=lambda x: (x[0][0], len(x[0][1]))):
            if root not in H.mem:
                continue
            loc = Loc(root, path)
            try:
                old = self.load(H, loc)
            except Unsupported:
                continue
            t = self.type_at(root, path)
            if kind == 'rope':
                s0 = self.rope_dom.summary(self, st0, old)
                key = (root, path)
                rs[key] = rs[key] | s0 if key in rs else s0
                nv = StrV((('abs', self.uid(), rs[key]),))
            elif kind == 'str':
                nv = self.str_fresh('ls%d' % self.uid())
            elif kind == 'push':
                u = self.uid()
                sz = z3.BitVec('lsz!%d' % u, 64)
                H.pc.append(z3.ULT(sz, z3.BitVecVal(1 << 40, 64)))
                h = self.hooks.get('pushbase')
                nv = VecV(old.et, u, sz)
                if h:
                    nv = h(self, H, loc, old, nv)
            elif kind == 'vec':
                nv = self.havoc_val(H, old)
            else:
                if isinstance(old, PtrV):
                    o = self.fresh64('lo')
                    nv = PtrV(old.null, old.loc, o, old.t)
                else:
                    nv = self.havoc_val(H, old, t)
            self.store_raw(H, loc, nv)
            res.append((root, path, old, nv, t))
        return res

    def fresh64(self, n):
        return z3.BitVec('%s!%d' % (n, self.uid()), 64)

    def store_raw(self, st, loc, v):
        h = self.hooks.pop('store', None)
        try:
            self.store(st, loc, v)
        finally:
            if h:
                self.hooks['store'] = h

    def type_at(self, root, path):
        t = self.rtype.get(root)
        for p in path:
            if t is None:
                return None
            t = decay(t)
            if p[0] == 'f':
                t = self.field_type(t, p[1]) if t.k == 'rec' else None
                if t is None:
                    return None
            elif p[0] == 'i':
                if t.k == 'arr':
                    t = t.t
                elif t.k == 'rec' and t.args:
                    t = t.args[0] if not isinstance(t.args[0], list) else None
                else:
                    return None
            elif p[0] == 'opt':
                t = t.args[0]
            else:
                return None
        return t

    def num_of(self, v):
        """numeric views of a value: list of (suffix, term64, signed)"""
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return None
        if isinstance(v, (int, z3.BitVecRef)):
            return v
        if isinstance(v, PtrV):
            return v.off if isinstance(v.off, (int, z3.BitVecRef)) else None
        if isinstance(v, (VecV, MapV)):
            return self.vsize(v)
        return None

    def candidates(self, s, st, H, pairs, fr, kind):
        """list of (head formula, initial formula, function(state)->formula)"""
        out = []
        nums = []
        for root, path, old, nv, t in pairs:
            if isinstance(nv, StrV):
                continue
            n0, n1 = self.num_of(old), self.num_of(nv)
            if n0 is None or n1 is None:
                if isinstance(nv, z3.BoolRef):
                    loc = Loc(root, path)
                    for val in (True, False):
                        out.append((nv if val else znot(nv), (old if val else znot(old)),
                                    lambda a, l=loc, w=val: (lambda x: x if w else znot(x))(self.load(a, l))))
                continue
            w = n1.size() if isinstance(n1, z3.BitVecRef) else 64
            sg = t.s if t is not None and t.k in ('int', 'enum') else False
            loc = Loc(root, path)
            get = (lambda a, l=loc: self.num_of(self.load(a, l)))
            nums.append((n0, n1, get, w, sg, nv, t))
        # ground terms to compare against: sizes of unmodified sequences, scalars of frame
        terms = []
        seen = set()
        modk = {(r, p) for r, p, *_ in pairs}

        def addterm(x, sg):
            if isinstance(x, int):
                return
            k = (x.get_id(), sg)
            if k not in seen and len(terms) < 24:
                seen.add(k)
                terms.append(x)
        for (fid, did), loc in st.env.items():
            if fid != fr.id or not isinstance(loc, Loc) or loc.root not in st.mem:
                continue
            if any(loc.root == r for r, p, *_ in pairs):
                continue
            try:
                v = self.load(st, loc)
            except Unsupported:
                continue
            if isinstance(v, (VecV, StrV)):
                n = self.vsize(v)
                addterm(n, False)
            elif isinstance(v, z3.BitVecRef):
                addterm(v, True)
        if kind == 'rfor':
            c = self.rv(st, s['range'])
            addterm(self.vsize(c), False)

        def mk(op, x, y, w, sg):
            if x is None or y is None:      # the place no longer holds a number
                return False
            X, Y = tobv(x, w) if not isinstance(x, z3.BitVecRef) or x.size() == w else self.ext(x, w, sg), \
                tobv(y, w) if not isinstance(y, z3.BitVecRef) or y.size() == w else self.ext(y, w, sg)
            if op == 'ge':
                return simp(X >= Y if sg else z3.UGE(X, Y))
            if op == 'le':
                return simp(X <= Y if sg else z3.ULE(X, Y))
            if op == 'eq':
                return simp(X == Y)
        for (n0, n1, get, w, sg, nv, t) in nums:
            for op in ('ge', 'le'):
                out.append((mk(op, n1, n0, w, sg), True, lambda a, o=op, g=get, b=n0, w=w, sg=sg: mk(o, g(a), b, w, sg)))
            for x in terms:
                W = max(w, x.size())
                for op in ('le',):
                    out.append((mk(op, n1, x, W, sg and W == w), mk(op, n0, x, W, sg and W == w),
                                lambda a, o=op, g=get, b=x, w=W, sg=sg and W == w: mk(o, g(a), b, w, sg)))
            if t is not None and t.k == 'enum':
                pass
        # lockstep differences
        for i in range(len(nums)):
            for j in range(i + 1, len(nums)):
                a0, a1, ga, wa, _, _, _ = nums[i]
                b0, b1, gb, wb, _, _, _ = nums[j]
                w = max(wa, wb)
                A = lambda x, y, w=w: simp(self.ext(x, w, False) - self.ext(y, w, False))
                out.append((simp(A(a1, b1) == A(a0, b0)) if True else None, True,
                            lambda a, ga=ga, gb=gb, a0=a0, b0=b0, w=w: None not in (ga(a), gb(a)) and simp(
                                self.ext(ga(a), w, False) - self.ext(gb(a), w, False) ==
                                self.ext(a0, w, False) - self.ext(b0, w, False))))
                for (x0, x1, gx, y0, y1, gy) in ((a0, a1, ga, b0, b1, gb), (b0, b1, gb, a0, a1, ga)):
                    out.append((simp(z3.ULE(self.ext(x1, w, False), self.ext(y1, w, False))),
                                simp(z3.ULE(self.ext(x0, w, False), self.ext(y0, w, False))),
                                lambda a, gx=gx, gy=gy, w=w: None not in (gx(a), gy(a)) and simp(z3.ULE(self.ext(gx(a), w, False), self.ext(gy(a), w, False)))))
        h = self.hooks.get('candidates')
        if h:
            out += h(self, s, st, H, pairs, fr, kind) or []
        return [c for c in out if c[0] is not False]

    def ext(self, x, w, sg):
        if isinstance(x, z3.BitVecRef) and x.size() < w:
            return z3.SignExt(w - x.size(), x) if sg else z3.ZeroExt(w - x.size(), x)
        return tobv(x, w)


class _T:
    pass


def _mkint(w, s):
    from .front import Type
    t = Type()
    t.k = 'int'
    t.w = w
    t.s = s
    t.n = t.key = 'i%d%s' % (w, s)
    return t


I64 = _mkint(64, True)
I64U = _mkint(64, False)
I32 = _mkint(32, True)
I8 = _mkint(8, True)

_pt = {}


def PairT(mt):
    k = mt.key
    if k not in _pt:
        from .front import Type
        t = Type()
        t.k = 'rec'
        t.n = t.nn = t.key = 'std::pair'
        t.nn = 'std::pair'
        t.key = 'pair#' + k
        t.args = [mt.args[0], mt.args[1]] if len(mt.args) > 1 else [mt.args[0]]
        t.rec = None
        _pt[k] = t
    return _pt[k]


def SV_cmp(x, y, t, E, st):
    return OpqV(None, 'cmp', (x, y, t))
