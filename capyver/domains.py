"""Rope domains: abstract readers of the text a function has built.

A domain summarises a rope (sequence of pieces appended so far) as a set of reader states; loops replace the rope by an
('abs', uid, states) piece.  PosRope additionally carries a ghost number per abstract rope, pos!uid: how many source symbols
the text decodes to so far; the loop invariant candidates relate it to the loop's own counters."""
import z3
from .engine import Unsupported
from .values import *


def B64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


class World:
    __slots__ = ('st', 'conds', 'q', 'P')

    def __init__(self, st, conds, q, P):
        self.st = st
        self.conds = conds
        self.q = q
        self.P = P

    def with_(self, q=None, P=None):
        return World(self.st, self.conds, self.q if q is None else q, self.P if P is None else P)


BAD = ('bad',)


class PosRope:
    """expect(P): term of the source symbol at position P; step(P): position of the next symbol"""

    def __init__(self, E, expect, step, decoder, prefix=True):
        self.E = E
        self.expect = expect
        self.step = step
        self.dec = decoder
        decoder.dom = self
        self.track = None      # optional predicate: which ropes are under this domain
        self.posvar = lambda u: z3.BitVec('pos!%s' % u, 64)

    # ---- worlds
    def branch(self, w, c):
        """-> list of (world, bool)"""
        E = self.E
        c = simp(c)
        if isinstance(c, bool):
            return [(w, c)]
        d = E.decide3(w.st, c)
        if d is not None:
            return [(w, d)]
        a = w.st.copy()
        a.pc.append(c)
        b = w.st.copy()
        b.pc.append(z3.Not(c))
        return [(World(a, w.conds + [c], w.q, w.P), True), (World(b, w.conds + [z3.Not(c)], w.q, w.P), False)]

    def emit(self, w, sym):
        """the reader decoded one source symbol"""
        if w.P is None:
            return w
        want = self.expect(z3.simplify(w.P))
        ok = self.E.decide3(w.st, simp(z3.ExprRef.__eq__(want, sym)))
        if ok is True:
            return w.with_(P=z3.simplify(self.step(z3.simplify(w.P))))
        return World(w.st, w.conds, w.q, None)      # lost track of the source

    def worlds(self, st, rope):
        p = rope.p
        ws = []
        if p and isinstance(p[0], tuple) and p[0][0] == 'abs':
            for q in sorted(p[0][2], key=repr):
                ws.append(World(st, [], q, self.posvar(p[0][1])))
            p = p[1:]
        else:
            ws.append(World(st, [], self.dec.start(), z3.BitVecVal(0, 64)))
        return [y for w in self.feed(ws, p) for y in self.dec.flush(w)]

    def feed(self, ws, p):
        for x in p:
            nw = []
            for w in ws:
                if w.q == BAD:
                    nw.append(w)
                    continue
                if isinstance(x, bytes):
                    cur = [w]
                    for b in x:
                        cur = [z for y in cur for z in (self.dec.char(y, b) if y.q != BAD else [y])]
                    nw += cur
                elif x[0] == 'choice':
                    for w2, d in self.branch(w, x[1]):
                        nw += self.feed([w2], x[2] if d else x[3])
                elif x[0] == 'ch':
                    nw += self.dec.char(w, x[1])
                elif x[0] == 'fmt':
                    nw += self.dec.fmt(w, x)
                elif x[0] == 'in':
                    nw += self.dec.slice(w, x)
                elif x[0] == 'cls':
                    nw += self.dec.cls(w, x)
                else:
                    nw.append(w.with_(q=BAD))
            if len(nw) > 300:
                raise Unsupported('too many reader states')
            ws = nw
        return ws

    def summary(self, E, st, rope):
        return frozenset(self.dec.rest(w) for w in self.worlds(st, rope))

    def last_char(self, E, st, x, c):
        pass

    def poseq(self, a, rope, y):
        """formula: the number of decoded symbols is y"""
        fs = []
        for w in self.worlds(a, rope):
            if w.q == BAD or w.P is None:
                fs.append(z3.Not(z3.And(*w.conds)) if w.conds else z3.BoolVal(False))
            else:
                fs.append(z3.Implies(z3.And(*w.conds), w.P == y) if w.conds else w.P == y)
        return z3.And(*fs) if fs else True

    def candidates(self, E, s, st, H, pairs, fr, kind):
        from .engine import Loc
        out = []
        ropes = []
        nums = []
        for root, path, old, nv, t in pairs:
            if isinstance(nv, StrV):
                if nv.p and isinstance(nv.p[0], tuple) and nv.p[0][0] == 'abs':
                    ropes.append((Loc(root, path), old, nv))
                continue
            n0, n1 = self.num(old), self.num(nv)
            if n0 is None or n1 is None:
                continue
            nums.append((Loc(root, path), n0, n1))
        for rl, r0, r1 in ropes:
            pv = self.posvar(r1.p[0][1])
            for nl, n0, n1 in nums:
                def f(a, rl=rl, nl=nl):
                    return self.poseq(a, E.load(a, rl), self.num(E.load(a, nl)))
                out.append((pv == n1, self.poseq(st, r0, n0), f))
            # unchanged by the loop
            for w in self.worlds(st, r0):
                if w.q != BAD and w.P is not None and not w.conds:
                    out.append((pv == w.P, self.poseq(st, r0, w.P), lambda a, rl=rl, P=w.P: self.poseq(a, E.load(a, rl), P)))
                break
        return out

    def num(self, v):
        n = self.E.num_of(v)
        if n is None and isinstance(v, SV):
            # iterator objects holding one pointer
            for x in v.f.values():
                if isinstance(x, PtrV) and x.off is not None and not isinstance(x.off, str):
                    n = x.off
        if n is None:
            return None
        if isinstance(n, int):
            return z3.BitVecVal(n, 64)
        return self.E.ext(n, 64, True)

    def final(self, E, st, v, n, name, fn):
        if not isinstance(v, StrV):
            raise Unsupported('result is not a string value')
        for w in self.worlds(st, v):
            if w.q == BAD or w.P is None or not self.dec.accept(w.q):
                E.oblige(w.st, False, name, fn=fn, detail='text read so far ends in state %r; rope %r' % (w.q, v))
            else:
                E.oblige(w.st, w.P == n, name, fn=fn, detail='wrong number of symbols')


class Decoder:
    dom = None

    def rest(self, w):
        return w.q

    def char(self, w, c):
        return [w.with_(q=BAD)]

    def flush(self, w):
        return [w]

    def fmt(self, w, x):
        return [w.with_(q=BAD)]

    def slice(self, w, x):
        return [w.with_(q=BAD)]

    def cls(self, w, x):
        return [w.with_(q=BAD)]


class HexUtf16Decoder(Decoder):
    """<FEFF followed by UTF-16BE units in hex and >; states: ('pre',k) ('hex',bits,hi) ('end',)"""
    PRE = b'<FEFF'

    def __init__(self, adorn):
        self.adorn = adorn

    def start(self):
        return ('pre', 0) if self.adorn else ('hex', (), None)

    def rest(self, w):
        if w.q[0] == 'hex' and (w.q[1] or w.q[2] is not None):
            return BAD
        return w.q

    def accept(self, q):
        if self.adorn:
            return q == ('end',)
        return q == ('hex', (), None)

    def nibbles(self, w, term, width):
        """append hex digits: term of 4*width bits"""
        q = w.q
        if q[0] != 'hex':
            return [w.with_(q=BAD)]
        bits = q[1] + ((term, width),)
        tot = sum(b for _, b in bits)
        if tot < 4:
            return [w.with_(q=('hex', bits, q[2]))]
        if tot > 4:
            return [w.with_(q=BAD)]
        parts = [t for t, _ in bits]
        unit = z3.simplify(z3.Concat(*parts) if len(parts) > 1 else parts[0])
        return self.unit(w, unit, q[2])

    def unit(self, w, unit, hi):
        out = []
        z = z3.ZeroExt(16, unit)
        if hi is None:
            for w2, d in self.dom.branch(w, (unit & 0xFC00) == 0xD800):
                if d:
                    out.append(w2.with_(q=('hex', (), z)))
                else:
                    for w3, d2 in self.dom.branch(w2, (unit & 0xFC00) == 0xDC00):
                        out.append(w3.with_(q=BAD) if d2 else self.dom.emit(w3.with_(q=('hex', (), None)), z))
        else:
            for w2, d in self.dom.branch(w, (unit & 0xFC00) == 0xDC00):
                cp = (((hi & 0x3FF) << 10) | (z & 0x3FF)) + 0x10000
                out.append(self.dom.emit(w2.with_(q=('hex', (), None)), z3.simplify(cp)) if d else w2.with_(q=BAD))
        return out

    def char(self, w, c):
        q = w.q
        if not isinstance(c, int):
            return [w.with_(q=BAD)]
        if q[0] == 'pre':
            if c != self.PRE[q[1]]:
                return [w.with_(q=BAD)]
            k = q[1] + 1
            return [w.with_(q=('pre', k) if k < len(self.PRE) else ('hex', (), None))]
        if q[0] == 'hex':
            if c == 0x3E and self.adorn and not q[1] and q[2] is None:
                return [w.with_(q=('end',))]
            ch = chr(c)
            if ch in '0123456789abcdefABCDEF':
                return self.nibbles(w, z3.BitVecVal(int(ch, 16), 4), 1)
        return [w.with_(q=BAD)]

    def fmt(self, w, x):
        _, k, spec, v = x
        if k not in ('u', 'i') or spec not in ('02X', '02x', '04X', '04x'):
            return [w.with_(q=BAD)]
        width = int(spec[1])
        n = 4 * width
        if v.size() > n:
            if self.dom.E.decide3(w.st, z3.ULT(v, 1 << n)) is not True:
                return [w.with_(q=BAD)]
            t = z3.Extract(n - 1, 0, v)
        elif v.size() < n:
            t = z3.ZeroExt(n - v.size(), v)
            if k == 'i' and self.dom.E.decide3(w.st, v >= 0) is not True:
                return [w.with_(q=BAD)]
        else:
            t = v
            if k == 'i' and self.dom.E.decide3(w.st, v >= 0) is not True:
                return [w.with_(q=BAD)]
        return self.nibbles(w, z3.simplify(t), width)
