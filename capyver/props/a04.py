"""A04: exact UTF-8 validation, code point iteration and UTF-16BE conversion."""
from ..spec import *
from ..domains import PosRope, HexUtf16Decoder
from .. import native
import subprocess

NS = 'capypdf::internal::'


def V_of(E, name):
    """V(i): the text named `name` is well formed from byte i on (definition unfolded at the indices given to inst)"""
    V = z3.Function('utf8valid!' + name, z3.BitVecSort(64), z3.BoolSort())
    n = B64(len_name(E, name))
    done = set()

    def inst(i):
        i = z3.simplify(i)
        if i.get_id() in done:
            return V(i)
        done.add(i.get_id())
        E._keep.append(i)
        ln, _ = u8_spec(lambda k: byte_at(name, k), i, n)
        E.axiom(V(i) == z3.Or(i == n, z3.And(ln != 0, V(z3.simplify(i + ln)))))
        return V(i)
    E.axiom(V(n))
    return V, inst


def cand_V(V, inst):
    """invariant candidates: validity from 0 is equivalent to validity from the current position, for every numeric loop variable"""
    def h(E, s, st, H, pairs, fr, kind):
        out = []
        for root, path, old, nv, t in pairs:
            if isinstance(nv, StrV):
                continue
            n0, n1 = E.num_of(old), E.num_of(nv)
            if n0 is None or n1 is None:
                continue
            x1 = E.ext(n1, 64, True)
            x0 = E.ext(tobv(n0, 64) if isinstance(n0, int) else n0, 64, True)
            if x1.size() != 64:
                continue
            inst(x1)
            loc = Loc(root, path)
            zero = z3.BitVecVal(0, 64)

            def f(a, l=loc):
                y = E.num_of(E.load(a, l))
                return inst(zero) == inst(E.ext(tobv(y, 64) if isinstance(y, int) else y, 64, True))
            out.append((inst(zero) == inst(x1), inst(zero) == inst(x0), f))
        return out
    return h


def t_validate(prog, T):
    F = find(prog, NS + 'is_valid_utf8')
    E = T.engine(check_bounds=True, timeout=20000)
    V, inst = V_of(E, 'input')
    E.hooks['candidates'] = cand_V(V, inst)
    st = State()
    E.axiom(z3.ULT(len_name(E, 'input'), z3.BitVecVal(1 << 40, 64)))
    outs = call_fn(E, F, [E.str_fresh('input')], st=st)
    for s, k, v in outs:
        if k != 'n':
            E.oblige(s, False, 'validation ends without exception')
            continue
        E.oblige(s, zbool(E.tobool(s, v)) == inst(z3.BitVecVal(0, 64)), 'accepts exactly the well-formed UTF-8 texts', fn=F.name)


def t_fromview(which):
    def run(prog, T):
        for F in findall(prog, NS + 'u8string::' + which):
            if len(F.params) != 1 or not (is_strish(F.tu.T(F.params[0]['t'])) or F.tu.T(F.params[0]['t']).k == 'ptr'):
                continue
            E = T.engine(check_bounds=False)
            valid = z3.Bool('is_valid')

            def h(E2, st, fr, F2, this, argv, e):
                v = E2.rv(st, argv[0])
                if isinstance(v, PtrV):
                    v = E2.cstr(st, v)
                ok = isinstance(v, StrV) and len(v.p) == 1 and isinstance(v.p[0], tuple) and v.p[0][0] == 'in' and v.p[0][1] == 'sv'
                E2.oblige(st, ok, 'the whole supplied text is validated', fn=F.name)
                return valid
            E.fnhooks[NS + 'is_valid_utf8'] = h
            st = State()
            isptr = F.tu.T(F.params[0]['t']).k == 'ptr'
            if isptr:
                loc = E.nheap('sv', F.tu.T(F.params[0]['t']).t, st, E.str_fresh('sv'))
                a = PtrV(False, loc, 0, F.tu.T(F.params[0]['t']))
            else:
                a = E.str_fresh('sv')
            outs = call_fn(E, F, [a], st=st)
            for s, k, v in outs:
                if k != 'n':
                    E.oblige(s, False, 'construction ends without exception')
                    continue
                v = E.rv(s, v)
                ok = v.ok
                E.oblige(s, zimp(ok, valid), 'an ill-formed text is rejected', fn=F.name)
                if E.feasible(s, zbool(ok)):
                    s2 = s.copy()
                    E.assume(s2, zbool(ok))
                    u = E.force(v.v, s2)
                    buf = E.force(u.f['buf'], s2) if isinstance(u, SV) and 'buf' in u.f else None
                    same = isinstance(buf, StrV) and all(isinstance(x, tuple) and x[0] == 'in' and x[1] == 'sv' for x in buf.p)
                    E.oblige(s2, same, 'the accepted text is stored unchanged', fn=F.name)
                    if not isptr and same:
                        E.oblige(s2, B64(E.str_len(buf.p)) == len_name(E, 'sv'), 'the accepted text is stored completely', fn=F.name)
    return run


def t_iter(prog, T):
    """CodepointIterator at a boundary of a well-formed text: * yields the code point, ++ moves past it, nothing beyond it is read"""
    ops = {}
    for F in prog.fns:
        if F.name.startswith(NS + 'CodepointIterator::operator'):
            ops.setdefault(F.name.split('::')[-1], []).append(F)
    it = find(prog, NS + 'CodepointIterator::operator*')
    inc = [F for F in ops.get('operator++', []) if not F.params][0]
    ct = it.tu.T(it.cls)
    E = T.engine(check_bounds=True)
    n = len_name(E, 'text')
    E.axiom(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
    o = z3.BitVec('o', 64)
    st = State()
    ln, cp = u8_spec(lambda k: byte_at('text', k), o, n)
    st.pc += [z3.ULT(o, n), ln != 0]
    loc = E.nheap('text', None, st, E.str_fresh('text'))
    cons = [F for F in prog.fns if F.isctor and F.name == NS + 'CodepointIterator::CodepointIterator' and len(F.params) == 1 and F.tu.T(F.params[0]['t']).k == 'ptr']
    if not cons:
        raise Unsupported('iterator constructor')
    C = cons[0]
    fr = Frame(-5, None, C.tu, None)

    def mk(s, off):
        this = E.heap('it%d' % uid(), ct, s, E.default(ct, s, fr))
        r = E.run_fn(s, C, this, [PtrV(False, loc, off, C.tu.T(C.params[0]['t']))], fr)
        return r, this
    rs, this = mk(st, o)

    def readbound(s):
        # every byte the iterator touches lies inside the sequence: bounds of the text are shrunk to its end
        return None
    for s, k, v in rs:
        for s1, k1, v1 in E.run_fn(s, it, this, [], fr):
            if k1 != 'n':
                E.oblige(s1, False, 'reading a code point of an accepted text cannot fail', fn=it.name)
                continue
            E.oblige(s1, E.rv(s1, v1) == cp, 'iteration yields the code point encoded at the position', fn=it.name)
            for s2, k2, v2 in E.run_fn(s1, inc, this, [], fr):
                if k2 != 'n':
                    E.oblige(s2, False, 'advancing cannot fail', fn=inc.name)
                    continue
                same_pos(E, s2, this, ct, loc, o + ln, fr, inc, prog, C)
                # after advancing, the next read decodes the next sequence
                ln2, cp2 = u8_spec(lambda k: byte_at('text', k), z3.simplify(o + ln), n)
                s3 = s2.copy()
                s3.pc += [z3.ULT(o + ln, n), ln2 != 0]
                if E.feasible(s3):
                    for s4, k4, v4 in E.run_fn(s3, it, this, [], fr):
                        if k4 != 'n':
                            E.oblige(s4, False, 'reading after advancing cannot fail', fn=it.name)
                            continue
                        E.oblige(s4, E.rv(s4, v4) == cp2, 'after advancing, the next code point is yielded', fn=it.name)
        # advancing without reading first
        for s2, k2, v2 in E.run_fn(s, inc, this, [], fr):
            if k2 == 'n':
                same_pos(E, s2, this, ct, loc, o + ln, fr, inc, prog, C)


def same_pos(E, st, this, ct, loc, want, fr, F, prog, C):
    """the iterator compares equal to one constructed at byte `want` (and different from one elsewhere)"""
    eq = [G for G in prog.fns if G.name == NS + 'CodepointIterator::operator==' and len(G.params) == 1]
    other = E.heap('cmp%d' % uid(), ct, st, E.default(ct, st, fr))
    w = z3.BitVec('w%d' % uid(), 64)
    st = st.copy()
    for s, k, v in E.run_fn(st, C, other, [PtrV(False, loc, w, C.tu.T(C.params[0]['t']))], fr):
        for s1, k1, v1 in E.run_fn(s, eq[0], this, [other], fr):
            E.oblige(s1, zbool(E.tobool(s1, v1)) == (w == want), 'advancing moves exactly past the code point', fn=F.name)


def t_range(prog, T):
    """begin() is byte 0 and end() is one past the last byte of the stored text"""
    for nm, want in (('begin', lambda n: z3.BitVecVal(0, 64)), ('end', lambda n: n)):
        F = find(prog, NS + 'u8string::' + nm)
        E = T.engine()
        st = State()
        ct = F.tu.T(F.cls)
        n = len_name(E, 'this.buf')
        this = E.heap('this', ct, st, SV(ct, {'buf': E.str_fresh('this.buf')}))
        eqF = [G for G in prog.fns if G.name == NS + 'CodepointIterator::operator==' and len(G.params) == 1][0]
        for s, k, v in call_fn(E, F, [], this, st):
            v = E.rv(s, v)
            b = v.f.get('buf') if isinstance(v, SV) else None
            b = E.force(b, s) if b is not None else None
            if not isinstance(b, PtrV):
                raise Unsupported('iterator representation')
            tv = E.load(s, b.loc) if b.loc is not None else None
            E.oblige(s, isinstance(tv, StrV) and len(tv.p) == 1 and tv.p[0][:2] == ('in', 'this.buf'), 'iteration runs over the stored text', fn=F.name)
            E.oblige(s, tobv(b.off if b.off is not None else 0, 64) == want(n), 'iteration starts at the first and ends after the last byte', fn=F.name)


def t_utf16(adorn):
    def run(prog, T):
        F = find(prog, NS + 'utf8_to_pdfutf16be')
        E = T.engine(timeout=20000)
        n = len_name(E, 'text')
        E.axiom(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
        CP = z3.Function('cp', z3.BitVecSort(64), z3.BitVecSort(32))
        LN = z3.Function('ln', z3.BitVecSort(64), z3.BitVecSort(64))

        def off(v, s):
            b = E.force(v.f['buf'], s)
            return tobv(b.off if b.off is not None else 0, 64)

        # contract of the iterator, proved by the task "code point iteration": * is CP(offset), ++ adds LN(offset)
        def star(E2, st, fr, G, this, argv, e):
            v = E2.rv(st, this)
            o = z3.simplify(off(v, st))
            c = CP(o)
            st.pc.append(z3.And(z3.ULE(c, 0x10FFFF), z3.Not(z3.And(z3.UGE(c, 0xD800), z3.ULE(c, 0xDFFF)))))
            return E2.newroot(fr, 'cp', G.tu.T(G.ret).t, st, c)

        def inc(E2, st, fr, G, this, argv, e):
            if G.params:
                return NotImplemented
            v = E2.rv(st, this)
            b = E2.force(v.f['buf'], st)
            o = z3.simplify(off(v, st))
            E2.store(st, Loc(this.root, this.path + (('f', 'buf'),)), PtrV(b.null, b.loc, z3.simplify(o + LN(o)), b.t))
            return this
        E.fnhooks[NS + 'CodepointIterator::operator*'] = star
        E.fnhooks[NS + 'CodepointIterator::operator++'] = inc
        dom = PosRope(E, expect=lambda P: CP(P), step=lambda P: P + LN(P), decoder=HexUtf16Decoder(adorn), prefix=adorn)
        E.rope_dom = dom
        E.hooks['candidates'] = dom.candidates
        st = State()
        ut = F.tu.T(F.params[0]['t']).t
        a = E.heap('text', ut, st, SV(ut, {'buf': E.str_fresh('text')}))
        outs = call_fn(E, F, [a, adorn], st=st)
        for s, k, v in outs:
            if k != 'n':
                E.oblige(s, False, 'conversion cannot fail', fn=F.name)
                continue
            dom.final(E, s, E.rv(s, v), n, 'the output is %sthe UTF-16BE form of every code point in order' % ('a byte order mark followed by ' if adorn else ''), F.name)
    return run


def tasks(prog, tier):
    return [
        Task('is_valid_utf8', t_validate, 300),
        Task('u8string::from_view', t_fromview('from_view')),
        Task('u8string::from_cstr', t_fromview('from_cstr')),
        Task('CodepointIterator', t_iter, 300, 3),
        Task('u8string::begin/end', t_range, 60, 2),
        Task('utf8_to_pdfutf16be (text string)', t_utf16(True), 300),
        Task('utf8_to_pdfutf16be (plain)', t_utf16(False), 300),
    ]


def replay(tier, seed):
    return native.run_harness('h_utf8', [tier, str(seed)])


HOW = 'harness/h_utf8.cpp linked with the real sources (capyver/native.py) prints FAIL lines with the input bytes in hex'
ASSUME = ['texts are shorter than 2^40 bytes']
