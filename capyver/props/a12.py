"""A12: colour components are clamped to [0,1], kept when in range, and written in the documented order."""
from ..spec import *
from ..domains import PosRope, Decoder, BAD
from .. import native

NS = 'capypdf::internal::'
DC = NS + 'PdfDrawContext'
LD = NS + 'LimitDouble'


def fp(x):
    return z3.FPVal(x, F64)


def inrange(v):
    return z3.And(z3.fpLEQ(fp(0.0), v), z3.fpLEQ(v, fp(1.0)))


def clamped(v, x):
    """v is the clamped x"""
    return z3.And(inrange(v), z3.Implies(inrange(x), z3.fpEQ(v, x)), z3.Implies(z3.fpLT(x, fp(0.0)), z3.fpEQ(v, fp(0.0))),
                  z3.Implies(z3.fpGT(x, fp(1.0)), z3.fpEQ(v, fp(1.0))))


def use_invariant(E):
    """class invariant of LimitDouble (obligations of its constructors and assignment below)"""
    def fresh(E2, t, name, st):
        if t.k == 'rec' and t.nn == LD:
            if t.rec is None:
                t = E2.prog.complete(t)
            fl = [f for f in t.rec.fields]
            v = z3.FP(name + '.value', F64)
            st.pc.append(inrange(v))
            return SV(t, {fl[0][0]: v})
        return None
    E.hooks['fresh'] = fresh


def ldval(E, s, v):
    v = E.force(v, s)
    if isinstance(v, SV):
        fl = [x for k, x in v.f.items()]
        return tofp(E.force(fl[0], s))
    return tofp(v)


def t_limit(F):
    def run(prog, T):
        E = T.engine()
        st = State()
        this = fresh_this(E, st, F)
        args = fresh_args(E, st, F)
        x = [tofp(E.rv(st, a)) for a in args]
        for v in x:
            st.pc.append(z3.Not(z3.fpIsNaN(v)))
        n = 0
        for s, k, r in call_fn(E, F, args, this, st):
            E.oblige(s, k == 'n', 'a colour component never fails', fn=F.name)
            v = ldval(E, s, E.load(s, this))
            E.oblige(s, clamped(v, x[0]) if x else inrange(v), 'a stored component lies in [0,1] and equals the given one when that is in range', fn=F.name)
            n += 1
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def lex(E, s, pieces):
    """tokens of a text made of literal bytes and formatted numbers: bytes, ('f', term) or ('i', term), ('?', piece)"""
    out = []
    cur = b''
    glued = False
    for p in E.resolve_choices(s, pieces)[0][1] if False else pieces:
        if isinstance(p, bytes):
            for i in range(len(p)):
                c = p[i:i + 1]
                if c.isspace():
                    if cur:
                        out.append(cur)
                    cur = b''
                    glued = False
                else:
                    if glued:
                        out.append(('?', 'text directly after a number'))
                        glued = False
                    cur += c
            continue
        if p[0] == 'in' and (str(p[1]).endswith('.lead') or str(p[1]).endswith('.buf')):
            continue
        if p[0] == 'fmt':
            if cur in (b'/CSpace', b'/Pattern-'):
                out.append((cur.decode(), p[3]))
                cur = b''
                continue
            if cur or glued:
                out.append(('?', 'number directly after text'))
                cur = b''
            out.append((('f' if p[1] == 'd' and p[2] == 'f' else '?') if p[1] == 'd' else 'i', p[3]))
            glued = True
            continue
        out.append(('?', p))
    if cur:
        out.append(cur)
    return out


def variants(E, s, buf):
    return E.resolve_choices(s, buf.p)


def check_ops(E, s, buf, want, name, fn):
    """want: list of bytes or ('f', z3 term x, exact) tokens"""
    got = lex(E, s, buf.p)
    ok = len(got) == len(want)
    f = []
    if ok:
        for g, w in zip(got, want):
            if isinstance(w, bytes):
                ok = ok and g == w
            elif not isinstance(g, tuple) or g[0] != w[0]:
                ok = False
            elif w[0] == 'f':
                v = tofp(g[1])
                f.append(w[2](v, w[1]))
            else:
                f.append(tobv(g[1], 32) == tobv(w[1], 32))
    E.oblige(s, z3.And(*f) if ok and f else ok, name, fn=fn, detail='wrote %r' % (got,))


def same(v, x):
    return z3.fpEQ(v, x)


OPS = {'G': 1, 'g': 1, 'RG': 3, 'rg': 3, 'K': 4, 'k': 4}


def finite(st, x):
    st.pc.append(z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))))


def cmds_of(E, s, loc):
    o = E.force(E.load(s, loc), s)
    return E.force(E.force(o.f['cmds'], s).f['buf'], s)


def t_capi_op(op):
    def run(prog, T):
        F = find(prog, 'capy_dc_cmd_' + op)
        E = T.engine()
        use_invariant(E)
        st = State()
        D = find(prog, DC + '::clear')
        ct = D.tu.T(D.cls)
        loc = E.heap('ctx', ct, st, LazyV(ct, 'ctx'))
        args = [PtrV(False, loc, None, F.tu.T(F.params[0]['t']))]
        xs = []
        for p in F.params[1:]:
            v = E.fresh(F.tu.T(p['t']), 'api!' + p['name'], st)
            finite(st, v)
            xs.append(v)
            args.append(v)
        if len(xs) != OPS[op]:
            E.oblige(st, False, 'the operator takes its documented components', fn=F.name)
            return
        n = 0
        for s, k, r in call_fn(E, F, args, None, st):
            if k != 'n':
                E.oblige(s, False, 'colour operator cannot fail', fn=F.name)
                continue
            n += 1
            r = E.rv(s, r)
            E.oblige(s, tobv(r, 32) == 0, 'a finite colour is accepted', fn=F.name)
            check_ops(E, s, cmds_of(E, s, loc), [('f', x, clamped) for x in xs] + [op.encode()], 'the operator gets the clamped components in order', F.name)
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def t_capi_color(fname, typ, nid):
    def run(prog, T):
        F = find(prog, fname)
        E = T.engine()
        st = State()
        ct = None
        for G in prog.fns:
            for p in G.params:
                t = decay(G.tu.T(p['t']))
                if t.k == 'ref':
                    t = t.t
                if t.k == 'rec' and t.nn == 'std::variant' and t.args and any(a.nn.endswith('::DeviceRGBColor') for a in (t.args[0] if isinstance(t.args[0], list) else t.args)):
                    ct = t
        if ct is None:
            raise Unsupported('colour variant type')
        args = fresh_args(E, st, F)
        xs = [a for a in args if isinstance(a, z3.FPRef)]
        for x in xs:
            finite(st, x)
        nn = 0
        for s, k, r in call_fn(E, F, args, None, st):
            if k != 'n':
                E.oblige(s, False, 'setting a colour cannot fail otherwise', fn=F.name)
                continue
            nn += 1
            s1 = s.copy()
            s1.pc.append(tobv(E.rv(s, r), 32) == 0)
            if typ == 'SeparationColor':
                E.oblige(s, z3.Implies(inrange(xs[0]), tobv(E.rv(s, r), 32) == 0), 'a component in range is accepted', fn=F.name)
            else:
                E.oblige(s, tobv(E.rv(s, r), 32) == 0, 'every finite colour is accepted', fn=F.name)
            if not E.feasible(s1):
                continue
            o = E.force(E.load(s1, args[0].loc), s1)
            v = o
            if isinstance(o, SV) and 'c' in o.f:
                v = E.force(o.f['c'], s1)
            if not isinstance(v, VarV):
                raise Unsupported('colour value %r' % (v,))
            alts = v.t.args[0] if isinstance(v.t.args[0], list) else v.t.args
            ix = [i for i, a in enumerate(alts) if a.nn == NS + typ][0]
            E.oblige(s1, tobv(v.idx, 8) == ix, 'the colour has the model that was set', fn=F.name)
            if ix not in v.alts:
                E.oblige(s1, False, 'the colour is stored', fn=F.name)
                continue
            c = E.force(v.alts[ix], s1)
            comps = [ldval(E, s1, x) for k2, x in c.f.items() if not k2.startswith('@') and k2 != 'id']
            rel = same if typ == 'LabColor' else clamped
            E.oblige(s1, z3.And(*[rel(g, x) for g, x in zip(comps, xs)]) if len(comps) == len(xs) else False,
                     'the stored components are the clamped given ones in order', fn=F.name)
        if not nn:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def t_gs(fname, field):
    def run(prog, T):
        F = find(prog, fname)
        E = T.engine()
        st = State()
        args = fresh_args(E, st, F)
        x = [a for a in args if isinstance(a, z3.FPRef)][0]
        finite(st, x)
        for s, k, r in call_fn(E, F, args, None, st):
            if k != 'n':
                E.oblige(s, False, 'cannot fail', fn=F.name)
                continue
            o = E.force(E.load(s, args[0].loc), s)
            v = E.force(o.f[field], s)
            E.oblige(s, zbool(v.has), 'the opacity is stored', fn=F.name)
            E.oblige(s, clamped(ldval(E, s, v.v), x), 'the stored opacity is the clamped given one', fn=F.name)
    return run


class NumDec(Decoder):
    """numbers separated by blanks, then an operator name"""

    def start(self):
        return ('n', '', True)

    def accept(self, q):
        return q[0] == 'n' and q[1] in ('SCN', 'scn')

    def char(self, w, c):
        q = w.q
        if not isinstance(c, int):
            return [w.with_(q=BAD)]
        if chr(c) in ' \n':
            return [w.with_(q=('n', q[1], True))]
        if not q[2] and not q[1]:
            return [w.with_(q=BAD)]
        return [w.with_(q=('n', q[1] + chr(c), False))]

    def fmt(self, w, x):
        if x[1] != 'd' or x[2] != 'f' or w.q[1] or not w.q[2]:
            return [w.with_(q=BAD)]
        return [self.dom.emit(w.with_(q=('n', '', False)), tofp(x[3]))]


def t_setcolor(F, typ):
    def run(prog, T):
        E = T.engine()
        use_invariant(E)
        st = State()
        this = fresh_this(E, st, F)
        args = fresh_args(E, st, F)
        stroke = E.tobool(st, E.rv(st, args[1]))
        c = E.force(E.load(st, args[0]), st)
        comps = None
        if typ == 'ICCColor':
            vals = E.force(c.f['values'], st)
            c = c.set('values', vals)
            E.store(st, args[0], c)
            E.rope_dom = PosRope(E, lambda P: E.base_elem(st, vals, P), lambda P: P + 1, NumDec())
            E.hooks['candidates'] = E.rope_dom.candidates
        else:
            comps = [(k, ldval(E, st, x)) for k, x in c.f.items() if not k.startswith('@') and k != 'id']
            for _, x in comps:
                finite(st, x)
            fl = {k: (E.force(x, st)) for k, x in c.f.items()}
            E.store(st, args[0], SV(c.t, fl))
        n = 0
        for s0, k, r in call_fn(E, F, args, this, st):
            if k != 'n':
                continue
            r = E.force(E.rv(s0, r), s0)
            for up in (True, False):
                s = s0.copy()
                s.pc.append(zbool(r.ok))
                s.pc.append(zbool(stroke) if up else z3.Not(zbool(stroke)))
                if not E.feasible(s):
                    continue
                n += 1
                buf = cmds_of(E, s, this)
                for s2, p in pick(E, s, buf.p):
                    b = StrV(p)
                    if typ == 'DeviceRGBColor':
                        check_ops(E, s2, b, [('f', x, same) for _, x in comps] + [b'RG' if up else b'rg'], 'colour components are written in order', F.name)
                    elif typ == 'DeviceGrayColor':
                        check_ops(E, s2, b, [('f', x, same) for _, x in comps] + [b'G' if up else b'g'], 'colour components are written in order', F.name)
                    elif typ == 'DeviceCMYKColor':
                        check_ops(E, s2, b, [('f', x, same) for _, x in comps] + [b'K' if up else b'k'], 'colour components are written in order', F.name)
                    elif typ in ('SeparationColor', 'LabColor'):
                        got = lex(E, s2, p)
                        cs = got[0][1] if got and isinstance(got[0], tuple) else 0
                        check_ops(E, s2, b, [('/CSpace', cs), b'CS' if up else b'cs'] + [('f', x, same) for _, x in comps] + [b'SCN' if up else b'scn'],
                                  'colour components are written in order', F.name)
                    elif typ == 'ICCColor':
                        i = [j for j, x in enumerate(p) if isinstance(x, tuple) and x[0] == 'abs']
                        if not i:
                            # no component
                            E.oblige(s2, tobv(E.vsize(vals), 64) == 0, 'every component is written', fn=F.name, detail=repr(p)[:200])
                            continue
                        E.rope_dom.final(E, s2, StrV(p[i[0]:]), tobv(E.vsize(vals), 64), 'every ICC component is written in order', F.name)
                        tail = [w.q[1] for w in E.rope_dom.worlds(s2, StrV(p[i[0]:]))]
                        E.oblige(s2, all(t == ('SCN' if up else 'scn') for t in tail), 'the operator fits the use', fn=F.name)
        if not n:
            E.oblige(State(), False, 'a success path exists', fn=F.name)
    return run


def pick(E, s, p):
    """split on choices"""
    for i, x in enumerate(p):
        if isinstance(x, tuple) and x[0] == 'choice':
            out = []
            for c, q in ((zbool(x[1]), x[2]), (z3.Not(zbool(x[1])), x[3])):
                s2 = s.copy()
                s2.pc.append(c)
                if E.feasible(s2):
                    out += pick(E, s2, p[:i] + tuple(q) + p[i + 1:])
            return out
    # glue neighbouring text
    out = []
    for x in p:
        if isinstance(x, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += x
        else:
            out.append(x)
    return [(s, tuple(out))]


def t_convert(F, typ):
    """conversion to the output colour space writes the converter's result (or the colour itself) in order"""
    def run(prog, T):
        E = T.engine()
        use_invariant(E)
        st = State()
        this = fresh_this(E, st, F)
        got = {}

        def conv(E2, s, fr, G, th, argv, e):
            r = E2.fresh(decay(G.tu.T(G.ret)), 'conv', s)
            return r
        for n in ('to_rgb', 'to_gray', 'to_cmyk'):
            E.fnhooks[NS + 'PdfColorConverter::' + n] = conv
        seen = []

        def setc(E2, s, fr, G, th, argv, e):
            seen.append((decay(G.tu.T(G.params[0]['t'])), E2.force(E2.load(s, argv[0]), s) if isinstance(argv[0], Loc) else argv[0], s.copy(), E2.rv(s, argv[1])))
            return E2.fresh(decay(G.tu.T(G.ret)), 'set', s)
        E.fnhooks[DC + '::set_color'] = setc
        args = fresh_args(E, st, F)
        stroke = E.tobool(st, E.rv(st, args[1]))
        for s, k, r in call_fn(E, F, args, this, st):
            pass
        for t, v, s, up in seen:
            E.oblige(s, zbool(E.tobool(s, up)) == zbool(stroke), 'stroking stays stroking', fn=F.name)
        if not seen:
            E.oblige(State(), False, 'the colour is set', fn=F.name)
    return run


COMP = {'G': ('v',), 'g': ('v',), 'RG': ('r', 'g', 'b'), 'rg': ('r', 'g', 'b'), 'K': ('c', 'm', 'y', 'k'), 'k': ('c', 'm', 'y', 'k')}


def t_op(F):
    """cmd_G .. cmd_k and serialize_G .. serialize_k: one operator with its components in order"""
    def run(prog, T):
        op = F.name.split('::')[-1].split('_')[1]
        E = T.engine()
        use_invariant(E)
        st = State()
        this = fresh_this(E, st, F)
        args = fresh_args(E, st, F)
        xs = []
        for a in args:
            v = ldval(E, st, E.load(st, a) if isinstance(a, Loc) else a)
            finite(st, v)
            xs.append(v)
        if len(xs) != OPS[op]:
            E.oblige(st, False, 'the operator takes its documented components', fn=F.name)
        rel = clamped if F.tu.T(F.params[0]['t']).k == 'float' else same
        n = 0
        for s, k, r in call_fn(E, F, args, this, st):
            if k != 'n':
                E.oblige(s, False, 'colour operator cannot fail', fn=F.name)
                continue
            r = E.force(E.rv(s, r), s)
            n += 1
            E.oblige(s, zbool(r.ok), 'a finite colour is accepted', fn=F.name)
            for s2, p in pick(E, s, cmds_of(E, s, this).p):
                check_ops(E, s2, StrV(p), [('f', x, rel) for x in xs] + [op.encode()], 'the operator gets the components in order', F.name)
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def t_textcolors(F):
    """colours of text objects: every call of serialize_RG .. serialize_k hands over the components of one colour in order"""
    from . import a02
    NM = 'the components of a text colour are handed over in order'
    got = []

    def extra(E, me):
        use_invariant(E)
        for op in OPS:
            old = E.fnhooks.get(DC + '::serialize_' + op)

            def h(E2, s, fr, G, th, argv, e, op=op, old=old):
                names = []
                for a in argv:
                    v = simp(ldval(E2, s, E2.load(s, a) if isinstance(a, Loc) else a))
                    v = v.decl().name() if z3.is_const(v) else str(v)
                    names.append(v)
                pre = set()
                ok = len(names) == len(COMP[op])
                for nm, c in zip(names, COMP[op]):
                    suf = '.%s.value' % c
                    ok = ok and nm.endswith(suf)
                    pre.add(nm[:-len(suf)])
                E2.oblige(s, ok and len(pre) == 1, NM, fn=F.name, detail='%s %r' % (op, names))
                got.append(op)
                return old(E2, s, fr, G, th, argv, e) if old else NotImplemented
            E.fnhooks[DC + '::serialize_' + op] = h

    def run(prog, T):
        a02.t_method(F, 'cmds', extra)(prog, T)
        for E in T.engines:
            E.obls[:] = [o for o in E.obls if o.name == NM]
    return run


class CompDec(Decoder):
    """component values in groups: r g b, v or c m y k of one colour"""

    def start(self):
        return ('idle',)

    def accept(self, q):
        return q == ('idle',)

    def char(self, w, c):
        return [w if w.q == ('idle',) else w.with_(q=BAD)]

    def cls(self, w, x):
        if x[1] == 'pos':
            return [w if w.q == ('idle',) else w.with_(q=BAD)]
        if not x[1].startswith('comp:'):
            return [w.with_(q=BAD)]
        nm = x[1][5:]
        if w.q == ('idle',):
            for g in (('r', 'g', 'b'), ('v',), ('c', 'm', 'y', 'k')):
                suf = '.%s.value' % g[0]
                if nm.endswith(suf):
                    pre = nm[:-len(suf)]
                    rest = tuple(pre + '.%s.value' % c for c in g[1:])
                    return [w.with_(q=('need',) + rest if rest else ('idle',))]
            return [w.with_(q=BAD)]
        if w.q[0] == 'need' and w.q[1] == nm:
            return [w.with_(q=('need',) + w.q[2:] if len(w.q) > 2 else ('idle',))]
        return [w.with_(q=BAD)]

    def slice(self, w, x):
        return [w]


def t_mesh(F):
    """mesh data: every colour is written as all its components in order"""
    def run(prog, T):
        E = T.engine()
        use_invariant(E)
        E.rope_dom = PosRope(E, lambda P: P, lambda P: P, CompDec())

        def app(E2, s, fr, G, th, argv, e):
            r = E2.fresh(decay(G.tu.T(G.ret)), 'af!%d' % uid(), s)
            b = E2.force(E2.load(s, argv[0]), s)
            x = simp(tofp(E2.rv(s, argv[1])))
            v = x.decl().name() if z3.is_const(x) else ''
            kind = 'comp:' + v if v.endswith('.value') else 'pos' if 'floatvalueIj' in G.mn else 'other'
            E2.store(s, argv[0], StrV(b.p + (('cls', kind, uid()),)))
            return r
        E.fnhooks['append_floatvalue'] = app
        for G in prog.fns:
            if G.name.split('<')[0].endswith('::append_floatvalue'):
                E.fnhooks[G.name] = app
        st = State()
        args = fresh_args(E, st, F)
        n = 0
        for s, k, r in call_fn(E, F, args, None, st):
            if k != 'n':
                continue
            r = E.force(E.rv(s, r), s)
            s1 = s.copy()
            s1.pc.append(zbool(r.ok))
            if not E.feasible(s1):
                continue
            n += 1
            v = E.force(r.v, s1)
            for w in E.rope_dom.worlds(s1, v):
                E.oblige(w.st, w.q == ('idle',), 'every mesh colour is written as all its components in order', fn=F.name, detail=repr(w.q))
        if not n:
            E.oblige(State(), False, 'a success path exists', fn=F.name)
    return run


def t_numbers(prog, T):
    F = find(prog, NS + 'color2numbers') if findall(prog, NS + 'color2numbers') else [G for G in prog.fns if G.name.endswith('::color2numbers')][0]
    E = T.engine()
    use_invariant(E)
    st = State()
    toks = {}

    def tok(E2, s, fr, G, th, argv, e):
        v = E2.rv(s, argv[0])
        s.mem['@tok'] = s.mem.get('@tok', ()) + (v,)
        return VOID
    E.fnhooks[NS + 'ObjectFormatter::add_token'] = tok
    args = fresh_args(E, st, F)
    c0 = E.force(E.load(st, args[1]), st)
    alts = c0.t.args[0] if isinstance(c0.t.args[0], list) else c0.t.args
    for i, a in enumerate(alts):
        c0.alts[i] = E.force(c0.alts[i], st)
        if a.nn.split('::')[-1] in ('DeviceRGBColor', 'DeviceGrayColor', 'DeviceCMYKColor'):
            c0.alts[i] = SV(c0.alts[i].t, {k: E.force(x, st) for k, x in c0.alts[i].f.items()})
    E.store(st, args[1], c0)
    n = 0
    E.opts['merge'] = False
    for s0, k, r in call_fn(E, F, args, None, st):
        if k != 'n':
            continue
        r = E.force(E.rv(s0, r), s0)
        for i, a in enumerate(alts):
            s = s0.copy()
            s.pc += [zbool(r.ok), tobv(c0.idx, 8) == i]
            if not E.feasible(s):
                continue
            n += 1
            nm = a.nn.split('::')[-1]
            c = E.force(c0.alts[i], s)
            want = [ldval(E, s, x) for k2, x in c.f.items() if not k2.startswith('@') and k2 != 'id'] if nm.startswith('Device') else None
            got = s.mem.get('@tok', ())
            if want is None or len(want) != len(got):
                E.oblige(s, False, 'a colour is written as its components in order', fn=F.name, detail='%s: %r' % (nm, got))
            else:
                E.oblige(s, z3.And(*[z3.fpEQ(tofp(g), w) for g, w in zip(got, want)]), 'a colour is written as its components in order', fn=F.name)
    if n < 3:
        E.oblige(State(), False, 'three colour models are written', fn=F.name)


def t_float(F):
    def run(prog, T):
        E = T.engine()
        st = State()
        loc = E.heap('buf', decay(F.tu.T(F.params[0]['t'])), st, StrV(()))
        x = z3.FP('v', F64)
        finite(st, x)
        n = 0
        for s, k, r in call_fn(E, F, [loc, x], None, st):
            if k != 'n':
                E.oblige(s, False, 'no exception', fn=F.name)
                continue
            r = E.force(E.rv(s, r), s)
            E.oblige(s, zbool(r.ok) == inrange(x), 'exactly the values from 0 to 1 are accepted', fn=F.name)
            s1 = s.copy()
            s1.pc.append(zbool(r.ok))
            if not E.feasible(s1):
                continue
            n += 1
            b = E.force(E.load(s1, loc), s1)
            ln = E.str_len(b.p)
            w = {2: 16, 4: 32}.get(ln, 0)
            if not w:
                E.oblige(s1, False, 'the component takes its bytes', fn=F.name, detail=repr(b)[:200])
                continue
            bs = [tobv(E.str_at(s1, b.p, i), 8) for i in range(w // 8)]
            got = z3.simplify(z3.Concat(*bs))
            # two bytes: the integer part of 65535 x;  checked through the defining inequalities of truncation
            mx = (1 << w) - 1
            y = z3.fpMul(z3.RNE(), fp(float(mx)), x)
            want = z3.fpToUBV(z3.RTZ(), y, z3.BitVecSort(w))
            E.oblige(s1, got == want, 'the component is stored scaled to the full range, most significant byte first', fn=F.name)
        if not n:
            E.oblige(State(), False, 'a success path exists', fn=F.name)
    return run


def tasks(prog, tier):
    out = []
    for F in prog.fns:
        if F.cls is not None and F.name.rsplit('::', 1)[0] == LD and (F.isctor or F.name.endswith('operator=')) and F.body is not None:
            if F.params and F.tu.T(F.params[0]['t']).k != 'float':
                continue
            if any(t.name == 'LimitDouble %d %s' % (len(F.params), F.name.split('::')[-1]) for t in out):
                continue
            out.append(Task('LimitDouble %d %s' % (len(F.params), F.name.split('::')[-1]), t_limit(F), 60))
    for op in OPS:
        out.append(Task('capy_dc_cmd_' + op, t_capi_op(op), 60, 2))
    for fn, ty in (('capy_color_set_rgb', 'DeviceRGBColor'), ('capy_color_set_gray', 'DeviceGrayColor'), ('capy_color_set_cmyk', 'DeviceCMYKColor'),
                   ('capy_color_set_separation', 'SeparationColor'), ('capy_color_set_lab', 'LabColor')):
        out.append(Task(fn, t_capi_color(fn, ty, 0), 60, 2))
    out.append(Task('capy_graphics_state_set_CA', t_gs('capy_graphics_state_set_CA', 'CA'), 60))
    out.append(Task('capy_graphics_state_set_ca', t_gs('capy_graphics_state_set_ca', 'ca'), 60))
    for F in findall(prog, DC + '::set_color'):
        ty = decay(F.tu.T(F.params[0]['t']))
        ty = (ty.t if ty.k == 'ref' else ty)
        nm = ty.nn.split('::')[-1]
        if nm in ('DeviceRGBColor', 'DeviceGrayColor', 'DeviceCMYKColor', 'SeparationColor', 'LabColor', 'ICCColor'):
            out.append(Task('PdfDrawContext::set_color ' + nm, t_setcolor(F, nm), 60))
    for F in findall(prog, DC + '::convert_to_output_cs_and_set_color'):
        out.append(Task('convert_to_output_cs_and_set_color ' + F.tu.T(F.params[0]['t']).key[-20:], t_convert(F, 0), 60))
    for op in OPS:
        for pre in ('cmd_', 'serialize_'):
            for F in findall(prog, DC + '::' + pre + op):
                if len(F.params) == OPS[op]:
                    out.append(Task('PdfDrawContext::' + pre + op, t_op(F), 60, 2))
    for F in findall(prog, DC + '::serialize_text'):
        out.append(Task('PdfDrawContext::serialize_text', t_textcolors(F), 120))
    for nm in ('serialize_shade4', 'serialize_shade6'):
        for F in [F for F in prog.fns if F.name.endswith('::' + nm)]:
            out.append(Task(nm, t_mesh(F), 60))
    out.append(Task('color2numbers', t_numbers, 60))
    for i, F in enumerate([F for F in prog.fns if F.name.endswith('::append_floatvalue') and F.body is not None]):
        out.append(Task('append_floatvalue %d' % i, t_float(F), 120))
    return out


def replay(tier, seed):
    return native.run_harness('h_color', [tier, str(seed)])


HOW = 'harness/h_color.cpp: every colour call with extreme and ordinary components; operands read back from the written page'
ASSUME = ['numbers given by the caller are finite', 'numbers are written with the six decimals of {:f}',
          'LimitDouble invariant 0 <= v <= 1 (obligation of its constructors and assignment; its member is private)']
