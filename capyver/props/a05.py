"""A05: cross-reference offsets, object numbers and stream lengths are exact."""
from ..spec import *
from ..models import I64U, vec_to_str
from .. import callgraph, native, objfmt, text
from . import a01, a02, a07

NS = 'capypdf::internal::'
WR = NS + 'PdfWriter'
DOC = NS + 'PdfDocument'


# ---------------------------------------------------------------- the file written so far is a ghost text
def install(E, st):
    E.objfmt = objfmt.setup(E)
    st.ghost['file'] = E.str_fresh('file0')

    def wb(E2, s, fr, G, this, argv, e):
        r = a02.rvoe_fresh(E2, s, G)
        if E2.choose(2):
            s.pc.append(z3.Not(zbool(r.ok)))
            return r
        s.pc.append(zbool(r.ok))
        v = E2.force(E2.rv(s, argv[0]), s)
        if isinstance(v, PtrV):
            v = E2.force(E2.load(s, v.loc), s)
        if isinstance(v, VecV):
            from ..models import vec_to_str
            v = vec_to_str(E2, s, v)
        if not isinstance(v, StrV):
            raise Unsupported('written bytes %r' % (v,))
        if len(argv) == 2:
            E2.oblige(s, tobv(argv[1], 64) == tobv(E2.str_len(v.p), 64), 'a text is written completely', fn=E2.curfn)
        s.ghost['file'] = StrV(E2.cat(s.ghost['file'].p, v.p))
        return r
    E.fnhooks[WR + '::write_bytes'] = wb

    def tell(E2, s, fr, c):
        return E2.convert(s, E2.str_len(s.ghost['file'].p), I64U, c.type)
    for n in ('ftell', 'ftello', 'std::ftell', 'ftell64', '_ftelli64'):
        E.overrides[n] = tell

    def flate(E2, s, fr, G, this, argv, e):
        r = a02.rvoe_fresh(E2, s, G)
        v = E2.force(E2.rv(s, argv[0]), s)
        out = E2.force(r.v, s)
        s.ghost['flate'] = s.ghost.get('flate', ()) + ((out.buid, v),)
        return ExpV(r.t, r.ok, out, r.e)
    E.fnhooks[NS + 'flate_compress'] = flate


def open_formatter(E, t, name, st):
    """a formatter kept in the document holds one open dictionary without length and filter (decided by A01)"""
    if t.k == 'rec' and t.nn == objfmt.OF:
        h = E.hooks.pop('fresh')
        v = E.force(E.fresh_now(t, name, st), st)
        E.hooks['fresh'] = h
        stk = objfmt.stack_of(E, st, v)
        v = v.set('buf', StrV((b'<< ', ('cls', 'pairs:', ('entries', uid())), b' ')))
        return objfmt.with_stack(E, st, v, VecV(stk.et, stk.buid, 0, 0, (objfmt.DICT,), {}))


def member(E, s, this, name):
    return E.force(E.force(E.load(s, this), s).f[name], s)


def prepare(E, st, this, names):
    o = E.force(E.load(st, this), st)
    for n in names:
        o = o.set(n, E.force(o.f[n], st))
    E.store(st, this, o)
    return o


def success(E, s, v):
    s1 = s.copy()
    s1.pc.append(zbool(E.force(E.rv(s, v), s).ok))
    return s1 if E.feasible(s1) else None


def added(E, s, p, p0):
    """pieces appended to the text p0, or None"""
    n = len(p0)
    if p[:n] == p0 or same_pieces(p[:n], p0):
        return p[n:]
    return None


def split(p, sep):
    """(before, after) of the first occurrence of literal bytes"""
    for i, x in enumerate(p):
        if isinstance(x, bytes) and sep in x:
            k = x.index(sep)
            return p[:i] + ((x[:k],) if k else ()), ((x[k + len(sep):],) if x[k + len(sep):] else ()) + p[i + 1:]
    return None


def strip_nl(p):
    if p and isinstance(p[0], bytes) and p[0][:1] == b'\n':
        return ((p[0][1:],) if p[0][1:] else ()) + p[1:]
    return p


def header(E, s, p):
    """an object's text starts with its number: (token, rest) or None"""
    if p and isinstance(p[0], bytes):
        k = 0
        while k < len(p[0]) and 48 <= p[0][k] <= 57:
            k += 1
        if k and p[0][k:k + 7] == b' 0 obj\n':
            return p[0][:k], ((p[0][k + 7:],) if p[0][k + 7:] else ()) + p[1:]
        return None
    if len(p) > 1 and isinstance(p[0], tuple) and p[0][0] == 'fmt' and isinstance(p[1], bytes) and p[1].startswith(b' 0 obj\n'):
        return p[0], ((p[1][7:],) if p[1][7:] else ()) + p[2:]
    return None


# ---------------------------------------------------------------- one finished object
def t_finished(prog, T):
    F = find(prog, WR + '::write_finished_object', 3)
    E = T.engine()
    st = State()
    install(E, st)
    this = fresh_this(E, st, F)
    o = prepare(E, st, this, ('object_offsets', 'objstm_stream', 'use_xref'))
    off0, os0, xref = o.f['object_offsets'], o.f['objstm_stream'], zbool(E.tobool(st, o.f['use_xref']))
    args = fresh_args(E, st, F)
    num, dic, stream = [E.force(E.rv(st, a), st) for a in args]
    n = tobv(E.vsize(stream), 64)
    file0 = st.ghost['file'].p
    pre = E.force(E.load(st, this), st)
    seen = set()
    for s, k, v in call_fn(E, F, [num, dic, stream], this, st):
        if k != 'n':
            E.oblige(s, False, 'writing does not throw', fn=F.name)
            continue
        s = success(E, s, v)
        if s is None:
            continue
        off1, os1 = member(E, s, this, 'object_offsets'), member(E, s, this, 'objstm_stream')
        ok = off1.buid == off0.buid and same_term(off1.bsize, off0.bsize) and len(off1.tail) == 1
        E.oblige(s, ok, 'one cross-reference entry is recorded after the others', fn=F.name, detail=repr(off1))
        if not ok:
            continue
        ent = E.force(off1.tail[0], s)
        comp = zbool(E.tobool(s, E.force(ent.f['store_compressed'], s)))
        pos = tobv(E.force(ent.f['offset'], s), 64)
        E.oblige(s, comp == z3.And(xref, n == 0), 'an object goes to the object stream exactly if it has no data and the file has one', fn=F.name)
        for p, f in frame(E, s, pre, E.force(E.load(s, this), s), ('object_offsets', 'objstm_stream')):
            E.oblige(s, f, 'nothing else of the writer changes', fn=F.name, detail=p)
        for q, val in cases(E, s, comp):
            if val:
                seen.add('objstm')
                E.oblige(q, pos == tobv(E.str_len(os0.p), 64), 'the entry is the position in the object stream', fn=F.name)
                E.oblige(q, same_pieces(os1.p, E.cat(os0.p, dic.p)), 'exactly the object is appended to the object stream', fn=F.name, detail=repr(os1.p))
                E.oblige(q, same_pieces(q.ghost['file'].p, file0), 'the file does not change', fn=F.name)
                continue
            E.oblige(q, pos == tobv(E.str_len(file0), 64), 'the entry is the position in the file where the object starts', fn=F.name)
            E.oblige(q, same_pieces(os1.p, os0.p), 'the object stream does not change', fn=F.name)
            for q2, p in text.expand(E, q, q.ghost['file'].p):
                a = added(E, q2, p, file0)
                h = header(E, q2, a) if a is not None else None
                E.oblige(q2, h is not None, 'the object starts with its number', fn=F.name, detail=repr(a))
                if h is None:
                    continue
                E.oblige(q2, text.is_num(h[0], num, True), 'the object is written under the given number', fn=F.name)
                rest = added(E, q2, h[1], dic.p)
                E.oblige(q2, rest is not None, 'the dictionary follows', fn=F.name, detail=repr(h[1]))
                if rest is None:
                    continue
                data = [x for x in rest if not isinstance(x, bytes)]
                for q3, has in cases(E, q2, n != 0):
                    if not has:
                        seen.add('plain')
                        E.oblige(q3, strip_nl(rest) == (b'endobj\n',), 'the object is closed', fn=F.name, detail=repr(rest))
                        continue
                    seen.add('stream')
                    body = strip_nl(rest)
                    from ..models import vec_to_str
                    want = E.cat(E.cat((b'stream\n',), vec_to_str(E, q3, stream).p), (b'\nendstream\nendobj\n',))
                    E.oblige(q3, same_pieces(body, want), 'the data are written completely between stream and endstream', fn=F.name, detail='%r instead of %r' % (body, want))
    E.oblige(State(), seen == {'objstm', 'plain', 'stream'}, 'all kinds of objects are written', fn=F.name, detail=repr(seen))


# ---------------------------------------------------------------- the other writers: each writes the object whose number it is given
PAGE_WRITERS = {'write_pages_root': 'pages_object', 'write_delayed_page': 'page_obj_num'}


def writers(prog):
    """functions of the writer that write one finished object each"""
    out, seen = [], set()
    for F in prog.fns:
        if F.name.startswith(WR + '::') and F.body is not None and not F.name.endswith('operator()') and F.name not in seen and \
                F.name not in (WR + '::write_finished_object', WR + '::write_objects'):
            if any(G is not None and G.name == WR + '::write_finished_object' for G, n in callgraph.callees(prog, F)):
                seen.add(F.name)
                out.append(F)
    return out


def record(E, this):
    """contract of write_finished_object: one entry after the others; the call is remembered"""
    def h(E2, s, fr, G, th, argv, e):
        r = a02.rvoe_fresh(E2, s, G)
        if E2.choose(2):
            s.pc.append(z3.Not(zbool(r.ok)))
            return r
        s.pc.append(zbool(r.ok))
        s.ghost['wrote'] = s.ghost.get('wrote', ()) + (tuple(E2.force(E2.rv(s, a), s) for a in argv),)
        return r
    return h


def length_is(E, s, d, size, fn):
    """the dictionary text declares the number of bytes of the data"""
    for q, ts in text.tokens(E, s, d.p, keys=(b'/Length',)):
        try:
            vals = text.parse(ts)
        except Unsupported as x:
            E.oblige(q, False, 'the dictionary of a stream can be read', fn=fn, detail='%s: %r' % (x, ts))
            continue
        one = vals[0] if len(vals) == 1 and isinstance(vals[0], tuple) and vals[0][0] == 'dict' else None
        E.oblige(q, one is not None, 'a stream has one dictionary', fn=fn, detail=repr(ts)[:300])
        if one is not None:
            ln = text.one(one[1], b'/Length')
            E.oblige(q, ln is not None and text.is_num(ln, size), 'the declared length is the number of data bytes', fn=fn, detail=repr(ln))


def t_writer(F):
    def run(prog, T):
        m = F.name.split('::')[-1]
        E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
        st = State()
        install(E, st)
        for n in PLAIN:
            E.fnhooks[NS + n] = plain
        E.fnhooks[WR + '::write_finished_object'] = record(E, None)
        this = fresh_this(E, st, F)
        args = fresh_args(E, st, F)
        n = 0
        num = None
        if m not in PAGE_WRITERS:
            num = E.force(E.rv(st, args[0]), st)
            args[0] = num
        pre = E.force(E.load(st, this), st)
        for s, k, v in call_fn(E, F, args, this, st):
            if k != 'n':
                continue
            s = success(E, s, v)
            if s is None:
                continue
            n += 1
            w = s.ghost.get('wrote', ())
            E.oblige(s, len(w) == 1, 'exactly one object is written', fn=F.name)
            for wn, d, data in w:
                if num is not None:
                    E.oblige(s, tobv(wn, 32) == tobv(num, 32), 'the object is written under the number that was asked for', fn=F.name)
                else:
                    E.oblige(s, tobv(wn, 32) == own_number(E, s, this, args, m), 'the object is written under the number of its entry', fn=F.name)
                size = tobv(E.vsize(data), 64)
                for q, has in cases(E, s, size != 0):
                    if has:
                        length_is(E, q, d, size, F.name)
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def own_number(E, s, this, args, m):
    doc = E.force(E.load(s, E.force(E.load(s, this), s).f['doc']), s)
    if m == 'write_pages_root':
        return tobv(E.force(doc.f['pages_object'], s), 32)
    dp = E.force(E.load(s, args[0]), s)
    k = tobv(E.force(dp.f['page_num'], s), 32)
    pages = E.force(doc.f['pages'], s)
    el = E.force(E.vec_get(s, pages, z3.SignExt(32, k))[1], s)
    return tobv(E.force(el.f['page_obj_num'], s), 32)


PLAIN = ('create_cidfont_subset_cmap', '(anonymous namespace)::create_cidfont_subset_cmap', 'generate_subset', 'build_subset_width_array',
         '(anonymous namespace)::build_subset_width_array', 'FontSubsetter::generate_subset', 'current_date_string', 'PdfDrawContext::serialize')


def plain(E, st, fr, G, this, argv, e):
    rt = decay(G.tu.T(G.ret))
    if rt.nn == 'std::expected':
        return a02.rvoe_fresh(E, st, G)
    if rt.nn == 'std::basic_string':
        return StrV((('cls', 's', (G.name, uid())),))
    return E.fresh(rt, 'r%d' % uid(), st)


# ---------------------------------------------------------------- all objects, in order
def t_objects(prog, T):
    F = find(prog, WR + '::write_objects')
    E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
    st = State()
    install(E, st)
    this = fresh_this(E, st, F)
    o = prepare(E, st, this, ('object_offsets',))
    # precondition (task 'a new writer'): nothing recorded yet
    ov = o.f['object_offsets']
    E.store(st, this, o.set('object_offsets', VecV(ov.et)))
    o = E.force(E.load(st, this), st)
    docl = E.force(o.f['doc'], st)
    E.store(st, this, o.set('doc', docl))
    doc = E.force(E.load(st, docl), st)
    objs = E.force(doc.f['document_objects'], st)
    E.store(st, docl, doc.set('document_objects', objs))
    st.pc += [z3.ULT(tobv(E.vsize(objs), 64), 1 << 31), tobv(E.vsize(objs), 64) != 0]
    E.hooks['fresh'] = open_formatter

    def push(E2, s, th, num, what):
        ol = Loc(this.root, this.path + (('f', 'object_offsets'),))
        v = E2.force(E2.load(s, ol), s)
        E2.store(s, ol, VecV(v.et, v.buid, v.bsize, v.boff, v.tail + (E2.fresh(v.et, 'entry%d' % uid(), s),), v.known))
        s.ghost['wrote'] = s.ghost.get('wrote', ()) + ((num, what),)

    def fin(E2, s, fr, G, th, argv, e):
        r = a02.rvoe_fresh(E2, s, G)
        if E2.choose(2):
            s.pc.append(z3.Not(zbool(r.ok)))
            return r
        s.pc.append(zbool(r.ok))
        d, data = E2.force(E2.rv(s, argv[1]), s), E2.force(E2.rv(s, argv[2]), s)
        push(E2, s, th, tobv(E2.rv(s, argv[0]), 32), ('finished', d, data))
        return r
    E.fnhooks[WR + '::write_finished_object'] = fin

    def one(m):
        def h(E2, s, fr, G, th, argv, e):
            r = a02.rvoe_fresh(E2, s, G)
            if E2.choose(2):
                s.pc.append(z3.Not(zbool(r.ok)))
                return r
            s.pc.append(zbool(r.ok))
            push(E2, s, th, None if m in PAGE_WRITERS else tobv(E2.rv(s, argv[0]), 32), (m, tuple(argv)))
            return r
        return h
    for G in writers(prog):
        E.fnhooks[G.name] = one(G.name.split('::')[-1])
    outs = list(call_fn(E, F, [], this, st))
    lids = [l for l, L in E.loops.items() if any(a.ghost.get('wrote', ()) != b.ghost.get('wrote', ()) for b, a in L['its'])]
    E.oblige(State(), len(lids) == 1, 'one pass writes the objects', fn=F.name)
    kinds, total = set(), 1
    for l in lids[:1]:
        L = E.loops[l]
        now = lambda s: E.force(E.force(E.load(s, docl), s).f['document_objects'], s)
        ix = text.indices(E, l, lambda s: E.vsize(now(s)))
        E.oblige(State(), bool(ix), 'the pass visits every object in order', fn=F.name)
        if not ix:
            continue
        for base, a in L['its']:
            i = E.load(base, ix[0])
            w = a.ghost.get('wrote', ())[len(base.ghost.get('wrote', ())):]
            v0, v1 = member(E, base, this, 'object_offsets'), member(E, a, this, 'object_offsets')
            grown = v1.buid == v0.buid and same_term(v1.bsize, v0.bsize) and len(v1.tail) == len(v0.tail) + 1
            E.oblige(a, grown, 'every object gets exactly one cross-reference entry', fn=F.name, detail=repr(w)[:300])
            if not grown:
                continue
            E.oblige(a, tobv(E.vsize(now(a)), 64) == tobv(E.vsize(now(base)), 64), 'writing adds no objects', fn=F.name)
            el = E.force(E.vec_get(a, now(base), i)[1], a)
            total = max(total, len(decay(el.t).args[0]))
            if not isinstance(el, VarV) or not isinstance(el.idx, int):
                alt = [k for k in el.alts if text.must(E, a, tobv(el.idx, 8) == k)]
                E.oblige(a, len(alt) == 1, 'the kind of the object is decided', fn=F.name)
                k = alt[0] if len(alt) == 1 else None
            else:
                k = el.idx
            x = E.force(el.alts[k], a) if k is not None else None
            kinds.add(k)
            if not w:
                E.oblige(a, isinstance(x, SV) and x.t.nn == NS + 'DummyIndexZero', 'only the entry of object 0 has no object', fn=F.name)
                ent = E.force(v1.tail[-1], a)
                E.oblige(a, znot(zbool(E.tobool(a, E.force(ent.f['store_compressed'], a)))), 'object 0 is not in the object stream', fn=F.name)
                continue
            E.oblige(a, len(w) == 1, 'every object is written once', fn=F.name)
            num, what = w[0]
            if num is not None:
                E.oblige(a, tobv(num, 32) == z3.Extract(31, 0, tobv(i, 64)), 'an object is written under the number of its entry', fn=F.name, detail=what[0])
            nm = x.t.nn.split('::')[-1] if isinstance(x, SV) else '?'
            if what[0] in PAGE_WRITERS:
                want = {'write_pages_root': 'DelayedPages', 'write_delayed_page': 'DelayedPage'}[what[0]]
                E.oblige(a, nm == want, 'page objects are written where they are registered', fn=F.name, detail='%s for %s' % (what[0], nm))
                if what[0] == 'write_delayed_page':
                    p = E.force(E.load(a, what[1][0]), a)
                    E.oblige(a, tobv(E.force(p.f['page_num'], a), 32) == tobv(E.force(x.f['page_num'], a), 32), 'the page of this object is written', fn=F.name)
            if what[0] == 'finished':
                d, data = what[1], what[2]
                size = tobv(E.vsize(data), 64)
                if nm == 'FullPDFObject':
                    # its dictionary declares the length of its data: obligation of every add_object call
                    sd = E.force(x.f['dictionary'], a)
                    E.oblige(a, same_pieces(d.p, sd.p), 'the dictionary of the object is written', fn=F.name)
                    E.oblige(a, size == raw_size(E, a, x.f['stream']), 'the data of the object are written', fn=F.name)
                else:
                    E.oblige(a, nm == 'DeflatePDFObject', 'the kind of object is known', fn=F.name, detail=nm)
                    length_is(E, a, d, size, F.name)
    E.oblige(State(), len(kinds) == total, 'all kinds of objects are considered', fn=F.name, detail='%r of %d' % (kinds, total))
    n = 0
    for s, k, v in outs:
        if k != 'n':
            continue
        s = success(E, s, v)
        if s is None:
            continue
        n += 1
        r = E.force(E.force(E.rv(s, v), s).v, s)
        own = member(E, s, this, 'object_offsets')
        E.oblige(s, same_val(r, own), 'the recorded entries are handed on', fn=F.name)
    if not n:
        E.oblige(State(), False, 'an outcome exists', fn=F.name)


def raw_size(E, s, raw):
    raw = E.force(raw, s)
    st = E.force(raw.f['storage'], s)
    r = z3.BitVecVal(0, 64)
    for i, a in st.alts.items():
        a = E.force(a, s)
        n = tobv(E.str_len(a.p) if isinstance(a, StrV) else E.vsize(a), 64)
        r = z3.If(tobv(st.idx, 8) == i, n, r)
    return simp(r)

# ---------------------------------------------------------------- passes over the cross-reference entries
def passes(E, lid, size):
    """locations that hold the number of the visited entry: they start at 0 or 1 and grow by one up to the number of entries -> [(loc, start)]"""
    L = E.loops[lid]
    st = L['entry']
    out = []
    if L.get('breaks') or not L['its']:
        return out
    base, a = L['its'][0]
    for r, v0 in base.mem.items():
        v = st.mem.get(r)
        if isinstance(v0, (LazyV, bool)) or not z3.is_bv(v0) or v is None or isinstance(v, (LazyV, bool)) or not (isinstance(v, int) or z3.is_bv(v)):
            continue
        w = v0.size()
        start = next((k for k in (0, 1) if text.must(E, st, tobv(v, w) == k)), None)
        if start is None:
            continue
        wide = lambda x: z3.ZeroExt(64 - w, x) if w < 64 else x
        ok = True
        for b, q in L['its']:
            i, j, n = b.mem[r], q.mem.get(r), tobv(size(q), 64)
            ok = ok and z3.is_bv(i) and j is not None and text.must(E, q, z3.Implies(z3.ULE(wide(i), n), z3.And(tobv(j, w) == i + 1, z3.ULT(wide(i), n))))
        for b, q in L['exits']:
            i, n = b.mem[r], tobv(size(q), 64)
            ok = ok and text.must(E, q, z3.Implies(z3.ULE(wide(i), n), z3.UGE(wide(i), n)))
        if ok:
            out.append((Loc(r), start))
    return out


def grown_text(E, lid):
    """texts that the loop appends to: [(root, uid of the text at the loop head)]"""
    out = []
    base, a = E.loops[lid]['its'][0]
    for r, v in base.mem.items():
        if isinstance(v, StrV) and len(v.p) == 1 and isinstance(v.p[0], tuple) and v.p[0][0] == 'abs' and E.absof.get(v.p[0][1], (None,))[0] == lid:
            out.append(r)
    return out


def entries_of(E, st, args):
    """the entries given to a writer: object 0 is not in the object stream, there are fewer than 2^31"""
    v = E.force(E.load(st, args[0]), st)
    E.store(st, args[0], v)
    n = tobv(E.vsize(v), 64)
    st.pc += [n != 0, z3.ULT(n, 1 << 31)]
    e0 = E.force(E.vec_get(st, v, 0)[1], st)
    return v, n


def entry_at(E, s, v, i):
    e = E.force(E.vec_get(s, v, i)[1], s)
    return zbool(E.tobool(s, E.force(e.f['store_compressed'], s))), tobv(E.force(e.f['offset'], s), 64)


def wide(i):
    return tobv(i, 64) if not z3.is_bv(i) else z3.ZeroExt(64 - i.size(), i) if i.size() < 64 else i


def t_table(prog, T):
    F = find(prog, WR + '::write_cross_reference_table', 1)
    E = T.engine(joint=lambda root, path: 'rope')
    st = State()
    install(E, st)
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    v, n = entries_of(E, st, args)
    # without an object stream no entry points into it (write_finished_object)
    E.hooks['elem_'] = None
    file0 = st.ghost['file'].p
    done = 0
    outs = list(call_fn(E, F, args, this, st))
    for s, k, r in outs:
        if k != 'n':
            E.oblige(s, False, 'writing does not throw', fn=F.name)
            continue
        s = success(E, s, r)
        if s is None:
            continue
        for q, p in text.expand(E, s, tuple(text.unfold(E, s.ghost['file'].p))):
            a = added(E, q, p, file0)
            E.oblige(q, a is not None, 'the table is appended to the file', fn=F.name)
            if a is None:
                continue
            done += 1
            loops = [x[1] for x in a if isinstance(x, tuple) and x[0] == 'loop']
            head = tuple(x for x in a if not (isinstance(x, tuple) and x[0] == 'loop'))
            good = len(head) == 3 and head[0] == b'xref\n0 ' and head[2] == b'\n0000000000 65535 f \n'
            E.oblige(q, good and text.is_num(head[1], n) if good else False, 'the table starts with the number of entries and the free entry', fn=F.name, detail=repr(a))
            E.oblige(q, a[-1][0] == 'loop' and len(loops) == 1 if loops else n == 1, 'the entries follow', fn=F.name, detail=repr(a))
    for l in loops_with_text(E):
        ps = passes(E, l, lambda s: E.vsize(v))
        E.oblige(State(), any(x == 1 for _, x in ps), 'the table covers all entries from the first object on', fn=F.name)
        ix = [x for x, k in ps if k == 1]
        for r in grown_text(E, l)[:1]:
            for base, a in E.loops[l]['its']:
                b0 = base.mem[r].p
                if not ix:
                    continue
                i = wide(E.load(base, ix[0]))
                comp, off = entry_at(E, a, v, i)
                a.pc.append(z3.Not(comp))
                if not E.feasible(a):
                    continue
                for q, p in text.expand(E, a, E.force(a.mem[r], a).p):
                    x = added(E, q, p, b0)
                    ok = x is not None and len(x) == 2 and isinstance(x[0], tuple) and x[0][:3] == ('fmt', 'u', '010') and x[1] == b' 00000 n \n'
                    E.oblige(q, ok, 'an entry is the position in ten digits, generation 0, in use', fn=F.name, detail=repr(x))
                    if ok:
                        E.oblige(q, tobv(x[0][3], 64) == off, 'the entry is the recorded position of the object', fn=F.name)
                        E.oblige(q, z3.ULT(tobv(x[0][3], 64), 10 ** 10), 'the position fits the ten digits of the table', fn=F.name)
    if not done:
        E.oblige(State(), False, 'a table is written', fn=F.name)


def loops_with_text(E):
    return [l for l, L in E.loops.items() if L['its'] and grown_text(E, l)]


def t_objstm(prog, T):
    F = find(prog, WR + '::write_main_objstm', 1)
    E = T.engine(joint=lambda root, path: 'rope')
    st = State()
    install(E, st)
    this = fresh_this(E, st, F)
    o = prepare(E, st, this, ('objstm_stream', 'compressed_object_number'))
    args = fresh_args(E, st, F)
    v, n = entries_of(E, st, args)
    st.pc.append(z3.Not(entry_at(E, st, v, 0)[0]))
    file0 = st.ghost['file'].p
    outs = list(call_fn(E, F, args, this, st))
    lids = loops_with_text(E)
    E.oblige(State(), len(lids) == 1, 'one pass lists the objects of the stream', fn=F.name)
    count, start = [], {}
    for l in lids[:1]:
        ps = passes(E, l, lambda s: E.vsize(v))
        E.oblige(State(), bool(ps), 'all entries are visited', fn=F.name)
        if not ps:
            continue
        # a variable that counts the listed entries
        L = E.loops[l]
        base, a = L['its'][0]
        for r, v0 in base.mem.items():
            e0 = L['entry'].mem.get(r)
            if z3.is_bv(v0) and isinstance(e0, (int, z3.BitVecRef)) and not isinstance(e0, bool) and text.must(E, L['entry'], tobv(e0, v0.size()) == 0):
                ok = v0.size() >= 32         # fewer than 2^31 objects: the counter does not wrap
                for b, q in L['its']:
                    comp, off = entry_at(E, q, v, wide(E.load(b, ps[0][0])))
                    w = b.mem[r].size() if z3.is_bv(b.mem[r]) else 0
                    ok = ok and w and text.must(E, q, tobv(q.mem[r], w) == b.mem[r] + z3.If(comp, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
                if ok:
                    count.append(r)
        E.oblige(State(), bool(count), 'the listed entries are counted', fn=F.name)
        for r in grown_text(E, l)[:1]:
            for base, a in L['its']:
                i = wide(E.load(base, ps[0][0]))
                comp, off = entry_at(E, a, v, i)
                for q, p in text.expand(E, a, E.force(a.mem[r], a).p):
                    x = added(E, q, p, base.mem[r].p)
                    E.oblige(q, x is not None, 'entries are appended', fn=F.name)
                    if not x:
                        E.oblige(q, z3.Not(comp), 'every object of the stream is listed', fn=F.name)
                        continue
                    ok = len(x) == 4 and isinstance(x[0], tuple) and x[0][0] == 'fmt' and x[1] == b' ' and isinstance(x[2], tuple) and x[2][0] == 'fmt' and x[3] in (b' ', b'\n')
                    E.oblige(q, z3.And(comp, text.is_num(x[0], i), text.is_num(x[2], off)) if ok else False,
                             'an object of the stream is listed with its number and its position in the stream', fn=F.name, detail=repr(x))
    done = 0
    for s, k, r in outs:
        if k != 'n':
            continue
        s = success(E, s, r)
        if s is None:
            continue
        for q, p in text.expand(E, s, s.ghost['file'].p):
            a = added(E, q, p, file0)
            h = header(E, q, a) if a is not None else None
            E.oblige(q, h is not None, 'the object starts with its number', fn=F.name, detail=repr(a))
            if h is None:
                continue
            done += 1
            E.oblige(q, text.is_num(h[0], o.f['compressed_object_number']), 'the object stream has the number the entries refer to', fn=F.name)
            sp = stream_object(E, q, h[1], F.name)
            if sp is None:
                continue
            d, data, raw = sp
            ln = text.one(d, b'/Length')
            E.oblige(q, ln is not None and text.is_num(ln, E.str_len(data)), 'the declared length is the number of data bytes', fn=F.name, detail=repr(ln))
            first = text.one(d, b'/First')
            tail = raw[len(raw) - len(o.f['objstm_stream'].p):]
            E.oblige(q, same_pieces(tail, o.f['objstm_stream'].p), 'the stream ends with the objects', fn=F.name, detail=repr(raw))
            lead = raw[:len(raw) - len(tail)]
            E.oblige(q, first is not None and text.is_num(first, E.str_len(lead)), 'the objects start at the declared position', fn=F.name, detail='%r %r' % (first, lead))
            full = text.unfold(E, lead)
            E.oblige(q, len(full) in (1, 2) and full[0][0] == 'loop' and all(isinstance(x, bytes) and not x.strip() for x in full[1:]), 'the list of objects comes first', fn=F.name, detail=repr(full))
            N = text.one(d, b'/N')
            # the counter is gone by now: its values at the exits of the pass
            fs = [text.is_num(N, x.mem[c]) for l in lids for _, x in E.loops[l]['exits'] for c in count if c in x.mem] if N is not None else []
            E.oblige(q, any(text.must(E, q, f) for f in fs), 'the number of objects in the stream is declared', fn=F.name, detail=repr(N))
            E.oblige(q, text.one(d, b'/Type') == b'/ObjStm', 'the stream is an object stream', fn=F.name)
    if not done:
        E.oblige(State(), False, 'an object stream is written', fn=F.name)


def stream_object(E, q, p, fn):
    """(dictionary, data pieces, pieces of the data before compression) of 'dict stream data endstream endobj' """
    sp = split(p, b'stream\n')
    E.oblige(q, sp is not None, 'the data start after the dictionary', fn=fn, detail=repr(p)[:300])
    if sp is None:
        return None
    dic, rest = sp
    good = bool(rest) and isinstance(rest[-1], bytes) and rest[-1] == b'\nendstream\nendobj\n'
    E.oblige(q, good, 'the data end before endstream', fn=fn, detail=repr(rest)[:300])
    if not good:
        return None
    data = rest[:-1]
    for q2, ts in text.tokens(E, q, dic):
        try:
            vals = text.parse(ts)
        except Unsupported as x:
            E.oblige(q, False, 'the dictionary of a stream can be read', fn=fn, detail='%s: %r' % (x, ts))
            return None
        break
    good = len(vals) == 1 and isinstance(vals[0], tuple) and vals[0][0] == 'dict'
    E.oblige(q, good, 'a stream has one dictionary', fn=fn, detail=repr(ts)[:300])
    if not good:
        return None
    d = vals[0][1]
    flt = text.one(d, b'/Filter')
    raw = data
    for b, v in q.ghost.get('flate', ()):
        if len(data) == 1 and isinstance(data[0], tuple) and data[0][0] == 'in' and data[0][1] == 'v%s' % b:
            E.oblige(q, flt == b'/FlateDecode', 'compressed data are declared as such', fn=fn)
            raw = v.p if isinstance(v, StrV) else v
            break
    else:
        E.oblige(q, flt is None, 'plain data have no filter', fn=fn)
    return d, data, raw


def big_endian(E, s, bs, v, w):
    """formula: the bytes are the big endian representation of v"""
    return z3.And(*[tobv(x, 8) == z3.Extract(8 * (len(bs) - i) - 1, 8 * (len(bs) - i - 1), tobv(v, w)) for i, x in enumerate(bs)])


def t_xrefstream(prog, T):
    F = find(prog, WR + '::write_cross_reference_stream', 2)
    E = T.engine(joint=lambda root, path: 'rope')
    st = State()
    install(E, st)
    E.fnhooks[NS + 'create_trailer_id'] = E.fnhooks[NS + '(anonymous namespace)::create_trailer_id'] = plain
    this = fresh_this(E, st, F)
    o = prepare(E, st, this, ('compressed_object_number',))
    con = tobv(o.f['compressed_object_number'], 32)
    args = fresh_args(E, st, F)
    v, n = entries_of(E, st, args)
    st.pc.append(con == z3.Extract(31, 0, n))           # established by write_to_file_impl
    opos = tobv(E.force(E.rv(st, args[1]), st), 64)
    file0 = st.ghost['file'].p
    here = tobv(E.str_len(file0), 64)
    outs = list(call_fn(E, F, args, this, st))
    checked = set()
    done = 0
    for s, k, r in outs:
        if k != 'n':
            continue
        s = success(E, s, r)
        if s is None:
            continue
        for q, p in text.expand(E, s, s.ghost['file'].p):
            a = added(E, q, p, file0)
            h = header(E, q, a) if a is not None else None
            E.oblige(q, h is not None, 'the object starts with its number', fn=F.name, detail=repr(a))
            if h is None:
                continue
            done += 1
            E.oblige(q, text.is_num(h[0], n + 1), 'the cross-reference stream is the last object', fn=F.name)
            sp = stream_object(E, q, h[1], F.name)
            if sp is None:
                continue
            d, data, raw = sp
            ln = text.one(d, b'/Length')
            E.oblige(q, ln is not None and text.is_num(ln, E.str_len(data)), 'the declared length is the number of data bytes', fn=F.name, detail=repr(ln))
            sz = text.one(d, b'/Size')
            E.oblige(q, sz is not None and text.is_num(sz, n + 2), 'the declared size is the number of objects', fn=F.name)
            E.oblige(q, text.one(d, b'/Type') == b'/XRef' and b'/Index' not in d, 'the stream covers all objects', fn=F.name)
            W = text.one(d, b'/W')
            E.oblige(q, W is not None and W[0] == 'arr' and [x for x in W[1]] == [b'1', b'4', b'4'] or W is not None and W[0] == 'arr' and len(W[1]) == 3 and
                     all(text.must(E, q, text.is_num(x, y)) for x, y in zip(W[1], (1, 4, 4))), 'the widths of the fields are declared', fn=F.name, detail=repr(W))
            vec = raw
            if not isinstance(vec, VecV):
                E.oblige(q, False, 'the entries are the compressed data', fn=F.name, detail=repr(raw))
                continue
            # the two objects that are not in the table of the document
            tail = [E.force(x, q) for x in vec.tail]
            base = vec.bsize
            lid = [l for l in E.loops for b, a2 in E.loops[l]['its'][:1] if vecroots(E, l)]
            if lid and not (isinstance(base, int) and base == 0):
                ok = len(tail) == 18
                lead = []
            else:
                ok = len(tail) == 27 and text.must(E, q, n == 1)
                lead, tail = tail[:9], tail[9:]
            E.oblige(q, ok, 'the entries of the object stream and of the cross-reference stream come last', fn=F.name, detail='%d bytes after %r' % (len(vec.tail), base))
            if not ok:
                continue
            E.oblige(q, z3.And(tobv(tail[0], 8) == 1, big_endian(E, q, tail[1:5], z3.Extract(31, 0, opos), 32), big_endian(E, q, tail[5:9], 0, 32), z3.ULT(opos, 1 << 32)),
                     'the entry of the object stream is its position', fn=F.name)
            E.oblige(q, z3.And(tobv(tail[9], 8) == 1, big_endian(E, q, tail[10:14], z3.Extract(31, 0, here), 32), big_endian(E, q, tail[14:18], 0, 32), z3.ULT(here, 1 << 32)),
                     'the entry of the cross-reference stream is its position', fn=F.name)
    for l in E.loops:
        if not E.loops[l]['its'] or not vecroots(E, l):
            continue
        ps = passes(E, l, lambda s: E.vsize(v))
        ix = [x for x, k in ps if k == 1]
        E.oblige(State(), bool(ix), 'all entries from the first object on are visited', fn=F.name)
        if not ix:
            continue
        L = E.loops[l]
        r = vecroots(E, l)[0]
        e0 = E.force(L['entry'].mem[r], L['entry'])
        ok = isinstance(e0.bsize, int) and e0.bsize == 0 and len(e0.tail) == 9
        E.oblige(L['entry'], z3.And(tobv(e0.tail[0], 8) == 0, *[tobv(x, 8) == 0 for x in e0.tail[1:5]]) if ok else False, 'the first entry is free', fn=F.name, detail=repr(e0))
        # a variable that counts the objects of the stream
        base, a = L['its'][0]
        count = []
        for rr, v0 in base.mem.items():
            c0 = L['entry'].mem.get(rr)
            if z3.is_bv(v0) and isinstance(c0, (int, z3.BitVecRef)) and not isinstance(c0, bool) and text.must(E, L['entry'], tobv(c0, v0.size()) == 0):
                ok = v0.size() >= 32         # fewer than 2^31 objects: the counter does not wrap
                for b, q in L['its']:
                    comp, off = entry_at(E, q, v, wide(E.load(b, ix[0])))
                    w = b.mem[rr].size() if z3.is_bv(b.mem[rr]) else 0
                    ok = ok and w and text.must(E, q, tobv(q.mem[rr], w) == b.mem[rr] + z3.If(comp, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
                if ok:
                    count.append(rr)
        E.oblige(State(), bool(count), 'the objects of the stream are counted', fn=F.name)
        for base, a in L['its']:
            comp, off = entry_at(E, a, v, wide(E.load(base, ix[0])))
            v0, v1 = E.force(base.mem[r], base), E.force(a.mem[r], a)
            t = [E.force(x, a) for x in v1.tail[len(v0.tail):]]
            ok = v1.buid == v0.buid and len(t) == 9
            E.oblige(a, ok, 'an entry has nine bytes', fn=F.name, detail=repr(v1))
            if not ok:
                continue
            c = [big_endian(E, a, t[5:9], z3.Extract(31, 0, wide(base.mem[x])), 32) for x in count]
            E.oblige(a, z3.Implies(comp, z3.And(tobv(t[0], 8) == 2, big_endian(E, a, t[1:5], con, 32), z3.Or(*c) if c else False)),
                     'the entry of an object in the stream names the stream and its place there', fn=F.name)
            E.oblige(a, z3.Implies(z3.Not(comp), z3.And(tobv(t[0], 8) == 1, z3.ULT(off, 1 << 32), big_endian(E, a, t[1:5], z3.Extract(31, 0, off), 32), big_endian(E, a, t[5:9], 0, 32))),
                     'the entry of an object is its position in the file', fn=F.name)
    if not done:
        E.oblige(State(), False, 'a cross-reference stream is written', fn=F.name)


def vecroots(E, l):
    """byte sequences that the loop appends to"""
    out = []
    L = E.loops[l]
    base, a = L['its'][0]
    for r, v in base.mem.items():
        w = a.mem.get(r)
        if isinstance(v, VecV) and isinstance(w, VecV) and v.buid == w.buid and len(w.tail) > len(v.tail) and v.et is not None and (v.et.w == 8 or 'byte' in repr(v.et)):
            out.append(r)
    return out


# ---------------------------------------------------------------- streams given to the document are declared with their size
def creators(prog):
    """functions that construct finished objects"""
    out = []
    for F in a01.functions(prog):
        if F.name.startswith(WR + '::'):
            continue
        for d in a01.walk(F.body):
            if isinstance(d.get('t'), int) and d.get('e'):
                try:
                    t = F.tu.T(d['t'])
                except Exception:
                    continue
                if t.k == 'rec' and t.nn == NS + 'FullPDFObject':
                    out.append(F)
                    break
    return out


def t_creator(F):
    def run(prog, T):
        E = T.engine(joint=lambda root, path: 'rope')
        st = State()
        install(E, st)
        E.hooks['fresh'] = open_formatter
        hit = []

        def add(E2, s, fr, G, this, argv, e):
            v = E2.force(E2.rv(s, argv[0]), s)
            if not isinstance(v, VarV):
                raise Unsupported('object %r' % (v,))
            for i, a in a01.alts_of(v):
                a = E2.force(a, s) if a is not None else None
                if not isinstance(a, SV) or 'dictionary' not in a.f:
                    continue
                hit.append(1)
                size = raw_size(E2, s, a.f['stream'])
                for q, has in cases(E2, s, tobv(size, 64) != 0):
                    if has:
                        length_is(E2, q, E2.force(a.f['dictionary'], q), size, F.name)
            rt = decay(G.tu.T(G.ret))
            return a02.rvoe_fresh(E2, s, G) if rt.nn == 'std::expected' else E2.fresh(rt, 'obj%d' % uid(), s)
        E.fnhooks[DOC + '::add_object'] = add
        own = {G.name for G in a01.functions(prog)}
        for G in prog.fns:
            m = G.name.split('::')[-1]
            if G.name != F.name and G.name not in E.fnhooks and (G.name in own or G.name.startswith(NS) and m in a01.PLAIN):
                E.fnhooks[G.name] = a01.callee

        def one(E2, s, fr, G, this, argv, e):
            f = E2.objfmt
            for i, q in enumerate(G.params):
                if a01.rec_of(G.tu.T(q['t'])).nn == objfmt.OF:
                    return f.items(s, argv[i], (('cls', 'pairs:', ('by', G.name, uid())) if G.name in a01.PAIR_WRITERS else ('cls', 'obj!', ('by', G.name, uid())),))
            raise Unsupported('no formatter parameter')
        for m in tuple(a01.VALUE_WRITERS) + tuple(a01.PAIR_WRITERS):
            E.fnhooks[m] = one
        for m in PLAIN:
            E.fnhooks.setdefault(NS + m, plain)
        for s, k, v in call_fn(E, F, fresh_args(E, st, F), None, st):
            pass
        if not hit:
            E.oblige(State(), False, 'an object is added', fn=F.name)
    return run


# ---------------------------------------------------------------- the table of objects in the document
READ = ('size', 'empty', 'at', 'operator[]', 'begin', 'end', 'cbegin', 'cend', 'back', 'front', 'capacity', 'reserve')
OBJS = 'document_objects'


def uses(F, names):
    """[(member, chain of enclosing nodes, innermost last)]"""
    out = []

    def go(n, ch):
        if isinstance(n, dict):
            if n.get('e') == 'mem' and n.get('f') in names:
                out.append((n['f'], list(ch)))
            for v in n.values():
                go(v, ch + [n])
        elif isinstance(n, list):
            for v in n:
                go(v, ch)
    go(F.body, [])
    return out


def only_from(prog, roots):
    """functions that are reached from these functions only (helpers of theirs)"""
    callers = {}
    for F in prog.fns:
        if F.body is None:
            continue
        for G, n in callgraph.callees(prog, F):
            if G is not None:
                callers.setdefault(G.name, set()).add(F.name)
    ok = set(roots)
    grown = True
    while grown:
        grown = False
        for g, cs in callers.items():
            if g not in ok and cs and cs <= ok:
                ok.add(g)
                grown = True
    return ok


def t_table_frame(prog, T):
    """nobody else changes the object table, or the fields that say where the page objects are"""
    E = T.engine()
    grow = only_from(prog, (DOC + '::add_object', DOC + '::init'))
    init = only_from(prog, (DOC + '::init',))
    page = only_from(prog, (DOC + '::add_page',))
    seen = 0
    for F in prog.fns:
        if F.body is None:
            continue
        for m, ch in uses(F, (OBJS, 'pages_object', 'page_obj_num')):
            seen += 1
            up = [x for x in reversed(ch)]
            k = 0
            read = False
            while k < len(up) and up[k].get('e') == 'cast':
                read = read or up[k].get('ck') == 'LValueToRValue'
                k += 1
            p = up[k] if k < len(up) else {}
            if m != OBJS:
                ok = read or F.name in init
                E.oblige(State(), ok, 'the numbers of the page objects are not changed', fn=F.name, detail=m)
                continue
            nm = p['f'].get('n', '').split('::')[-1] if isinstance(p.get('f'), dict) else ''
            ok = nm in READ
            if ok and nm in ('at', 'operator[]', 'begin', 'end', 'back', 'front'):
                q = next((x for x in up[k + 1:] if x.get('e') != 'cast'), {})
                qn = q['f'].get('n', '').split('::')[-1] if isinstance(q.get('f'), dict) else ''
                ok = qn in ('get', 'get_if', 'visit', 'holds_alternative', 'index', 'valueless_by_exception') or is_const(F, p)
                for x in up[k + 1:]:
                    if x.get('e') != 'cast':
                        break
                    ok = ok or is_const(F, x) or x.get('ck') == 'LValueToRValue'
            E.oblige(State(), ok or F.name in grow, 'only adding an object changes the object table', fn=F.name, detail='%s %s' % (m, nm))
        for d in callgraph.walk(F.body):
            if d.get('e') in ('init', 'ctor') and isinstance(d.get('t'), int):
                t = F.tu.T(d['t'])
                if t.k == 'rec' and t.nn in (NS + 'DummyIndexZero', NS + 'DelayedPages'):
                    E.oblige(State(), F.name in init, 'the page tree has one object', fn=F.name, detail=t.nn)
                if t.k == 'rec' and t.nn == NS + 'DelayedPage':
                    E.oblige(State(), F.name in page, 'page objects come from added pages', fn=F.name, detail=t.nn)
    if seen < 10:
        E.oblige(State(), False, 'the object table is found', fn=DOC)


def is_const(F, n):
    """expression or call with a type that does not allow changes"""
    try:
        f = n.get('f')
        t = F.tu.T(f['rt']) if isinstance(f, dict) and 'rt' in f else F.tu.T(n['t'])
    except Exception:
        return False
    while t is not None and t.k in ('ref', 'ptr', 'rref'):
        t = t.t
    return bool(t is not None and getattr(t, 'const', False))


def t_init(prog, T):
    """a new document: object 0 is the unused one, the page tree is registered where pages_object says"""
    n = 0
    for F in findall(prog, DOC + '::PdfDocument'):
        if F.body is None or F.params and 'PdfDocument' in repr(F.tu.T(F.params[0]['t'])):
            continue
        E = T.engine()
        st = State()
        this = fresh_this(E, st, F)
        for s, k, v in call_fn(E, F, fresh_args(E, st, F), this, st):
            if k != 'n':
                continue
            n += 1
            E.oblige(s, simp(tobv(E.vsize(member(E, s, this, OBJS)), 64) == 0), 'a new document has no objects', fn=F.name)
            E.oblige(s, simp(tobv(E.vsize(member(E, s, this, 'pages')), 64) == 0), 'a new document has no pages', fn=F.name)
    F = find(prog, DOC + '::init')
    E = T.engine()
    st = State()
    this = fresh_this(E, st, F)
    o = prepare(E, st, this, (OBJS,))
    E.store(st, this, o.set(OBJS, VecV(o.f[OBJS].et)))
    ol = Loc(this.root, this.path + (('f', OBJS),))

    def append(E2, s, fr, G, th, argv, e):
        """contract: objects are appended, pages_object stays (task 'object table')"""
        v = E2.force(E2.load(s, ol), s)
        k = z3.BitVec('more%d' % uid(), 64)
        s.pc.append(z3.ULT(k, 1 << 20))
        s.ghost['log'] = s.ghost.get('log', ()) + (('more', E2.vsize(v)),)
        E2.store(s, ol, VecV(v.et, uid(), simp(tobv(E2.vsize(v), 64) + k)))
        rt = decay(G.tu.T(G.ret))
        return VOID if rt.k == 'void' else a02.rvoe_fresh(E2, s, G) if rt.nn == 'std::expected' else E2.fresh(rt, 'r%d' % uid(), s)
    own = {G.name for G in a01.functions(prog)} | {DOC + '::add_object', DOC + '::add_icc_profile'}
    for G in prog.fns:
        if G.name in own and G.name != F.name:
            E.fnhooks[G.name] = append

    def pushed(E2, s, v, x, *rest):
        if v.et is not None and decay(v.et).nn == 'std::variant':
            s.ghost['log'] = s.ghost.get('log', ()) + (('push', E2.vsize(v), E2.force(x, s)),)
    E.hooks['push'] = pushed
    kinds = 0
    for s, k, v in call_fn(E, F, [], this, st):
        if k != 'n':
            continue
        s = success(E, s, v)
        if s is None:
            continue
        kinds += 1
        log = s.ghost.get('log', ())
        ps = [(tobv(p, 64), kind_name(E, s, x[0])) for w, p, *x in log if w == 'push']
        E.oblige(s, bool(log) and log[0][0] == 'push' and ps and ps[0][1] == 'DummyIndexZero', 'object 0 is the unused one', fn=F.name, detail=repr(ps))
        E.oblige(s, len([1 for _, x in ps if x == 'DummyIndexZero']) == 1, 'there is one unused object', fn=F.name)
        pg = [p for p, x in ps if x == 'DelayedPages']
        E.oblige(s, len(pg) == 1, 'the page tree has one object', fn=F.name, detail=repr(ps))
        if len(pg) == 1:
            E.oblige(s, z3.SignExt(32, tobv(member(E, s, this, 'pages_object'), 32)) == pg[0], 'the object of the page tree is where pages_object says', fn=F.name)
    if not n or not kinds:
        E.oblige(State(), False, 'a document is set up', fn=F.name)


def kind_name(E, s, x):
    if isinstance(x, VarV):
        if not isinstance(x.idx, int):
            return '?'
        x = E.force(x.alts.get(x.idx), s)
    return x.t.nn.split('::')[-1] if isinstance(x, SV) else '?'


# ---------------------------------------------------------------- trailers and the whole file
def t_trailer(which):
    def run(prog, T):
        F = find(prog, WR + '::' + which, 1)
        E = T.engine(joint=lambda root, path: 'rope')
        st = State()
        install(E, st)
        for n in ('create_trailer_id', '(anonymous namespace)::create_trailer_id'):
            E.fnhooks[NS + n] = plain
        this = fresh_this(E, st, F)
        args = fresh_args(E, st, F)
        pos = E.force(E.rv(st, args[0]), st)
        file0 = st.ghost['file'].p
        o = E.force(E.load(st, this), st)
        docl = E.force(o.f['doc'], st)
        E.store(st, this, o.set('doc', docl))
        doc = E.force(E.load(st, docl), st)
        objs = E.force(doc.f['document_objects'], st)
        E.store(st, docl, doc.set('document_objects', objs))
        st.pc.append(z3.ULT(tobv(E.vsize(objs), 64), 1 << 31))
        done = 0
        for s, k, v in call_fn(E, F, args, this, st):
            if k != 'n':
                E.oblige(s, False, 'writing does not throw', fn=F.name)
                continue
            s = success(E, s, v)
            if s is None:
                continue
            for q, p in text.expand(E, s, tuple(text.unfold(E, s.ghost['file'].p))):
                a = added(E, q, p, file0)
                sp = split(a, b'startxref\n') if a is not None else None
                ok = sp is not None and len(sp[1]) == 2 and sp[1][1] == b'\n%%EOF\n'
                E.oblige(q, ok and text.is_num(sp[1][0], pos, True) if ok else False, 'the file ends with the position of the cross-reference data', fn=F.name, detail=repr(a))
                done += 1
                if which != 'write_oldstyle_trailer' or not ok:
                    continue
                t = split(sp[0], b'trailer\n')
                E.oblige(q, t is not None and t[0] == (), 'the trailer follows the table', fn=F.name, detail=repr(sp[0]))
                if t is None:
                    continue
                for q2, ts in text.tokens(E, q, t[1]):
                    try:
                        vals = text.parse(ts)
                    except Unsupported as x:
                        E.oblige(q2, False, 'the trailer can be read', fn=F.name, detail=str(x))
                        continue
                    sz = text.one(vals[0][1], b'/Size') if vals and vals[0][0] == 'dict' else None
                    E.oblige(q2, sz is not None and text.is_num(sz, E.vsize(objs)), 'the declared size is the number of objects', fn=F.name, detail=repr(sz))
        if not done:
            E.oblige(State(), False, 'a trailer is written', fn=F.name)
    return run


def t_file(prog, T):
    """the positions handed to the cross-references and the trailer are those of the parts of the file"""
    F = find(prog, WR + '::write_to_file_impl')
    E = T.engine()
    st = State()
    install(E, st)
    this = fresh_this(E, st, F)
    o = prepare(E, st, this, ('use_xref', 'object_offsets', 'objstm_stream'))
    pos = []

    def part(m):
        def h(E2, s, fr, G, th, argv, e):
            r = a02.rvoe_fresh(E2, s, G)
            if E2.choose(2):
                s.pc.append(z3.Not(zbool(r.ok)))
                return r
            s.pc.append(zbool(r.ok))
            here = s.ghost['file'].p
            vals = tuple(E2.force(E2.rv(s, a), s) for a in argv)
            con = E2.force(E2.force(E2.load(s, this), s).f['compressed_object_number'], s)
            s.ghost['parts'] = s.ghost.get('parts', ()) + ((m, here, vals, con, r.v),)
            s.ghost['file'] = StrV(E2.cat(here, (('cls', 'part', (m, uid())),)))
            if m == 'write_objects':
                vec = E2.force(r.v, s)
                r = ExpV(r.t, r.ok, vec, r.e)
                s.ghost['parts'] = s.ghost['parts'][:-1] + ((m, here, vals, con, vec),)
            if m in ('write_header', 'create_catalog'):
                w = E2.force(E2.load(s, this), s)
                for n in ('object_offsets', 'objstm_stream'):
                    E2.oblige(s, same_val(E2.force(w.f[n], s), o.f[n]), 'nothing is recorded before the objects are written', fn=F.name)
            return r
        return h
    names = ('write_header', 'write_objects', 'write_main_objstm', 'write_cross_reference_stream', 'write_newstyle_trailer', 'write_cross_reference_table', 'write_oldstyle_trailer')
    for m in names:
        E.fnhooks[WR + '::' + m] = part(m)
    E.fnhooks[DOC + '::create_catalog'] = part('create_catalog')
    seen = set()
    for s, k, v in call_fn(E, F, [], this, st):
        if k != 'n':
            E.oblige(s, False, 'writing does not throw', fn=F.name)
            continue
        s = success(E, s, v)
        if s is None:
            continue
        P = {m: (here, vals, con, rv) for m, here, vals, con, rv in s.ghost.get('parts', ())}
        order = [m for m, *_ in s.ghost.get('parts', ())]
        ok = len(P) == len(order) and 'write_objects' in P
        E.oblige(s, ok, 'every part is written once', fn=F.name, detail=' '.join(order))
        if not ok:
            continue
        entries = P['write_objects'][3]
        xref = zbool(E.tobool(s, o.f['use_xref']))
        for q, new in cases(E, s, xref):
            want = ['write_header', 'create_catalog', 'write_objects'] + (['write_main_objstm', 'write_cross_reference_stream', 'write_newstyle_trailer'] if new else
                                                                          ['write_cross_reference_table', 'write_oldstyle_trailer'])
            E.oblige(q, [m for m in order if m != 'create_catalog'] == [m for m in want if m != 'create_catalog'] and
                     ('create_catalog' in order and order.index('create_catalog') < order.index('write_objects')), 'the parts of the file are in order', fn=F.name, detail=' '.join(order))
            xp = 'write_cross_reference_stream' if new else 'write_cross_reference_table'
            tr = 'write_newstyle_trailer' if new else 'write_oldstyle_trailer'
            if xp not in P or tr not in P:
                continue
            seen.add(new)
            E.oblige(q, tobv(P[tr][1][0], 64) == tobv(E.str_len(P[xp][0]), 64), 'the trailer gets the position of the cross-reference data', fn=F.name)
            E.oblige(q, same_val(P[xp][1][0], entries), 'the cross-references are made of the recorded entries', fn=F.name)
            if new and 'write_main_objstm' in P:
                E.oblige(q, same_val(P['write_main_objstm'][1][0], entries), 'the object stream is made of the recorded entries', fn=F.name)
                E.oblige(q, tobv(P[xp][1][1], 64) == tobv(E.str_len(P['write_main_objstm'][0]), 64), 'the cross-references get the position of the object stream', fn=F.name)
                for m in ('write_main_objstm', xp):
                    E.oblige(q, tobv(P[m][2], 32) == z3.Extract(31, 0, tobv(E.vsize(entries), 64)), 'the object stream is numbered after the objects', fn=F.name, detail=m)
    E.oblige(State(), len(seen) == 2, 'both file formats are written', fn=F.name)


def t_new(prog, T):
    """a new writer has recorded nothing, and the calls down to write_to_file_impl keep it so"""
    n = 0
    for F in findall(prog, WR + '::PdfWriter'):
        if F.body is None or len(F.params) != 1 or 'PdfWriter' in repr(F.tu.T(F.params[0]['t'])):
            continue
        E = T.engine()
        st = State()
        this = fresh_this(E, st, F)
        for s, k, v in call_fn(E, F, fresh_args(E, st, F), this, st):
            n += 1
            o = E.force(E.load(s, this), s)
            off, os = E.force(o.f['object_offsets'], s), E.force(o.f['objstm_stream'], s)
            E.oblige(s, simp(tobv(E.vsize(off), 64) == 0), 'a new writer has no entries', fn=F.name)
            E.oblige(s, simp(tobv(E.str_len(os.p), 64) == 0), 'a new writer has no objects in the object stream', fn=F.name)
    for F in findall(prog, WR + '::write_to_file'):
        E = T.engine()
        from .. import fsmodel
        fsmodel.install(E)
        st = State()
        this = fresh_this(E, st, F)
        o = prepare(E, st, this, ('object_offsets', 'objstm_stream', 'compressed_object_number'))
        hit = []

        def inner(E2, s, fr, G, th, argv, e):
            if G.name == F.name and len(G.params) == len(F.params) and a07.same_sig(F, G):
                return NotImplemented
            hit.append(1)
            w = E2.force(E2.load(s, this), s)
            E2.oblige(s, isinstance(th, Loc) and th.same(this), 'the same writer goes on', fn=F.name)
            for m in ('object_offsets', 'objstm_stream'):
                E2.oblige(s, same_val(E2.force(w.f[m], s), o.f[m]), 'nothing is recorded before the objects are written', fn=F.name)
            return a02.rvoe_fresh(E2, s, G)
        E.fnhooks[WR + '::write_to_file'] = inner
        E.fnhooks[WR + '::write_to_file_impl'] = inner
        for s, k, v in call_fn(E, F, None, this, st):
            n += 1
        E.oblige(State(), len(hit) > 0, 'the content is written', fn=F.name)
    if n < 3:
        E.oblige(State(), False, 'the writer is found', fn=WR)



def cases(E, s, f):
    out = []
    for val in (True, False):
        q = s.copy()
        q.pc.append(f if val else z3.Not(f))
        if E.feasible(q):
            out.append((q, val))
    return out


def frame(E, s, pre, post, but):
    from . import a13
    return a13.frame(E, s, pre, post, but)


def tasks(prog, tier):
    ts = [Task('PdfWriter::write_finished_object', t_finished, 100, 10), Task('PdfWriter::write_objects', t_objects, 200, 20)]
    ts += [Task('PdfWriter::write_cross_reference_table', t_table, 100, 5), Task('PdfWriter::write_main_objstm', t_objstm, 100, 10),
           Task('PdfWriter::write_cross_reference_stream', t_xrefstream, 200, 10), Task('PdfWriter::write_oldstyle_trailer', t_trailer('write_oldstyle_trailer'), 100, 2),
           Task('PdfWriter::write_newstyle_trailer', t_trailer('write_newstyle_trailer'), 100, 1), Task('PdfWriter::write_to_file_impl', t_file, 100, 8),
           Task('a new writer', t_new, 100, 8)]
    from . import a13
    ts += [Task('object table', t_table_frame, 100, 10), Task('PdfDocument::init', t_init, 200, 5), Task('PdfDocument::add_object', a13.t_add_object, 60, 3),
           Task('PdfDocument::add_page', a13.t_add_page, 100, 10)]
    for F in creators(prog):
        ts.append(Task('object %s' % F.name[len(NS):], t_creator(F), 200, 2))
    for F in writers(prog):
        ts.append(Task('object writer %s' % F.name.split('::')[-1], t_writer(F), 200, 2))
    return ts


def replay(tier, seed):
    return native.run_harness('h_doc', [tier, str(seed), 'A05'])


HOW = 'harness/h_doc.cpp with third argument A05'
ASSUME = ['fwrite writes the bytes it was given or reports an error, ftell returns the number of bytes written so far; write_bytes is under contract A07',
          'zlib: the compressed data decompress to the input',
          'the file has fewer than 2^40 bytes and the document fewer than 2^31 objects',
          'an open dictionary kept in a document object has neither /Length nor /Filter (decided by A01)',
          'create_subset_cmap, the subset width array, the generated font, the dates and the document id are text or stream data without influence on positions']
