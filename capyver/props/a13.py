"""A13: annotations and structure items are used by at most one page, and everything a page uses is registered with it."""
from ..spec import *
from .. import objfmt, text, native
from . import a02

NS = 'capypdf::internal::'
DOC = NS + 'PdfDocument'
DC = NS + 'PdfDrawContext'
WR = NS + 'PdfWriter'


def root_of(E, u):
    while u in E.mapfrom:
        u = E.mapfrom[u]
    return u


def idof(E, s, v):
    v = E.force(E.rv(s, v) if isinstance(v, Loc) else v, s)
    return tobv(E.force(v.f['id'], s), 32) if isinstance(v, SV) else tobv(v, 32)


def events(E):
    """ghost trace of table lookups and of elements visited"""
    def look(E2, s, m, key, found):
        if isinstance(key, SV) and 'id' in key.f:
            s.ghost['ev'] = s.ghost.get('ev', ()) + (('look', root_of(E2, m.uid), idof(E2, s, key), found),)

    def it(E2, s, m, v):
        v = E2.force(v, s)
        if isinstance(v, SV) and 'id' in v.f:
            s.ghost['ev'] = s.ghost.get('ev', ()) + (('elem', m.uid, idof(E2, s, v)),)
    E.hooks['maplookup'] = look
    E.hooks['mapiter'] = it
    E.hooks['mark_loops'] = True


def since(base, a):
    return a.ghost.get('ev', ())[len(base.ghost.get('ev', ())):]


def counters(E, lid):
    """locations that start at 0 and grow by one with every iteration"""
    L = E.loops[lid]
    out = []
    for base, a in L['its'][:1]:
        for r, v0 in base.mem.items():
            v = L['entry'].mem.get(r)
            if not z3.is_bv(v0) or v is None or r not in a.mem or a.mem[r] is v0 or isinstance(v, LazyV):
                continue
            if text.must(E, L['entry'], tobv(v, v0.size()) == 0):
                out.append(r)
    for base, a in L['its']:
        out = [r for r in out if z3.is_bv(base.mem[r]) and r in a.mem and text.must(E, a, tobv(a.mem[r], base.mem[r].size()) == base.mem[r] + 1)]
    return [Loc(r) for r in out]


def vec_elem(E, lid, vec, size=None):
    """element visited by an iteration over a vector: (base, a) -> (index term, element) or None"""
    ix = text.indices(E, lid, size or (lambda s: E.vsize(vec)))
    if not ix:
        return None
    cs = counters(E, lid)

    def get(base, a):
        i = E.load(base, ix[0])
        i64 = z3.ZeroExt(64 - i.size(), i) if i.size() < 64 else i
        for c in cs:
            j = E.load(base, c)
            a.pc.append(tobv(j, j.size()) == (z3.Extract(j.size() - 1, 0, i64) if j.size() < 64 else i64))
        return i64, E.vec_get(a, vec, i64)[1]
    return get


# ---------------------------------------------------------------- recording in a context
def opaque_doc(E, st, this):
    pass


def t_annotate(prog, T):
    F = find(prog, DC + '::annotate', 1)
    E = T.engine()
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    o = E.force(E.load(st, this), st)
    u0 = E.force(o.f['used_annotations'], st)
    E.store(st, this, o.set('used_annotations', u0))
    pre = E.force(E.load(st, this), st)
    key = idof(E, st, args[0])
    from ..models import map_lookup_
    n = 0
    E.hooks['maplookup'] = lambda E2, s, m, k, found: s.ghost.__setitem__('f', found) if m.uid == u0.uid and not m.entries else None
    for s, k, v in call_fn(E, F, args, this, st):
        if k != 'n':
            E.oblige(s, False, 'annotating does not throw', fn=F.name)
            continue
        n += 1
        r = E.force(E.rv(s, v), s)
        ok = zbool(r.ok)
        post = E.force(E.load(s, this), s)
        u1 = E.force(post.f['used_annotations'], s)
        s1, s2 = s.copy(), s.copy()
        s1.pc.append(z3.Not(ok))
        s2.pc.append(ok)
        if E.feasible(s1):
            for p, f in eq_state(E, s1, u1, u0):
                E.oblige(s1, f, 'a rejected annotation is not recorded', fn=F.name, detail=p)
            E.oblige(s1, tobv(E.force(r.e, s1), 32) != 0 if r.e is not None else False, 'a rejection carries an error code', fn=F.name)
        if E.feasible(s2):
            fnd = s2.ghost.get('f')
            E.oblige(s2, fnd is not None and znot(zbool(fnd)), 'an annotation is recorded at most once', fn=F.name)
            E.oblige(s2, len(u1.entries) == 1 and u1.uid == u0.uid and idof(E, s2, u1.entries[0][0]) == key if len(u1.entries) == 1 else False, 'exactly the given annotation is recorded', fn=F.name)
        for q in (s1, s2):
            if E.feasible(q):
                for p, f in frame(E, q, pre, post, ('used_annotations',)):
                    E.oblige(q, f, 'annotating changes nothing else', fn=F.name, detail=p)
    if not n:
        E.oblige(State(), False, 'an outcome exists', fn=F.name)


def frame(E, s, pre, post, but):
    out = []
    for k in pre.f:
        if k.startswith('@') or k in but or k not in post.f or pre.f[k] is post.f[k]:
            continue
        a, b = pre.f[k], post.f[k]
        if isinstance(a, LazyV) and isinstance(b, (MapV, VecV)) or isinstance(a, LazyV):
            if not E.diff(a, b, ()):
                continue
        out += eq_state(E, s, a, b, None, k)
    return out


def t_bcd(prog, T):
    F = find(prog, DC + '::add_bcd_structure', 1)
    E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
    events(E)
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    o = E.force(E.load(st, this), st)
    u0 = E.force(o.f['used_structures'], st)
    E.store(st, this, o.set('used_structures', u0))
    st.pc.append(z3.ULT(tobv(E.vsize(u0), 64), 1 << 31))
    pre = E.force(E.load(st, this), st)
    key = idof(E, st, args[0])
    n = 0
    outs = list(call_fn(E, F, args, this, st))
    loops = [l for l, L in E.loops.items() if any(k == 'ret' for _, (q, k, v) in L.get('others', []))] or list(E.loops)
    E.oblige(State(), len(loops) == 1, 'the recorded items are searched in one pass', fn=F.name)
    scanned = False
    for l in loops[:1]:
        g = vec_elem(E, l, u0)
        E.oblige(State(), g is not None, 'all recorded items are searched', fn=F.name)
        if g is None:
            continue
        for base, a in E.loops[l]['its']:
            i, x = g(base, a)
            E.oblige(a, idof(E, a, x) != key, 'the search ends at an equal item', fn=F.name)
            scanned = True
    E.oblige(State(), scanned, 'recorded items are searched', fn=F.name)
    for s, k, v in outs:
        if k != 'n':
            E.oblige(s, False, 'recording a structure item does not throw', fn=F.name)
            continue
        n += 1
        r = E.force(E.rv(s, v), s)
        ok = zbool(r.ok)
        post = E.force(E.load(s, this), s)
        u1 = E.force(post.f['used_structures'], s)
        s1, s2 = s.copy(), s.copy()
        s1.pc.append(z3.Not(ok))
        s2.pc.append(ok)
        if E.feasible(s1):
            for p, f in eq_state(E, s1, u1, u0):
                E.oblige(s1, f, 'a rejected structure item is not recorded', fn=F.name, detail=p)
        if E.feasible(s2):
            good = u1.buid == u0.buid and same_term(u1.bsize, u0.bsize) and len(u1.tail) == 1
            E.oblige(s2, good and idof(E, s2, u1.tail[0]) == key if good else False, 'the structure item is recorded last', fn=F.name)
            E.oblige(s2, z3.SignExt(32, tobv(E.force(r.v, s2), 32)) == tobv(E.vsize(u0), 64), 'the content id is the position of the structure item', fn=F.name)
        for q in (s1, s2):
            if E.feasible(q):
                for p, f in frame(E, q, pre, post, ('used_structures',)):
                    E.oblige(q, f, 'recording a structure item changes nothing else', fn=F.name, detail=p)
    if not n:
        E.oblige(State(), False, 'an outcome exists', fn=F.name)


# ---------------------------------------------------------------- adding the page
def add_object_hook(E, this, got):
    def add(E2, s, fr, G, this2, argv, e):
        v = E2.force(E2.rv(s, argv[0]), s)
        l = Loc(this.root, this.path + (('f', 'document_objects'),))
        dv = E2.force(E2.load(s, l), s)
        num = z3.Extract(31, 0, tobv(E2.vsize(dv), 64))
        E2.store(s, l, VecV(dv.et, dv.buid, dv.bsize, dv.boff, dv.tail + (v,), dv.known))
        kind = None
        for i, a in list(v.alts.items()):
            a = E2.force(a, s)
            if isinstance(a, SV) and 'used_annotations' in a.f:
                kind = a
        s.ghost['objs'] = s.ghost.get('objs', ()) + ((num, kind),)
        if kind is not None:
            got.append((s.copy(), num, kind))
        r = E2.fresh(decay(G.tu.T(G.ret)), 'obj%d' % uid(), s)
        rv = r.v if isinstance(r, ExpV) else r
        s.pc.append(tobv(rv, 32) == num)
        return r
    E.fnhooks[DOC + '::add_object'] = add


def t_add_page(prog, T):
    F = find(prog, DOC + '::add_page', 8)
    E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
    E.objfmt = objfmt.setup(E)
    events(E)
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    o = E.force(E.load(st, this), st)
    names = ('annotation_use', 'structure_use', 'pages', 'structure_parent_tree_items', 'document_objects')
    for k in names:
        o = o.set(k, E.force(o.f[k], st))
    E.store(st, this, o)
    for k in ('pages', 'document_objects', 'structure_parent_tree_items'):
        st.pc.append(z3.ULT(tobv(E.vsize(o.f[k]), 64), 1 << 30))
    AU, SU = o.f['annotation_use'].uid, o.f['structure_use'].uid
    annots = E.force(E.load(st, args[3]), st)
    structs = E.force(E.load(st, args[4]), st)
    E.store(st, args[3], annots)
    E.store(st, args[4], structs)
    st.pc += [z3.ULT(tobv(annots.size, 64), 1 << 30), z3.ULT(tobv(E.vsize(structs), 64), 1 << 30)]
    pre = E.force(E.load(st, this), st)
    got = []
    add_object_hook(E, this, got)
    for G in prog.fns:
        if G.name == DOC + '::create_subnavigation':
            E.fnhooks[G.name] = lambda E2, s, fr, G, t2, argv, e: E2.fresh(decay(G.tu.T(G.ret)), 'subnav', s)
    outs = list(call_fn(E, F, args, this, st))
    fn = F.name
    # ---- what the passes over the annotations and structure items do
    search, store, copy = {AU: set(), SU: set()}, {AU: set(), SU: set()}, set()
    for l, L in E.loops.items():
        looks = {e[1] for base, a in L['its'] for e in since(base, a) if e[0] == 'look'}
        for T0, name, what in ((AU, 'annotation_use', 'annotation'), (SU, 'structure_use', 'structure item')):
            tab = lambda s: E.force(E.force(E.load(s, this), s).f[name], s)
            writes = any(tab(base).uid != tab(a).uid for base, a in L['its'])
            if not writes and T0 not in looks:
                continue
            get = None
            if T0 == SU:
                get = vec_elem(E, l, structs)
                if get is None:
                    continue
            elif L.get('breaks'):
                continue
            for base, a in L['its']:
                ev = since(base, a)
                m0, m1 = tab(base), tab(a)
                if T0 == SU:
                    i, x = get(base, a)
                    key = idof(E, a, x)
                else:
                    el = [e for e in ev if e[0] == 'elem' and e[1] == annots.uid]
                    if len(el) != 1:
                        break
                    key = el[0][2]
                if not writes:
                    # a search: going on means the item is not in use
                    fs = [z3.And(e[2] == key, znot(zbool(e[3]))) for e in ev if e[0] == 'look' and e[1] == T0]
                    E.oblige(a, z3.Or(*fs) if fs else False, 'an %s in use by another page ends the search' % what, fn=fn)
                    search[T0].add(l)
                    continue
                ok = len(m1.entries) == len(m0.entries) + 1
                E.oblige(a, ok, 'one %s is registered per visit' % what, fn=fn)
                if not ok:
                    continue
                k1, v1 = m1.entries[-1]
                E.oblige(a, idof(E, a, k1) == key, 'exactly the used %s is registered' % what, fn=fn)
                v1 = E.force(v1, a)
                if T0 == AU:
                    pg = [num for num, kind in a.ghost.get('objs', ()) if kind is not None]
                    E.oblige(a, tobv(v1, 32) == pg[0] if len(pg) == 1 else False, 'an annotation is registered with the page object', fn=fn)
                else:
                    np = z3.Extract(31, 0, tobv(E.vsize(pre.f['pages']), 64))
                    E.oblige(a, tobv(E.force(v1.f['page_num'], a), 32) == np, 'a structure item is registered with the number of the page', fn=fn)
                    E.oblige(a, z3.ZeroExt(32, tobv(E.force(v1.f['mcid_num'], a), 32)) == i, 'a structure item is registered with its content id', fn=fn)
                store[T0].add(l)
        # the annotations of the page object
        for base, a in L['its']:
            el = [e for e in since(base, a) if e[0] == 'elem' and e[1] == annots.uid]
            if len(el) != 1 or L.get('breaks'):
                continue
            for r, v in a.mem.items():
                b = base.mem.get(r)
                if isinstance(v, SV) and 'used_annotations' in v.f and 'structparents' in v.f and b is not v:
                    va, vb = E.force(v.f['used_annotations'], a), E.force(b.f['used_annotations'], base)
                    if va is vb or same_val(va, vb):
                        continue
                    good = len(va.tail) == len(vb.tail) + 1
                    E.oblige(a, good and idof(E, a, va.tail[-1]) == el[0][2] if good else False, 'the page lists exactly the used annotation', fn=fn)
                    copy.add(l)
    # ---- outcomes
    n = [0, 0]
    for s, k, v in outs:
        if k != 'n':
            E.oblige(s, False, 'adding a page does not throw', fn=fn)
            continue
        r = E.force(E.rv(s, v), s)
        ok = zbool(r.ok)
        post = E.force(E.load(s, this), s)
        s1, s2 = s.copy(), s.copy()
        s1.pc.append(z3.Not(ok))
        s2.pc.append(ok)
        if E.feasible(s1):
            n[0] += 1
            for p, f in frame(E, s1, pre, post, ()):
                E.oblige(s1, f, 'a rejected page leaves the document unchanged', fn=fn, detail=p)
            ev = [e for e in s1.ghost.get('ev', ()) if e[0] == 'look' and e[1] in (AU, SU)]
            E.oblige(s1, z3.Or(*[zbool(e[3]) for e in ev]) if ev else False, 'a page is rejected only for an item in use', fn=fn)
        if E.feasible(s2):
            n[1] += 1
            done = {e[1] for e in s2.ghost.get('ev', ()) if e[0] == 'loop'}
            for lids, size, what in ((search[AU], annots.size, 'all annotations are checked'), (search[SU], E.vsize(structs), 'all structure items are checked'),
                                     (copy, annots.size, 'all annotations are listed by the page'), (store[AU], annots.size, 'all annotations are registered'),
                                     (store[SU], E.vsize(structs), 'all structure items are registered')):
                E.oblige(s2, bool(lids & done) or tobv(size, 64) == 0, what, fn=fn)
            pages = E.force(post.f['pages'], s2)
            p0 = pre.f['pages']
            good = pages.buid == p0.buid and same_term(pages.bsize, p0.bsize) and len(pages.tail) == 1
            E.oblige(s2, good, 'one page is appended', fn=fn)
            pg = [(num, kind) for num, kind in s2.ghost.get('objs', ()) if kind is not None]
            E.oblige(s2, len(pg) == 1, 'one page object is added', fn=fn)
            if good and len(pg) == 1:
                E.oblige(s2, tobv(E.force(E.force(pages.tail[0], s2).f['page_obj_num'], s2), 32) == pg[0][0], 'the page refers to its object', fn=fn)
                k = pg[0][1]
                E.oblige(s2, z3.ZeroExt(32, tobv(E.force(k.f['page_num'], s2), 32)) == tobv(E.vsize(p0), 64), 'the page object holds the number of the page', fn=fn)
                sp = E.force(k.f['structparents'], s2)
                has = tobv(E.vsize(structs), 64) != 0
                E.oblige(s2, zbool(sp.has) == has, 'the page has a structure parent entry exactly when it uses structure items', fn=fn)
                t0 = pre.f['structure_parent_tree_items']
                t1 = E.force(post.f['structure_parent_tree_items'], s2)
                s3, s4 = s2.copy(), s2.copy()
                s3.pc.append(has)
                s4.pc.append(z3.Not(has))
                if E.feasible(s3):
                    good = t1.buid == t0.buid and same_term(t1.bsize, t0.bsize) and len(t1.tail) == 1
                    E.oblige(s3, good, 'the structure items of the page are appended to the parent tree', fn=fn)
                    if good:
                        x = E.force(t1.tail[0], s3)
                        E.oblige(s3, same_val(x, structs) or x.buid == structs.buid and not x.tail, 'the parent tree holds the structure items of the page in order', fn=fn)
                        E.oblige(s3, z3.ZeroExt(32, tobv(E.force(sp.v, s3), 32)) == tobv(E.vsize(t0), 64), 'the page refers to its entry of the parent tree', fn=fn)
                if E.feasible(s4):
                    for p, f in eq_state(E, s4, t1, t0):
                        E.oblige(s4, f, 'a page without structure items does not change the parent tree', fn=fn, detail=p)
    E.oblige(State(), n[0] > 0 and n[1] > 0, 'both outcomes exist', fn=fn)


# ---------------------------------------------------------------- handing the context on
def t_gen(prog, T):
    F = find(prog, NS + 'PdfGen::add_page', 1)
    E = T.engine()
    st = State()
    args = fresh_args(E, st, F)
    ctx = args[0]
    c0 = E.force(E.load(st, ctx), st)
    G0 = find(prog, DOC + '::add_page', 8)
    E.fnhooks[DC + '::serialize'] = lambda E2, s, fr, G, t2, argv, e: a02.rvoe_fresh(E2, s, G)
    want = {3: 'used_annotations', 4: 'used_structures', 2: 'custom_props', 5: 'transition', 6: 'sub_navigations', 7: 'viewports'}
    hit = []

    def add(E2, s, fr, G, t2, argv, e):
        cur = E2.force(E2.load(s, ctx), s)
        hit.append(1)
        s.ghost['added'] = s.ghost.get('added', 0) + 1
        for i, k in want.items():
            if k not in c0.f:
                continue
            x = argv[i]
            x = E2.force(E2.rv(s, x) if isinstance(x, Loc) else x, s)
            for p, f in eq_state(E2, s, x, E2.force(cur.f[k], s)):
                E2.oblige(s, f, 'the %s of the context are handed to the document' % k.replace('_', ' '), fn=F.name, detail=p)
            if k in ('used_annotations', 'used_structures'):
                for p, f in frame(E2, s, c0, cur, tuple(z for z in c0.f if z != k)):
                    E2.oblige(s, f, 'the %s of the context are kept until they are handed on' % k.replace('_', ' '), fn=F.name, detail=p)
        return a02.rvoe_fresh(E2, s, G)
    E.fnhooks[DOC + '::add_page'] = add
    n = 0
    for s, k, v in call_fn(E, F, args, None, st):
        if k != 'n':
            continue
        r = E.force(E.rv(s, v), s)
        s2 = s.copy()
        s2.pc.append(zbool(r.ok))
        if E.feasible(s2):
            n += 1
            E.oblige(s2, s.ghost.get('added', 0) == 1, 'a page that is reported as added was added once', fn=F.name)
    E.oblige(State(), bool(hit) and n > 0, 'the context is handed on', fn=F.name)


# ---------------------------------------------------------------- what is written
def writer(T, prog, names):
    from . import a01
    E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
    a01.install(E)
    del E.hooks['compact']
    E.objfmt.on_steal = None
    for n in a01.VALUE_WRITERS:
        E.fnhooks[n] = a01.one_value
    for n in a01.PAIR_WRITERS:
        E.fnhooks[n] = a01.pairs
    for G in prog.fns:
        m = G.name.split('::')[-1]
        if m in ('serialize_destination', 'serialize_media_clip'):
            E.fnhooks[G.name] = pair_any
        elif G.name.endswith('PageProperties::merge_with'):
            E.fnhooks[G.name] = lambda E2, s, fr, G, t2, argv, e: E2.fresh(decay(G.tu.T(G.ret)), 'props', s)
    got = []

    def wr(E2, s, fr, G, t2, argv, e):
        x = E2.rv(s, argv[1]) if isinstance(argv[1], Loc) else argv[1]
        x = E2.force(x, s)
        if isinstance(x, SV):
            x = StrV(tuple(objfmt.text(E2, s, x)))
        got.append((s.copy(), argv[0], x))
        return a02.rvoe_fresh(E2, s, G)
    E.fnhooks[WR + '::write_finished_object'] = wr
    return E, got


def pair_any(E2, s, fr, G, t2, argv, e):
    for i, p in enumerate(G.params):
        t = decay(G.tu.T(p['t']))
        t = decay(t.t) if t.k in ('ref', 'ptr') else t
        if t.k == 'rec' and t.nn == objfmt.OF:
            E2.objfmt.items(s, argv[i], (('cls', 'pairs:Dest', ('dest', uid())),))
            return a02.rvoe_fresh(E2, s, G)
    raise Unsupported('destination writer')


def doc_of(E, st, this):
    w = E.force(E.load(st, this), st)
    p = E.force(w.f['doc'], st)
    return p if isinstance(p, Loc) else E.deref(st, p)


def fmt_text(E, s):
    r = [E.force(v.f['buf'], s).p for v in (E.force(x, s) for k, x in s.mem.items()) if isinstance(v, SV) and v.t.k == 'rec' and v.t.nn == objfmt.OF]
    if len(r) != 1:
        raise Unsupported('%d formatters in scope' % len(r))
    return r[0]


def root_dict(E, s, ts, fn):
    p = text.parse(ts)
    ok = len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == 'dict'
    return p[0][1] if ok else None


def t_page(prog, T):
    F = find(prog, WR + '::write_delayed_page', 1)
    E, got = writer(T, prog, ())
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    dl = doc_of(E, st, this)
    dp = E.force(E.load(st, args[0]), st)
    used = E.force(dp.f['used_annotations'], st)
    E.store(st, args[0], dp.set('used_annotations', used).set('structparents', E.force(dp.f['structparents'], st)))
    sp = E.force(E.force(E.load(st, args[0]), st).f['structparents'], st)
    d = E.force(E.load(st, dl), st)
    ann = E.force(d.f['annotations'], st)
    E.store(st, dl, d.set('annotations', ann))
    n0 = tobv(E.vsize(used), 64)
    st.pc.append(z3.ULT(n0, 1 << 30))
    for s, k, v in call_fn(E, F, args, this, st):
        pass
    n = 0
    for s, num, x in got:
        for q, ts in text.tokens(E, s, x.p, (), (b'/Annots', b'/StructParents')):
            det = repr(ts)[:300]
            d = root_dict(E, q, ts, F.name)
            if d is None:
                E.oblige(q, False, 'a page is one dictionary', fn=F.name, detail=det)
                continue
            E.oblige(q, (n0 != 0) == (b'/Annots' in d), 'the annotations are written exactly when the page uses some', fn=F.name, detail=det)
            E.oblige(q, zbool(sp.has) == (b'/StructParents' in d), 'the parent tree entry is written exactly when the page has one', fn=F.name, detail=det)
            if b'/StructParents' in d:
                q2 = q.copy()
                q2.pc.append(zbool(sp.has))
                if E.feasible(q2):
                    E.oblige(q2, text.is_num(text.one(d, b'/StructParents'), E.force(sp.v, q2), True), 'the page names its parent tree entry', fn=F.name, detail=det)
            if b'/Annots' not in d:
                continue
            v = text.one(d, b'/Annots')
            good = v is not None and v[0] == 'arr' and len(v[1]) == 1 and v[1][0][0] == 'loop'
            E.oblige(q, good, 'the annotations are one array', fn=F.name, detail=det)
            if good:
                n += 1
                refs(E, v[1][0][1], used, lambda q, x: E.vec_get(q, ann, z3.SignExt(32, idof(E, q, x)))[1], 'annotation', F.name)
    E.oblige(State(), n > 0, 'the annotations of a page are written', fn=F.name)


def refs(E, lid, vec, obj, what, fn, pick=fmt_text):
    """the loop writes one reference for each element of the vector, in order"""
    if lid in E.__dict__.setdefault('checked', set()):
        return
    E.checked.add(lid)
    g = vec_elem(E, lid, vec)
    E.oblige(State(), g is not None, 'every %s is visited once, in order' % what, fn=fn)
    if g is None:
        return
    for base, a, rs in text.iterations(E, lid, lambda s: pick(E, s)):
        for q, ts in rs:
            i, x = g(base, q)
            E.oblige(q, len(ts) == 1 and text.is_ref(ts[0], obj(q, x)) if len(ts) == 1 else False, 'one reference to each %s is written' % what, fn=fn, detail=repr(ts)[:200])


def t_annot(prog, T):
    F = find(prog, WR + '::write_annotation', 2)
    E, got = writer(T, prog, ())
    seen = []
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    dl = doc_of(E, st, this)
    d = E.force(E.load(st, dl), st)
    au = E.force(d.f['annotation_use'], st)
    E.store(st, dl, d.set('annotation_use', au))
    av = E.force(E.load(st, args[1]), st)
    key = idof(E, st, av.f['id'])
    val = {}

    def elem(E2, s, m, kv):
        if m.uid == au.uid:
            x = val.setdefault('v', E2.force(kv.f['second'], s))
            val['k'] = idof(E2, s, kv.f['first'])
            return x
    E.hooks['mapelem'] = elem
    E.hooks['maplookup'] = lambda E2, s, m, k, found: val.__setitem__('f', found) if m.uid == au.uid else None
    for s, k, v in call_fn(E, F, args, this, st):
        pass
    n = 0
    for s, num, x in got:
        for q, ts in text.tokens(E, s, x.p, (), (b'/P',)):
            det = repr(ts)[:300]
            dd = root_dict(E, q, ts, F.name)
            if dd is None or 'f' not in val:
                E.oblige(q, False, 'an annotation is one dictionary that looks up its page', fn=F.name, detail=det)
                continue
            n += 1
            E.oblige(q, val['k'] == key, 'the page of this annotation is looked up', fn=F.name)
            E.oblige(q, zbool(val['f']) == (b'/P' in dd), 'an annotation names a page exactly when it is used', fn=F.name, detail=det)
            if b'/P' in dd:
                E.oblige(q, z3.Implies(zbool(val['f']), text.is_ref(text.one(dd, b'/P'), val['v'])), 'an annotation names the page that uses it', fn=F.name, detail=det)
            E.oblige(q, tobv(E.rv(q, num) if isinstance(num, Loc) else num, 32) == tobv(E.rv(st, args[0]), 32), 'the annotation is written under its object number', fn=F.name)
    E.oblige(State(), n > 0, 'an annotation is written', fn=F.name)


def t_item(prog, T):
    F = find(prog, WR + '::write_delayed_structure_item', 2)
    E, got = writer(T, prog, ())
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    dl = doc_of(E, st, this)
    d = E.force(E.load(st, dl), st)
    su = E.force(d.f['structure_use'], st)
    pages = E.force(d.f['pages'], st)
    E.store(st, dl, d.set('structure_use', su).set('pages', pages))
    key = idof(E, st, E.force(E.load(st, args[1]), st).f['sid'])
    val = {}

    def elem(E2, s, m, kv):
        if m.uid == su.uid:
            x = val.setdefault('v', E2.force(kv.f['second'], s))
            val['k'] = idof(E2, s, kv.f['first'])
            return x
    E.hooks['mapelem'] = elem

    def look(E2, s, m, k, found):
        if m.uid == su.uid:
            val['f'] = found
            s.ghost['looked'] = True
    E.hooks['maplookup'] = look
    for s, k, v in call_fn(E, F, args, this, st):
        pass
    n = 0
    for s, num, x in got:
        for q, ts in text.tokens(E, s, x.p, (), (b'/Pg', b'/K', b'/MCID')):
            det = repr(ts)[:300]
            dd = root_dict(E, q, ts, F.name)
            if dd is None:
                E.oblige(q, False, 'a structure item is one dictionary', fn=F.name, detail=det)
                continue
            if not q.ghost.get('looked'):
                # an item with children: these are listed instead of page content
                E.oblige(q, b'/K' in dd, 'an item without page content lists its children', fn=F.name, detail=det)
                continue
            n += 1
            E.oblige(q, val['k'] == key, 'the page content of this item is looked up', fn=F.name)
            if b'/Pg' in dd:
                q2 = q.copy()
                q2.pc.append(zbool(val['f']))
                if E.feasible(q2):
                    u = E.force(val['v'], q2)
                    pn, mc = tobv(E.force(u.f['page_num'], q2), 32), E.force(u.f['mcid_num'], q2)
                    pg = E.force(E.vec_get(q2, pages, z3.SignExt(32, pn))[1], q2)
                    E.oblige(q2, text.is_ref(text.one(dd, b'/Pg'), E.force(pg.f['page_obj_num'], q2)), 'a structure item names the page that uses it', fn=F.name, detail=det)
                    E.oblige(q2, text.is_num(text.one(dd, b'/K'), mc, True), 'a structure item names its marked content', fn=F.name, detail=det)
            q3 = q.copy()
            E.oblige(q3, zbool(val['f']) == (b'/Pg' in dd), 'a structure item names a page exactly when it is used', fn=F.name, detail=det)
    E.oblige(State(), n > 0, 'a structure item is written', fn=F.name)


def t_tree(prog, T):
    F = find(prog, DOC + '::create_structure_parent_tree', 0)
    E, _ = writer(T, prog, ())
    st = State()
    this = fresh_this(E, st, F)
    o = E.force(E.load(st, this), st)
    items = E.force(o.f['structure_parent_tree_items'], st)
    sis = E.force(o.f['structure_items'], st)
    E.store(st, this, o.set('structure_parent_tree_items', items).set('structure_items', sis))
    st.pc.append(z3.ULT(tobv(E.vsize(items), 64), 1 << 30))
    got = []

    def add(E2, s, fr, G, t2, argv, e):
        v = E2.force(E2.rv(s, argv[0]), s)
        for i, a in list(v.alts.items()):
            a = E2.force(a, s)
            if isinstance(a, SV) and 'dictionary' in a.f:
                got.append((s.copy(), E2.force(a.f['dictionary'], s)))
        return E2.fresh(decay(G.tu.T(G.ret)), 'obj%d' % uid(), s)
    E.fnhooks[DOC + '::add_object'] = add
    for s, k, v in call_fn(E, F, [], this, st):
        pass
    fn = F.name
    n = 0
    for s, v in got:
        for q, ts in text.tokens(E, s, v.p, (), None):
            det = repr(ts)[:300]
            d = root_dict(E, q, ts, fn)
            v = text.one(d, b'/Nums') if d else None
            good = bool(v) and v[0] == 'arr' and len(v[1]) == 1 and v[1][0][0] == 'loop'
            E.oblige(q, good, 'the parent tree is a dictionary with one array of entries', fn=fn, detail=det)
            if not good:
                continue
            lid = v[1][0][1]
            if lid in E.__dict__.setdefault('checked', set()):
                continue
            E.checked.add(lid)
            g = vec_elem(E, lid, items)
            E.oblige(State(), g is not None, 'every entry of the parent tree is written once, in order', fn=fn)
            if g is None:
                continue
            for base, a, rs in text.iterations(E, lid, lambda s: fmt_text(E, s)):
                for q2, ts2 in rs:
                    i, x = g(base, q2)
                    x = E.force(x, q2)
                    ok = len(ts2) == 4 and ts2[1] == b'[' and ts2[3] == b']' and ts2[2][0] == 'loop'
                    E.oblige(q2, ok, 'an entry is a number and one array', fn=fn, detail=repr(ts2)[:200])
                    if not ok:
                        continue
                    n += 1
                    E.oblige(q2, text.is_num(ts2[0], i), 'the number of an entry is its position', fn=fn, detail=repr(ts2)[:200])
                    refs(E, ts2[2][1], x, lambda q3, y: E.force(E.force(E.vec_get(q3, sis, z3.SignExt(32, idof(E, q3, y)))[1], q3).f['obj_id'], q3), 'structure item', fn)
    E.oblige(State(), n > 0, 'the parent tree is written', fn=fn)


def t_add_object(prog, T):
    """contract of add_object used by the tasks here (and by A11): the object is appended, its number is its position"""
    F = find(prog, DOC + '::add_object', 1)
    E = T.engine()
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    arg = E.force(E.rv(st, args[0]), st)
    o = E.force(E.load(st, this), st)
    d0 = E.force(o.f['document_objects'], st)
    E.store(st, this, o.set('document_objects', d0))
    pre = E.force(E.load(st, this), st)
    st.pc.append(z3.ULT(tobv(E.vsize(d0), 64), 1 << 31))
    n = 0
    for s, k, v in call_fn(E, F, args, this, st):
        if k != 'n':
            E.oblige(s, False, 'adding an object does not throw', fn=F.name)
            continue
        n += 1
        post = E.force(E.load(s, this), s)
        d1 = E.force(post.f['document_objects'], s)
        E.oblige(s, d1.buid == d0.buid and same_term(d1.bsize, d0.bsize) and len(d1.tail) == 1, 'one object is appended', fn=F.name)
        if d1.tail:
            x = E.force(d1.tail[0], s)
            E.oblige(s, x is arg or same_val(x, arg), 'the object appended is the given one', fn=F.name)
        E.oblige(s, z3.SignExt(32, tobv(E.force(E.rv(s, v), s), 32)) == tobv(E.vsize(d0), 64), 'the number of an object is its position', fn=F.name)
        for p, f in frame(E, s, pre, post, ('document_objects',)):
            E.oblige(s, f, 'adding an object changes nothing else', fn=F.name, detail=p)
    E.oblige(State(), n > 0, 'an outcome exists', fn=F.name)


def t_mcid(prog, T):
    """the content id written in the marked content is the one recorded for the structure item"""
    F = find(prog, DC + '::cmd_BDC', 3)
    E = T.engine()
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    sid = E.force(E.rv(st, args[1]), st)
    E.store(st, args[1], sid) if isinstance(args[1], Loc) else None
    pt = F.tu.T(F.params[2]['t'])
    args[2] = NULLP
    o = E.force(E.load(st, this), st)
    c = E.force(o.f['cmds'], st)
    b0 = E.force(c.f['buf'], st)
    E.store(st, this, o.set('cmds', c.set('buf', b0)))
    used = []

    def bcd(E2, s, fr, G, t2, argv, e):
        r = a02.rvoe_fresh(E2, s, G)
        s.ghost['mc'] = s.ghost.get('mc', ()) + ((r, idof(E2, s, argv[0])),)
        return r
    E.fnhooks[DC + '::add_bcd_structure'] = bcd
    n = 0
    for s, k, v in call_fn(E, F, args, this, st):
        if k != 'n':
            continue
        r = E.force(E.rv(s, v), s)
        s.pc.append(zbool(r.ok))
        if not E.feasible(s):
            continue
        n += 1
        mc = s.ghost.get('mc', ())
        E.oblige(s, len(mc) == 1, 'the structure item of marked content is recorded once', fn=F.name)
        if len(mc) != 1:
            continue
        s.pc.append(zbool(sid.has))
        E.oblige(s, mc[0][1] == idof(E, s, sid.v), 'the given structure item is recorded', fn=F.name)
        post = E.force(E.load(s, this), s)
        b1 = E.force(E.force(post.f['cmds'], s).f['buf'], s)
        for q, p in text.expand(E, s, b1.p):
            ids = [p[i + 1] for i, x in enumerate(p) if isinstance(x, bytes) and x.endswith(b'/MCID ') and i + 1 < len(p)]
            lit = sum(x.count(b'/MCID') for x in p if isinstance(x, bytes))
            ok = len(ids) == 1 and lit == 1 and isinstance(ids[0], tuple) and ids[0][0] == 'fmt'
            E.oblige(q, ok, 'one content id is written', fn=F.name, detail=repr(p[-8:])[:300])
            if ok:
                E.oblige(q, text.is_num(ids[0], E.force(mc[0][0].v, q), True), 'the content id written is the recorded one', fn=F.name, detail=repr(ids))
    E.oblige(State(), n > 0, 'marked content can be opened', fn=F.name)


def t_capi(prog, T):
    for name, to in (('capy_dc_annotate', DC + '::annotate'),):
        F = find(prog, name, 2)
        E = T.engine()
        st = State()
        args = fresh_args(E, st, F)
        hit = []

        def h(E2, s, fr, G, t2, argv, e):
            hit.append(1)
            E2.oblige(s, idof(E2, s, argv[0]) == idof(E2, s, args[1]), 'the given annotation is handed on', fn=name)
            E2.oblige(s, E2.deref(s, args[0]).same(t2) if isinstance(t2, Loc) else False, 'the given context is used', fn=name)
            r = a02.rvoe_fresh(E2, s, G)
            s.ghost['r'] = r
            return r
        E.fnhooks[to] = h
        for s, k, v in call_fn(E, F, args, None, st):
            if k == 'n' and 'r' in s.ghost:
                r = s.ghost['r']
                E.oblige(s, (tobv(E.rv(s, v), 32) == 0) == zbool(r.ok), 'the outcome is reported', fn=name)
        E.oblige(State(), bool(hit), 'the call is handed on', fn=name)


def tasks(prog, tier):
    return [Task('PdfDocument::add_object', t_add_object, 60), Task('PdfDrawContext::cmd_BDC', t_mcid, 100), Task('capy_dc_annotate', t_capi, 60),
            Task('PdfDrawContext::annotate', t_annotate, 60), Task('PdfDrawContext::add_bcd_structure', t_bcd, 60), Task('PdfDocument::add_page', t_add_page, 200),
            Task('PdfGen::add_page', t_gen, 100), Task('PdfWriter::write_delayed_page', t_page, 200), Task('PdfWriter::write_annotation', t_annot, 200),
            Task('PdfWriter::write_delayed_structure_item', t_item, 200), Task('PdfDocument::create_structure_parent_tree', t_tree, 200)]


def replay(tier, seed):
    return native.run_harness('h_struct', [tier, str(seed)])


HOW = 'harness/h_struct.cpp: random use of annotations and structure items by several contexts, registries read back from the written file'
ASSUME = ['iteration over an unordered set visits each element exactly once (standard library contract)',
          'the usage tables and the lists of a context are only changed by the functions under contract',
          'fewer than 2^30 pages, annotations, structure items and document objects']
