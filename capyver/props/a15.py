"""A15: page labels are recorded in strictly increasing order and written exactly as recorded."""
from ..spec import *
from .. import objfmt, text, native
from . import a02

NS = 'capypdf::internal::'
DOC = NS + 'PdfDocument'
STYLES = ('/D', '/R', '/r', '/A', '/a')


def same_opt(E, s, a, b):
    """formula: two optionals are equal"""
    f = [zbool(x) for _, x in eq_state(E, s, a, b)]
    return z3.And(*f) if f else z3.BoolVal(True)


def t_record(prog, T):
    F = find(prog, DOC + '::add_page_labeling', 4)
    E = T.engine()
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    given = [E.force(E.rv(st, a), st) for a in args]
    o = E.force(E.load(st, this), st)
    pre = E.force(o.f['page_labels'], st)
    E.store(st, this, o.set('page_labels', pre))
    n0 = tobv(E.vsize(pre), 64)
    empty = st.copy()
    last = E.load(st, Loc(this.root, this.path + (('f', 'page_labels'), ('i', simp(n0 - 1)))))
    last = E.force(E.force(last, st).f['start_page'], st)
    good = z3.Or(n0 == 0, z3.ULT(tobv(last, 32), tobv(given[0], 32)))
    n = 0
    for s, k, v in call_fn(E, F, args, this, st):
        if k != 'n':
            E.oblige(s, False, 'recording a label does not throw', fn=F.name)
            continue
        n += 1
        ok = zbool(E.force(E.rv(s, v), s).ok)
        E.oblige(s, ok == good, 'a label is accepted exactly when its start page is greater than that of the last recorded label', fn=F.name)
        post = E.force(E.force(E.load(s, this), s).f['page_labels'], s)
        s1 = s.copy()
        s1.pc.append(z3.Not(ok))
        if E.feasible(s1):
            E.oblige(s1, same_val(post, pre) or z3.And(*[zbool(f) for _, f in eq_state(E, s1, post, pre)]), 'a rejected label leaves the recorded labels unchanged', fn=F.name)
        s2 = s.copy()
        s2.pc.append(ok)
        if E.feasible(s2):
            E.oblige(s2, tobv(E.vsize(post), 64) == n0 + 1, 'an accepted label is recorded once', fn=F.name)
            keep = post.buid == pre.buid and same_term(post.bsize, pre.bsize) and len(post.tail) == 1
            E.oblige(s2, keep, 'an accepted label leaves the earlier ones unchanged', fn=F.name)
            if keep:
                x = E.force(post.tail[0], s2)
                E.oblige(s2, tobv(E.force(x.f['start_page'], s2), 32) == tobv(given[0], 32), 'the recorded start page is the given one', fn=F.name)
                for fld, g in (('style', given[1]), ('prefix', given[2]), ('start_num', given[3])):
                    E.oblige(s2, same_opt(E, s2, x.f[fld], g), 'the recorded %s is the given one' % fld, fn=F.name)
    if not n:
        E.oblige(State(), False, 'an outcome exists', fn=F.name)


def is_arg(E, v, ptr, size):
    """the text is the (pointer, length) argument of a C function"""
    p = v.p
    if len(p) != 1 or not isinstance(p[0], tuple) or p[0][0] != 'in':
        return False
    _, name, off, ln = p[0]
    m1 = tobv(size, 32) == -1
    full = tobv(ln, 64) == tobv(len_name(E, name), 64)
    return z3.And(tobv(off, 64) == 0, z3.If(m1, full, tobv(ln, 64) == z3.SignExt(32, tobv(size, 32))), z3.BoolVal(name.endswith(ptr_name(ptr))))


def ptr_name(ptr):
    return str(ptr.null).split('!')[-1]


def t_api(prog, T):
    """the C function hands on exactly what the application gave"""
    F = find(prog, 'capy_generator_add_page_labeling')
    E = T.engine()
    st = State()
    args = fresh_args(E, st, F)
    calls = []

    def rec(E2, s, fr, G, this, argv, e):
        r = a02.rvoe_fresh(E2, s, G)
        s.ghost['labels'] = s.ghost.get('labels', ()) + (([E2.force(E2.rv(s, a), s) for a in argv], r),)
        return r
    E.fnhooks[DOC + '::add_page_labeling'] = rec

    def val(E2, s, fr, G, this, argv, e):
        if len(argv) != 1 or decay(G.tu.T(G.params[0]['t'])).k == 'ref':
            return NotImplemented
        r = a02.rvoe_fresh(E2, s, G)
        r = ExpV(r.t, r.ok, E2.force(r.v, s), r.e)
        s.ghost['u8'] = (StrV(objfmt.text(E2, s, argv[0])), r)
        return r
    for m in ('from_cstr', 'from_view'):
        E.fnhooks[NS + 'u8string::' + m] = val
    g = [E.force(E.rv(st, a), st) for a in args]
    n = 0
    for s, k, v in call_fn(E, F, args, None, st):
        if k != 'n':
            E.oblige(s, False, 'no exception leaves the C interface', fn=F.name)
            continue
        n += 1
        rc = tobv(E.rv(s, v), 32)
        cs = s.ghost.get('labels', ())
        u8 = s.ghost.get('u8')
        bad = False
        if u8:
            s3 = s.copy()
            s3.pc.append(z3.Not(zbool(u8[1].ok)))
            if E.feasible(s3):
                bad = True
                E.oblige(s3, not cs, 'an invalid prefix is rejected before anything is recorded', fn=F.name)
                E.oblige(s3, rc != 0, 'an invalid prefix is reported', fn=F.name)
            s = s.copy()
            s.pc.append(zbool(u8[1].ok))
            if not E.feasible(s):
                continue
        badlen = z3.And(z3.Not(zbool(g[3].null)), tobv(g[4], 32) < -1)
        s5 = s.copy()
        s5.pc.append(badlen)
        if E.feasible(s5):
            E.oblige(s5, rc != 0, 'a length below -1 is reported', fn=F.name)
            E.oblige(s5, not cs, 'a length below -1 is rejected before anything is recorded', fn=F.name)
            s = s.copy()
            s.pc.append(z3.Not(badlen))
            if not E.feasible(s):
                continue
        E.oblige(s, len(cs) == 1, 'the label is handed on once', fn=F.name)
        if len(cs) != 1:
            continue
        a, r = cs[0]
        E.oblige(s, (rc == 0) == zbool(r.ok), 'success is reported exactly when the label was recorded', fn=F.name)
        E.oblige(s, tobv(a[0], 32) == tobv(g[1], 32), 'the start page is handed on', fn=F.name)
        for i, p, w in ((1, g[2], 'style'), (3, g[5], 'start number')):
            x = a[i]
            E.oblige(s, zbool(x.has) == z3.Not(zbool(p.null)), 'the %s is handed on exactly when it was given' % w, fn=F.name)
            s4 = s.copy()
            s4.pc.append(zbool(x.has))
            if E.feasible(s4):
                E.oblige(s4, tobv(E.force(x.v, s4), 32) == tobv(E.force(E.load(s4, E.deref(s4, p)), s4), 32), 'the %s handed on is the given one' % w, fn=F.name)
        x = a[2]
        E.oblige(s, zbool(x.has) == z3.Not(zbool(g[3].null)), 'the prefix is handed on exactly when it was given', fn=F.name)
        s4 = s.copy()
        s4.pc.append(zbool(x.has))
        if E.feasible(s4):
            ok = u8 is not None
            if ok:
                p, t = E.force(x.v, s4), E.force(u8[1].v, s4)
                fs = [zbool(f) for _, f in eq_state(E, s4, p, t)]
                ok = z3.And(*fs) if fs else True
                E.oblige(s4, is_arg(E, u8[0], g[3], g[4]), 'the prefix validated is the given one', fn=F.name)
            E.oblige(s4, ok, 'the prefix handed on is the given text', fn=F.name)
    if not n:
        E.oblige(State(), False, 'an outcome exists', fn=F.name)


def catalog_engine(T, prog):
    from . import a01
    E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
    a01.install(E)
    del E.hooks['compact']
    E.objfmt.on_steal = None
    E.steals = []
    return E


def after(ts, key):
    """index behind a key token of a dictionary"""
    return ts.index(key) + 1 if key in ts else None


def t_catalog(prog, T):
    F = find(prog, DOC + '::create_catalog', 0)
    E = catalog_engine(T, prog)
    st = State()
    this = fresh_this(E, st, F)
    o = E.force(E.load(st, this), st)
    pre = E.force(o.f['page_labels'], st)
    E.store(st, this, o.set('page_labels', pre))
    n0 = tobv(E.vsize(pre), 64)
    plloc = Loc(this.root, this.path + (('f', 'page_labels'),))
    from .a01 import callee
    for G in prog.fns:
        m = G.name.split('::')[-1]
        if G.name.startswith(DOC + '::create_') and m != 'create_catalog':
            E.fnhooks[G.name] = callee
    got = []

    def add(E2, s, fr, G, this2, argv, e):
        v = E2.force(E2.rv(s, argv[0]), s)
        for i, a in list(v.alts.items()):
            a = E2.force(a, s)
            if isinstance(a, SV) and 'dictionary' in a.f:
                got.append((s.copy(), E2.force(a.f['dictionary'], s)))
        return E2.fresh(decay(G.tu.T(G.ret)), 'obj%d' % uid(), s)
    E.fnhooks[DOC + '::add_object'] = add
    for s, k, v in call_fn(E, F, [], this, st):
        pass
    n = 0
    for s, v in got:
        for q, ts in text.tokens(E, s, v.p, (), (b'/PageLabels',)):
            q1 = q.copy()
            q1.pc.append(n0 == 0)
            if E.feasible(q1):
                E.oblige(q1, b'/PageLabels' not in ts, 'no page label tree without labels', fn=F.name)
            q2 = q.copy()
            q2.pc.append(n0 != 0)
            if not E.feasible(q2):
                continue
            i = after(ts, b'/PageLabels')
            E.oblige(q2, i is not None, 'recorded labels are written', fn=F.name)
            if i is None:
                continue
            tree = ts[i:i + 6]
            ok = len(tree) == 6 and tree[:3] == [b'<<', b'/Nums', b'['] and tree[3][0] == 'loop' and tree[4:] == [b']', b'>>']
            E.oblige(q2, ok, 'the page label tree is a dictionary with the array of all labels', fn=F.name, detail=repr(tree)[:300])
            if ok:
                n += 1
                check_entries(E, tree[3][1], plloc, F.name)
    if not n:
        E.oblige(State(), False, 'the page label tree is written', fn=F.name)


def check_entries(E, lid, plloc, fn):
    if lid in E.__dict__.setdefault('checked', set()):
        return
    E.checked.add(lid)
    size = lambda s: E.vsize(E.force(E.load(s, plloc), s))
    ix = text.indices(E, lid, size)
    E.oblige(State(), bool(ix), 'the labels are written from the first to the last, each once', fn=fn)
    if not ix:
        return

    def pick(s):
        r = [E.force(v.f['buf'], s).p for v in (E.force(x, s) for k, x in s.mem.items()) if isinstance(v, SV) and v.t.k == 'rec' and v.t.nn == objfmt.OF]
        if len(r) != 1:
            raise Unsupported('%d formatters in scope' % len(r))
        return r[0]
    for base, a, rs in text.iterations(E, lid, pick):
        i = E.load(base, ix[0])
        i = z3.ZeroExt(64 - i.size(), i) if i.size() < 64 else i
        for q, ts in rs:
            x = E.force(E.load(q, Loc(plloc.root, plloc.path + (('i', i),))), q)
            check_entry(E, q, ts, x, fn)


def num(t, v, signed=False):
    """formula: the token is written as the (32 bit) number v"""
    if not (isinstance(t, tuple) and t[0] == 'fmt' and t[1] in ('u', 'i') and t[2] in ('', 'd')):
        return z3.BoolVal(False)
    return wide(t[3], t[1] == 'i') == wide(v, signed)


def wide(v, signed):
    if not is_z3(v):
        return z3.BitVecVal(int(v), 64)
    n = 64 - v.size()
    return v if n == 0 else z3.SignExt(n, v) if signed else z3.ZeroExt(n, v)


def check_entry(E, q, ts, x, fn):
    det = repr(ts)[:300]
    E.oblige(q, num(ts[0], E.force(x.f['start_page'], q)) if ts else False, 'an entry begins with the start page of its label', fn=fn, detail=det)
    ok = len(ts) >= 3 and ts[1] == b'<<' and ts[-1] == b'>>' and len(ts) % 2 == 1
    E.oblige(q, ok, 'an entry is the start page and one dictionary', fn=fn, detail=det)
    if not ok:
        return
    d = {}
    for k, v in zip(ts[2:-1:2], ts[3:-1:2]):
        d[k] = v
    E.oblige(q, set(d) <= {b'/S', b'/P', b'/St', b'/Type'}, 'an entry holds only style, prefix and start number', fn=fn, detail=det)
    for key, fld in ((b'/S', 'style'), (b'/P', 'prefix'), (b'/St', 'start_num')):
        ov = E.force(x.f[fld], q)
        E.oblige(q, zbool(ov.has) == (key in d), 'the %s is written exactly when it was given' % fld, fn=fn, detail=det)
        if key not in d:
            continue
        s = q.copy()
        s.pc.append(zbool(ov.has))
        if not E.feasible(s):
            continue
        val, t = E.force(ov.v, s), d[key]
        if fld == 'start_num':
            f = num(t, val)
        elif fld == 'style':
            f = style_is(E, s, t, val)
        else:
            ok = isinstance(t, tuple) and t[0] == 'cls' and t[1] == 's' and t[2][0] == 'utf16'
            want = objfmt.text(E, s, val)
            f = ok and (same_pieces(t[2][1], want) or same_val(StrV(tuple(t[2][1])), StrV(want)))
        E.oblige(s, f, 'the %s written is that of the label' % fld, fn=fn, detail=det)


def style_is(E, s, t, val):
    """the token is the name of the style"""
    if isinstance(t, bytes):
        return tobv(val, 32) == STYLES.index(t.decode()) if t.decode() in STYLES else z3.BoolVal(False)
    raise Unsupported('style token %r' % (t,))


def tasks(prog, tier):
    return [Task('PdfDocument::add_page_labeling', t_record, 100), Task('capy_generator_add_page_labeling', t_api, 100),
            Task('PdfDocument::create_catalog', t_catalog, 200)]


def replay(tier, seed):
    return native.run_harness('h_labels', [tier, str(seed)])


HOW = 'harness/h_labels.cpp: random page label calls, /PageLabels of the written file read back'
ASSUME = ['page_labels is only changed by add_page_labeling',
          'the text of a label prefix is written by utf8_to_pdfutf16be (exactness: A03 and A04)']
