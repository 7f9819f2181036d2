"""A11: the links of the written outline are mutually consistent."""
from ..spec import *
from .. import objfmt, text, native
from . import a02

NS = 'capypdf::internal::'
DOC = NS + 'PdfDocument'
I = z3.IntSort()


# ---------------------------------------------------------------- recording an item
def outl(E, s, this):
    o = E.force(E.load(s, this), s)
    return E.force(o.f['outlines'], s)


def t_add(prog, T):
    F = find(prog, DOC + '::add_outline', 1)
    E = T.engine()
    E.hooks['mapelem'] = mapelem
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    o0 = outl(E, st, this)
    for k in ('items', 'children', 'parent'):
        o0 = o0.set(k, E.force(o0.f[k], st))
    E.store(st, Loc(this.root, this.path + (('f', 'outlines'),)), o0)
    items0, ch0, par0 = o0.f['items'], o0.f['children'], o0.f['parent']
    n = tobv(E.vsize(items0), 64)
    st.pc.append(z3.ULT(n, 1 << 31))
    arg = E.force(E.rv(st, args[0]), st)
    pv = E.force(arg.f['parent'], st)
    has = zbool(pv.has)
    pid = tobv(E.force(E.force(pv.v, st).f['id'], st), 32)
    legal = z3.Or(z3.Not(has), z3.And(pid >= 0, z3.ULT(z3.SignExt(32, pid), n)))
    # an item is not yet in the parent table (invariant: keys are the recorded items)
    cnt = 0
    for s, k, v in call_fn(E, F, args, this, st):
        if k != 'n':
            E.oblige(s, False, 'recording an item does not throw', fn=F.name)
            continue
        cnt += 1
        r = E.force(E.rv(s, v), s)
        ok = zbool(r.ok)
        o1 = outl(E, s, this)
        s1 = s.copy()
        s1.pc.append(z3.Not(ok))
        if E.feasible(s1):
            for p, f in eq_state(E, s1, o1, o0):
                E.oblige(s1, f, 'a rejected item leaves the outline unchanged', fn=F.name, detail=p)
        s2 = s.copy()
        s2.pc.append(ok)
        if not E.feasible(s2):
            continue
        E.oblige(s2, legal, 'an item is accepted only under an existing parent', fn=F.name)
        key = z3.If(has, pid, z3.BitVecVal(-1, 32))
        it = E.force(o1.f['items'], s2)
        E.oblige(s2, it.buid == items0.buid and same_term(it.bsize, items0.bsize) and len(it.tail) == 1, 'an accepted item is recorded once, after the others', fn=F.name)
        if it.tail:
            for p, f in eq_state(E, s2, E.force(it.tail[-1], s2), arg):
                E.oblige(s2, f, 'the recorded item is the given one', fn=F.name, detail=p)
        rid = tobv(E.force(E.force(r.v, s2).f['id'], s2), 32)
        E.oblige(s2, z3.SignExt(32, rid) == n, 'the identifier of an item is its position', fn=F.name)
        pm = E.force(o1.f['parent'], s2)
        E.oblige(s2, changed_only(E, s2, pm, par0, rid, lambda x: tobv(x, 32) == key), 'exactly the parent of the new item is recorded', fn=F.name, detail=repr(pm))
        cm = E.force(o1.f['children'], s2)

        def appended(x):
            x = E.force(x, s2)
            b = E.__dict__.get('seen', {}).get('%s|' % root_of(E, cm.uid) + keystr(key)) or None
            if not x.tail:
                return z3.BoolVal(False)
            return z3.And(tobv(x.tail[-1], 32) == rid, z3.BoolVal(len(x.tail) == 1), z3.BoolVal(x.buid in E.__dict__.get('lists', ()) or x.bsize == 0))
        E.oblige(s2, changed_only(E, s2, cm, ch0, key, appended), 'the new item becomes the last child of its parent', fn=F.name, detail=repr(cm))
    if not cnt:
        E.oblige(State(), False, 'an outcome exists', fn=F.name)


def keystr(x):
    from ..models import keystr as k
    return k(simp(x) if is_z3(x) else x)


def root_of(E, u):
    while u in E.mapfrom:
        u = E.mapfrom[u]
    return u


def changed_only(E, s, m, m0, key, good):
    """formula: the map differs from m0 only at the key, whose value is good"""
    if m.entries == m0.entries and m.uid == m0.uid:
        return z3.BoolVal(False)
    if root_of(E, m.uid) != root_of(E, m0.uid) or m.entries[:len(m0.entries)] != m0.entries or len(m.entries) != len(m0.entries) + 1:
        return z3.BoolVal(False)
    k, v = m.entries[-1]
    return z3.And(tobv(k, 32) == key, good(v))


# ---------------------------------------------------------------- the tables during writing
def mapelem(E, st, m, kv):
    """values of the tables: the same key always has the same value"""
    k, v = kv.f['first'], kv.f['second']
    t = decay(m.t.args[1])
    seen = E.__dict__.setdefault('seen', {})
    kk = '%s|' % root_of(E, m.uid) + keystr(k)
    if kk not in seen:
        seen[kk] = E.force(v, st) if isinstance(v, LazyV) else v
        if isinstance(seen[kk], VecV):
            E.__dict__.setdefault('lists', {})[seen[kk].buid] = (k, seen[kk])
    h = E.hooks.get('outline_inv')
    if h:
        h(E, st, m, k, seen[kk])
    return seen[kk]


def t_write(prog, T):
    F = find(prog, DOC + '::create_outlines', 0)
    E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
    E.objfmt = objfmt.setup(E)
    E.hooks['mapelem'] = mapelem
    st = State()
    this = fresh_this(E, st, F)
    o = E.force(E.load(st, this), st)
    ol = E.force(o.f['outlines'], st)
    for k in ('items', 'children', 'parent'):
        ol = ol.set(k, E.force(ol.f[k], st))
    objs = E.force(o.f['document_objects'], st)
    E.store(st, this, o.set('outlines', ol).set('document_objects', objs))
    first = z3.Extract(31, 0, tobv(E.vsize(objs), 64))
    n = tobv(E.vsize(ol.f['items']), 64)
    N = z3.Extract(31, 0, n)
    st.pc += [n != 0, z3.ULT(n, 1 << 30), z3.ULT(tobv(E.vsize(objs), 64), 1 << 30)]
    CH, PA = ol.f['children'].uid, ol.f['parent'].uid
    B32 = z3.BitVecSort(32)
    POS = z3.Function('POS', B32, z3.BitVecSort(64))

    def inv(E2, s, m, k, v):
        """class invariant of the outline tables (established by add_outline, task 'outline tables')"""
        k = tobv(k, 32)
        r = root_of(E2, m.uid)
        if r == PA:
            v = tobv(v, 32)
            s.pc.append(z3.Implies(z3.And(k >= 0, k < N), z3.And(v >= -1, v < k)))
            s.ghost['par:%s' % keystr(k)] = True
        elif r == CH:
            s.pc.append(z3.And(z3.UGT(tobv(v.bsize, 64), 0), z3.ULT(tobv(v.bsize, 64), n + 1)))
    E.hooks['outline_inv'] = inv

    def uniq(E2, s, loc, b, e, val, o):
        """std::find returns the first match; no element of a child list occurs twice"""
        v = E2.load(s, loc)
        if not isinstance(v, VecV):
            return
        _, el = E2.vec_get(s, v, o)
        s.pc.append(z3.Implies(z3.ULT(o, e), tobv(el, 32) == tobv(val, 32)))
        if v.buid in E2.__dict__.get('lists', {}):
            k, _ = E2.lists[v.buid]
            p = POS(tobv(val, 32))
            _, ep = E2.vec_get(s, v, p)
            # membership: the item is in the list of its parent
            s.pc.append(z3.Implies(z3.And(z3.UGE(p, b), z3.ULT(p, e), tobv(ep, 32) == tobv(val, 32)), z3.ULE(o, p)))
            s.pc.append(z3.Implies(z3.And(z3.ULT(o, e), tobv(el, 32) == tobv(val, 32)), o == p))
    E.hooks['find'] = uniq

    def dest(E2, s, fr, G, this2, argv, e):
        for i, p in enumerate(G.params):
            t = decay(G.tu.T(p['t']))
            t = decay(t.t) if t.k in ('ref', 'ptr') else t
            if t.k == 'rec' and t.nn == objfmt.OF:
                E2.objfmt.items(s, argv[i], (('cls', 'pairs:Dest', ('dest', uid())),))
                return a02.rvoe_fresh(E2, s, G)
        raise Unsupported('destination writer')
    for G in prog.fns:
        if G.name.endswith('::serialize_destination'):
            E.fnhooks[G.name] = dest
    got = []

    def add(E2, s, fr, G, this2, argv, e):
        v = E2.force(E2.rv(s, argv[0]), s)
        d = None
        for i, a in list(v.alts.items()):
            a = E2.force(a, s)
            if isinstance(a, SV) and 'dictionary' in a.f:
                d = E2.force(a.f['dictionary'], s)
        if d is None:
            raise Unsupported('object kind')
        c = s.ghost.get('adds', 0)
        s.ghost['adds'] = c + 1
        l = Loc(this.root, this.path + (('f', 'document_objects'),))
        dv = E2.force(E2.load(s, l), s)
        num = z3.Extract(31, 0, tobv(E2.vsize(dv), 64))
        E2.store(s, l, VecV(dv.et, dv.buid, E2.fresh64('objs'), dv.boff, (), {}))
        nv = E2.force(E2.load(s, l), s)
        s.pc.append(tobv(nv.bsize, 64) == tobv(E2.vsize(dv), 64) + 1)
        r = E2.fresh(decay(G.tu.T(G.ret)), 'obj%d' % uid(), s)
        num = s.ghost.get('@n', num)
        rv = r.v if isinstance(r, ExpV) else r
        s.pc.append(tobv(rv, 32) == num)
        s.ghost['last'] = (d, num)
        got.append((s.copy(), d, num))
        return r
    E.fnhooks[DOC + '::add_object'] = add
    outs = list(call_fn(E, F, [], this, st))
    # one object per item, numbers follow from the position
    lids = [l for l, L in E.loops.items() if any(a.ghost.get('adds', 0) != b.ghost.get('adds', 0) for b, a in L['its'])]
    E.oblige(State(), len(lids) == 1, 'the items are written in one pass', fn=F.name)
    if len(lids) != 1:
        return
    L = E.loops[lids[0]]
    size = lambda s: E.vsize(E.force(outl(E, s, this).f['items'], s))
    ix = text.indices(E, lids[0], size)
    E.oblige(State(), bool(ix), 'items are written from the first to the last, each once', fn=F.name)
    if not ix:
        return
    for base, a in L['its']:
        E.oblige(a, a.ghost.get('adds', 0) == base.ghost.get('adds', 0) + 1, 'one object is added per item', fn=F.name)
        i = E.load(base, ix[0])
        i = z3.Extract(31, 0, i) if i.size() == 64 else i
        d, num = a.ghost['last']
        keys = (b'/Prev', b'/Next', b'/First', b'/Last', b'/Count', b'/Parent')
        for q, ts in text.tokens(E, a, d.p, (), keys):
            q.pc += [i >= 0, i < N]
            item(E, q, ts, i, first, N, CH, PA, POS, F.name)
    # the objects before the first item
    E.oblige(State(), L['entry'].ghost.get('adds', 0) == 0, 'no object precedes the items', fn=F.name)
    n2 = 0
    for s, k, v in outs:
        if k != 'n':
            continue
        s1 = s.copy()
        ev = E.force(E.rv(s, v), s)
        s1.pc.append(zbool(ev.ok))
        if not E.feasible(s1):
            continue
        n2 += 1
        E.oblige(s1, s.ghost.get('adds', 0) == 1, 'exactly the root is added after the items', fn=F.name)
        d, num = s.ghost['last']
        E.oblige(s1, tobv(E.force(ev.v, s1), 32) == num, 'the root is handed back', fn=F.name)
        for q, ts in text.tokens(E, s1, d.p, (), (b'/First', b'/Last', b'/Count')):
            root(E, q, ts, first, N, CH, F.name)
    if not n2:
        E.oblige(State(), False, 'a success path exists', fn=F.name)


def table(E, s, m, key):
    """(present, value) of a table at a key; None when the code never looked it up"""
    kk = '%s|' % m + keystr(key)
    return E.__dict__.get('seen', {}).get(kk)


def lookup(E, s, m, key):
    """value of the table at the key: one of the looked up keys that equals it in this state"""
    for kk, v in E.__dict__.get('seen', {}).items():
        if not kk.startswith('%s|' % m):
            continue
        if kk == '%s|' % m + keystr(key):
            return v
    for b, (k, v) in E.__dict__.get('lists', {}).items():
        if E.decide3(s, tobv(k, 32) == tobv(key, 32)) is True and ('%s|' % m + keystr(k)) in E.seen:
            return v
    return None


def present(m, key):
    from ..models import _found
    return _found.get((m, keystr(key)))


def item(E, q, ts, i, first, N, CH, PA, POS, fn):
    det = repr(ts)[:400]
    p = text.parse(ts)
    ok = len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == 'dict'
    E.oblige(q, ok, 'an item is one dictionary', fn=fn, detail=det)
    if not ok:
        return
    d = p[0][1]
    par = lookup(E, q, PA, i)
    if par is None:
        E.oblige(q, False, 'the parent of the item is looked up', fn=fn, detail=det)
        return
    par = tobv(par, 32)
    v = text.one(d, b'/Parent')
    E.oblige(q, text.is_ref(v, z3.If(par >= 0, first + par, first + N)), 'the parent link of an item refers to its parent or to the root', fn=fn, detail=det)
    S = lookup(E, q, CH, par)
    if S is None:
        E.oblige(q, False, 'the siblings of the item are looked up', fn=fn, detail=det)
        return
    n = tobv(E.vsize(S), 64)
    pos = POS(i)
    _, e0 = E.vec_get(q, S, pos)
    q.pc += [z3.ULT(pos, n), tobv(e0, 32) == i]     # invariant: the item is in the list of its parent
    for key, have, at, what in ((b'/Prev', pos != 0, pos - 1, 'previous'), (b'/Next', z3.ULT(pos + 1, n), pos + 1, 'next')):
        v = text.one(d, key)
        E.oblige(q, have == (key in d), 'an item has a %s link exactly when its parent has such a child' % what, fn=fn, detail=det)
        if key in d:
            _, x = E.vec_get(q, S, simp(at))
            E.oblige(q, z3.Implies(have, text.is_ref(v, first + tobv(x, 32))), 'the %s link refers to the neighbour in the list of children' % what, fn=fn, detail=det)
    C = lookup(E, q, CH, i)
    fnd = present(CH, i)
    if C is None or fnd is None:
        E.oblige(q, False, 'the children of the item are looked up', fn=fn, detail=det)
        return
    ends(E, q, d, C, fnd, first, fn, det, 'an item')


def ends(E, q, d, C, fnd, first, fn, det, who):
    m = tobv(E.vsize(C), 64)
    _, x0 = E.vec_get(q, C, 0)
    _, x1 = E.vec_get(q, C, simp(m - 1))
    for key, x in ((b'/First', x0), (b'/Last', x1)):
        E.oblige(q, zbool(fnd) == (key in d), '%s has a %s link exactly when it has children' % (who, key[1:].decode()), fn=fn, detail=det)
        if key in d:
            E.oblige(q, z3.Implies(zbool(fnd), text.is_ref(text.one(d, key), first + tobv(x, 32))), 'the %s link refers to the %s child' % (key[1:].decode(), key[1:].decode().lower()), fn=fn, detail=det)
    E.oblige(q, zbool(fnd) == (b'/Count' in d), '%s has a count exactly when it has children' % who, fn=fn, detail=det)
    if b'/Count' in d:
        c = text.one(d, b'/Count')
        E.oblige(q, z3.Implies(zbool(fnd), z3.Or(text.is_num(c, m), text.is_num(c, -m))), 'the count is the number of children', fn=fn, detail=det)


def root(E, q, ts, first, N, CH, fn):
    det = repr(ts)[:400]
    p = text.parse(ts)
    ok = len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == 'dict'
    E.oblige(q, ok, 'the root is one dictionary', fn=fn, detail=det)
    if not ok:
        return
    d = p[0][1]
    C = lookup(E, q, CH, z3.BitVecVal(-1, 32)) or lookup(E, q, CH, -1)
    if C is None:
        E.oblige(q, False, 'the top level items are looked up', fn=fn, detail=det)
        return
    ends(E, q, d, C, True, first, fn, det, 'the root')
    # the root is open: its count is not negative
    if b'/Count' in d:
        E.oblige(q, text.is_num(text.one(d, b'/Count'), tobv(E.vsize(C), 64)), 'the count of the root is the number of top level items', fn=fn, detail=det)


# ---------------------------------------------------------------- lemmas over the contracts
def tables(tag):
    PAR = z3.Array('PAR' + tag, I, I)
    POS = z3.Array('POS' + tag, I, I)
    CS = z3.Array('CS' + tag, I, I)
    CH = z3.Array('CH' + tag, I, z3.ArraySort(I, I))
    return PAR, POS, CS, CH


def invariant(tb, n):
    PAR, POS, CS, CH = tb
    i, k, j = z3.Ints('i k j')
    return [
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(-1 <= PAR[i], PAR[i] < i, 0 <= POS[i], POS[i] < CS[PAR[i]], CH[PAR[i]][POS[i]] == i))),
        z3.ForAll([k, j], z3.Implies(z3.And(0 <= j, j < CS[k]), z3.And(0 <= CH[k][j], CH[k][j] < n, PAR[CH[k][j]] == k, POS[CH[k][j]] == j))),
        z3.ForAll([k], z3.And(CS[k] >= 0, z3.Implies(z3.Or(k < -1, k >= n), CS[k] == 0))),
        z3.ForAll([k, j], z3.Implies(z3.And(0 <= j, j + 1 < CS[k]), CH[k][j] < CH[k][j + 1]))]


def t_lemma_inv(prog, T):
    """the table invariant holds for an empty outline and is kept by the contract of add_outline"""
    E = T.engine()
    tb = tables('')
    n, p = z3.Ints('n p')
    s = State()
    s.pc += [n >= 0, -1 <= p, p < n] + invariant(tb, n)
    PAR, POS, CS, CH = tb
    tb2 = (z3.Store(PAR, n, p), z3.Store(POS, n, CS[p]), z3.Store(CS, p, CS[p] + 1), z3.Store(CH, p, z3.Store(CH[p], CS[p], n)))
    for k, f in enumerate(invariant(tb2, n + 1)):
        E.oblige(s, f, 'table invariant %d is kept by recording an item' % k, fn='add_outline')
    e = State()
    PAR, POS, CS, CH = tb
    k = z3.Int('k0')
    e.pc += [z3.ForAll([k], CS[k] == 0)]
    for k, f in enumerate(invariant(tb, z3.IntVal(0))):
        E.oblige(e, f, 'table invariant %d holds for an empty outline' % k, fn='add_outline')


def t_lemma_links(prog, T):
    """what the entries say (contract of create_outlines) makes the links mutually consistent"""
    E = T.engine()
    tb = tables('')
    PAR, POS, CS, CH = tb
    n, i, j = z3.Ints('n a b')
    s = State()
    s.pc += [n >= 1, 0 <= i, i < n] + invariant(tb, n)
    nxt = lambda x: CH[PAR[x]][POS[x] + 1]
    prv = lambda x: CH[PAR[x]][POS[x] - 1]
    hasn = lambda x: POS[x] + 1 < CS[PAR[x]]
    hasp = lambda x: POS[x] != 0
    E.oblige(s, z3.Implies(hasn(i), z3.And(hasp(nxt(i)), prv(nxt(i)) == i, PAR[nxt(i)] == PAR[i], nxt(i) > i)), 'next and previous are inverse and stay under the same parent', fn='create_outlines')
    E.oblige(s, z3.Implies(hasp(i), z3.And(hasn(prv(i)), nxt(prv(i)) == i, PAR[prv(i)] == PAR[i])), 'previous and next are inverse and stay under the same parent', fn='create_outlines')
    E.oblige(s, z3.Implies(CS[i] > 0, z3.And(z3.Not(hasp(CH[i][0])), z3.Not(hasn(CH[i][CS[i] - 1])), PAR[CH[i][0]] == i, PAR[CH[i][CS[i] - 1]] == i)), 'first has no previous and last no next item', fn='create_outlines')
    E.oblige(s, z3.Implies(z3.Not(hasp(i)), CH[PAR[i]][0] == i), 'an item without previous is the first of its parent', fn='create_outlines')
    E.oblige(s, z3.Implies(z3.Not(hasn(i)), CH[PAR[i]][CS[PAR[i]] - 1] == i), 'an item without next is the last of its parent', fn='create_outlines')
    E.oblige(s, z3.And(CS[-1] > 0, PAR[z3.IntVal(0)] == -1), 'there is a top level item', fn='create_outlines')


def tasks(prog, tier):
    return [Task('PdfDocument::add_outline', t_add, 100), Task('PdfDocument::create_outlines', t_write, 200),
            Task('outline tables', t_lemma_inv, 60), Task('outline links', t_lemma_links, 60)]


def replay(tier, seed):
    return native.run_harness('h_outline', [tier, str(seed)])


HOW = 'harness/h_outline.cpp: random outlines, the written tree walked link by link'
ASSUME = ['the outline tables are only changed by add_outline',
          'std::find returns the first position holding the value (standard library contract)',
          'fewer than 2^30 outline items and document objects']
