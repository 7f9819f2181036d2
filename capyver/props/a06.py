"""A06: an identifier is valid or the call that takes it fails and leaves the document as it was."""
from ..spec import *
from .. import callgraph, native, objfmt, text
from ..models import map_lookup_
from . import a02, a13, a14
from .a13 import idof

NS = 'capypdf::internal::'
DOC, GEN, DC = NS + 'PdfDocument', NS + 'PdfGen', NS + 'PdfDrawContext'
OWN = (DOC, GEN, DC)
# the table of the document that the identifiers of a kind refer to
TABLES = {'AnnotationId': ('annotations',), 'EmbeddedFileId': ('embedded_files',), 'FontId': ('font_objects',), 'FormFieldId': ('form_fields',),
          'FormXObjectId': ('form_xobjects',), 'IccColorSpaceId': ('icc_profiles',), 'ImageId': ('image_info',), 'OptionalContentGroupId': ('ocg_items',),
          'StructureItemId': ('structure_items',), 'TransparencyGroupId': ('transparency_groups',), 'SoftMaskId': ('soft_masks',), 'FunctionId': ('functions',),
          'ShadingId': ('shadings',), 'OutlineId': ('outlines', 'items'), 'SeparationId': ('separation_objects',), 'RoleId': ('rolemap',),
          'GraphicsStateId': ('graphics_state_objects',), 'LabColorSpaceId': ('lab_objects',), 'PatternId': ('pattern_objects',), '3DStreamId': ('threed_objects',)}


def kind(t):
    t = decay(t)
    n = (t.nn or '') if t.k == 'rec' else ''
    if n.lower().startswith(('capypdf_', '_capypdf_')) and n.endswith('Id'):
        return n.split('_')[-1]
    return None


def ids(t, seen=()):
    """kinds of the identifiers a value of the type can carry"""
    t = decay(t)
    if t.k in ('ref', 'ptr', 'rref'):
        return ids(t.t, seen)
    if t.k != 'rec':
        return set()
    if kind(t):
        return {kind(t)}
    n = t.nn or ''
    if n in seen or n in (DOC, GEN, DC, NS + 'PdfWriter'):
        return set()
    out = set()
    for a in t.args or []:
        for b in a if isinstance(a, (list, tuple)) else [a]:
            if hasattr(b, 'k'):
                out |= ids(b, seen + (n,))
    if t.rec and n.startswith('capypdf'):
        for f in t.rec.fields:
            out |= ids(f[1], seen + (n,))
    return out


def places(E, st, v, g=True, path=''):
    """(condition, kind, identifier) of the identifiers in a value, and (condition, None, vector) of sequences that carry some"""
    v = E.force(v, st)
    if isinstance(v, Loc):
        v = E.force(E.load(st, v), st)
    if isinstance(v, PtrV):
        if v.loc is not None:
            yield from places(E, st, v.loc, zand(g, znot(zbool(v.null))) if v.null is not False else g, path + '*')
        return
    if isinstance(v, SV):
        k = kind(v.t)
        if k:
            yield g, k, tobv(E.force(v.f['id'], st), 32)
            return
        for n, x in v.f.items():
            t = next((f[1] for f in v.t.rec.fields if f[0] == n), None) if v.t.rec else None
            if t is not None and ids(t):
                if decay(t).k == 'rec' or not isinstance(x, (PtrV, Loc)):
                    yield from places(E, st, x, g, path + '.' + n)
    elif isinstance(v, OptV):
        if decay(v.t).args and ids(decay(v.t).args[0]):
            yield from places(E, st, v.v, zand(g, zbool(v.has)), path)
    elif isinstance(v, VarV):
        alts = v.t.args[0] if isinstance(v.t.args[0], list) else v.t.args
        for i, a in enumerate(alts):
            if ids(a) and i in v.alts:
                c = v.idx == i if isinstance(v.idx, int) else tobv(v.idx, 8) == i
                if c is not False:
                    yield from places(E, st, v.alts[i], zand(g, c), path + '#%d' % i)
    elif isinstance(v, VecV):
        if v.et is not None and ids(v.et):
            if isinstance(v.bsize, int) and v.bsize == 0:
                for j, x in enumerate(v.tail):
                    yield from places(E, st, x, g, path + '[%d]' % j)
            else:
                yield g, None, v
    elif isinstance(v, MapV) and any(ids(a) for a in v.t.args if hasattr(a, 'k')):
        raise Unsupported('identifiers in a set of arguments')


def zand(a, b):
    return z3.And(zbool(a), zbool(b))


def table(E, s, docl, k):
    v = E.force(E.load(s, docl), s)
    for n in TABLES[k]:
        v = E.force(v.f[n], s)
    return v


def valid(E, s, tab, i, k=None):
    """the identifier denotes an existing object"""
    if isinstance(tab, VecV):
        n = tobv(E.vsize(tab), 64)
        # members of the context's own sets are valid: obligation at every insertion
        return z3.Or(z3.And(i >= 0, z3.ULT(z3.SignExt(32, i), n)), *[z3.And(x[2] == i, zbool(x[3])) for x in s.ghost.get('ev', ()) if x[0] == 'used' and x[1] == k])
    root = a13.root_of(E, tab.uid)
    fs = [z3.And(x[2] == i, zbool(x[3])) for x in s.ghost.get('ev', ()) if x[0] == 'look' and x[1] == root]
    fs += [(idof(E, s, k) if isinstance(k, SV) else tobv(k, 32)) == i for k, _ in tab.entries]
    k, x = map_lookup_(E, s, None, tab, i)
    fs.append(zbool({'known': True, 'no': False}.get(k, x)))
    return z3.Or(*fs)


def hooks(E, used=None, docl=None, fn=''):
    def look(E2, s, m, key, found):
        t = idterm(E2, s, key)
        if t is not None:
            r = a13.root_of(E2, m.uid)
            s.ghost['ev'] = s.ghost.get('ev', ()) + (('look', r, t, found),)
            if used and r in used and isinstance(key, SV):
                s.ghost['ev'] += (('used', used[r], t, found),)

    def insert(E2, s, obj, m, key):
        r = a13.root_of(E2, m.uid)
        if used and r in used:
            key = E2.force(E2.rv(s, key), s)
            E2.oblige(s, valid(E2, s, table(E2, s, docl, used[r]), idof(E2, s, key), used[r]), 'only valid identifiers are recorded as used', fn=fn, detail=used[r])
    if used is not None:
        E.hooks['setinsert'] = insert

    def it(E2, s, m, v):
        v = E2.force(v, s)
        if isinstance(v, SV) and 'id' in v.f:
            s.ghost['ev'] = s.ghost.get('ev', ()) + (('elem', m.uid, a13.idof(E2, s, v)),)
    E.hooks['maplookup'] = look
    E.hooks['mapiter'] = it
    E.hooks['mark_loops'] = True


def idterm(E, s, key):
    if isinstance(key, SV) and 'id' in key.f:
        return a13.idof(E, s, key)
    if isinstance(key, int) and not isinstance(key, bool) or z3.is_bv(key) and key.size() == 32:
        return tobv(key, 32)
    return None


STREAM = NS + 'CommandStreamFormatter::'


def parts(E):
    """text objects: operators are written with any outcome (they take no identifiers); glyphs are looked up by functions with a contract of their own"""
    def h(E2, st, fr, G, this, argv, e):
        if G.name.startswith(STREAM) and not G.isctor or G.name.startswith(DC + '::serialize_') and G.name != DC + '::serialize_text' or G.name in (DOC + '::get_subset_glyph', DC + '::build_resource_dict'):
            rt = decay(G.tu.T(G.ret))
            if rt.k == 'void':
                return VOID
            return plain(E2, st, fr, G, this, argv, e)
        return NotImplemented
    E.hooks['anyfn'] = h


def outside(E):
    """calls out of the three classes: any outcome, no effect on the document (they are not given it)"""
    def h(E2, st, fr, G, this, argv, e):
        n = G.name
        if not n.startswith('capypdf') or G.isctor or n.endswith('operator()') or n.startswith(tuple(c + '::' for c in OWN)):
            return NotImplemented
        if any(isdoc(G.tu.T(p['t'])) or ids(G.tu.T(p['t'])) for p in G.params):
            return NotImplemented
        if sum(1 for _ in callgraph.walk(G.body)) < 80 and not any(x.get('k') in ('for', 'while', 'do', 'rfor') for x in callgraph.walk(G.body)):
            return NotImplemented
        from . import a07
        a07.havoc_frame(E2, st, G, this, argv)
        rt = decay(G.tu.T(G.ret))
        if rt.k == 'void':
            return VOID
        if rt.nn == 'std::expected':
            return a02.rvoe_fresh(E2, st, G)
        if rt.nn == 'std::basic_string':
            return StrV((('cls', 's', (n, uid())),))
        return E2.fresh_result(st, fr, G.tu.T(G.ret), 'res!%s!%d' % (n.split('::')[-1], uid()))
    E.hooks['anyfn'] = h
    for n in ('::serialize', '::build_resource_dict'):
        E.fnhooks[DC + n] = plain
    # comparison of stored data: any answer, no effect
    E.fnhooks[NS + 'RawData::operator=='] = lambda E2, st, fr, G, this, argv, e: E2.unk('data')


def plain(E, st, fr, G, this, argv, e):
    rt = decay(G.tu.T(G.ret))
    if rt.nn == 'std::expected':
        return a02.rvoe_fresh(E, st, G)
    if rt.nn == 'std::basic_string':
        return StrV((('cls', 's', (G.name, uid())),))
    return E.fresh(rt, 'r%d' % uid(), st)


def isdoc(t):
    t = decay(t)
    while t.k in ('ptr', 'ref', 'rref'):
        t = decay(t.t)
    return t.k == 'rec' and t.nn in OWN


def roots(prog):
    """operations of document, generator and context that the C interface calls"""
    out, seen = [], set()
    for F in a14.interface(prog):
        for G, n in callgraph.callees(prog, F):
            if G is None or G.cls is None or G.body is None or not G.name.startswith(tuple(c + '::' for c in OWN)) or G.isctor or '~' in G.name:
                continue
            key = (G.name, tuple(G.tu.T(p['t']).key for p in G.params))
            if key in seen:
                continue
            seen.add(key)
            takes = set()
            for p in G.params:
                takes |= ids(G.tu.T(p['t']))
            gives = ids(G.tu.T(G.ret)) if callgraph.is_rvoe(G) else set()
            if takes or gives or any(decay(getattr(G.tu.T(p['t']), 't', None) or G.tu.T(p['t'])).nn == DC for p in G.params):
                out.append((G, takes, gives))
    return out


def document_of(E, st, F, this):
    """location of the document the operation works on"""
    c = F.name.rsplit('::', 1)[0]
    if c == DOC:
        return this
    o = E.force(E.load(st, this), st)
    if c == GEN:
        return this.f(('f', 'pdoc'))
    p = E.force(o.f['doc'], st)
    if isinstance(p, PtrV):
        st.pc.append(znot(zbool(p.null)))        # a context belongs to a document
        E.store(st, this, o.set('doc', PtrV(False, p.loc, p.off, p.t)))
        return p.loc
    return p


SLOW_CLASSES = ('FontSubsetter',)


def prepare(E, st, docl):
    d = E.force(E.load(st, docl), st)
    for path in list(TABLES.values()) + [('document_objects',)]:
        v = E.force(d.f[path[0]], st)
        if len(path) == 2:
            w = E.force(v.f[path[1]], st)
            v = v.set(path[1], w)
            st.pc.append(z3.ULT(tobv(E.vsize(w), 64), 1 << 30))
        else:
            st.pc.append(z3.ULT(tobv(v.size if isinstance(v, MapV) else E.vsize(v), 64), 1 << 30))
        d = d.set(path[0], v)
    # invariant of the document: one entry of each table per font
    v = E.force(d.f['fonts'], st)
    d = d.set('fonts', v)
    st.pc.append(tobv(E.vsize(v), 64) == tobv(E.vsize(d.f['font_objects']), 64))
    E.store(st, docl, d)


def same_fonts(E, s, docl):
    d = E.force(E.load(s, docl), s)
    return tobv(E.vsize(E.force(d.f['fonts'], s)), 64) == tobv(E.vsize(E.force(d.f['font_objects'], s)), 64)


def used_sets(E, st, this):
    """the sets of identifiers of a context"""
    o = E.force(E.load(st, this), st)
    out = {}
    for f in o.t.rec.fields:
        t = decay(f[1])
        if (t.nn or '').endswith('_set') and kind(t.args[0]):
            v = E.force(o.f[f[0]], st)
            o = o.set(f[0], v)
            out[v.uid] = kind(t.args[0])
    E.store(st, this, o)
    return out


def contexts(E, st, F, args):
    out = []
    for a, p in zip(args, F.params):
        t = F.tu.T(p['t'])
        if t.k in ('ref', 'ptr', 'rref') and decay(t.t).nn == DC:
            a = E.force(a, st) if not isinstance(a, Loc) else a
            out.append(a if isinstance(a, Loc) else a.loc)
    return out


def t_root(F, takes, gives):
    def run(prog, T):
        fn = F.name
        E = T.engine(joint=lambda root, path: 'rope', nopeel=True, refine=True)
        E.objfmt = objfmt.setup(E)
        outside(E)
        if F.name == DC + '::render_text':
            parts(E)
        st = State()
        this = fresh_this(E, st, F)
        docl = document_of(E, st, F, this)
        prepare(E, st, docl)
        ctx = F.name.startswith(DC + '::')
        hooks(E, used_sets(E, st, this) if ctx else None, docl, fn)
        args = fresh_args(E, st, F)
        pre = E.force(E.load(st, docl), st)
        pl = []
        for a, p in zip(args, F.params):
            if ids(F.tu.T(p['t'])):
                pl += list(places(E, st, a))
        cpre = E.force(E.load(st, this), st) if ctx else None
        seqs = [(g, v) for g, k, v in pl if k is None]
        outs = list(call_fn(E, F, args, this, st))
        passed = [(g, v, scan(E, v, lambda s: E.force(E.load(s, docl), s), fn)) for g, v in seqs]
        n = 0
        for s, k, v in outs:
            if k not in ('n', 'x', 'throw'):
                continue
            n += 1
            if k == 'n' or F.name.split('::')[-1] != 'load_font':
                E.oblige(s, same_fonts(E, s, docl), 'the tables of fonts have the same length', fn=fn)
            if k == 'n':
                r = E.force(E.rv(s, v), s)
                ok = zbool(r.ok) if isinstance(r, ExpV) else z3.BoolVal(True)
                s1 = s.copy()
                s1.pc.append(ok)
                if E.feasible(s1):
                    for c in contexts(E, st, F, args) if not ctx else ():
                        p = E.force(E.force(E.load(s1, c), s1).f['doc'], s1)
                        p = p if isinstance(p, PtrV) else PtrV(False, p, 0, None)
                        E.oblige(s1, E.same_object(p, PtrV(False, docl, 0, None)), 'a context of another document is rejected', fn=fn)
                    for g, kd, i in pl:
                        if kd is None:
                            continue
                        E.oblige(s1, z3.Implies(zbool(g), valid(E, s1, table(E, st, docl, kd), i, kd)), 'an operation with an invalid identifier fails', fn=fn, detail=kd)
                    done = {x[1] for x in s1.ghost.get('ev', ()) if x[0] == 'loop'}
                    for g, vec, lids in passed:
                        size = tobv(E.vsize(vec), 64)
                        E.oblige(s1, z3.Implies(zbool(g), z3.Or(bool(lids & done), size == 0)), 'an operation with an invalid identifier in a list fails', fn=fn)
                    if gives and isinstance(r, ExpV):
                        rv = E.force(r.v, s1)
                        for g, kd, i in places(E, s1, rv):
                            E.oblige(s1, z3.Implies(zbool(g), valid(E, s1, table(E, s1, docl, kd), i, kd)), 'the identifier that is returned exists', fn=fn, detail=kd)
                s2 = s.copy()
                s2.pc.append(z3.Not(ok))
            else:
                s2 = s
            if E.feasible(s2) and takes:
                post = E.force(E.load(s2, docl), s2)
                bad = bad_of(E, s2, pl, st, docl, passed)
                for p, f in a13.frame(E, s2, pre, post, ()):
                    E.oblige(s2, z3.Or(zbool(f), z3.Not(bad)), 'a failed operation leaves the document unchanged', fn=fn, detail=p)
                if ctx:
                    cpost = E.force(E.load(s2, this), s2)
                    for p, f in a13.frame(E, s2, cpre, cpost, ('doc',)):
                        E.oblige(s2, z3.Or(zbool(f), z3.Not(bad)), 'a failed operation leaves the context unchanged', fn=fn, detail=p)
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=fn)
    return run


def bad_of(E, s, pl, st, docl, passed):
    """some identifier of the arguments is invalid: a list has none if a loop over it that only goes on for valid ones was completed"""
    done = {x[1] for x in s.ghost.get('ev', ()) if x[0] == 'loop'}
    fs = [zand(g, znot(valid(E, s, table(E, st, docl, k), i, k))) for g, k, i in pl if k is not None]
    fs += [zand(g, tobv(E.vsize(v), 64) != 0) for g, v, lids in passed if not lids & done]
    return z3.Or(*fs) if fs else z3.BoolVal(not pl)


def scan(E, vec, doc, fn):
    """loops over a list that go on only if the identifiers of the element are valid"""
    good = set()
    for l, L in E.loops.items():
        if not L['its']:
            continue
        get = a13.vec_elem(E, l, vec)
        if get is None:
            continue
        okay = True
        for base, a in L['its']:
            a = a.copy()
            i, x = get(base, a)
            for g, kd, t in places(E, a, x):
                if kd is None:
                    okay = False
                    continue
                tab = doc(a)
                for m in TABLES[kd]:
                    tab = E.force(tab.f[m], a)
                if not text.must(E, a, z3.Implies(zbool(g), valid(E, a, tab, t, kd))):
                    okay = False
        if okay:
            good.add(l)
    return good


def t_handed(F):
    """a C function hands the identifier it is given on to the operation or keeps it in the object, unchanged"""
    def run(prog, T):
        E = T.engine(nopeel=True, refine=True)
        E.objfmt = objfmt.setup(E)
        st = State()
        args = fresh_args(E, st, F)

        def rec(E2, s, fr, G, this, argv, e):
            n = G.name
            if n.startswith(NS + 'u8string::from_') or n.startswith(NS + 'asciistring::from_'):
                return plain(E2, s, fr, G, this, argv, e)
            if not n.startswith(tuple(c + '::' for c in OWN)) or G.isctor:
                return NotImplemented
            took = []
            for a, p in zip(argv, G.params):
                if ids(G.tu.T(p['t'])):
                    took += [x for x in every(E2, s, a)]
            if took:
                s.ghost['took'] = s.ghost.get('took', ()) + (tuple(took),)
            if not callgraph.is_rvoe(G):
                return NotImplemented if G.body is not None and sum(1 for _ in callgraph.walk(G.body)) < 60 else plain(E2, s, fr, G, this, argv, e)
            return a02.rvoe_fresh(E2, s, G)
        E.hooks['anyfn'] = rec
        want = []
        for a, p in zip(args, F.params):
            t = F.tu.T(p['t'])
            if kind(t) or t.k == 'ptr' and t.t.const and kind(t.t):
                for g, k, i in places(E, st, a):
                    want.append((g, k, i, F.params.index(p)))
        n = 0
        for s, k, v in call_fn(E, F, args, None, st):
            if k != 'n':
                continue
            n += 1
            s.pc.append(tobv(E.rv(s, v), 32) == 0)
            if not E.feasible(s):
                continue
            took = s.ghost.get('took', ())
            if took:
                have = [x for c in took[-1:] for x in c]
            else:
                have = []
                for a, p in zip(args, F.params):
                    t = F.tu.T(p['t'])
                    if t.k == 'ptr' and not t.t.const:
                        have += list(every(E, s, a))
            for g, k, i, name in want:
                fs = [zand(g2, j == i) for g2, k2, j in have if k2 == k]
                E.oblige(s, z3.Implies(zbool(g), z3.Or(*fs) if fs else z3.BoolVal(False)), 'an identifier is handed on as it was given', fn=F.name, detail='%s %s' % (name, k))
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def every(E, s, v, g=True):
    """identifiers in a value, elements added to a list included"""
    for g2, k, i in places(E, s, v, g):
        if k is not None:
            yield g2, k, i
        else:
            for x in i.tail:
                yield from every(E, s, x, g2)


REMOVE = ('erase', 'clear', 'pop_back', 'resize', 'assign', 'swap', 'extract', 'merge', 'insert_or_assign', 'shrink', 'move', 'exchange', 'erase_if', 'forward')


def table_expr(F, x):
    """the expression denotes a table of a document itself (not an element of it)"""
    while isinstance(x, dict) and x.get('e') in ('cast', 'paren'):
        x = x['x']
    while isinstance(x, dict) and x.get('e') == 'mem':
        t = F.tu.T(x['cls']) if isinstance(x.get('cls'), int) else None
        if t is not None and t.nn == DOC:
            return x['f']
        x = x.get('x')
        while isinstance(x, dict) and x.get('e') in ('cast', 'paren'):
            x = x['x']
    return None


def shrink(prog, T):
    """identifiers stay valid: no function removes entries from the tables of the document"""
    E = T.engine()
    names = {p[0] for p in TABLES.values()} | {'fonts', 'document_objects'}
    bad, seen = [], 0
    for F in prog.fns:
        if F.body is None or '~' in F.name:
            continue
        for x in callgraph.walk(F.body):
            f = x.get('f')
            if not isinstance(f, dict) or x.get('e') not in ('mcall', 'call', 'opcall'):
                continue
            m = f.get('n', '').split('::')[-1]
            on = [x['obj']] if x['e'] == 'mcall' else []
            if x['e'] == 'call':
                on += x.get('a', [])
            if x['e'] == 'opcall':
                on += x.get('a', [])[:1]
            for o in on:
                if table_expr(F, o) in names:
                    seen += 1
                    if m in REMOVE or m == 'operator=':
                        bad.append((F.name, table_expr(F, o), m, x.get('l')))
    E.oblige(State(), seen > 10, 'the tables are used', fn='PdfDocument')
    # replaced while the document is being written, when no identifier is handed out any more
    bad = [b for b in bad if not b[0].startswith(NS + 'PdfWriter::') and b[1] != 'document_objects']
    E.oblige(State(), not bad, 'no entry of a table of the document is removed', fn='PdfDocument', detail=str(bad)[:300])


def tasks(prog, tier):
    ts = []
    for F in a14.interface(prog):
        ps = [F.tu.T(p['t']) for p in F.params]
        if any(kind(t) or t.k == 'ptr' and t.t.const and kind(t.t) for t in ps) and not any(t.k == 'int' and i and ps[i - 1].k == 'ptr' and kind(ps[i - 1].t) for i, t in enumerate(ps)):
            ts.append(Task(F.name, t_handed(F), 60, 1))
    for F, takes, gives in roots(prog):
        ts.append(Task('%s(%s)' % (F.name[len(NS):], ', '.join(short(F.tu.T(p['t'])) for p in F.params)), t_root(F, takes, gives), 200, 2))
    ts.append(Task('tables of the document', shrink, 60, 2))
    return ts


def short(t):
    return t.key.split('::')[-1][:30]


def replay(tier, seed):
    return native.run_harness('h_ids', [tier, str(seed)])


HOW = 'harness/h_ids.cpp: random applications that also pass invalid identifiers; such a call must fail, and the written document must equal, byte for byte, the one of the same application without those calls; contexts of another document at every place that takes one'
ASSUME = ['invariant |fonts| = |font_objects| of the document (an obligation of every operation except the failure of load_font)',
          'fewer than 2^30 entries in each table of the document',
          'functions outside PdfDocument, PdfGen and PdfDrawContext that take neither a document nor an identifier have any outcome and do not change the document',
          'the operators inside a text object, the lookup of subset glyphs and the serialisation of a context have any outcome; that a failing one is preceded by the check of all identifiers is an obligation',
          'identifiers in arrays given to C functions (functions, children, groups) reach the operation as a list of arbitrary content; the copying loop is covered by the harness only',
          'an identifier of another document that is in range denotes an object of this document (identifiers are plain numbers)']
