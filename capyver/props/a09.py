"""A09: characters and glyphs shown with a subset font have their own stable codes."""
import re

from ..spec import *
from .. import models, objfmt, text, native
from ..values import PtrV, VarV, VecV, SV, OptV, MapV, StrV, ExpV
from ..models import alts_of
from . import a02, a06, a13

NS = 'capypdf::internal::'
FS = NS + 'FontSubsetter'
DOC = NS + 'PdfDocument'
MAXCODE = 65535
CHARINDEX = z3.Function('char_index', z3.BitVecSort(32), z3.BitVecSort(32))


def kinds(t):
    """alternative -> index of the variant of subset entries"""
    return {a.nn.split('::')[-1]: i for i, a in enumerate(alts_of(t))}


def material(E, st, v, name):
    """every alternative of a variant has a value"""
    v = E.force(v, st)
    alts = dict(v.alts)
    for i, a in enumerate(alts_of(v.t)):
        alts[i] = E.force(alts[i] if i in alts else E.fresh(a, '%s.%d' % (name, i), st), st)
    return VarV(v.t, v.idx, alts)


def fld(E, st, v, alt, f):
    x = E.force(v.alts[kinds(v.t)[alt]], st)
    return E.force(x.f[f], st)


def zext(x, n=32):
    x = x if is_z3(x) else z3.BitVecVal(x, n)
    return z3.ZeroExt(n - x.size(), x) if x.size() < n else x


def is_kind(v, alt):
    k = kinds(v.t)[alt]
    return z3.BoolVal(v.idx == k) if isinstance(v.idx, int) else v.idx == k


def glyph_of(E, st, v):
    """index of the glyph of an entry in the font file"""
    r = tobv(fld(E, st, v, 'RegularGlyph', 'glyph_index'), 32)
    c = tobv(fld(E, st, v, 'CompositeGlyph', 'glyph_index'), 32)
    l = tobv(fld(E, st, v, 'LigatureGlyph', 'glyph_index'), 32)
    return z3.If(is_kind(v, 'RegularGlyph'), r, z3.If(is_kind(v, 'CompositeGlyph'), c, l))


def cp_of(E, st, v):
    return tobv(fld(E, st, v, 'RegularGlyph', 'unicode_codepoint'), 32)


def zero_entry(E, st, t):
    v = material(E, st, VarV(t, kinds(t)['RegularGlyph'], {}), 'zero')
    k = kinds(t)['RegularGlyph']
    r = E.force(v.alts[k], st)
    v.alts[k] = r.set('unicode_codepoint', 0).set('glyph_index', 0)
    return v


def truth(E, st, fr, pred, v):
    """formula: the predicate holds for the entry"""
    loc = E.newroot(fr, 'probe', v.t, st, v)
    n = len(st.pc)
    R = pred.t.rec
    op = [R.tu.fns[i] for i in R.ops if R.tu.fns.get(i) is not None][0]
    fs = []
    for s, k, r in E.cached_outcomes(lambda q: E.run_fn(q, op, None, [loc], fr, pred), st):
        if k != 'n':
            raise Unsupported('a predicate that throws')
        fs.append(z3.And(*([zbool(x) for x in s.pc[n:]] + [zbool(E.rv(s, r))])))
    return z3.simplify(z3.Or(*fs)) if fs else z3.BoolVal(False)


def scans(E):
    """std::find_if over the entries: the first element of the range for which the predicate holds, or the end"""
    def scan(E2, st, fr, loc, bo, eo, pred, o):
        vec = E2.force(E2.load(st, loc), st)
        if vec.et.nn != 'std::variant':
            return
        at = Loc(loc.root, loc.path + (('i', o),))
        v = material(E2, st, E2.load(st, at), 'found%d' % E2.uid())
        E2.refine(st, at, v)
        inside = z3.ULT(o, eo)
        st.pc.append(z3.Implies(inside, truth(E2, st, fr, pred, v)))
        z = truth(E2, st, fr, pred, zero_entry(E2, st, v.t))
        st.pc.append(z3.Implies(z3.And(inside, o == 0), z))
        whole = z3.And(bo == 0, eo == tobv(E2.vsize(vec), 64))
        E2.oblige(st, whole, 'all entries of the subset are searched', fn=E2.curfn)
        st.ghost['scans'] = st.ghost.get('scans', ()) + ((o, eo, pred, fr, st.copy()),)
    E.hooks['find_if'] = scan
    E.overrides['FT_Get_Char_Index'] = lambda E2, st, fr, c: CHARINDEX(tobv(E2.rv(st, c.args[1]), 32))


def vec_loc(this):
    return Loc(this.root, this.path + (('f', 'subset'), ('f', 'glyphs')))


def setup(E, F):
    """an arbitrary subset: (state, this, entries)"""
    st = State()
    this = fresh_this(E, st, F)
    o = E.force(E.load(st, this), st)
    sub = E.force(o.f['subset'], st)
    g = E.force(sub.f['glyphs'], st)
    m = E.force(sub.f['font_index_mapping'], st)
    E.store(st, this, o.set('subset', sub.set('glyphs', g).set('font_index_mapping', m)))
    n = tobv(E.vsize(g), 64)
    st.pc.append(z3.And(z3.UGE(n, 1), z3.ULE(n, MAXCODE)))      # invariant: entry 0 exists, codes fit two bytes
    return st, this, g


def parts(E):
    """handle_subglyphs by contract: appends entries of parts, the codes still fit"""
    def sub(E2, st, fr, G, this, argv, e):
        r = a02.rvoe_fresh(E2, st, G)
        l = vec_loc(this)
        g = E2.force(E2.load(st, l), st)
        if g.tail:
            raise Unsupported('entries appended before the parts')
        n = E2.fresh64('parts')
        a, b = tobv(E2.vsize(g), 64), simp(tobv(E2.vsize(g), 64) + n)
        st.pc.append(z3.And(z3.ULE(n, MAXCODE), z3.Or(n == 0, z3.ULE(b, MAXCODE - 1)), z3.Implies(z3.Not(zbool(r.ok)), n == 0)))
        E2.store(st, l, VecV(g.et, g.buid, b, g.boff, (), g.known))
        st.ghost['parts'] = True
        return r
    E.fnhooks[FS + '::handle_subglyphs'] = sub


def t_get(F):
    lig = not decay(F.tu.T(F.params[0]['t'])).k == 'int'

    def run(prog, T):
        E = T.engine(refine=True)
        scans(E)
        parts(E)
        st, this, g0 = setup(E, F)
        args = fresh_args(E, st, F)
        n0 = tobv(E.vsize(g0), 64)
        cp = None if lig else tobv(E.force(E.rv(st, args[0]), st), 32)
        gid = E.force(E.rv(st, args[1]), st)
        if isinstance(gid, OptV):
            given, gv = zbool(gid.has), tobv(E.force(gid.v, st), 32)
        else:
            given, gv = z3.BoolVal(True), tobv(gid, 32)
        want = gv if lig else z3.If(given, gv, CHARINDEX(cp))
        cnt = 0
        for s, k, v in call_fn(E, F, args, this, st):
            if k != 'n':
                E.oblige(s, False, 'assigning a code does not throw', fn=F.name)
                continue
            cnt += 1
            r = E.force(E.rv(s, v), s)
            g = E.force(E.load(s, vec_loc(this)), s)
            grown = z3.UGE(tobv(g.bsize, 64), n0)
            E.oblige(s, z3.And(z3.BoolVal(g.buid == g0.buid), grown), 'entries are only appended', fn=F.name, detail='%s %s %s %s' % (g.buid, g0.buid, g.bsize, g.tail))
            size = tobv(E.vsize(g), 64)
            E.oblige(s, z3.ULE(size, MAXCODE), 'the codes of a subset fit in two bytes', fn=F.name)
            s2 = s.copy()
            s2.pc.append(zbool(r.ok))
            if not E.feasible(s2):
                continue
            off = tobv(E.force(E.force(r.v, s2).f['offset'], s2), 32)
            o64 = z3.ZeroExt(32, off)
            E.oblige(s2, z3.ULT(o64, size), 'the code is one of the subset', fn=F.name)
            E.oblige(s2, z3.Or(off != 0, want == 0), 'code 0 stays the missing glyph', fn=F.name)
            sc = s2.ghost.get('scans', ())
            E.oblige(s2, bool(sc), 'existing entries are searched', fn=F.name)
            found = [c for c in sc if E.decide3(s2, z3.And(z3.ULT(c[0], c[1]), c[0] == o64)) is True]
            if len(g.tail) == 1 and not found:
                x = material(E, s2, g.tail[0], 'new')
                E.oblige(s2, o64 == tobv(g.bsize, 64), 'the code of a new entry is its position', fn=F.name)
                E.oblige(s2, glyph_of(E, s2, x) == want, 'the new entry shows the glyph that was asked for', fn=F.name)
                if lig:
                    E.oblige(s2, is_kind(x, 'LigatureGlyph'), 'the new entry holds the text', fn=F.name)
                    for p, f in eq_state(E, s2, fld(E, s2, x, 'LigatureGlyph', 'text'), E.force(E.rv(s2, args[0]), s2)):
                        E.oblige(s2, f, 'the new entry holds the text', fn=F.name)
                else:
                    E.oblige(s2, z3.And(is_kind(x, 'RegularGlyph'), cp_of(E, s2, x) == cp), 'the new entry holds the character', fn=F.name)
                E.oblige(s2, want != 0, 'no entry is made for a missing glyph', fn=F.name) if not lig else None
                for c in sc:
                    E.oblige(s2, c[0] == c[1], 'a new entry is made only when the search found none', fn=F.name)
                o, e, pred, fr, then = sc[-1]
                E.oblige(s2, truth(E, then.copy(), fr, pred, x), 'the search for the same request finds the new entry', fn=F.name)
                y = material(E, s2, VarV(x.t, kinds(x.t)['CompositeGlyph'], {}), 'part')
                E.oblige(s2, z3.Not(truth(E, then.copy(), fr, pred, y)), 'the search does not find parts of composite glyphs', fn=F.name)
                m = E.force(E.force(E.force(E.load(s2, this), s2).f['subset'], s2).f['font_index_mapping'], s2)
                ok = [z3.And(tobv(E.force(kk, s2), 32) == want, tobv(E.force(vv, s2), 32) == off) for kk, vv in m.entries]
                E.oblige(s2, z3.Or(*ok) if ok else False, 'the mapping of composite parts names the new entry', fn=F.name)
            else:
                E.oblige(s2, bool(found) and not g.tail and g.bsize is g0.bsize or same_term(g.bsize, g0.bsize), 'a known request changes nothing', fn=F.name)
                x = material(E, s2, E.load(s2, Loc(this.root, vec_loc(this).path + (('i', found[-1][0] if found else o64),))), 'old')
                E.oblige(s2, glyph_of(E, s2, x) == want, 'the code found shows the glyph that was asked for', fn=F.name)
                if not lig:
                    E.oblige(s2, z3.Or(given, z3.And(is_kind(x, 'RegularGlyph'), cp_of(E, s2, x) == cp)), 'the code found is that of the character', fn=F.name)
        if not cnt:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def t_construct(prog, T):
    F = find(prog, FS + '::construct')
    E = T.engine()

    def parse(E2, st, fr, G, this, argv, e):
        return a02.rvoe_fresh(E2, st, G)
    for G in prog.fns:
        if G.name.split('::')[-1] == 'load_and_parse_font_file':
            E.fnhooks[G.name] = parse
    n = 0
    for s, k, v in call_fn(E, F):
        if k != 'n':
            continue
        r = E.force(E.rv(s, v), s)
        s.pc.append(zbool(r.ok))
        if not E.feasible(s):
            continue
        n += 1
        sub = E.force(E.force(r.v, s).f['subset'], s)
        g = E.force(sub.f['glyphs'], s)
        m = E.force(sub.f['font_index_mapping'], s)
        E.oblige(s, tobv(E.vsize(g), 64) == 1, 'a new subset has one entry', fn=F.name)
        x = material(E, s, E.vec_get(s, g, 0)[1], 'first')
        E.oblige(s, z3.And(is_kind(x, 'RegularGlyph'), glyph_of(E, s, x) == 0, cp_of(E, s, x) == 0), 'the first entry of a subset is the missing glyph', fn=F.name)
        E.oblige(s, tobv(m.size, 64) == 0, 'a new subset maps no glyph', fn=F.name)
    if not n:
        E.oblige(State(), False, 'an outcome exists', fn=F.name)


def t_parts(prog, T):
    F = find(prog, FS + '::handle_subglyphs')
    E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
    ids = {}

    def fresh(E2, st, fr, G, this, argv, e):
        r = a02.rvoe_fresh(E2, st, G)
        if G.name.endswith('get_all_subglyphs'):
            v = E2.force(r.v, st)
            r = ExpV(r.t, r.ok, v, r.e)
            ids[v.buid] = v
        return r
    for G in prog.fns:
        if G.name.split('::')[-1] in ('get_all_subglyphs', 'is_composite_glyph'):
            E.fnhooks[G.name] = fresh
    st, this, g0 = setup(E, F)
    args = fresh_args(E, st, F)
    l = vec_loc(this)
    n0 = tobv(E.vsize(g0), 64)
    grown = lambda g: z3.ULE(tobv(E.vsize(g), 64), MAXCODE)
    for s, k, v in call_fn(E, F, args, this, st):
        if k != 'n':
            E.oblige(s, False, 'adding parts does not throw', fn=F.name)
            continue
        r = E.force(E.rv(s, v), s)
        g = E.force(E.load(s, l), s)
        s1 = s.copy()
        s1.pc.append(z3.Not(zbool(r.ok)))
        if E.feasible(s1):
            E.oblige(s1, g.buid == g0.buid and same_term(g.bsize, g0.bsize) and not g.tail, 'a failure appends nothing', fn=F.name)
    lids = []
    for lid, L in E.loops.items():
        chg = False
        for base, a in L['its']:
            b, x = E.force(E.load(base, l), base), E.force(E.load(a, l), a)
            if same_val(b, x):
                continue
            chg = True
            ok = x.buid == b.buid and same_term(x.bsize, b.bsize) and x.tail[:len(b.tail)] == b.tail and len(x.tail) - len(b.tail) <= 1
            E.oblige(a, ok, 'one step appends at most one entry', fn=F.name)
            if ok and len(x.tail) > len(b.tail):
                v = material(E, a, x.tail[-1], 'p')
                E.oblige(a, is_kind(v, 'CompositeGlyph'), 'the appended entry is a part without a character', fn=F.name)
                m = E.force(E.force(E.force(E.load(a, this), a).f['subset'], a).f['font_index_mapping'], a)
                pos = z3.Extract(31, 0, tobv(E.vsize(x), 64) - 1)
                f = [z3.And(tobv(E.force(kk, a), 32) == glyph_of(E, a, v), tobv(E.force(vv, a), 32) == pos) for kk, vv in m.entries]
                E.oblige(a, z3.Or(*f) if f else False, 'the mapping of composite parts names the new entry', fn=F.name)
        if chg:
            lids.append(lid)
            s = L['entry']
            g = E.force(E.load(s, l), s)
            E.oblige(s, g.buid == g0.buid and same_term(g.bsize, g0.bsize) and not g.tail, 'nothing is appended before the parts', fn=F.name)
            big = [tobv(E.vsize(v), 64) for v in ids.values()]
            E.oblige(s, z3.Or(*[z3.And(z3.ULE(b, MAXCODE), z3.ULE(b + n0, MAXCODE - 1)) for b in big]) if big else False, 'the parts fit in the subset before any is appended', fn=F.name)
            E.oblige(s, any(text.indices(E, lid, lambda q, v=v: E.vsize(v)) for v in ids.values()), 'one step for each part', fn=F.name)
    E.oblige(State(), len(lids) == 1, 'one loop appends the parts', fn=F.name)


def t_doc(F):
    def run(prog, T):
        E = T.engine()
        E.overrides['FT_Get_Char_Index'] = lambda E2, st, fr, c: CHARINDEX(tobv(E2.rv(st, c.args[1]), 32))
        st = State()
        this = fresh_this(E, st, F)
        args = fresh_args(E, st, F)
        given = [E.force(E.rv(st, a), st) for a in args]

        def get(E2, s, fr, G, th, argv, e):
            r = a02.rvoe_fresh(E2, s, G)
            q = E2.force(r.v, s)
            off = E2.force(q.f['offset'], s)
            r = ExpV(r.t, r.ok, q.set('offset', off), r.e)
            s.pc.append(z3.ULT(tobv(off, 32), MAXCODE))          # proved for both functions
            s.ghost['gets'] = s.ghost.get('gets', ()) + ((th, [E2.force(E2.rv(s, a), s) for a in argv], r),)
            return r
        E.fnhooks[FS + '::get_glyph_subset'] = get
        n = 0
        for s, k, v in call_fn(E, F, args, this, st):
            if k != 'n':
                continue
            r = E.force(E.rv(s, v), s)
            s.pc.append(zbool(r.ok))
            if not E.feasible(s):
                continue
            n += 1
            cs = s.ghost.get('gets', ())
            E.oblige(s, len(cs) == 1, 'the subset is asked once', fn=F.name)
            if len(cs) != 1:
                continue
            th, a, q = cs[0]
            path = repr(th)
            fid = tobv(a13.idof(E, s, args[0]), 32)
            ix = [x for x in th.path if x[0] == 'i']
            E.oblige(s, zbool(q.ok), 'a failure is passed on', fn=F.name)
            E.oblige(s, 'fonts' in path and len(ix) == 1 and (tobv(ix[0][1], 64) == z3.SignExt(32, fid)), 'the subset is that of the font', fn=F.name, detail=path)
            for x, y in zip(a, given[1:]):
                for p, f in eq_state(E, s, x, y):
                    E.oblige(s, f, 'the request is passed on as it is', fn=F.name)
            if isinstance(given[2], OptV):
                E.oblige(s, z3.Or(zbool(given[2].has), CHARINDEX(tobv(given[1], 32)) != 0), 'a character without a glyph is rejected', fn=F.name)
            out = E.force(r.v, s)
            E.oblige(s, zext(E.force(out.f['glyph_id'], s)) == tobv(E.force(q.v.f['offset'], s), 32), 'the code is the one of the subset', fn=F.name)
            E.oblige(s, tobv(E.force(E.force(E.force(out.f['ss'], s).f['fid'], s).f['id'], s), 32) == fid, 'the code belongs to the font', fn=F.name)
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def t_index(prog, T):
    F = find(prog, NS + 'font_id_for_glyph')
    E = T.engine()
    st = State()
    args = fresh_args(E, st, F)
    v = material(E, st, E.rv(st, args[0]), 'g')
    E.store(st, args[0], v)
    n = 0
    for s, k, r in call_fn(E, F, args, None, st):
        n += 1
        E.oblige(s, k == 'n' and tobv(E.rv(s, r), 32) == glyph_of(E, s, v), 'the glyph of an entry is the one it was made for', fn=F.name)
    E.oblige(State(), n > 0, 'an outcome exists', fn=F.name)


class Appended:
    """texts are followed through loops as: the text before, then what each iteration appends"""

    def worlds(self, st, rope):
        return [(st, 0)]

    def summary(self, E, st, v):
        return frozenset([0])

    def last_char(self, E, st, x, c):
        pass


ADVANCE = z3.Function('advance', z3.BitVecSort(32), z3.BitVecSort(64))


def entries(E, st, args, k):
    """the entries of a subset given by reference: at least one, the first is the missing glyph"""
    g = E.force(E.rv(st, args[k]), st)
    n = tobv(E.vsize(g), 64)
    st.pc.append(z3.And(z3.UGE(n, 1), z3.ULE(n, MAXCODE)))
    if isinstance(args[k], Loc):
        E.store(st, args[k], g)
    else:
        args[k] = g
    return g


def entry(E, s, g, i):
    """entry at an index, written out"""
    return material(E, s, E.vec_get(s, g, i)[1], 'entry%d' % E.uid())


def symbols(t):
    """free variables and uninterpreted functions of a term"""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x)
            continue
        todo += x.children()
    return out


def written(E, s, lid):
    """the text a loop appends to"""
    r = []
    for k, v in s.mem.items():
        v = E.force(v, s) if not isinstance(v, (int, float)) and not is_z3(v) else v
        if isinstance(v, StrV) and v.p and isinstance(v.p[0], tuple) and v.p[0][0] == 'abs' and E.absof.get(v.p[0][1], (None,))[0] == lid:
            r.append(v.p)
    if len(r) != 1:
        raise Unsupported('%d texts written by a loop' % len(r))
    return r[0]


def shows(E, s, gid, tok, fn):
    """the number is computed from the advance of the glyph"""
    if isinstance(tok, bytes):
        E.oblige(s, z3.And(gid == 0, z3.BoolVal(tok == b'0')), 'the width is that of the glyph of the entry', fn=fn, detail=repr(tok))
        return
    adv = [x for x in symbols(tok[3]) if x.decl().eq(ADVANCE)]
    E.oblige(s, z3.And(*[x.arg(0) == gid for x in adv]) if adv else gid == 0, 'the width is that of the glyph of the entry', fn=fn, detail=repr(tok)[:300])
    if not adv:
        E.oblige(s, tok[3] == 0, 'the missing glyph has no width', fn=fn)


def t_widths(prog, T):
    F = find(prog, NS + 'build_subset_width_array')
    E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
    E.rope_dom = Appended()
    st = State()
    args = fresh_args(E, st, F)
    g = entries(E, st, args, 1)

    def load(E2, s, fr, c):
        face = E2.rv(s, c.args[0])
        gid = tobv(E2.rv(s, c.args[1]), 32)
        slot = E2.rv(s, Loc(face.loc.root, face.loc.path + (('f', 'glyph'),)))
        E2.store(s, Loc(slot.loc.root, slot.loc.path + (('f', 'metrics'), ('f', 'horiAdvance'))), ADVANCE(gid))
        return E2.fresh(decay(c.type), 'err%d' % E2.uid(), s)
    E.overrides['FT_Load_Glyph'] = load
    n = 0
    for s, k, v in call_fn(E, F, args, None, st):
        if k != 'n':
            E.oblige(s, False, 'writing the widths does not throw', fn=F.name)
            continue
        r = E.force(E.rv(s, v), s)
        s.pc.append(zbool(r.ok))
        if not E.feasible(s):
            continue
        n += 1
        for q, ts in text.tokens(E, s, E.force(r.v, s).p):
            good = len(ts) == 3 and ts[0] == b'[' and ts[2] == b']' and ts[1][0] == 'loop'
            E.oblige(q, good, 'the widths are one array', fn=F.name, detail=repr(ts)[:200])
            if not good or ts[1][1] in E.__dict__.setdefault('checked', set()):
                continue
            lid = ts[1][1]
            E.checked.add(lid)
            get = a13.vec_elem(E, lid, g)
            E.oblige(State(), get is not None, 'each entry has its width, in order', fn=F.name)
            if get is None:
                continue
            for base, a, rs in text.iterations(E, lid, lambda q: written(E, q, lid)):
                for q2, t2 in rs:
                    i, x = get(base, q2)
                    x = material(E, q2, x, 'entry%d' % E.uid())
                    ok = len(t2) == 1 and (isinstance(t2[0], bytes) or t2[0][:2] == ('fmt', 'i'))
                    E.oblige(q2, ok, 'one number for each entry', fn=F.name, detail=repr(t2)[:200])
                    if ok:
                        shows(E, q2, glyph_of(E, q2, x), t2[0], F.name)
    E.oblige(State(), n > 0, 'widths are written', fn=F.name)


def lines(p):
    """pieces -> lines, each a list of pieces"""
    out = [[]]
    for x in p:
        if not isinstance(x, bytes):
            out[-1].append(x)
            continue
        for k, b in enumerate(x.split(b'\n')):
            if k:
                out.append([])
            if b:
                out[-1].append(b)
    return out


def hex4(x, v):
    """formula: the piece is the 16 bit number in four hexadecimal digits"""
    if isinstance(x, bytes):
        return v == int(x, 16) if re.fullmatch(rb'[0-9A-Fa-f]{4}', x) else z3.BoolVal(False)
    if not (x[0] == 'fmt' and x[1] in ('u', 'i') and x[2] in ('04X', '04x')):
        return z3.BoolVal(False)
    w = zext(x[3], 64)
    return z3.And(z3.ULE(w, 0xffff), w == v)


def appended(E, lid):
    """[(base, state, pieces appended by an iteration)]"""
    out = []
    for base, a in E.loops[lid]['its']:
        b = written(E, base, lid)
        if len(b) != 1:
            raise Unsupported('loop text is not abstract')
        for q, pp in text.expand(E, a, text.unfold(E, written(E, a, lid), (b[0][1],))):
            if not pp or pp[0] != b[0]:
                raise Unsupported('a loop that does not only append')
            out.append((base, q, pp[1:]))
    return out


def t_cmap(prog, T):
    F = find(prog, NS + 'create_cidfont_subset_cmap')
    E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
    E.rope_dom = Appended()
    E.overrides['getenv'] = lambda E2, s, fr, c: PtrV(True, None, 0)
    txt = {}

    def quote(E2, s, fr, G, this, argv, e):
        u = E2.uid()
        txt[u] = (E2.force(E2.load(s, argv[0]), s), E2.rv(s, argv[1]))
        return StrV((('quoted', u),))
    for G in prog.fns:
        if G.name == NS + 'utf8_to_pdfutf16be':
            E.fnhooks[G.name] = quote
    st = State()
    args = fresh_args(E, st, F)
    g = entries(E, st, args, 0)
    size = tobv(E.vsize(g), 64)
    n = 0
    for s, k, v in call_fn(E, F, args, None, st):
        if k != 'n':
            E.oblige(s, False, 'writing the text mapping does not throw', fn=F.name)
            continue
        n += 1
        for q, pp in text.expand(E, s, text.unfold(E, E.force(E.rv(s, v), s).p)):
            at = [i for i, x in enumerate(pp) if isinstance(x, tuple) and x[0] == 'loop']
            det = repr(pp)[-300:]
            E.oblige(q, len(at) == 1, 'one list of mappings is written', fn=F.name, detail=det)
            if len(at) != 1:
                continue
            pre, post = pp[:at[0]], pp[at[0] + 1:]
            ok = all(isinstance(x, bytes) for x in pre + post)
            E.oblige(q, ok and b'1 begincodespacerange\n<0000> <ffff>\nendcodespacerange\n' in b''.join(pre).lower() and b''.join(pre).endswith(b'\n'), 'the mapping covers two byte codes', fn=F.name, detail=det)
            tail = b''.join(post) if ok else b''
            E.oblige(q, z3.If(z3.UGT(size, 1), tail.startswith(b'endbfchar\nendcmap\n'), tail.startswith(b'endcmap\n')), 'the last block of the mapping is closed', fn=F.name, detail=det)
            lid = pp[at[0]][1]
            if lid in E.__dict__.setdefault('checked', set()):
                continue
            E.checked.add(lid)
            ix = text.indices(E, lid, lambda s2: E.vsize(g), 1)
            E.oblige(State(), bool(ix), 'each entry but the first is mapped, in order', fn=F.name)
            if ix:
                for base, a, pc in appended(E, lid):
                    i = E.load(base, ix[0])
                    mapping(E, a, zext(i, 64), size, entry(E, a, g, zext(i, 64)), lines(pc), txt, F.name)
    E.oblige(State(), n > 0, 'the text mapping is written', fn=F.name)


def mapping(E, s, i, size, x, ls, txt, fn):
    """lines written for entry i"""
    det = repr(ls)[:300]
    s.pc.append(z3.And(z3.UGE(i, 1), z3.ULT(i, size)))
    good = len(ls) in (2, 3, 4) and not ls[-1]
    E.oblige(s, good, 'one line for each entry', fn=fn, detail=det)
    if not good:
        return
    head, line = ls[:-2], ls[-2]
    first = z3.URem(i, z3.BitVecVal(100, 64)) == 1
    E.oblige(s, z3.And(first == bool(head), z3.Implies(first, (len(head) == 2) == z3.UGT(i, 1))), 'a block holds at most 100 mappings', fn=fn, detail=det)
    if head:
        E.oblige(s, len(head) == 1 or head[0] == [b'endbfchar'], 'a block is closed before the next one', fn=fn, detail=det)
        b = head[-1]
        left = size - i
        cnt = z3.If(z3.ULE(left, 100), left, z3.BitVecVal(100, 64))
        ok = len(b) == 2 and b[1] == b' beginbfchar'
        E.oblige(s, text.is_num(b[0], cnt) if ok else False, 'a block states the number of its mappings', fn=fn, detail=det)
    if len(line) == 3 and isinstance(line[2], bytes) and re.fullmatch(rb'> <[0-9A-Fa-f]{4}>', line[2]):
        line = [line[0], line[1], b'> <', line[2][3:-1], b'>']
    ok = len(line) in (5, 6) and line[0] == b'<' and line[2] == b'> <' and line[-1] == b'>'
    E.oblige(s, ok, 'a mapping is a code and a text', fn=fn, detail=det)
    if not ok:
        return
    E.oblige(s, hex4(line[1], i), 'a mapping names the code of the entry', fn=fn, detail=det)
    to = line[3:-1]
    s1 = s.copy()
    s1.pc.append(is_kind(x, 'LigatureGlyph'))
    if E.feasible(s1):
        ok = len(to) == 1 and isinstance(to[0], tuple) and to[0][0] == 'quoted'
        E.oblige(s1, ok, 'text of several characters is written in UTF-16', fn=fn, detail=det)
        if ok:
            v, bare = txt[to[0][1]]
            E.oblige(s1, z3.Not(zbool(bare)), 'the text has no string delimiters', fn=fn)
            for p, f in eq_state(E, s1, v, fld(E, s1, x, 'LigatureGlyph', 'text')):
                E.oblige(s1, f, 'the text is the one the entry was made for', fn=fn)
    s2 = s.copy()
    s2.pc.append(z3.Not(is_kind(x, 'LigatureGlyph')))
    s2.pc.append(z3.ULE(cp_of(E, s2, x), 0x10ffff))
    if E.feasible(s2):
        cp = zext(z3.If(is_kind(x, 'RegularGlyph'), cp_of(E, s2, x), z3.BitVecVal(0, 32)), 64)
        off = cp - 0x10000
        one = z3.And(z3.ULE(cp, 0xffff), hex4(to[0], cp)) if len(to) == 1 else z3.BoolVal(False)
        two = z3.And(z3.UGT(cp, 0xffff), hex4(to[0], 0xd800 + z3.LShR(off, 10)), hex4(to[1], 0xdc00 + (off & 0x3ff))) if len(to) == 2 else z3.BoolVal(False)
        E.oblige(s2, z3.Or(one, two), 'the text is the character of the entry', fn=fn, detail=det)


def grows(E, lid, t):
    """[(base, after, new elements)] of the one vector of the type that a loop appends to"""
    out = []
    for base, a in E.loops[lid]['its']:
        r = []
        for k, v0 in base.mem.items():
            v, w = (E.force(y, x) if isinstance(y, (SV, VecV)) or type(y).__name__ == 'LazyV' else None for x, y in ((base, v0), (a, a.mem.get(k))))
            if isinstance(v, VecV):
                pairs = [(v, w)]
            elif isinstance(v, SV) and isinstance(w, SV):
                pairs = [(v.f[f], w.f.get(f)) for f in v.f if isinstance(v.f[f], VecV)]
            else:
                pairs = []
            for v, w in pairs:
                if isinstance(w, VecV) and v.et.key == t.key and not same_val(v, w):
                    ok = w.buid == v.buid and same_term(w.bsize, v.bsize) and w.tail[:len(v.tail)] == v.tail
                    r.append((k, w.tail[len(v.tail):] if ok else None))
        if len(r) > 1:
            raise Unsupported('%d vectors written by a loop' % len(r))
        out.append((base, a, r[0][1] if r else ()))
    return out


def t_glyphs(prog, T):
    """subset_glyphs: the font has one glyph for each entry, that of the entry"""
    F = find(prog, NS + 'subset_glyphs')
    E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
    E.rope_dom = Appended()
    E.hooks['mark_loops'] = True
    data = {}

    def get(E2, s, fr, G, this, argv, e):
        r = a02.rvoe_fresh(E2, s, G)
        v = E2.force(r.v, s)
        data[v.buid] = tobv(E2.rv(s, argv[2]), 32)
        return ExpV(r.t, r.ok, v, r.e)
    for G in prog.fns:
        if G.name == NS + 'get_glyph_data':
            E.fnhooks[G.name] = get
        if G.name.split('::')[-1] in ('reassign_composite_glyph_numbers',):
            E.fnhooks[G.name] = lambda E2, s, fr, G, this, argv, e: a02.rvoe_fresh(E2, s, G)
    st = State()
    args = list(fresh_args(E, st, F))
    g = entries(E, st, args, 2)
    n = 0
    t = None
    ends = []
    for s, k, v in call_fn(E, F, args, None, st):
        if k != 'n':
            continue
        r = E.force(E.rv(s, v), s)
        s.pc.append(zbool(r.ok))
        if E.feasible(s):
            n += 1
            ends.append(s)
            t = E.force(r.v, s).et
    E.oblige(State(), n > 0, 'glyphs are written', fn=F.name)
    if t is not None:
        per_entry(E, g, t, F.name, lambda q, x, new: glyph_data(E, q, x, new, data, F.name), ends)


def glyph_data(E, q, x, new, data, fn):
    v = E.force(new, q)
    gid = data.get(v.buid)
    E.oblige(q, gid is not None and gid == glyph_of(E, q, x), 'the glyph of an entry is the one it was made for', fn=fn)


def per_entry(E, g, t, fn, check, ends):
    """a loop appends exactly one element for each entry"""
    lids = []
    for lid in list(E.loops):
        its = grows(E, lid, t)
        if not any(new is None or new for base, a, new in its):
            continue
        lids.append(lid)
        get = a13.vec_elem(E, lid, g)
        E.oblige(State(), get is not None, 'each entry is visited once, in order', fn=fn)
        for base, a, new in its if get else ():
            E.oblige(a, new is not None and len(new) == 1, 'one element is written for each entry', fn=fn)
            if new and len(new) == 1:
                i, x = get(base, a)
                check(a, material(E, a, x, 'entry%d' % E.uid()), new[0])
    for s in ends:
        E.oblige(s, len([1 for k, l in s.ghost.get('ev', ()) if k == 'loop' and l in lids]) == 1, 'one loop writes the elements', fn=fn)


def read(E, s, vec, idx, same):
    """formula: one of the elements that were looked at is the one at the index, and satisfies the condition"""
    fs = []
    for (buid, ik, bk), (nm, i, boff) in list(E.elname.items()):
        if buid == vec.buid:
            fs.append(z3.And(tobv(i, 64) == idx, same(E.force(E.vec_get(s, vec, i)[1], s))))
    return z3.Or(*fs) if fs else z3.BoolVal(False)


def t_hmtx(prog, T):
    """subset_hmtx: the metrics of an entry are those of its glyph"""
    F = find(prog, NS + 'subset_hmtx')
    E = T.engine(joint=lambda root, path: 'rope', nopeel=True)
    E.rope_dom = Appended()
    E.hooks['mark_loops'] = True
    st = State()
    args = fresh_args(E, st, F)
    g = entries(E, st, args, 1)
    src = E.force(E.load(st, args[0]), st)
    h = E.force(src.f['hmtx'], st)
    lh, ls = E.force(h.f['longhor'], st), E.force(h.f['left_side_bearings'], st)
    E.store(st, args[0], src.set('hmtx', h.set('longhor', lh).set('left_side_bearings', ls)))
    n = 0
    t = lh.et
    ends = []
    for s, k, v in call_fn(E, F, args, None, st):
        n += k == 'n'
        if k == 'n':
            ends.append(s)
    E.oblige(State(), n > 0, 'metrics are written', fn=F.name)

    def check(q, x, new):
        gid = zext(glyph_of(E, q, x), 64)
        k = tobv(E.vsize(lh), 64)
        y = E.force(new, q)
        inside = z3.ULT(gid, k)
        adv = lambda o: tobv(E.force(o.f['advance_width'], q), 16) == tobv(E.force(y.f['advance_width'], q), 16)
        lsb = lambda o: tobv(E.force(o.f['lsb'], q), 16) == tobv(E.force(y.f['lsb'], q), 16)
        E.oblige(q, read(E, q, lh, z3.If(inside, gid, k - 1), adv), 'the advance of an entry is that of its glyph', fn=F.name)
        b = tobv(E.force(y.f['lsb'], q), 16)
        E.oblige(q, z3.Or(z3.And(inside, read(E, q, lh, gid, lsb)), z3.And(z3.Not(inside), tobv(E.force(E.vec_get(q, ls, gid - k)[1], q), 16) == b)), 'the bearing of an entry is that of its glyph', fn=F.name)
    per_entry(E, g, t, F.name, check, ends)


def is_code(spec):
    return spec in ('04x', '04X')


def stream(E):
    """requests of codes and codes written, as ghost trace; operators have any outcome"""
    def text_op(E2, st, fr, G, this, argv, e):
        if G.name.startswith(a06.STREAM) and not G.isctor or G.name in (NS + 'utf8_to_pdfutf16be',):
            rt = decay(G.tu.T(G.ret))
            return VOID if rt.k == 'void' else a06.plain(E2, st, fr, G, this, argv, e)
        return NotImplemented
    E.hooks['anyfn'] = text_op

    def get(E2, s, fr, G, th, argv, e):
        r = a02.rvoe_fresh(E2, s, G)
        v = E2.force(r.v, s)
        code = E2.force(v.f['glyph_id'], s)
        r = ExpV(r.t, r.ok, v.set('glyph_id', code), r.e)
        a = [E2.force(E2.rv(s, x), s) for x in argv]
        s.ghost['ev'] = s.ghost.get('ev', ()) + (('req', zbool(r.ok), tobv(code, 16), a13.idof(E2, s, a[0]), a[1:]),)
        return r
    E.fnhooks[DOC + '::get_subset_glyph'] = get

    def fmt(name):
        plain = models.MODELS[name]

        def f(E2, s, fr, c):
            k = 0 if name == 'std::format' else 1
            lit = E2.rv(s, c.args[k]).info
            if isinstance(lit, bytes) and re.search(rb'\{:04[xX]\}', lit):
                ok = re.fullmatch(rb'<?\{:04[xX]\}>? ?', lit) is not None and len(c.args) == k + 2
                v = E2.rv(s, c.args[k + 1])
                last = [x for x in s.ghost.get('ev', ()) if x[0] == 'req'][-1:]
                if ok and last:
                    n = v.size() if is_z3(v) else 64
                    E2.oblige(s, z3.And(last[0][1], zext(tobv(v, n), 64) == zext(last[0][2], 64)), 'the code written is the one that was assigned', fn=E2.curfn)
                else:
                    E2.oblige(s, False, 'the code written is the one that was assigned', fn=E2.curfn, detail=repr(lit))
                s.ghost['ev'] = s.ghost.get('ev', ()) + (('code',),)
            return plain(E2, s, fr, c)
        return f
    for n in ('std::format', 'std::format_to'):
        E.overrides[n] = fmt(n)


def since(base, a):
    x, y = base.ghost.get('ev', ()), a.ghost.get('ev', ())
    if y[:len(x)] != x:
        raise Unsupported('trace of an iteration')
    return y[len(x):]


def t_stream(name):
    def run(prog, T):
        F = find(prog, a06.DC + '::' + name)
        E = T.engine(joint=lambda root, path: 'rope', nopeel=True, refine=True)
        E.rope_dom = Appended()
        stream(E)
        st = State()
        this = fresh_this(E, st, F)
        args = list(fresh_args(E, st, F))
        n = 0
        seq = E.force(E.rv(st, args[0]), st)
        E.store(st, args[0], seq)
        font = None
        if name != 'serialize_text':
            k = 2 if name == 'serialize_charsequence' else 1
            font = a13.idof(E, st, args[k])
        for s, k, v in call_fn(E, F, args, this, st):
            n += k == 'n'
        E.oblige(State(), n > 0, 'text is written', fn=F.name)
        m = 0
        for lid in list(E.loops):
            L = E.loops[lid]
            if font is not None:
                for base, a in L['its']:
                    for x in since(base, a):
                        if x[0] == 'req':
                            E.oblige(a, x[3] == font, 'codes are assigned by the font of the text', fn=F.name)
            if not isinstance(seq, VecV):
                continue
            get = a13.vec_elem(E, lid, seq)
            if get is None:
                continue
            m += 1
            for base, a in L['its']:
                i, x = get(base, a)
                ev = [y for y in since(base, a) if y[0] in ('req', 'code')]
                if isinstance(E.force(x, a), VarV):
                    event(E, a, material(E, a, x, 'event%d' % E.uid()), ev, F.name)
                else:
                    good = [y[0] for y in ev] == ['req', 'code']
                    E.oblige(a, good, 'one code is written for each glyph', fn=F.name)
                    if good:
                        E.oblige(a, tobv(ev[0][4][0], 32) == tobv(E.force(E.force(x, a).f['codepoint'], a), 32), 'the code is that of the character', fn=F.name)
        if isinstance(seq, VecV):
            E.oblige(State(), m > 0, 'each element is visited once, in order', fn=F.name)
    return run


def event(E, s, x, ev, fn):
    """codes written for one element of a text sequence"""
    kinds_ = {a.nn.split('::')[-1]: i for i, a in enumerate(alts_of(x.t))}
    shape = [y[0] for y in ev]
    for alt, i in kinds_.items():
        q = s.copy()
        q.pc.append(z3.BoolVal(x.idx == i) if isinstance(x.idx, int) else x.idx == i)
        if alt == 'u8string' or not E.feasible(q):
            continue
        if alt not in ('UnicodeCharacter', 'GlyphItem', 'GlyphTextItem'):
            E.oblige(q, shape == [], 'only text writes codes', fn=fn, detail=alt)
            continue
        E.oblige(q, shape == ['req', 'code'], 'one code is written for each character', fn=fn, detail=alt)
        if shape != ['req', 'code']:
            continue
        a = ev[0][4]
        v = E.force(x.alts[i], q)
        g = E.force(a[1], q)
        if alt == 'GlyphTextItem':
            for p, f in eq_state(E, q, a[0], E.force(v.f['source_text'], q)):
                E.oblige(q, f, 'the code is that of the text', fn=fn)
            E.oblige(q, tobv(g, 32) == tobv(E.force(v.f['glyph_id'], q), 32) if not isinstance(g, OptV) else False, 'the code is that of the glyph', fn=fn)
            continue
        cp = E.force(v.f['codepoint' if alt == 'UnicodeCharacter' else 'unicode_codepoint'], q)
        E.oblige(q, tobv(a[0], 32) == tobv(cp, 32), 'the code is that of the character', fn=fn, detail=alt)
        if alt == 'UnicodeCharacter':
            E.oblige(q, z3.Not(zbool(g.has)), 'the glyph of a character is the one of the font', fn=fn)
        else:
            E.oblige(q, z3.And(zbool(g.has), tobv(E.force(g.v, q), 32) == tobv(E.force(v.f['glyph_id'], q), 32)), 'the code is that of the glyph', fn=fn)


def tasks(prog, tier):
    ts = [Task('FontSubsetter::construct', t_construct, 60, 1),
          Task('FontSubsetter::handle_subglyphs', t_parts, 60, 1),
          Task('font_id_for_glyph', t_index, 60, 1),
          Task('build_subset_width_array', t_widths, 60, 1),
          Task('create_cidfont_subset_cmap', t_cmap, 60, 1),
          Task('subset_glyphs', t_glyphs, 60, 1),
          Task('subset_hmtx', t_hmtx, 60, 1),
          Task('PdfDrawContext::serialize_charsequence', t_stream('serialize_charsequence'), 100, 10),
          Task('PdfDrawContext::serialize_glyphs', t_stream('serialize_glyphs'), 100, 10),
          Task('PdfDrawContext::serialize_text', t_stream('serialize_text'), 100, 20)]
    for F in findall(prog, FS + '::get_glyph_subset'):
        ts.append(Task('FontSubsetter::get_glyph_subset/' + decay(F.tu.T(F.params[0]['t'])).key[-12:], t_get(F), 60, 1))
    for F in findall(prog, DOC + '::get_subset_glyph'):
        ts.append(Task('PdfDocument::get_subset_glyph/' + decay(F.tu.T(F.params[1]['t'])).key[-12:], t_doc(F), 60, 1))
    return ts


def replay(tier, seed):
    return native.run_harness('h_subset', [tier, str(seed)])


HOW = 'harness/h_subset.cpp: random shown text; every code of the written pages is followed through width, text mapping and the embedded font (read by FreeType) back to the glyph asked for'
ASSUME = ['FreeType: FT_Get_Char_Index is a function of font and character; FT_Load_Glyph loads the glyph it is asked for',
          'the bytes of the embedded font beyond the choice of glyphs and metrics (tables, offsets, charstrings of CFF fonts, composite renumbering) are read back by the harness only',
          'the scaling of an advance to 1/1000 em is compared by the harness; the proof shows of which glyph it is',
          'characters are at most U+10FFFF; CAPY_SCRAPE_PROTECT is not set',
          'which character an iteration over a UTF-8 string yields is A04; that the font operator precedes the text it applies to is compared by the harness',
          'fewer than 65535 glyphs in a subset before a request (proved to be kept)']
