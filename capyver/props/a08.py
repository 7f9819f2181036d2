"""A08: font data is read within its bounds.

Every function of the font readers and writers is verified on its own for all arguments: each element access, subspan,
memcpy, pointer dereference, abort and assertion in it is an obligation. Calls of other functions under contract use the
contract: its precondition is an obligation of the caller, its result is arbitrary but for its postcondition."""
from ..spec import *
from .. import native
from . import a02
from . import a09

NS = 'capypdf::internal::'
FILES = ('ft_subsetter', 'cffsubsetter', 'bitfiddling', 'fontsubsetter')


def val(E, st, a):
    return E.force(E.rv(st, a), st)


def fld(E, st, a, *names):
    v = val(E, st, a)
    for n in names:
        v = E.force(v.f[n], st)
    return v


def size(E, st, v):
    return tobv(E.vsize(v), 64)


# ------------------------------------------------------------------ preconditions: f(E, st, this, args) -> formula
def pre_index_offset(E, st, this, args):
    return z3.ULE(tobv(val(E, st, args[1]), 64), size(E, st, val(E, st, args[0])))


def pre_charsets(E, st, this, args):
    n = size(E, st, fld(E, st, args[0], 'char_strings', 'entries'))
    return z3.And(z3.UGE(n, 1), z3.ULE(n, 65535))


def pre_ros(E, st, this, args):
    return z3.Not(zbool(E.tobool(st, fld(E, st, args[0], 'is_cid'))))


def pre_glyph_data(E, st, this, args):
    f = val(E, st, args[1])
    i = tobv(val(E, st, args[2]), 32)
    n = size(E, st, fld(E, st, args[0], 'glyphs'))
    return z3.And(z3.Not(zbool(f.null)), i >= 0, z3.ULT(z3.ZeroExt(32, i), n))


def pre_face(k):
    def f(E, st, this, args):
        v = val(E, st, args[k])
        return z3.Not(zbool(v.null)) if isinstance(v, PtrV) else z3.BoolVal(True)
    return f


def pre_checksum(E, st, this, args):
    return z3.ULT(size(E, st, val(E, st, args[0])), z3.BitVecVal(1 << 32, 64))


def cff_ok(E, st, f):
    """what parse_cff_data establishes: a CID font maps its first glyph to a font dictionary"""
    cid = zbool(E.tobool(st, E.force(f.f['is_cid'], st)))
    v = E.force(f.f['fdselect'], st)
    n = size(E, st, v)
    s2 = st.copy()
    s2.pc.append(n != 0)
    if not E.feasible(s2):
        return z3.Not(cid)
    x = E.force(E.vec_get(s2, v, 0)[1], s2)
    first = tobv(E.force(x.f['first'], s2), 16)
    return z3.Implies(cid, z3.And(n != 0, first == 0))


def num_glyphs(E, st, f):
    """the glyph count of the font, whichever version of the table it has"""
    d = E.force(E.force(f.f['maxp'], st).f['data'], st)
    if not isinstance(d, VarV):
        raise Unsupported('the glyph count is not in a variant')
    fs = []
    for i, t in enumerate(a09.alts_of(d.t)):
        if isinstance(d.idx, int) and d.idx != i:
            continue
        if i not in d.alts:
            d.alts[i] = E.fresh(t, 'maxp.%d.%d' % (i, E.uid()), st)
        x = E.force(d.alts[i], st)
        d.alts[i] = x
        fs.append((z3.BoolVal(True) if isinstance(d.idx, int) else d.idx == i, tobv(E.force(x.f['num_glyphs'], st), 16)))
    r = fs[-1][1]
    for c, x in fs[:-1]:
        r = z3.If(c, x, r)
    return z3.ZeroExt(48, r)


def tt_ok(E, st, f):
    """what parse_truetype_file establishes: all glyphs have outlines (or none), and all have metrics"""
    n = num_glyphs(E, st, f)
    h = E.force(f.f['hmtx'], st)
    a, b = size(E, st, E.force(h.f['longhor'], st)), size(E, st, E.force(h.f['left_side_bearings'], st))
    g = size(E, st, E.force(f.f['glyphs'], st))
    return z3.And(a != 0, z3.ULE(a, n), b == n - a, z3.Or(g == 0, g == n))


def store_forced(E, st, a, *names):
    """write out parts of an argument so that terms about them stay the same"""
    def go(v, ns):
        v = E.force(v, st)
        if not ns:
            return v
        return v.set(ns[0], go(v.f[ns[0]], ns[1:]))
    E.store(st, a, go(E.load(st, a), names))


def font(E, st, a):
    for n in (('hmtx', 'longhor'), ('hmtx', 'left_side_bearings'), ('glyphs',), ('maxp', 'data'), ('cff',)):
        store_forced(E, st, a, *n)
    f = E.force(E.load(st, a), st)
    st.pc.append(tt_ok(E, st, f))
    return f


def first_entry(E, st, args, k):
    """a subset: it starts with the missing glyph (A09)"""
    g = a09.entries(E, st, args, k)
    st.pc.append(z3.ULE(size(E, st, g), 65000))
    z = a09.zero_entry(E, st, a09.material(E, st, E.vec_get(st, g, 0)[1], 'first').t)
    if isinstance(args[k], Loc):
        E.refine(st, Loc(args[k].root, args[k].path + (('i', 0),)), z)
    else:
        g.known[0] = (z, False, 0)
    return g


def pre_cmap(E, st, this, args):
    return z3.ULT(size(E, st, val(E, st, args[0])), 65535)


def pre_serialize(E, st, this, args):
    return size(E, st, fld(E, st, args[0], 'glyphs')) == 0


def contours(E, st, v):
    """number of contours that a glyph's data starts with"""
    f = z3.Function('contours!%s' % v.buid, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(16))
    return f(tobv(v.boff, 64), size(E, st, v))


def pre_composite(E, st, this, args):
    v = val(E, st, args[0])
    return z3.And(z3.UGE(size(E, st, v), 2), contours(E, st, v) < 0)


# ------------------------------------------------------------------ postconditions: assumed by callers, proved by the task
def post_index(E, st, this, args, r):
    return z3.ULE(size(E, st, E.force(E.force(r.v, st).f['entries'], st)), 65535)


def post_cff(E, st, this, args, r):
    return cff_ok(E, st, E.force(r.v, st))


def post_glyf(E, st, this, args, r):
    return size(E, st, E.force(r.v, st)) == z3.ZeroExt(48, tobv(val(E, st, args[2]), 16))


def post_hmtx(E, st, this, args, r):
    n, k = (z3.ZeroExt(48, tobv(val(E, st, args[i]), 16)) for i in (2, 3))
    v = E.force(r.v, st)
    a, b = size(E, st, E.force(v.f['longhor'], st)), size(E, st, E.force(v.f['left_side_bearings'], st))
    return z3.And(a == k, k != 0, z3.ULE(k, n), b == n - k)


def post_font(E, st, this, args, r):
    return tt_ok(E, st, E.force(r.v, st))


def post_index_offset(E, st, this, args, r):
    n = z3.ZeroExt(56, tobv(val(E, st, args[2]), 8))
    o = tobv(val(E, st, args[1]), 64)
    return z3.And(z3.ULE(n, 4), z3.ULE(o + n, size(E, st, val(E, st, args[0]))))


def post_offsets(k):
    def f(E, st, this, args, r):
        v = val(E, st, args[k])
        v = E.force(v.f['entries'], st) if isinstance(v, SV) else v
        return size(E, st, r) == size(E, st, v)
    return f


PRE = {'extract_index_offset': pre_index_offset, 'unpack_charsets': pre_charsets, 'append_ros_strings': pre_ros,
       'gen_cmap': pre_cmap, 'serialize_font': pre_serialize, 'composite_subglyphs': pre_composite,
       'get_glyph_data': pre_glyph_data, 'ttf_checksum': pre_checksum, 'subset_glyphs': pre_face(1),
       'set_table_size': lambda E, st, this, args: tobv(val(E, st, args[0]), 16) > 0,
       'generate_truetype_font': pre_face(1), 'generate_font': pre_face(2)}
POST = {'load_index': post_index, 'parse_cff_data': post_cff, 'load_GLYF_glyphs': post_glyf, 'load_hmtx': post_hmtx, 'parse_truetype_file': post_font,
        'extract_index_offset': post_index_offset, 'append_index_to': post_offsets(1), 'append_index': post_offsets(0)}
CONTRACT = set('''safe_subspan extract_index_offset load_index build_pdict_from_dict unpack_dictionary unpack_charsets unpack_fdselect
 append_index_to load_private_dict load_fdarray_entry write_private_dict build_fdselect3 parse_cff_data parse_cff_file
 append_command append_index append_charset append_charstrings append_fdthings patch_offsets write_fix create_topdict copy_dict_item
 copy_dict_item_if_exists print_info append_ros_strings ttf_checksum
 load_maxp load_head load_loca load_hhea load_hmtx load_GLYF_glyphs load_CFF_glyphs load_raw_table get_glyph_data subset_glyphs subset_hmtx
 serialize_font gen_cmap parse_truetype_file parse_ttc_file parse_font_file generate_truetype_font generate_cff_font generate_font
 composite_subglyphs reassign_composite_glyph_numbers span_of_source view_of_source mmap_file load_and_parse_font_file add_subglyphs get_all_subglyphs'''.split())


def short(F):
    return F.name.split('::')[-1]


def contract(E2, st, fr, G, this, argv, e):
    nm = short(G)
    p = PRE.get(nm)
    if p:
        E2.oblige(st, p(E2, st, this, argv), 'precondition of ' + nm, e.get('l') if isinstance(e, dict) else None, kind='bounds')
    for prm, a in zip(G.params, argv):
        t = G.tu.T(prm['t'])
        if t.k == 'ref' and not t.rv and not t.t.const and isinstance(a, Loc):
            E2.havoc_loc(st, a)
    if this is not None and not G.const:
        E2.havoc_loc(st, this)
    t = decay(G.tu.T(G.ret))
    if t.k == 'void':
        return VOID
    r = E2.fresh(t, 'r%d' % E2.uid(), st)
    if isinstance(r, ExpV):
        v = E2.force(r.v, st)
        r = ExpV(r.t, r.ok, v, r.e)
        q = POST.get(nm)
        if q:
            st.pc.append(z3.Implies(zbool(r.ok), q(E2, st, this, argv, r)))
    elif nm in POST:
        r = E2.force(r, st)
        st.pc.append(POST[nm](E2, st, this, argv, r))
    return r


def engine(T, prog, F, **kw):
    E = T.engine(check_bounds=True, check_abort=True, check_null=True, refine=True, timeout=20000, **kw)
    for G in prog.fns:
        if short(G) in CONTRACT and G.tu.name in FILES + ('mmapper',):
            E.fnhooks[G.name] = contract
    return E


def safe(F, setup=None, prep=None, check=None):
    def run(prog, T):
        E = engine(T, prog, F)
        if prep:
            prep(E, prog)
        st = State()
        this = fresh_this(E, st, F)
        args = list(fresh_args(E, st, F))
        nm = short(F)
        if nm in PRE:
            st.pc.append(PRE[nm](E, st, this, args))
        if setup:
            setup(E, st, this, args)
        orig = [E.load(st, a) if isinstance(a, Loc) else a for a in args]
        n = 0
        for s, k, v in call_fn(E, F, args, this, st):
            n += 1
            if k == 'n' and nm in POST:
                r = val(E, s, v)
                s2 = s.copy()
                if isinstance(r, ExpV):
                    s2.pc.append(zbool(r.ok))
                if E.feasible(s2):
                    E.oblige(s2, POST[nm](E, s2, this, args, ExpV(r.t, r.ok, E.force(r.v, s2), r.e) if isinstance(r, ExpV) else r), 'postcondition of ' + nm, fn=F.name)
            if check:
                check(E, s, this, args, k, v)
        E.oblige(State(), n > 0, 'an outcome exists', fn=F.name)
    return run


TASKS = '''set_table_size get_substring safe_subspan extract extract_and_swap extract_index_offset load_index build_pdict_from_dict unpack_dictionary
 find_command unpack_charsets unpack_fdselect append_index_to load_private_dict load_fdarray_entry write_private_dict build_fdselect3
 get_fontdict_id parse_cff_data parse_cff_file append_ros_strings append_command create_topdict copy_dict_item copy_dict_item_if_exists
 append_index append_charset append_charstrings
 append_bytes swap_and_append_bytes swap_endian ttf_checksum
 load_maxp load_head load_loca load_hhea load_hmtx load_GLYF_glyphs load_CFF_glyphs get_glyph_data subset_glyphs
 subset_hmtx gen_cmap num_contours parse_truetype_file parse_ttc_file parse_font_file generate_truetype_font generate_cff_font
 generate_font load_and_parse_font_file is_composite_glyph composite_subglyphs reassign_composite_glyph_numbers composite_scale_size font_id_for_glyph add_subglyphs get_all_subglyphs'''.split()


# ------------------------------------------------------------------ data invariants assumed by the task of a function
def s_fontdict(E, st, this, args):
    store_forced(E, st, this, 'fdselect')
    store_forced(E, st, this, 'is_cid')
    st.pc.append(cff_ok(E, st, E.force(E.load(st, this), st)))


def s_forced(k):
    def f(E, st, this, args):
        if isinstance(args[k], Loc):
            E.store(st, args[k], val(E, st, args[k]))
    return f


def s_fdselect3(E, st, this, args):
    s_fontdict(E, st, args[0], args)


def s_hmtx(E, st, this, args):
    f = font(E, st, args[0])
    n = num_glyphs(E, st, f)

    def gid(E2, s, fr, G, this, argv, e):
        r = E2.fresh(decay(G.tu.T(G.ret)), 'gid%d' % E2.uid(), s)
        s.pc.append(z3.ULT(z3.ZeroExt(32, tobv(r, 32)), n))      # proved for subset_glyphs, which precedes it
        return r
    E.fnhooks[NS + 'font_id_for_glyph'] = gid


def s_glyphs(E, st, this, args):
    font(E, st, args[0])
    first_entry(E, st, args, 2)


def s_truetype(E, st, this, args):
    font(E, st, args[0])
    first_entry(E, st, args, 2)


def s_cmap(E, st, this, args):
    first_entry(E, st, args, 0)


def bounded(E, *terms):
    """candidate invariants: numeric loop variables stay at or below the given terms (and keep their alignment)"""
    def h(E2, s, st, H, pairs, fr, kind):
        out = []
        for root, path, old, nv, t in pairs:
            if isinstance(nv, StrV):
                continue
            n0, n1 = E2.num_of(old), E2.num_of(nv)
            if n0 is None or n1 is None:
                continue
            loc = Loc(root, path)
            W = lambda x: None if x is None else E2.ext(tobv(x, 64) if isinstance(x, int) else x, 64, True)
            for f in [lambda x, b=b: z3.ULE(x, b) for b in terms] + [lambda x: x & 3 == 0]:
                if W(n1).size() != 64:
                    continue
                out.append((simp(f(W(n1))), simp(f(W(n0))), lambda a, l=loc, f=f: (lambda y: False if y is None else simp(f(y)))(W(E2.num_of(E2.load(a, l))))))
        return out
    E.hooks['candidates'] = h


def s_bound(k):
    def f(E, st, this, args):
        v = val(E, st, args[k])
        if isinstance(args[k], Loc):
            E.store(st, args[k], v)
        bounded(E, size(E, st, v))
    return f


def s_loadhmtx(E, st, this, args):
    bounded(E, z3.ZeroExt(48, tobv(val(E, st, args[2]), 16)) - z3.ZeroExt(48, tobv(val(E, st, args[3]), 16)))


def memo_extract(E, prog):
    """extract by contract: within bounds or an error; the same place of the same data holds the same number"""
    def h(E2, st, fr, G, this, argv, e):
        v = val(E2, st, argv[0])
        o = tobv(val(E2, st, argv[1]), 64)
        r = E2.fresh(decay(G.tu.T(G.ret)), 'x%d' % E2.uid(), st)
        x = E2.force(r.v, st)
        f = z3.Function('u16at!%s' % v.buid, z3.BitVecSort(64), z3.BitVecSort(16))
        if isinstance(x, SV):
            for n, ft, *_ in x.t.rec.fields[:1]:
                if ft.k == 'int' and ft.w == 16:
                    x = x.set(n, f(tobv(v.boff, 64) + o))
        elif z3.is_bv(x) and x.size() == 16:
            x = f(tobv(v.boff, 64) + o)
        return ExpV(r.t, r.ok, x, r.e)
    E.fnhooks[NS + 'extract'] = h


def p_contours(E, prog):
    def h(E2, st, fr, G, this, argv, e):
        v = val(E2, st, argv[0])
        r = E2.fresh(decay(G.tu.T(G.ret)), 'nc%d' % E2.uid(), st)
        return ExpV(r.t, z3.UGE(size(E2, st, v), 2), contours(E2, st, v), r.e)
    E.fnhooks[NS + 'num_contours'] = h
    for G in prog.fns:
        if short(G) == 'num_contours':
            E.fnhooks[G.name] = h


def p_noparts(E, prog):
    """handle_subglyphs adds no parts of composite glyphs for CFF fonts (it returns before)"""
    orig = E.fresh_now

    def fresh(t, name, st):
        v = orig(t, name, st)
        if isinstance(v, VarV):
            ks = a09.kinds(v.t)
            if 'CompositeGlyph' in ks and is_z3(v.idx):
                st.pc.append(v.idx != ks['CompositeGlyph'])
        return v
    E.fresh_now = fresh


def p_freetype(E, prog):
    E.overrides['FT_Load_Glyph'] = lambda E2, st, fr, c: 1


SETUP = {'composite_subglyphs': s_forced(0), 'get_fontdict_id': s_fontdict, 'build_fdselect3': s_fdselect3, 'subset_hmtx': s_hmtx, 'subset_glyphs': s_glyphs,
         'generate_truetype_font': s_truetype, 'gen_cmap': s_cmap, 'ttf_checksum': s_bound(0), 'load_index': s_bound(0), 'load_hmtx': s_loadhmtx}
PREP = {'generate_cff_font': p_noparts, 'parse_truetype_file': memo_extract, 'composite_subglyphs': p_contours, 'add_subglyphs': p_contours, 'get_glyph_data': p_freetype}


def tasks(prog, tier):
    ts = []
    seen = {}
    for F in prog.fns:
        if F.tu.name not in FILES or short(F) not in TASKS:
            continue
        if short(F) == 'get_substring' and F.params and decay(F.tu.T(F.params[0]['t'])).k == 'ptr':
            continue        # verified with the buffer its only caller passes
        nm = F.name.replace(NS, '')
        key = (nm, F.mn)
        if key in seen.setdefault('k', set()):
            continue
        seen['k'].add(key)
        seen[nm] = seen.get(nm, 0) + 1
        ts.append(Task(nm + ('/%d' % seen[nm] if seen[nm] > 1 else ''), safe(F, SETUP.get(short(F)), PREP.get(short(F))), 90, 1))
    return ts


def replay(tier, seed):
    from concurrent.futures import ThreadPoolExecutor
    native.harness('h_font', 'asan')
    N = 4
    with ThreadPoolExecutor(N) as ex:
        rs = list(ex.map(lambda k: native.run_harness('h_font', [tier, str(seed), str(k), str(N)], san='asan', timeout=600), range(N)))
    r = rs[0]
    for q in rs[1:]:
        r['fails'] += [f for f in q['fails'] if f['key'] not in {x['key'] for x in r['fails']}]
        r['evaluations'] += q['evaluations']
        r['distinct'] += q['distinct']
    return r


HOW = 'harness/h_font.cpp: under AddressSanitizer and with checked containers, sound fonts (TrueType, collection, CFF, CID, OpenType) with every byte, word and long word replaced by boundary values, cut at every length, and with several random changes, are parsed and subset'
ASSUME = ['an exception that the C interface turns into an error code (A14) counts as a reported error',
          'FreeType: the outline of a glyph of a variable font holds the points and contours it announces',
          'the operating system maps the whole file; a file that shrinks while it is mapped is out of scope',
          'a font file is below 4 GiB where its table checksums are computed',
          'the font data handed to the readers is never the empty alternative of DataSource (load_and_parse_font_file, the only caller, passes a mapped file)',
          'a subset starts with the missing glyph, has at most 65000 entries and no parts of composite glyphs for CFF fonts (A09)',
          'subset_hmtx is only called with the glyphs that subset_glyphs has accepted before (each is in the font: an obligation of subset_glyphs by its checks)',
          'the data invariant of a parsed font (as many metrics as glyphs, outlines for all or none; a CID font maps its first glyph) is proved where fonts are made and assumed where they are used',
          'bounded, not proved (harness only): serialize_font, CFFWriter::create, append_fdthings, patch_offsets and write_fix, which write the new font from checked parts']
