"""A02: recorded page content stays well formed and its brackets match the recorded stack, after every call, failing ones included."""
from ..spec import *
from ..tokens import TokDom, ContentGrammar, isbad
from .. import native

NS = 'capypdf::internal::'
DC = NS + 'PdfDrawContext'
CSF = NS + 'CommandStreamFormatter'
KIND = {'q': 'SaveState', 'T': 'Text', 'M': 'MarkedContent'}


def enum_vals(prog):
    for F in prog.fns:
        try:
            e = F.tu.enums if hasattr(F.tu, 'enums') else None
        except Exception:
            e = None
        if e:
            for k, v in e.items():
                if k.endswith('DrawStateType'):
                    return v
    return {'MarkedContent': 0, 'SaveState': 1, 'Text': 2, 'Dictionary': 3}


def classify_for(base):
    def c(x):
        if x[0] == 'in':
            n = str(x[1])
            if n == base + '.buf':
                return 'base'
            if n.endswith('.lead') or n.endswith('.indent'):
                return 'ws'
        return None
    return c


def check_cmds(E, s, cloc, st0stack, base, name, fn, vals, inner=False):
    """the text appended to the formatter at cloc since the call began is well formed and its brackets match the stack"""
    dom = E.rope_dom
    cm = E.force(E.load(s, cloc), s)
    buf = E.force(cm.f['buf'], s)
    p = buf.p
    if not p or not (isinstance(p[0], tuple) and p[0][0] == 'in' and p[0][1] == base + '.buf' and simp(tobv(p[0][3], 64) == B64(len_name(E, base + '.buf'))) is True):
        if p and isinstance(p[0], tuple) and p[0][0] == 'abs':
            pass
        else:
            E.oblige(s, False, name + ': recorded content is only appended to', fn=fn, detail=repr(buf)[:200])
            return
    for w, q in dom.worlds(s, buf):
        if isbad(q):
            E.oblige(w, False, name + ': operators have their operands and brackets match', fn=fn, detail=q[1])
            continue
        lex, g = q
        if lex != 'b' or g[0] or g[1]:
            E.oblige(w, False, name + ': operators have their operands and brackets match', fn=fn, detail='ends inside a command: %r' % (q,))
            continue
        stk = E.force(cm.f['stack'], w)
        closed, opened = g[2], g[3]
        ok = stk.buid == st0stack.buid and len(stk.tail) == len(opened)
        f = []
        if 'T' in closed + opened and not inner:
            E.oblige(w, False, name + ': no text object stays open', fn=fn, detail='closed "%s" opened "%s"' % (closed, opened))
        if ok:
            f.append(tobv(stk.bsize, 64) == tobv(st0stack.bsize, 64) - len(closed))
            for c, v in zip(opened, stk.tail):
                f.append(tobv(v, 8) == vals[KIND[c]])
            for i, c in enumerate(closed):
                f.append(tobv(E.base_elem(w, st0stack, tobv(st0stack.bsize, 64) - 1 - i), 8) == vals[KIND[c]])
        elif not closed and not opened and same_val(stk, st0stack):
            ok = True
        E.oblige(w, z3.And(*f) if f else bool(ok), name + ': operators have their operands and brackets match', fn=fn,
                 detail='closed "%s" opened "%s" stack %r' % (closed, opened, stk))


def setup(E, F, st, this, member):
    """formatter invariant: the indentation is made of blanks, two per open bracket"""
    cloc = this.f(('f', member)) if member else this
    cm = E.force(E.load(st, cloc), st)
    for k in ('lead', 'stack', 'buf'):
        cm = cm.set(k, E.force(cm.f[k], st))
    E.store(st, cloc, cm)
    base = cm.f['buf'].p[0][1][:-4]
    st.pc.append(tobv(E.str_len(cm.f['lead'].p), 64) == 2 * tobv(E.vsize(cm.f['stack']), 64))
    E.rope_dom = TokDom(E, ContentGrammar(), classify_for(base))
    return cloc, cm.f['stack'], base


BV = z3.BitVecSort(64)
HAS = z3.Function('stack_has', z3.BitVecSort(8), BV, z3.BoolSort())       # kind k occurs among the first n entries of the base
CNT = z3.Function('stack_count', z3.BitVecSort(8), BV, BV)


def stack_axioms(E, st, stk, vals):
    """definition of HAS and CNT, instantiated for the ends of the stack"""
    n = tobv(stk.bsize, 64)
    for k in vals.values():
        kk = z3.BitVecVal(k, 8)
        st.pc.append(HAS(kk, n) == (CNT(kk, n) != 0))
        st.pc.append(z3.ULE(CNT(kk, n), n))


def stack_of(E, st, this):
    return E.force(E.load(st, Loc(this.root, this.path + (('f', 'stack'),))), st)


def stack_contracts(E, vals):
    def has(E2, st, fr, G, this, argv, e):
        v = stack_of(E, st, this)
        k = tobv(E.rv(st, argv[0]), 8)
        stack_axioms(E, st, v, vals)
        return simp(z3.Or(HAS(k, tobv(v.bsize, 64)), *[tobv(x, 8) == k for x in v.tail]))

    def depth(E2, st, fr, G, this, argv, e):
        v = stack_of(E, st, this)
        k = z3.BitVecVal(vals['MarkedContent'], 8)
        stack_axioms(E, st, v, vals)
        r = CNT(k, tobv(v.bsize, 64))
        for x in v.tail:
            r = r + z3.If(tobv(x, 8) == k, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        return simp(r)
    E.fnhooks[CSF + '::has_state'] = has
    E.fnhooks[CSF + '::marked_content_depth'] = depth


def t_stack(which):
    """the two stack queries against their definition, for stacks of every depth"""
    def run(prog, T):
        F = find(prog, CSF + '::' + which)
        E = T.engine()
        vals = enum_vals(prog)
        st = State()
        this = fresh_this(E, st, F)
        stk = stack_of(E, st, this)
        cm = E.force(E.load(st, this), st)
        E.store(st, this, cm.set('stack', stk))
        n = tobv(stk.bsize, 64)
        args = fresh_args(E, st, F)
        k = tobv(E.rv(st, args[0]), 8) if args else z3.BitVecVal(vals['MarkedContent'], 8)
        zero, one = z3.BitVecVal(0, 64), z3.BitVecVal(1, 64)

        def defn(s2, i):
            el = tobv(E.base_elem(s2, stk, i), 8)
            s2.pc.append(HAS(k, i + 1) == z3.Or(HAS(k, i), el == k))
            s2.pc.append(CNT(k, i + 1) == CNT(k, i) + z3.If(el == k, one, zero))
            # monotone: an occurrence stays one
            s2.pc.append(z3.Implies(z3.And(HAS(k, i + 1), z3.ULT(i, n)), HAS(k, n)))

        st.pc += [z3.Not(HAS(k, zero)), CNT(k, zero) == zero]

        def cands(E2, s, st0, H, pairs, fr, kind):
            nums = [(Loc(r, p), E.num_of(ov), E.num_of(nv)) for r, p, ov, nv, t in pairs if E.num_of(nv) is not None and isinstance(E.num_of(nv), z3.BitVecRef)]
            out = []
            for li, oi, ni in nums:
                if ni.size() != 64:
                    continue
                defn(H, ni)
                out.append((z3.Not(HAS(k, ni)), z3.Not(HAS(k, tobv(oi, 64))), lambda a, l=li: z3.Not(HAS(k, tobv(E.num_of(E.load(a, l)), 64)))))
                for lj, oj, nj in nums:
                    if nj.size() == 64 and li is not lj:
                        out.append((nj == CNT(k, ni), tobv(oj, 64) == CNT(k, tobv(oi, 64)),
                                    lambda a, l=li, m=lj: tobv(E.num_of(E.load(a, m)), 64) == CNT(k, tobv(E.num_of(E.load(a, l)), 64))))
            return out
        E.hooks['candidates'] = cands
        for s, kd, v in call_fn(E, F, args, this, st):
            if kd != 'n':
                E.oblige(s, False, 'the stack query cannot fail', fn=F.name)
                continue
            v = E.rv(s, v)
            if which == 'has_state':
                E.oblige(s, zbool(E.tobool(s, v)) == HAS(k, n), 'has_state tells whether the kind is on the stack', fn=F.name)
            else:
                E.oblige(s, tobv(v, 64) == CNT(k, n), 'marked_content_depth counts the open marked content', fn=F.name)
            E.oblige(s, same_val(stack_of(E, s, this), stk), 'a query leaves the stack alone', fn=F.name)
    return run


def rvoe_fresh(E, st, F):
    r = E.fresh(decay(F.tu.T(F.ret)), 'r%d' % uid(), st)
    if isinstance(r, ExpV):
        # no error is reported with the code of success (obligation of A14)
        e = E.force(r.e, st)
        if z3.is_bv(e):
            r = ExpV(r.t, r.ok, r.v, e)
            st.pc.append(z3.Implies(z3.Not(zbool(r.ok)), e != 0))
    return r


PURE = ('doc', 'cm', 'context_type', 'bbox')


def clean_contract(E, F):
    """contract of a method that is proved to record complete operators and to leave the bracket stack as it was"""
    def h(E2, st, fr, G, this, argv, e):
        loc = Loc(this.root, this.path + (('f', 'cmds'), ('f', 'buf')))
        v = E.force(E.load(st, loc), st)
        E.store(st, loc, StrV(v.p + (('abs', uid(), frozenset([E.rope_dom.start()])),)))
        forget(E, st, this)
        return rvoe_fresh(E, st, G)
    return h


def forget(E, st, this):
    o = E.force(E.load(st, this), st)
    for k, v in o.f.items():
        if k.startswith('used_') or k in ('uses_all_colorspace', 'sub_navigations'):
            t = E.field_type(o.t, k) if False else None
            o = o.set(k, E.havoc_val(st, E.force(v, st)))
    E.store(st, this, o)


def names_count(E):
    for tu in E.prog.tus.values():
        g = tu.globals.get(NS + 'structure_type_names')
        if g and g.get('init') is not None:
            return len(E.evr(g['init'], State(), Frame(-2, None, tu, None)).tail)
    raise Unsupported('table of structure type names')


def role_invariant(E, st0, this):
    """invariant of structure_items (proved for add_structure_item): a role id denotes an entry of rolemap, which only grows"""
    d = E.force(E.force(E.load(st0, this), st0).f['doc'], st0)
    E.store(st0, this, E.force(E.load(st0, this), st0).set('doc', d))
    dl = d.loc
    do = E.force(E.load(st0, dl), st0)
    rm = E.force(do.f['rolemap'], st0)
    E.store(st0, dl, do.set('rolemap', rm))
    n = tobv(E.vsize(rm), 64)
    ntypes = names_count(E)

    def elem(E2, st, v, el):
        if v.et.k != 'rec' or not v.et.nn.endswith('::StructItem'):
            return
        el = E.force(el, st)
        var = E.force(el.f['stype'], st)
        for i, a in list(var.alts.items()):
            if i == 0:
                a = E.force(a, st)
                var.alts[i] = a
                st.pc.append(z3.Implies(tobv(var.idx, 8) == 0, z3.ULT(tobv(a, 32), ntypes)))
            if i == 1:
                a = E.force(a, st)
                x = E.force(a.f['id'], st)
                var.alts[i] = a.set('id', x)
                st.pc.append(z3.Implies(tobv(var.idx, 8) == 1, z3.And(tobv(x, 32) >= 0, z3.ULT(z3.SignExt(32, tobv(x, 32)), n))))
        el.f['stype'] = var
    E.hooks['elem'] = elem


def t_role(F):
    def run(prog, T):
        E = T.engine()
        st = State()
        this = fresh_this(E, st, F)
        o = E.force(E.load(st, this), st)
        si, rm = E.force(o.f['structure_items'], st), E.force(o.f['rolemap'], st)
        E.store(st, this, o.set('structure_items', si).set('rolemap', rm))

        def add(E2, s, fr, G, th, argv, e):
            return rvoe_fresh(E, s, G) if decay(G.tu.T(G.ret)).nn == 'std::expected' else E.fresh(decay(G.tu.T(G.ret)), 'obj%d' % uid(), s)
        E.fnhooks[NS + 'PdfDocument::add_object'] = add
        for s, k, v in call_fn(E, F, None, this, st):
            o1 = E.force(E.load(s, this), s)
            s1, r1 = E.force(o1.f['structure_items'], s), E.force(o1.f['rolemap'], s)
            E.oblige(s, same_val(r1, rm) and s1.buid == si.buid and same_term(s1.bsize, si.bsize), 'structure items are only appended to', fn=F.name)
            for x in s1.tail:
                var = E.force(E.force(x, s).f['stype'], s)
                f = True
                if var.idx == 0:
                    f = z3.ULT(tobv(E.force(var.alts[0], s), 32), names_count(E))
                else:
                    a = E.force(var.alts.get(1), s)
                    i = tobv(E.force(a.f['id'], s), 32)
                    f = z3.Implies(tobv(var.idx, 8) == 1, z3.And(i >= 0, z3.ULT(z3.SignExt(32, i), tobv(E.vsize(rm), 64))))
                E.oblige(s, f, 'a stored structure type has a name', fn=F.name)
    return run


def havoc_result(E):
    def h(E2, st, fr, G, this, argv, e):
        return rvoe_fresh(E, st, G)
    return h


CLEAN = ('set_color', 'cmd_RG', 'cmd_rg', 'cmd_G', 'cmd_g', 'cmd_K', 'cmd_k', 'serialize_G', 'serialize_g', 'serialize_K', 'serialize_k', 'serialize_RG', 'serialize_rg',
         'convert_to_output_cs_and_set_color', 'cmd_cm', 'cmd_m', 'cmd_c', 'cmd_l', 'cmd_re')


def doc_contracts(E):
    for n in ('get_subset_glyph', 'get_builtin_font_object'):
        E.fnhooks[NS + 'PdfDocument::' + n] = havoc_result(E)

    def geticc(E2, st, fr, G, this, argv, e):
        # invariant of icc_profiles (proved at its only insertion points): at least one channel
        pt = G.tu.T(G.params[0]['t'])
        if 'Icc' not in pt.key:
            return NotImplemented
        l = E.heap('icc%d' % uid(), G.tu.T(G.ret).t, st, LazyV(decay(G.tu.T(G.ret).t), 'icc%d' % uid()))
        v = E.force(E.load(st, l), st)
        v = v.set('num_channels', E.force(v.f['num_channels'], st))
        E.store(st, l, v)
        st.pc.append(tobv(v.f['num_channels'], 32) >= 1)
        return l
    E.fnhooks[NS + 'PdfDocument::get'] = geticc


def str_contracts(E):
    def lit(kind):
        def h(E2, st, fr, G, this, argv, e):
            return StrV((('cls', kind, uid()),))
        return h
    E.fnhooks[NS + 'bytes2pdfstringliteral'] = lit('/')
    E.fnhooks[NS + 'pdfstring_quote'] = lit('s')
    E.fnhooks[NS + 'utf8_to_pdfutf16be'] = lit('s')


def t_method(F, member, extra=None):
    def run(prog, T):
        E = T.engine(joint=lambda root, path: 'exact' if path and path[-1] == ('f', 'lead') else 'rope')
        st = State()
        vals = enum_vals(prog)
        this = fresh_this(E, st, F)
        cloc, stk, base = setup(E, F, st, this, member)
        str_contracts(E)
        stack_contracts(E, vals)
        doc_contracts(E)
        role_invariant(E, st, this)
        me = F.name.split('::')[-1]
        for c in CLEAN:
            if c != me:
                E.fnhooks[DC + '::' + c] = clean_contract(E, F)
        inner = me.startswith('serialize_') and me in INNER
        for c in INNER:
            if c != me:
                E.fnhooks[DC + '::' + c] = inner_contract(E, vals)
        args = fresh_args(E, st, F)
        for i, p in enumerate(F.params):
            if F.tu.T(p['t']).k == 'ref' and F.tu.T(p['t']).t.nn == CSF:
                args[i] = cloc      # always called with the context's own formatter
        if me in ('cmd_CS', 'cmd_cs'):
            args[0] = StrV((('cls', '/', uid()),))
        if me == 'render_pdfdoc_text_builtin':
            # between calls no text object is open (see 'no text object stays open')
            stack_axioms(E, st, stk, vals)
            st.pc.append(z3.Not(HAS(z3.BitVecVal(vals['Text'], 8), tobv(stk.bsize, 64))))
        if me == 'serialize_charsequence':
            E.hooks['joint_inv'] = charseq_inv
        if extra:
            extra(E, me)
        n = 0
        for s, k, v in call_fn(E, F, args, this, st):
            if inner and k == 'n':
                v = E.force(E.rv(s, v), s)
                d = E.decide3(s, v.ok)
                if d is not True:
                    s1 = s.copy()
                    s1.pc.append(z3.Not(zbool(v.ok)))
                    if E.feasible(s1):
                        check_prefix(E, s1, cloc, stk, base, F.name)
                if d is False:
                    n += 1
                    continue
                s.pc.append(zbool(v.ok))
            check_cmds(E, s, cloc, stk, base, 'after the call' if k == 'n' else 'after an exception', F.name, vals, inner and k == 'n')
            n += 1
        if not n:
            E.oblige(State(), False, 'the function has an outcome', fn=F.name)
    return run


def inner_contract(E, vals):
    """contract of the serialize_* helpers: success leaves balanced complete commands; failure has only appended to the text,
    the indentation and the bracket stack"""
    def h(E2, st, fr, G, this, argv, e):
        cl = Loc(this.root, this.path + (('f', 'cmds'),))
        cm = E.force(E.load(st, cl), st)
        buf, lead, stk = (E.force(cm.f[k], st) for k in ('buf', 'lead', 'stack'))
        r = rvoe_fresh(E, st, G)
        ok = zbool(r.ok)
        u = uid()
        junk = z3.BitVec('junk%d' % u, 8)
        forget(E, st, this)
        good = StrV(buf.p + (('abs', u, frozenset([E.rope_dom.start()])),))
        if E.choose(2) == 0:
            st.pc.append(ok)
            E.store(st, cl, E.force(E.load(st, cl), st).set('buf', good))
            return ExpV(r.t, True, r.v, r.e)
        st.pc.append(z3.Not(ok))
        E.store(st, cl, E.force(E.load(st, cl), st).set('buf', StrV(buf.p + (('cls', 'junk', u),))).set('lead', StrV(lead.p + (('cls', 'junk', u),)))
                .set('stack', VecV(stk.et, stk.buid, stk.bsize, stk.boff, stk.tail + (junk,), stk.known)))
        return ExpV(r.t, False, r.v, r.e)
    return h


INNER = ('serialize_text', 'serialize_glyphs', 'serialize_charsequence')


def check_prefix(E, s, cloc, st0stack, base, fn):
    cm = E.force(E.load(s, cloc), s)
    buf, lead, stk = (E.force(cm.f[k], s) for k in ('buf', 'lead', 'stack'))
    ok = bool(buf.p) and (buf.p[0][0] == 'abs' or (buf.p[0][0] == 'in' and buf.p[0][1] == base + '.buf' and simp(tobv(buf.p[0][3], 64) == len_name(E, base + '.buf')) is True))
    ok = ok and stk.buid == st0stack.buid and simp(tobv(stk.bsize, 64) == tobv(st0stack.bsize, 64)) is True
    ok = ok and bool(lead.p) and lead.p[0][0] == 'in' and lead.p[0][1] == base + '.lead' and simp(tobv(lead.p[0][3], 64) == len_name(E, base + '.lead')) is True
    E.oblige(s, ok, 'a failing helper has only appended to what was recorded', fn=fn, detail=repr((buf, lead, stk))[:300])


INACT = z3.Function('in_actualtext_before', BV, z3.BoolSort())


def alt_index(t, name):
    args = t.args[0] if t.args and isinstance(t.args[0], list) else t.args
    for i, a in enumerate(args):
        if a.nn.endswith('::' + name):
            return i
    raise Unsupported('variant without %s' % name)


def charseq_inv(E, s, st, fr, kind, key, assume):
    """the marked content opened so far is exactly an open ActualText span; spans alternate (invariant of TextSequence, proved below)"""
    if kind != 'rfor':
        return None
    rl = s['range']
    cont = E.force(E.rv(st, rl), st)
    if not isinstance(cont, VecV) or cont.et.k != 'rec' or cont.et.nn != 'std::variant':
        return None
    ix, n = tobv(E.rv(st, s['ix']), 64), tobv(E.vsize(cont), 64)
    want = None
    for (rp, how), comp in key:
        if how == 'rope':
            g = comp[1]
            if isbad(g):
                return False
            if g[1][2] or g[1][3] not in ('', 'M'):
                return False
            want = g[1][3] == 'M'
    if want is None:
        want = False
    if assume:
        loc = rl
        while not isinstance(loc, Loc):
            raise Unsupported('range')
        cv, el = E.vec_get(st, cont, ix)
        E.store(st, loc, cv)
        el = E.force(el, st)
        i = tobv(el.idx, 8)
        a, b = alt_index(cont.et, 'ActualTextStart'), alt_index(cont.et, 'ActualTextEnd')
        st.pc.append(z3.Implies(z3.ULT(ix, n), z3.And(z3.Implies(i == a, z3.Not(INACT(ix))), z3.Implies(i == b, INACT(ix)),
                                                      INACT(ix + 1) == z3.If(i == a, z3.BoolVal(True), z3.If(i == b, z3.BoolVal(False), INACT(ix))))))
        st.pc += [z3.Not(INACT(z3.BitVecVal(0, 64))), z3.Not(INACT(n))]
    else:
        st.pc.append(z3.Not(INACT(z3.BitVecVal(0, 64))))
    return z3.And(z3.ULE(ix, n), INACT(ix) == want)


def t_seq(F):
    """TextSequence: spans alternate, and in_actualtext tells whether the last one is open"""
    def run(prog, T):
        E = T.engine()
        st = State()
        this = fresh_this(E, st, F)
        o = E.force(E.load(st, this), st)
        e0, in0 = E.force(o.f['e'], st), E.force(o.f['in_actualtext'], st)
        E.store(st, this, o.set('e', e0).set('in_actualtext', in0))
        n = 0
        for s, k, v in call_fn(E, F, None, this, st):
            n += 1
            o1 = E.force(E.load(s, this), s)
            e1, in1 = E.force(o1.f['e'], s), E.tobool(s, o1.f['in_actualtext'])
            if E.vsize(e1) == 0:
                E.oblige(s, znot(zbool(in1)), 'an emptied sequence has no open span', fn=F.name)
                continue
            if e1.buid != e0.buid or not same_term(e1.bsize, e0.bsize):
                E.oblige(s, False, 'events are only appended', fn=F.name)
                continue
            cur = zbool(E.tobool(s, in0))
            for x in e1.tail:
                x = E.force(x, s)
                a, b = alt_index(e1.et, 'ActualTextStart'), alt_index(e1.et, 'ActualTextEnd')
                i = tobv(x.idx, 8)
                E.oblige(s, z3.And(z3.Implies(i == a, z3.Not(cur)), z3.Implies(i == b, cur)), 'ActualText spans open and close alternately', fn=F.name)
                cur = z3.If(i == a, z3.BoolVal(True), z3.If(i == b, z3.BoolVal(False), cur))
            E.oblige(s, zbool(in1) == cur, 'the sequence knows whether a span is open', fn=F.name)
        if not n:
            E.oblige(State(), False, 'the function has an outcome', fn=F.name)
    return run


def t_tj(prog, T):
    """only a sequence without open span enters a text object"""
    F = find(prog, NS + 'PdfText::cmd_TJ')
    E = T.engine()
    st = State()
    args = fresh_args(E, st, F)
    o = E.force(E.load(st, args[0]), st)
    in0 = E.force(o.f['in_actualtext'], st)
    E.store(st, args[0], o.set('in_actualtext', in0))
    this = fresh_this(E, st, F)
    ev0 = E.force(E.force(E.load(st, this), st).f['events'], st)
    E.store(st, this, E.force(E.load(st, this), st).set('events', ev0))
    for s, k, v in call_fn(E, F, args, this, st):
        ev = E.force(E.force(E.load(s, this), s).f['events'], s)
        same = ev.buid == ev0.buid and same_term(ev.bsize, ev0.bsize)
        E.oblige(s, same, 'text events are only appended', fn=F.name)
        if ev.tail:
            E.oblige(s, znot(zbool(E.tobool(s, in0))), 'a sequence with an open ActualText span is rejected', fn=F.name)


def fmt_noop(E):
    """object formatter methods only touch the formatter itself (frame proved under A01); here their text does not matter"""
    def h(E2, st, fr, G, this, argv, e):
        rt = G.tu.T(G.ret)
        return VOID if rt.k == 'void' else E2.fresh(decay(rt), 'fmt%d' % uid(), st)
    for G in E.prog.fns:
        if G.name.startswith(NS + 'ObjectFormatter::') and not G.isctor and not G.name.endswith('~ObjectFormatter') and not G.name.endswith('operator='):
            E.fnhooks[G.name] = h


def t_steal(prog, T):
    F = find(prog, CSF + '::steal')
    E = T.engine()
    st = State()
    this = fresh_this(E, st, F)
    cm = E.force(E.load(st, this), st)
    buf, stk = E.force(cm.f['buf'], st), E.force(cm.f['stack'], st)
    E.store(st, this, cm.set('buf', buf).set('stack', stk))
    for s, k, v in call_fn(E, F, [], this, st):
        if k != 'n':
            E.oblige(s, False, 'taking the commands does not throw', fn=F.name)
            continue
        v = E.force(E.rv(s, v), s)
        ok = zbool(v.ok)
        E.oblige(s, ok == (tobv(E.vsize(stk), 64) == 0), 'commands can be taken exactly when every bracket is closed', fn=F.name)
        s1 = s.copy()
        s1.pc.append(ok)
        if E.feasible(s1):
            w = E.force(v.v, s1)
            E.oblige(s1, isinstance(w, StrV) and same_pieces(w.p, buf.p), 'the commands taken are those recorded', fn=F.name, detail=repr(w)[:200])


def t_serialize(prog, T):
    F = find(prog, DC + '::serialize')
    E = T.engine()
    st = State()
    this = fresh_this(E, st, F)
    o = E.force(E.load(st, this), st)
    cm = E.force(o.f['cmds'], st)
    buf, stk = E.force(cm.f['buf'], st), E.force(cm.f['stack'], st)
    E.store(st, this, o.set('cmds', cm.set('buf', buf).set('stack', stk)))
    fmt_noop(E)

    def brd(E2, st, fr, G, th, argv, e):
        forget(E2, st, th)
        return VOID
    E.fnhooks[DC + '::build_resource_dict'] = brd
    n = 0

    def stream(s, v):
        if isinstance(v, SV):
            if 'command_stream' in v.f:
                return [E.force(v.f['command_stream'], s)]
        if isinstance(v, VarV):
            return [x for i, a in v.alts.items() if v.idx == i or not isinstance(v.idx, int) for x in stream(s, E.force(a, s))]
        return []
    for s, k, v in call_fn(E, F, [], this, st):
        if k != 'n':
            continue
        v = E.force(E.rv(s, v), s)
        s1 = s.copy()
        s1.pc.append(zbool(v.ok))
        if not E.feasible(s1):
            continue
        E.oblige(s1, tobv(E.vsize(stk), 64) == 0, 'a context becomes page content only when every bracket is closed', fn=F.name)
        got = stream(s1, E.force(v.v, s1))
        E.oblige(s1, len(got) == 1 and isinstance(got[0], StrV) and same_pieces(got[0].p, buf.p), 'the page content is exactly what was recorded', fn=F.name, detail=repr(got)[:200])
        n += 1
    if n < 3:
        E.oblige(State(), False, 'success paths exist', fn=F.name)


def t_frame(prog, T):
    F = find(prog, DC + '::build_resource_dict')
    E = T.engine()
    st = State()
    this = fresh_this(E, st, F)
    o = E.force(E.load(st, this), st)
    cm = E.force(o.f['cmds'], st)
    buf, stk = E.force(cm.f['buf'], st), E.force(cm.f['stack'], st)
    E.store(st, this, o.set('cmds', cm.set('buf', buf).set('stack', stk)))
    fmt_noop(E)
    for s, k, v in call_fn(E, F, None, this, st):
        c = E.force(E.force(E.load(s, this), s).f['cmds'], s)
        b, t = E.force(c.f['buf'], s), E.force(c.f['stack'], s)
        E.oblige(s, same_pieces(b.p, buf.p) and same_val(t, stk), 'collecting resources leaves the recorded commands alone', fn=F.name)


SKIP = ('clear', 'build_resource_dict', 'serialize')


def methods(prog):
    out = []
    seen = set()
    for F in prog.fns:
        if F.cls is None or F.isctor or F.static or F.body is None:
            continue
        cn = F.name.rsplit('::', 1)[0]
        if cn != DC:
            continue
        k = (F.name, tuple(F.tu.T(p['t']).key for p in F.params))
        if k in seen:
            continue
        seen.add(k)
        out.append(F)
    return out


def tasks(prog, tier):
    r = [Task('CommandStreamFormatter::steal', t_steal, 60), Task('PdfDrawContext::serialize', t_serialize, 120), Task('PdfDrawContext::build_resource_dict', t_frame, 120)]
    r.append(Task('CommandStreamFormatter::has_state', t_stack('has_state'), 60))
    r.append(Task('CommandStreamFormatter::marked_content_depth', t_stack('marked_content_depth'), 60))
    for F in prog.fns:
        if F.name.startswith(NS + 'TextSequence::') and F.body is not None and not F.isctor and F.name.split('::')[-1] not in ('steal_guts', '~TextSequence', 'operator='):
            r.append(Task('TextSequence::' + F.name.split('::')[-1], t_seq(F), 60))
    for F in findall(prog, NS + 'PdfDocument::add_structure_item'):
        r.append(Task('PdfDocument::add_structure_item ' + F.tu.T(F.params[0]['t']).key[-24:], t_role(F), 60))
    r.append(Task('PdfText::cmd_TJ', t_tj, 60))
    for F in methods(prog):
        nm = F.name.split('::')[-1]
        if nm in SKIP:
            continue
        r.append(Task('PdfDrawContext::%s/%d' % (nm, len(F.params)) + ('' if not F.params else ' ' + F.tu.T(F.params[0]['t']).key[-30:]), t_method(F, 'cmds'), 120))
    return r


def replay(tier, seed):
    return native.run_harness('h_doc', [tier, str(seed), 'A02'])


HOW = 'harness/h_doc.cpp with third argument A02: random applications; the written content streams and the return codes are judged by an independent reader'
ASSUME = ['the graphics context invariant: no text object is open between calls (obligation of every method)',
          'names handed to cmd_CS / cmd_cs are PDF names (their only callers build them with std::format("/CSpace{}"))',
          'ICC profiles stored in a document have at least one channel',
          'numbers given by the caller are finite',
          'PdfDocument::get_subset_glyph and get_builtin_font_object do not touch the draw context']
