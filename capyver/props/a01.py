"""A01: every object written outside page content is one syntactically valid PDF object."""
from ..spec import *
from .. import objfmt, native
from ..objfmt import OF, NS, isbad, TokDom, ObjGrammar
from . import a02


def rec_of(t):
    t = decay(t)
    if t.k in ('ref', 'ptr'):
        t = decay(t.t)
    return t


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def builds_objects(F):
    for d in walk(F.body):
        if 'name' in d and isinstance(d.get('t'), int) and 'id' in d and not d.get('e'):
            try:
                t = F.tu.T(d['t'])
            except Exception:
                continue
            if t.k == 'rec' and t.nn == OF:
                return True
        if isinstance(d.get('t'), int) and d.get('e'):
            try:
                t = F.tu.T(d['t'])
            except Exception:
                continue
            if t.k == 'rec' and t.nn in (NS + 'FullPDFObject', NS + 'DeflatePDFObject'):
                return True
    return False


def functions(prog):
    out, seen = [], set()
    for F in prog.fns:
        if F.body is None or F.name.startswith(OF + '::') or not F.name.startswith('capypdf') or F.name in (NS + 'CommandStreamFormatter',):
            continue
        k = (F.name, tuple(F.tu.T(p['t']).key for p in F.params))
        if k in seen:
            continue
        if builds_objects(F) or F.name == NS + 'PdfWriter::write_objects':
            seen.add(k)
            out.append(F)
    return out


def one_object(E, s, v, what, fn):
    """the text is exactly one complete object"""
    v = E.force(v, s)
    if not isinstance(v, StrV):
        E.oblige(s, False, what, fn=fn, detail='no text: %r' % (v,))
        return
    for w, q in E.rope_dom.worlds(s, v):
        if not isbad(q):
            q = E.rope_dom.flush(q)
        E.oblige(w, E.rope_dom.g.one(q), what, fn=fn, detail=q[1] if isbad(q) else 'ends in state %r' % (q,))


def open_dict(E, s, o, what, fn):
    """the formatter holds exactly one open dictionary that has neither filter nor length yet"""
    o = E.force(o, s)
    buf, stk = E.force(o.f['buf'], s), objfmt.stack_of(E, s, o)
    ok = isinstance(stk.bsize, int) and stk.bsize == 0 and tuple(stk.tail) == (objfmt.DICT,)
    E.oblige(s, ok, what, fn=fn, detail='open containers %r' % (stk,))
    for w, q in E.rope_dom.worlds(s, buf):
        if not isbad(q):
            q = E.rope_dom.flush(q)
        good = not isbad(q) and len(q[1]) == 2 and q[1][0][0] == 't' and q[1][0][1] == 1 and q[1][1][0] == 'd' and q[1][1][1] in ('k', 'v1') and \
            not (q[1][1][2] & {'Filter', 'Length'})
        E.oblige(w, good, what, fn=fn, detail=q[1] if isbad(q) else 'state %r' % (q,))


UNCLOSED = None


def unclosed(E, t, name, st):
    """a formatter that holds one open dictionary: the contract of serialized drawing contexts and deflated streams"""
    v = E.force(E.fresh_now(t, name, st), st)
    stk = objfmt.stack_of(E, st, v)
    q = ('b', (('t', 1, 0), ('d', 'k', frozenset())))
    v = v.set('buf', StrV((('abs', uid(), frozenset([q])),)))
    return objfmt.with_stack(E, st, v, VecV(stk.et, stk.buid, 0, 0, (objfmt.DICT,), {}))


def alts_of(v):
    return list(v.alts.items()) if isinstance(v.idx, int) is False else [(v.idx, v.alts.get(v.idx))]


def check_object(E, s, v, fn):
    v = E.force(v, s)
    if not isinstance(v, VarV):
        raise Unsupported('object %r' % (v,))
    for i, a in alts_of(v):
        if a is None:
            continue
        a = E.force(a, s)
        if not isinstance(a, SV):
            continue
        s1 = s
        if not isinstance(v.idx, int):
            s1 = s.copy()
            s1.pc.append(tobv(v.idx, 8) == i)
            if not E.feasible(s1):
                continue
        if 'dictionary' in a.f:
            one_object(E, s1, a.f['dictionary'], 'a document object is one complete object', fn)
        if 'unclosed_dictionary' in a.f:
            open_dict(E, s1, a.f['unclosed_dictionary'], 'a stream object is one open dictionary without filter and length', fn)


def install(E):
    E.objfmt = objfmt.setup(E)
    E.objfmt.on_steal = lambda E2, s, v: one_object(E2, s, v, 'text taken from the formatter is one complete object', E2.curfn)
    E.hooks['compact'] = E.rope_dom.compact

    def keep(E2, root, path, x0, x1):
        # text that is scratch space (a name under construction) is not followed through loops
        if path and path[-1] == ('f', 'buf'):
            return True
        try:
            qs = [q for _, q in E2.rope_dom.worlds(State(), x1)]
        except Unsupported:
            return False
        return all(not isbad(q) and q[0] == 'b' for q in qs)
    E.hooks['joint_str'] = keep
    E.hooks['fresh'] = fresh_hook

    def add(E2, st, fr, G, this, argv, e):
        check_object(E, st, E.rv(st, argv[0]), E2.curfn)
        a2 = decay(G.tu.T(G.ret))
        return a02.rvoe_fresh(E, st, G) if a2.nn == 'std::expected' else E.fresh(a2, 'obj%d' % uid(), st)
    E.fnhooks[NS + 'PdfDocument::add_object'] = add

    def wr(E2, st, fr, G, this, argv, e):
        one_object(E, st, E.rv(st, argv[1]), 'a written object is one complete object', E2.curfn)
        return a02.rvoe_fresh(E, st, G)
    E.fnhooks[NS + 'PdfWriter::write_finished_object'] = wr


def one_value(E2, st, fr, G, this, argv, e):
    """contract: appends exactly one object to the formatter (obligation of the function's own task)"""
    f = E2.objfmt
    for i, p in enumerate(G.params):
        if rec_of(G.tu.T(p['t'])).nn == OF:
            return f.items(st, argv[i], (('cls', 'obj!', ('by', G.name, uid())),))
    raise Unsupported('no formatter parameter')


# helpers that write dictionary entries into the caller's dictionary -> the keys they may write
PAIR_WRITERS = {NS + 'serialize_trans': ('Trans',), NS + '(anonymous namespace)::serialize_viewports': ('VP',)}


def pairs(E2, st, fr, G, this, argv, e):
    f = E2.objfmt
    for i, p in enumerate(G.params):
        if rec_of(G.tu.T(p['t'])).nn == OF:
            return f.items(st, argv[i], (('cls', 'pairs:' + ','.join(PAIR_WRITERS[G.name]), ('by', G.name, uid())),))
    raise Unsupported('no formatter parameter')


VALUE_WRITERS = (NS + 'PdfDrawContext::build_resource_dict', NS + 'TransparencyGroupProperties::serialize')


def t_value(F):
    """a helper that writes one object into the caller's formatter"""
    def run(prog, T):
        E = T.engine(joint=lambda root, path: 'rope')
        install(E)
        st = State()
        args = fresh_args(E, st, F)
        for i, p in enumerate(F.params):
            t = F.tu.T(p['t'])
            if rec_of(t).nn == OF:
                E.hooks['fresh'] = None
                v = E.force(E.fresh(decay(t.t), 'fmt', st), st)
                E.hooks['fresh'] = fresh_hook
                stk = objfmt.stack_of(E, st, v)
                v = objfmt.with_stack(E, st, v.set('buf', StrV(() if F.name not in PAIR_WRITERS else (b'<< ',))), stk)
                E.store(st, args[i], v)
                loc = args[i]
                st.pc.append(tobv(E.vsize(stk), 64) != 0)
                n0 = stk
        n = 0
        for s, k, v in call_fn(E, F, args, None, st):
            if k != 'n':
                continue
            n += 1
            o = E.force(E.load(s, loc), s)
            if F.name in PAIR_WRITERS:
                for w, q in E.rope_dom.worlds(s, E.force(o.f['buf'], s)):
                    if not isbad(q):
                        q = E.rope_dom.flush(q)
                    ok = not isbad(q) and len(q[1]) == 2 and q[1][0][1] == 1 and q[1][1][1] in ('k', 'v1') and q[1][1][2] <= set(PAIR_WRITERS[F.name])
                    E.oblige(w, ok, 'complete dictionary entries are written into the enclosing dictionary', fn=F.name, detail=repr(q)[:300])
            else:
                one_object(E, s, o.f['buf'], 'exactly one object is written into the enclosing one', F.name)
            stk = objfmt.stack_of(E, s, o)
            E.oblige(s, stk.buid == n0.buid and not stk.tail and same_term(stk.bsize, n0.bsize), 'the enclosing containers stay open', fn=F.name)
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def t_genadd(which):
    """the generator hands the serialized context on to the document"""
    def run(prog, T):
        F = find(prog, NS + 'PdfGen::' + which, 1)
        E = T.engine(joint=lambda root, path: 'rope')
        install(E)
        E.fnhooks[NS + 'PdfDrawContext::serialize'] = ser_contract
        hit = []

        def add(E2, st, fr, G, this, argv, e):
            hit.append(1)
            if which == 'add_page':
                one_object(E, st, E.rv(st, argv[0]), 'the resources of a page are one complete object', E2.curfn)
            else:
                open_dict(E, st, E.rv(st, argv[0]), 'a stream object is one open dictionary without filter and length', E2.curfn)
            rt = decay(G.tu.T(G.ret))
            return VOID if rt.k == 'void' else a02.rvoe_fresh(E, st, G)
        E.fnhooks[NS + 'PdfDocument::' + which] = add
        for s, k, v in call_fn(E, F):
            pass
        E.oblige(State(), bool(hit), 'the context is handed on', fn=F.name)
    return run


ONE = frozenset([('b', (('t', 1, 0),))])


def ser_contract(E, st, fr, G, this, argv, e):
    """serialize: either page resources that are one object, or a form that is one open dictionary"""
    r = a02.rvoe_fresh(E, st, G)
    v = E.force(r.v, st)
    if isinstance(v, VarV):
        for i, a in list(v.alts.items()):
            a = E.force(a, st)
            if 'resource_dict' in a.f:
                v.alts[i] = a.set('resource_dict', StrV((('abs', uid(), ONE),)))
    return ExpV(r.t, r.ok, v, r.e)


def t_serialize(kind):
    def run(prog, T):
        F = find(prog, NS + 'PdfDrawContext::serialize')
        E = T.engine(joint=lambda root, path: 'rope')
        install(E)
        for n in VALUE_WRITERS:
            E.fnhooks[n] = one_value
        st = State()
        this = fresh_this(E, st, F)
        o = E.force(E.load(st, this), st)
        ct = E.force(o.f['context_type'], st)
        E.store(st, this, o.set('context_type', ct))
        vals = [e for n, e in prog.enums.items() if n.endswith('CapyPDF_Draw_Context_Type')][0]['values']
        st.pc.append(tobv(ct, 32) == vals[kind])
        n = 0
        for s, k, v in call_fn(E, F, [], this, st):
            if k != 'n':
                continue
            v = E.force(E.rv(s, v), s)
            s1 = s.copy()
            s1.pc.append(zbool(v.ok))
            if not E.feasible(s1):
                continue
            n += 1
            x = E.force(v.v, s1)
            for i, a in alts_of(x):
                a = E.force(a, s1)
                if 'resource_dict' in a.f:
                    E.oblige(s1, kind == 'CAPY_DC_PAGE', 'only pages have separate resources', fn=F.name)
                    one_object(E, s1, a.f['resource_dict'], 'the resources of a page are one complete object', F.name)
                else:
                    open_dict(E, s1, a.f['dict'], 'a form, group or pattern is one open dictionary without filter and length', F.name)
        if not n:
            E.oblige(State(), False, 'a success path exists', fn=F.name)
    return run


def fresh_hook(E, t, name, st):
    if t.k == 'rec' and t.nn == OF:
        E.hooks['fresh'] = None
        try:
            return unclosed(E, t, name, st)
        finally:
            E.hooks['fresh'] = fresh_hook
    if t.k == 'rec' and t.nn == NS + 'FullPDFObject':
        # invariant of document_objects: obligation of every add_object call
        E.hooks['fresh'] = None
        try:
            v = E.force(E.fresh_now(t, name, st), st)
        finally:
            E.hooks['fresh'] = fresh_hook
        return v.set('dictionary', StrV((('abs', uid(), ONE),)))
    return None


def expand(E, s, p):
    """[(state, pieces)] without choices"""
    out = [(s, ())]
    for x in p:
        nx = []
        for q, r in out:
            if isinstance(x, tuple) and x[0] == 'choice':
                for val, br in ((True, x[2]), (False, x[3])):
                    q2 = q.copy()
                    q2.pc.append(zbool(x[1]) if val else zbool(znot(x[1])))
                    if E.feasible(q2):
                        nx += [(q3, E.cat(r, r3)) for q3, r3 in expand(E, q2, br)]
            else:
                nx.append((q, E.cat(r, (x,))))
        out = nx
    return out


def kind_of(E, s, tok):
    return tok if isinstance(tok, bytes) else tok[:3] if tok[0] == 'fmt' else tok[:2] if tok[0] == 'cls' else tok[:1] if tok[0] == 'ref' else tok


def t_formatter(F, depth):
    """the code of a formatter method against the contract the callers use"""
    m = F.name.split('::')[-1]

    def run(prog, T):
        E = T.engine()
        f = objfmt.Fmt(E)
        f.install()
        lits = dict(E.fnhooks)
        E.fnhooks.clear()
        for k in ('bytes2pdfstringliteral', 'pdfstring_quote', 'utf8_to_pdfutf16be'):
            E.fnhooks[NS + k] = lits[NS + k]
        st = State()
        this = fresh_this(E, st, F)
        o = E.force(E.load(st, this), st)
        stk = objfmt.stack_of(E, st, o)
        stt = E.force(o.f['state'], st)
        if depth:
            top = E.force(E.fresh(stk.et, 'top', st), st)
            # class invariant: the indentation kept on the stack is made of blanks
            par = E.force(top.f['params'], st)
            top = top.set('type', E.force(top.f['type'], st)).set('params', par.set('indent', E.force(par.f['indent'], st)))
            stk = VecV(stk.et, stk.buid, stk.bsize, stk.boff, (top,), {})
        else:
            stk = VecV(stk.et, stk.buid, 0, 0, (), {})
        buf0 = E.force(o.f['buf'], st)
        stt = stt.set('indent', E.force(stt.f['indent'], st)).set('num_entries', E.force(stt.f['num_entries'], st))
        st.pc.append(z3.And(stt.f['num_entries'] >= 0, stt.f['num_entries'] < (1 << 30)))
        o = objfmt.with_stack(E, st, o.set('buf', buf0).set('state', stt), stk)
        E.store(st, this, o)
        args = fresh_args(E, st, F)
        if m in ('end_array', 'end_dict'):
            # precondition (obligation of every caller): the innermost container is of that kind
            want = objfmt.ARR if m == 'end_array' else objfmt.DICT
            st.pc.append(tobv(stk.tail[0].f['type'], 32) == want)
        if m == 'steal':
            pass
        for i, p in enumerate(F.params):
            if m == 'add_token_with_slash':
                # precondition: the text does not begin with a slash
                pass
        # what the contract appends
        sc = st.copy()
        if m in ('begin_array', 'begin_dict'):
            want = [b'[' if m == 'begin_array' else b'<<']
        elif m in ('end_array', 'end_dict'):
            want = [b']' if m == 'end_array' else b'>>']
        elif m == 'steal':
            want = []
        else:
            E.store(sc, this, o.set('buf', StrV(())))
            r = lits[F.name](E, sc, None, F, this, args, None)
            if r is NotImplemented:
                raise Unsupported('template method')
            want = objfmt.lex(E, sc, E.force(E.force(E.load(sc, this), sc).f['buf'], sc).p)
        n = 0
        for s, k, v in call_fn(E, F, args, this, st):
            if k != 'n':
                E.oblige(s, False, 'a formatter method does not throw', fn=F.name)
                continue
            n += 1
            o1 = E.force(E.load(s, this), s)
            b1 = E.force(E.rv(s, v), s) if m == 'steal' else E.force(o1.f['buf'], s)
            b0 = buf0.p
            for q, p in expand(E, s, b1.p):
                if p[:len(b0)] != b0 and not same_pieces(p[:len(b0)], b0):
                    E.oblige(q, False, 'a formatter method only appends', fn=F.name, detail=repr(p)[:200])
                    continue
                p = p[len(b0):]
                toks = objfmt.lex(E, q, tuple(('cls', 'ws', 0) if isinstance(x, tuple) and x[0] == 'in' and str(x[1]).endswith('indent') else x for x in p))
                ok = len(toks) == len(want)
                fs = []
                for a, b in zip(toks, want):
                    if isinstance(b, tuple) and b[:2] == ('fmt', 'b') and a in (b'true', b'false'):
                        fs.append(zbool(b[3]) == (a == b'true'))
                        continue
                    ok = ok and kind_of(E, q, a) == kind_of(E, q, b)
                    if ok and isinstance(a, tuple) and a[0] in ('fmt', 'ref'):
                        x, y = a[-1], b[-1]
                        if isinstance(x, z3.FPRef):
                            fs.append(x == tofp(y))
                        elif a[:2] == ('fmt', 'b'):
                            fs.append(zbool(E.tobool(q, x)) == zbool(E.tobool(q, y)))
                        elif is_z3(x) or is_z3(y):
                            w = (x if is_z3(x) else y).size()
                            fs.append(tobv(x, w) == tobv(y, w))
                        else:
                            ok = ok and x == y
                    elif ok and isinstance(a, tuple) and a[0] == 'cls' and m != 'add_token':
                        ok = a[2] == b[2]
                E.oblige(q, z3.And(*fs) if ok and fs else ok, 'the method appends exactly the tokens of its contract', fn=F.name, detail='%r instead of %r' % (toks, want))
                nested = objfmt.stack_of(E, q, o1)
                ends = bool(p) and (isinstance(p[-1], bytes) and p[-1][-1:] in (b' ', b'\n') or isinstance(p[-1], tuple) and p[-1][0] == 'in' and 'indent' in str(p[-1][1]))
                if m != 'steal':
                    nn = E.vsize(nested)
                    E.oblige(q, True if ends else simp(tobv(nn, 64) == 0), 'inside a container a separator follows every token', fn=F.name, detail=repr(p)[:200])
            s1 = objfmt.stack_of(E, s, o1)
            t1 = E.force(o1.f['state'], s)
            if m in ('begin_array', 'begin_dict'):
                ok = s1.buid == stk.buid and same_term(s1.bsize, stk.bsize) and len(s1.tail) == len(stk.tail) + 1
                fs = []
                if ok:
                    x = E.force(s1.tail[-1], s)
                    fs.append(tobv(E.force(x.f['type'], s), 32) == (objfmt.ARR if m == 'begin_array' else objfmt.DICT))
                    fs += [zbool(y) for _, y in eq_state(E, s, E.force(x.f['params'], s), stt)]
                    ok = all(same_val(a, b) for a, b in zip(s1.tail, stk.tail))
                E.oblige(s, z3.And(*fs) if ok and fs else ok, 'opening a container records it on the stack with the state to return to', fn=F.name)
                ind = E.force(t1.f['indent'], s)
                tail = ind.p[len(stt.f['indent'].p):]
                E.oblige(s, same_pieces(ind.p[:len(stt.f['indent'].p)], stt.f['indent'].p) and all(isinstance(x, bytes) and not x.strip() for x in tail),
                         'the indentation is made of blanks', fn=F.name, detail=repr(ind))
            elif m in ('end_array', 'end_dict'):
                E.oblige(s, s1.buid == stk.buid and same_term(s1.bsize, stk.bsize) and not s1.tail, 'closing a container removes it from the stack', fn=F.name)
                top = E.force(stk.tail[0].f['params'], s)
                E.oblige(s, same_val(E.force(t1.f['indent'], s), E.force(top.f['indent'], s)), 'the indentation is made of blanks', fn=F.name)
            else:
                E.oblige(s, same_val(s1, stk), 'the open containers stay as they are', fn=F.name)
                if m != 'steal':
                    E.oblige(s, same_val(E.force(t1.f['indent'], s), stt.f['indent']), 'the indentation is made of blanks', fn=F.name)
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


def t_fn(F):
    def run(prog, T):
        E = T.engine(joint=lambda root, path: 'rope')
        install(E)
        me = F.name
        for G in prog.fns:
            # other functions that write objects are checked on their own
            if G.name != me and G.name in OWN and G.name not in E.fnhooks:
                E.fnhooks[G.name] = callee
        for n in VALUE_WRITERS:
            E.fnhooks[n] = one_value
        for n in PAIR_WRITERS:
            E.fnhooks[n] = pairs
        E.fnhooks[NS + 'current_date_string'] = lambda *a: StrV((('cls', 's', ('date',)),))
        E.fnhooks[NS + 'PdfDrawContext::serialize'] = ser_contract
        for G in prog.fns:
            if G.name.startswith(NS) and G.name.split('::')[-1] in PLAIN:
                E.fnhooks[G.name] = callee
        st = State()
        args = fresh_args(E, st, F)
        if me == NS + 'PdfDocument::add_page':
            args[0] = StrV((('abs', uid(), ONE),))      # obligation of PdfGen::add_page
        n = 0
        for s, k, v in call_fn(E, F, args, None, st):
            n += 1
        if not n:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
    return run


OWN = set()
PLAIN = ('generate_font', 'flate_compress', 'load_icc_profile')     # their result is stream data


def callee(E, st, fr, G, this, argv, e):
    rt = decay(G.tu.T(G.ret))
    return VOID if rt.k == 'void' else a02.rvoe_fresh(E, st, G) if rt.nn == 'std::expected' else E.fresh(rt, 'r%d' % uid(), st)


def tasks(prog, tier):
    r = []
    fns = functions(prog)
    OWN.clear()
    OWN.update(F.name for F in fns)
    seen = set()
    for F in prog.fns:
        m = F.name.split('::')[-1]
        if not F.name.startswith(OF + '::') or m not in objfmt.METHODS or F.body is None:
            continue
        ts = tuple(F.tu.T(p['t']).key for p in F.params)
        if (m, ts) in seen or (m == 'add_token_pair' and not all(decay(F.tu.T(p['t'])).k == 'ptr' for p in F.params)):
            continue
        seen.add((m, ts))
        for d in (0, 1):
            if (d == 0 and m.startswith('end_')) or (d and m == 'steal'):
                continue
            r.append(Task('ObjectFormatter::%s(%s) %s' % (m, ','.join(ts), 'nested' if d else 'outermost'), t_formatter(F, d), 60))
    for n in tuple(VALUE_WRITERS) + tuple(PAIR_WRITERS):
        for F in findall(prog, n)[:1]:
            r.append(Task('value %s' % n[len(NS):], t_value(F), 150))
    for k in ('CAPY_DC_PAGE', 'CAPY_DC_FORM_XOBJECT', 'CAPY_DC_TRANSPARENCY_GROUP', 'CAPY_DC_COLOR_TILING'):
        r.append(Task('PdfDrawContext::serialize %s' % k, t_serialize(k), 100))
    for k in ('add_page', 'add_form_xobject'):
        r.append(Task('PdfGen::' + k, t_genadd(k), 100))
    for F in fns:
        if F.name == NS + 'PdfDrawContext::serialize':
            continue
        r.append(Task('object %s' % F.name[len(NS):], t_fn(F), 120))
    return r


def replay(tier, seed):
    return native.run_harness('h_doc', [tier, str(seed), 'A01'])


HOW = 'harness/h_doc.cpp with third argument A01'
ASSUME = ['current_date_string (strftime) returns the text of a date string token',
          'generate_font, flate_compress, load_icc_profile and the image loaders return stream data only: it goes inside a stream, never into a dictionary',
          'the string, name and hexadecimal escaping functions return exactly one token (decided by A03 and A04)',
          'PdfDocument::document_objects is filled only through add_object and its variants, whose callers are the tasks here',
          'numbers given by the caller are finite',
          'structure attribute and rolemap names set by the library are PDF names',
          'objects prepared by the caller outside the library do not exist: no C interface function takes raw PDF text']
