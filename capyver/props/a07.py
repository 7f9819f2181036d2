"""A07: writing the output file is all or nothing."""
from ..spec import *
from .. import fsmodel, callgraph, native, objfmt, text
from . import a02

NS = 'capypdf::internal::'
WR = NS + 'PdfWriter'
OF = NS + 'ObjectFormatter'
DOC = NS + 'PdfDocument'


def sig(F):
    return (F.name, tuple(F.tu.T(p['t']).key for p in F.params))


def havoc_frame(E, st, G, this, argv):
    """contract of a callee about which nothing is known: whatever it can change is unconstrained afterwards"""
    for p, a in zip(G.params, argv):
        pt = G.tu.T(p['t'])
        if pt.k in ('ref', 'ptr') and not pt.t.const:
            if pt.t.k == 'rec' and pt.t.nn == OF:
                continue            # its content is private: only its own methods look at it
            if isinstance(a, Loc):
                E.havoc_loc(st, a)
            elif isinstance(a, PtrV) and a.loc is not None:
                E.havoc_loc(st, a.loc)
    if this is not None and not G.const and not G.isctor and not G.name.startswith(OF + '::'):
        E.havoc_loc(st, this)
        if G.cls is not None:
            o = E.load(st, this)
            o = E.force(o, st)
            if isinstance(o, SV):
                for x in o.f.values():
                    if isinstance(x, Loc):
                        E.havoc_loc(st, x)


def fallible(inline=()):
    """hook: every fallible function of the program may succeed or fail; a failure is remembered.  Other functions: frame only"""
    def h(E2, st, fr, G, this, argv, e):
        if sig(G) in inline or G.name in inline or (G.cls is not None and G.name.endswith('operator()') and 'lambda' in G.name) or G.isctor or G.name == NS + 'create_error':
            return NotImplemented
        if not G.name.startswith('capypdf') and not G.name.startswith('capy'):
            return NotImplemented
        rt = decay(G.tu.T(G.ret))
        if callgraph.is_rvoe(G):
            havoc_frame(E2, st, G, this, argv)
            r = a02.rvoe_fresh(E2, st, G)
            if E2.choose(2):
                st.pc.append(z3.Not(zbool(r.ok)))
                st.ghost['failed'] = st.ghost.get('failed', ()) + (G.name.split('::')[-1],)
                return r
            st.ghost['done'] = st.ghost.get('done', ()) + ((G.name.split('::')[-1], tuple(argv)),)
            st.pc.append(zbool(r.ok))
            return r
        havoc_frame(E2, st, G, this, argv)
        return VOID if rt.k == 'void' else E2.fresh_result(st, fr, G.tu.T(G.ret), 'res!%s!%d' % (G.name.split('::')[-1], uid()))
    return h


def ok_of(E, s, v, F):
    """formula: the function reports success"""
    v = E.force(E.rv(s, v), s)
    if isinstance(v, ExpV):
        return zbool(v.ok)
    if v is VOID or not (isinstance(v, int) or z3.is_bv(v)):
        return z3.BoolVal(True)         # a result that cannot report anything
    return tobv(v, 32) == 0


def t_propagate(F):
    def run(prog, T):
        E = T.engine(joint=lambda root, path: None, nopeel=True)
        fsmodel.install(E)
        E.hooks['anyfn'] = fallible()
        n = m = 0
        for s, k, v in call_fn(E, F):
            m += 1
            if k != 'n':
                continue
            ok = ok_of(E, s, v, F)
            bad = s.ghost.get('failed', ())
            if bad:
                E.oblige(s, z3.Not(ok), 'a failure of a step is reported', fn=F.name, detail='failed: %s' % ', '.join(bad))
                n += 1
            for op, info, good in s.ghost.get('io', ()):
                E.oblige(s, z3.Implies(ok, good), 'a failed file operation is reported', fn=F.name, detail=op)
                n += 1
        for lid, L in E.loops.items():
            for base, a in L['its']:
                if a.ghost.get('failed', ()) != base.ghost.get('failed', ()):
                    n += 1
                    E.oblige(a, False, 'a failure of a step ends the loop', fn=F.name, detail=', '.join(a.ghost['failed']))
        if not m:
            E.oblige(State(), False, 'an outcome exists', fn=F.name)
        if not n:
            E.oblige(State(), True, 'no step of this function can fail', fn=F.name)
    return run


def t_write_bytes(prog, T):
    """success means that the operating system took all bytes"""
    n = 0
    for F in findall(prog, WR + '::write_bytes'):
        if F.params and F.tu.T(F.params[0]['t']).k == 'ptr' and len(F.params) == 2:
            E = T.engine()
            fsmodel.install(E)
            st = State()
            this = fresh_this(E, st, F)
            args = fresh_args(E, st, F)
            g = [E.force(E.rv(st, a), st) for a in args]
            o = E.force(E.load(st, this), st)
            fv = E.force(o.f['ofile'], st)
            E.store(st, this, o.set('ofile', fv))
            want = fsmodel.stream(E, st, fv)
            for s, k, v in call_fn(E, F, args, this, st):
                if k != 'n':
                    E.oblige(s, False, 'writing does not throw', fn=F.name)
                    continue
                n += 1
                s1 = s.copy()
                s1.pc.append(ok_of(E, s, v, F))
                if not E.feasible(s1):
                    continue
                w = [x for x in s.ghost.get('io', ()) if x[0] == 'write']
                E.oblige(s1, len(w) == 1 or text.must(E, s1, tobv(g[1], 64) == 0), 'all bytes are handed to the file in one operation', fn=F.name)
                for _, (p, sz, cnt, f), good in w:
                    E.oblige(s1, good, 'success only if every byte was taken', fn=F.name)
                    E.oblige(s1, sz * cnt == tobv(g[1], 64), 'all bytes are written', fn=F.name)
                    E.oblige(s1, isinstance(p, PtrV) and same_val(p, g[0]), 'the given bytes are written', fn=F.name)
                    E.oblige(s1, f == want, 'the bytes go to the output file', fn=F.name)
        else:
            E = T.engine()
            fsmodel.install(E)
            st = State()
            this = fresh_this(E, st, F)
            args = fresh_args(E, st, F)
            calls = []

            def wb(E2, s, fr, G, th, argv, e):
                if len(G.params) != 2:
                    return NotImplemented
                r = a02.rvoe_fresh(E2, s, G)
                s.ghost['wb'] = s.ghost.get('wb', ()) + (([E2.rv(s, x) for x in argv], r.ok, th),)
                return r
            E.fnhooks[F.name] = wb
            val = E.force(E.rv(st, args[0]), st)
            nbytes = tobv(E.str_len(val.p) if isinstance(val, StrV) else E.vsize(val) if isinstance(val, VecV) else 0, 64)
            for s, k, v in call_fn(E, F, args, this, st):
                if k != 'n':
                    continue
                n += 1
                s1 = s.copy()
                s1.pc.append(ok_of(E, s, v, F))
                if not E.feasible(s1):
                    continue
                w = s.ghost.get('wb', ())
                E.oblige(s1, len(w) == 1, 'the bytes are written by one call', fn=F.name)
                for a, ok, th in w:
                    E.oblige(s1, ok, 'success only if the write succeeded', fn=F.name)
                    E.oblige(s1, tobv(a[1], 64) == nbytes, 'all bytes are written', fn=F.name)
    if n < 3:
        E.oblige(State(), False, 'write_bytes has its overloads', fn=WR + '::write_bytes')


def differ(E, s, a, b):
    """two texts cannot be equal"""
    if same_pieces(a.p, b.p):
        return False
    la, lb = tobv(E.str_len(a.p), 64), tobv(E.str_len(b.p), 64)
    return text.must(E, s, la != lb)


def t_target(prog, T):
    """write_to_file(name): everything goes to another file, which replaces the named one only after all steps succeeded"""
    F = find(prog, WR + '::write_to_file', 1, lambda F: F.tu.T(F.params[0]['t']).k == 'ptr' and F.tu.T(F.params[0]['t']).t.k != 'rec')
    E = T.engine()
    fsmodel.install(E)
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    target = StrV(objfmt.text(E, st, args[0]))

    def inner(E2, s, fr, G, th, argv, e):
        if same_sig(G, F):
            return NotImplemented
        f = fsmodel.stream(E2, s, argv[0])
        havoc_frame(E2, s, G, th, [])
        c = E2.choose(3)
        fsmodel.io(s, 'content', f, z3.BoolVal(c == 0))
        if c == 2:
            raise CppThrow(OpqV(None, 'exception', None))
        r = a02.rvoe_fresh(E2, s, G)
        return ExpV(r.t, c == 0, r.v, r.e)
    E.fnhooks[F.name] = inner
    n = 0
    for s, k, v in call_fn(E, F, args, this, st):
        io = s.ghost.get('io', ())
        opened = None
        for j, (op, info, good) in enumerate(io):
            if op == 'open':
                name, mode, root = info
                E.oblige(s, differ(E, s, name, target), 'the previous file is never opened for writing', fn=F.name, detail='%r against %r' % (name.p, target.p))
            elif op == 'rename':
                E.oblige(s, same_pieces(info[1].p, target.p), 'the finished file gets the requested name', fn=F.name)
            elif op not in ('write', 'flush', 'sync', 'close', 'content'):
                for x in (info if isinstance(info, tuple) else (info,)):
                    E.oblige(s, isinstance(x, StrV) and differ(E, s, x, target), 'the previous file is not touched', fn=F.name, detail=op)
        # nothing of the target changes unless everything before was fine
        for j, (op, info, good) in enumerate(io):
            if op != 'rename':
                continue
            seq = [x[0] for x in io[:j]]
            E.oblige(s, seq.count('rename') == 0, 'the file is moved once', fn=F.name)
            E.oblige(s, [x for x in seq if x != 'flush' or True] and seq[:1] == ['open'] and 'content' in seq and before(seq, ('content', 'flush', 'sync', 'close')),
                     'the file is moved after content, flush, sync and close', fn=F.name, detail=' '.join(seq))
            s1 = s.copy()
            o = [x for x in io[:j] if x[0] == 'open']
            for op2, info2, good2 in io[:j]:
                E.oblige(s, good2, 'the file is moved only if every step succeeded', fn=F.name, detail=op2)
                if op2 in ('flush', 'sync', 'close', 'content') and o:
                    E.oblige(s, info2 == o[0][1][2], 'every step works on the file that is moved', fn=F.name, detail=op2)
            if o:
                E.oblige(s, same_pieces(o[0][1][0].p, info[0].p), 'the written file is the one that is moved', fn=F.name)
                E.oblige(s, o[0][1][1][:1] == (b'wb',) or o[0][1][1] == (b'w',), 'the file is opened empty', fn=F.name, detail=repr(o[0][1][1]))
            E.oblige(s, io[j + 1:] == () or all(x[0] not in ('write', 'open', 'rename') for x in io[j + 1:]), 'nothing is written after the move', fn=F.name)
        opens = [x[1][2] for x in io if x[0] == 'open']
        closes = [x[1] for x in io if x[0] == 'close']
        for r in opens:
            s2 = s.copy()
            s2.pc.append([x[2] for x in io if x[0] == 'open' and x[1][2] == r][0])
            if E.feasible(s2):
                E.oblige(s2, closes.count(r) == 1, 'the stream is closed exactly once', fn=F.name)
        if k != 'n':
            E.oblige(s, not any(x[0] == 'rename' for x in io) or z3.Not(z3.Or(*[x[2] for x in io if x[0] == 'rename'])), 'an exception leaves the previous file', fn=F.name)
            continue
        n += 1
        ok = ok_of(E, s, v, F)
        ren = [x for x in io if x[0] == 'rename']
        if not ren:
            E.oblige(s, z3.Not(ok), 'success only after the file was moved into place', fn=F.name, detail=' '.join(x[0] for x in io))
        for x in ren:
            E.oblige(s, ok == x[2], 'success is reported exactly if the move succeeded', fn=F.name)
    if not n:
        E.oblige(State(), False, 'an outcome exists', fn=F.name)


def before(seq, order):
    i = 0
    for x in seq:
        if i < len(order) and x == order[i]:
            i += 1
    return i == len(order) and seq[-1] == 'close' and 'write' not in seq[seq.index('flush'):] if 'flush' in seq else False


def same_sig(F, G):
    return sig(F) == sig(G)


def t_impl(prog, T):
    """the parts of a file are all written, in order"""
    F = find(prog, WR + '::write_to_file_impl')
    E = T.engine()
    fsmodel.install(E)
    E.hooks['anyfn'] = fallible()
    n = 0
    for s, k, v in call_fn(E, F):
        if k != 'n':
            continue
        s1 = s.copy()
        s1.pc.append(ok_of(E, s, v, F))
        if not E.feasible(s1):
            continue
        n += 1
        d = [x for x, _ in s.ghost.get('done', ())]
        old = d == ['write_header', 'create_catalog', 'write_objects', 'write_cross_reference_table', 'write_oldstyle_trailer']
        new = d == ['write_header', 'create_catalog', 'write_objects', 'write_main_objstm', 'write_cross_reference_stream', 'write_newstyle_trailer']
        E.oblige(s1, old or new, 'a successful file has its header, objects, cross-references and trailer', fn=F.name, detail=' '.join(d))
    if n < 2:
        E.oblige(State(), False, 'both file formats are written', fn=F.name)


def t_stream(prog, T):
    """write_to_file(stream): the parts go to the given stream and their result is returned"""
    F = find(prog, WR + '::write_to_file', 1, lambda F: F.tu.T(F.params[0]['t']).k == 'ptr' and F.tu.T(F.params[0]['t']).t.k == 'rec')
    E = T.engine()
    fsmodel.install(E)
    st = State()
    this = fresh_this(E, st, F)
    args = fresh_args(E, st, F)
    want = fsmodel.stream(E, st, args[0])

    def impl(E2, s, fr, G, th, argv, e):
        o = E2.force(E2.load(s, th), s)
        f = fsmodel.stream(E2, s, o.f['ofile'])
        c = E2.choose(3)
        fsmodel.io(s, 'content', f, z3.BoolVal(c == 0))
        if c == 2:
            raise CppThrow(OpqV(None, 'exception', None))
        r = a02.rvoe_fresh(E2, s, G)
        return ExpV(r.t, c == 0, r.v, r.e)
    E.fnhooks[WR + '::write_to_file_impl'] = impl
    n = 0
    for s, k, v in call_fn(E, F, args, this, st):
        io = s.ghost.get('io', ())
        c = [x for x in io if x[0] == 'content']
        E.oblige(s, len(c) == 1 and c[0][1] == want, 'the content goes to the given stream', fn=F.name)
        if k != 'n':
            E.oblige(s, bool(c) and text.must(E, s, z3.Not(c[0][2])), 'an exception is passed on', fn=F.name)
            continue
        n += 1
        if c:
            E.oblige(s, ok_of(E, s, v, F) == c[0][2], 'success exactly if all content was written', fn=F.name)
    if not n:
        E.oblige(State(), False, 'an outcome exists', fn=F.name)


def writers(prog):
    root = [F for F in prog.fns if F.name == 'capy_generator_write']
    out, seen = [], set()
    for F in callgraph.reach(prog, root):
        if F.name.endswith('operator()') or F.body is None:
            continue
        cs = [G for G, n in callgraph.callees(prog, F) if G is not None and callgraph.is_rvoe(G)]
        if (cs or callgraph.is_rvoe(F) and F.name.startswith(WR)) and sig(F) not in seen:
            seen.add(sig(F))
            out.append(F)
    return out


def tasks(prog, tier):
    ts = [Task('PdfWriter::write_to_file(name)', t_target, 200, 20), Task('PdfWriter::write_to_file(stream)', t_stream, 200, 4),
          Task('PdfWriter::write_to_file_impl parts', t_impl, 200, 2), Task('PdfWriter::write_bytes', t_write_bytes, 200, 10)]
    for F in writers(prog):
        if F.name == WR + '::write_to_file':
            continue
        ts.append(Task('%s(%d)' % (F.name, len(F.params)), t_propagate(F), 200, 1))
    return ts


def replay(tier, seed):
    return native.run_harness('h_write', [tier, str(seed)], timeout=600)


HOW = 'harness/h_write.cpp: documents are written while one operation of the C library fails, or the disk is full'
ASSUME = ['rename replaces the target atomically or leaves it alone (POSIX)',
          'fwrite, fflush, fsync and fclose report a failure by their result, as the C standard and POSIX demand',
          'the text inside an ObjectFormatter is private to it (C++ access control), so its methods affect nothing else',
          'the result of ftell on the output file is its position (a failing ftell is not considered)',
          'functions whose result cannot carry an error are replaced by their frame in the propagation tasks']
