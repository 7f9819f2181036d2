"""A10: a reset draw context is a fresh one."""
from ..spec import *
from .. import native

NS = 'capypdf::internal::'
DC = NS + 'PdfDrawContext'
CONST = ('.doc', '.cm', '.context_type', '.bbox')


def fresh_ctx(E, prog, st, pre):
    """a context constructed with the owner, kind and area of the given one"""
    C = [F for F in prog.fns if F.isctor and F.cls is not None and F.name == DC + '::PdfDrawContext' and len(F.params) == 4]
    if not C:
        raise Unsupported('draw context constructor')
    C = C[0]
    ct = C.tu.T(C.cls)
    fr = Frame(-5, None, C.tu, None)
    this = E.heap('fresh', ct, st, E.default(ct, st, fr))
    outs = E.run_fn(st, C, this, [pre['doc'], pre['cm'], pre['context_type'], E.heap('area', None, st, pre['bbox'])], fr)
    if len(outs) != 1 or outs[0][1] != 'n':
        raise Unsupported('constructor paths')
    s = outs[0][0]
    return s, E.load(s, this)


def compare(E, prog, s, loc, pre, name, fn):
    s2, ref = fresh_ctx(E, prog, s.copy(), pre)
    cur = E.load(s2, loc)
    n = 0
    for p, f in eq_state(E, s2, cur, ref):
        if p.startswith('.cmds.appender'):
            continue
        E.oblige(s2, f, '%s: %s' % (name, p.lstrip('.').split('[')[0]), fn=fn)
        n += 1
    return n


def mk_ctx(E, F, st, ct):
    v = E.fresh(ct, 'ctx', st)
    pre = {k: E.force(v.f[k], st) for k in ('doc', 'cm', 'context_type', 'bbox')}
    v2 = v
    for k, x in pre.items():
        v2 = v2.set(k, x)
    return E.heap('ctx', ct, st, v2), pre


def t_clear(prog, T):
    F = find(prog, DC + '::clear')
    E = T.engine()
    st = State()
    ct = F.tu.T(F.cls)
    loc, pre = mk_ctx(E, F, st, ct)
    for s, k, v in call_fn(E, F, [], loc, st):
        if k != 'n':
            E.oblige(s, False, 'the reset cannot fail', fn=F.name)
            continue
        compare(E, prog, s, loc, pre, 'after a reset the context equals a new one', F.name)


def t_add(fname, kind):
    def run(prog, T):
        F = find(prog, NS + 'PdfGen::' + fname, 1)
        E = T.engine()
        st = State()
        ct = F.tu.T(F.params[0]['t']).t
        loc, pre = mk_ctx(E, F, st, ct)

        def ser(E2, st, fr, G, this, argv, e):
            # contract: serialization may change anything in the context except its owner, kind and area
            v = E2.fresh(ct, 'ser%d' % uid(), st)
            for k, x in pre.items():
                v = v.set(k, x)
            E2.store(st, this, v)
            return E2.fresh(G.tu.T(G.ret), 'serres%d' % uid(), st)

        def padd(E2, st, fr, G, this, argv, e):
            for a in argv:
                if isinstance(a, Loc) and a.root == loc.root and G.tu.T(G.params[argv.index(a)]['t']).t.const is False:
                    return NotImplemented
            rt = G.tu.T(G.ret)
            return VOID if rt.k == 'void' else E2.fresh(rt, 'addres%d' % uid(), st)
        E.fnhooks[DC + '::serialize'] = ser
        for g in ('add_page', 'add_form_xobject'):
            E.fnhooks[NS + 'PdfDocument::' + g] = padd
        n = 0
        for s, k, v in call_fn(E, F, [loc], None, st):
            if k != 'n':
                continue
            v = E.rv(s, v)
            s2 = s.copy()
            if not E.feasible(s2, zbool(v.ok)):
                continue
            E.assume(s2, zbool(v.ok))
            n += compare(E, prog, s2, loc, pre, 'after a successful %s the context equals a new one' % kind, F.name)
        if not n:
            E.oblige(State(), False, 'a success path of %s exists' % fname, fn=F.name)
    return run


def tasks(prog, tier):
    return [Task('PdfDrawContext::clear', t_clear, 200, 20), Task('PdfGen::add_page', t_add('add_page', 'page addition'), 200, 20),
            Task('PdfGen::add_form_xobject', t_add('add_form_xobject', 'form addition'), 200, 20)]


def replay(tier, seed):
    return native.run_harness('h_reset', [tier, str(seed)])


HOW = 'harness/h_reset.cpp: one context used for two pages vs a fresh context'
ASSUME = ['pdoc.add_page / add_form_xobject leave the context untouched (they take its parts by value or const reference)',
          'draw contexts are only changed through their member functions']
