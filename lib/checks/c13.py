"""rule parameters, value parameters, grammar parameters"""
from check import Check
from core import TIER, SEED
import corpus as K, random
from gram import *

DEEP = TIER == 'thorough'
L = Lit; P = Pos
PA = lambda: Pat(K.P1); PB = lambda: Pat(K.P2)
nd = lambda *e: Seq(*e, act=('nd',))
top = lambda *e, **k: Rule('top', Seq(*e, ('p', P()), act=('nd',)), **k)
RT = 'rule<T>'
GT = '<T: ToV>'
wrap = lambda e, name='wrap': Rule(name, e, params='r: rule<T>', generics=GT)
r = lambda: Par(0, 'r')
n_ = ('p', 0, 'n'); m_ = ('p', 1, 'm')


def args():
    """argument expressions"""
    yield lambda: PA()
    yield lambda: L('a')
    yield lambda: Call('v1')
    yield lambda: Seq(L('a'), L('b'))
    yield lambda: Alt(Seq(L('a')), Seq(L('b')))
    yield lambda: nd(('y', PA()), L('b'))
    yield lambda: Seq(('y', PA()), ('z', P()), act=('cond', 0, 'c0'))
    yield lambda: Slice(Rep(L('a'), '+'))
    yield lambda: Rep(PA(), (1, 2))
    yield lambda: Opt(L('a'))
    yield lambda: And(PA())
    yield lambda: Quiet(L('a'))
    yield lambda: Meth(0)
    yield lambda: P()
    yield lambda: Alt(Quiet(PA()), Exp('thing'))
    yield lambda: nd(Not(L('a')), ('y', PB()))
    yield lambda: Call('wrap2', [PA()])


def bodies():
    """rules with one rule parameter"""
    yield nd(('x', r()), ('q', P()))
    yield nd(('x', r()), ('y', r()))
    yield nd(('x', Rep(r(), (1, 3))))
    yield nd(L('c'), ('x', Opt(r())), Opt(L('d')))
    yield Alt(nd(('x', r()), L('c')), nd(L('d'), ('x', r())), nd(PA()))
    yield nd(('x', Rep(r(), (2, None), exact=True, sep=L('c'))))
    yield nd(('x', PB()), ('y', Rep(PB(), (None, 2), sep=r())))
    yield nd(Not(r()), ('x', PB()))
    yield nd(('x', And(r())), ('y', PB()))
    yield nd(('x', Slice(nd(r(), Opt(L('c'))))))
    yield nd(('x', Call('wrap2', [r()])))
    yield nd(('x', Call('wrap2', [Seq(L('c'), ('y', r()), act=('nd',))])))
    yield nd(('x', Quiet(r())))
    yield nd(('x', Call('two', [r(), Seq(L('d'), ('z', r()), act=('nd',))])))
    yield Alt(nd(('x', r()), ('y', Call('back')), ), nd(('x', r())))


AUX = lambda: [wrap(nd(('x', r()), L('d')), 'wrap2'), Rule('two', Alt(nd(('x', Par(0, 'a')), ('y', Par(1, 'b'))), nd(('y', Par(1, 'b')), ('x', Par(0, 'a')))), params='a: rule<T>, b: rule<U>', generics='<T: ToV, U: ToV>'),
               Rule('back', nd(('x', PA()), ('q', P()))), Rule('v1', nd(('x', PB()), Opt(L('h'))))]


def used(rules, pool):
    rules = list(rules); names = {x.name for x in rules}
    while True:
        need = {x.name for q in rules for x in q.e.walk() if isinstance(x, Call)} - names
        add = [p for p in pool if p.name in need]
        if not add: return rules
        rules += add; names |= {a.name for a in add}


def values():
    """value parameters, forwarded and computed; grammar parameters; labels used by later bounds and arguments"""
    C = Call
    rep = lambda b, **k: Rep(L('a'), b, **k)
    for b, ex in (((n_, None), True), ((n_, None), False), ((None, n_), False), ((1, n_), False), ((n_, 2), False), ((n_, m_), False)):
        for sep in (None, lambda: L('b')):
            k = dict(sep=sep and sep(), exact=ex)
            two = m_ in b
            body = Rule('r', nd(('x', Rep(PA(), b, **k)), ('y', Rep(L('a'), '*'))), params='n: usize' + (', m: usize' if two else ''))
            for v in ((0, 0), (1, 2), (2, 1), (2, 2)):
                yield [top(('x', C('r', list(v[:2] if two else v[:1])))), body], {}
            yield [top(('x', C('r', [('p', 100, 'g')] + [('p', 101, 'h')] * two))), body], dict(gargs=['g', 'h'])
            yield [top(('x', C('r', [('p', 0, 'n')] + [('p', 1, 'm')] * two)), params='n: usize, m: usize'), body], dict(targs=2)
            yield [top(('x', C('r', [('p', 1, 'm')] + [('p', 0, 'n')] * two)), params='n: usize, m: usize'), body], dict(targs=2)
    num = lambda i, nm, *e: Seq(*e, act=('pnum', i, nm))
    cnd = lambda i, nm, mn, *e: Seq(*e, act=('pcond', i, nm, mn, 'big enough'))
    # a counter carried through recursion (a^k b^k), in both directions
    yield [top(('x', C('r', [0]))), Rule('r', Alt(nd(L('a'), ('x', C('r', [('o', 0, 'n', 1)]))), nd(('x', Rep(L('b'), (n_, None), exact=True)))), params='n: usize')], dict(n=4, wide=1)
    yield [top(('x', C('r', [0, 1]))), Rule('r', Alt(num(0, 'n', L('a'), ('x', C('r', [('o', 1, 'm', 1), ('p', 0, 'n')]))), num(1, 'm', L('b'), ('x', C('r', [('p', 0, 'n'), ('o', 0, 'n', 2)]))), num(0, 'n', num(1, 'm', ('y', PA())))), params='n: usize, m: usize')], dict(n=3, wide=1)
    yield [top(('x', C('r', [2]))), Rule('r', Alt(cnd(0, 'n', 3, L('a'), ('x', PA())), nd(L('a'), ('x', C('r', [('o', 0, 'n', 1)]))), num(0, 'n', ('y', PB()))), params='n: usize')], dict(n=3)
    # grammar parameters seen by every rule, next to rule parameters, inside closures, precedence and cached rules
    G0, G1 = (100, 'g'), (101, 'h')
    yield [top(('x', C('r')), ('y', C('s'))), Rule('r', num(*G0, ('x', PA()))), Rule('s', num(*G1, ('x', Rep(L('a'), ('p' and ('p', 100, 'g'), None), exact=True))))], dict(gargs=['g', 'h'])
    yield [top(('x', C('wrap2', [num(*G1, ('z', PA()))])), ('y', C('r'))), Rule('r', num(*G0, L('a')))], dict(gargs=['g', 'h'])
    for at in ('', '#[cache]'):
        yield [top(Alt(nd(('x', C('r')), L('a')), nd(('x', C('r')), L('b')), nd(('x', C('r'))))), Rule('r', num(*G1, ('x', PA()), ('y', Rep(L('c'), (None, ('p', 100, 'g'))))), attrs=at)], dict(gargs=['g', 'h'])
        yield [top(('x', C('e'))), Rule('e', Prec([[{'kind': 'in', 'assoc': 'l', 'els': [(None, L('a')), ('m', num(*G0, ('q', P())))]}], [{'kind': 'pre', 'els': [(None, L('b'))]}], [{'kind': 'atom', 'els': [('n', C('t', [('p', 101, 'h'), ('p', 100, 'g')]))]}]]), attrs=at),
               Rule('t', num(0, 'n', num(1, 'm', ('x', PA()), ('y', Opt(cnd(0, 'n', 1, L('c')))))), params='n: usize, m: usize')], dict(gargs=['g', 'h'], n=4, wide=1)
    yield [top(('x', C('l'))), Rule('l', Alt(num(*G0, ('x', C('l')), ('y', cnd(*G1, 1, L('a')))), num(*G1, ('y', PA()))), attrs='#[cache_left_rec]', lrec=True)], dict(gargs=['g', 'h'])
    # rule and value parameters together, in both orders
    yield [top(('x', C('k', [PA(), 2])), ('y', C('j', [1, L('a')]))), Rule('k', nd(('x', Rep(r(), (('p', 1, 'n'), None), exact=True))), params='r: rule<T>, n: usize', generics=GT),
           Rule('j', num(0, 'n', ('x', Rep(Par(1, 'q'), (('p', 0, 'n'), 2)))), params='n: usize, q: rule<U>', generics='<U: ToV>')], {}
    yield [top(('x', C('k', [Rep(L('a'), (('p', 100, 'g'), None), exact=True), ('p', 101, 'h')]))), Rule('k', num(1, 'n', ('x', r()), ('y', Opt(cnd(1, 'n', 2, r())))), params='r: rule<T>, n: usize', generics=GT)], dict(gargs=['g', 'h'])
    # the argument's free names are those of the caller
    yield [top(('x', C('a', [1]))), Rule('a', nd(('x', C('b', [num(0, 'n', ('y', PA())), 2]))), params='n: usize'), Rule('b', num(1, 'n', ('x', r()), ('y', Opt(r()))), params='r: rule<T>, n: usize', generics=GT)], {}
    yield [top(('x', C('a', [PA()]))), wrap(nd(('x', C('b', [nd(L('a'), ('x', r()))]))), 'a'), wrap(nd(L('b'), ('x', r())), 'b')], {}
    # a parameter named like a rule of the grammar
    yield [top(('x', C('a', [PA()])), ('y', C('r'))), wrap(nd(('x', r()), L('a')), 'a'), Rule('r', nd(L('b'), ('x', PB())))], {}
    # many parameters, used in another order; both kinds mixed
    lt = 'abcdef'
    def manyv(e, order, ids):
        for j in order: e = num(ids[j], 'v%d' % ids[j], e)
        return e
    for order in ((5, 4, 3, 2, 1, 0), (0, 3, 1, 5, 2, 4)):
        yield [top(('x', C('r', [3, 5, 1, 6, 2, 4]))), Rule('r', manyv(PA(), order, range(6)), params=', '.join('v%d: usize' % i for i in range(6)))], {}
        yield [top(('x', C('r', [L(c) for c in lt]))), Rule('r', nd(*[('l%d' % j, Opt(Par(j, 'q%d' % j))) for j in order]), params=', '.join('q%d: rule<A%d>' % (i, i) for i in range(6)), generics='<' + ', '.join('A%d: ToV' % i for i in range(6)) + '>')], dict(n=2)
        yield [top(('x', C('r', [x for i in range(3) for x in (L(lt[i]), 7 - i)]))), Rule('r', nd(*[('l%d' % j, Opt(num(2 * j % 6 + 1, 'v%d' % (2 * j % 6 + 1), Par(2 * (j % 3), 'q%d' % (2 * (j % 3)))))) for j in order]), params=', '.join('q%d: rule<A%d>, v%d: usize' % (i, i, i + 1) for i in (0, 2, 4)), generics='<' + ', '.join('A%d: ToV' % i for i in (0, 2, 4)) + '>')], dict(n=2)
    yield [top(('x', C('r'))), Rule('r', num(103, 'g4', num(101, 'g2', num(102, 'g3', num(100, 'g1', ('x', PA()))))))], dict(gargs=['g1', 'g2', 'g3', 'g4'])
    # handed down through many rules
    yield [top(('x', C('d0', [2])))] + [Rule('d%d' % i, num(0, 'n', ('x', C('d%d' % (i + 1), [('o', 0, 'n', 1)]))), params='n: usize') for i in range(12)] + [Rule('d12', num(0, 'k', L('a')), params='k: usize')], {}
    yield [top(('x', C('d0', [nd(('y', PA()))])))] + [wrap(nd(('x', C('d%d' % (i + 1), [r() if i % 3 else nd(('y', r()), Opt(L('b')))]))), 'd%d' % i) for i in range(8)] + [wrap(nd(('x', r()), Opt(r())), 'd8')], dict(n=2)
    # labels read by later bounds and arguments
    lab = lambda k, nm: ('p', k, nm + ' as usize')
    El = lambda: Pat([(0, 3)])
    yield [top(('x', Seq(('k', El()), ('x', Rep(PA(), (lab(0, 'k'), None), exact=True)), act=('nd',), bind=True)))], {}
    yield [top(('x', Seq(('k', El()), ('x', Rep(L('a'), (None, lab(0, 'k')), sep=L('b'))), L('c'), act=('nd',), bind=True)))], {}
    yield [top(('x', Seq(('k', El()), ('j', Pat([(1, 2)])), ('x', C('r', [lab(1, 'j'), lab(0, 'k')])), act=('nd',), bind=True))), Rule('r', num(0, 'n', num(1, 'm', ('x', Rep(L('a'), (n_, m_))))), params='n: usize, m: usize')], {}
    yield [top(('x', Rep(Seq(('k', El()), ('x', Slice(Rep(L('a'), (lab(0, 'k'), None), exact=True))), act=('nd',), bind=True), '*')))], {}
    yield [top(('x', Seq(('k', El()), ('x', C('wrap2', [num(0, 'k', Rep(L('a'), (lab(0, 'k'), None), exact=True))])), act=('nd',), bind=True)))], {}
    yield [Rule('top', Seq(('k', El()), ('x', C('r', [('p', 0, 'n'), lab(1, 'k')])), ('p', P()), act=('nd',), bind=True), params='n: usize'), Rule('r', num(0, 'n', num(1, 'm', L('a')), ('x', Rep(PA(), (None, m_)))), params='n: usize, m: usize')], dict(targs=1)


def make():
    c = Check('C13', 'rules with rule, value and type parameters, grammars with parameters, and labels used in later bounds and arguments mean the body with the argument substituted (static scoping)',
              'inputs of 2..4 elements, terminals arbitrary partial functions; value arguments 0..2 symbolic (offset arithmetic modulo 8)')
    for no_eof in (True, False):
        for b in range(len(list(bodies()))):
            for a in args():
                rules = used([top(('x', Call('wrap', [a()]))), wrap(list(bodies())[b])], AUX())
                g = Gram(rules, no_eof=no_eof, n=(3 if DEEP else 2), note='parameter')
                if g.loops(): continue
                c.gram(g, 15)
        for rules, kw in values():
            kw = dict(dict(n=3), **kw); kw['n'] += DEEP
            c.gram(Gram(used(rules, AUX()), no_eof=no_eof, note='value parameter', **kw), 15)
    # exported with a doc comment / several exported rules sharing parameterised ones
    rng = random.Random(SEED * 7907 + 3); al = list(args()); bl = lambda: list(bodies())
    for k in range(300 if DEEP else 60):
        i, j = rng.randrange(len(bl())), rng.randrange(len(bl()))
        a1, a2 = rng.choice(al), rng.choice(al)
        f = rng.randrange(3)
        t = [lambda: top(('x', Call('w0', [a1()])), ('y', Call('w1', [a2()]))), lambda: top(('x', Call('w0', [nd(('i', Call('w1', [a2()])), Opt(L('e')))]))), lambda: top(Alt(nd(('x', Call('w0', [a1()])), L('e')), nd(('x', Call('w1', [a1()])))))][f]()
        rules = used([t, wrap(bl()[i], 'w0'), wrap(bl()[j], 'w1')], AUX())
        g = Gram(rules, no_eof=bool(k & 1), n=2 + DEEP, note='parameters')
        if not g.loops(): c.gram(g, 15)
    lives(c, rng)
    return c


def lives(c, rng):
    """grammars with lifetime parameters, over an input type that borrows, rules returning values that borrow from an argument of the grammar or the input, where clauses"""
    from checks import c07, c08, c09
    gs = []
    for rules, kw in values():
        kw = dict(dict(n=2), **kw)
        if not kw.get('targs'): kw['n'] = min(kw['n'], 3)
        gs.append((Gram(used(rules, AUX()), no_eof=True, note='lifetimes, value parameter', **kw), 15))
    if not DEEP: gs = rng.sample(gs, 60)
    for sub in (1, 3, 7):
        for t in c07.templates(lambda i: '#[cache]' if sub >> i & 1 else ''):
            quiet = any(isinstance(x, (And, Not, Quiet)) for r in t for x in r.e.walk())
            gs.append((Gram(t, n=3, wide=1, note='lifetimes, cached'), 3 if quiet else 15))
    for g, mode in c08.grams()[:: 1 if DEEP else 5]: g.n = min(g.n, 4); g.note = 'lifetimes, left recursion'; gs.append((g, mode))
    for lv in list(c09.fams())[:: 1 if DEEP else 4]:
        gs.append((Gram([Rule('top', Seq(('x', Call('e')), ('p', Pos()), act=('nd',))), Rule('e', Prec(lv), attrs=['', '#[cache]'][len(gs) % 2])], n=3, wide=1, note='lifetimes, precedence'), 15))
    bl, al = lambda: list(bodies()), list(args())
    for k in range(200 if DEEP else 40):
        g = Gram(used([top(('x', Call('wrap', [rng.choice(al)()]))), wrap(rng.choice(bl()))], AUX()), no_eof=bool(k & 1), n=2, note='lifetimes, parameter')
        if not g.loops(): gs.append((g, 15))
    gs += [(g, 15) for g in K.nest(['call', 'altLv', 'star', 'sep', 'slice', 'quietx'], ['rulev', 'ruleu', 'lit', 'pat', 'pos'], ['s', 'v'], no_eof=False, n=2)]
    c.crate('lt', features=['trace']); c.crate('ln', nodefault=True)
    for k, (g, mode) in enumerate(gs):
        g.life = 1 + k % 4
        cached = any(r.attrs for r in g.rules)
        c.gram(g, mode, crate=['g', 'g', 'lt', 'g' if cached else 'ln'][k % 4], name='l%d' % k)
