"""#[cache_left_rec]"""
from check import Check
from core import TIER, SEED
import corpus as K, long, random
from gram import *

DEEP = TIER == 'thorough'
LR = '#[cache_left_rec]'
L = Lit


def top(e): return Rule('top', Seq(('x', e), ('p', Pos()), act=('nd',)))
def lrule(name, e, ref=None): return Rule(name, e, attrs=LR, lrec=ref is None, ref=ref)


def direct(tails, base):
    """e = e tail1 {..} / e tail2 {..} / base: grammar text and, as an independent oracle, the
    iterative reading  base (tail1 / tail2)*  folded to the left"""
    ids = [next_id() for _ in tails]
    alts = [Seq(('l', Call('e')), *[(lab, mk()) for lab, mk in t], act=('nd',), id=i) for t, i in zip(tails, ids)]
    text = Alt(*alts, Seq(('b', base()), act=('pick', 0)))
    it = Alt(*[Seq(*[(lab, mk()) for lab, mk in t], act=('nd',), id=i) for t, i in zip(tails, ids)])
    ref = Seq(('b', base()), ('r', Rep(it, '*')), act=('fold2',))
    return text, ref


import gram
def next_id(): return next(gram._ids)


def rand(rng):
    """one or two rules that call each other anywhere, all #[cache_left_rec]"""
    names = ['e', 'f'][:rng.choice([1, 1, 2])]; lit = iter('abcdefgh')
    c = lambda: Call(rng.choice(names))
    small = [lambda: L(next(lit)), lambda: Pat(K.P1), lambda: Opt(L(next(lit))), lambda: Pos(), lambda: Rep(Pat(K.P2), '*'), lambda: Not(L(next(lit)))]
    first = [c, c, c, lambda: Opt(c()), lambda: Seq(Opt(L(next(lit))), c()), lambda: And(c()), lambda: Slice(c()), lambda: Alt(Seq(('i', c()), L(next(lit)), act=('nd',)), Seq(('i', c()), act=('nd',))), lambda: Rep(c(), (1, 2))]
    def alt(k):
        els = [(rng.choice(first) if k < 2 else rng.choice(small))()] + [rng.choice(small + [c])() for _ in range(rng.choice([0, 1, 1, 2]))]
        return Seq(*[x if isinstance(x, (L, Not)) or isinstance(x, Seq) and x.act is None else ('v%d' % i, x) for i, x in enumerate(els)], act=('nd',))
    try: return [top(Call('e'))] + [lrule(n, Alt(*[alt(k) for k in range(rng.choice([2, 3]))], Seq(('c', Pat(K.P1)), act=('nd',)))) for n in names]
    except StopIteration: return rand(rng)


def grams():
    gs = []
    pat = lambda: Seq(('c', Pat(K.P1)), act=('nd',), id=77)
    P2 = lambda: Pat(K.P2)
    fams = [
        ([[(None, lambda: L('a')), ('r', P2)]], pat),
        ([[(None, lambda: L('a'))]], pat),
        ([[(None, lambda: L('a')), ('r', P2)], [(None, lambda: L('b')), ('r', P2)]], pat),
        ([[(None, lambda: L('a')), ('r', P2)], [(None, lambda: L('b'))]], pat),
        ([[('r', P2)]], pat),
        ([[('r', lambda: Opt(L('b'))), (None, lambda: L('a'))]], pat),
        ([[('r', lambda: Rep(P2(), '+')), (None, lambda: L('a'))]], pat),
        ([[(None, lambda: L('a')), ('q', Pos), ('r', P2)]], pat),
        ([[(None, lambda: Not(L('b'))), ('r', P2)]], pat),
        ([[('r', P2)]], lambda: Seq(('q', Pos()), L('a'), act=('nd',), id=78)),
        # a base that may match nothing
        ([[(None, lambda: L('a')), ('r', P2)]], lambda: Seq(('q', Pos()), act=('nd',), id=79)),
        ([[('r', P2)], [(None, lambda: L('a'))]], lambda: Seq(('q', Opt(L('b'))), act=('nd',), id=80)),
        ([[(None, lambda: L('a'))]], lambda: Seq(('q', Rep(L('b'), '*')), act=('nd',), id=81)),
    ]
    for tails, base in fams:
        for wrapk in range(5):
            text, ref = direct(tails, base)
            w = [lambda x: x, lambda x: Seq(L('c'), ('y', x), act=('nd',)), lambda x: Rep(x, '*', sep=L('c')), lambda x: Alt(Seq(('y', x), L('c'), act=('nd',)), Seq(('y', x), act=('nd',))), lambda x: Seq(And(x), ('y', x), act=('nd',))][wrapk]
            # once against the iterative reading, once against the grown seed
            g1 = [top(w(Call('e'))), lrule('e', text, ref)]
            g2 = [top(w(Call('e'))), lrule('e', text)]
            if Gram(g1).loops() or Gram(g2).loops(): continue
            for no_eof in (True, False):
                gs.append((Gram(g1, no_eof=no_eof, n=5 if wrapk == 0 else 4, wide=1 if wrapk > 1 else 2, note='direct vs iteration'), 15 if wrapk != 4 else 3))
                gs.append((Gram(g2, no_eof=no_eof, n=4, wide=1 if wrapk > 1 else 2, note='direct vs grown seed'), 15 if wrapk != 4 else 3))
    T = lambda *a: Seq(*a, act=('nd',))
    l = lambda x: ('l', x)
    r = lambda x: ('r', x)
    P1 = lambda: Pat(K.P1)
    E = lambda: Call('e')
    pt = lambda: T(('c', P1()))
    more = [
        # recursion on both sides, parentheses, several operators
        [lrule('e', Alt(T(l(E()), L('a'), r(E())), pt()))],
        [lrule('e', Alt(T(l(E()), L('a'), r(E())), T(l(E()), L('b'), r(E())), pt()))],
        [lrule('e', Alt(T(l(E()), L('a'), r(Call('t'))), T(l(Call('t'))))), Rule('t', Alt(T(L('b'), l(E()), L('c')), pt()))],
        [lrule('e', Alt(T(l(E()), L('a'), r(Call('t'))), T(l(Call('t'))))), lrule('t', Alt(T(l(Call('t')), L('b'), r(Call('f'))), T(l(Call('f'))))), Rule('f', Alt(T(L('c'), l(E()), L('d')), pt()))],
        [lrule('e', Alt(T(l(E()), L('b'), L('c')), T(l(E()), L('b')), pt()))],
        [lrule('e', Alt(T(l(Seq(Opt(L('b')), E(), act=('raw', '0usize', 'Act::No')) if 0 else E()), L('a')), T(L('b'), r(E())), pt()))],
        [lrule('e', Alt(pt(), T(l(E()), L('a'))))],
        # hidden by nullable prefixes
        [lrule('e', Alt(T(Opt(L('b')), l(E()), L('a')), pt()))],
        [lrule('e', Alt(T(('q', Rep(L('b'), '*')), l(E()), L('a')), pt()))],
        [lrule('e', Alt(T(Not(L('b')), l(E()), L('a')), pt()))],
        [lrule('e', Alt(T(And(P1()), l(E()), L('a')), pt()))],
        [lrule('e', Alt(T(('q', Pos()), l(E()), ('q2', Pos()), L('a')), pt()))],
        [lrule('e', T(l(Opt(Seq(('i', E()), L('a'), act=('pick', 0)))), r(P1())))],
        [lrule('e', T(l(Alt(Seq(('i', E()), L('a'), act=('nd',)), Seq(L('b'), act=('nd',)))), r(Opt(P1()))))],
        [lrule('e', Alt(T(l(Slice(Seq(E(), L('a'))))), pt()))],
        [lrule('e', Alt(T(l(Quiet(E())), L('a')), pt()))],
        # through another rule
        [lrule('e', Alt(T(l(Call('f')), L('a')), pt())), lrule('f', Alt(T(l(E()), L('b')), T(L('c'))))],
        [lrule('e', Alt(T(l(Call('f'))), pt())), lrule('f', Alt(T(l(Call('g')), L('a')), T(L('b')))), lrule('g', Alt(T(l(E()), L('c')), T(l(Call('f')), L('d'))))],
        [lrule('e', Alt(T(l(Call('f')), L('a')), pt())), lrule('f', T(l(E()), L('b')))],
        # a value-less left-recursive rule
        [Rule('e', Alt(Seq(Call('u'), L('a'), act=('nd',)), pt())), Rule('u', Alt(Seq(Call('u'), L('b')), Seq(L('c'))), ret=None, attrs=LR, lrec=True)],
        # ordered choice cuts the growth
        [lrule('e', Alt(T(l(E()), L('a'), L('a')), T(l(E()), L('a')), T(P1())))],
        [lrule('e', Alt(T(l(E()), r(Rep(P2(), (1, 2)))), pt()))],
        # conditional growth
        [lrule('e', Alt(Seq(l(E()), ('r', P1()), act=('cond', 0, 'no')), pt()))],
        # combined with #[cache]
        [lrule('e', Alt(T(l(E()), L('a'), r(Call('t'))), T(l(Call('t'))))), Rule('t', Alt(T(L('b'), r(Call('t'))), pt()), attrs='#[cache]')],
        [lrule('e', Alt(T(l(E()), L('a'), r(E())), T(L('b'), l(E()), L('c')), pt()))],
        # seeds that are empty, or longer than what grows from them
        [lrule('e', Alt(T(l(E()), L('a')), T(('q', Opt(L('b'))))))],
        [lrule('e', Alt(T(l(E()), r(P1())), T(('q', Pos()))))],
        [lrule('e', Alt(T(And(E()), L('a')), T(L('a'), L('b'))))],
        [lrule('e', Alt(T(l(And(E())), r(P1())), T(L('a'), r(Rep(P2(), '*')))))],
        [lrule('e', Alt(T(l(E()), L('a')), T(l(Call('f')), L('b')), T(('q', Pos())))), lrule('f', Alt(T(l(E()), L('c')), T(l(Call('f')), L('d'))))],
        # independent left-recursive rules at one position
        [Rule('e', Alt(T(l(Call('f')), L('e')), T(l(Call('g'))))), lrule('f', Alt(T(l(Call('f')), L('a')), pt())), lrule('g', Alt(T(l(Call('g')), L('b')), T(l(Call('f')), L('c')), pt()))],
    ]
    rng = random.Random(SEED * 15485863)
    n = 0
    while n < (600 if DEEP else 110):
        rules = rand(rng)
        g = Gram(rules, no_eof=rng.random() < .5, n=3 + DEEP, wide=1, note='random left recursion')
        if g.loops() or g.nlit > 5: continue
        n += 1
        quietly = any(isinstance(x, (And, Not, Quiet)) for r in g.rules for x in r.e.walk())
        gs.append((g, 3 if quietly else 15))
    for rules in more:
        for wi, w in enumerate([lambda: E(), lambda: Alt(T(('y', E()), L('e')), T(('y', E()))), lambda: Rep(E(), '*')]):
            for no_eof in (True, False):
                g = Gram([top(w())] + rules, no_eof=no_eof, n=4, wide=1 if wi else 2, note='left recursion')
                if g.loops(): continue
                if g.nlit >= 4: g.n, g.wide = 3, 1
                if DEEP: g.n += 1
                # rejected inputs: the report is compared too, except where the body runs under a lookahead or quiet!
                quietly = any(isinstance(x, (And, Not, Quiet)) for r in g.rules for x in r.e.walk())
                gs.append((g, 3 if quietly else 15))
    return gs


def make():
    c = Check('C08', 'left-recursive grammars: the generated parser terminates on every input and returns what growing the match from failure returns; for direct left recursion also what the iterative, left-associative reading returns',
              'inputs of 4..5 elements, terminals arbitrary partial functions of width 1..2')
    for g, m in grams():
        if g.loops(): raise SystemExit('corpus error ' + g.text('x'))
        c.gram(g, m)
    long.add(c, long.leftrec(), 15)
    return c
