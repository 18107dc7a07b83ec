"""precedence!{}"""
from check import Check
from core import TIER, SEED
import corpus as K, long, itertools, random
from gram import *

DEEP = TIER == 'thorough'
L = Lit


def el(*xs): return [(x if isinstance(x, tuple) else (None, x)) for x in xs]
def inl(*xs): return {'kind': 'in', 'assoc': 'l', 'els': el(*xs)}
def inr(*xs): return {'kind': 'in', 'assoc': 'r', 'els': el(*xs)}
def pre(*xs, loose=False, **k): return dict({'kind': 'pre', 'loose': loose, 'els': el(*xs)}, **k)
def post(*xs, **k): return dict({'kind': 'post', 'els': el(*xs)}, **k)
def atom(*xs): return {'kind': 'atom', 'els': el(*xs)}
num = lambda: atom(('n', Pat(K.P1)))


def fams():
    """lists of levels"""
    a, b, c, d = 'abcd'
    for k1 in (inl, inr):
        yield [[k1(L(a))], [num()]]
        for k2 in (inl, inr):
            yield [[k1(L(a))], [k2(L(b))], [num()]]
            yield [[k1(L(a)), k2(L(b))], [num()]]
        yield [[k1(L(a))], [pre(L(b))], [num()]]
        yield [[pre(L(b))], [k1(L(a))], [num()]]
        yield [[pre(L(b), loose=True)], [k1(L(a))], [num()]]
        yield [[k1(L(a))], [pre(L(b), loose=True)], [num()]]
        yield [[k1(L(a)), pre(L(b))], [num()]]
        yield [[k1(L(a)), pre(L(b), loose=True)], [num()]]
        yield [[k1(L(a))], [post(L(b))], [num()]]
        yield [[post(L(b))], [k1(L(a))], [num()]]
        yield [[k1(L(a)), post(L(b))], [num()]]
        yield [[k1(L(a))], [num(), atom(L(b), ('e', Call('e')), L(c))]]
        yield [[k1(L(a))], [num()], [atom(L(b))]]
        yield [[num()], [k1(L(a))]]
        yield [[k1(L(a), ('m', Pat(K.P2)))], [num()]]
        yield [[k1(L(a), L(b))], [k1(L(a))], [num()]]
        yield [[k1(L(a))], [k1(L(a), L(b))], [num()]]
        yield [[k1(('m', Opt(L(a))))], [num()]] if 0 else [[k1(('m', Rep(L(a), (1, 2))))], [num()]]
        yield [[k1(('q', Pos()), L(a))], [num()]]
        yield [[k1(Not(L(b)), L(a))], [post(L(b))], [num()]]
        yield [[k1(Quiet(L(a)))], [num()]]
        yield [[k1(L(a))], [pre(L(b), ('m', Pos()))], [post(('m', Slice(L(c))))], [num()]]
        yield [[k1(L(a))], [pre(L(b))], [post(L(c))], [num()]]
        yield [[post(L(c))], [pre(L(b))], [k1(L(a))], [num()]]
        yield [[pre(L(b))], [post(L(c))], [num()]]
        yield [[post(L(c))], [pre(L(b))], [num()]]
    for k1, k2, k3 in itertools.product((inl, inr), repeat=3):
        yield [[k1(L(a))], [k2(L(b))], [k3(L(c))], [num()]]
        yield [[k1(L(a)), k2(L(b))], [k3(L(c))], [num()]]
    # labels left out; conditional-looking atoms; atoms of several shapes
    yield [[dict(inl(L(a)), llab='')], [num()]]
    yield [[dict(inl(L(a)), rlab='')], [num()]]
    yield [[dict(inr(L(a)), llab='', rlab='')], [num()]]
    yield [[pre(L(a), rlab='')], [post(L(b), llab='')], [num()]]
    yield [[inl(L(a))], [atom(('n', Pat(K.P1)), ('m', Opt(L(b)))), atom(L(c))]]
    yield [[inl(L(a))], [atom(L(b), ('e', Call('e')), L(c)), atom(L(b), ('e', Call('e'))), num()]]


def make():
    c = Check('C09', 'precedence!{} grammars with up to 4 levels: the generated parser agrees with textbook precedence climbing, and, for disjoint operators on text, with the stratified grammar of the same levels',
              'inputs of 4..5 elements, terminals arbitrary partial functions; text inputs of 5..7 bytes')
    k = 0
    for lv in fams():
        for span in (False, True):
            top = [Rule('top', Seq(('x', Call('e')), ('p', Pos()), act=('nd',))), Rule('e', Prec(lv, span=span))]
            nl = max([ord(x.c[0]) - 96 for l in lv for op in l for _, e in op['els'] for x in e.walk() if isinstance(x, Lit)], default=0)
            for no_eof in (True, False):
                g = Gram(top, no_eof=no_eof, n=(5 if nl < 3 else 4) + DEEP, wide=1, span=span, note='precedence')
                if nl >= 4: g.n = 4
                c.gram(g, 15)
    # as an element of something larger, wider operators, cached
    for lv in list(fams())[:12]:
        for t in (lambda: Rep(Call('e'), '*', sep=L('d')), lambda: Alt(Seq(('y', Call('e')), L('d'), act=('nd',)), Seq(('y', Call('e')), act=('nd',))), lambda: Seq(And(Call('e')), ('y', Call('e')), act=('nd',)), lambda: Slice(Call('e')), lambda: Not(Call('e'))):
            for at in ('', '#[cache]'):
                quiet = isinstance(t(), Not) or any(isinstance(x, (And, Not)) for x in t().walk())
                c.gram(Gram([Rule('top', Seq(('x', t()), ('p', Pos()), act=('nd',))), Rule('e', Prec(lv), attrs=at)], n=4, wide=1 if '#' in at else 2, nlit=4, note='precedence inside'), 15 if not quiet else 3)
    # an independent oracle: operator-precedence text grammars with disjoint operators against
    # one rule per level (left-associative levels iterate, right-associative levels recurse)
    rng = random.Random(SEED * 31 + 5); combos = list(itertools.product('lr', repeat=3))
    for levels in ([1], [2], [1, 1], [2, 1], [1, 1, 1], [1, 2, 1]):
        for assoc in itertools.product('lr', repeat=len(levels)):
            for paren in (False, True):
                ops = iter('+-*/^%'); names = [[next(ops) for _ in range(n)] for n in levels]
                lv = [[(inl if a == 'l' else inr)(L(o)) for o in os] for os, a in zip(names, assoc)]
                atoms = [atom(('n', Pat([(48, 57)], kind='char')))] + ([atom(L('('), ('e', Call('e')), L(')'))] if paren else [])
                pr = Prec(lv + [atoms])
                main = [Rule('top', Seq(('x', Call('e')), ('p', Pos()), act=('nd',)), ), Rule('e', pr)]
                # stratified reading
                ref = [Rule('top', main[0].e)]; L0 = len(lv)
                for i, (os, a) in enumerate(zip(names, assoc)):
                    nxt = Call('e%d' % (i + 1)); me = Call('e%d' % i if i else 'e')
                    alts = lambda r: Alt(*[Seq(L(o), ('r', r), act=('nd',), id=pr.ids[i][j]) for j, o in enumerate(os)])
                    if a == 'l': e = Seq(('b', nxt), ('t', Rep(alts(nxt), '*')), act=('fold2',))
                    else: e = Seq(('b', nxt), ('t', Rep(alts(me), (0, 1))), act=('fold2',))
                    ref.append(Rule('e%d' % i if i else 'e', e))
                ref.append(Rule('e%d' % L0, Alt(*[Seq(*op['els'], act=('nd',), id=pr.ids[L0][j]) for j, op in enumerate(atoms)])))
                c.gram(Gram(main, inp='str', n=5 + (DEEP and 2), note='stratified', refrules=ref), 1 | 2)
    long.add(c, long.prec(), 15)
    long.add(c, long.many_levels(), 15)
    return c
