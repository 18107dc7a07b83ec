"""#[cache] changes nothing but the number of evaluations"""
from check import Check
from core import TIER, SEED
import corpus as K, long, random
from gram import *

DEEP = TIER == 'thorough'


def templates(at):
    """at(i): attribute of the i-th rule"""
    L = Lit; P = Pos
    R = lambda i, n, e, **k: Rule(n, e, attrs=at(i), **k)
    top = lambda e: Rule('top', Seq(('t', e), ('p', P()), act=('nd',)))
    V = lambda e: Seq(('x', e), act=('nd',))
    h = lambda k, e: Seq(Hit(k), ('x', e), ('q', P()), act=('nd',))
    yield [top(Alt(Seq(('x', Call('a')), L('b'), act=('nd',)), Seq(('x', Call('a')), L('c'), act=('nd',)), Seq(('x', Call('a')), act=('nd',)))), R(0, 'a', h(0, Rep(Pat(K.P1), '+')))]
    yield [top(Alt(Seq(('x', Call('a')), L('b'), act=('nd',)), Seq(('x', Call('b')), L('c'), act=('nd',)), Seq(('x', Call('b')), ('y', Call('a')), act=('nd',)))), R(0, 'a', h(0, Pat(K.P1))), R(1, 'b', h(1, Call('a')))]
    yield [top(Alt(Seq(('x', Call('a')), ('y', Call('a')), L('a'), act=('nd',)), Seq(('x', Call('a')), ('y', Call('b')), act=('nd',)), Seq(('x', Call('b')), act=('nd',)))), R(0, 'a', h(0, Pat(K.P1))), R(1, 'b', h(1, Pat(K.P2)))]
    yield [top(Rep(Alt(Seq(('x', Call('a')), L('a'), act=('nd',)), Seq(('x', Call('b')), L('b'), act=('nd',))), '*')), R(0, 'a', h(0, Call('c'))), R(1, 'b', h(1, Call('c'))), R(2, 'c', h(2, Pat(K.P1)))]
    yield [top(Call('r')), R(0, 'r', Alt(Seq(Hit(0), L('a'), ('x', Call('r')), L('b'), act=('nd',)), Seq(L('a'), ('x', Call('r')), L('c'), act=('nd',)), Seq(L('d'), act=('nd',))))]
    yield [top(Call('r')), R(0, 'r', Seq(Hit(0), ('y', Alt(Seq(('x', Call('s')), L('a'), ('y', Call('r')), act=('nd',)), Seq(('x', Call('s')), L('b'), ('y', Call('r')), act=('nd',)), Seq(('x', Call('s')), act=('nd',)))), act=('nd',))),
           R(1, 's', h(1, Alt(Seq(L('c'), ('x', Call('r')), L('d'), act=('nd',)), V(Pat(K.P1)))))]
    # values of several types, failures, rules without value, conditional bodies
    yield [top(Alt(Seq(Call('u'), L('a'), act=('nd',)), Seq(Call('u'), L('b'), act=('nd',)), Seq(Not(Call('u')), ('x', Pat(K.P2)), act=('nd',)))), R(0, 'u', Seq(Hit(0), L('c'), Opt(L('d'))), ret=None)]
    yield [top(Alt(Seq(('x', Call('a')), L('a'), act=('nd',)), Seq(('x', Call('a')), L('b'), act=('nd',)))), R(0, 'a', Seq(Hit(0), ('x', Pat(K.P1)), ('y', Opt(L('c'))), act=('cond', 0, 'nope')))]
    yield [top(Alt(Seq(('x', And(Call('a'))), ('y', Call('a')), L('a'), act=('nd',)), Seq(('x', Call('a')), ('y', Call('a')), act=('nd',)))), R(0, 'a', h(0, Slice(Seq(Pat(K.P1), Opt(L('b'))))))]
    yield [top(Alt(Seq(('x', Call('z')), ('y', Call('a')), act=('nd',)), Seq(('x', Call('z')), ('y', Call('z')), act=('nd',)))), R(0, 'z', h(0, P())), R(1, 'a', h(1, Pat(K.P2)))]
    yield [top(Alt(Seq(('x', Rep(Call('a'), (2, None), sep=Call('b'))), L('a'), act=('nd',)), Seq(('x', Rep(Call('a'), '*', sep=L('b'))), L('b'), act=('nd',)), Seq(('x', Rep(Call('a'), '*')), act=('nd',)))),
           R(0, 'a', h(0, Pat(K.P1))), R(1, 'b', h(1, L('c')))]
    yield [top(Alt(Seq(('x', Call('wrap', [Call('a')])), L('a'), act=('nd',)), Seq(('x', Call('wrap', [Call('b')])), L('b'), act=('nd',)), Seq(('x', Call('wrap', [Call('a')])), act=('nd',)))), R(0, 'a', h(0, Pat(K.P1))), R(1, 'b', h(1, Pat(K.P2))),
           Rule('wrap', Seq(('x', Par(0, 'r')), ('p', P()), act=('nd',)), params='r: rule<T>', generics='<T: ToV>')]


def make():
    c = Check('C07', 'grammars with every subset of their rules marked #[cache] return the value / failure of the unmarked meaning, and a marked body is evaluated at most once per position in one pass over the input',
              'inputs of 3..4 elements, terminals arbitrary partial functions of width 1..2; subsets of up to 3 cached rules')
    n = 5 if DEEP else 4
    k = 0
    for sub in range(8):
        for ti, t in enumerate(templates(lambda i: '#[cache]' if sub >> i & 1 else '')):
            nr = len([r for r in t if r.name not in ('top', 'wrap')])
            if sub >> nr: continue
            for e in (True, False):
                g = Gram(t, no_eof=e, n=n if len(t) < 4 else 3, note='cached subset %d' % sub)
                if g.nlit >= 4 and len(t) > 2: g.n, g.wide = 3 + DEEP, 1
                hits = [i for i in range(nr) if sub >> i & 1]
                # error reports are compared when no cached rule is first met inside a lookahead
                quietly = any(isinstance(x, (And, Not, Quiet)) for r in t for x in r.e.walk())
                name = 'c%d' % k; k += 1
                tx = g.rust(name, 1 | 2 | (0 if quietly else 4 | 8))
                tx = tx.replace('run_sym(|i| %s::top(i),' % name, 'run_sym(|i| { let r = %s::top(i); %s r },' % (
                    name, 'hits_ok(&[%s], r.is_ok());' % ','.join(map(str, hits))))
                assert 'hits_ok' in tx
                c.add('g', name, tx, {'grammar': g.text(name), 'note': g.note})
    # caching every rule of nested and random grammars
    gs = K.nest(['call', 'param', 'seqRv', 'altLv', 'alt3', 'star', 'sep', 'opt'], ['rulev', 'ruleu', 'call', 'act', 'cond'] + ['altL', 'seqM', 'star'], ['v'], no_eof=False, n=3)
    gs += K.randoms(SEED * 67867967, 600 if DEEP else 150, 3, ['v', 's'], ops=['call', 'call', 'altLv', 'altRv', 'seqLv', 'star', 'sep', 'opt', 'seqM', 'param'], no_eof=False, n=3) + K.recursive()
    for g in gs:
        for r in g.rules[1:]:
            if not r.params: r.attrs = '#[cache]'
        quietly = any(isinstance(x, (And, Not, Quiet)) for r in g.rules for x in r.e.walk())
        c.gram(g, 3 | (0 if quietly else 12), name='n%d' % k); k += 1
    long.add(c, long.cached(), 3)
    return c
