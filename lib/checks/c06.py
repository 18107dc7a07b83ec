"""end of input"""
from check import Check
from core import TIER, SEED
import corpus as K
from gram import *

DEEP = TIER == 'thorough'
MODE = 1 | 4 | 8 | 16


def make():
    c = Check('C06', 'for every grammar of the corpus: a public rule accepts only whole inputs (failing with "EOF" expected where its match ended), #[no_eof] accepts any matching prefix, rules called from other rules never require the end of input',
              'inputs of 0..4 elements, terminals arbitrary partial functions of width 1..2; str and [u8] inputs of 0..3 bytes')
    heads = [u for u in K.UN if u not in ('and', 'not')] + ['and', 'not']
    gs = []
    for n in (0, 1, 3):
        for e in (True, False):
            gs += K.nest(['opt', 'star', 'plus', 'r12', 'sep', 'sepmax', 'quiet', 'quietx', 'and', 'not', 'seqM', 'altLv', 'altL', 'call', 'param', 'slice', 'seqc'], K.ATOMS, ['v'], no_eof=e, n=n)
    gs += K.nest(heads, ['lit', 'act', 'opt', 'star', 'alt', 'seq', 'quietx'], ['u', 's'], no_eof=False, n=3) + K.nest(heads, ['lit', 'act', 'opt', 'star', 'alt'], ['u'], no_eof=True, n=3)
    P = lambda: Pos()
    # public rules used by other rules: only the entry point looks for the end of input
    for pub in ('pub ', '#[no_eof] pub ', 'pub(crate) '):
        for e in (True, False):
            L = Lit
            a = lambda: Rule('a', Seq(('x', Pat(K.P1)), Opt(L('a')), act=('nd',)), pub=pub)
            for top in (lambda: Seq(('x', Call('a')), L('b'), ('p', P()), act=('nd',)), lambda: Seq(('x', Rep(Call('a'), '*', sep=L('b'))), ('p', P()), act=('nd',)),
                        lambda: Seq(('x', Alt(Seq(('y', Call('a')), L('b'), act=('nd',)), Seq(('y', Call('a')), L('c'), act=('nd',)))), ('p', P()), act=('nd',)),
                        lambda: Seq(('x', And(Call('a'))), ('y', Rep(Pat([], any=True), '*')), ('p', P()), act=('nd',)), lambda: Seq(('x', Opt(Call('a'))), ('p', P()), act=('nd',))):
                gs.append(Gram([Rule('top', top()), a()], no_eof=e, n=4, note='public rule called internally'))
    # the entry point is itself recursive
    for e in (True, False):
        L = Lit
        gs.append(Gram([Rule('top', Alt(Seq(L('a'), ('x', Call('top')), L('b'), ('p', P()), act=('nd',)), Seq(L('c'), ('p', P()), act=('nd',))))], no_eof=e, n=4))
        gs.append(Gram([Rule('top', Seq(('x', Pat(K.P1)), ('y', Opt(Call('top'))), ('p', P()), act=('nd',)))], no_eof=e, n=4))
    # every other feature of an entry point next to #[no_eof]
    for e in (True, False):
        L = Lit
        for kw, gk in ((dict(params='n: usize'), dict(targs=1)), (dict(params='n: usize, m: usize'), dict(targs=2)), (dict(generics='<T: Copy>', params='n: T'), dict(targs=1)), (dict(generics="<'z>", params='n: usize'), dict(targs=1)), ({}, dict(gargs=['ga1'])),
                       (dict(params='n: usize'), dict(gargs=['ga1', 'ga2'], targs=1)), (dict(attrs='#[cache]'), {}), (dict(ret=None), {}), (dict(attrs='#[cache]', ret=None), {}), (dict(attrs='/// words\n'), {}), (dict(attrs='/// words\n#[cache]'), dict(gargs=['ga1']))):
            for t in (lambda: Seq(('x', Rep(L('a'), '*')), ('p', P()), act=('nd',)), lambda: Seq(('x', Opt(Seq(('y', Pat(K.P1)), L('b'), act=('nd',)))), ('p', P()), act=('nd',)), lambda: Alt(Seq(('x', L('a')), Quiet(Opt(L('b'))), act=('nd',)), Seq(('x', Pat(K.P2)), Rep(L('c'), '+'), act=('nd',)))):
                b = t()
                if kw.get('ret', 1) is None: b = Seq(b, ('q', P()))
                gs.append(Gram([Rule('top', b, **kw)], no_eof=e, n=3, note='entry point %r %r' % (kw, gk), **gk))
        gs.append(Gram([Rule('top', Alt(Seq(('x', Call('top')), L('a'), ('p', P()), act=('nd',)), Seq(('x', Pat(K.P1)), ('p', P()), act=('nd',))), attrs='#[cache_left_rec]', lrec=True)], no_eof=e, n=3, note='left-recursive entry point'))
    for inp in ('str', 'bytes'):
        for n in (0, 1, 2, 3):
            for e in (True, False):
                a = lambda lo, hi: Pat([(lo, hi)], kind='char' if inp == 'str' else 'u8')
                for t in (lambda: Rep(a(97, 99), '*'), lambda: Opt(Lit('ab')), lambda: Alt(Seq(Lit('a')), Seq(Lit('ab'))), lambda: Seq(Lit('a'), Not(Lit('b'))), lambda: Quiet(Rep(Lit('x'), '*'))):
                    gs.append(Gram([Rule('top', Seq(t(), ('p', P()), act=('nd',)))], inp=inp, no_eof=e, n=n, full=True))
    for g in gs: c.gram(g, MODE)
    return c
