"""the trace feature"""
from check import Check
from core import TIER, SEED
import corpus as K, long, random
from checks import c07, c08, c09, c13
from gram import *

DEEP = TIER == 'thorough'
PRE = '''
macro_rules! println { ($f:literal) => { sup::trace_ev($f, &[]) }; ($f:literal, $($a:expr),*) => { sup::trace_ev($f, &[$(&$a as &dyn std::fmt::Display),*]) } }
'''


def make():
    c = Check('C14', 'with the trace feature on, every grammar of the corpus returns what it returns without (value, location, expected set), and the messages are exactly the rule attempts, matches, failures and reuses of cached results in order, with their positions',
              'inputs of 2..4 elements (abstract input), texts of 3 bytes; grammars: reduced corpora of the other checks')
    g = c.crate('g', features=['trace']); p = c.crate('p', features=['trace'])
    g.pre['*'] = PRE
    gs = K.nest(['call', 'param', 'seqM', 'altLv', 'alt3', 'star', 'sep', 'opt', 'not', 'and', 'slice', 'quietx', 'r12', 'sepalt'], ['rulev', 'ruleu', 'call', 'cond', 'act', 'pos'], ['v', 'u'], no_eof=False, n=2 + DEEP)
    gs += K.randoms(SEED * 49979687, 400 if DEEP else 80, 3, ['v', 's'], no_eof=False, n=2 + DEEP) + K.recursive(n=3 + DEEP)
    for rules, kw in c13.values(): gs.append(Gram(c13.used(rules, c13.AUX()), note='value parameter', **dict(dict(n=2 + DEEP), **kw)))
    for x in gs:
        c.gram(x, (3 if any(r.attrs for r in x.rules) else 15) | (0 if any(r.refe for r in x.rules) else 32))
    # trees whose calls pass parameterised closures: messages of the right rules; text positions
    for e in (lambda: Rep(Call('l'), '*'), lambda: Seq(('x', Slice(Call('l'))), ('y', Opt(Call('l'))), act=('nd',))):
        c.gram(Gram([Rule('top', Seq(('x', e()), ('p', Pos()), act=('nd',))), Rule('l', Seq(('x', Pat([(97, 99)], kind='char')), act=('nd',)))], inp='str', n=3, note='text'), 15)
    # precedence, caches, left recursion: same results (the real println!)
    k = 0
    for lv in list(c09.fams())[:: 1 if DEEP else 3]:
        c.gram(Gram([Rule('top', Seq(('x', Call('e')), ('p', Pos()), act=('nd',))), Rule('e', Prec(lv))], n=3, wide=1, note='precedence'), 15, crate='p')
    for sub in (1, 7):
        for t in c07.templates(lambda i: '#[cache]' if sub >> i & 1 else ''):
            quiet = any(isinstance(x, (And, Not, Quiet)) for r in t for x in r.e.walk())
            gr = Gram(t, n=3, wide=1, note='cached')
            c.gram(gr, 3 if quiet else 15, crate='p')
            c.gram(Gram(t, n=3, wide=1, note='cached'), 3 | 32)
    for gr, mode in c08.grams()[:: 1 if DEEP else 6]:
        gr.n = min(gr.n, 3); gr.wide = 1
        c.gram(gr, mode, crate='p')
        if not any(r.refe for r in gr.rules): c.gram(gr, mode | 32)
    for x in gs[::9]:
        if not any(r.attrs for r in x.rules): c.gram(x, 15, crate='p')
    # std off: the runtime's alloc-only configuration
    c.crate('n', nodefault=True); c.crate('nt', nodefault=True, features=['trace'])
    for x in gs[::3] + K.nest(['seqM', 'altLv', 'star', 'sep', 'not', 'quietx'], ['lit', 'pat', 'npat', 'exp', 'alt'], ['s', 'u'], no_eof=False, n=2 + DEEP): c.gram(x, 15, crate='n')
    for x in gs[::17]: c.gram(x, 15, crate='nt')
    for inp, full in (('str', True), ('bytes', False)):
        for e in (lambda: Rep(Pat([(97, 99)], kind='char' if inp == 'str' else 'u8'), '*', sep=Lit(',')), lambda: Slice(Seq(Not(Lit('ab')), Pat([], any=True), Opt(Lit('c'))))):
            for n in (0, 2, 3): c.gram(Gram([Rule('top', Seq(('x', e()), ('p', Pos()), act=('nd',)))], inp=inp, full=full, n=n, note='std off'), 15, crate='n')
    # many tokens, late failures and deep nesting, in every configuration
    for j, x in enumerate(long.errors()):
        if x.note == 'many tokens' or DEEP or j % 3 == SEED % 3: c.gram(x, 15, crate='n', opts=dict(long.OPT))
        if x.note == 'many tokens' and len(x.pre) < 300: c.gram(x, 15, crate='p', opts=dict(long.OPT))
    return c
