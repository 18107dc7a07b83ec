"""embedded code runs in order, exactly as often as the grammar means"""
from check import Check
from core import TIER, SEED
import corpus as K, random
from checks import c07, c08, c09, c13
from gram import *

DEEP = TIER == 'thorough'
EVT = 64


def corpus(rng):
    for no_eof in (True, False):
        yield from K.randoms(SEED * 15731 + no_eof, 1500 if DEEP else 220, 3, ['v', 's', 'u'], no_eof=no_eof, n=3)
        bl, al = lambda: list(c13.bodies()), list(c13.args())
        for _ in range(200 if DEEP else 30):
            g = Gram(c13.used([c13.top(('x', Call('wrap', [rng.choice(al)()]))), c13.wrap(rng.choice(bl()))], c13.AUX()), no_eof=no_eof, n=3, note='parameter')
            if not g.loops(): yield g
        vs = list(c13.values())
        for rules, kw in rng.sample(vs, len(vs) if DEEP else 20):
            kw = dict(dict(n=3), **kw); kw['n'] = min(kw['n'], 3); yield Gram(c13.used(rules, c13.AUX()), no_eof=no_eof, note='value parameter', **kw)
        yield from K.recursive(no_eof=no_eof, n=4 if DEEP else 3)
    yield from K.nest(['slice', 'not', 'and', 'quiet', 'star', 'plus', 'sep', 'opt', 'seqLv', 'seqM', 'altLv', 'alt3', 'call', 'param'], ['act', 'cond', 'rulev', 'seqM', 'star', 'sep', 'opt', 'altL', 'slice', 'not', 'quiet'], ['v'], no_eof=False, n=3)
    for sub in range(8):
        for rules in c07.templates(lambda i: '#[cache]' if sub >> i & 1 else ''):
            if sub >> len([r for r in rules if r.name not in ('top', 'wrap')]): continue
            yield Gram(rules, n=3, wide=1, note='cached')
    for g, mode in c08.grams():
        g.n = min(g.n, 4 if DEEP else 3); yield g
    fs = list(c09.fams())
    for lv in (fs if DEEP else rng.sample(fs, min(len(fs), 60))):
        sp = rng.random() < .5
        yield Gram([Rule('top', Seq(('x', Call('e')), ('p', Pos()), act=('nd',))), Rule('e', Prec(lv, span=sp), attrs=rng.choice(['', '#[cache]']))], no_eof=rng.random() < .5, n=4 if DEEP else 3, wide=1, span=sp, note='precedence')


def marked(g, rng):
    """parsers in `#{}` that match nothing, between the elements of sequences"""
    left = 4
    for r in g.rules:
        for x in r.e.walk():
            if isinstance(x, Seq) and x.act and x.act[0] in ('nd', 'cond') and not x.bind and left and rng.random() < .5:
                left -= 1; x.els.insert(rng.randrange(0, len(x.els) + 1), (None, Hit(left))); x.kids = [e for _, e in x.els]


def make():
    c = Check('C23', 'grammars of the other corpora with actions, conditions and #{} parsers everywhere: the sequence of runs of this code, with the positions and the shape of the values it sees, is the one the grammar denotes (repeated once if the parse fails)',
              'inputs of 3..4 elements, terminals arbitrary partial functions; grammars enumerated, sampled, cached, left-recursive and with precedence')
    rng = random.Random(SEED * 472882027); k = 0
    for g in corpus(rng):
        if any(r.refe for r in g.rules): continue
        name = 'g%d' % k; k += 1
        if k % 3: marked(g, rng)
        t = g.rust(name, 3 | EVT)
        assert 'run_sym(|i| ' in t
        t = t.replace('run_sym(|i| ', 'run_sym(|i| { events(); ').replace(', r%s::R' % name, ' }, r%s::R' % name)
        c.add('g', name, t, {'grammar': g.text(name), 'note': g.note})
    c.expect_covers |= {4}
    return c
