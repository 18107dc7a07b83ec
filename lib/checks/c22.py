"""a parser is a function of its input: earlier, later and nested parses change nothing"""
from check import Check
from core import TIER, SEED
import corpus as K, random
from checks import c07, c08, c09, c13
from gram import *

DEEP = TIER == 'thorough'
L = Lit


def corpus(rng):
    for no_eof in (True, False):
        for g in K.randoms(SEED * 6131 + no_eof, 500 if DEEP else 50, 3, ['v', 's', 'u'], no_eof=no_eof, n=2): yield g, 15
        bl, al = lambda: list(c13.bodies()), list(c13.args())
        for _ in range(100 if DEEP else 12):
            g = Gram(c13.used([c13.top(('x', Call('wrap', [rng.choice(al)()]))), c13.wrap(rng.choice(bl()))], c13.AUX()), no_eof=no_eof, n=2, note='parameter')
            if not g.loops(): yield g, 15
        vs = list(c13.values())
        for rules, kw in rng.sample(vs, len(vs) if DEEP else 12):
            kw = dict(dict(n=2), **kw); kw['n'] = 2; yield Gram(c13.used(rules, c13.AUX()), no_eof=no_eof, note='value parameter', **kw), 15
        for g in K.recursive(no_eof=no_eof, n=3): yield g, 15
    for sub in ((1, 2, 3, 7) if DEEP else (1, 7)):
        for rules in c07.templates(lambda i: '#[cache]' if sub >> i & 1 else ''): yield Gram(rules, n=3, wide=1, note='cached'), 3 if any(isinstance(x, (And, Not, Quiet)) for r in rules for x in r.e.walk()) else 15
    lr = c08.grams()
    for g, mode in (lr if DEEP else rng.sample(lr, min(len(lr), 16))): g.n = 3; g.wide = 1; yield g, mode
    fs = list(c09.fams())
    for lv in (fs if DEEP else rng.sample(fs, min(len(fs), 16))):
        sp = rng.random() < .5
        yield Gram([Rule('top', Seq(('x', Call('e')), ('p', Pos()), act=('nd',))), Rule('e', Prec(lv, span=sp), attrs=rng.choice(['', '#[cache]']))], no_eof=rng.random() < .5, n=3, wide=1, span=sp, note='precedence'), 15


def nested(g, rng):
    """lets parses of another input happen in the middle of sequences"""
    left = 4
    for r in g.rules:
        for x in r.e.walk():
            if isinstance(x, Seq) and x.act and x.act[0] in ('nd', 'cond') and not x.bind and left and rng.random() < .6:
                x.els.insert(rng.randrange(1, len(x.els) + 1), (None, Hit(3))); x.kids = [e for _, e in x.els]; left -= 1


def make():
    c = Check('C22', 'grammars of the other corpora: a parse gives what the reference gives after a parse of another input, with parses of that other input in the middle of it, and again afterwards; those other parses give the same every time',
              'two inputs of 1..3 elements, terminals arbitrary partial functions of each; up to four places for nested parses')
    rng = random.Random(SEED * 982451653)
    for k, (g, mode) in enumerate(corpus(rng)):
        name = 'g%d' % k
        if not any(r.refe for r in g.rules) and k % 4: nested(g, rng)
        m = 2 if k % 5 else 1
        if g.n > 2 and m > 1: m = 1
        t = g.rust(name, mode).replace('{ hit(', '{ renter(').replace('run_sym(', 'run_hist(%d, ' % m)
        c.add('g', name, t, {'grammar': g.text(name), 'note': g.note})
    # texts, one after the other in the same buffer
    ch = lambda *r: Pat([(ord(x[0]), ord(x[-1])) for x in r], kind='char'); A = lambda: Pat([], any=True, kind='char'); nd = lambda *e: Seq(*e, act=('nd',))
    for at in ('', '#[cache]'):
        for e in (lambda: Rep(Call('l'), '*'), lambda: nd(('x', Call('l')), Opt(L('\n')), ('y', Slice(Rep(Call('l'), '+')))), lambda: Alt(nd(('x', Call('l')), L('b')), nd(('x', Call('l')), ('y', Call('l')), L('c')), nd(Not(L('a')), ('x', A()), ('y', ch('\ne'))))):
            for m, n in ((1, 2), (2, 2), (3, 3), (3, 2)) + (((4, 4), (2, 4)) if DEEP else ()):
                g = Gram([Rule('top', nd(('x', e()), ('p', Pos()))), Rule('l', nd(('x', ch('\n', 'ac', '\u00e9\u20ac'))), attrs=at)], inp='str', n=n, full=True, note='two texts')
                name = 't%d' % len(c.items)
                c.add('g', name, g.rust(name, 15 if not at else 3).replace(', %d, true, false, ' % n, ', %d, %d, false, ' % (m, n)).replace('run_str(', 'run_hist_str('), {'grammar': g.text(name), 'note': g.note})
    return c
