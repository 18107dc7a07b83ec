"""Grammar corpora.  The input of every grammar is symbolic; the grammars themselves are
enumerated (systematic nesting of operators) or drawn with VERIF_SEED."""
import random
from gram import *

P1 = [(0, 9), (20, 20)]
P2 = [(5, 30)]


class Mk:
    """hands out fresh terminals"""
    def __init__(s, kind='u8', nl=8): s.i = 0; s.k = kind; s.np = 0; s.nl = nl
    def L(s): c = 'abcdefgh'[s.i % s.nl]; s.i += 1; return Lit(c)
    def P(s): s.np += 1; return Pat([P1, P2][s.np % 2], kind=s.k)


# ---- atoms: name -> f(mk)
ATOMS = {
    'lit': lambda m: m.L(),
    'pat': lambda m: m.P(),
    'npat': lambda m: Pat([(5, 30), (70, 80)], neg=True),
    'any': lambda m: Pat([], any=True),
    'meth': lambda m: Meth(0),
    'pos': lambda m: Pos(),
    'exp': lambda m: Exp('x' + str(m.i)),
    'rulev': lambda m: Call('v1'),
    'ruleu': lambda m: Call('u1'),
    'seq': lambda m: Seq(m.L(), m.L()),
    'alt': lambda m: Alt(m.L(), m.L()),
    'act': lambda m: Seq(('x', m.P()), m.L(), act=('nd',)),
    'cond': lambda m: Seq(('x', m.P()), ('y', Pos()), act=('cond', 0, 'c0')),
    'empty': lambda m: Seq(act=('nd',)),
}
# ---- unary / compound operators over a child: name -> f(child, mk)
UN = {
    'opt': lambda c, m: Opt(c),
    'star': lambda c, m: Rep(c, '*'),
    'plus': lambda c, m: Rep(c, '+'),
    'x2': lambda c, m: Rep(c, (2, None), exact=True),
    'min1': lambda c, m: Rep(c, (1, None)),
    'min2': lambda c, m: Rep(c, (2, None)),
    'max1': lambda c, m: Rep(c, (None, 1)),
    'max2': lambda c, m: Rep(c, (None, 2), brace=True),
    'r12': lambda c, m: Rep(c, (1, 2)),
    'r02': lambda c, m: Rep(c, (0, 2)),
    'sep': lambda c, m: Rep(c, '*', sep=m.L()),
    'sepp': lambda c, m: Rep(c, '+', sep=m.L()),
    'sepx2': lambda c, m: Rep(c, (2, None), sep=m.L(), exact=True),
    'sepmin': lambda c, m: Rep(c, (1, None), sep=m.L()),
    'sepmax': lambda c, m: Rep(c, (None, 2), sep=m.L()),
    'sepr': lambda c, m: Rep(c, (1, 2), sep=m.L(), brace=True),
    'and': lambda c, m: And(c),
    'not': lambda c, m: Not(c),
    'slice': lambda c, m: Slice(c),
    'quiet': lambda c, m: Quiet(c),
    'quietx': lambda c, m: Alt(Quiet(c), Exp('q')),
    'seqL': lambda c, m: Seq(c, m.L()),
    'seqR': lambda c, m: Seq(m.L(), c),
    'seqLv': lambda c, m: Seq(('x', c), ('y', m.P()), act=('nd',)),
    'seqRv': lambda c, m: Seq(('x', m.P()), ('y', c), act=('nd',)),
    'seqM': lambda c, m: Seq(m.L(), ('x', c), m.L(), act=('nd',)),
    'seqc': lambda c, m: Seq(('x', c), act=('cond', 0, 'c1')),
    'altL': lambda c, m: Alt(Seq(c), Seq(m.L())),
    'altLv': lambda c, m: Alt(Seq(('x', c), act=('nd',)), Seq(('x', m.P()), act=('nd',))),
    'altRv': lambda c, m: Alt(Seq(m.L(), act=('nd',)), Seq(('x', c), act=('nd',))),
    'alt3': lambda c, m: Alt(Seq(m.L(), m.L(), act=('nd',)), Seq(m.L(), ('x', c), act=('nd',)), Seq(m.L(), act=('nd',))),
    'sepalt': lambda c, m: Rep(c, '*', sep=Alt(Seq(m.L()), Seq(m.L(), m.L()))),
    'seppat': lambda c, m: Rep(c, (2, None), sep=m.P()),
    'sepopt': lambda c, m: Rep(c, (1, 2), sep=Opt(m.L())),
    'sepmeth': lambda c, m: Rep(c, '+', sep=Meth(1)),
    'r23': lambda c, m: Rep(c, (2, 3)),
    'x3': lambda c, m: Rep(c, (3, None), exact=True, brace=True),
    'x0': lambda c, m: Rep(c, (0, None), exact=True),
    'max0': lambda c, m: Rep(c, (None, 0)),
    'min0': lambda c, m: Rep(c, (0, None)),
    'x1': lambda c, m: Rep(c, (1, None), exact=True),
    'sep23': lambda c, m: Rep(c, (2, 3), sep=m.L()),
    'sepx1': lambda c, m: Rep(c, (1, None), sep=m.L(), exact=True),
    'call': lambda c, m: AuxM(c),
    'param': lambda c, m: ParM(c),
}
REPS = ['star', 'plus', 'x2', 'min1', 'min2', 'max1', 'max2', 'r12', 'r02', 'sep', 'sepp', 'sepx2', 'sepmin', 'sepmax', 'sepr', 'sepalt', 'seppat', 'sepopt', 'sepmeth', 'r23', 'x3', 'x0', 'max0', 'min0', 'x1', 'sep23', 'sepx1']
NONREP = [u for u in UN if u not in REPS]
BASEREP = ['star', 'plus', 'r12', 'sep', 'sepr']

AUX = lambda: [Rule('v1', Seq(('x', Pat(P2)), Opt(Lit('h')), act=('nd',))), Rule('u1', Alt(Seq(Lit('g'), Lit('h')), Seq(Lit('h'))), ret=None),
               Rule('wrap', Seq(('x', Par(0, 'r')), ('p', Pos()), act=('nd',)), params='r: rule<T>', generics='<T: ToV>')]


class Skip(Exception): pass


class AuxM(Un):
    """child moved to a rule of its own"""


class ParM(Un):
    """child passed to a rule as an argument"""


def realize(t, rules):
    if isinstance(t, AuxM):
        r = Rule('aux%d' % len(rules), None); rules.append(r); c = realize(t.e, rules)
        r.e = Seq(('x', c), act=('nd',)) if usable(c, rules) else Seq(c, act=('nd',))
        return Call(r.name)
    if isinstance(t, ParM):
        c = realize(t.e, rules)
        if not usable(c, rules): raise Skip()
        return Call('wrap', [c])
    if isinstance(t, Rep) and t.sep is not None: t.e = realize(t.e, rules); t.sep = realize(t.sep, rules); t.kids = [t.e, t.sep]
    elif isinstance(t, Un): t.e = realize(t.e, rules); t.kids = [t.e]
    elif isinstance(t, Seq): t.els = [(l, realize(e, rules)) for l, e in t.els]; t.kids = [e for _, e in t.els]
    elif isinstance(t, Alt): t.kids = [realize(e, rules) for e in t.kids]
    return t


def usable(e, rules=()):
    """does the expression have a value of a type known to rustc when labelled?"""
    if isinstance(e, Call): return e.name != 'u1' and not any(r.name == e.name and r.ret is None for r in rules)
    if isinstance(e, Exp): return False
    if isinstance(e, (Opt, Rep, And, Quiet)): return usable(e.e, rules)
    if isinstance(e, Alt): return all(usable(k, rules) for k in e.kids) and len({ty(k) for k in e.kids}) == 1
    if isinstance(e, Seq):
        if e.act is None and len(e.els) == 1: return usable(e.kids[0], rules)
        return all(usable(x, rules) for l, x in e.els if l)
    return True


def ty(e):
    if isinstance(e, Lit) or isinstance(e, Not) or isinstance(e, Hit): return '()'
    if isinstance(e, Pat): return 'u8'
    if isinstance(e, Pos): return 'usize'
    if isinstance(e, Meth): return 'u64'
    if isinstance(e, Slice): return 'Span'
    if isinstance(e, Opt): return 'Option<%s>' % ty(e.e)
    if isinstance(e, Rep): return 'Vec<%s>' % ty(e.e)
    if isinstance(e, (And, Quiet)): return ty(e.e)
    if isinstance(e, Alt): return ty(e.kids[0])
    if isinstance(e, Seq):
        if e.act is None: return ty(e.kids[0]) if len(e.els) == 1 else '()'
        return 'V'
    if isinstance(e, Call) and e.name == 'u1': return '()'
    if isinstance(e, (Call, Par, Prec)): return 'V'
    return '?'


def unused_ok(e):
    """labels inside an unused expression are still compiled as used"""
    if isinstance(e, Seq) and not all(usable(x) for l, x in e.els if l): return False
    return all(unused_ok(k) for k in e.kids)


def shape(make, ctx, note, n=3, wide=2, no_eof=True, **kw):
    """wrap the tree in a top rule.  ctx 'v': value used; 'u': value ignored; 's': inside a sequence with neighbours"""
    m = Mk(); rules = []
    try: t = realize(make(m), rules)
    except Skip: return None
    if ctx in ('v', 's') and not usable(t, rules): return None
    if not all(unused_ok(x) and exp_ok(x) and alts_ok(x) for x in [t] + [r.e for r in rules]): return None
    if ctx == 'v': top = Seq(('x', t), ('p', Pos()), act=('nd',))
    elif ctx == 'u': top = Seq(t, ('p', Pos()), act=('nd',))
    else: top = Seq(('w', m.P()), ('x', t), m.L(), ('p', Pos()), act=('nd',))
    aux = AUX()
    used = {x.name for r in [Rule('', top)] + rules for x in r.e.walk() if isinstance(x, Call)}
    rl = [Rule('top', top)] + rules + [a for a in aux if a.name in used]
    g = Gram(rl, no_eof=no_eof, n=n, wide=wide, note=note, **kw)
    if g.loops(): return None
    return g


def exp_ok(e, typed=False):
    """`expected!` has no type of its own: rustc needs a typed alternative next to it"""
    if isinstance(e, Exp): return typed
    if isinstance(e, Seq) and e.act is None and len(e.els) == 1: return exp_ok(e.kids[0], typed)
    if isinstance(e, Quiet): return exp_ok(e.e, typed)
    if isinstance(e, Alt): return all(exp_ok(k, typed or any(not has_bare_exp(o) for o in e.kids if o is not k)) for k in e.kids)
    return all(exp_ok(k) for k in e.kids)


def alts_ok(e):
    """arms of one type (`expected!` fits any)"""
    if isinstance(e, Alt) and len({ty(k) for k in e.kids if not has_bare_exp(k)}) > 1: return False
    return all(alts_ok(k) for k in e.kids)


def has_bare_exp(e):
    return isinstance(e, Exp) or (isinstance(e, (Quiet,)) or isinstance(e, Seq) and e.act is None and len(e.els) == 1) and has_bare_exp(e.kids[0])


def nest(outer, inner, ctxs, **kw):
    out = []
    for o in outer:
        for i in inner:
            for c in ctxs:
                f = (lambda m, o=o, i=i: UN[o](ATOMS[i](m) if i in ATOMS else UN[i](m.L(), m), m))
                g = shape(f, c, '%s(%s)/%s' % (o, i, c), **kw)
                if g: out.append(g)
    return out


def rand_tree(rng, depth, m, ops=None, atoms=None):
    """a tree over the operator tables, drawn with VERIF_SEED"""
    ops = ops or list(UN); atoms = atoms or ['lit', 'lit', 'pat', 'npat', 'meth', 'pos', 'rulev', 'ruleu', 'seq', 'alt', 'act', 'cond', 'exp']
    if depth == 0: return ATOMS[rng.choice(atoms)](m)
    k = rng.random()
    if k < 0.12: return Seq(('x', rand_tree(rng, depth - 1, m, ops, atoms)), ('y', rand_tree(rng, depth - 1, m, ops, atoms)), act=('nd',))
    if k < 0.2: return Seq(rand_tree(rng, depth - 1, m, ops, atoms), rand_tree(rng, depth - 1, m, ops, atoms))
    if k < 0.3: return Alt(Seq(('x', rand_tree(rng, depth - 1, m, ops, atoms)), act=('nd',)), Seq(('x', rand_tree(rng, depth - 1, m, ops, atoms)), act=('nd',)))
    if k < 0.35: return Alt(Seq(rand_tree(rng, depth - 1, m, ops, atoms), m.L()), Seq(rand_tree(rng, depth - 1, m, ops, atoms), m.L()))
    return UN[rng.choice(ops)](rand_tree(rng, depth - 1, m, ops, atoms), m)


def randoms(seed, count, depth, ctxs, ops=None, atoms=None, tries=40, **kw):
    rng = random.Random(seed); out = []; n = 0
    while len(out) < count and n < count * tries:
        n += 1; sd = rng.random()
        try: g = shape(lambda m: rand_tree(random.Random(sd), depth, m, ops, atoms), rng.choice(ctxs), 'random depth %d' % depth, **kw)
        except Skip: g = None
        if g and g.nlit <= 8: out.append(g)
    return out


def recursive(no_eof=False, n=4, wide=1):
    """recursive (not left-recursive) rules"""
    L = Lit; out = []
    def g(*rules, **kw): out.append(Gram(list(rules), no_eof=no_eof, n=kw.pop('n', n), wide=kw.pop('wide', wide), note='recursive', **kw))
    nest = lambda name, a, b, c: Rule(name, Alt(Seq(a, ('x', Call(name)), b, act=('nd',)), Seq(('x', c), act=('nd',))))
    top = lambda e: Rule('top', Seq(('x', e), ('p', Pos()), act=('nd',)))
    g(top(Call('r')), nest('r', L('a'), L('b'), L('c')))
    g(top(Call('r')), nest('r', L('a'), L('b'), Pat(P1)))
    g(top(Call('r')), Rule('r', Seq(('x', Pat(P1)), ('y', Opt(Call('r'))), act=('nd',))))
    g(top(Call('r')), Rule('r', Seq(('x', Pat(P2)), ('y', Rep(Call('r'), '*')), L('a'), act=('nd',))))
    g(top(Call('r')), Rule('r', Alt(Seq(L('a'), ('x', Rep(Call('r'), '*', sep=L('b'))), L('c'), act=('nd',)), Seq(('x', Pat(P1)), act=('nd',)))))
    g(top(Call('r')), Rule('r', Alt(Seq(L('a'), ('x', Call('s')), act=('nd',)), Seq(L('b'), act=('nd',)))), Rule('s', Alt(Seq(L('c'), ('x', Call('r')), act=('nd',)), Seq(L('b'), act=('nd',)))))
    g(top(Call('r')), Rule('r', Seq(Not(L('c')), ('x', Pat(P2)), ('y', Alt(Seq(('z', Call('r')), act=('nd',)), Seq(L('a'), act=('nd',)))), act=('nd',))))
    g(top(Slice(Call('r'))), Rule('r', Alt(Seq(L('a'), Opt(Call('r')), L('b')), Seq(L('c'))), ret=None))
    g(top(Call('r')), Rule('r', Seq(('x', Slice(Seq(L('a'), Rep(Call('r'), '*')))), ('c', And(Alt(Seq(L('b')), Seq(Not(Pat([], any=True)))))), act=('nd',))))
    g(top(Call('r')), Rule('r', Alt(Seq(Quiet(L('a')), ('x', Call('r')), act=('nd',)), Seq(Quiet(Seq(L('b'), L('c'))), act=('nd',)), Seq(Exp('leaf')))))
    # memo-sensitive ordering: shared prefixes, dangling else
    g(top(Call('r')), Rule('r', Alt(Seq(L('a'), ('x', Call('r')), L('b'), ('y', Call('r')), act=('nd',)), Seq(L('a'), ('x', Call('r')), act=('nd',)), Seq(L('c'), act=('nd',)))), n=4)
    return out
