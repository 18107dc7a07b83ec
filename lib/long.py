"""Long and wide cases: a fixed stretch of input (past 255 and past 65535 positions, levels, elements) around a few
symbolic bytes, and constructs with many parts. What the small symbolic cases leave out is exactly what only shows in numbers."""
import itertools
from gram import *

nd = lambda *e: Seq(*e, act=('nd',))
ch = lambda *r, **k: Pat([(ord(x[0]), ord(x[-1])) for x in r], kind='char', **k)
by = lambda *r, **k: Pat([(ord(x[0]), ord(x[-1])) for x in r], kind='u8', **k)
L = Lit; P = Pos
OPT = {'max-depth': 60000, 'max-instr': 400000000, 'weight': 2}
TXT = dict(inp='str', deep=True)


def top(*e, **k): return Rule('top', Seq(*e, ('p', P()), act=('nd',)), **k)


def g(rules, pre='', n=2, post='', **kw): return Gram(rules if isinstance(rules, list) else [top(('x', rules))], pre=pre, n=n, post=post, **dict(TXT, **kw))


def repeats(el=ch, **kw):
    """counts around 256"""
    a = lambda: el('a')
    for v in (lambda x: x, lambda x: Slice(x)):
        for op, ex in (('*', 0), ('+', 0), ((256, 256), 0), ((256, 256), 1), ((255, 257), 0), ((None, 256), 0), ((257, None), 0), ((256, None), 0)):
            yield g([top(('x', v(Rep(a(), op, exact=bool(ex)))), ('y', Opt(L('a'))))], 'a' * 255, 2, no_eof=True, note='long repetition', **kw)
            yield g([top(('x', v(Rep(a(), op, sep=L(','), exact=bool(ex)))), ('y', Opt(L(','))))], 'a,' * 255, 3, no_eof=True, note='long repetition', **kw)
    yield g([top(('x', Rep(Rep(el('a', 'b'), (1, 2)), (130, None))))], 'ab' * 129, 3, no_eof=True, note='long repetition', **kw)
    yield g([top(('x', Slice(Rep(Not(L(';')), (1, 1)))), ('y', Rep(nd(Not(L(';')), ('z', el('a'))), '*')), L(';'))], 'a' * 257, 2, note='long repetition', **kw)


def values(ch=ch, **kw):
    for n in (254, 65535):
        pre = 'a' * n
        yield g([top(('s', P()), ('x', Slice(Rep(L('a'), '*'))), ('q', P()), ('y', Slice(nd(ch('bd'), Opt(L('b'))))))], pre, 3, no_eof=True, note='values far into the text', **kw)
    yield g([top(('x', Rep(nd(('q', P()), ('y', Slice(L('ab'))), ('r', P())), '*')))], 'ab' * 140, 3, no_eof=True, note='values far into the text', **kw)
    # many labels, many alternatives, deep nesting
    lt = 'abcdefghijklmnopqrstuvwxyz'
    yield g([top(('x', Seq(*[('v%d' % i, Opt(ch(lt[i]))) for i in range(14)], act=('nd',))))], 'abcdef', 3, 'm', no_eof=True, note='many labels', **kw)
    yield g([top(('x', Rep(Alt(*[nd(('w', Slice(L(lt[i] * (1 + i % 3))))) for i in range(20)], nd(('y', ch('uz')))), '*')))], 'bbcccdt', 3, no_eof=True, note='many alternatives', **kw)
    e = ch('a')
    for i in range(16): e = Opt(nd(('v', e), ('q', P()))) if i % 3 else nd(('v', e), Opt(L(lt[i])))
    yield g([top(('x', e))], '', 3, no_eof=True, note='deep nesting', **kw)
    # recursion to a depth past 255
    yield g([top(('x', Call('r'))), Rule('r', Alt(nd(L('('), ('x', Call('r')), L(')'), ('p', P())), nd(('x', ch('a')))))], '(' * 258 + 'a' + ')' * 256, 2, note='deep recursion', **kw)


def errors(ch=ch, **kw):
    """failures far into the input, under many levels, with many tokens"""
    a = lambda: ch('a')
    yield from values(ch, **kw)
    for n in (255, 65535):
        pre = 'a' * n
        yield g([top(('x', Rep(a(), '*')), L('b'), Opt(L('c')), Alt(Seq(L('d')), Seq(L('e'))))], pre, 3, note='late failure', **kw)
        yield g([top(('x', Alt(nd(('x', Rep(a(), '*')), L('bb')), nd(('x', Slice(Rep(a(), '*'))), Quiet(L('bc')), L('d')), nd(('x', Rep(L('a'), '+')), And(L('b')), L('be')))))], pre, 3, note='late failure', **kw)
    # nesting: lookahead and quiet! at every level
    for n in (3, 258):
        pre = '(' * n
        yield g([top(('x', Slice(Call('r')))), Rule('r', Alt(Seq(L('('), And(Call('r')), Opt(L('y'))), Seq(L('x')), Seq(L('yy'))), ret=None)], pre, 2, note='nested lookahead', **kw)
        yield g([top(('x', Slice(Call('r')))), Rule('r', Alt(Quiet(Seq(L('('), Call('r'), L(')'))), Seq(L('x')), Seq(L('yy'))), ret=None)], pre, 2, ')' * n, note='nested quiet', **kw)
        yield g([top(('x', Slice(Call('r')))), Rule('r', Alt(Seq(L('('), Not(Call('r')), Opt(L('('))), Seq(L('x')), Seq(L('yy'))), ret=None)], pre, 2, note='nested lookahead', **kw)
        yield g([top(Opt(Seq(And(Call('r')))), ('x', Slice(Rep(L('('), '*'))), L('z')), Rule('r', Alt(Seq(L('('), Call('r'), L(')')), Quiet(L('x')), Seq(L('yy'))), ret=None)], pre, 2, note='deep lookahead', **kw)
        yield g([top(('x', Slice(Call('r')))), Rule('r', Alt(Seq(L('('), Call('r'), L(')')), Seq(L('x'))), ret=None)], pre + 'x' + ')' * (n - 1), 2, note='deep recursion', **kw)
    lt = 'abcdefghijklmnopqrstuvwxyz'
    yield g([top(('x', Alt(*[nd(('w', Slice(L(c)))) for c in lt], nd(('y', ch('09')))))), ], '', 1, note='many tokens', **kw)
    yield g([top(L('-'), *[Opt(L(c)) for c in lt[:15]], Alt(*[Seq(L(c * 2)) for c in lt[:13]]))], '-', 2, note='many tokens', **kw)
    yield g([top(('x', Slice(Alt(*[Seq(L('k'), L(c)) for c in lt[:13]], *[Seq(L('kk'), L(c)) for c in lt[13:]]))))], 'k', 2, note='many tokens', **kw)


def rejected(pat='a', **kw):
    """language: constructs with many parts, deep recursion"""
    yield from values()
    lt = 'abcdefghijklmnopqrstuvwxyz'
    yield g([top(*[L(lt[i]) if i % 2 else Opt(L(lt[i])) for i in range(24)])], 'abcdefghij', 2, 'lnprtvx', note='long sequence')
    e = Alt(*[Seq(L(lt[i]), L(lt[i + 1])) for i in range(24)])
    for i in range(9): e = Alt(Seq(L('-'), e), Seq(L('-' + lt[i])), Seq(Not(L('z')), Quiet(e) if i == 4 else Slice(e) if i == 6 else Opt(e) if i == 2 else And(e), Opt(L('m')))) if i in (2, 4, 6) else Alt(Seq(L('-'), e), Seq(L('+' + lt[i])))
    yield g([top(e)], '---', 3, note='many alternatives')
    # many rules calling each other in a chain
    k = 40
    yield g([top(('x', Call('r0')))] + [Rule('r%d' % i, nd(('x', Call('r%d' % (i + 1))), Opt(L(lt[i % 26]))) if i % 9 == 4 else Seq(('x', Call('r%d' % (i + 1))), act=('pick', 0))) for i in range(k)] + [Rule('r%d' % k, nd(('x', ch('ac'))))], 'a', 2, note='many rules')


def cached():
    a = lambda at='#[cache]', e=None: Rule('a', nd(Hit(0), ('x', e or ch('ac')), ('q', P())), attrs=at)
    for n in (130,):
        yield g([top(('x', Rep(Alt(nd(('x', Call('a')), L('x')), nd(('x', Call('a')), L('y'))), '*'))), a()], 'axby' * n, 3, note='long cached', no_eof=True)
        yield g([top(('x', Alt(nd(('x', Rep(Call('a'), '*')), L('x')), nd(('x', Rep(Call('a'), '*')), L('y')), nd(('x', Rep(Call('a'), '*')))))), a()], 'ab' * n, 3, note='long cached')
        yield g([top(('x', Alt(nd(('x', Call('r')), L('.')), nd(('x', Call('r')), L(';')), nd(('x', Call('r')), L('!'))))), Rule('r', Alt(nd(L('('), ('x', Call('r')), Alt(L(')'), L(']'))), nd(('x', ch('a'))))  , attrs='#[cache]')], '(' * 258 + 'a' + ')]' * 128, 3, note='deep cached')
    # the same rule at two positions far apart
    for n in (255, 65535): yield g([top(('x', Alt(nd(('x', Call('a')), L('x')), nd(('x', Call('a')), Slice(Rep(L('z'), '*')), ('y', Opt(Call('a'))))))), a()], 'b' + 'z' * n, 2, note='cached far apart', no_eof=True)
    # many cached rules
    k = 20; lt = 'abcdefghijklmnopqrstuvwxyz'
    yield g([top(('x', Rep(Alt(*[nd(('x', Call('c%d' % i)), L('.')) for i in range(k)], *[nd(('x', Call('c%d' % i)), L(';')) for i in range(k)]), '*')))] + [Rule('c%d' % i, nd(('x', Slice(L(lt[i])))), attrs='#[cache]') for i in range(k)], 'a.b;c.t;', 2, note='many cached rules', no_eof=True)


def leftrec():
    lr = dict(attrs='#[cache_left_rec]', lrec=True)
    num = lambda: nd(('n', ch('09')))
    e = lambda *t: Rule('e', Alt(*t, nd(('x', Call('t')))), **lr)
    tr = Rule('t', num())
    yield g([top(('x', Call('e'))), e(nd(('l', Call('e')), L('+'), ('r', Call('t'))), nd(('l', Call('e')), L('-'), ('r', Call('t')))), tr], '1+2-' * 66, 2, note='long left recursion', no_eof=True)
    for n in (255, 65535): yield g([top(('x', Call('e')), Slice(Rep(L('z'), '*')), ('y', Opt(Call('e')))), e(nd(('l', Call('e')), L('!'))), tr], '1' + 'z' * n, 3, note='left recursion far apart', no_eof=True)
    yield g([top(('x', Call('e'))), e(nd(('l', Call('e')), L('!'))), tr], '1' + '!' * 257, 2, note='long left recursion', no_eof=True)
    yield g([top(('x', Rep(Call('e'), '*', sep=L(',')))), e(nd(('l', Call('e')), L('+'), ('r', Call('t')))), tr], '1+2,' * 66, 3, note='left recursion far into the text', no_eof=True)
    yield g([top(('x', Call('e'))), e(*[nd(('l', Call('e')), L(c), ('r', Call('t'))) for c in 'abcdefghijklmnop']), tr], '1a2p3o', 3, note='many tails', no_eof=True)
    yield g([top(('x', Call('e'))), Rule('e', Alt(nd(('l', Call('f')), L('+'), ('r', Call('t'))), nd(('x', Call('t')))), **lr), Rule('f', Alt(nd(('l', Call('e')), L('*')), nd(('x', Call('e')))), **lr), tr], '1+2*+3' * 1, 3, note='mutual', no_eof=True)


def prec():
    num = {'kind': 'atom', 'els': [('n', ch('09'))]}
    il = lambda c: {'kind': 'in', 'assoc': 'l', 'els': [(None, L(c))]}
    ir = lambda c: {'kind': 'in', 'assoc': 'r', 'els': [(None, L(c))]}
    pr = lambda c, l=False: {'kind': 'pre', 'loose': l, 'els': [(None, L(c))]}
    po = lambda c: {'kind': 'post', 'els': [(None, L(c))]}
    def t(levels, pre, n=2, post='', **kw): return g([top(('x', Call('e'))), Rule('e', Prec(levels, span=kw.get('span', False)))], pre, n, post, note='long precedence', **kw)
    par = {'kind': 'atom', 'els': [(None, L('(')), ('e', Call('e')), (None, L(')'))]}
    for sp in (False, True):
        yield t([[il('+'), il('-')], [il('*')], [ir('^')], [num, par]], '1+2*3^' * 45, 2, span=sp)
        yield t([[il('+')], [ir('^')], [pr('~')], [po('!')], [num, par]], '1' + '^~2!' * 65, 2, span=sp)
        yield t([[il('+')], [pr('~')], [num, par]], '~' * 258, 2, '+1', span=sp)
        yield t([[po('!')], [il('+')], [num, par]], '1' + '!' * 258, 2, span=sp)
        yield t([[il('+')], [num, par]], '(' * 130 + '1+2' + ')' * 129, 2, span=sp)
        # many levels, of every kind
        ops = 'abcdefghijklmnopqr'
        yield t([[(il if i % 2 else ir)(c)] for i, c in enumerate(ops)] + [[num, par]], '1', 4, '5', span=sp, no_eof=True)
        yield t([[(il if i % 3 else ir)(c)] for i, c in enumerate(ops)] + [[num]], '1a2r3h4', 2, '5q6', span=sp)
        yield t([[(il if i % 3 else ir)(c) for i, c in enumerate(ops)], [pr('+'), pr('-'), pr('~', True), po('!'), po('?')], [num, par]], '1a-2r3h!4', 2, '5q6', span=sp)
        yield t([[il(c)] if i % 4 == 0 else [pr(c)] if i % 4 == 1 else [po(c)] if i % 4 == 2 else [pr(c, True)] for i, c in enumerate(ops[:14])] + [[num]], '', 2, '1', span=sp, no_eof=True)
        yield t([[num]] + [[(il if i % 2 else ir)(c)] for i, c in enumerate(ops[:13])], '1m2a3', 2, '4', span=sp, no_eof=True)


def many_levels():
    """precedence with more levels than fit in seven, eight bits; operators of two letters, the second of them symbolic"""
    num = {'kind': 'atom', 'els': [('n', ch('09'))]}
    nm = lambda i: chr(97 + i // 26) + chr(97 + i % 26)
    for n in (270,):
        lv = [[{'kind': 'in', 'assoc': 'l' if i % 3 else 'r', 'els': [(None, L(nm(i)))]}] for i in range(n)] + [[num]]
        for k in (1, 128, 256): yield g([top(('x', Call('e'))), Rule('e', Prec(lv))], '1' + nm(k) + '2', 2, '3' + nm(k) + '4', note='very many levels')


def choices():
    """literals that are beginnings of each other, in every order"""
    lits = ('a', 'ab', 'abc', 'b', '')
    for k in (2, 3):
        for t in itertools.permutations(lits, k):
            yield g([top(Alt(*[L(x) for x in t]), L(';'))], '', 3 if k == 2 else 4, note='choice of literals')
            yield g([top(('x', Slice(Alt(*[Seq(L(x)) for x in t]))), Opt(Alt(*[L(x) for x in t[::-1]])), Alt(ch('cc'), L(t[0] + 'x'), L(t[-1] + 'cx')))], '', 3, note='choice of literals')
    for t in itertools.product(lits[:4], repeat=2):
        yield g([top(Rep(Alt(*[L(x) for x in t]), (0, 2), sep=Opt(L(t[0]))), Not(L(t[1])), Alt(L(t[0]), L('ax'), L('a')))], '', 3, note='choice of literals')
        yield g([top(('x', Opt(L(t[0]))), ('y', Opt(L(t[1]))), Alt(ch('ab'), L(t[0]), L('abx')))], '', 3, note='choice of literals')


def text():
    """long literals, many characters, wide characters past 255"""
    long = 'the quick brown fox \u00e9\u20ac\U0001f600 jumps over'
    for k in (1, 4, 11, len(long) - 1):
        yield g([top(('x', Opt(L(long))), ('y', Slice(Rep(Pat([], any=True, kind='char'), '*'))))], long[:k], 2, long[k + 2:], full=True, note='long literal', no_eof=False)
        yield g([top(Alt(Seq(L(long)), Seq(L(long[:k])), Seq(L(long[: k + 1]), L('!'))), Opt(L('x')))], long[:k], 2, full=True, note='long literal')
    for s in ('x' * 255, '\u20ac' * 90, '\U0001f600' * 70):
        yield g([top(('x', Rep(Pat([], any=True, kind='char'), '*')))], s, 3, full=True, note='long text')
        yield g([top(('x', Slice(Rep(ch('x', '\u20ac', '\U0001f600'), '*'))), ('y', Slice(Rep(ch('a', 'b', '\u00e9'), '*'))))], s, 3, full=True, note='long text')


def add(c, gs, mode, crate='long', hit=False):
    for x in gs: c.gram(x, mode, crate=crate, opts=dict(OPT))
