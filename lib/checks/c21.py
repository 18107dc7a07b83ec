"""names chosen by the user never meet those of the generated code"""
from check import Check
from core import TIER, SEED, REPO
import corpus as K, random, re
from gram import *
from checks import c07, c08, c09, c13

DEEP = TIER == 'thorough'
KW = set('as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await abstract become box do final macro override priv typeof unsized virtual yield try'.split())
MORE = 'pos input state err_state value val loc eloc entry e res l r n x it min max level str_start expected parse_state peg new clone r#type r#match r#loop r#fn _x __ch1 __parse_top top_cache lpos rpos __a v'.split()
SHADOW = 'pub struct Vec; pub struct HashMap; pub struct Result; pub struct Option; pub struct String; pub struct Parse; pub struct ParseElem; pub struct RuleResult; pub struct ParseState; pub struct ErrorState; pub struct Input; pub struct PositionRepr; pub mod peg {} pub mod std {} pub mod core {} '
VARIANTS = 'pub enum Hostile { Some, None, Ok, Err, Matched, Failed, Copy, Clone, Fn, Default } pub use self::Hostile::*; '


def quoted(t):
    """the code between the brackets of quote! and quote_spanned!"""
    for m in re.finditer(r'\bquote(?:_spanned)?!\s*([({\[])', t):
        i, depth = m.end(), 1
        while depth and i < len(t):
            c = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.[^\']*|[^\'\\])\'|//[^\n]*|.', re.S).match(t, i)
            depth += (c.group() in '([{') - (c.group() in ')]}') if len(c.group()) == 1 else 0
            i = c.end()
        q = t[m.end():i - 1]
        if '_spanned' in m.group(): q = q.split('=>', 1)[-1]
        yield re.sub(r'"(?:\\.|[^"\\])*"|//[^\n]*|#!?\[[^\]]*\]', ' ', q)


def hostile():
    """names the generated code could use: the variables, parameters and functions in the quoted code of translate.rs"""
    with open(REPO + '/peg-macros/translate.rs') as f: t = f.read()
    own = set()
    for q in quoted(t): own |= set(re.findall(r"(?<![\w#':.!])([a-z_]\w*)\b(?!\s*(?:!|::))", q))
    own |= set(re.findall(r'(?:Ident::new|format_ident!)\(\s*"(\w+)"', t)) - {'_'}
    ok = lambda x: x not in KW and x != '_' and x.strip('_') and not re.fullmatch('[ui](8|16|32|64|128|size)|str|char|bool', x)
    return sorted(filter(ok, own)), sorted(filter(ok, own | set(MORE)))


def rename(text, m):
    """identifiers outside of string and character literals"""
    return re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.[^\']*|[^\'\\])\'|(?<!::)(?<![\w.#])([A-Za-z_]\w*)(?!\s*!)', lambda x: m.get(x.group(1), x.group(0)) if x.group(1) else x.group(0), text)


def strip(text): return re.sub(r'"(?:\\.|[^"\\])*"', '""', text)


def hardened(g, name, rng, names, scope, mode):
    text = g.text(name)
    head, body = text.split('{ pub grammar', 1)
    t = strip(body)
    rules = [r.name for r in g.rules if set(r.name) != {'_'}]
    labels = sorted(set(re.findall(r'(?<![\w:])([a-z]\w*):(?!:)', t)) - set(rules))
    own = [x for x in names if x.startswith('__')]; pool = []
    while len(pool) < len(labels) + len(rules):
        x = rng.choice(own if rng.random() < .75 else names)
        if x not in pool: pool.append(x)
    m = {}
    for l in labels: m[l] = pool.pop() if pool else l + '_'
    for r in rules:
        if rng.random() < .6 and pool: m[r] = pool.pop()
    out = head + '{ pub grammar' + rename(body, m)
    for a, b in ((r'\bVec<', '::std::vec::Vec<'), (r'(?<![\w:])Ok\(', '::core::result::Result::Ok('), (r'(?<![\w:])Err\(', '::core::result::Result::Err('), (r'(?<![\w:])Some\(', '::core::option::Option::Some('), (r'\bOption<', '::core::option::Option<')): out = re.sub(a, b, out)
    h = g.harness(name, mode).replace('%s::top(' % name, 'm%s::%s::%s(' % (name, name, m.get('top', 'top')))
    out = out.replace('peg::parser!', 'realpeg::parser!')
    sc = ['', SHADOW, VARIANTS, SHADOW + VARIANTS][scope]
    return 'pub mod m%s { use ::peg as realpeg; %s\n%s }\n%s\n%s\n' % (name, sc, out, g.refconst(name), h), out, m


PA = lambda: Pat(K.P1); A = lambda: Lit('a'); B = lambda: Lit('b')
nd = lambda *e: Seq(*e, act=('nd',))


def constructs(inner, fwd, bound):
    """every construct, around a use of the probed name"""
    yield Rep(inner(), (1, 2), exact=False)
    yield Rep(PA(), '*')
    yield Rep(inner(), (0, 2), sep=B())
    yield Rep(A(), (None, 2), sep=nd(('z', PA())))
    yield Rep(A(), bound, sep=B()) if bound else Rep(A(), '+')
    yield Opt(inner())
    yield Alt(nd(B(), ('z', inner())), nd(('z2', inner())), nd(('z', A())))
    yield Alt(A(), B())
    yield And(inner())
    yield nd(Not(inner()), ('z', B()))
    yield Slice(nd(inner(), Opt(A())))
    yield Quiet(inner())
    yield Seq(('z', PA()), ('z2', inner()), act=('cond', 0, 'c0'))
    yield Call('wrap2', [inner()])
    yield Call('two', [nd(('z', A()), ('z2', inner())), inner()])
    yield Call('k', [fwd]) if fwd else Call('k', [1])
    yield nd(('z', Call('cc')), ('z2', inner()))
    yield nd(('z', Call('lr')), Opt(inner()))
    yield Prec([[{'kind': 'in', 'assoc': 'l', 'els': [(None, A())]}], [{'kind': 'pre', 'els': [(None, B())]}, {'kind': 'post', 'els': [('z', inner())]}], [{'kind': 'atom', 'els': [('z', inner())]}, {'kind': 'atom', 'els': [('z', PA())]}]])
    yield nd(Meth(0), inner())
    yield nd(('z', Meth(0, custom=True)), PA())
    yield nd(('z', Pos()), ('z2', inner()))
    yield PA()
    yield nd(Pat(K.P2, neg=True), inner())
    yield nd(Pat(K.P2, guard=True), inner())
    yield Alt(Quiet(A()), Exp('thing'))


def probes():
    """grammars in which the name `probe` stands in one role, below and before every construct; each is read by one harness per name"""
    aux = lambda: [Rule('wrap2', nd(('x', Par(0, 'q0')), Opt(A())), params='q0: rule<T>', generics='<T: ToV>'),
                   Rule('two', Alt(nd(('x', Par(0, 'q0')), ('y', Par(1, 'q1'))), nd(('y', Par(1, 'q1')), ('x', Par(0, 'q0')))), params='q0: rule<T>, q1: rule<U>', generics='<T: ToV, U: ToV>'),
                   Rule('k', Seq(('x', PA()), act=('pnum', 0, 'q0')), params='q0: usize'), Rule('cc', nd(('x', PA())), attrs='#[cache]'),
                   Rule('lr', Alt(nd(('x', Call('lr')), A()), nd(('x', PA()))), attrs='#[cache_left_rec]', lrec=True)]
    def gram(role, rules, pub=None, **kw):
        """pub: the probed rules, each tried where the input starts"""
        e = [('y%d' % i, Opt(And(p))) for i, p in enumerate(pub)] + [pub[-1]]
        return Gram([Rule('top', nd(*e))] + rules + aux(), n=1 + (role == 'label' or DEEP), wide=1, no_eof=True, note=role, **kw)
    for role in ('grammar argument', 'value parameter', 'label'):
        v = {'grammar argument': (100, 'probe'), 'value parameter': (0, 'probe'), 'label': (0, 'probe')}[role]
        num = lambda *e: Seq(*e, act=('pnum',) + v)
        at = ('p', v[0], 'probe' + (' as usize' if role == 'label' else ''))
        rules, pub = [], []
        for i, x in enumerate(constructs(lambda: num(PA()), at, (at, None))):
            els = [x] if i % 2 else [('x', x)]
            if role == 'label': e = Seq(('probe', Pat([(0, 3)])), *els, act=('pnum', 0, 'probe'), bind=True)
            else: e = num(*els, Opt(B()))
            if role == 'value parameter': rules.append(Rule('p%d' % i, e, params='probe: usize')); pub.append(Call('p%d' % i, [2]))
            else: rules.append(Rule('p%d' % i, e)); pub.append(Call('p%d' % i))
        yield gram(role, rules, pub, gargs=['probe'] if role[0] == 'g' else [], lim=2)
    rules, pub = [], []
    for i, x in enumerate(constructs(lambda: Par(0, 'probe'), None, None)):
        rules.append(Rule('p%d' % i, nd(x if i % 2 else ('x', x), Opt(B())), params='probe: rule<T>', generics='<T: ToV>')); pub.append(Call('p%d' % i, [nd(('w', PA()))]))
    yield gram('rule parameter', rules, pub)
    for attrs in ('', '#[cache]', '#[cache_left_rec]'):
        rules, pub = [], []
        for i, x in enumerate(constructs(lambda: Call('probe'), None, None)):
            if attrs and i % 3: continue
            rules.append(Rule('p%d' % i, nd(x if i % 2 else ('x', x), Opt(B())))); pub.append(Call('p%d' % i))
        body = Alt(nd(('w', Call('probe')), A()), nd(('w', PA()))) if 'rec' in attrs else Prec([[{'kind': 'in', 'assoc': 'r', 'els': [(None, A())]}], [{'kind': 'atom', 'els': [('w', PA())]}]])
        yield gram('rule ' + attrs, rules + [Rule('probe', body, attrs=attrs, lrec='rec' in attrs)], pub)
    rules, pub = [], []
    op = lambda kind, *els, **k: dict(kind=kind, els=list(els), **k)
    for i, l in enumerate(([[op('in', (None, A()), assoc='l', llab='probe')], [op('in', (None, B()), assoc='r', rlab='probe')]], [[op('pre', ('probe', A())), op('post', ('probe', B()))]], [[op('in', ('probe', A()), assoc='l')], [op('pre', (None, B()), rlab='probe')]], [[op('post', (None, A()), llab='probe')]])):
        for span in (False, True):
            rules.append(Rule('p%d_%d' % (i, span), Prec(l + [[op('atom', ('probe', nd(('z', PA()))))]], span=span))); pub.append(Call('p%d_%d' % (i, span)))
    yield gram('operand', rules, pub[::2]); yield gram('operand, span', rules, pub[1::2], span=True)
    rules, pub = [], []
    for i, x in enumerate(constructs(lambda: Seq(('probe', PA()), act=('nd',)), None, None)):
        if i % 2: rules.append(Rule('p%d' % i, nd(('probe', x), Opt(B())))); pub.append(Call('p%d' % i))
    yield gram('inner label', rules, pub)


def corpus(rng):
    for no_eof in (True, False):
        yield from K.randoms(SEED * 7121 + no_eof, 700 if DEEP else 90, 3, ['v', 's'], no_eof=no_eof, n=3 if DEEP else 2)
        bl, al = lambda: list(c13.bodies()), list(c13.args())
        for _ in range(100 if DEEP else 24):
            g = Gram(c13.used([c13.top(('x', Call('wrap', [rng.choice(al)()]))), c13.wrap(rng.choice(bl()))], c13.AUX()), no_eof=no_eof, n=2, note='parameter')
            if not g.loops(): yield g
        vs = list(c13.values())
        for rules, kw in rng.sample(vs, len(vs) if DEEP else 24):
            kw = dict(dict(n=2), **kw); kw['n'] = min(kw['n'], 3); yield Gram(c13.used(rules, c13.AUX()), no_eof=no_eof, note='value parameter', **kw)
    for rules in c07.templates(lambda i: '#[cache]'): yield Gram(rules, n=3, wide=1, note='cached'), 3 if any(isinstance(x, (And, Not, Quiet)) for r in rules for x in r.e.walk()) else 15
    lr = c08.grams()
    for g, mode in (lr if DEEP else rng.sample(lr, min(len(lr), 14))): g.n = min(g.n, 4); yield g, mode
    fs = list(c09.fams())
    for lv in (fs if DEEP else rng.sample(fs, min(len(fs), 20))):
        sp = rng.random() < .5
        yield Gram([Rule('top', Seq(('x', Call('e')), ('p', Pos()), act=('nd',))), Rule('e', Prec(lv, span=sp), attrs=rng.choice(['', '#[cache]']))], no_eof=rng.random() < .5, n=3, wide=1, span=sp, note='precedence')


def make():
    c = Check('C21', 'grammars of the other corpora with every label, parameter and most rules renamed to names the generated code uses itself, in modules whose items shadow the names of std and the runtime: accept/reject, value, location and expected set as before the renaming',
              'inputs of 2..4 elements, terminals arbitrary partial functions; names taken from the identifiers of translate.rs and a fixed list, assigned with VERIF_SEED; with and without the trace feature')
    rng = random.Random(SEED * 633910099); own, names = hostile()
    c.crate('t', features=['trace'])
    k = 0
    for rd in range(3 if DEEP else 1):
        for g in corpus(rng):
            name = 'g%d' % k; k += 1
            mode = 15
            if isinstance(g, tuple): g, mode = g
            text, out, m = hardened(g, name, rng, names, k % 4, mode)
            c.add('t' if k % 3 == 0 else 'g', name, text, {'grammar': out, 'note': g.note})
    for i, n in enumerate(own + ['__parse_cc', '__parse_top', 'cc_cache', 'top', 'cc', 'r#fn', 'r#type']):
        for j, g in enumerate(probes()):
            if n in ('cc', 'top') and g.note.startswith(('rule', 'value')): continue   # a parameter hides a rule of the same name
            name = 'h%d_%d' % (i, j)
            g.no_eof = j % 3 > 0; text = g.text(name)
            to = lambda t: re.sub(r'\bprobe\b', n, t)
            if g.note.startswith('operand'): text = re.sub(r'\b%s\b' % ['qr', 'ql'][i % 2], 'probe', text)
            head, body = text.split('{ pub grammar', 1)
            text = 'pub mod m%s { use crate::sup; use ::peg;\n%s\n}\n%s\n%s\n' % (name, head + '{ pub grammar' + to(body), g.refconst(name), g.harness(name, 3 if '#' in g.note else 15).replace('%s::top(' % name, 'm%s::%s::top(' % (name, name)))
            c.add('t' if (i + j) % 3 == 0 else 'g', name, text, {'grammar': to(g.text(name)), 'note': g.note + ' named ' + n})
    return c
