"""str input: UTF-8"""
from check import Check
from core import TIER, SEED
import corpus as K, long
from gram import *

DEEP = TIER == 'thorough'


def ch(*r, neg=False, guard=False): return Pat([(x, x) if isinstance(x, int) else x for x in r], kind='char', neg=neg, guard=guard)


ANY = lambda: Pat([], any=True, kind='char')
ATOMS = {
    'any': ANY,
    'ascii': lambda: ch((0, 127)),
    'lower': lambda: ch((97, 122), 95),
    'two': lambda: ch((0x80, 0x7ff)),
    'three': lambda: ch((0x800, 0xffff) if 0 else (0x800, 0xd7ff)),
    'four': lambda: ch((0x10000, 0x10ffff)),
    'one_two': lambda: ch(0xe9),
    'nnl': lambda: ch(10, neg=True),
    'nrange': lambda: ch((0x61, 0x100), neg=True),
    'guard': lambda: ch((0x30, 0x39), (0x660, 0x669), guard=True),
    'lit1': lambda: Lit('a'),
    'lit2': lambda: Lit('\u00e9'),
    'lit3': lambda: Lit('\u20ac'),
    'lit4': lambda: Lit('\U0001f600'),
    'litm': lambda: Lit('a\u00e9'),
    'lite': lambda: Lit(''),
    'litq': lambda: Lit('a"b\\'),
    'esc': lambda: Lit('A\u00e9', '"\\x41\\u{e9}"'),
    'esc2': lambda: Lit('\n', '"\\n"'),
    'raw': lambda: Lit('\\n', 'r"\\n"'),
    'rawh': lambda: Lit('"a', 'r#""a"#'),
    'cont': lambda: Lit('ab', '"a\\\n   b"'),
    'nul': lambda: Lit('\0', '"\\0"'),
    'tab': lambda: Lit('\t\r', '"\\t\\r"'),
}
WRAP = {
    'seq': lambda a: Seq(('x', a), ('q', Pos()), act=('nd',)),
    'star': lambda a: Rep(a, '*'),
    'plusany': lambda a: Seq(('x', Rep(a, '+')), ('y', Opt(ANY())), act=('nd',)),
    'slice': lambda a: Slice(Rep(a, '*')),
    'slice1': lambda a: Seq(ANY(), ('x', Slice(Seq(a, Opt(ANY())))), act=('nd',)),
    'not': lambda a: Rep(Seq(Not(a), ('x', ANY()), act=('nd',)), '*'),
    'and': lambda a: Seq(('x', And(a)), ('y', Slice(Rep(ANY(), '+'))), act=('nd',)),
    'alt': lambda a: Rep(Alt(Seq(('x', Slice(a)), act=('nd',)), Seq(('x', Slice(ANY())), act=('nd',))), '*'),
    'sep': lambda a: Rep(a, '*', sep=ANY()),
    'sepe': lambda a: Rep(ANY(), '+', sep=a),
    'opt': lambda a: Seq(('x', Opt(a)), ('y', Opt(ANY())), act=('nd',)),
}

PRIM = '''
#[no_mangle] pub extern "C" fn harness_%(h)s() {
    // the primitives of str input, called at an arbitrary character boundary of arbitrary text, with an arbitrary literal
    let mut buf = [0u8; 16]; let mut lb = [0u8; 16];
    let s = utf8(&mut buf, %(n)d); let l = utf8(&mut lb, %(m)d);
    let p = sym::pick(%(n)d + 1) as usize; let p2 = sym::pick(%(n)d + 1) as usize;
    let bound = |p: usize| p == s.len() || (s.as_bytes()[p] & 0xc0) != 0x80;
    sym::assume(bound(p)); sym::assume(bound(p2)); sym::assume(p <= p2);
    use peg::*;
    sym::ck(Parse::start(s) == 0, "text does not start at 0");
    sym::ck(Parse::is_eof(s, p) == (p == s.len()), "end of input misjudged");
    let i = RStr(s.as_bytes());
    match (s.parse_elem(p), i.elem(p)) {
        (RuleResult::Matched(q, c), Some((r, d))) => { sym::cover(1); sym::ck(q == r && c as u32 == d, "wrong character") }
        (RuleResult::Failed, None) => sym::cover(2),
        _ => sym::fail("a character is found exactly when one is there"),
    }
    let lw = l.as_bytes();
    let mut want = s.len() - p >= lw.len();
    if want { for k in 0..lw.len() { if s.as_bytes()[p + k] != lw[k] { want = false; break; } } }
    match s.parse_string_literal(p, l) {
        RuleResult::Matched(q, ()) => { sym::cover(3); sym::ck(want && q == p + lw.len(), "a literal matched other text") }
        RuleResult::Failed => { sym::cover(4); sym::ck(!want, "a literal did not match its own text") }
    }
    let t = s.parse_slice(p, p2);
    sym::ck(t.as_ptr() as usize - s.as_ptr() as usize == p && t.len() == p2 - p, "wrong slice");
    sym::done()
}
'''


def make():
    c = Check('C10', 'str parsers over every valid UTF-8 text of the stated byte lengths: characters, literals and slices are matched as the Unicode tables say, never inside a character, never panicking; the runtime primitives at every boundary with an arbitrary literal',
              'text of 0..5 bytes (every valid UTF-8 string of that length); literals of 0..4 arbitrary bytes in the primitive harnesses')
    for n in range(0, 5 + DEEP):
        for m in range(0, 5):
            h = 'p%d_%d' % (n, m)
            if m > n + 1: continue
            c.add('g', h, PRIM % {'h': h, 'n': n, 'm': m}, {'note': 'str primitives, %d bytes, literal %d bytes' % (n, m)})
    for wn, w in WRAP.items():
        for an, a in ATOMS.items():
            x = w(a())
            top = [Rule('top', Seq(('x', x), ('p', Pos()), act=('nd',)))]
            g = Gram(top, inp='str', full=True, n=3)
            if g.loops(): continue
            for n in ((0, 1, 2, 3, 4) if not DEEP else (0, 1, 2, 3, 4, 5)):
                if n >= 4 and not DEEP and wn in ('not', 'alt', 'sep', 'sepe') and an not in ('four', 'lit4', 'any'): continue
                c.gram(Gram(top, inp='str', full=True, n=n, no_eof=n % 2 == 1, note='%s(%s)' % (wn, an)), 15)
    # longer text for the forms where it matters
    for wn in ('slice1', 'and', 'star'):
        for an in ('four', 'lit4', 'any', 'two', 'lit3'):
            c.gram(Gram([Rule('top', Seq(('x', WRAP[wn](ATOMS[an]())), ('p', Pos()), act=('nd',)))], inp='str', full=True, n=5, note='%s(%s)' % (wn, an)), 15)
    long.add(c, long.text(), 15)
    return c
