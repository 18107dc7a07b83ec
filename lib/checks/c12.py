"""slices and custom inputs"""
from check import Check
from core import TIER, SEED
import corpus as K, long
from gram import *

DEEP = TIER == 'thorough'
PRIM = '''
#[no_mangle] pub extern "C" fn harness_%(h)s() {
    let mut buf = [0u8; 16]; for i in 0..%(n)d { buf[i] = sym::byte(); }
    let s = &buf[..%(n)d];
    let mut lb = [0u8; 16]; let l = ascii(&mut lb, %(m)d);
    let p = sym::pick(%(n)d + 1) as usize; let p2 = sym::pick(%(n)d + 1) as usize; sym::assume(p <= p2);
    use peg::*;
    sym::ck(Parse::start(s) == 0, "a slice does not start at 0");
    sym::ck(Parse::is_eof(s, p) == (p == %(n)d), "end of input misjudged");
    sym::ck(Parse::position_repr(s, p) == p, "positions in slices are element indexes");
    match s.parse_elem(p) {
        RuleResult::Matched(q, c) => { sym::cover(1); sym::ck(p < %(n)d && q == p + 1 && c == s[p], "wrong element") }
        RuleResult::Failed => { sym::cover(2); sym::ck(p == %(n)d, "no element found where there is one") }
    }
    let lw = l.as_bytes(); let mut want = %(n)d - p >= lw.len();
    if want { for k in 0..lw.len() { if s[p + k] != lw[k] { want = false; break; } } }
    match s.parse_string_literal(p, l) {
        RuleResult::Matched(q, ()) => { sym::cover(3); sym::ck(want && q == p + lw.len(), "a literal matched other bytes") }
        RuleResult::Failed => { sym::cover(4); sym::ck(!want, "a literal did not match its own bytes") }
    }
    let t: &[u8] = s.parse_slice(p, p2);
    sym::ck(t.as_ptr() as usize - s.as_ptr() as usize == p && t.len() == p2 - p, "wrong slice");
    // the same over wide elements
    let mut wb = [0u32; 8]; for i in 0..%(n)d { wb[i] = (s[i] as u32) << 9 | 5; }
    let w = &wb[..%(n)d];
    sym::ck(Parse::start(w) == 0 && Parse::is_eof(w, p) == (p == %(n)d) && Parse::position_repr(w, p) == p, "wrong position in a slice of wide elements");
    match w.parse_elem(p) { RuleResult::Matched(q, c) => sym::ck(p < %(n)d && q == p + 1 && c == w[p], "wrong wide element"), RuleResult::Failed => sym::ck(p == %(n)d, "no wide element found") }
    let t: &[u32] = w.parse_slice(p, p2);
    sym::ck(t.as_ptr() as usize - w.as_ptr() as usize == 4 * p && t.len() == p2 - p, "wrong slice of wide elements");
    sym::done()
}
'''
R = RawPat
TOKS = {
    'a': lambda: R('Tok::A', [(0, 0)]),
    'b': lambda: R('Tok::B(_)', [(0x100, 0x1ff)]),
    'b2': lambda: R('Tok::B(3..=9)', [(0x103, 0x109)]),
    'ad': lambda: R('Tok::A | Tok::D', [(0, 1)]),
    'c': lambda: R('Tok::C { x: 5 } | Tok::C { x: 10..=20 }', [(0x205, 0x205), (0x20a, 0x214)]),
    'nb': lambda: R('^ Tok::B(_)', [(0x100, 0x1ff)], neg=True),
    'guard': lambda: R('Tok::B(n) if n > 7', [(0x108, 0x1ff)]),
    'nguard': lambda: R('^ Tok::B(n) if n > 7', [(0x108, 0x1ff)], neg=True),
    'any': lambda: R('_', [(0, 0xffffffff)]),
    'cap': lambda: Seq(('', R('Tok::B(n)', [(0x100, 0x1ff)])), act=('cap', 'n', 255)),
    'cap2': lambda: Seq(('', R('Tok::C { x: y }', [(0x200, 0x2ff)])), act=('cap', 'y', 255)),
    'capg': lambda: Seq(('', R('Tok::C { x } if x > 7', [(0x208, 0x2ff)])), act=('cap', 'x', 255)),
}
WORDS = {
    'w1': lambda: R('0x1234', [(0x1234, 0x1234)]),
    'w2': lambda: R('0..=255 | 0x8000..=0xffff', [(0, 255), (0x8000, 0xffff)]),
    'w3': lambda: R('^ 0xff00..=0xfffe', [(0xff00, 0xfffe)], neg=True),
    'w4': lambda: R('c if c >= 700', [(700, 65535)]),
}
BYTES = {
    'p1': lambda: Pat([(0, 9), (200, 255)]), 'p2': lambda: Pat([(97, 122)], neg=True), 'l1': lambda: Lit('a'), 'l2': lambda: Lit('ab'), 'l3': lambda: Lit('aba'), 'le': lambda: Lit(''),
    'lu': lambda: Lit('\u00e9'), 'any': lambda: Pat([], any=True), 'b': lambda: R("b'a'..=b'c' | b'\\n'", [(97, 99), (10, 10)]),
}
WRAP = {
    'seq': lambda a, y: Seq(('x', a), ('q', Pos()), act=('nd',)),
    'star': lambda a, y: Rep(a, '*'),
    'plus': lambda a, y: Seq(('x', Rep(a, '+')), ('y', Opt(y())), act=('nd',)),
    'slice': lambda a, y: Slice(Rep(a, '*')),
    'slice1': lambda a, y: Seq(y(), ('x', Slice(Seq(a, Opt(y())))), act=('nd',)),
    'not': lambda a, y: Rep(Seq(Not(a), ('x', y()), act=('nd',)), '*'),
    'and': lambda a, y: Seq(('x', And(a)), ('y', Slice(Rep(y(), '+'))), act=('nd',)),
    'alt': lambda a, y: Rep(Alt(Seq(('x', Slice(a)), act=('nd',)), Seq(('x', y()), act=('nd',))), '*'),
    'sep': lambda a, y: Rep(a, '*', sep=y()),
    'sepe': lambda a, y: Rep(y(), '+', sep=a),
    'quiet': lambda a, y: Alt(Quiet(Seq(a, y())), Exp('thing')),
    'rep': lambda a, y: Seq(('x', Rep(a, (1, 2))), ('z', Rep(y(), '*')), act=('nd',)),
}


def make():
    c = Check('C12', '[u8], [T] and token-slice inputs: elements, patterns (ranges, alternatives, guards, captured variables, inverted), byte literals, sub-slices and positions agree with the reference for every content; the runtime primitives at every position',
              'slices of 0..4 arbitrary elements (bytes, 16-bit words, a 4-variant token enum with payload)')
    for n in range(0, 5 + DEEP):
        for m in range(0, 4): c.add('g', 'p%d_%d' % (n, m), PRIM % {'h': 'p%d_%d' % (n, m), 'n': n, 'm': m}, {'note': '[u8] primitives'})
    for inp, atoms, anyp in (('toks', TOKS, lambda: R('_', [(0, 0xffffffff)])), ('words', WORDS, lambda: R('_', [(0, 0xffffffff)])), ('bytes', BYTES, lambda: Pat([], any=True))):
        for wn, w in WRAP.items():
            for an, a in atoms.items():
                x = w(a(), anyp)
                ctx = 'u' if wn == 'quiet' else 'v'
                top = Seq(('x', x), ('p', Pos()), act=('nd',)) if ctx == 'v' else Seq(x, ('p', Pos()), act=('nd',))
                for n in (0, 2, 3) if not DEEP else (0, 1, 2, 3, 4):
                    g = Gram([Rule('top', top)], inp=inp, n=n, no_eof=n == 2, note='%s(%s)' % (wn, an))
                    if g.loops(): continue
                    c.gram(g, 15)
    long.add(c, long.repeats(long.by, inp='bytes'), 15)
    long.add(c, [x for x in long.errors(long.by, inp='bytes') if x.note != 'deep recursion'], 15)
    return c
