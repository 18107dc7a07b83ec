"""line and column of reported locations"""
from check import Check
from core import TIER, SEED
import corpus as K
from gram import *

DEEP = TIER == 'thorough'
H = '''
#[no_mangle] pub extern "C" fn harness_%(h)s() {
    let mut buf = [0u8; 16];
    let s = %(mk)s(&mut buf, %(n)d);
    let p = sym::pick(%(n)d + 1) as usize;
    let b = s.as_bytes();
    sym::assume(p == b.len() || (b[p] & 0xc0) != 0x80);
    let lc = peg::Parse::position_repr(s, p);
    // line feeds before p, and characters (not bytes) since the last of them
    let (mut line, mut col) = (1usize, 1usize);
    for k in 0..p { if b[k] == 10 { line += 1; col = 1; } else if (b[k] & 0xc0) != 0x80 { col += 1; } }
    sym::ck(lc.offset == p, "wrong offset");
    sym::ck(lc.line == line, "wrong line");
    sym::ck(lc.column == col, "wrong column");
    sym::log(lc.line as u64); sym::log(lc.column as u64);
    %(more)s
    sym::done()
}
'''
FAR = '''
#[no_mangle] pub extern "C" fn harness_%(h)s() {
    // far into a text: a fixed beginning, then arbitrary characters
    let mut buf = [0u8; 16];
    let m = utf8(&mut buf, %(n)d); let pre: String = [%(unit)s; %(times)d].concat();
    let (l0, c0) = (%(l0)s, %(c0)s);
    let mut t: Vec<u8> = Vec::with_capacity(pre.len() + %(n)d); t.extend_from_slice(pre.as_bytes()); t.extend_from_slice(m.as_bytes());
    let s = unsafe { std::str::from_utf8_unchecked(&t) };
    let k = sym::pick(%(n)d + 1) as usize; let b = s.as_bytes(); let p = pre.len() + k;
    sym::assume(p == b.len() || (b[p] & 0xc0) != 0x80);
    let lc = peg::Parse::position_repr(s, p);
    let (mut line, mut col) = (l0 as usize, c0 as usize);
    for k in pre.len()..p { if b[k] == 10 { line += 1; col = 1; } else if (b[k] & 0xc0) != 0x80 { col += 1; } }
    sym::ck(lc.offset == p, "wrong offset far into the text"); sym::ck(lc.line == line, "wrong line far into the text"); sym::ck(lc.column == col, "wrong column far into the text");
    let (lc_line, lc_col) = (sym::conc(line as u64), sym::conc(col as u64));
    sym::ck(lc.to_string() == format!("{}:{}", lc_line, lc_col), "displayed differently from line:column");
    sym::done()
}
'''
SHOW = '''
    let text = format!("{}", lc); let want = [b'0' + sym::conc(line as u64) as u8, b':', b'0' + sym::conc(col as u64) as u8];
    sym::ck(text.len() == 3 && text.as_bytes()[0] == want[0] && text.as_bytes()[1] == want[1] && text.as_bytes()[2] == want[2], "displayed differently from line:column");
'''
G = '''
peg::parser!{ grammar %(h)sg() for str {
    pub rule top() = %(e)s
}}
#[no_mangle] pub extern "C" fn harness_%(h)s() {
    // the location a parser reports agrees with the text before its offset
    let mut buf = [0u8; 16];
    let s = %(mk)s(&mut buf, %(n)d); let b = s.as_bytes();
    match %(h)sg::top(s) {
        Ok(()) => sym::cover(1),
        Err(e) => {
            sym::cover(2);
            let p = e.location.offset; sym::ck(p <= b.len(), "location outside the input"); sym::log(p as u64);
            let (mut line, mut col) = (1usize, 1usize);
            for k in 0..p { if b[k] == 10 { line += 1; col = 1; } else if (b[k] & 0xc0) != 0x80 { col += 1; } }
            sym::ck(e.location.line == line, "wrong line in a parse error"); sym::ck(e.location.column == col, "wrong column in a parse error");
            %(off)s
        }
    }
    sym::done()
}
'''


def make():
    c = Check('C11', 'line, column and offset of every character boundary of every text of the stated lengths, against a direct count of line feeds and characters; the same for the locations parsers report',
              'every valid UTF-8 text of up to 6 bytes, every ASCII text of up to 10 bytes, every boundary')
    for n in range(0, (8 if DEEP else 7)): c.add('g', 'u%d' % n, H % {'h': 'u%d' % n, 'n': n, 'mk': 'utf8', 'more': SHOW if n <= 5 else ''}, {'note': 'utf8 %d' % n}, {'weight': 2 if n > 4 else 1})
    for n in range(7, (15 if DEEP else 11)): c.add('g', 'a%d' % n, H % {'h': 'a%d' % n, 'n': n, 'mk': 'ascii', 'more': ''}, {'note': 'ascii %d' % n}, {'weight': 2})
    es = {'lines': ("['a' | '\\n']*", "if p < b.len() { sym::ck(b[p] != b'a' && b[p] != b'\\n', \"not the first offending character\"); } for k in 0..p { sym::ck(b[k] == b'a' || b[k] == b'\\n', \"an earlier character offends\"); }"),
          'any': ("[_] [_] \"\\n\"", ""), 'noteof': ("([^ '\\n' | '\\u{e9}'] / \"\\n\")*", ""), 'neg': ("(!\"\\n\" [_])* \"\\n\" [^ 'x']+", ""), 'crlf': ('("a" / "\\r\\n")*', "")}
    for k, (e, off) in es.items():
        for n in range(1, 5 + DEEP): h = 'g%s%d' % (k, n); c.add('g', h, G % {'h': h, 'e': e, 'n': n, 'mk': 'utf8', 'off': off}, {'note': e})
        for n in range(5, 8): h = 'g%s%d' % (k, n); c.add('g', h, G % {'h': h, 'e': e, 'n': n, 'mk': 'ascii', 'off': off}, {'note': e})
    for j, (unit, l0, c0, m) in enumerate((('"x"', 1, '{t} + 1', 1), ('"\\n"', '{t} + 1', 1, 1), ('"\u00e9"', 1, '{t} + 1', 1), ('"a\\n\u20ac"', '{t} + 1', 2, 1), ('"\\r\\n"', '{t} + 1', 1, 1), ('"\\t\U0001f600"', 1, '2 * {t} + 1', 1))):
        for t in (254, 65534 // (1 + (j > 2))):
            h = 'far%d_%d' % (j, t)
            c.add('g', h, FAR % {'h': h, 'n': 3 if t < 999 else 2, 'unit': unit, 'times': t, 'l0': str(l0).format(t=t), 'c0': str(c0).format(t=t)}, {'note': 'far into a text'}, {'weight': 2, 'max-instr': 400000000})
    return c
