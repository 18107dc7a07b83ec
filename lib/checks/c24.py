"""the generated module exposes the pub rules, with the interface that was written, and nothing else"""
from check import Check
from core import TIER, SEED, VERIF
import front, random
from checks import c17

DEEP = TIER == 'thorough'
H = '#[no_mangle] pub extern "C" fn harness_%(h)s() { sym::log(%(k)d); %(body)s }'
GL = dict(doc=3, vis=4, lt=4, inp=10, uses=12)
RL = dict(doc=3, cache=3, no_eof=2, vis=4, gp=8, ret=11, wh=7)
XN = ['ra', 'rb', 'rc', 'grammar', '_x', 'parse']


def make():
    c = Check('C24', 'the grammar parser and compile_grammar of the macro, run on grammars with symbolic headers: the expansion is one module of the written name, visibility and documentation; its visible items are exactly one function per pub rule, with the written name, documentation, visibility, generics, parameters (those of the grammar first), return type and where clause; use declarations are kept',
              'every pair of values of 2 of the 5 parts of a grammar header and 7 of a rule header (tables of 2..12 values each), the others drawn with VERIF_SEED; 1..12 rules, 0..6 parameters')
    k = front.crate(c, 'm')
    k.pre['*'] = k.pre['*'].replace('#[path = "front.rs"] pub mod front;\nuse front::*;\n', c17.MOD)
    with open(VERIF + '/harness/syn.rs') as f: k.extra['syn.rs'] = f.read()
    rng = random.Random(SEED * 15485863); n = [0]
    def add(body, note, w=1):
        h = 's%d' % n[0]; n[0] += 1
        c.add('m', h, H % {'h': h, 'k': n[0], 'body': body}, {'note': note}, {'max-depth': 2000, 'weight': w})
    def grammar(nr, symb):
        """symb: parts with a symbolic value, as (rule or None, part)"""
        val = lambda r, p, m: 'sym::pick(%d) as usize' % m if (r, p) in symb else str(rng.choice([0, 0, rng.randrange(m)]) if p != 'vis' else rng.randrange(m))
        G = ', '.join(val(None, p, GL[p]) for p in GL)
        ga = [rng.randrange(10) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        rs = []
        for i in range(nr):
            f = {p: val(i, p, RL[p]) for p in RL}
            plain = f['cache'] != '0'   # caches and rule parameters of pub rules are misuse (C20)
            if plain: f['gp'] = '0'
            if f['vis'] == '0': f['no_eof'] = '0'
            np = 0 if plain else rng.choice([0, 0, 1, 2, 6])
            ps = ', '.join('(%d, %s)' % (rng.randrange(10), 'true' if f['vis'] == '0' and rng.random() < .5 else 'false') for _ in range(np))
            ne = f.pop('no_eof')
            rs.append('{ let mut r = syn::Xr { name: %s, no_eof: %s != 0, ps: vec![%s], %s }; if r.vis == 0 { r.no_eof = false } if r.cache != 0 { r.gp = 0; r.ps = vec![]; } r }' % ('syn::XN[%d]' % (i % 6) if nr < 7 else '["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11"][%d]' % i, ne, ps, ', '.join('%s: %s' % kv for kv in f.items())))
        return 'let rs = [%s]; syn::exports([%s], &[%s], &rs)' % (', '.join(rs), G, ', '.join(map(str, ga)))
    for nr in (1, 2, 3):
        parts = [(None, p) for p in GL] + [(i, p) for i in range(nr) for p in RL]
        pairs = [(a, b) for x, a in enumerate(parts) for b in parts[:x] if (GL if a[0] is None else RL)[a[1]] * (GL if b[0] is None else RL)[b[1]] <= (200 if DEEP else 60)]
        for s in pairs if nr == 1 or DEEP else rng.sample(pairs, 50): add(grammar(nr, s), '%d rules, %s' % (nr, s), 2)
    for nr in (6, 12):
        for _ in range(40 if DEEP else 6): add(grammar(nr, [(rng.randrange(nr), 'vis'), (rng.randrange(nr), 'vis'), (rng.randrange(nr), 'doc')]), '%d rules' % nr, 2)
    c.expect_covers |= {1, 2, 3}
    return c
