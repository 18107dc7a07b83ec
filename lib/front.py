"""Harness crate over the macro's own sources (analysis, tokens, grammar, translate)."""
import os, re
from core import VERIF, REPO

def mods():
    """the modules of the macro crate"""
    with open(REPO + '/peg-macros/lib.rs') as f: t = f.read()
    return [m for m in re.findall(r'^\s*(?:pub(?:\([a-z]+\))? )?mod (\w+);', t, re.M)]


MODS = '''
extern crate proc_macro2; extern crate quote;
%s
#[path = "front.rs"] pub mod front;
use front::*;
''' % '\n'.join('#[path = "%s/peg-macros/%s.rs"] pub mod %s;' % (REPO, m, m) for m in mods())
DEPS = 'proc-macro2 = "=1.0.93"\nquote = "=1.0.38"'


def crate(c, name, extra='', **kw):
    k = c.crate(name, deps=DEPS, internal=True, **kw)
    k.pre['*'] = MODS + extra
    with open(os.path.join(VERIF, 'harness', 'front.rs')) as f: k.extra['front.rs'] = f.read()
    return k
