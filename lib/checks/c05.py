"""what a failed parse reports as expected"""
from check import Check
from core import TIER, SEED
import corpus as K, long
from checks import c18
from gram import *

DEEP = TIER == 'thorough'


def make():
    c = Check('C05', 'for every grammar of the corpus and every rejected input, the expected set is exactly the set of tokens whose matching failed at the furthest position outside quiet!/lookahead', 'inputs of 3 elements, terminals arbitrary partial functions of width 1..2')
    gs = K.nest(list(K.UN), list(K.ATOMS) + K.NONREP, ['s'], no_eof=False, n=3)
    gs += K.nest(['not', 'and', 'quiet', 'quietx', 'slice', 'call', 'param', 'opt', 'altL', 'altLv', 'alt3', 'seqc'], list(K.ATOMS) + list(K.UN), ['u', 'v'], no_eof=False, n=3)
    gs += K.randoms(SEED * 49979687, 1500 if DEEP else 200, 4 if DEEP else 3, ['v', 'u', 's'], no_eof=False, n=4 if DEEP else 3)
    gs += K.recursive(n=5 if DEEP else 4)
    for g in gs: c.gram(g, 8)
    # tokens that are prefixes of each other, failures in any order
    c.crate('f', edition='2021').pre['*'] = c18.PRE
    c18.add(c, 'f', 200 if DEEP else 40, SEED * 15487473)
    long.add(c, long.errors(), 8)
    long.add(c, long.choices(), 8)
    return c
