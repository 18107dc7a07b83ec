"""where a failed parse is reported"""
from check import Check
from core import TIER, SEED
import corpus as K, long
from checks import c18
from gram import *

DEEP = TIER == 'thorough'


def make():
    c = Check('C04', 'for every grammar of the corpus and every rejected input, the location of the error is the furthest position at which a terminal that counts was tried and failed', 'inputs of 3 elements, terminals arbitrary partial functions of width 1..2')
    gs = K.nest(list(K.UN), list(K.ATOMS) + K.NONREP, ['s'], no_eof=False, n=3)
    gs += K.nest(['not', 'and', 'quiet', 'quietx', 'slice', 'call', 'param', 'opt', 'altL', 'altLv', 'alt3'], list(K.ATOMS) + list(K.UN), ['u', 'v'], no_eof=False, n=3)
    gs += K.randoms(SEED * 32452843, 1500 if DEEP else 200, 4 if DEEP else 3, ['v', 'u', 's'], no_eof=False, n=4 if DEEP else 3)
    gs += K.recursive(n=5 if DEEP else 4)
    for g in gs: c.gram(g, 4)
    # tokens that are prefixes of each other, failures in any order
    c.crate('f', edition='2021').pre['*'] = c18.PRE
    c18.add(c, 'f', 200 if DEEP else 40, SEED * 15487471)
    long.add(c, long.errors(), 4)
    return c
