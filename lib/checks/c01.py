"""which inputs match, and where the match ends"""
from check import Check
from core import TIER, SEED
import corpus as K, long
from gram import *

DEEP = TIER == 'thorough'


def make():
    c = Check('C01', 'for every grammar of the corpus, the generated parser and the reference interpreter agree on accept/reject and on the end of the match for every behaviour of the terminals over inputs of the stated length', 'inputs of 3 elements (recursive grammars 4), every terminal an arbitrary partial function from positions to lengths 1..2, patterns over all 256 element values, conditions an arbitrary predicate; grammars: every operator over every operator/atom, random nestings of depth 3')
    gs = K.nest(K.NONREP, list(K.ATOMS) + K.NONREP + K.BASEREP, ['s', 'u'], no_eof=False, n=3)
    gs += K.randoms(SEED * 7919, 1500 if DEEP else 200, 4 if DEEP else 3, ['v', 'u', 's'], no_eof=False, n=4 if DEEP else 3)
    gs += K.recursive(n=5 if DEEP else 4)
    for g in gs: c.gram(g, 1 | 16)
    long.add(c, long.rejected(), 17)
    long.add(c, long.choices(), 17)
    return c
