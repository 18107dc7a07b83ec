"""repetition: bounds, greediness, separators"""
from check import Check
from core import TIER, SEED
import corpus as K, long
from gram import *

DEEP = TIER == 'thorough'


def make():
    c = Check('C02', 'for every repetition form over every kind of element and separator, match/no match, end and collected values agree with the reference', 'inputs of 4 elements, terminals arbitrary partial functions of width 1..2, bounds 0..3 in every spelling')
    inner = list(K.ATOMS) + ['opt', 'and', 'not', 'slice', 'quietx', 'call', 'param', 'seqc', 'altLv', 'seqM'] + K.REPS[:16]
    n = 5 if DEEP else 4
    gs = K.nest(K.REPS, inner, ['s', 'u'], no_eof=False, n=n)
    gs += K.nest(K.REPS, ['lit', 'pat', 'rulev', 'act'], ['v'], no_eof=True, n=n + 1, wide=1)
    gs += K.randoms(SEED * 104729, 1000 if DEEP else 100, 3, ['v', 'u', 's'], ops=K.REPS, no_eof=False, n=3)
    for g in gs: c.gram(g, 1 | 2 | 16)
    long.add(c, long.repeats(), 19)
    return c
