"""values: actions, labels, captures, positions, slices"""
from check import Check
from core import TIER, SEED
import corpus as K, long
from gram import *

DEEP = TIER == 'thorough'


def make():
    c = Check('C03', 'for every grammar of the corpus and every accepted input, the value returned equals the value the grammar means', 'inputs of 3 elements, terminals arbitrary partial functions of width 1..2')
    gs = K.nest(K.NONREP, list(K.ATOMS) + list(K.UN), ['v'], no_eof=True, n=3)
    gs += K.nest(K.NONREP, list(K.ATOMS) + K.NONREP, ['s'], no_eof=True, n=3)
    gs += K.randoms(SEED * 15485863, 1500 if DEEP else 250, 4 if DEEP else 3, ['v', 's'], no_eof=True, n=4 if DEEP else 3)
    gs += K.recursive(n=5 if DEEP else 4)
    for g in gs: c.gram(g, 2)
    long.add(c, long.values(), 2)
    return c
