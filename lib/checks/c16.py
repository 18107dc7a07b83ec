"""loop-nullability analysis"""
from check import Check
import front
from checks import c15


def make():
    c = Check('C16', 'the loop analysis of the macro, run on symbolically chosen grammars: an unbounded repetition is rejected exactly when its body and separator (if any) can match without consuming', 'as C15')
    front.crate(c, 'm')
    c15.spaces(c, 'false, true')
    return c
