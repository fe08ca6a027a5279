from ..tpl import *
from .. import textread
from ..printing import make

BOUNDS = ("55 forms of leaf expression and 41 ways of wrapping one, all pairs; a seeded selection of double wrappings, of sums, products and quotients of two or three leaves, and of wrapped pairs; every coefficient, exponent and base is an arbitrary rational, "
          "except exponents of constants (numerator up to 4 over 3 or 4) and those listed as integers up to 3 in magnitude; decimals are 0.25, 0.5, 1.5, 4 and their negatives")

PER = {"quick": 2.5, "thorough": 15}

def templates(tier):
    return make(tier, textread.ReprReader, repr, "repr")
