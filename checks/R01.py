"""Printed formulas read back as the same formula."""
from printing import *


def check(P, c):
    c.rule = ("the text every node class prints, with names, numbers and operands' texts as holes, is cut by the scanner's automaton into one token sequence in every context, and the LALR tables reduce that sequence, in every "
              "parser state where it can be reached and before every token that can follow, to a node of the same class with the same operands, interval, comparison, name and number.")
    c.guard(printing, P, c)
