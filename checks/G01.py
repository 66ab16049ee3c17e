"""G01: the formula built is the one written."""
import formula_text


def check(P, c):
    c.rule = ("every parser production builds exactly the node its text denotes from its own operands (semantic actions run symbolically, the grammar recovered from the LALR tables); "
              "the tables group unary operators and until tighter than the connectives and arithmetic conventionally; the scanner's automaton accepts exactly the documented spellings "
              "(product with the specification's automaton) and maps each to its token; names are resolved in the documented order; an unknown name is an error.")
    c.guard(formula_text.actions, P, c)
    c.guard(formula_text.grouping, P, c)
    c.guard(formula_text.spelling, P, c)
    c.guard(formula_text.entry, P, c)
