"""Q01: building and reshaping signals keeps the function they denote."""
import reshape


def check(P, c):
    c.rule = ("on every path of every constructor, append, resize, simplify, shift and closing operation of Signal the samples left are exactly those of the "
              "definition: kept samples unchanged, cut segments continued with their own line, removed samples outside the window or on the line before them, "
              "added samples the default, and the span as asked.")
    c.guard(reshape.check_build, P, c)
