"""M01: every heap object has one owner that releases it once."""
import mem


def check(P, c):
    c.rule = ("on every path of every function that allocates, deletes or receives a fresh object: what is allocated or cloned is deleted, stored or returned, nothing is deleted twice or used after it was deleted, "
              "what was deleted is no longer referred to, and an owned object is released before it is replaced; each formula node deletes each pointer it owns exactly once over its destructor chain, "
              "and what is deleted through a base class has a virtual destructor there; each grammar production deletes or hands on every text, map, interval and formula among its operands, also when it refuses the text, "
              "and symbols discarded after a syntax error release what they carry.")
    c.guard(mem.check, P, c)
