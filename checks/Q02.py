"""Q02: time robustness is the signed distance to the nearest change of truth value."""
import reshape


def check(P, c):
    c.rule = ("in every abstract case (signs of value, slope and value at the segment's end) the boolean view gets exactly the changes of truth value, and every change "
              "gives one sample of the time robustness with value and slope of the signed distance to the previous (left) or next (right) change.")
    c.guard(reshape.check_time, P, c)
    # the boolean view keeps exactly its changes because simplification does
    c.guard(reshape.simplify, P, c)
