"""Small strategy helpers shared by the checks (all produce JSON data)."""
import hypothesis.strategies as st


_DIGIT = st.integers(0, 1000)


def fl(lo: float, hi: float, steps: int = 0):
    """Floats spread evenly over [lo, hi].

    hypothesis' floats() prefers short ones and integers() over a range of more
    than about a thousand values prefers small ones, so two small digits it is.
    """
    span = hi - lo
    if steps > 1000:  # quantised, on an even grid
        return st.tuples(_DIGIT, _DIGIT).map(lambda t: lo + span * (round((t[0] * 1001 + t[1]) / 1002000 * steps) / steps))
    if steps:
        return st.integers(0, steps).map(lambda k: lo + span * (k / steps))
    return st.tuples(_DIGIT, _DIGIT).map(lambda t: lo + span * ((t[0] * 1001 + t[1]) / 1002000))


def ff(lo: float, hi: float):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def mixed(lo: float, hi: float, *special: float):
    opts = [fl(lo, hi), fl(lo, hi), ff(lo, hi)]
    if special:
        opts.append(st.sampled_from(list(special)))
    return st.one_of(*opts)
