"""Generators shared by the checks. Every strategy yields plain JSON data."""
import string

from hypothesis import strategies as st

WORD = string.ascii_letters + string.digits
PRINTABLE = ''.join(chr(c) for c in range(33, 127))


def sp(min_size=1, max_size=3, tabs=True):
    """A run of blanks."""
    return st.text(' \t' if tabs else ' ', min_size=min_size, max_size=max_size)


def words(alphabet=string.ascii_letters, min_size=1, max_size=8):
    return st.text(alphabet, min_size=min_size, max_size=max_size)


def comment_text(exclude='#\n\r', max_size=20):
    """Free text without surrounding blanks."""
    alphabet = ''.join(c for c in PRINTABLE + ' ' if c not in exclude)
    short = st.text(alphabet, max_size=max_size)
    # longer than the widths that files are cut to
    long = st.builds(lambda text, times: (text + ' ') * times, st.text(alphabet, min_size=1, max_size=max_size), st.sampled_from([3, 9, 27]))
    return st.one_of(*[short] * 7, long).map(str.strip)


def fixed(decimals, bound):
    """A float that is exact in `decimals` decimals, as a Python float."""
    scale = 10 ** decimals
    return st.one_of(
        st.integers(-bound * scale, bound * scale), st.integers(-20, 20), st.sampled_from([0, scale, -scale, scale // 2])
    ).map(lambda i: i / scale)


@st.composite
def distinct_fixed(draw, n, decimals=4, bound=90):
    """n floats that all differ, so that a swapped index shows."""
    base = draw(st.integers(0, 10**6))
    step = draw(st.integers(1, 997))
    sign = draw(st.sampled_from([1, -1]))
    scale = 10 ** decimals
    modulus = bound * scale * 2 + 1
    return [sign * ((base + i * (step * 2 + 1) * 7919) % modulus - bound * scale) / scale for i in range(n)]


class Filler:
    """Deterministic stream of distinct numbers, seeded by a drawn integer: large arrays cost one draw. For some seeds many numbers are zero or equal."""

    def __init__(self, seed):
        self.state = (seed * 2654435761 + 12345) % (1 << 61)
        self.zeros = {11: 2, 13: 12, 14: 1}.get(seed % 32)  # one number of this many is zero
        self.values = {17: 3, 19: 2, 20: 1}.get(seed % 32)  # there are only so many different numbers

    def integer(self, low, high):
        self.state = (self.state * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return low + (self.state >> 20) % (high - low + 1)

    def fixed(self, decimals=4, bound=90):
        scale = 10 ** decimals
        if self.zeros and self.integer(1, self.zeros) == 1:
            return 0.0
        if self.values:
            return (0.5, -0.25, 0.75)[self.integer(1, self.values) - 1] * bound
        return self.integer(-bound * scale, bound * scale) / scale

    def magnitude(self, decimals=4, bound=90):
        """Not negative."""
        return abs(self.fixed(decimals, bound))

    def positive(self, decimals=4, bound=90):
        scale = 10 ** decimals
        return self.integer(1, bound * scale) / scale

    def array(self, shape, decimals=4, bound=90):
        if not shape:
            return self.fixed(decimals, bound)
        return [self.array(shape[1:], decimals, bound) for _ in range(shape[0])]


seeds = st.integers(0, 10**6)

# sizes around which counters, columns and buffers change
large_sizes = st.one_of(st.sampled_from([11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001]), st.integers(20, 300))


@st.composite
def int_text(draw, low=-10**6, high=10**6, plus=True):
    value = draw(st.one_of(st.integers(low, high), st.integers(max(low, -9), min(high, 9))))
    if (low, high) == (-10**6, 10**6) and draw(st.integers(0, 9)) == 0:
        # beyond what 32 bits and a float keep
        value = draw(st.sampled_from([2**31, -2**31 - 1, 2**53 + 1, -2**53 - 1, 2**63 + 1])) + draw(st.integers(0, 9)) * 2
    text = str(value)
    if plus and value >= 0 and draw(st.integers(0, 5)) == 0:
        text = '+' + text
    return text


@st.composite
def float_text(draw, exponents=True):
    """Decimal notations that VASP inputs use; always contains a point or an exponent."""
    sign = draw(st.sampled_from(['', '', '-', '+']))
    whole = draw(st.one_of(st.integers(0, 9), st.integers(0, 99999)))
    frac = draw(st.text(string.digits, max_size=8))
    form = draw(st.integers(0, 3))
    if form == 0 and frac:
        text = f'.{frac}'
    elif form == 1:
        text = f'{whole}.'
    else:
        text = f'{whole}.{frac or "0"}'
    if exponents and draw(st.integers(0, 2)) == 0:
        if draw(st.integers(0, 3)) == 0:
            text = str(whole)
        text += draw(st.sampled_from('eE')) + draw(st.sampled_from(['', '+', '-'])) + draw(st.sampled_from(['0', '1', '2', '05', '10', '12', '003']))
    return sign + text
