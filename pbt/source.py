"""Feeding text to a parser from the different sources it supports."""
import io

from hypothesis import strategies as st

from pbt.core import write_file

FILES = ['path', 'handler', 'stringio']
sources = st.sampled_from(FILES)


def load(cls, text, source, **kwargs):
    if source == 'path':
        return cls(file_path=write_file('INPUT', text), **kwargs)
    if source == 'handler':
        with open(write_file('INPUT', text), encoding='utf8') as handle:
            return cls(file_handler=handle, **kwargs)
    return cls(file_handler=io.StringIO(text), **kwargs)


NUMBERS = ['fixed', 'sci', 'fortran', 'short']


def number(value, style, decimals=4):
    """A printed number; the oracle reads it back with float()."""
    if style == 'fixed':
        return f'{value:.{decimals}f}'
    if style == 'sci':
        return f'{value:.{decimals}E}'
    if style == 'fortran':  # mantissa below one, as Fortran E format prints it
        text = f'{value:.{decimals}E}'
        mantissa, exponent = text.split('E')
        sign, digits = ('-', mantissa[1:]) if mantissa[0] == '-' else ('', mantissa)
        return f'{sign}0.{digits.replace(".", "")}E{int(exponent) + 1:+03d}'
    text = f'{value:.{decimals}f}'
    return text.replace('-0.', '-.', 1) if text.startswith('-0.') else text[1:] if text.startswith('0.') else text
