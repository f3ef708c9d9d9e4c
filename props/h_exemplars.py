"""Exemplars object for the harnesses: ICU normalisation and script statistics are stubbed out."""
from sldr.ldml_exemplars import Exemplars


class Null(object):
    """accepts and forgets the script statistics"""
    def __getitem__(self, k):
        return 0

    def __setitem__(self, k, v):
        pass

    def most_common(self, n=None):
        return []


def make():
    ex = Exemplars()
    ex.ucd.normalize = lambda form, text: text
    ex.ucd.toupper = lambda text: text
    ex.scripts = Null()
    ex.codes_for_scripts = Null()
    return ex
