"""Uniqueness facts: an element fixed by a unique key is one element."""
from .core import *
from . import bdd as B
def uniq_point(v, f, coll):
    return core_uniq(v, f, coll)
