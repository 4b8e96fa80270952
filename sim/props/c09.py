from . import c08
from .c08 import run, shrink


def gen(rng, tier, i):
    return c08.gen(rng, tier, i, kinds=["martensite"])
