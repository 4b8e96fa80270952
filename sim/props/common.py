import copy, random
import numpy as np
from .. import engine, env, gen, ref, sched
la = np.linalg

_oracle = []


def oracle_image():
    """an image used only to build inputs and solo answers on fresh objects"""
    if not _oracle:
        _oracle.append(env.Image())
    return _oracle[0]


def fresh_image():
    with sched.patched_locks():
        return env.Image()


def split_ops(rng, ops, nthreads):
    th = [[] for _ in range(nthreads)]
    for o in ops:
        th[rng.randrange(nthreads)].append(o)
    for i, o in enumerate(x for t in th for x in t):
        o["id"] = i
    return th


def new_sched(rng):
    return {"seed": rng.randrange(1 << 40)}


def arr(x):
    return np.array(x)
