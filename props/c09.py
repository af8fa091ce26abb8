"""See c08.py."""
from props.c08 import gen, run  # noqa: F401


def cases(rng, tier):
    return gen(rng, tier, "SGLD")
