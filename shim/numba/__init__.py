"""Stand-in for numba, which is not installed in this sandbox.

``njit`` becomes the identity decorator, i.e. the decorated functions run as the
plain Python they are written in.  This is the mode the repository itself uses
for coverage runs (``NUMBA_DISABLE_JIT=1`` in its Makefile); nothing here adds
behaviour of its own.
"""


def njit(*args, **kwargs):
    if len(args) == 1 and callable(args[0]) and not kwargs:
        return args[0]

    def decorate(func):
        return func

    return decorate


jit = njit
prange = range
__version__ = "0.0-stand-in"
