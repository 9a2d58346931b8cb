import babel.core as _b
from babel.core import *  # noqa: F401,F403


def __getattr__(name):
    return getattr(_b, name)
