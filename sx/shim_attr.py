"""attr for rewritten code: validators compare symbolically, evolve keeps symbolic values."""
import attr as _a
from attr import *  # noqa: F401,F403


def __getattr__(name):
    return getattr(_a, name)


def evolve(inst, **changes):
    return _a.evolve(inst, **changes)


class _Validators:
    def __getattr__(self, name):
        return getattr(_a.validators, name)

    @staticmethod
    def in_(options):
        from .ops import contains
        real = _a.validators.in_(options)

        def check(inst, attribute, value):
            from .vals import SymStr, SymInt
            if type(value) is SymStr or type(value) is SymInt:
                if not contains(list(options), value):
                    raise ValueError("'%s' must be in %r" % (attribute.name, options))
                return
            from .vals import HasSym
            if isinstance(value, HasSym):
                value = value._symval()
                if type(value) not in (int, float):
                    return check(inst, attribute, value)
            real(inst, attribute, value)
        return check


validators = _Validators()
