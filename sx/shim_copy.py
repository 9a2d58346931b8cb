"""copy for rewritten code: symbolic leaves are immutable and shared."""
from copy import *  # noqa: F401,F403
import copy as _copy
from .vals import SymStr, SymInt, SymBool, SC, HasSym

for _t in (SymStr, SymInt, SymBool, SC):
    _copy._deepcopy_dispatch[_t] = lambda x, memo: x
    _copy._copy_dispatch[_t] = lambda x: x
copy = _copy.copy
deepcopy = _copy.deepcopy
