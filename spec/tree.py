"""Generic views of syntax trees, independent of the library's own traversal."""


def is_node(x):
    return hasattr(x, "equals") and hasattr(x, "clone")


def nodes(node):
    """Every node below and including this one, in field order."""
    out = [node]
    for name, value in vars(node).items():
        if isinstance(value, (list, tuple)):
            for item in value:
                if is_node(item):
                    out.extend(nodes(item))
        elif is_node(value):
            out.extend(nodes(value))
    return out


def plain(x, spans=True):
    """Nested plain data: (type, [(field, value)...])."""
    if is_node(x):
        fields = sorted(vars(x))
        return (type(x).__name__, [(f, plain(getattr(x, f), spans)) for f in fields
                                   if f != "comment" or True if spans or f != "span"])
    if isinstance(x, (list, tuple)):
        return [plain(y, spans) for y in x]
    return x


def same(E, a, b, msg):
    if isinstance(a, (tuple, list)):
        E.check(isinstance(b, (tuple, list)) and len(a) == len(b), msg + ": different shape")
        for i in range(len(a)):
            same(E, a[i], b[i], msg)
        return
    if a is None or b is None or isinstance(a, bool):
        E.check(a is b, msg + ": different value")
        return
    E.check(a == b, msg + ": different value")


def matches(a, b):
    """Whether two plain trees are the same."""
    if isinstance(a, (tuple, list)):
        if not isinstance(b, (tuple, list)) or len(a) != len(b):
            return False
        for i in range(len(a)):
            if not matches(a[i], b[i]):
                return False
        return True
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b
