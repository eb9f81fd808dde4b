"""Run-time values of the abstract interpreter (everything that is not a plain node)."""
from . import nodes as nd


class Ref:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc

    def __hash__(self):
        return hash(self.loc)

    def __repr__(self):
        return 'Ref(%s)' % self.loc


class TC:            # tensor cell
    __slots__ = ('node', 'shape')

    def __init__(self, node, shape=None):
        self.node, self.shape = node, shape


class VC:            # view cell
    __slots__ = ('parent', 'key')

    def __init__(self, parent, key):
        self.parent, self.key = parent, key


class OC:            # object cell
    __slots__ = ('cls', 'attrs', 'base')

    def __init__(self, cls, attrs, base=None):
        self.cls, self.attrs, self.base = cls, attrs, base


class LC:            # list cell: guarded items, or an abstract element
    __slots__ = ('items', 'elem', 'base')

    def __init__(self, items=(), elem=None, base=None):
        self.items, self.elem, self.base = tuple(items), elem, base


class DC:            # dict cell
    __slots__ = ('entries', 'base')

    def __init__(self, entries, base=None):
        self.entries, self.base = entries, base


class FuncV:
    def __init__(self, node, module, cls=None, closure=None):
        self.node, self.module, self.cls, self.closure = node, module, cls, closure
        self.name = getattr(node, 'name', '<lambda>')
        self.decorators = [d for d in getattr(node, 'decorator_list', [])]

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return 'FuncV(%s)' % self.qual


class ClassV:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.attrs = {}

    def lookup(self, a):
        if a in self.attrs:
            return self.attrs[a]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(a)
                if r is not None:
                    return r
        return None

    def ext_bases(self):
        out = [b for b in self.bases if not isinstance(b, ClassV)]
        for b in self.bases:
            if isinstance(b, ClassV):
                out += b.ext_bases()
        return out

    def __repr__(self):
        return 'ClassV(%s)' % self.name


class ModV:
    def __init__(self, mod):
        self.mod = mod


class ExtV:
    """external (library) dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ExtV(%s)' % self.name


class BoundV:
    def __init__(self, func, selfv):
        self.func, self.selfv = func, selfv


class MethV:
    """method of a non-repo value"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SuperV:
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class SliceV:
    def __init__(self, start, stop, step=nd.NONE):
        self.start, self.stop, self.step = start, stop, step


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class UnionV:
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class IterV:
    """abstract iterable: element value factory"""

    def __init__(self, base, elem):
        self.base, self.elem = base, elem


class EllipsisV:
    pass


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()
