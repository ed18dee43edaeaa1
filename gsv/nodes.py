"""Node objects of every supported kind.

Cases name nodes by index.  `Nodes.get(i)` returns an object equal, but (where
the type allows it) not identical to the ones returned before, because the
scheduler is documented to work on hashable nodes, that is by equality.
"""
KINDS = ['str', 'word', 'int', 'tuple', 'obj', 'ident', 'mixed', 'falsy', 'alike']


class Obj:
    """Equality by key, hash chosen by the case (may collide)"""
    __slots__ = ('key', 'h')

    def __init__(self, key, h):
        self.key = key
        self.h = h

    def __eq__(self, other):
        return isinstance(other, Obj) and self.key == other.key

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return self.h

    def __repr__(self):
        return f'Obj({self.key})'


class Alike(Obj):
    """All of them look the same"""
    __slots__ = ()

    def __repr__(self):
        return 'node'


class Ident:
    """Default identity equality"""
    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f'Ident({self.key})'


class Nodes:
    def __init__(self, kind, n, salt=0):
        self.kind = kind
        self.n = n
        self.salt = salt
        self._fixed = {}
        self._index = {}
        for i in range(n):
            self._index[self.get(i)] = i
        if len(self._index) != n:
            raise RuntimeError('node kinds collide')

    def _hash(self, i):
        x = (i + 1) * 0x9E3779B1 ^ (self.salt * 0x85EBCA77)
        return (x ^ (x >> 13)) % 61

    def get(self, i):
        kind = self.kind
        if kind == 'mixed':
            kind = ('str', 'int', 'tuple', 'obj', 'word', 'ident')[(i + self.salt) % 6]
        if kind == 'falsy':
            if i == 0:
                return 0
            if i == 1:
                return ''
            if i == 2:
                return ()
            if i == 3:
                return frozenset()
            kind = 'str'
        if kind == 'str':
            # distinct object each time for all but 1-char strings
            return ''.join([chr(65 + i % 26), str(i // 26) if i >= 26 else ''])
        if kind == 'word':
            return ''.join(['node ', str((i * 7 + self.salt) % 101), '_', str(i)])
        if kind == 'int':
            return int(str(1000 + ((i * 7919 + self.salt * 31) % 104729)))
        if kind == 'tuple':
            return ('t', (self.salt + i) % 5, i)
        if kind == 'obj':
            return Obj(i, self._hash(i))
        if kind == 'alike':
            return Alike(i, self._hash(i))
        if kind == 'ident':
            if i not in self._fixed:
                self._fixed[i] = Ident(i)
            return self._fixed[i]
        raise RuntimeError(kind)

    def all(self):
        return [self.get(i) for i in range(self.n)]

    def index(self, obj):
        """Index of a node returned by the code under test"""
        return self._index[obj]

    def indices(self, objs):
        return frozenset(self._index[o] for o in objs)
