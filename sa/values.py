"""Abstract values and abstract heap of the tslearn static analyser.

A value V over-approximates the set of Python objects an expression may denote:

  c     finite set of Python constants, each as (tag, value)
  o     finite set of resolved objects (functions, classes, modules, external
        names, heap objects, tuples, partials, ...)
  top   the value may also be some other object (array, number, user object)
  kind  what is known about the `top` part ('any', 'nd', 'tt', 'num', 'int',
        'bool', 'str', 'shape', 'rng', 'dtype', ...)
  own   roots whose storage the value may alias (caller argument, hyper
        parameter, fitted attribute, task argument, ...)
  lab   taint labels: what the value was computed from
  idt   identity token: the value *is* the object initially held by that
        root (lost by any computation)
"""
E = frozenset()


def ctag(x):
    if x is None:
        return ('n', None)
    if isinstance(x, bool):
        return ('b', x)
    if isinstance(x, int):
        return ('i', x)
    if isinstance(x, float):
        if x != x:
            return None
        return ('f', x)
    if isinstance(x, str):
        return ('s', x)
    if isinstance(x, bytes):
        return ('y', x)
    if x is Ellipsis:
        return ('e', '...')
    return None


ABSENT = ('absent', None)
NONE = ('n', None)
MAXC = 16


class V(object):
    __slots__ = ('c', 'o', 'top', 'kind', 'own', 'lab', 'idt', '_h')

    def __init__(self, c=E, o=E, top=False, kind='any', own=E, lab=E, idt=None):
        if len(c) > MAXC:
            tags = {t for t, _ in c}
            nk = 'any'
            if tags <= {'i'}:
                nk = 'int'
            elif tags <= {'i', 'f', 'b'}:
                nk = 'num'
            elif tags <= {'s'}:
                nk = 'str'
            keep = frozenset(x for x in c if x in (NONE, ABSENT))
            kind = nk if not top else join_kind(kind, nk)
            top = True
            c = keep
        if not top:
            kind = 'any'
        self.c = c
        self.o = o
        self.top = top
        self.kind = kind
        self.own = own
        self.lab = lab
        self.idt = idt
        self._h = None

    def key(self):
        return (self.c, self.o, self.top, self.kind, self.own, self.lab, self.idt)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, V) or hash(self) != hash(other):
            return False
        return self.key() == other.key()

    def __ne__(self, other):
        return not self == other

    def with_(self, **kw):
        d = dict(c=self.c, o=self.o, top=self.top, kind=self.kind, own=self.own,
                 lab=self.lab, idt=self.idt)
        d.update(kw)
        return V(**d)

    def addlab(self, labs):
        if not labs or labs <= self.lab:
            return self
        return self.with_(lab=self.lab | labs)

    @property
    def bottom(self):
        return not self.c and not self.o and not self.top

    @property
    def consts(self):
        return [v for t, v in self.c if t != 'absent']

    def single_const(self):
        """(True, value) when the value is exactly one known constant."""
        if not self.top and not self.o and len(self.c) == 1:
            (t, v), = self.c
            if t != 'absent':
                return True, v
        return False, None

    def __repr__(self):
        p = []
        if self.c:
            p.append('{' + ','.join(repr(v) if t != 'absent' else 'ABSENT' for t, v in sorted(self.c, key=repr)) + '}')
        if self.o:
            p.append('o[' + ','.join(sorted(short(x) for x in self.o)) + ']')
        if self.top:
            p.append('T:' + self.kind)
        if self.own:
            p.append('own' + repr(sorted(map(str, self.own))))
        if self.lab:
            p.append('lab' + repr(sorted(map(str, self.lab))))
        if self.idt:
            p.append('id' + repr(self.idt))
        return '<' + ' '.join(p) + '>'


def short(x):
    r = repr(x)
    return r if len(r) < 60 else r[:57] + '...'


def join_kind(a, b):
    if a == b:
        return a
    s = {a, b}
    if s <= {'int', 'num', 'bool'}:
        return 'num' if s != {'int', 'bool'} else 'int'
    if all(x.startswith('str') for x in s):
        s.discard('str:')
        return s.pop() if len(s) == 1 else 'str'
    return 'any'


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    if a.bottom:
        return b
    if b.bottom:
        return a
    if a.top and b.top:
        kind = join_kind(a.kind, b.kind)
    else:
        kind = a.kind if a.top else b.kind
    idt = a.idt if a.idt == b.idt else None
    return V(a.c | b.c, a.o | b.o, a.top or b.top, kind, a.own | b.own,
             a.lab | b.lab, idt)


def join_all(vs):
    r = BOT
    for v in vs:
        r = join(r, v)
    return r


BOT = V()
TOP = V(top=True)
NUM = V(top=True, kind='num')
NAN = V(top=True, kind='num', lab=frozenset([('pad', 'nan')]))
INT = V(top=True, kind='int')
BOOL = V(top=True, kind='bool')
STR = V(top=True, kind='str')
NONEV = V(c=frozenset([NONE]))
ABSENTV = V(c=frozenset([ABSENT]))


def const(x, lab=E):
    t = ctag(x)
    if t is None:
        return V(top=True, kind='num', lab=lab)
    return V(c=frozenset([t]), lab=lab)


def obj(o, lab=E):
    return V(o=frozenset([o]), lab=lab)


def top(kind='any', own=E, lab=E):
    return V(top=True, kind=kind, own=own, lab=lab)


# --- objects -----------------------------------------------------------------
class Func(object):
    """A function of the analysed program together with its closure."""
    __slots__ = ('node', 'mod', 'qual', 'clo', 'cls', '_h', 'kindf', 'defaults')

    def __init__(self, node, mod, qual, clo, cls=None, kindf='plain', defaults=None):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.clo = clo          # frozenset of (name, V)
        self.cls = cls
        self.kindf = kindf      # plain | static | class | property | ctx | setter
        self.defaults = defaults  # (tuple of V or None for positional, dict-items kwonly)
        self._h = hash((id(node), clo, kindf, cls))

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return (isinstance(other, Func) and self.node is other.node and
                self.clo == other.clo and self.kindf == other.kindf and self.cls == other.cls)

    def __repr__(self):
        return 'F:' + self.qual

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')


class Cls(object):
    __slots__ = ('node', 'mod', 'name', 'qual', 'bases', 'attrs', 'props')

    def __init__(self, node, mod, name, qual):
        self.node = node
        self.mod = mod
        self.name = name
        self.qual = qual
        self.bases = []     # list of Cls or Ext
        self.attrs = {}     # name -> V

    def __repr__(self):
        return 'C:' + self.qual

    def mro(self):
        """linearisation: C3 with fallback to depth-first"""
        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                res.append(cand)
                seqs = [[x for x in s if x != cand] for s in seqs]
                seqs = [s for s in seqs if s]
            return res
        lin = []
        for b in self.bases:
            if isinstance(b, Cls):
                lin.append(b.mro())
            else:
                lin.append([b])
        return [self] + merge(lin + [list(self.bases)])


class Ext(object):
    """An external (not analysed) name, e.g. numpy.zeros."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(('ext', self.name))

    def __eq__(self, other):
        return isinstance(other, Ext) and other.name == self.name

    def __repr__(self):
        return 'X:' + self.name


class Mod(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(('mod', self.name))

    def __eq__(self, other):
        return isinstance(other, Mod) and other.name == self.name

    def __repr__(self):
        return 'M:' + self.name


class T(object):
    """Immutable structured object: ('tuple', (V,...)), ('partial', f, args, kws),
    ('bound', recvV, Func), ('xmeth', recvV, name), ('delayed', fV),
    ('parallel', unordered, V), ('deco',), ('super', Cls, V), ('typeof', V), ..."""
    __slots__ = ('tag', 'a', '_h')

    def __init__(self, tag, *a):
        self.tag = tag
        self.a = a
        self._h = hash((tag, a))

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return isinstance(other, T) and self._h == other._h and self.tag == other.tag and self.a == other.a

    def __repr__(self):
        return 'T:%s%r' % (self.tag, self.a)


class Ref(object):
    """Reference to a heap object."""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __hash__(self):
        return hash(('ref', self.id))

    def __eq__(self, other):
        return isinstance(other, Ref) and other.id == self.id

    def __repr__(self):
        return 'R:%s' % (self.id,)


class HObj(object):
    """Abstract heap object. kind: inst|list|dict|set|gen|res
    fields: attribute name / constant key / index -> V;  elem: summary of the
    remaining elements (None: there are none)."""
    __slots__ = ('kind', 'cls', 'fields', 'elem', 'own', 'lab', '_h')

    def __init__(self, kind, cls=None, fields=None, elem=None, own=E, lab=E):
        self.kind = kind
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.elem = elem
        self.own = own
        self.lab = lab
        self._h = None

    def with_(self, **kw):
        d = dict(kind=self.kind, cls=self.cls, fields=self.fields, elem=self.elem,
                 own=self.own, lab=self.lab)
        d.update(kw)
        return HObj(**d)

    def set(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return self.with_(fields=f)

    def key(self):
        return (self.kind, self.cls, frozenset(self.fields.items()), self.elem, self.own, self.lab)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, other):
        if self is other:
            return True
        return isinstance(other, HObj) and hash(self) == hash(other) and self.key() == other.key()


def join_hobj(a, b):
    if a is b or a == b:
        return a
    fields = {}
    for k in set(a.fields) | set(b.fields):
        va = a.fields.get(k)
        vb = b.fields.get(k)
        if va is None:
            va = join(a.elem, ABSENTV) if a.elem is not None else ABSENTV
        if vb is None:
            vb = join(b.elem, ABSENTV) if b.elem is not None else ABSENTV
        fields[k] = join(va, vb)
    elem = join(a.elem, b.elem) if (a.elem is not None and b.elem is not None) else (a.elem or b.elem)
    if a.kind == 'list' and (set(a.fields) != set(b.fields)):
        # lists of different lengths: summarise
        vs = [v.with_(c=v.c - {ABSENT}) for v in fields.values()]
        elem = join_all(vs + ([elem] if elem is not None else []))
        fields = {}
    return HObj(a.kind, a.cls if a.cls == b.cls else a.cls, fields, elem, a.own | b.own, a.lab | b.lab)


def join_heap(a, b):
    if a is b or a is None:
        return b
    if b is None:
        return a
    r = dict(a)
    ch = False
    for k, h in b.items():
        g = r.get(k)
        if g is None:
            r[k] = h
            ch = True
        elif g is not h:
            j = join_hobj(g, h)
            if j is not g:
                r[k] = j
                ch = True
    return r if ch else a


def join_env(a, b):
    if a is b or a is None:
        return b
    if b is None:
        return a
    r = dict(a)
    ch = False
    for k, v in b.items():
        g = r.get(k)
        if g is None:
            r[k] = join(v, ABSENTV)
            ch = True
        elif g is not v:
            j = join(g, v)
            if j is not g:
                r[k] = j
                ch = True
    for k, v in a.items():
        if k not in b:
            j = join(v, ABSENTV)
            if j != v:
                r[k] = j
                ch = True
    return r if ch else a
