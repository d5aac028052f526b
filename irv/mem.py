"""Flat byte-addressed symbolic memory with eager read-over-write resolution."""
import z3

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)


def bv(v, n=64):
    return z3.BitVecVal(v, n)


def const_of(e):
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def sconst(e):
    """signed constant or None"""
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return None


_k = [0]


def fresh(name, sort):
    _k[0] += 1
    return z3.Const("%s!%d" % (name, _k[0]), sort)


class Mem:
    """node kinds: base(arr) | write(parent,addr,size,val) | lam(parent, fn) with fn(reader, a)->BV8"""
    __slots__ = ("kind", "parent", "addr", "size", "val", "fn", "arr", "depth", "fnw", "region")

    def __init__(self, kind, parent=None, addr=None, size=0, val=None, fn=None, arr=None, fnw=None):
        self.kind, self.parent, self.addr, self.size, self.val, self.fn, self.arr = kind, parent, addr, size, val, fn, arr
        self.fnw = fnw
        self.region = None
        self.depth = 0 if parent is None else parent.depth + 1

    @staticmethod
    def base(name="mem"):
        return Mem("base", arr=fresh(name, z3.ArraySort(BV64, BV8)))

    def write(self, addr, size, val):
        addr = z3.simplify(addr)
        # overwrite of the newest identical cell
        if self.kind == "write" and self.size == size and z3.eq(self.addr, addr):
            return Mem("write", self.parent, addr, size, val)
        return Mem("write", self, addr, size, val)

    def lam(self, fn, fnw=None):
        """fn(parent_reader_byte, addr) -> BV8 ; fnw(addr,size)->BV or None: whole-cell shortcut"""
        return Mem("lam", self, fn=fn, fnw=fnw)


_low3 = {}
ALIGNED = set()         # ids of terms assumed 8-aligned by the precondition


def declare_aligned(t):
    _keep.append(t)
    ALIGNED.add(t.get_id())


_keep = []
IVAL = {}               # id -> (lo, hi): unsigned bounds assumed by the precondition


def declare_interval(t, lo, hi):
    t = z3.simplify(t)
    _keep.append(t)
    IVAL[t.get_id()] = (lo, hi)


def interval(t):
    """integer bounds of a 64-bit sum of terms with declared bounds and signed constants (None if unknown)"""
    k = t.get_id()
    if k in IVAL:
        return IVAL[k]
    if z3.is_bv_value(t):
        v = t.as_signed_long()
        return v, v
    if z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
        x, c = interval(t.arg(1)), t.arg(0).as_signed_long()
        if x is None or abs(c) > 4096:
            return None
        return (x[0] * c, x[1] * c) if c >= 0 else (x[1] * c, x[0] * c)
    if z3.is_app_of(t, z3.Z3_OP_BADD):
        lo = hi = 0
        for i in range(t.num_args()):
            x = interval(t.arg(i))
            if x is None:
                return None
            lo, hi = lo + x[0], hi + x[1]
        if lo < -(1 << 62) or hi >= 1 << 62:
            return None
        return lo, hi
    return None


def low3(t):
    """the three low bits of t if they are evident, else None"""
    k = t.get_id()
    if k in ALIGNED:
        return 0
    if k in _low3:
        return _low3[k]
    r = None
    if z3.is_bv_value(t):
        r = t.as_long() & 7
    elif z3.is_app_of(t, z3.Z3_OP_BADD):
        r = 0
        for i in range(t.num_args()):
            x = low3(t.arg(i))
            if x is None:
                r = None
                break
            r = (r + x) & 7
    elif z3.is_app_of(t, z3.Z3_OP_BMUL):
        c = t.arg(0)
        x = [low3(t.arg(i)) for i in range(t.num_args())]
        if any(v == 0 for v in x):
            r = 0
        elif all(v is not None for v in x):
            r = 1
            for v in x:
                r = r * v & 7
    elif z3.is_app_of(t, z3.Z3_OP_CONCAT):
        c = t.arg(t.num_args() - 1)
        if z3.is_bv_value(c) and c.size() >= 3:
            r = c.as_long() & 7
        elif c.size() >= 3:
            r = low3(c)
    elif z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = low3(t.arg(1)), low3(t.arg(2))
        r = a if a == b else None
    _low3[k] = r
    _keep.append(t)
    return r


class Reader:
    """resolves reads under a path condition with the help of a decision procedure
    ask(formula) -> True if the formula is implied by the path condition (may be incomplete)"""

    def __init__(self, ask, quick=None, win=None):
        self.ask, self.quick = ask, quick
        self.win = win or (lambda a: None)

    def read(self, m, addr, size):
        addr = z3.simplify(addr)
        return z3.simplify(self._read(m, addr, size))

    def _bytes(self, m, addr, size):
        bs = [self._read(m, z3.simplify(addr + i), 1) for i in range(size)]
        return z3.Concat(*reversed(bs)) if size > 1 else bs[0]

    def _read(self, m, addr, size):
        while True:
            if m.kind == "base":
                bs = [z3.Select(m.arr, z3.simplify(addr + i)) for i in range(size)]
                return z3.Concat(*reversed(bs)) if size > 1 else bs[0]
            if m.kind == "lam":
                if m.fnw is not None:
                    r = m.fnw(self, m.parent, addr, size)
                    if r is not None:
                        return r
                if size == 1:
                    return m.fn(self, m.parent, addr)
                bs = [m.fn(self, m.parent, z3.simplify(addr + i)) for i in range(size)]
                return z3.Concat(*reversed(bs))
            # write node
            d = z3.simplify(addr - m.addr)
            c = sconst(d)
            if c is not None:
                if c >= m.size or c <= -size:
                    m = m.parent
                    continue
                if c == 0 and size == m.size:
                    return m.val
                if c >= 0 and c + size <= m.size:
                    return z3.Extract(8 * (c + size) - 1, 8 * c, m.val)
                return self._bytes(m, addr, size)
            iv = interval(d)
            if iv is not None and (iv[0] >= m.size or iv[1] <= -size):
                m = m.parent
                continue
            # symbolic distance: disjoint iff  size <= d  (unsigned, waddr below)  and d <= 2^64 - size ...
            # overlap  <=>  d <u m.size  or  -d <u size
            if self.quick is not None and self.quick(addr, m.addr):
                m = m.parent
                continue
            if size == m.size == 8 and low3(d) == 0:
                if self.ask(d != 0):
                    m = m.parent
                    continue
                if self.ask(d == 0):
                    return m.val
                return z3.If(d == 0, m.val, self._read(m.parent, addr, size))
            overlap = z3.Or(z3.ULT(d, bv(m.size)), z3.ULT(-d, bv(size)))
            if self.ask(z3.Not(overlap)):
                m = m.parent
                continue
            if size == m.size and self.ask(d == 0):
                return m.val
            if size == m.size and self.ask(z3.Or(d == 0, z3.Not(overlap))):
                return z3.If(d == 0, m.val, self._read(m.parent, addr, size))
            if size == 1:
                # one byte out of a wider cell
                if m.size == 1:
                    v = m.val
                else:
                    sh = z3.LShR(m.val, z3.simplify(z3.Extract(8 * m.size - 1, 0, (d & (m.size - 1)) * 8)
                                                    if m.size <= 8 else d * 8))
                    v = z3.Extract(7, 0, sh)
                return z3.If(z3.ULT(d, bv(m.size)), v, self._read(m.parent, addr, 1))
            return self._bytes(m, addr, size)
