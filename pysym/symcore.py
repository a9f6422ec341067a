"""Symbolic execution of Python functions: byte strings, struct and numbers over z3 bit-vectors, forking by re-execution."""
import struct as _struct, sys, time, json
import z3


class Unsupported(Exception):
    pass


class Infeasible(BaseException):
    pass


class Timeout(BaseException):
    pass


class Ctx:
    """One path: decisions taken so far and its path condition."""
    cur = None

    def __init__(self, run, prefix):
        self.run, self.prefix, self.trail, self.names = run, prefix, [], {}
        self.solver = z3.Solver(); self.hint = None

    def check(self, *extra, final=False):
        if time.time() > self.run.deadline:
            raise Timeout()
        t = time.time(); r = z3.unknown
        self.solver.set('timeout', self.run.qtimeout if final else 1500)
        if self.hint is not None and final:             # an under-approximation first: a model of it is a model
            r = self.solver.check(self.hint, *extra)
        if r != z3.sat:
            r = self.solver.check(*extra)
        self.run.solver_s += time.time() - t
        self.run.queries += 1
        self.run.count[str(r)] += 1
        return r

    def assume(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.solver.add(c)
        if self.check() == z3.unsat:
            raise Infeasible()

    def choose(self, n):
        """A value in 0..n-1, every one explored."""
        k = len(self.trail)
        v = self.prefix[k] if k < len(self.prefix) else 0
        if k >= len(self.prefix):
            for other in range(n - 1, 0, -1):
                self.run.todo.append([d for d in self.trail] + [other])
        self.trail.append(v)
        return v

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.trail)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            t, f = self.check(c) != z3.unsat, self.check(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise Infeasible()
            v = 1 if t else 0
            if t and f:
                self.run.todo.append([d for d in self.trail] + [0])
        self.trail.append(v)
        self.solver.add(c if v else z3.Not(c))
        return bool(v)

    def byte(self, name):
        b = z3.BitVec(name, 8); self.names[name] = b
        return b


class SymBool:
    def __init__(self, t): self.t = t
    def __bool__(self): return Ctx.cur.branch(self.t)
    def __eq__(self, o): return SymBool(self.t == (o.t if isinstance(o, SymBool) else z3.BoolVal(bool(o))))
    def __and__(self, o): return SymBool(z3.And(self.t, o.t if isinstance(o, SymBool) else z3.BoolVal(bool(o))))
    def __or__(self, o): return SymBool(z3.Or(self.t, o.t if isinstance(o, SymBool) else z3.BoolVal(bool(o))))
    def __invert__(self): return SymBool(z3.Not(self.t))
    __rand__ = __and__; __ror__ = __or__; __hash__ = None


D = z3.Float64(); F = z3.Float32(); RM = z3.RNE()


class SymNum:
    """A Python int (64-bit signed, wide enough for every field type below 64 bits) or float (binary64)."""
    def __init__(self, i=None, d=None, bits32=None, bits64=None, src=None):
        self.i, self._d, self.bits32, self.bits64, self.src = i, d, bits32, bits64, src

    @property
    def isint(self): return self.i is not None

    @property
    def d(self):
        if self._d is None:
            self._d = (z3.fpSignedToFP(RM, self.i, D) if self.isint else z3.fpFPToFP(RM, z3.fpBVToFP(self.bits32, F), D) if self.bits32 is not None else z3.fpBVToFP(self.bits64, D))
        return self._d

    @staticmethod
    def of(o):
        if isinstance(o, SymNum): return o
        if isinstance(o, bool) or isinstance(o, int): return SymNum(i=z3.BitVecVal(int(o), 64))
        try:
            return SymNum(d=z3.FPVal(float(o), D))
        except (TypeError, ValueError):
            raise Unsupported('number ' + type(o).__name__)

    def _cmp(self, o, fi, fd):
        if o is None or isinstance(o, (str, tuple, list)):
            return NotImplemented
        o = SymNum.of(o)
        if self.isint and o.isint: return SymBool(fi(self.i, o.i))
        if self.bits32 is not None and o.bits32 is None and o._d is not None and z3.is_fp_value(o._d) and o._d.isZero():
            if fd in (z3.fpEQ, z3.fpNEQ):
                zero = z3.Extract(30, 0, self.bits32) == 0; return SymBool(zero if fd is z3.fpEQ else z3.Not(zero))
            return SymBool(fd(z3.fpBVToFP(self.bits32, F), z3.FPVal(0.0, F)))
        return SymBool(fd(self.d, o.d))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, z3.fpEQ)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, z3.fpNEQ)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, z3.fpLT)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, z3.fpLEQ)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, z3.fpGT)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, z3.fpGEQ)
    __hash__ = None

    def _bin(self, o, fi, fd, swap=False):
        o = SymNum.of(o); a, b = (o, self) if swap else (self, o)
        if a.isint and b.isint and fi: return SymNum(i=fi(a.i, b.i))
        return SymNum(d=fd(RM, a.d, b.d))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, z3.fpAdd)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, z3.fpAdd, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, z3.fpSub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, z3.fpSub, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, z3.fpMul)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, z3.fpMul, True)
    def __truediv__(self, o): return self._bin(o, None, z3.fpDiv)
    def __abs__(self): return SymNum(i=z3.If(self.i < 0, -self.i, self.i)) if self.isint else SymNum(d=z3.fpAbs(self.d))
    def __neg__(self): return SymNum(i=-self.i) if self.isint else SymNum(d=z3.fpNeg(self.d))
    def __bool__(self): return bool(self != 0)

    def __index__(self): raise Unsupported('symbolic index')
    def __int__(self): raise Unsupported('int() of a symbolic number')
    def __float__(self): raise Unsupported('float() of a symbolic number')


class SymBytes:
    def __init__(self, b): self.b = list(b)
    def __len__(self): return len(self.b)
    def __iter__(self): return (SymNum(i=z3.ZeroExt(56, x)) for x in self.b)
    def __getitem__(self, k): return SymBytes(self.b[k]) if isinstance(k, slice) else SymNum(i=z3.ZeroExt(56, self.b[k]))
    def __add__(self, o): return SymBytes(self.b + sym_bytes(o).b)
    def __radd__(self, o): return SymBytes(sym_bytes(o).b + self.b)
    def tobytes(self): return self
    def extend(self, o): self.b += sym_bytes(o).b
    __iadd__ = __add__; __hash__ = None


def sym_bytes(o=()):
    if isinstance(o, SymBytes): return SymBytes(o.b)
    if isinstance(o, int): return SymBytes([z3.BitVecVal(0, 8)] * o)
    out = []
    for x in o:
        if isinstance(x, SymNum):
            if not x.isint: raise TypeError('float in bytes')
            out.append(z3.Extract(7, 0, x.i))
        else:
            out.append(z3.BitVecVal(int(x), 8))
    return SymBytes(out)


INT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False)}


def tokens(fmt):
    if isinstance(fmt, bytes): fmt = fmt.decode()
    order, k = '@', 0
    if fmt[:1] in '@=<>!' and fmt: order, k = fmt[0], 1
    out, n = [], ''
    for c in fmt[k:]:
        if c.isdigit(): n += c
        elif c.isspace(): pass
        else: out += [c] * (int(n) if n else 1); n = ''
    off = 0; items = []
    for c in out:
        size = 1 if c in 'xc?' else _struct.calcsize('=' + c)
        if order == '@' and c not in 'x': off += -off % size
        items.append((c, off, size)); off += size
    return order in '>!', items, off


def concat(bs, big):
    return z3.Concat(*(bs if big else bs[::-1])) if len(bs) > 1 else bs[0]


def split_bytes(bv, n, big):
    bs = [z3.simplify(z3.Extract(8 * k + 7, 8 * k, bv)) for k in range(n)]
    return bs[::-1] if big else bs


class SymStruct:
    """The struct module over symbolic bytes; concrete arguments go to the real one."""
    error = _struct.error

    def calcsize(self, f): return _struct.calcsize(f)

    def unpack(self, fmt, data): return self._unpack(fmt, data, 0, True)
    def unpack_from(self, fmt, buffer, offset=0): return self._unpack(fmt, buffer, offset, False)

    def iter_unpack(self, fmt, data):
        n = _struct.calcsize(fmt)
        if len(data) % n: raise _struct.error('iterative unpacking requires a multiple')
        return iter([self._unpack(fmt, data, k, False) for k in range(0, len(data), n)])

    def _unpack(self, fmt, data, offset, exact):
        if not isinstance(data, SymBytes):
            return _struct.unpack(fmt, data) if exact else _struct.unpack_from(fmt, data, offset)
        big, items, size = tokens(fmt)
        if (len(data) != size if exact else len(data) - offset < size): raise _struct.error('unpack requires a buffer of %d bytes' % size)
        out = []
        for c, o, n in items:
            if c == 'x': continue
            bv = concat(data.b[offset + o:offset + o + n], big)
            if c in INT: out.append(SymNum(i=z3.simplify(z3.SignExt(64 - 8 * n, bv) if INT[c][1] else z3.ZeroExt(64 - 8 * n, bv)), src=(z3.simplify(bv), INT[c][1])))
            elif c == 'f': out.append(SymNum(bits32=z3.simplify(bv)))
            elif c == 'd': out.append(SymNum(bits64=z3.simplify(bv)))
            else: raise Unsupported('format ' + c)
        return tuple(out)

    def pack(self, fmt, *vals):
        big, items, size = tokens(fmt)
        need = [t for t in items if t[0] != 'x']
        if len(need) != len(vals): raise _struct.error('pack expected %d items for packing (got %d)' % (len(need), len(vals)))
        out = [z3.BitVecVal(0, 8)] * size; it = iter(vals); ctx = Ctx.cur
        for c, o, n in items:
            if c == 'x': continue
            v = next(it)
            if isinstance(v, (SymBytes, SymBool)): raise Unsupported('packing ' + type(v).__name__)
            if not isinstance(v, SymNum):
                bs = _struct.pack(('>' if big else '<') + c, v); out[o:o + n] = [z3.BitVecVal(x, 8) for x in bs]; continue
            if c in INT:
                if not v.isint: raise _struct.error('required argument is not an integer')
                lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if INT[c][1] else (0, (1 << 8 * n) - 1)
                if not ctx.branch(z3.And(v.i >= lo, v.i <= hi)): raise _struct.error('format requires a smaller number')
                bv = z3.Extract(8 * n - 1, 0, v.i)
            elif c == 'f':
                if v.bits32 is not None: bv = v.bits32
                elif v.src is not None:     # at most 32 bits: int to double is exact, so one rounding
                    bv = z3.fpToIEEEBV((z3.fpSignedToFP if v.src[1] else z3.fpUnsignedToFP)(RM, v.src[0], F))
                else:
                    f = z3.fpFPToFP(RM, v.d, F)
                    if ctx.branch(z3.And(z3.fpIsInf(f), z3.Not(z3.fpIsInf(v.d)))): raise OverflowError('float too large to pack with f format')
                    bv = z3.fpToIEEEBV(f)
            elif c == 'd':
                bv = v.bits64 if v.bits64 is not None else z3.fpToIEEEBV(v.d)
            else: raise Unsupported('format ' + c)
            out[o:o + n] = split_bytes(bv, n, big)
        return SymBytes(out)

    def pack_into(self, fmt, buffer, offset, *vals):
        p = self.pack(fmt, *vals)
        if not isinstance(buffer, SymBytes): raise Unsupported('pack_into a concrete buffer')
        buffer.b[offset:offset + len(p)] = p.b

    def Struct(self, fmt):
        return SymStructOf(self, fmt)


class SymStructOf:
    def __init__(self, s, fmt): self.s, self.format, self.size = s, fmt, _struct.calcsize(fmt)
    def unpack(self, d): return self.s.unpack(self.format, d)
    def unpack_from(self, buffer, offset=0): return self.s.unpack_from(self.format, buffer, offset)
    def iter_unpack(self, d): return self.s.iter_unpack(self.format, d)
    def pack(self, *v): return self.s.pack(self.format, *v)
    def pack_into(self, b, o, *v): return self.s.pack_into(self.format, b, o, *v)


class Violation(Exception):
    def __init__(self, msg, cond=None): self.msg, self.cond = msg, cond


class Run:
    """Depth-first exploration of every path of entry(ctx)."""
    def __init__(self, deadline, qtimeout=10000):
        self.deadline, self.qtimeout = deadline, qtimeout
        self.todo, self.solver_s, self.queries = [[]], 0., 0
        self.count = {'sat': 0, 'unsat': 0, 'unknown': 0}
        self.s = dict(paths=0, paths_done=0, dropped=0, infeasible=0, asserts=0, asserts_ok=0, asserts_trivial=0, asserts_unknown=0, unsupported=0, violations=0, unconfirmed=0, validated=0, mismatched=0, instrs=0)
        self.reach = {}; self.fns = set(); self.lines = 0

    def vassert(self, ctx, c, msg):
        """Returns a model of path condition and not c, or None."""
        self.s['asserts'] += 1
        c = z3.simplify(c)
        if z3.is_true(c):
            self.s['asserts_trivial'] += 1; return None
        r = ctx.check(z3.Not(c), final=True)
        if r == z3.unsat: self.s['asserts_ok'] += 1; return None
        if r == z3.unknown: self.s['asserts_unknown'] += 1; return None
        return ctx.solver.model()
