"""Contracts of the bit utilities (C17), proved over bit-vectors."""
import z3
from .core import *
from .contract import Contract


class Bits(Contract):
    mode = 'bv'
    def leaks(self, c): return []


class NextPow2(Bits):
    name = 'next_power_of_two'
    def pre(self, c):
        n = c.args[0]
        return [('the argument is positive and at most 2^63', z3.And(n != 0, z3.ULE(n, z3.BitVecVal(1 << 63, 64))))]
    def post(self, c):
        n, r = c.args[0], c.ret
        return [('the result is a power of two', z3.And(r != 0, r & (r - 1) == 0)), ('not below the argument', z3.ULE(n, r)),
                ('and the smallest such', z3.Or(r == 1, z3.ULT(z3.LShR(r, 1), n)))]


class HighestU(Bits):
    name = 'highest_bit_set'
    def pre(self, c): return [('the argument is positive', c.args[0] != 0)]
    def post(self, c):
        v, r = c.args[0], c.ret
        w = v.size()
        rr = z3.ZeroExt(w - r.size(), r) if w > r.size() else r
        return [('bit `result` is the highest one set: v >> result is 1', z3.And(z3.ULT(rr, w), z3.LShR(v, rr) == 1))]
class HighestU64(HighestU): sig = ('unsigned long',); label = 'highest_bit_set(uint64_t)'
class HighestU32(HighestU): sig = ('unsigned int',); label = 'highest_bit_set(unsigned)'
class HighestS(Bits):
    name = 'highest_bit_set'
    def pre(self, c): return [('the argument is not zero', c.args[0] != 0)]
    def post(self, c):
        v, r = c.args[0], c.ret
        w = v.size()
        return [('-1 for a negative argument', z3.Implies(v < 0, r == -1)),
                ('bit `result` is the highest one set', z3.Implies(v > 0, z3.And(r >= 0, r < w, z3.LShR(v, r) == 1)))]
class HighestS64(HighestS): sig = ('long',); label = 'highest_bit_set(int64_t)'
class HighestS32(HighestS): sig = ('int',); label = 'highest_bit_set(int)'


class Interleave(Bits):
    label = 'bit_interleave<uint32_t>'
    name = 'bit_interleave'
    sig = ('unsigned int', 'unsigned int')
    def pre(self, c): return [('both numbers have 16 bits', z3.And(z3.ULT(c.args[0], 1 << 16), z3.ULT(c.args[1], 1 << 16)))]
    def post(self, c):
        x, y = c.args
        parts = []
        for i in range(15, -1, -1): parts += [z3.Extract(i, i, y), z3.Extract(i, i, x)]
        return [('bit i of the first is bit 2i, bit i of the second bit 2i+1', c.ret == z3.Concat(*parts))]
class Interleave16(Interleave):
    label = 'bit_interleave<uint16_t>'
    sig = ('unsigned short', 'unsigned short')
    def pre(self, c): return []
# what the interleaving means to the sorts: one value per pair of 16-bit numbers
MORTON = z3.Function('interleaved', IntS, IntS, IntS)
class InterleaveFn(Contract):
    """int-mode view of bit_interleave, used at calls (the value is the one spec'd by Interleave)"""
    label = 'bit_interleave<uint32_t> as a function of its arguments'
    name = 'bit_interleave'
    sig = ('unsigned int', 'unsigned int')
    def result(self, c, st, rt, n):
        c.ex.assumed.add('bit_interleave is the function of its arguments that contract bit_interleave gives (proved over bit-vectors)')
        v = MORTON(c.args[0], c.args[1])
        st.assume(z3.And(v >= 0, v < 1 << rt.bits))
        return v
class InterleaveFn16(InterleaveFn):
    label = 'bit_interleave<uint16_t> as a function of its arguments'
    sig = ('unsigned short', 'unsigned short')


ALL = [NextPow2, HighestU64, HighestU32, HighestS64, HighestS32, Interleave, Interleave16]
