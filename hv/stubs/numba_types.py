"""Stand-in for numba.core.types: only the structure the front-end looks at (interpreted, never imported)."""


class Type:
  pass


class Integer(Type):
  def __init__(self, bitwidth, signed=True):
    self.bitwidth = bitwidth
    self.signed = signed


class Boolean(Type):
  pass


class Float(Type):
  def __init__(self, bitwidth):
    self.bitwidth = bitwidth


class Complex(Type):
  def __init__(self, bitwidth):
    self.bitwidth = bitwidth


class Array(Type):
  def __init__(self, dtype, ndim):
    self.dtype = dtype
    self.ndim = ndim


class RangeType(Type):
  def __init__(self, dtype):
    self.dtype = dtype


class NoneType(Type):
  pass


class UnicodeType(Type):
  pass


int8 = Integer(8)
int16 = Integer(16)
int32 = Integer(32)
int64 = Integer(64)
boolean = Boolean()
float32 = Float(32)
float64 = Float(64)
i1 = boolean
