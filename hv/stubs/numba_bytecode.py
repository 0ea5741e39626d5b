"""Stand-in for numba.core.bytecode (interpreted, never imported)."""


class ByteCode:
  def __init__(self, func_id):
    self.func_id = func_id
