"""Stand-in for numba.core.ir: only the structure the front-end looks at (interpreted, never imported)."""


class Loc:
  def __init__(self, filename, line, col=None):
    self.filename = filename
    self.line = line
    self.col = col


class Inst:
  is_terminator = False


class Var:
  def __init__(self, name, loc, temp=False):
    self.name = name
    self.loc = loc
    self.is_temp = temp

  def __str__(self):
    return self.name


class Arg:
  def __init__(self, name, index, loc):
    self.name = name
    self.index = index
    self.loc = loc


class Const:
  def __init__(self, value, loc):
    self.value = value
    self.loc = loc


class Global:
  def __init__(self, name, value, loc):
    self.name = name
    self.value = value
    self.loc = loc


class Expr:
  def __init__(self, op, loc, **kws):
    self.op = op
    self.loc = loc
    for k, v in kws.items():
      setattr(self, k, v)


class Assign(Inst):
  def __init__(self, value, target, loc, used):
    self.value = value
    self.target = target
    self.loc = loc
    self.used = used

  def list_vars(self):
    return self.used + [self.target]


class Return(Inst):
  is_terminator = True

  def __init__(self, value, loc):
    self.value = value
    self.loc = loc


class Jump(Inst):
  is_terminator = True

  def __init__(self, target, loc):
    self.target = target
    self.loc = loc


class Branch(Inst):
  is_terminator = True

  def __init__(self, cond, truebr, falsebr, loc):
    self.cond = cond
    self.truebr = truebr
    self.falsebr = falsebr
    self.loc = loc


class Del(Inst):
  pass


class Block:
  def __init__(self, body, loc):
    self.body = body
    self.loc = loc


class FunctionIR:
  pass
