"""Stand-in for numba's control-flow analysis: the graph comes with the function (interpreted, never imported)."""


class LoopInfo:
  def __init__(self, header, entries, body):
    self.header = header
    self.entries = entries
    self.body = body


class Mark:
  def __init__(self, offset):
    self.offset = offset


class Graph:
  def __init__(self, bone, loops, desc):
    self.bone = bone
    self._loops = loops
    self.desc = desc

  def backbone(self):
    return self.bone

  def _find_descendents(self):
    return self.desc


class ControlFlowAnalysis:
  def __init__(self, bc):
    self.bc = bc

  def run(self):
    self.graph = self.bc.func_id.graph

  def iterblocks(self):
    return self.bc.func_id.order
