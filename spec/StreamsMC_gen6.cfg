SPECIFICATION Spec
CONSTANTS MaxLen = 6
  MaxSlots = 3
  Who = {"sampler", "graph", "params"}
  Args = {0, 1}
  Seeds = {0, 1, 2}
INVARIANTS Sound EmitTest
CHECK_DEADLOCK FALSE
