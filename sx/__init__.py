"""sx: a bounded symbolic executor for the real brel source.

The package is split into
  core.py    path exploration, solver, symbolic values
  strops.py  operations on strings whose characters are solver variables
  rex.py     regular expressions over such strings
  ops.py     the runtime the instrumented code calls
  instr.py   the AST instrumentation (import hook)
  runner.py  running harnesses, replaying counterexamples, writing evidence
"""
