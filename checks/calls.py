from irv import crt

from . import _interp
OPS = _interp.by_group("apply")
_interp.install(globals(), "C06", OPS, per_op=40, extra_cases=crt.stack_cases, runner=crt.make_runner)
