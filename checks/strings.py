from irv import crt

from . import _interp
OPS = _interp.by_group("string")
_interp.install(globals(), "C11", OPS, per_op=100, extra_jobs=crt.jobs_strings, extra_cases=crt.string_cases, runner=crt.make_runner)
