from irv import crt

from . import _interp
OPS = _interp.by_group("update")
_interp.install(globals(), "C08", OPS, per_op=100, extra_jobs=crt.jobs_store, extra_cases=crt.heap_cases, runner=crt.make_runner)
