from . import _sml
_sml.setup(globals(), "C12", ["List", "ListPair", "Option"], ["List"], "lists")
