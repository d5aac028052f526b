from . import _sml
_sml.setup(globals(), "C15", ["Binaryset", "Intset", "Rbset"], ["Sets"], "sets",
           assumptions=["the comparison function is pure and total; the set laws are claimed when it is a total preorder, and for two sets when both were made with the same comparison function"])
