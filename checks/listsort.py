from . import _sml
_sml.setup(globals(), "C13", ["Listsort"], ["Listsort"], "sorting",
           assumptions=["the comparison function is pure and total; sortedness is claimed when it is a total preorder, the permutation property always"])
