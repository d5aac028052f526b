from . import _sml
_sml.setup(globals(), "C14", ["Binarymap", "Redblackmap", "Intmap"], ["Maps"], "finite maps",
           assumptions=["the comparison function is pure and total; the map laws are claimed when it is a total preorder"])
