"""Contracts on mosmllib/Intset.sml"""
from smlv.trans import Contract as F
from .wbset import WB

NAME = "Intset"
GROUP = False
wb = WB(False)
SPEC = wb.spec()
_done = set()
CONTRACTS = [c for c in wb.common() + wb.api() if not (c.key in _done or _done.add(c.key))]
