"""Contracts on mosmllib/Binaryset.sml"""
from smlv.trans import Contract as F
from .wbset import WB

NAME = "Binaryset"
GROUP = False
RLIMIT = 30
wb = WB(True)
SPEC = wb.spec()
CONTRACTS = wb.common() + wb.api()
