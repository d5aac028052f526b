"""C16: allocation, assignment and collection preserve the reachable heap."""
from irv import build, check, crt, native

PROP = "C16"
LEVEL = "proof"
ASSUMPTIONS = [
    "oldify: one activation is proved, from any state to its return or its tail call; the recursive calls are replaced by the contract under proof (the cell gets the new location of the value; nothing else the caller still reads changes)",
    "young blocks, their copies and the updated cell do not overlap (minor heap, major heap and roots are disjoint memory)",
    "fl_allocate returns a free block of the requested size outside every live block; p_table_in_heap decides membership in the major heap",
    "bounded, not proved: the root scan of minor_collection, the mark, weak and sweep phases and the free list are exercised by histories on the real code only"]
TRUSTED = ["free-list allocator, mark and sweep loops: bounded histories only"]
EXPLANATION = "contracts on the copying step, on allocation in the major heap and on the write barrier; random mutator histories on the compiled runtime compare the reachable graph with a model after every collection (bounded)"
CASE_LIMIT = 240


def prepare(tier):
    native.so()
    native.local_symbols()
    build.constants()


def jobs(tier):
    return crt.jobs_heap(tier)


def cases(tier, seed, models, deep):
    return crt.heap_cases(tier, seed, models, deep, n=120)


runner = crt.make_runner
