INTERP = [RT + "interp.c", RT + "instruct.h"]

prop("C01", "intarith", "Integer arithmetic instructions are exact or raise",
     "Executing integer negation, addition, subtraction, multiplication, div, mod, quot, rem and the integer comparisons in the bytecode interpreter yields the mathematically exact result on 63-bit integers. "
     "When the exact result does not fit, Overflow is raised; when the divisor is zero, Div is raised; nothing else is. "
     "div/mod round towards minus infinity, quot/rem towards zero.",
     ["inputs"], "all pairs of 63-bit integers, all machine states",
     "the tests sample a few dozen pairs; there are 2^126", INTERP,
     [("overflow tests by round-trip through the tagged representation", RT + "interp.c: SMLADDINT .. SMLREMINT"),
      ("split multiplication", RT + "interp.c: SMLMULINT")], note=IRNOTE)
prop("C02", "word", "Word arithmetic instructions are modulo 2^63",
     "Executing word addition, subtraction, multiplication, division, modulo, bitwise operations, shifts by 0..62 and unsigned comparisons in the bytecode interpreter yields the result of the corresponding operation on unsigned 63-bit numbers modulo 2^63. "
     "Only division and modulo by zero raise, namely Div.",
     ["inputs"], "all pairs of 63-bit words, all machine states", "the tests sample a few dozen pairs", INTERP,
     [("tag manipulation", RT + "interp.c: ADDINT .. SHIFTRIGHTINTUNSIGNED, EQUNSIGN .. GEUNSIGN")], note=IRNOTE)
prop("C03", "real", "Real arithmetic instructions are IEEE or raise",
     "Executing real negation, addition, subtraction, multiplication, division, comparison and conversion from int in the bytecode interpreter yields the correctly rounded IEEE double result in a fresh real. "
     "A result of magnitude above half the largest finite double raises Overflow and division by zero raises Div.",
     ["inputs"], "all pairs of doubles, all machine states including a full minor heap", "the tests sample a few values", INTERP,
     [("Check_float", RT + "interp.c"), ("float_done allocation", RT + "interp.c")], note=IRNOTE)
prop("C04", "conv", "Conversions between real and int, and checked real functions",
     "floor, ceil, round and trunc of a real return the exactly rounded integer (towards minus infinity, plus infinity, nearest-even, zero) when it fits a 63-bit int, and raise Overflow otherwise (infinities and NaN included). "
     "Integer abs is exact or raises Overflow. "
     "Real abs, sqrt, exp, ln, sin, cos, asin, acos, atan2, pow, sinh, cosh, tanh raise their documented exception exactly outside their domain or when the magnitude of the result exceeds half the largest double, and otherwise return what the C library computes for the very arguments given.",
     ["inputs"], "all 2^64 doubles (pairs for atan2 and pow), all ints", "tests sample a few values; the ends of the int range fail only at single doubles", [RT + "mosml.c"],
     [("sml_floor, sml_ceil, sml_round, sml_trunc, sml_abs_int", RT + "mosml.c"), ("Check_float", RT + "mosml.c")], note=IRNOTE)
prop("C05", "core", "Data-access and branch instructions of the interpreter",
     "Every stack, environment, global, constant, field, vector/string element and branch instruction of the bytecode interpreter has exactly the documented effect on accumulator, stack, environment, program counter and heap, and changes nothing else that is live.",
     ["programs", "inputs"], "every instruction, every well-formed machine state", "the tests only run the instruction sequences their programs happen to compile to", INTERP,
     [("instruction bodies", RT + "interp.c: SWAP .. SETSTRINGCHAR, BRANCH .. BRANCHINTERVAL, SWITCH")], note=IRNOTE)
prop("C06", "calls", "Function application and return instructions",
     "Applying, tail-applying and returning from closures in the bytecode interpreter passes the arguments in order, saves and restores the caller's code pointer, environment and pending argument count, replaces exactly the stated frame on a tail call, builds the closure of a partial application when too few arguments are there and restores its arguments when it is applied again, and keeps doing so when the stack must grow, a signal is pending or a collection is forced at that point.",
     ["programs", "histories"], "every application/return instruction, every machine state, pending signals and stack growth included",
     "stack growth, signals and forced collections at a particular call are not sampled by the tests", INTERP + [RT + "stacks.c"],
     [("apply/appterm/return", RT + "interp.c: PUSH_ENV1_APPLY1 .. RETURN"), ("realloc_stack", RT + "stacks.c"), ("process_signal", RT + "interp.c")], note=IRNOTE)
prop("C07", "exn", "Raising transfers to the innermost handler",
     "Raising an exception in the bytecode interpreter transfers control to the most recently installed and not yet removed handler, with the environment, pending argument count and stack depth of the handler's installation and the exception packet as value; without a handler in the current execution the packet is propagated to the caller. "
     "Installing and removing a handler are inverse.",
     ["programs", "histories"], "every machine state with any chain of handlers", "tests exercise a few nestings", INTERP,
     [("trap frames", RT + "interp.c: PUSHTRAP, POPTRAP, RAISE, raise_exception")], note=IRNOTE)
prop("C08", "update", "Assignment keeps the collector's invariants",
     "Assigning to a ref, array element, global or mutable field in the bytecode interpreter stores exactly the given value in exactly that cell. "
     "Whenever the cell is in the major heap and the stored value is young, the cell is in the remembered set afterwards; during marking the overwritten value is marked.",
     ["histories", "inputs"], "every assignment instruction, every heap state and collector phase", "tests cannot force an assignment at every collector phase and generation pair", INTERP + [RT + "memory.c", RT + "memory.h"],
     [("Modify macro", RT + "memory.h"), ("SETFIELD*, SETVECTITEM, SETGLOBAL", RT + "interp.c")], note=IRNOTE)
prop("C09", "blocks", "Block construction survives a collection",
     "Constructing a block, closure, recursive closure, vector or array of refs in the bytecode interpreter yields a fresh block of the stated size and tag holding the operands (or the copies of the initial value) in order, also when the allocation triggers a collection that moves the operands, and removes exactly the operands from the stack.",
     ["histories", "inputs"], "every block-construction instruction, every fill level of the minor heap", "a collection at a particular allocation is not sampled", INTERP + [RT + "memory.h"],
     [("Alloc_small", RT + "memory.h"), ("MAKEBLOCK*, CLOSURE, CLOSREC, DUMMY, MAKEVECTOR, MAKEREFVECTOR", RT + "interp.c")], note=IRNOTE)
prop("C10", "ccall", "C primitive calls",
     "Calling a C primitive from the bytecode interpreter passes the accumulator and stacked arguments in order, publishes the stack pointer so that every live value is a root, and on return holds the result in the accumulator with exactly the arguments removed.",
     ["programs", "histories"], "every C-call instruction, every machine state, a collection or stack move inside the primitive included", "collections inside a primitive are not sampled", INTERP,
     [("Setup_for_c_call / Restore_after_c_call", RT + "interp.c")], note=IRNOTE)
prop("C11", "strings", "String length and comparison instructions",
     "String length and the six string comparison instructions agree with the length and the lexicographic order of the byte sequences.",
     ["inputs"], "all pairs of strings", "tests sample a few strings", INTERP + [RT + "str.c"],
     [("compare_strings", RT + "str.c"), ("STRINGLENGTH, EQSTRING ..", RT + "interp.c")], note=IRNOTE)
prop("C16", "heap", "Allocation, assignment and collection preserve the reachable heap",
     "Whatever the history of allocations, initialising stores, assignments and minor or major collections, every block reachable from the stack, the C roots and the globals keeps its size, tag and contents, sharing included: a minor collection copies each live young block exactly once and redirects every reference to it, blocks allocated in the major heap survive the collection cycle in progress, assignments keep the remembered set and the marking invariant, and new blocks never overlap live ones.",
     ["histories", "heap states"], "every state in which a block is copied, allocated or assigned; (bounded) random histories of thousands of operations", "a particular order of assignments and collection slices is not sampled",
     [RT + "minor_gc.c", RT + "memory.c", RT + "memory.h", RT + "major_gc.c", RT + "freelist.c"],
     [("oldify, minor_collection, realloc_ref_table", RT + "minor_gc.c"), ("alloc_shr, initialize, modify", RT + "memory.c"), ("darken, mark_slice, sweep_slice", RT + "major_gc.c")], note=IRNOTE)
SMLNOTE = ("The SML source of every listed function in the working tree is translated mechanically on each run (smlv/) to Verus proof functions carrying the contracts of "
           "contracts/; Verus discharges every obligation (postconditions, callee preconditions, match coverage, absence of other exceptions, termination) for all inputs. "
           "Trusted: the translation, its meaning for basis primitives, Verus and z3. Callbacks are arbitrary functions of an abstract world and may raise, "
           "so effects and their order are covered; integers are mathematical. Conformance runs of the compiled library supply failing inputs; bounded, not counted as proof.")
SMLTECH = "contracts on the SML source, translated mechanically on every run, obligations discharged by Verus (z3)"
LB = "src/mosmllib/"


def sml(id, module, title, statement, quant, why, files, mech, note=SMLNOTE, over=("inputs",)):
    prop(id, module, title, statement, list(over), quant, why, [LB + f for f in files], [(n, LB + w) for n, w in mech], note=note, technique=SMLTECH)


sml("C12", "lists", "List, ListPair and Option functions meet their Basis specification",
    "Every function of the List, ListPair and Option structures returns exactly the documented result for every argument, raises its documented exception (Empty, Subscript, Size, UnequalLengths, Option) exactly when documented, "
    "and calls its functional argument on exactly the documented elements in the documented order, propagating the first exception.",
    "all lists, pairs of lists, options and indices; all callbacks, with side effects and exceptions",
    "tests sample a few short lists with pure callbacks; evaluation order and exceptions raised half-way are not sampled", ["List.sml", "ListPair.sml", "Option.sml"],
    [("List functions", "List.sml"), ("ListPair functions", "ListPair.sml"), ("Option functions", "Option.sml")])
sml("C13", "listsort", "List sorting and merging",
    "Listsort.sort returns a permutation of its argument which is sorted in non-decreasing order; sorted decides sortedness; merge of sorted lists is a sorted permutation of both; mergeUniq of strictly sorted lists is strictly sorted "
    "and contains exactly the elements of both up to EQUAL; eqclasses returns the sorted elements grouped into maximal runs of equal elements.",
    "all lists, all total preorders given as comparison functions (permutation claims: all pure comparison functions)",
    "run detection and the merge-pairs counter behave differently for each length and run structure; tests sample a few lists", ["Listsort.sml"],
    [("sort: smooth merge sort", "Listsort.sml: sort"), ("merge, mergeUniq", "Listsort.sml"), ("eqclasses", "Listsort.sml")])
sml("C14", "maps", "Finite maps (Binarymap, Redblackmap, Intmap) behave as sorted association lists",
    "mkDict/empty, insert, find/retrieve, peek, remove, numItems, listItems, app, revapp, foldl, foldr, map and transform agree with a strictly key-sorted association list: insert replaces or adds exactly the entry of the given key, "
    "remove deletes exactly it and returns its value or raises NotFound, numItems is the number of entries, and traversals visit every entry once in (reverse) key order; no operation changes an older version; "
    "red-black trees keep equal black heights and no red node has a red child.",
    "all sequences of operations, all keys and values, all comparison functions that are total preorders, all callbacks with effects and exceptions",
    "tree shapes and rebalancing cases depend on the whole history of insertions and removals; tests build a handful of small trees", ["Binarymap.sml", "Redblackmap.sml", "Intmap.sml"],
    [("weight-balanced tree operations", "Binarymap.sml: insert, remove, T'"), ("red-black insertion and deletion", "Redblackmap.sml: insert, remove, append, balleft"), ("integer maps", "Intmap.sml")])
sml("C15", "sets", "Sets (Binaryset, Intset, Rbset) behave as strictly ascending sequences of elements",
    "empty, singleton, add, addList, member, retrieve, peek, delete, isEmpty, numItems, listItems, union, intersection, difference, isSubset, equal, find, app, revapp, foldl and foldr agree with mathematical sets under the element order: "
    "union, intersection and difference contain exactly the elements the set operation demands, delete removes exactly the given element or raises NotFound, numItems is the number of elements, traversals visit each element once in (reverse) order, and no operation changes an older version; "
    "for Rbset also add', min, max, compare (lexicographic), sublist/subset (exactly the elements of the interval), map, and mapMono, which returns the set of the images of f or raises NonMonotonic exactly when f is not strictly increasing on the set; "
    "weight-balanced trees stay balanced and red-black trees keep their colour and height invariants.",
    "all sequences of operations, all elements, all comparison functions that are total preorders, all callbacks with effects and exceptions",
    "set operations split, join and rebalance trees in shapes that depend on both arguments' histories; tests combine a few small sets", ["Binaryset.sml", "Intset.sml", "Rbset.sml"],
    [("hedge union, split, join, balance", "Binaryset.sml: union, concat, split_lt, split_gt, T'"), ("the same on integers", "Intset.sml"), ("red-black trees, merging by digits, intervals", "Rbset.sml: union, incr, build, fromSortedList, sublist, mapMono")])
