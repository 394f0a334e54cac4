"""F01: set helpers compute exactly the shared and unshared elements."""
from operator import and_, or_
fu = load("dustgoggles.func")
ASSUMES = ["elements are hashable and equality of opaque elements is identity", "containment of an opaque container is a pure yes/no predicate"]


def in_all(q, its):
    """present in the first and in every other"""
    return q in its[0] and all(q in i for i in its[1:])


def in_any(q, its):
    return q in its[0] or any(q in i for i in its[1:])


def ob_intersection():
    pure()
    its, q = seq("its"), val("q")
    assume(len(its) > 0)
    got = outcome(lambda: fu.intersection(*its))
    ensure("intersection.no_exception", got[0] == "ok")
    ensure("intersection.is_set", isinstance(got[1], set))
    ensure_same("intersection.members", q in got[1], in_all(q, its))


def ob_disjoint():
    pure()
    its = seq("its")
    assume(len(its) > 0)
    got = outcome(lambda: fu.disjoint(*its))
    want = [[x for x in i if not in_all(x, its)] for i in its]
    ensure_outcome("disjoint.parts", got, ("ok", want))


def ob_are_in():
    pure()
    items, container = lst("items"), val("container")
    assume(len(items) > 0)
    got = outcome(lambda: fu.are_in(items)(container))
    ensure("are_in.no_exception", got[0] == "ok")
    ensure_same("are_in.all", bool(got[1]), items[0] in container and all(i in container for i in items[1:]))
    got = outcome(lambda: fu.are_in(items, or_)(container))
    ensure_same("are_in.any", bool(got[1]), items[0] in container or any(i in container for i in items[1:]))
    got = outcome(lambda: fu.are_in(items, and_)(container))
    ensure_same("are_in.and", bool(got[1]), items[0] in container and all(i in container for i in items[1:]))
