"""The checks: one entry per property, each a list of harness runs."""
from checklib import Prop, Run

PROPS = {}


SHARED = {"v_values.cpp", "o_subs.cpp", "c_lru.cpp", "g_args.cpp", "k_packet.cpp", "c_two.cpp", "o_two.cpp", "v_two.cpp", "g_two.cpp", "k_two.cpp", "a_two.cpp"}    # harnesses that judge one property at a time


def two(src, name, defs, tdefs, what, jobs=4, shim=(), **kw):
    """Two objects of one class used side by side."""
    return Run(src, name=name, defs=defs, tdefs=tdefs, jobs=jobs, shim=list(shim), bounds="two objects side by side: " + what % defs, tbounds="two objects side by side: " + what % {**defs, **tdefs}, **kw)


def side_by_side(pid):
    p = pid.lower()
    if pid in ("A01", "A02", "A03", "A05"):
        return [two("a_two.cpp", p + "_two", {"HEAP": 96, "OPS": 4}, {"HEAP": 112, "OPS": 5}, "%(HEAP)d-byte heaps, every history of %(OPS)d operations of sizes 1..24 on either", covers=["one heap is exhausted", "a block was freed", "done"])]
    if pid in ("C01", "C02", "C03"):
        ev = ["found", "done"]
        runs = [two("c_two.cpp", p + "_two_timed", {"OPS": 3, "TIMED": 1}, {"OPS": 4}, "capacity 2, every history of %(OPS)d calls on either, arbitrary values, clock steps and lifetimes below 2^40 ns", covers=ev + ["expired"])]
        return runs + ([two("c_two.cpp", p + "_two", {"OPS": 4}, {"OPS": 5}, "capacity 2, every history of %(OPS)d calls on either, arbitrary values", covers=ev + ["an eviction"])] if pid != "C03" else [])
    if pid in ("O01", "O02", "O04", "O05"):
        return [two("o_two.cpp", f"{p}_two_{k}", {"DYN": d, "OPS": 4}, {"OPS": 5}, f"{t}, sharing 3 observers, every history of %(OPS)d calls of add, remove, clear and destruction on either, a notification of both after each", covers=["cleared", "destroyed", "done"])
                for k, d, t in (("fixed", 0, "capacity 2"), ("dyn", 1, "dynamic")) if not (pid == "O01" and d) and not (pid == "O04" and not d)]
    if pid in ("M01", "M03"):
        return [two("m_two.cpp", p + "_two", {"OPS": 4}, {"OPS": 6}, "managers of 2, every history of %(OPS)d joins, leaves and messages of arbitrary content on either", covers=["delivered", "full", "done"])]
    if pid in ("G01", "G02", "G03"):
        return [two("g_two.cpp", p + "_two", {"ARGS": 2}, {"ARGS": 3}, "parsers of one set of options under different names, up to %(ARGS)d arguments each, names or digits", shim=["stream"], covers=["done"])]
    if pid in ("K01", "K02", "K03", "K04"):
        return [two("k_two.cpp", p + "_two", {"OPS": 3}, {"OPS": 4}, "packets and accessors of 20 bytes, every history of %(OPS)d stores (two layouts), refused stores, copies and assignments, arbitrary content", shim=["crc"], covers=["done", "refused", "assigned", "copied"])]
    if pid in ("P01", "P03"):
        kinds = [("chain", 1), ("side", 0)]
        if pid == "P01":
            return [two("p_chain.cpp", f"{p}_{k}", {"CHAIN": c, "ITEMS": 2}, {"ITEMS": 3}, ("stages, the handler of one pushes into the other, " if c else "stages fed alternately, ") + "%(ITEMS)d items each, buffers of 1, " + schedule_text(1),
                        jobs=8, opts=sched(1), topts=sched(1), covers=["all handled"]) for k, c in kinds]
        return [two("p_chain.cpp", f"{p}_{k}", {"CHAIN": c, "ITEMS": 2, "POOL": 2}, {}, ("pools of 2, the handler of one pushes into the other, " if c else "pools of 2 fed alternately, ") + "%(ITEMS)d items each, buffers of 1, " + schedule_text(1, True),
                    jobs=4, opts=sched(1, True), topts=sched(2, True), covers=["all handled"]) for k, c in kinds]
    if pid in ("I01", "I02", "I03"):
        return [two("i_two.cpp", p + "_two", {"CHECKS": 2}, {}, "events of 2 periods and 3 check intervals, %(CHECKS)d checks of each, either one stopped first, at once or after its checks, clock steps below 2^32 ns, " + schedule_text(0, True),
                    opts=sched(0, True), topts=sched(1, True), native=False, covers=["called", "the other one goes on", "done"])]
    return []


def values_two(pid):
    p = pid.lower()
    return [two("v_two.cpp", f"{p}_values_two_{k}{'_chain' if c else ''}", {"CAP": cap, "CHAIN": c, "OPS": 3}, {"OPS": 4}, f"observable values, {t}, sharing 3 observed values, every history of %(OPS)d calls of add, remove, clear, destruction and 4 operators on either"
                + (", a callback of one changes the other" if c else ""), covers=["cleared or destroyed", "done"] + (["a callback changed another value"] if c else []))
            for k, cap, t in (("cap2", 2, "capacity 2"), ("dyn", 0, "dynamic")) for c in (0, 1)]


def P(pid, runs, note, assumptions=(), outside=""):
    runs = runs + side_by_side(pid) + (values_two(pid) if pid in ("V01", "V02", "V03", "O05") else [])
    for r in runs:
        if r.src in SHARED:
            r.defs["PROP"] = int(pid[1:])
    PROPS[pid] = Prop(pid, runs, note, assumptions, outside)


BE = "powerpc64-linux-gnu"
P("D01", [Run("d01_order.cpp", bounds="none: all values of all three widths, little-endian target (x86_64)"),
          Run("d01_order.cpp", name="d01_order_be", target=BE, native=False,
              bounds="none: all values of all three widths, big-endian target (powerpc64)")],
  "all values of the three widths, compiled for a little-endian and for a big-endian CPU",
  ["the big-endian run uses clang's powerpc64 code generation with this machine's library headers; it cannot be replayed natively here"],
  "mixed-endian CPUs")
P("D02", [Run("d02_cmp.cpp", bounds="none: all pairs of values of all three widths, little-endian target"),
          Run("d02_cmp.cpp", name="d02_cmp_be", target=BE, native=False, bounds="none: all pairs, big-endian target (powerpc64)")],
  "all pairs of values of the three widths, on a little-endian and a big-endian target",
  ["the big-endian run cannot be replayed natively here"], "comparisons between wrappers of different order or width (not offered)")
P("D03", [Run("d03_swap.cpp", bounds="none: all 2^16, 2^32 and 2^64 arguments"),
          Run("d03_swap.cpp", name="d03_swap_be", target=BE, native=False, bounds="none: all arguments, big-endian target (powerpc64)")],
  "every 16-, 32- and 64-bit argument, on a little-endian and a big-endian target")
P("D04", [Run("d04_serde.cpp", bounds="all values of 12 types (1 to 17 bytes: integers, floats, packed records, bit fields, wrappers, arrays)"),
          Run("d04_serde.cpp", name="d04_large", defs={"LARGE": 1}, bounds="all values of byte blocks of 33, 65, 129, 257, 1025 and 4099 bytes"),
          Run("d04_serde.cpp", name="d04_serde_be", target=BE, native=False, bounds="the same, big-endian target (powerpc64)")],
  "every value of 12 representative types without padding bytes, and of blocks of up to 4099 bytes", outside="types with padding bytes; other element types of the iterator")

LONG = ["--max-steps", "2000000000"]    # instructions on one path


def aged(n, what, cover=True):
    """Options of a run that starts with a long concrete history."""
    return dict(opts=LONG, topts=LONG, jobs=1, tjobs=2, covers=["aged"] if cover else [], bounds=f"after {n[0]} {what}", tbounds=f"after {n[1]} {what}")


HEAPNOTE = "every history of heap operations on small heaps within the depth bounds of the runs, sizes symbolic (every size of every 8-byte class)"
HEAPOUT = "longer histories, larger heaps (the heap code has no size-dependent branch beyond comparisons of sizes and addresses), heaps too small for one block, concurrent use"


def heap_runs(src, extra=None, quick_depth=3, deep=6, base=None, tail=False, covers=(), anysize=True):
    b = dict(base or {})
    d1 = {"DEPTH": quick_depth, **b, **({"TAIL": 1} if tail else {})}
    runs = [Run(src, name=src[:3] + "_sizes", defs=d1, tdefs={"DEPTH": quick_depth + (0 if tail else 1)}, jobs=8, covers=list(covers),
                bounds=f"128-byte heap, every history of {quick_depth} operations, all sizes 1..128 (symbolic)",
                tbounds=f"128-byte heap, every history of {quick_depth + (0 if tail else 1)} operations, all sizes 1..128 (symbolic)"),
            Run(src, name=src[:3] + "_deep", defs={"DEPTH": deep, "CLASSES": 2, "HEAP": 131, **b}, tdefs={"DEPTH": deep + 2, "CLASSES": 1}, jobs=8,
                bounds=f"131-byte heap, every history of {deep} operations, sizes 1..16",
                tbounds=f"131-byte heap, every history of {deep + 2} operations, sizes 1..8"),
            Run(src, name=src[:3] + "_deep2", defs={"DEPTH": deep + 1, "CLASSES": 2, "HEAP": 131, **b}, jobs=8, thorough_only=True,
                bounds=f"131-byte heap, every history of {deep + 1} operations, sizes 1..16"),
            Run(src, name=src[:3] + "_wide", defs={"DEPTH": deep, "CLASSES": 3, "HEAP": 208, "MAXB": 12, **b}, jobs=8, thorough_only=True,
                bounds=f"208-byte heap, every history of {deep} operations, sizes 1..24")]
    return runs + big_runs(src, base)


def big_runs(src, base=None, deep=2, classes=(6, 4)):
    b = dict(base or {})
    frag = ", after {0} allocations of 8, 16 and 24 bytes, of which one of 8 patterns was freed from either end; every history of %d operation(s), sizes 1 to {1}"
    return [Run(src, name=src[:3] + "_aged", defs={"DEPTH": 2, "CLASSES": 2, "HEAP": 112, "AGE": 70000, **b}, opts=LONG, topts=LONG, jobs=2, covers=["aged"],
                bounds="112-byte heap after 70000 allocations and deallocations, every history of 2 operations, sizes 1 to 16"),
            Run(src, name=src[:3] + "_many", defs={"DEPTH": 1, "HEAP": 1600, "FRAG": 24, "MAXB": 30, "CLASSES": classes[0], **b}, tdefs={"DEPTH": deep, "CLASSES": 6}, jobs=8,
                bounds="1600-byte heap" + frag.format(24, 8 * classes[0]) % 1, tbounds="1600-byte heap" + frag.format(24, 48) % deep),
            Run(src, name=src[:3] + "_frag", defs={"DEPTH": deep, "HEAP": 800, "FRAG": 10, "MAXB": 16, "CLASSES": classes[1], **b}, tdefs={"DEPTH": deep, "CLASSES": 8}, jobs=8,
                bounds="800-byte heap" + frag.format(10, 8 * classes[1]) % deep, tbounds="800-byte heap" + frag.format(10, 64) % deep),
            Run(src, name=src[:3] + "_big", defs={"DEPTH": deep, "HEAP": 200000, "BIG": 1, **b}, tdefs={"DEPTH": deep + 1}, jobs=8,
                bounds=f"200000-byte heap, every history of {deep} operations, 12 sizes from 8 to 131072 around powers of two",
                tbounds=f"200000-byte heap, every history of {deep + 1} operations, 12 sizes from 8 to 131072 around powers of two")]


def emergency(p):
    return [Run("a_emergency.cpp", name=p + "_emergency", defs={"HEAP": 128, "DEPTH": 3, "CLASSES": 4}, tdefs={"HEAP": 112, "DEPTH": 4}, jobs=4,
                covers=["the callback asks for a block", "the callback frees a block", "the callback throws"],
                bounds="128-byte heap, every history of 3 operations of sizes 1..32, the failure callback does nothing, throws, or frees any block and may ask for another (up to twice)",
                tbounds="112-byte heap, every history of 4 operations of sizes 1..32, the same callbacks")]


P("A01", heap_runs("a01_blocks.cpp", tail=True, quick_depth=3, deep=6, covers=["an allocation failed"])
  + [Run("a01_blocks.cpp", name="a01_calloc", defs={"DEPTH": 2, "CALLOC": 1, "HEAP": 96, "TAIL": 1, "NULLS": 1}, tdefs={"DEPTH": 3}, jobs=8,
         bounds="96-byte heap, 2 operations including callocate and deallocation of null and freed blocks, all sizes",
         tbounds="96-byte heap, 3 operations including callocate and deallocation of null and freed blocks, all sizes")] + emergency("a01"),
  HEAPNOTE, outside=HEAPOUT)
P("A02", heap_runs("a02_account.cpp", quick_depth=3, deep=6, covers=["an allocation failed"])
  + [Run("a02_account.cpp", name="a02_any", defs={"DEPTH": 2, "ANYSIZE": 1, "HEAP": 96}, jobs=8, bounds="96-byte heap, 2 operations, sizes symbolic over all 64-bit values")] + emergency("a02"),
  HEAPNOTE, outside=HEAPOUT)
P("A03", [Run("a03_fits.cpp", name="a03_sizes", defs={"DEPTH": 2}, tdefs={"DEPTH": 3}, jobs=8,
              covers=["an allocation failed", "a request of any size failed", "a request of any size succeeded"],
              bounds="128-byte heap, every history of 2 operations of all sizes, then a request of any 64-bit size",
              tbounds="128-byte heap, every history of 3 operations of all sizes, then a request of any 64-bit size"),
          Run("a03_fits.cpp", name="a03_deep", defs={"DEPTH": 5, "CLASSES": 1, "HEAP": 131}, tdefs={"DEPTH": 7}, jobs=8,
              bounds="131-byte heap, every history of 5 operations of sizes 1..8, then a request of any 64-bit size",
              tbounds="131-byte heap, every history of 7 operations of sizes 1..8, then a request of any 64-bit size"),
          Run("a03_fits.cpp", name="a03_wide", defs={"DEPTH": 3, "CLASSES": 2, "HEAP": 192, "MAXB": 12}, tdefs={"DEPTH": 5}, jobs=8,
              bounds="192-byte heap, every history of 3 operations of sizes 1..16, then a request of any 64-bit size",
              tbounds="192-byte heap, every history of 5 operations of sizes 1..16, then a request of any 64-bit size")]
  + big_runs("a03_fits.cpp", deep=1, classes=(2, 2)) + emergency("a03"),
  HEAPNOTE + "; the last request has any 64-bit size", outside=HEAPOUT)
P("A04", [Run("a04_nofree.cpp", name="a04_sizes", defs={"DEPTH": 3, "NULLS": 1, "HEAP": 96}, tdefs={"HEAP": 128}, jobs=8,
              bounds="96-byte heap, every history of 3 operations including no-op deallocations, all sizes",
              tbounds="128-byte heap, every history of 3 operations including no-op deallocations, all sizes"),
          Run("a04_nofree.cpp", name="a04_deep", defs={"DEPTH": 6, "NULLS": 1, "CLASSES": 1, "HEAP": 131}, tdefs={"DEPTH": 8}, jobs=8,
              covers=["a freed block was freed again"],
              bounds="131-byte heap, every history of 6 operations including no-op deallocations, sizes 1..8",
              tbounds="131-byte heap, every history of 8 operations including no-op deallocations, sizes 1..8")] + big_runs("a04_nofree.cpp", {"NULLS": 1}),
  HEAPNOTE, outside=HEAPOUT)
P("A05", heap_runs("a05_stats.cpp", quick_depth=3, deep=6, base={"RESETS": 1}, covers=["an allocation failed"])
  + [Run("a05_stats.cpp", name="a05_any", defs={"DEPTH": 2, "ANYSIZE": 1, "HEAP": 96, "NULLS": 1}, jobs=8, bounds="96-byte heap, 2 operations, sizes symbolic over all 64-bit values")],
  HEAPNOTE + "; without free areas the smallest free area is not judged", outside=HEAPOUT)
P("A06", [Run("a06_calloc.cpp", name="a06_small", defs={"KIND": 0, "DEPTH": 2, "CLASSES": 2, "HEAP": 112}, tdefs={"DEPTH": 4, "HEAP": 128}, jobs=4,
              covers=["callocate failed", "callocate succeeded"], bounds="112-byte heap dirtied by every history of 2 operations, all num and size up to 40",
              tbounds="128-byte heap dirtied by every history of 4 operations, all num and size up to 40"),
          Run("a06_calloc.cpp", name="a06_size", defs={"KIND": 1, "DEPTH": 1, "CLASSES": 1, "HEAP": 80}, tdefs={"DEPTH": 2, "HEAP": 112}, jobs=8, covers=["the product overflows"],
              bounds="80-byte heap, 14 values of num (0 to 2^64-1), size any 64-bit value", tbounds="112-byte heap, 14 values of num (0 to 2^64-1), size any 64-bit value"),
          Run("a06_calloc.cpp", name="a06_num", defs={"KIND": 2, "DEPTH": 1, "CLASSES": 1, "HEAP": 80}, tdefs={"DEPTH": 2, "HEAP": 112}, jobs=8, covers=["the product overflows"],
              bounds="80-byte heap, 14 values of size (0 to 2^64-1), num any 64-bit value", tbounds="112-byte heap, 14 values of size (0 to 2^64-1), num any 64-bit value"),
          Run("a06_calloc.cpp", name="a06_large", defs={"KIND": 3, "HEAP": 200000}, jobs=1, covers=["callocate failed", "callocate succeeded"],
              bounds="200000-byte heap whose bytes are all dirty, 42 products up to 65 million bytes")],
  "heaps dirtied by short histories; one factor of the product any 64-bit value, the other one of 14 (or both up to 40)",
  outside="products of two arbitrary large factors (the overflow test divides by a symbol there); longer histories, larger heaps")
P("A07", [Run("a07_allocator.cpp", name="a07_" + n, defs={"TYPE": t, "HEAP": 80}, tdefs={"HEAP": 192}, jobs=2, covers=["bad_alloc", "storage returned"]
              + (["bad_alloc for an overflowing size"] if n != "u8" else []),
              bounds=f"80-byte heap, empty or with one block in use, one allocation of any 64-bit number of objects of {s} bytes, given back through a copy or a converted allocator",
              tbounds=f"192-byte heap, any 64-bit number of objects of {s} bytes")
          for n, t, s in (("u8", "std::uint8_t", 1), ("u32", "std::uint32_t", 4), ("three", "three", 24), ("odd", "odd", 5))]
  + [Run("a07_allocator.cpp", name="a07_large", defs={"TYPE": "three", "HEAP": 100000}, jobs=2, covers=["bad_alloc", "storage returned", "bad_alloc for an overflowing size"],
         bounds="100000-byte heap, objects of 24 bytes, their number below 2, around 10 and 2730, or any 64-bit number from 4160 on")],
  "any 64-bit number of objects of 4 sizes on small heaps", outside="allocate(0) may return anything or throw; over-aligned types")
KINDS = [(0, "vector", 96, 4, 5), (1, "list", 128, 4, 5), (2, "deque", 4096, 3, 4), (3, "string", 80, 4, 5), (4, "map", 192, 4, 5), (5, "unordered_map", 512, 4, 5)]
P("A08", [Run("a08_containers.cpp", name="a08_" + n, defs={"KIND": k, "HEAP": h, "OPS": o}, tdefs={"OPS": to}, jobs=4,
              covers=(["the heap ran out"] if n not in ("deque", "unordered_map") else []),
              bounds=f"std::{n} on a {h}-byte heap, every sequence of {o} operations with symbolic values (keys of 0..5)",
              tbounds=f"std::{n} on a {h}-byte heap, every sequence of {to} operations with symbolic values") for k, n, h, o, to in KINDS]
  + [Run("a08_containers.cpp", name=f"a08_{n}{f}", defs={"KIND": k, "HEAP": h, "OPS": 2, "FILL": f}, tdefs={"OPS": 3}, jobs=2, covers=["three more elements"],
         bounds=f"std::{n} of {f} elements on a {h}-byte heap, then every sequence of 2 operations at both ends and the middle",
         tbounds=f"std::{n} of {f} elements on a {h}-byte heap, then every sequence of 3 operations") for k, n, h, f in ((0, "vector", 1500, 200), (1, "list", 9000, 200), (2, "deque", 6000, 300), (3, "string", 1200, 100))]
  + [Run("a08_containers.cpp", name=f"a08_hash{h}", defs={"KIND": 6, "HEAP": h, "OPS": o, "FILL": f}, tdefs={"OPS": o + 1}, jobs=4, covers=["the heap ran out"] if h == 700 else [],
         bounds=f"std::unordered_map with the buckets of libstdc++ and {f} keys on a {h}-byte heap, then every sequence of {o} operations with 3 new keys and symbolic values",
         tbounds=f"the same, {o + 1} operations") for h, o, f in ((512, 4, 0), (700, 3, 12), (2000, 3, 14))]
  + [Run("a08_containers.cpp", name="a08_mixed", defs={"KIND": 7, "HEAP": 256, "OPS": 5}, tdefs={"OPS": 6}, jobs=8, covers=["the heap ran out"],
         bounds="a shared object, a forward_list, a multiset and a list of vectors on one 256-byte heap, every sequence of 5 operations", tbounds="the same, 6 operations")],
  "nine standard containers and allocate_shared, every sequence of up to 5 operations (insert, erase, clear, copy, move, swap, assign), symbolic values, heaps that run out included",
  outside="other containers and element types; longer sequences")


def lru_runs(prop):
    n = prop.lower()
    src = "c_lru.cpp"
    ev = ["a key was put again", "an eviction", "get of an absent key"]
    runs = []
    if prop != "C03":
        runs += [Run(src, name=n + "_cap2", defs={"OPS": 6, "CAP": 2}, tdefs={"OPS": 7}, jobs=8, covers=ev, 
                     bounds="capacity 2, every history of 6 calls, arbitrary 64-bit keys in one bucket, arbitrary values",
                     tbounds="capacity 2, every history of 7 calls, arbitrary 64-bit keys in one bucket, arbitrary values"),
                 Run(src, name=n + "_cap3", defs={"OPS": 6, "CAP": 3}, tdefs={"OPS": 7}, jobs=8, covers=ev, bounds="capacity 3, every history of 6 calls",
                     tbounds="capacity 3, every history of 7 calls"),
                 Run(src, name=n + "_cap1", defs={"OPS": 5, "CAP": 1}, jobs=8, covers=ev, bounds="capacity 1, every history of 5 calls"),
                 Run(src, name=n + "_int", defs={"OPS": 4, "CAP": 2, "KEYS": 1}, tdefs={"OPS": 5}, jobs=8, covers=ev, bounds="capacity 2, int keys with colliding buckets, 4 calls",
                     tbounds="capacity 2, int keys with colliding buckets, 5 calls"),
                 Run(src, name=n + "_string", defs={"OPS": 3, "CAP": 2, "KEYS": 2, "EXC": "false"}, tdefs={"OPS": 5}, jobs=2, covers=ev, bounds="capacity 2, four std::string keys, exceptions off, 3 calls",
                     tbounds="capacity 2, four std::string keys, exceptions off, 5 calls"),
                 Run(src, name=n + "_cap4", defs={"OPS": 7, "CAP": 4}, jobs=8, covers=ev, thorough_only=True, bounds="capacity 4, every history of 7 calls"),
                 Run(src, name=n + "_full40", defs={"OPS": 2, "CAP": 40, "FILL": 40, "KEYS": 3}, tdefs={"OPS": 3}, jobs=8, covers=ev, bounds="capacity 40, 40 keys put first, then every history of 2 calls with 6 keys of both ends, the middle and new",
                     tbounds="capacity 40, 40 keys put first, then every history of 3 calls with 6 keys"),
                 Run(src, name=n + "_aged", defs={"OPS": 1, "CAP": 3, "FILL": 3, "KEYS": 3, "AGE": 300}, tdefs={"AGE": 70000}, **aged((300, 70000), "rounds of puts and gets on a cache of 3, every call with 6 keys")),
                 Run(src, name=n + "_full130", defs={"OPS": 1, "CAP": 130, "FILL": 130, "KEYS": 3}, tdefs={"CAP": 260, "FILL": 260}, opts=LONG, topts=LONG, jobs=4, covers=ev,
                     bounds="capacity 130, 130 keys put first, then every call with 6 keys", tbounds="capacity 260, 260 keys put first, then every call with 6 keys")]
    tl = ["get of an expired key", "a key was put again", "get of an absent key"]
    if prop == "C03":
        runs += [Run(src, name=n + "_wide", defs={"OPS": 3, "CAP": 2, "TIMED": 1, "CLK": 59, "LIFEBITS": 62}, tdefs={"OPS": 4}, jobs=8, covers=tl,
                     bounds="capacity 2, every history of 3 calls, clock steps before every call any number of nanoseconds up to 18 years, every lifetime up to 146 years",
                     tbounds="capacity 2, every history of 4 calls, the same steps and lifetimes"),
                 Run(src, name=n + "_noexc", defs={"OPS": 3, "CAP": 2, "TIMED": 1, "EXC": "false"}, tdefs={"OPS": 4}, jobs=8, covers=tl, bounds="the same with exceptions off, steps and lifetimes below 2^40 ns (18 minutes)",
                     tbounds="the same with exceptions off")]
    runs += [Run(src, name=n + "_timed", defs={"OPS": 4, "CAP": 2, "TIMED": 1, "CLK": 12}, tdefs={"OPS": 5}, jobs=8, covers=tl + ["an eviction"],
                 bounds="capacity 2, every history of 4 calls, clock steps and lifetime below 2^12 ns", tbounds="capacity 2, every history of 5 calls, clock steps and lifetime below 2^12 ns"),
             Run(src, name=n + "_timed1", defs={"OPS": 4, "CAP": 1, "TIMED": 1, "CLK": 12}, tdefs={"OPS": 5}, jobs=8, covers=tl + ["an eviction"],
                 bounds="capacity 1, every history of 4 calls, clock steps and lifetime below 2^12 ns", tbounds="capacity 1, every history of 5 calls, clock steps and lifetime below 2^12 ns")]
    return runs


for _p in ("C01", "C02", "C03"):
    P(_p, lru_runs(_p), "every history of put and get (and clock steps) up to the bounds, against a reference LRU cache; afterwards every key ever put is looked up",
      outside="longer histories, capacities above 4, capacity 0, concurrent use, clocks running backwards")


def sub_runs(prefix, kinds, ev, clear=1, ops=None):
    runs = []
    for cap, n, o, to in kinds:
        o, to = (ops or (o, to))
        kind = f"capacity {cap}" if cap else "dynamic"
        b = f"{kind}, {n} observers, every history of %d calls of add, remove" + (", clear" if clear else "") + " and notify, then a notification and the destructor"
        runs.append(Run("o_subs.cpp", name=f"{prefix}_{'cap%d' % cap if cap else 'dyn'}", defs={"CAP": cap, "N": n, "OPS": o, "CLEAR": clear}, tdefs={"OPS": to}, jobs=8,
                        covers=ev + (["list full"] if cap else []), bounds=b % o, tbounds=b % to))
    return runs


def prefill_runs(prefix, kinds, clear=1):
    runs = []
    for cap, n, pre, o, to in kinds:
        kind = f"capacity {cap}" if cap else "dynamic"
        b = f"{kind}, starting with any number of 0 to {pre} subscribers of {n} observers, every history of %d calls of add, remove" + (", clear" if clear else "") + " and notify, then a notification and the destructor"
        runs.append(Run("o_subs.cpp", name=f"{prefix}_{'cap%d' % cap if cap else 'dyn'}_from{pre}", defs={"CAP": cap, "N": n, "PREFILL": pre, "OPS": o, "CLEAR": clear}, tdefs={"OPS": to}, jobs=8,
                        covers=["added twice", "removed an unsubscribed observer", "destroyed with subscribers"] + (["list full"] if cap and n > cap else []), bounds=b % o, tbounds=b % to))
    return runs


def scale_runs(prefix, caps=(300, 0), clear=1):
    return [Run("o_subs.cpp", name=f"{prefix}_scale{cap or '_dyn'}", defs={"CAP": cap, "N": 301, "FILL": 300, "OPS": 1, "CLEAR": clear, "LOGSIZE": 2000}, tdefs={"OPS": 2, "LOGSIZE": 3000}, jobs=8,
                bounds=f"{'capacity 300' if cap else 'dynamic'}, 300 subscribers, every call of add, remove" + (", clear" if clear else "") + " and notify for 6 of the observers (the ends, the middle, an unsubscribed one), then a notification and the destructor",
                tbounds=f"{'capacity 300' if cap else 'dynamic'}, 300 subscribers, every two calls for 6 of the observers, then a notification and the destructor") for cap in caps]


def sub_aged(prefix, caps=(3, 0), clear=1):
    return [Run("o_subs.cpp", name=f"{prefix}_aged{cap or '_dyn'}", defs={"CAP": cap, "N": 4, "OPS": 1, "CLEAR": clear, "AGE": 700}, tdefs={"AGE": 70000, "OPS": 2},
                **aged((700, 70000), f"subscriptions, notifications and removals ({'capacity 3' if cap else 'dynamic'}, 4 observers), every call (thorough: every two calls)")) for cap in caps]


def value_aged(prefix, caps=(3, 0)):
    return [Run("v_values.cpp", name=f"{prefix}_vaged{cap or '_dyn'}", defs={"CAP": cap, "N": 4, "OPS": 1, "CLEAR": 1, "VALS": 9, "AGE": 700}, tdefs={"AGE": 70000},
                **aged((700, 70000), f"subscriptions, changes and removals ({'capacity 3' if cap else 'dynamic'}, 4 observers), every call")) for cap in caps]


def value_scale_runs(prefix, caps=(300, 0)):
    return [Run("v_values.cpp", name=f"{prefix}_scale{cap or '_dyn'}", defs={"CAP": cap, "N": 301, "FILL": 300, "OPS": 1, "CLEAR": 1, "VALS": 1}, tdefs={"OPS": 2}, jobs=8,
                bounds=f"{'capacity 300' if cap else 'dynamic'}, 300 subscribers, every call of add, remove, clear and assignment for 6 of the observers",
                tbounds=f"{'capacity 300' if cap else 'dynamic'}, 300 subscribers, every two calls of add, remove, clear and assignment for 6 of the observers") for cap in caps]


SUBEV = ["added twice", "removed an unsubscribed observer", "destroyed with subscribers"]
FIXED = [(1, 2, 5, 6), (2, 3, 5, 6), (3, 4, 4, 5)]
SUBOUT = "longer histories, larger lists (the code loops over the list, with no size-dependent branch but the capacity test), callbacks that change the subscriptions"
P("O01", sub_runs("o01", FIXED, SUBEV, clear=0) + prefill_runs("o01", [(5, 6, 5, 3, 4), (8, 9, 8, 2, 3), (17, 18, 17, 1, 2)], clear=0) + scale_runs("o01", (300,), 0) + sub_aged("o01", (3,)),
  "every history of calls on fixed-capacity observables of capacity 1 to 17 and 300, with one observer more than fit", outside=SUBOUT)
P("O02", sub_runs("o02", FIXED[:2] + [(0, 3, 5, 6)], SUBEV + ["cleared subscribers"]) + prefill_runs("o02", [(8, 8, 8, 2, 3), (0, 9, 9, 2, 3), (20, 20, 20, 1, 2)]) + scale_runs("o02") + sub_aged("o02"),
  "every history on fixed and dynamic observables; message contents arbitrary", outside=SUBOUT)
P("O03", [Run("o03_recursion.cpp", defs={"N": 3, "ROUNDS": 2}, tdefs={"ROUNDS": 3}, jobs=4, covers=["refused", "other observable"],
              bounds="0 to 3 subscribers, 2 outer notifications, every callback does one of: nothing, 1 or 2 inner notifications, a notification of another observable whose subscriber notifies both",
              tbounds="0 to 3 subscribers, 3 outer notifications, the same callbacks"),
          Run("o03_recursion.cpp", name="o03_aged", defs={"N": 1, "ROUNDS": 1, "AGE": 700}, tdefs={"AGE": 70000}, **aged((700, 70000), "notifications with two refused ones inside each, one more with any choice of what the callback does")),
          Run("o03_recursion.cpp", name="o03_storm", defs={"N": 2, "ROUNDS": 1, "AGE": 2, "STORM": 700}, tdefs={"STORM": 70000}, opts=LONG, topts=LONG, jobs=1, covers=["refused", "aged"],
              bounds="two notifications with 700 refused ones in every callback, one more with any choice of what the callbacks do", tbounds="two notifications with 70000 refused ones in every callback"),
          Run("o03_recursion.cpp", name="o03_four", defs={"N": 4, "ROUNDS": 1}, jobs=4, covers=["refused", "other observable"], bounds="0 to 4 subscribers, one outer notification")],
  "every number of subscribers up to 4 and every choice of what each callback does", outside="deeper nesting through more observables, larger lists")
P("O04", sub_runs("o04", [(0, 3, 5, 6)], SUBEV, clear=1) + sub_runs("o04_four", [(0, 4, 4, 5)], SUBEV, clear=0) + prefill_runs("o04", [(0, 6, 6, 3, 4), (0, 20, 20, 1, 2)]) + scale_runs("o04", (0,)) + sub_aged("o04", (0,)), "every history of calls on the dynamic observable", outside=SUBOUT)
VCL = ["cleared subscribers", "destroyed with subscribers"]
P("O05", sub_runs("o05", [(2, 3, 4, 6), (0, 3, 4, 6)], SUBEV + VCL) + prefill_runs("o05", [(8, 9, 8, 2, 3), (0, 9, 9, 2, 3)]) + scale_runs("o05") + sub_aged("o05") + value_aged("o05") + value_scale_runs("o05_values")
  + [Run("v_values.cpp", name="o05_values_" + k, defs={"CAP": c, "N": 2, "OPS": 4, "VALS": 1, "CLEAR": 1}, tdefs={"OPS": 6}, jobs=4, covers=VCL,
         bounds=f"observable values, {k}, 2 observers, every history of 4 calls of add, remove, clear and assignment",
         tbounds=f"observable values, {k}, 2 observers, every history of 6 calls of add, remove, clear and assignment") for k, c in (("capacity2", 2), ("dynamic", 0))],
  "every history before the clear or the destructor, on all four observable kinds", outside=SUBOUT)
P("O06", [Run("o06_static.cpp", bounds="none on data; chains of 1, 2, 3 and 4 observers, also with a repeated observer")],
  "every data value, chains of 1 to 4 observers", outside="longer chains")

VOUT = "longer histories, more observers; value types other than the listed ones; the volatile overloads, which do not compile; operands are int, as the operators declare them"
VTYPES = [("int", "int"), ("u8", "std::uint8_t"), ("i16", "std::int16_t"), ("u32", "std::uint32_t"), ("i64", "std::int64_t"), ("u64", "std::uint64_t")]


def value_runs(p):
    runs = []
    for k, c in (("cap2", 2), ("dyn", 0)):
        runs.append(Run("v_values.cpp", name=f"{p}_subsets_{k}", defs={"CAP": c, "N": 2, "OPS": 2, "SUBS": 0}, tdefs={"OPS": 3}, jobs=4, covers=["destroyed with subscribers"],
                        bounds=f"int, {k}, every subset of 2 subscribers, every sequence of 2 operators with arbitrary operands",
                        tbounds=f"int, {k}, every subset of 2 subscribers, every sequence of 3 operators with arbitrary operands"))
        runs.append(Run("v_values.cpp", name=f"{p}_mixed_{k}", defs={"CAP": c, "N": 2, "OPS": 3}, tdefs={"OPS": 4}, jobs=8, covers=["removed", "added twice"],
                        bounds=f"int, {k}, 2 observers, every history of 3 calls of add, remove and any operator",
                        tbounds=f"int, {k}, 2 observers, every history of 4 calls of add, remove and any operator"))
    for n, t in VTYPES[1:]:
        runs.append(Run("v_values.cpp", name=f"{p}_{n}", defs={"CAP": 1 if n != "i16" else 0, "N": 1, "OPS": 2, "SUBS": 0, "VT": t}, tdefs={"OPS": 3}, jobs=1,
                        bounds=f"{t}, with and without a subscriber, every sequence of 2 operators with arbitrary operands",
                        tbounds=f"{t}, with and without a subscriber, every sequence of 3 operators with arbitrary operands"))
    for k, c in (("cap8", 8), ("dyn", 0)) if p == "v01" else ():
        runs.append(Run("v_values.cpp", name=f"{p}_many_{k}", defs={"CAP": c, "N": 8, "PREFILL": 8, "OPS": 2, "VALS": 1}, tdefs={"OPS": 3}, jobs=8, covers=["removed", "added twice"],
                        bounds=f"int, {k}, starting with 0 to 8 subscribers, every history of 2 calls of add, remove and assignment",
                        tbounds=f"int, {k}, starting with 0 to 8 subscribers, every history of 3 calls of add, remove and assignment"))
    for k, c in (("cap2", 2), ("dyn", 0)) if p == "v02" else ():
        runs.append(Run("v_values.cpp", name=f"{p}_nested_{k}", defs={"CAP": c, "N": 2, "NEST": 1, "OPS": 1, "SUBS": 0}, tdefs={"OPS": 2}, jobs=8, covers=["changed from inside a callback"],
                        bounds=f"int, {k}, one operator with arbitrary operands and a callback that may assign or increment the value meanwhile",
                        tbounds=f"int, {k}, two operators with arbitrary operands and a callback that may assign or increment the value meanwhile"))
    runs.append(Run("v_values.cpp", name=f"{p}_double", defs={"CAP": 0, "N": 1, "OPS": 1, "SUBS": 0, "VT": "double"}, tdefs={"OPS": 2}, jobs=2,
                    bounds="double holding 16-bit integers, one operator", tbounds="double holding 16-bit integers, two operators"))
    return runs


P("V01", value_runs("v01") + value_scale_runs("v01") + value_aged("v01"), "every sequence of operators and operands up to the bounds, fixed and dynamic, with subscriptions changing in between", outside=VOUT)
P("V02", value_runs("v02") + value_aged("v02"), "every sequence of operators and operands up to the bounds for 7 value types", outside=VOUT)
P("V03", [Run("v_values.cpp", name=f"v03_{k}", defs={"CAP": c, "N": n, "OPS": o, "VALS": 1, "CLEAR": 1}, tdefs={"OPS": to}, jobs=8,
              covers=["removed", "added twice"] + (["list full"] if c else []), bounds=f"{k}, {n} observers, every history of {o} calls of add, remove, clear and assignment of any value",
              tbounds=f"{k}, {n} observers, every history of {to} calls of add, remove, clear and assignment of any value")
          for k, c, n, o, to in (("capacity1", 1, 2, 5, 6), ("capacity2", 2, 3, 5, 6), ("capacity3", 3, 4, 4, 5), ("dynamic", 0, 3, 5, 6))]
  + [Run("v_values.cpp", name=f"v03_{k}_from{pre}", defs={"CAP": c, "N": n, "PREFILL": pre, "OPS": o, "VALS": 1, "CLEAR": 1}, tdefs={"OPS": to}, jobs=8,
         covers=["removed", "added twice"] + (["list full"] if c else []), bounds=f"{k}, starting with any number of 0 to {pre} subscribers of {n}, every history of {o} calls of add, remove, clear and assignment",
         tbounds=f"{k}, starting with any number of 0 to {pre} subscribers of {n}, every history of {to} calls of add, remove, clear and assignment")
     for k, c, n, pre, o, to in (("capacity5", 5, 6, 5, 2, 3), ("capacity8", 8, 9, 8, 2, 3), ("dynamic", 0, 9, 9, 2, 3))] + value_scale_runs("v03") + value_aged("v03"),
  "every history of subscription changes and assignments", outside=VOUT)


MOUT = "more modules and message types, histories with more calls; modules that join or leave while a message is being delivered"


def med_scale(p):
    return [Run("m_mediator.cpp", name=p + "_aged", defs={"CAP": 3, "SLOTS": 4, "OPS": 1, "AGE": 700}, tdefs={"AGE": 70000}, **aged((700, 70000), "joins, messages and leaves of one module, one more join with messages")),
            Run("m_mediator.cpp", name=p + "_twenty", defs={"SCALE": 1, "CAP": 20, "SLOTS": 21, "OPS": 3}, tdefs={"OPS": 4}, jobs=4,
                bounds="full manager of 20, every history of 3 joins and leaves of 5 modules (the ends and the middle) with messages in between", tbounds="full manager of 20, every history of 4 joins and leaves"),
            Run("m_mediator.cpp", name=p + "_full260", defs={"SCALE": 1, "CAP": 260, "SLOTS": 261, "OPS": 1, "HITS": 400}, tdefs={"OPS": 2}, jobs=4,
                bounds="full manager of 260, one leave and messages", tbounds="full manager of 260, every history of 2 joins and leaves")]


def med_nested(p):
    return Run("m_nested.cpp", name=p + "_nested", defs={"DEPTH": 2, "SENDS": 3}, tdefs={"DEPTH": 3, "SENDS": 4}, jobs=4, covers=["a module sends from inside its callback", "the manager sends from inside a callback", "all sent"],
               bounds="4 modules of 3 kinds, every choice of up to 3 messages sent from inside callbacks (up to 2 deep), arbitrary contents",
               tbounds="the same, up to 4 messages and 3 deep")


P("M01", [Run("m_mediator.cpp", name="m01_sets", defs={"FIXEDSET": 1, "CAP": 3, "OPS": 1}, tdefs={"OPS": 2}, jobs=4, covers=["delivered", "nobody to deliver to"],
              bounds="every ordered set of up to 3 modules of 8 kinds, every sender (a module or the manager), 4 message types, one message of arbitrary content",
              tbounds="every ordered set of up to 3 modules of 8 kinds, every sequence of two messages"),
          Run("m_mediator.cpp", name="m01_four", defs={"FIXEDSET": 1, "CAP": 4, "OPS": 1}, tdefs={"CAP": 5}, jobs=8, covers=["delivered", "nobody to deliver to"],
              bounds="every ordered set of up to 4 modules of 8 kinds, one message", tbounds="every ordered set of up to 5 modules of 8 kinds, one message"),
          Run("m_mediator.cpp", name="m01_reply", defs={"FIXEDSET": 1, "CAP": 3, "OPS": 1, "REPLY": 1}, tdefs={"CAP": 4}, jobs=4, covers=["a receiver answered"],
              bounds="every ordered set of up to 3 modules, receivers that answer while the message is being distributed", tbounds="the same with up to 4 modules"), med_nested("m01")] + med_scale("m01"),
  "every ordered set of modules of 8 kinds (sending one of 5 types, receiving none to four), every sender, arbitrary contents", outside=MOUT)
P("M02", [Run("m02_bits.cpp", jobs=2, covers=["a raw message of the right size", "a raw message of the wrong size"],
              bounds="10 message shapes (1 to 66000 bytes), every field value, raw messages of every size from 0 to two bytes more than the type"), med_nested("m02")],
  "every content of 10 message shapes, every raw size up to two bytes above the type's", outside="message types that are not trivially copyable (not offered)")
P("M03", [Run("m_mediator.cpp", name="m03_history", defs={"CAP": 3, "SLOTS": 4, "OPS": 5}, tdefs={"OPS": 8}, jobs=8, covers=["no room", "one that is not the last leaves", "delivered"],
              bounds="manager of 3, 4 modules, every history of 5 joins and leaves with messages after each, then every order of leaving",
              tbounds="manager of 3, 4 modules, every history of 8 joins and leaves with messages after each, then every order of leaving"),
          Run("m_mediator.cpp", name="m03_one", defs={"CAP": 1, "SLOTS": 3, "OPS": 5}, jobs=2, covers=["no room"], bounds="manager of 1, 3 modules, every history of 5 joins and leaves"),
          Run("m_mediator.cpp", name="m03_five", defs={"CAP": 4, "SLOTS": 5, "OPS": 5}, tdefs={"OPS": 6}, jobs=8, covers=["no room", "one that is not the last leaves", "delivered"],
              bounds="manager of 4, 5 modules, every history of 5 joins and leaves", tbounds="manager of 4, 5 modules, every history of 6 joins and leaves")] + med_scale("m03"),
  "every history of joins and leaves up to the bounds, on managers of 1, 3 and 4", outside=MOUT)


def sched(n, delay=False):
    return ["--preempt", str(n)] + (["--delay"] if delay else [])


def schedule_text(n, delay=False):
    return (f"every schedule with at most {n} deviations from round-robin" if n else "the round-robin schedule") if delay else f"every schedule with at most {n} preemptions (any choice whenever a thread waits)"


PASS = ["sequential consistency between atomic operations; data races are reported instead of being given a meaning",
        "a counterexample is confirmed by running its schedule again with concrete inputs in the engine, not natively"]
POUT = "more items, larger buffers, schedules with more preemptions, weak-memory reorderings of atomic operations weaker than the happens-before relation shows, a handler that pushes into its own full stage"


def stage_run(prop, buf, items, producers, q, t, delay=False, thorough_only=False, titems=None, debug=False):
    b = f"buffer of {buf}, {producers} producer(s) of %d item(s) with arbitrary content, " + ("compiled with DEBUG, " if debug else "")
    dbg = {"DEBUG": 1} if debug else {}
    return Run("p_stage.cpp", name=f"{prop}_b{buf}_i{items}_p{producers}" + ("_debug" if debug else ""), defs={"BUF": buf, "ITEMS": items, "PRODUCERS": producers, **dbg}, tdefs={"ITEMS": titems or items},
               opts=sched(q, delay), topts=sched(t, delay), jobs=8, covers=["all handled"], thorough_only=thorough_only,
               bounds=b % items + schedule_text(q, delay), tbounds=b % (titems or items) + schedule_text(t, delay))


def deep_run(prop, pool, buf, items, wait, titems=None):
    what = f"pool of {pool}, buffers of {buf}" if pool else f"buffer of {buf}"
    b = f"{what}, %d items with arbitrary content" + (", the handlers wait until all are pushed, " if wait else ", ") + schedule_text(0, True)
    return Run("p_deep.cpp", native=not wait, name=f"{prop}_deep{pool}" + (f"_b{buf}" if titems else ""), defs={"POOL": pool, "BUF": buf, "ITEMS": items, "WAIT": wait}, tdefs={"ITEMS": titems or items},
               opts=sched(0, True) + LONG, topts=sched(0, True) + LONG, jobs=1, tjobs=1, covers=["all handled"], bounds=b % items, tbounds=b % (titems or items))


P("P01", [stage_run("p01", 2, 3, 1, 3, 4), stage_run("p01", 1, 3, 1, 3, 4), stage_run("p01", 3, 4, 1, 2, 3), stage_run("p01", 2, 6, 1, 1, 2, titems=7), stage_run("p01", 2, 3, 1, 2, 3, debug=True), deep_run("p01", 0, 300, 700, 0), deep_run("p01", 0, 3, 66000, 0, 140000)],
  "every interleaving of one producer, the worker and the destructor within the preemption bound, more items than the buffer holds", PASS, outside=POUT)
P("P02", [stage_run("p02", 2, 1, 2, 2, 3), stage_run("p02", 2, 2, 2, 2, 2), stage_run("p02", 1, 2, 2, 1, 2), stage_run("p02", 2, 1, 3, 1, 1), stage_run("p02", 2, 2, 3, 1, 1, thorough_only=True)],
  "every interleaving of two or three producers, the worker and the destructor within the preemption bound, with data-race detection", PASS, outside=POUT)


def pool_run(pool, buf, items, producers, q, t, delay=False, thorough_only=False, debug=False):
    b = f"pool of {pool}, buffers of {buf}, {producers} producer(s) of {items} item(s) with arbitrary content, " + ("compiled with DEBUG, " if debug else "")
    dbg = {"DEBUG": 1} if debug else {}
    return Run("p_pool.cpp", name=f"p03_w{pool}_b{buf}_i{items}_p{producers}" + ("_debug" if debug else ""), defs={"POOL": pool, "BUF": buf, "ITEMS": items, "PRODUCERS": producers, **dbg},
               opts=sched(q, delay), topts=sched(t, delay), jobs=8, covers=["all handled"], thorough_only=thorough_only,
               bounds=b + schedule_text(q, delay), tbounds=b + schedule_text(t, delay))


P("P03", [pool_run(1, 1, 3, 1, 2, 3), pool_run(2, 2, 2, 1, 2, 2), pool_run(2, 1, 3, 1, 1, 2), pool_run(3, 1, 2, 1, 1, 2), pool_run(9, 1, 3, 1, 1, 1, delay=True),
          pool_run(2, 2, 1, 2, 1, 2), pool_run(2, 1, 2, 1, 3, 3, thorough_only=True), pool_run(2, 1, 2, 2, 1, 1, thorough_only=True), pool_run(2, 1, 2, 1, 1, 2, debug=True), deep_run("p03", 3, 200, 700, 0), deep_run("p03", 3, 3, 66000, 0, 140000)],
  "every interleaving of producers, workers and the destructor within the preemption bound, pools of 1, 2, 3 and 9", PASS, outside=POUT)


def dispatch_run(pool, buf, ops, tops, q, t):
    b = f"pool of {pool}, buffers of {buf}, every history of %d steps, each a push or one worker finishing its item, "
    return Run("p_dispatch.cpp", native=False, name=f"p04_w{pool}_b{buf}", defs={"POOL": pool, "BUF": buf, "OPS": ops}, tdefs={"OPS": tops}, opts=sched(q, True), topts=sched(t, True), jobs=8,
               covers=["a worker finished"] + (["all workers had items waiting"] if buf > 1 and ops > pool * 2 else []), bounds=b % ops + schedule_text(q, True), tbounds=b % tops + schedule_text(t, True))


def block_run(pool, buf, more, q, t):
    b = f"pool of {pool}, buffers of {buf}, all full and all workers in a handler, then {more} threads that push and wait for room, "
    return Run("p_block.cpp", native=False, name=f"p04_block{pool}_b{buf}", defs={"POOL": pool, "BUF": buf, "MORE": more}, opts=sched(q, True), topts=sched(t, True), jobs=4,
               covers=["all handled"], bounds=b + schedule_text(q, True), tbounds=b + schedule_text(t, True))


P("P04", [block_run(2, 1, 3, 1, 2), block_run(3, 2, 4, 1, 1), block_run(4, 1, 6, 0, 1), dispatch_run(2, 2, 6, 7, 1, 1), dispatch_run(2, 1, 4, 5, 1, 2), dispatch_run(3, 2, 7, 8, 0, 0), dispatch_run(3, 1, 5, 5, 1, 1), dispatch_run(1, 2, 4, 5, 1, 2), dispatch_run(9, 1, 5, 6, 0, 0), deep_run("p04", 2, 300, 520, 1), deep_run("p04", 4, 140, 520, 1), deep_run("p04", 9, 6, 45, 1), deep_run("p04", 11, 3, 30, 1)],
  "every history of pushes and finished items up to the bounds; the number of items waiting at each worker is known at every push", PASS,
  outside="pushes that overlap in time (the loads change while they are compared), more steps")


IOUT = "more checks, periods above 1 s other than the listed ones, clocks running backwards, an interval of 0 between checks, stop() called from inside the callback, moves of the std::thread obtained from thread()"
RR = sched(0, True)
P("I01", [Run("i01_cadence.cpp", name="i01_cadence", native=False, defs={"CHECKS": 3, "BITS": 57, "PBITS": 33, "WBITS": 31}, tdefs={"CHECKS": 5}, opts=RR, topts=RR, jobs=4, covers=["called", "late by more than a period", "done"],
              bounds="3 checks, every period of 0 to 2^33 ms (99 days), every wait of 1 to 2^31 ms (24 days), clock steps of any number of nanoseconds below 2^57 (4 years)",
              tbounds="5 checks, every period of 0 to 2^33 ms (99 days), every wait of 1 to 2^31 ms (24 days), clock steps of any number of nanoseconds below 2^57 (4 years)"),
          Run("i01_cadence.cpp", name="i01_reset", native=False, defs={"CHECKS": 2, "RESET": 1}, tdefs={"CHECKS": 3}, opts=RR, topts=RR, jobs=4, covers=["called", "period changed", "done"],
              bounds="2 checks, callbacks that may set a new period of 0, 3 or 700 ms", tbounds="3 checks, callbacks that may set a new period of 0, 3 or 700 ms"),
          Run("i01_cadence.cpp", name="i01_every", native=False, defs={"CHECKS": 12, "BITS": 40, "ALWAYS": 1}, tdefs={"CHECKS": 24}, opts=RR, topts=RR, jobs=1, covers=["called", "late by more than a period", "done"],
              bounds="12 checks, each more than a second and up to 18 minutes after the one before, every period and wait", tbounds="24 checks, each more than a second and up to 18 minutes after the one before, every period and wait"),
          Run("i01_cadence.cpp", name="i01_aged", native=False, defs={"CHECKS": 702, "AGE": 700, "BITS": 36}, tdefs={"CHECKS": 70002, "AGE": 70000}, opts=RR + LONG, topts=RR + LONG, jobs=1, tjobs=2, covers=["called", "done"],
              bounds="700 checks a period or a microsecond more apart, then 2 checks with clock steps below 68 seconds, 3 periods", tbounds="70000 checks a period or a microsecond more apart, then 2 checks with clock steps below 68 seconds, 3 periods"),
          Run("i01_cadence.cpp", name="i01_catch_up", native=False, defs={"CHECKS": 12, "BITS": 40, "ALWAYS": 2}, tdefs={"CHECKS": 24}, opts=RR, topts=RR, jobs=1, covers=["called", "late by more than a period", "done"],
              bounds="12 checks after one delay of 34 seconds to 18 minutes, every period and wait", tbounds="24 checks after one delay of 34 seconds to 18 minutes, every period and wait")],
  "every sequence of clock readings over a few checks; a callback may be up to 1 ms and a millionth of the period late without alarm (the code compares nanoseconds with a number of milliseconds)", PASS, outside=IOUT)
P("I02", [Run("i02_stop.cpp", name="i02_stop", native=False, opts=sched(8), topts=sched(12), jobs=2, covers=["stopped after a callback", "stopped twice", "destroyed without stop"],
              bounds="4 settings of period and check interval, up to 2 callbacks, " + schedule_text(8), tbounds="4 settings of period and check interval, up to 2 callbacks, " + schedule_text(12)),
          Run("i02_stop.cpp", name="i02_more", native=False, defs={"TICKS": 4, "CALLBACK_YIELDS": 2}, tdefs={"TICKS": 8}, opts=sched(6), topts=sched(12), jobs=2, covers=["stopped after a callback", "stopped twice", "destroyed without stop"],
              bounds="4 clock readings that advance, " + schedule_text(6), tbounds="8 clock readings that advance, " + schedule_text(12))],
  "every interleaving of stop, a second stop and the destructor with the event thread, with data-race and use-after-free detection", PASS, outside=IOUT)
P("I03", [Run("i03_settings.cpp", name="i03_construct", native=False, opts=sched(2), topts=sched(4), jobs=8, covers=["called", "done"],
              bounds="2 checks, " + schedule_text(2) + ", every period and wait of 1 to 255 ms", tbounds="2 checks, " + schedule_text(4) + ", every period and wait of 1 to 255 ms"),
          Run("i03_settings.cpp", name="i03_long", native=False, defs={"LONG": 1, "CHECKS": 1, "SETTER": 3}, tdefs={"CHECKS": 2}, opts=sched(0), topts=sched(1), jobs=8, covers=["called", "done"],
              bounds="1 check, every setting of 8 between 1 ms and 49 days before and after, clock steps of up to 104 days, " + schedule_text(0) + "; any 64-bit setting can be read back",
              tbounds="2 checks, every setting of 8 between 1 ms and 49 days before and after, clock steps of up to 104 days, " + schedule_text(1)),
          Run("i03_settings.cpp", name="i03_wait", native=False, defs={"SETTER": 2}, tdefs={"CHECKS": 3}, opts=sched(2), topts=sched(3), jobs=8, covers=["called", "check after the setter returned"],
              bounds="2 checks, check interval set by another thread, " + schedule_text(2), tbounds="3 checks, check interval set by another thread, " + schedule_text(3)),
          Run("i03_settings.cpp", name="i03_period", native=False, defs={"SETTER": 1}, opts=sched(1), topts=sched(2), jobs=8, covers=["called", "check after the setter returned"],
              bounds="2 checks, period set by another thread, " + schedule_text(1), tbounds="2 checks, period set by another thread, " + schedule_text(2)),
          Run("i03_settings.cpp", name="i03_both", native=False, defs={"SETTER": 3}, opts=sched(2), topts=sched(2), jobs=8, thorough_only=True, bounds="2 checks, both set by another thread, " + schedule_text(2))],
  "every interleaving of the constructor and the setters with the event thread", PASS, outside=IOUT)


def threads_run(src, name, defs, tdefs, q, t, what, covers=("done",)):
    return Run(src, name=name, defs=defs, tdefs=tdefs, opts=sched(q), topts=sched(t), jobs=8, covers=list(covers), bounds=what % defs + ", " + schedule_text(q), tbounds=what % {**defs, **tdefs} + ", " + schedule_text(t))


TOUT = "more threads and calls, schedules with more preemptions, weak-memory reorderings of atomic operations"
VT_ = "%(THREADS)d threads making %(M)d change(s) each, {0} of {1} operations with arbitrary operands, "
P("V04", [threads_run("v_threads.cpp", "v04_pair", {"THREADS": 2, "M": 1, "N": 2}, {"N": 3, "CAP": 3}, 6, 8, VT_.format("any", "all 8") + "int, capacity 2, 2 observers"),
          threads_run("v_threads.cpp", "v04_dyn", {"THREADS": 2, "M": 1, "N": 2, "CAP": 0}, {}, 6, 8, VT_.format("any", "all 8") + "int, dynamic, 2 observers"),
          threads_run("v_threads.cpp", "v04_two", {"THREADS": 2, "M": 2, "KINDS": 4}, {"KINDS": 5}, 3, 3, VT_.format("any", "4") + "int, 1 observer"),
          threads_run("v_threads.cpp", "v04_two_dyn", {"THREADS": 2, "M": 2, "KINDS": 4, "CAP": 0}, {"KINDS": 5}, 2, 3, VT_.format("any", "4") + "int, dynamic, 1 observer"),
          threads_run("v_threads.cpp", "v04_three", {"THREADS": 3, "M": 1, "KINDS": 4}, {"KINDS": 8}, 3, 3, VT_.format("any", "4") + "int, 1 observer"),
          threads_run("v_threads.cpp", "v04_u8", {"THREADS": 2, "M": 1, "VT": "std::uint8_t"}, {"M": 2}, 3, 2, VT_.format("any", "all 8") + "std::uint8_t, 1 observer"),
          threads_run("v_threads.cpp", "v04_i64", {"THREADS": 2, "M": 1, "VT": "std::int64_t", "CAP": 0}, {"M": 2}, 3, 2, VT_.format("any", "all 8") + "std::int64_t, dynamic, 1 observer"),
          threads_run("v_threads.cpp", "v04_double", {"THREADS": 2, "M": 1, "VT": "double", "KINDS": 4}, {"KINDS": 8}, 3, 3, VT_.format("any", "4") + "double with 3 values, 1 observer")],
  "two or three threads making one or two changes each, every choice of operations, every interleaving within the preemption bound, with data-race detection; subscriptions do not change meanwhile", PASS, outside=TOUT)
CT_ = "capacity %(CAP)d, %(FILL)d key(s) put first, %(THREADS)d threads making %(M)d call(s) of put or get with %(KEYS)d keys and arbitrary values"
P("C04", [threads_run("c_threads.cpp", "c04_two", {"CAP": 2, "FILL": 1, "THREADS": 2, "M": 2, "KEYS": 3}, {"FILL": 2}, 2, 3, CT_),
          threads_run("c_threads.cpp", "c04_three", {"CAP": 2, "FILL": 2, "THREADS": 3, "M": 1, "KEYS": 3}, {}, 2, 4, CT_),
          threads_run("c_threads.cpp", "c04_cap1", {"CAP": 1, "FILL": 1, "THREADS": 2, "M": 2, "KEYS": 2}, {"KEYS": 3}, 2, 3, CT_),
          threads_run("c_threads.cpp", "c04_expired", {"CAP": 2, "FILL": 1, "THREADS": 2, "M": 2, "KEYS": 2, "EXPIRED": 1}, {"KEYS": 3}, 2, 3, CT_ + ", all expired at once", ("done", "timeout"))],
  "caches compiled with their locks, two or three threads with one or two calls each, every interleaving within the preemption bound, with data-race detection",
  PASS + ["the harness defines PTHREAD_MUTEX_DEFAULT as a macro, as musl, newlib and macOS do; glibc has it as an enumerator only, so there the locks are not compiled and the property is not offered"], outside=TOUT)
OT_ = "%(FILL)d of %(N)d observers subscribed first, %(THREADS)d threads making %(M)d call(s) of add, remove, notify and clear"
P("O07", [threads_run("o_threads.cpp", "o07_two", {"N": 2, "FILL": 1, "THREADS": 2, "M": 2}, {"FILL": 2}, 2, 3, OT_),
          threads_run("o_threads.cpp", "o07_full", {"N": 3, "FILL": 3, "THREADS": 2, "M": 1}, {"M": 2}, 3, 2, OT_),
          threads_run("o_threads.cpp", "o07_three", {"N": 2, "FILL": 1, "THREADS": 3, "M": 1}, {}, 2, 3, OT_)],
  "dynamic observables compiled with their locks, two or three threads with one or two calls each, every interleaving within the preemption bound, with data-race detection",
  PASS + ["the harness defines PTHREAD_MUTEX_DEFAULT as a macro, as musl, newlib and macOS do; glibc has it as an enumerator only, so there the locks are not compiled and the property is not offered"],
  outside=TOUT + "; callbacks that call back into the observable")


def stats_run(name, pool, items, q, t, delay=False):
    return Run("p_stats.cpp", name=name, defs={"POOL": pool, "ITEMS": items}, opts=sched(q, delay), topts=sched(t, delay), jobs=8, native=False, covers=["done", "the window moved"],
               bounds=(f"pool of {pool}, {items} items pushed before any is done" if pool else f"a stage, {items} items, 4 patterns of queue lengths") + ", any one of them taking any time below 2^36 ns, " + schedule_text(q, delay),
               tbounds=(f"pool of {pool}, {items} items pushed before any is done" if pool else f"a stage, {items} items, 4 patterns of queue lengths") + ", any one of them taking any time below 2^36 ns, " + schedule_text(t, delay))


P("P05", [stats_run("p05_stage", 0, 13, 0, 1), stats_run("p05_stage1", 0, 13, 1, 2, True), stats_run("p05_pool1", 1, 13, 1, 1), stats_run("p05_pool2", 2, 24, 0, 1, True)],
  "every handling time of one item among others of fixed times, queue lengths set by a handshake, so that what the statistics must be is known exactly",
  PASS + ["the clock stands still between items except for a jump after each"], outside=POUT + "; the accessors called from outside the handler while the stage works (a race by design); arbitrary times of several items at once")


GASS = ["std::stringstream is replaced by a model of formatted input and output in the C locale (shim/stream/sstream); sampled paths are replayed natively with the library's own streams"]
GOUT = "longer strings and command lines, parsing twice with one parser, two options of the same name"


def arg_runs(prop):
    n = prop.lower()
    ev = ["text option", "flag", "name without value"]
    S = dict(shim=["stream"], jobs=8, covers=ev)
    return [Run("g_args.cpp", name=n + "_bytes", defs={"ARGS": 3, "LEN": 3}, tdefs={"ARGS": 4}, **S,
                bounds="up to 3 arguments of up to 3 arbitrary bytes", tbounds="up to 4 arguments of up to 3 arbitrary bytes"),
            Run("g_args.cpp", name=n + "_nums", defs={"ARGS": 3, "LEN": 2, "NUMS": 1}, tdefs={"LEN": 3}, **S,
                bounds="the same with up to 3 arguments of up to 2 arbitrary bytes and numeric options registered too", tbounds="up to 3 arguments of up to 3 arbitrary bytes, numeric options registered too"),
            Run("g_args.cpp", name=n + "_named", defs={"ARGS": 4, "LEN": 1, "NAMED": 1}, tdefs={"ARGS": 5}, **S,
                bounds="up to 4 arguments, each an option name or up to 1 arbitrary byte", tbounds="up to 5 arguments, each an option name or up to 1 arbitrary byte"),
            Run("g_args.cpp", name=n + "_long", defs={"ARGS": 2, "LEN": 18, "MINLEN": 14, "NAMED": 1}, tdefs={"LEN": 40}, **S,
                bounds="up to 2 arguments, each an option name or 14 to 18 arbitrary bytes", tbounds="up to 2 arguments, each an option name or 14 to 40 arbitrary bytes"),
            Run("g_args.cpp", name=n + "_biglen", defs={"ARGS": 2, "LEN": 1, "BIGLEN": 1, "NAMED": 1}, **S,
                bounds="up to 2 arguments, each an option name or one of 16 lengths from 31 to 1025 arbitrary bytes"),
            Run("g_args.cpp", name=n + "_many", defs={"MANY": 300}, **S, bounds="300 arguments, two of them option names at any of 12 places")]


P("G01", arg_runs("G01"), "every command line within the length bounds, argument bytes arbitrary", GASS, outside=GOUT)
P("G02", [Run("g_nums.cpp", name="g02_short", shim=["stream"], defs={"DIGITS": 3}, covers=["parsed", "negative"], bounds="every int written in up to 3 digits, with and without sign, three surroundings (decided at once also where the long ones take the solver minutes)"),
          Run("g_nums.cpp", name="g02_int", shim=["stream"], defs={"DIGITS": 10}, jobs=1, covers=["parsed", "negative"], bounds="every int written in up to 10 digits (leading zeros included), with and without sign, three surroundings"),
          Run("g_nums.cpp", name="g02_double", shim=["stream"], defs={"KIND": 1, "DIGITS": 8}, tdefs={"DIGITS": 15}, jobs=1, covers=["parsed", "negative"],
              bounds="every decimal number of up to 8 digits with the point anywhere or absent", tbounds="every decimal number of up to 15 digits with the point anywhere or absent"),
          Run("g_nums.cpp", name="g02_exp", shim=["stream"], defs={"KIND": 1, "DIGITS": 1, "EXPO": 1}, tdefs={"DIGITS": 4}, jobs=4, covers=["parsed", "negative"],
              bounds="1 digit with an exponent of -9 to 9", tbounds="up to 4 digits with an exponent of -9 to 9")],
  "every digit of every text within the length bounds", GASS, outside="numbers outside int range, more than 15 digits, exponents beyond 9, texts that are not decimal numbers")
P("G03", arg_runs("G03"), "every command line within the length bounds; the argument vector ends right after the last argument, so reading on is out of bounds", GASS, outside=GOUT)


def packet_run(p, cov):
    return [Run("k_packet.cpp", name=f"k0{p}_packets", shim=["crc"], defs={"MAX": 16}, tdefs={"MAX": 40}, jobs=8, covers=cov,
                bounds="packets of 4 layouts and accessors of 4 layouts with storage of 16 to 20 bytes, every content byte arbitrary, every 64-bit declared size and count",
                tbounds="packets of 4 layouts and accessors of 4 layouts with storage of 40 to 44 bytes, every content byte arbitrary, every 64-bit declared size and count"),
            Run("k_packet.cpp", name=f"k0{p}_large", shim=["crc"], defs={"MAX": 300, "BIG": 1}, tdefs={"MAX": 600}, jobs=4, covers=[c for c in cov if c not in ("damaged",)],
                bounds=(f"packets of 2 layouts with over 300 bytes, " if p in (1, 2) else "") + ("accessors of 4 layouts with storage of 300 to 304 bytes, every content byte arbitrary, counts of none, half and all that fit, declared sizes at the ends and around 256" if p > 1 else "every content byte arbitrary"))] + (
        [Run("k_packet.cpp", name=f"k0{p}_huge", shim=["crc"], defs={"BIG": 2}, tdefs={"COUNTS": 7}, jobs=4, covers=["accessor round trip" if p == 3 else "count does not fit"],
             bounds="accessors of 2 layouts with storage of 70000 bytes, the last elements arbitrary, the others fixed, 3 counts of 256 to all that fit",
             tbounds="accessors of 2 layouts with storage of 70000 bytes, the last elements arbitrary, the others fixed, 7 counts of 255 to all that fit")] if p > 2 else [])


KASS = ["xitren/crc_concept.hpp, which is not available offline, is replaced by a stand-in; packet.hpp uses nothing of it",
        "checksum classes (sum, CRC-16/ANSI, two rotating mixes of 32 and 64 bits) belong to the harness; the expected checksum is computed from the expected bytes by the same step function"]
KOUT = "other header, field and checksum types, types with padding bytes or alignment above 1, elements given as null with a count above 0, elements inside the accessor's own storage"
P("K01", packet_run(1, ["packet round trip"]), "every header and field content of four layouts", KASS, outside=KOUT)
P("K02", packet_run(2, ["damaged", "declared size right", "declared size wrong"]), "every byte content of four packet and four accessor layouts", KASS, outside=KOUT)
P("K03", packet_run(3, ["accessor round trip"]), "every content and every count that fits, twice in a row, on top of any earlier content", KASS, outside=KOUT)
P("K04", packet_run(4, ["count does not fit", "declared size right", "declared size wrong"]), "every storage content with every declared size; every count that does not fit", KASS, outside=KOUT)

P("F01", [Run("f_pimpl.cpp", name="f01_two", defs={"SLOTS": 2, "OPS": 4}, tdefs={"OPS": 5}, jobs=8, covers=["constructed", "constructor threw", "copied", "moved", "assigned", "destroyed", "done"],
              bounds="2 wrappers, every history of 4 operations, symbolic values", tbounds="2 wrappers, every history of 5 operations, symbolic values"),
          Run("f_pimpl.cpp", name="f01_three", defs={"SLOTS": 3, "OPS": 3}, tdefs={"OPS": 4}, jobs=8, covers=["copied", "moved", "assigned", "done"],
              bounds="3 wrappers, every history of 3 operations", tbounds="3 wrappers, every history of 4 operations"),
          Run("f_pimpl.cpp", name="f01_aligned", defs={"SLOTS": 2, "OPS": 3, "ALIGN": 64, "EXTRA": 16}, tdefs={"OPS": 4}, jobs=8, covers=["copied", "moved", "assigned", "done"],
              bounds="a wrapped type aligned to 64 bytes in a wrapper bigger than it, 2 wrappers, 3 operations", tbounds="a wrapped type aligned to 64 bytes, 2 wrappers, 4 operations")],
  "every history of constructions (three ways, one of them throwing), copies, moves, assignments, writes and destructions up to the bounds",
  outside="construction from a non-const lvalue wrapper (goes to the argument-forwarding constructor, which does not compile), assignments that throw")

NOT_APPLICABLE = {
    "L01": "whether a type is accepted is decided by the compiler before any code exists: there is no implementation to execute symbolically and no input for a solver to range over (types are not solver variables)",
}
