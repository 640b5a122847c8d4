"""What each property's check runs.  A job is one harness entry point executed
symbolically; `args` are the concrete parameters of the entry."""


def J(src, entry, args=(0,), **kw):
    d = dict(src=src, entry=entry, args=list(args) if not isinstance(
        args, dict) else args)
    d.update(kw)
    return d


PROPS = {}
PROPS["B01"] = dict(
    jobs=[J("b_bits.cpp", "h_ctz", range(5), reach=["ctz"]),
          J("b_bits.cpp", "h_clz", range(5), reach=["clz"]),
          J("b_bits.cpp", "h_crafted_ctz", range(5), reach=["crafted ctz"]),
          J("b_bits.cpp", "h_crafted_clz", range(5), reach=["crafted clz"])],
    bounds="all non-zero values of each unsigned type, full width")
PROPS["B02"] = dict(
    jobs=[J("b_bits.cpp", "h_occ", range(5), reach=["occ"]),
          J("b_bits.cpp", "h_table", reach=["table"])],
    bounds="all values, full width")
PROPS["B03"] = dict(
    jobs=[J("b_bits.cpp", "h_pow2", reach=["pow2"]),
          J("b_bits.cpp", "h_gd", range(5), reach=["gd"]),
          J("b_bits.cpp", "h_next_multiple", reach=["aligned", "unaligned"]),
          J("b_bits.cpp", "h_nm", range(25), reach=["nm", "skipT"]),
          J("b_bits.cpp", "h_shift", range(8), reach=["shift"])],
    bounds="all values, full width; every power-of-two alignment")
PROPS["B04"] = dict(
    jobs=[J("b_bits.cpp", "h_max_align", reach=["maxalign"])],
    bounds="every size and power-of-two alignment, 64 bit")


# ---- simple_resource.  h_step args: operation, upstream, first allocation of
# the layout (divides the layouts among processes); h_hist args: nb, upstream,
# any alignment, pattern of deallocations
def steps(op, up, nb=4):
    return [op | (up << 4) | (f << 8) for f in range(1, nb + 2)]


def hist(nb, up, anyal, pat):
    return nb | (up << 4) | (anyal << 5) | \
        (sum(1 << i for i, c in enumerate(pat) if c == "F") << 8)


def P(n, *more):
    return ["-DV_PROP=%d" % n] + list(more)


def big_jobs(n, nbs=(2, 255, 256, 257, 65535, 65536, 65537), **kw):
    return [J("m_pool.cpp", "h_big", range(6) if nb > 2 else (0, 4),
              defs=P(n, "-DV_NB=%d" % nb), reach=["big"], **kw) for nb in nbs]


def full_jobs(n, args=(0, 1, 2), nbs=(255, 256, 257), **kw):
    return [J("m_pool.cpp", "h_full", list(args), defs=P(n, "-DV_NB=%d" % nb),
              reach=["full"], **kw) for nb in nbs]


# blocks of 8 GiB: every distance inside the buffer needs more than 32 bits
HUGE = ["-DV_BS=8589934592ul", "-DV_T=34", "-DV_MAXAL=36"]


def huge_jobs(n, ops=((0, 0),), nb=3):
    return [J("m_pool.cpp", "h_step", steps(o, u, nb),
              defs=P(n, "-DV_NB=%d" % nb, *HUGE)) for o, u in ops]


def hist_jobs(n, pats, nb=4, ups=(0, 1), anyal=0, extra=(), **kw):
    js = []
    for k in sorted(set(map(len, pats))):
        js.append(J("m_pool.cpp", "h_hist", [hist(nb, u, anyal, p)
                    for p in pats if len(p) == k for u in ups],
                    defs=P(n, "-DV_OPS=%d" % k, *extra), **kw))
    return js


POOLB = ("NB=4 blocks of 8 bytes over a buffer at any address odd*2^t; every "
         "layout reachable by allocations of any sizes in blocks and returning "
         "any subset in either order, then one more operation with any size "
         "(64 bit) and any power-of-two alignment; histories of up to %s from "
         "fresh; 2, 255 to 257 and 65535 to 65537 blocks with two "
         "allocations that fill the resource; 255 to 257 blocks with as many "
         "allocations, partly returned; 3 blocks of 8 GiB")
THOR = [["-DV_T=4"], ["-DV_T=5"], ["-DV_T=12"], ["-DV_T=32"], ["-DV_T=63", "-DV_MAXAL=8"],
        ["-DV_NB=4", "-DV_BS=16", "-DV_T=4"], ["-DV_NB=3", "-DV_BS=1", "-DV_T=0"],
        ["-DV_NB=3", "-DV_BS=64", "-DV_T=7", "-DV_MAXAL=9"]]


def thorough_steps(n, ops, ups):
    js = []
    for d in THOR:
        nb = 3 if "-DV_NB=3" in d else 4
        js.append(J("m_pool.cpp", "h_step",
                    [a for o in ops for u in ups for a in steps(o, u, nb)],
                    defs=P(n, *d), tier="thorough"))
    js.append(J("m_pool.cpp", "h_step",
                [a for o in ops if o for u in ups for a in steps(o, u, 5)],
                defs=P(n, "-DV_NB=5"), tier="thorough"))
    return js


PROPS["M01"] = dict(
    jobs=huge_jobs(1, ((0, 0), (4, 0))) + [J("m_pool.cpp", "h_step", steps(0, 0), defs=P(1), weight=3,
            reach=["served from the buffer", "refused", "freed"])] +
    hist_jobs(1, ["AAFA"]) + hist_jobs(1, ["A", "AA"], anyal=1) +
    hist_jobs(1, ["AA"], anyal=1, extra=["-DV_T=6"]) + big_jobs(1) +
    full_jobs(1) +
    [J("m_pool.cpp", "h_step", steps(4, 0, 3), defs=P(1, "-DV_NB=3", "-DV_MAX=5"),
       weight=2)] +
    hist_jobs(1, ["AAAFA", "AFAAF", "AAFFA"], tier="thorough") +
    thorough_steps(1, (0,), (0, 1)),
    bounds=POOLB % "4 operations")
PROPS["M02"] = dict(
    jobs=huge_jobs(2, ((0, 1),)) + [J("m_pool.cpp", "h_step", steps(0, 1),
            defs=P(2, "-DV_MAX=5"), weight=3,
            reach=["served from the buffer", "served upstream", "freed"])] +
    hist_jobs(2, ["A", "AA"], anyal=1) +
    [j for t in (4, 5, 6, 12, 40) for j in
     hist_jobs(2, ["A"], anyal=1, extra=["-DV_T=%d" % t])] +
    hist_jobs(2, ["A"], anyal=1, extra=["-DV_BS=64", "-DV_T=6", "-DV_MAXAL=8"]) +
    hist_jobs(2, ["A"], anyal=1, extra=["-DV_BS=1", "-DV_T=0"]) +
    thorough_steps(2, (0,), (0, 1)),
    bounds=POOLB % "2 operations")
PROPS["M03"] = dict(
    jobs=huge_jobs(3, ((0, 0), (1, 0), (3, 0))) + [J("m_pool.cpp", "h_step", steps(0, 0), defs=P(3), weight=3,
            reach=["served from the buffer", "refused", "freed", "step"]),
          J("m_pool.cpp", "h_step", steps(1, 0) + steps(3, 0),
            defs=P(3, "-DV_MAX=6"))] +
    hist_jobs(3, ["AAFA", "AAAFFF"]) + hist_jobs(3, ["AAF"], anyal=1) +
    big_jobs(3) + full_jobs(3, (0, 1, 2, 8)) + full_jobs(3, (0,), (513,)) +
    hist_jobs(3, ["AAAFA", "AFAAF", "AAFFA"], tier="thorough") +
    thorough_steps(3, (0, 1, 3), (0,)),
    bounds=POOLB % "4 operations (6 with block granular sizes)")
PROPS["M04"] = dict(
    jobs=huge_jobs(4, ((0, 0), (4, 0))) + [J("m_pool.cpp", "h_step", steps(0, 0), defs=P(4), weight=3,
            reach=["served from the buffer", "refused", "freed", "step"]),
          J("m_pool.cpp", "h_step", steps(3, 0), defs=P(4, "-DV_MAX=9"))] +
    hist_jobs(4, ["AAFA"], ups=(0,)) + hist_jobs(4, ["A", "AA"], anyal=1) +
    [j for t in (4, 5, 6, 12, 40, 63) for j in
     hist_jobs(4, ["A"], anyal=1, extra=["-DV_T=%d" % t])] +
    big_jobs(4) + full_jobs(4, (0, 1, 2)) +
    hist_jobs(4, ["AAAFA", "AFAAF", "AAFFA"], tier="thorough") +
    thorough_steps(4, (0, 3), (0, 1)),
    bounds=POOLB % "4 operations")
PROPS["M05"] = dict(
    jobs=huge_jobs(5, ((2, 1),)) + [J("m_pool.cpp", "h_step", steps(2, 0), defs=P(5, "-DV_MAX=7"),
            reach=["released", "freed", "destroyed"]),
          J("m_pool.cpp", "h_step", steps(2, 1), defs=P(5),
            reach=["released", "freed", "destroyed"])] + big_jobs(5) +
    full_jobs(5, (4, 6)) +
    thorough_steps(5, (2,), (0, 1)),
    bounds=POOLB % "0 operations")
PROPS["M06"] = dict(
    jobs=[J("m_misuse.cpp", "h_bad_free", [0, 1], defs=list(d),
            reach=["bad pointer", "upstream's pointer"])
          for d in ([], ["-DNDEBUG"])] +
    [J("m_misuse.cpp", "h_bad_free", [0, 1], reach=["bad pointer"],
       defs=["-DV_NB=2", "-DV_BS=%d" % b, "-DV_T=%d" % t])
     for b, t in ((32, 5), (64, 9), (1, 1), (1 << 33, 33))] +
    [J("m_misuse.cpp", "h_null_free", [0, 1], defs=list(d), reach=["null"])
     for d in ([], ["-DNDEBUG"])] +
    [J("m_misuse.cpp", "h_destroy", defs=list(d), reach=["busy", "idle"])
     for d in ([], ["-DNDEBUG"])] +
    [J("m_misuse.cpp", "h_bad_free", [0, 1], defs=["-DV_NB=5"] + d,
       tier="thorough") for d in ([], ["-DNDEBUG"])] +
    [J("m_misuse.cpp", "h_destroy", defs=["-DV_NB=6"], tier="thorough")],
    bounds="4 (thorough: 5, 6) blocks of 8 bytes, 2 of 1, 32, 64 bytes and 8 GiB; every layout reachable by "
    "allocations of any sizes and returning any subset in order; every 64-bit "
    "pointer value; with and without NDEBUG")
PROPS["M07"] = dict(
    jobs=huge_jobs(7, ((0, 1), (1, 1))) + [J("m_pool.cpp", "h_step", steps(0, 1),
            defs=P(7, "-DV_MAX=5"), weight=3,
            reach=["served from the buffer", "served upstream", "freed",
                   "freed upstream"]),
          J("m_pool.cpp", "h_step", [0x13], defs=P(7, "-DV_NB=3"))] +
    hist_jobs(7, ["AAFA"], ups=(1,)) + hist_jobs(7, ["AAFF"], ups=(1,), nb=2,
                                                 anyal=1, extra=["-DV_NB=2"]) +
    hist_jobs(7, ["AF"], ups=(0, 1), nb=0, anyal=1) +
    hist_jobs(7, ["A"], ups=(0,), anyal=1) +
    hist_jobs(7, ["AAAFA", "AFAAF", "AAFFA"], ups=(1,), tier="thorough") +
    thorough_steps(7, (0, 3), (1,)),
    bounds=POOLB % "4 operations" + "; the upstream returns any pointer of the "
    "requested alignment outside the buffer, or null")
PROPS["M08"] = dict(
    jobs=[J("m_build.cpp", "h_build", range(10), defs=P(8), weight=2,
            reach=["nonempty", "empty", "destroyed"]),
          J("m_build.cpp", "h_build", range(6),
            defs=P(8, "-DV_NB=3", *HUGE))] + big_jobs(8) +
    [J("m_build.cpp", "h_build", range(10), defs=P(8, "-DV_NB=%d" % nb,
       "-DV_BS=%d" % bs), tier="thorough") for nb, bs in
     ((2, 1), (3, 2), (5, 16), (4, 64))],
    bounds="any address and any length of the buffer (null, empty, "
    "unaligned, too short included); 4 blocks of 8 bytes (thorough: other "
    "shapes; quick: also 8 GiB); 2, 255, 256, 257, 65535 to 65537 blocks")

# ---- monotonic_buffer_resource
MONO_HIST = [("AAA", p, l, u) for p in range(4) for l in (2, 3) for u in (0, 1)
             if (p + l + u) % 2] + \
    [("AARA", 1, 2, 1), ("ARAA", 3, 3, 0), ("ADAA", 2, 3, 1),
     ("AA", 0, 0, 0), ("AA", 1, 1, 1)]


def mono_hist(h, p, l, u):
    return u | (p << 1) | (l << 3) | sum(
        "ADR".index(c) << (5 + 2 * i) for i, c in enumerate(h))


def mono(n):
    js = []
    one = lambda f, op: f | (op << 4)
    js.append(J("m_mono.cpp", "h_mono", [one(9, 3), one(8, 3)], weight=3,
                defs=P(n, "-DV_OPS=1"), reach=["served", "upstream", "refused"]))
    js.append(J("m_mono.cpp", "h_mono",
                [one(f, o) for f in (0, 1, 2, 3, 4, 5) for o in (0, 3)] +
                [one(f, o) for f in (9, 3, 5) for o in (1, 2)],
                defs=P(n, "-DV_OPS=1")))
    # returning and releasing after any number of used bytes, then any size
    js.append(J("m_mono.cpp", "h_mono", [3, 5, 0x11, 0x19, 0x29, 0x18, 0x09],
                defs=P(n, "-DV_OPS=2")))
    js.append(J("m_mono.cpp", "h_mono", [9 | 1 << 6], defs=P(n, "-DV_OPS=3")))
    js.append(J("m_mono.cpp", "h_mono", [0x81], defs=P(n, "-DV_OPS=3"),
                reach=["released"]))
    for k in (2, 3, 4):
        js.append(J("m_mono.cpp", "h_mono_hist",
                    [mono_hist(*x) for x in MONO_HIST if len(x[0]) == k],
                    defs=P(n, "-DV_OPS=%d" % k), reach=["history"]))
    js.append(J("m_mono.cpp", "h_mono_ctor", range(6), defs=P(n),
                reach=["ctor"]))
    js.append(J("m_mono.cpp", "h_mono", [one(9, 3), one(8, 3), one(1, 3)],
                defs=P(n, "-DV_OPS=1", "-DV_ALL_ALIGNMENTS"), tier="thorough"))
    for k in (3, 4, 5):
        js.append(J("m_mono.cpp", "h_mono_hist",
                    [mono_hist(h, p, l, u) for p in range(4) for l in range(4)
                     for u in (0, 1) for h in ("AAA", "ARA", "AAAA", "ARAA",
                                               "ADAA", "AARA", "AAARA")
                     if len(h) == k], defs=P(n, "-DV_OPS=%d" % k),
                    tier="thorough"))
    return js


MONOB = ("one operation after any number of used bytes of a buffer at any "
         "address with any number of bytes left, any size (64 bit) and "
         "alignment 2^k; histories of up to 4 operations over buffers of up "
         "to 40 bytes with 3 sizes and 4 alignments, the last size arbitrary")
PROPS["M10"] = dict(jobs=mono(10), bounds=MONOB)
PROPS["M11"] = dict(jobs=mono(11), bounds=MONOB)

PROPS["M12"] = dict(
    jobs=[J("m_sys.cpp", "h_system", range(4), reach=["got memory", "failed"]),
          J("m_sys.cpp", "h_system_bad", reach=["bad alignment", "EINVAL"])],
    bounds="every size, every alignment, every answer of the operating system "
    "allowed by posix_memalign's contract")
PROPS["M22"] = dict(
    jobs=[J("m_front.cpp", "h_front", range(10), reach=["front"]),
          J("m_front.cpp", "h_front_delete", [0, 1], reach=["deleted"]),
          J("m_front.cpp", "h_front_equal", reach=["equal"])],
    bounds="every size, alignment and pointer; eight types of 1 to 12288 "
    "bytes; three resources of three classes; the seven pairs of equality "
    "among the library's own")
PROPS["M13"] = dict(jobs=[J("m_sys.cpp", "h_null", reach=["null"])],
                    bounds="every size and power-of-two alignment")
PROPS["M14"] = dict(
    jobs=[J(["m_default.cpp", "m_default2.cpp"], "h_default",
            reach=["default"]),
          J("m_exchange.cpp", "h_exchange", [2, 3], threads=True,
            reach=["exchange"]),
          J("m_exchange.cpp", "h_publish", [0, 1, 2], threads=True,
            reach=["published"]),
          J("m_exchange.cpp", "h_first", [2, 3], threads=True,
            reach=["first"])] +
    [J("m_exchange.cpp", e, a, threads=True, defs=["-DV_SW=8"],
       tier="thorough") for e, a in (("h_exchange", [2, 3]),
                                     ("h_publish", [0, 1, 2]),
                                     ("h_first", [2, 3]))],
    bounds="two translation units and every history of 3 changes by either; "
    "2 and 3 threads that set, get and use default resources or use the null "
    "resource first, every interleaving of their atomic operations with up to 6 "
    "(three threads: 4; thorough: 8, 6) context switches (sequentially consistent values, races by the happens-"
    "before order of the memory orders used)")

CE = "-D__builtin_is_constant_evaluated()=true"
PROPS["M15"] = dict(
    jobs=[J("m_raw.cpp", "h_zero", [0, 1], defs=d, reach=["zeroed"])
          for d in ([], [CE], ["-DV_N=33"])] +
    [J("m_raw.cpp", "h_long", [l | o << 4 for l in (*range(11), 12) for o in (0, 1)],
       reach=["long"]),
     J("m_raw.cpp", "h_long", [l for l in range(11)], reach=["long"], defs=[CE]),
     J("m_raw.cpp", "h_zero_null", reach=["null"]),
     J("m_raw.cpp", "h_zero_dead", [1, 8, 16, 31, 256 + 16],
       irflags=["-O2"], reach=["gone"], free_hook=True)],
    bounds="ranges of 0 to 33 bytes with any contents; dead ranges of 1, 8, "
    "16, 31 bytes after clang -O2; fixed lengths up to 131075 with one symbolic "
    "pattern of contents")
PROPS["M16"] = dict(
    jobs=[J("m_raw.cpp", "h_memmove", defs=d, reach=["moved"])
          for d in ([], [CE])] +
    [J("m_raw.cpp", "h_move2", defs=d, reach=["moved"])
     for d in ([], [CE])] +
    [J("m_raw.cpp", "h_memcpy", range(8), defs=d, reach=["copied"])
     for d in ([], [CE])] +
    [J("m_raw.cpp", "h_long", [l | o << 4 for l in range(12) for o in (2, 3, 4)
                               if l < 11 or not d and o > 2],
       reach=["long"], defs=d)
     for d in ([], [CE])] +
    [J("m_raw.cpp", "h_memcpy_null", range(2), reach=["aborted"])],
    bounds="every pair of ranges of up to 9 bytes of one object, and of two "
    "objects; any contents; the run-time branch and the one for constant "
    "evaluation; fixed lengths up to 65539 with one symbolic pattern of contents")
PROPS["M17"] = dict(jobs=[J("m_raw.cpp", "h_get_alignment",
                            reach=["alignment"])],
                    bounds="every non-null pointer value")
PROPS["M18"] = dict(
    jobs=[J("m_alloc.cpp", "h_sized", range(14), reach=["asked", "too many"]),
          J("m_alloc.cpp", "h_bytes", [0, 1], reach=["bytes"])],
    bounds="every count; object sizes 1, 3, 4, 7, 24, 64, 4096")
PROPS["M19"] = dict(
    jobs=[J("m_alloc.cpp", "h_objects", range(3),
            reach=["constructed", "no memory"]),
          J("m_alloc.cpp", "h_construct", range(3), reach=["construct"])],
    bounds="every argument value of an instrumented type with lvalue, const "
    "and rvalue parameters; memory available or not")
PROPS["M20"] = dict(
    jobs=[J("m_alloccmp.cpp", "h_compare", reach=["compare"])],
    bounds="three resources, two of them possibly equal; four value types")

_D = [10 * i + j for i in range(10) for j in range(10)]
PROPS["B05"] = dict(
    jobs=[J("b_div.cpp", "h_div", _D, reach=["div"], defs=d)
          for d in ([], [CE])] +
    [J("b_div.cpp", "h_div_as", range(8), reach=["div_as"], defs=d)
     for d in ([], [CE])],
    bounds="every pair of operands of every pair of ten integral types, with a "
    "non-zero denominator and a representable quotient; both branches")
PROPS["B07"] = dict(
    jobs=[J("b_misc.cpp", "h_memvcmp", reach=["memvcmp"]),
          J("b_misc.cpp", "h_memvcmp", reach=["memvcmp"], defs=["-DV_N=20"]),
          J("b_misc.cpp", "h_memvcmp", [33, 64, 65, 127], reach=["memvcmp"]),
          J("b_misc.cpp", "h_memvcmp_null", [0, 1], reach=["nothing"])],
    bounds="ranges of 0 to 20, 33, 64, 65, 127 bytes, any contents and value, two offsets")
PROPS["B08"] = dict(
    jobs=[J("b_arrays.cpp", "h_concat", range(8), reach=["concatenated"]),
          J("b_arrays.cpp", "h_concat_move", reach=["concatenated"]),
          J("b_arrays.cpp", "h_make", range(3), reach=["made"]),
          J("b_arrays.cpp", "h_sv", range(2), reach=["text"]),
          J("b_arrays.cpp", "h_is_equal", range(4), reach=["compared"]),
          J("b_arrays.cpp", "h_range", reach=["range"])],
    bounds="any element values; array lengths 0 to 17 (concatenation: to 265, comparison: to 270) in the shapes of the "
    "harness")
PROPS["B09"] = dict(
    jobs=[J("b_misc.cpp", "h_bit_cast", range(12), reach=["cast"]),
          J("b_misc.cpp", "h_underlying", range(3), reach=["underlying"])],
    bounds="every value of eight pairs of types and three enumerations")
PROPS["B10"] = dict(
    jobs=[J("b_misc.cpp", "h_abort_if", range(6), defs=d,
            reach=["passed", "aborted"]) for d in ([], ["-DNDEBUG"])],
    bounds="every value of the condition; with and without NDEBUG")
PROPS["B11"] = dict(
    jobs=[J("b_misc.cpp", "h_for_each", range(4), reach=["visited", "tuple"])],
    bounds="every value of arguments of five value categories")
PROPS["B12"] = dict(
    jobs=[J("b_misc.cpp", "h_widths", reach=["widths"])],
    bounds="widths 1 to 64, every value of that width")

# ---- timer, fast_pimpl, padding
TIMERB = ("two timers with callables of six kinds (function, pointer, closure, "
          "copied, moved and const functor), any clock readings below 2^60, "
          "every sequence of %s moves, assignments, resets and destructions "
          "over three places; storage of 24 to 256 bytes")


def timer_jobs(n):
    pairs = [0, 1 | 8 * 2, 2 | 8 * 3, 3 | 8 * 4, 4 | 8 * 5, 5 | 8 * 1]
    return [J("t_timer.cpp", "h_timer", pairs, reach=["called", "moved", "end"],
              defs=P(n), weight=2)] + [
            J("t_timer.cpp", "h_timer", [2 | 8 * 4], defs=P(
                n, "-DV_OPS=2", "-DV_TS=%d" % s, "-DV_TA=%d" % a))
            for s, a in ((32, 8), (48, 16), (64, 8), (256, 32))] + [
            J("t_timer.cpp", "h_timer", [k | 8 * j for k in range(6) for j in range(6)],
              defs=P(n, "-DV_OPS=4"), tier="thorough")]


PROPS["T01"] = dict(jobs=timer_jobs(1), bounds=TIMERB % "3 (thorough: 4)")
PROPS["T02"] = dict(
    jobs=[J("t_timer.cpp", "h_units", [0, 1], reach=["units"])] +
    timer_jobs(2),
    bounds=TIMERB % "3 (thorough: 4)" + "; for the units clock readings below 2^60 of a clock of nanoseconds and below 2^34 of "
    "one of sixtieths of a second")
PROPS["F01"] = dict(
    jobs=[J("f_pimpl.cpp", "h_pimpl", [s | 8 * o for s in range(4)
                                       for o in range(7)], reach=["end"]),
          J("f_pimpl.cpp", "h_pod", reach=["pod"])],
    bounds="values of 3, 8, 32 and 64 bytes and alignment 1 to 64 with any "
    "contents, every way to construct followed by every way to assign (itself "
    "included) and to destroy")
PROPS["P01"] = dict(
    jobs=[J("p_padding.cpp", "h_padding", range(9), reach=["padding", "none"]),
          J("p_padding.cpp", "h_padding_kinds", reach=["kinds"]),
          J("p_padding.cpp", "h_padding_large", [0, 1], reach=["padding", "none"])],
    bounds="about 200 aggregates of up to 5 members, nested up to 4 deep, with "
    "scalars of 1 to 8 bytes and sizes up to 328 bytes (by members: 8 KiB); any value of every member and of the memory")


def chain(l, ops):
    return l | (sum("ADX".index(c) + 1 << (2 * i) for i, c in enumerate(ops)) << 4)


PROPS["M21"] = dict(
    jobs=[J("m_chain.cpp", "h_chain",
            [chain(l, o) for l in range(4) for o in ("AA", "ADA")] +
            [chain(l, o) for l, o in ((1, "AADA"), (3, "AADA"))],
            reach=["allocated", "all returned"]),
          J("m_chain.cpp", "h_chain",
            [chain(l, o) for l in range(4) for o in
             ("AAA", "AADA", "AAXA", "AADDA", "AAAA")], tier="thorough"),
          J("m_chain.cpp", "h_nested", [0, 1, 2, 3, 12, 5, 15],
            reach=["all returned"])],
    bounds="a pool of 3 blocks of 16 over one of 4 of 8 over 56 monotonic "
    "bytes, in one arena at any address; up to 4 operations of any size and 3 "
    "alignments; a pool of 8-byte blocks inside memory of one of 16-byte "
    "blocks, with objects and an array of any length")
# any access to managed memory is an error on every path of every pool and
# monotonic harness; this check runs a selection of them for nothing else
PROPS["M09"] = dict(
    jobs=[J("m_pool.cpp", "h_step", steps(2, 0) + steps(3, 0, 4)[:2],
            defs=P(9, "-DV_MAX=5"),
            reach=["served from the buffer", "freed", "released"])] +
    hist_jobs(9, ["AAF"], anyal=0) + hist_jobs(9, ["AF"], ups=(1,), anyal=1) +
    [J("m_build.cpp", "h_build", range(2, 10), defs=P(9), reach=["nonempty"])] +
    [J("m_mono.cpp", "h_mono", [9 | 3 << 4, 0x11, 1 | 2 << 4], defs=P(9, "-DV_OPS=1")),
     J("m_mono.cpp", "h_mono_ctor", range(6), defs=P(9))] +
    thorough_steps(9, (1, 2, 3), (0, 1)),
    bounds=POOLB % "3 operations" + "; buffers that no access is allowed to")
