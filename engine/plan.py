"""Which harnesses decide which property, with which parameters and bounds."""

WORKERS = 8
BOTH = ("rel", "dev")
BIG, HUGE = 20000000, 80000000     # step limits for long concrete stretches
SIMD = ("simd", "simddev")

ASSUMPTIONS = [
    "x86-64, 64-bit usize; IR as emitted by the pinned rustc before its own optimisation, then cleaned by LLVM passes",
    "allocation succeeds; the allocator returns fresh, suitably aligned blocks",
    "harnesses place arbitrary words into a new bit vector through the pointer raw() exposes; bits past the end are zero (decided by C02)",
]


def job(harness, profiles=BOTH, params=({},), split=None, tier="quick", only=None, **kw):
    """split: choice -> number of parts run on their own; only: choice -> (part, parts), the others are left out"""
    return dict(harness=harness, profiles=profiles, params=list(params), split=split, tier=tier, only=only or {}, kw=kw)


def at(*rows):
    """parameter lists"""
    return [dict(enumerate(r)) for r in rows]


PROPS = {
    "C01": dict(
        level="model_checking",
        bounds="one write: any length 1..2^46, any contents, any position; sequences of 4 writes: lengths 1,2,63,64,65,128,130,200, any positions and values",
        runs=[job("c01_step"), job("c01_seq", params=[{0: 4}], split={9: 8})],
    ),
    "C02": dict(
        level="model_checking",
        bounds="any length 0..2^46; one write of any kind at any position",
        runs=[job("c02_new"), job("c02_tail", split={0: 12})],
    ),
    "C03": dict(
        level="model_checking",
        bounds="any length 0..2^46, any contents, any 64-bit position at or past the end; slices with any bounds, nesting depth 2",
        runs=[job("c03_vec"), job("c03_slice", split={0: 10})],
    ),
    "C04": dict(
        level="model_checking",
        bounds="every value and every 64-bit index; word slices of any length 0..2^40",
        runs=[job("c04_" + t) for t in ("u8", "u16", "u32", "u64", "usize", "words")],
    ),
    "C05": dict(
        level="model_checking",
        bounds="any length 0..2^46, any contents, any 64-bit bounds of every kind; nesting depth 3; storage kinds box, u64, u8, word slice",
        runs=[job("c05_bounds", split={0: 3, 1: 3}), job("c05_ranges", split={0: 7}), job("c05_nested", split={0: 3, 1: 3}), job("c05_storage")],
    ),
    "C06": dict(
        level="model_checking",
        bounds="any length 1..2^46, any contents, any slice, any position, nesting depth 3; sequences of 3 writes on lengths 70, 130, 192",
        runs=[job("c06_write", split={0: 5}), job("c06_seq", split={9: 3})],
    ),
    "C07": dict(
        level="model_checking",
        bounds="any length 0..2^46, any contents, any parent slice, any 64-bit split position; three interleaved writes through the halves",
        runs=[job("c07_split"), job("c07_refuse"), job("c07_mut", split={0: 2, 1: 2, 2: 2})],
    ),
    "C08": dict(
        level="model_checking",
        bounds="one step from any iterator state over any vector (length 0..2^46); complete iterations of slices of length 0..3 at any offset and of vectors up to 200 bits with any contents; skipping any 64-bit number of bits of up to 66",
        runs=[job("c08_step"), job("c08_short", split={0: 7}), job("c08_full", split={9: 10}), job("c08_adapters", split={9: 5}), job("c08_skip", split={9: 4})],
    ),
    "C09": dict(
        level="model_checking",
        bounds="slices of length 0..4 at any offset of vectors of any length up to 2^46; fixed offsets and lengths up to 130 with any contents; lengths 300, 1100, 4200 differing in up to 4 bits at one of 5 places",
        runs=[job("c09_short", split={0: 4}), job("c09_storage", split={0: 5}), job("c09_same", split={0: 5}),
              job("c09_long", split={0: 6}), job("c09_vec", split={0: 5}), job("c09_far", params=at((300,), (1100,), (4200,)), split={1: 4}, max_steps=BIG)],
    ),
    "C10": dict(
        level="model_checking",
        bounds="every width 1..64, capacities 0,1,2,8,9,63,64,100 and default, 67 pushes of any values; any capacity up to 2^36 for the first pushes; 8 widths with 1100 pushes, three of them of any value",
        runs=[job("c10_push", params=[{0: 67}], split={100: 16, 101: 9}), job("c10_capacity", split={100: 8}),
              job("c10_long", params=at((1100, 1021)), split={100: 8, 101: 2}, max_steps=BIG)],
    ),
    "C11": dict(
        level="model_checking",
        bounds="every width 1..64, 67 elements of any value, a set of any value at every position, later pushes and sets; 8 widths with 1100 elements, every third one set",
        runs=[job("c11_set", params=[{0: 67, 1: 29}], split={100: 32, 101: 9}, tier="thorough"),
              *[job("c11_set", params=[{0: 67, 1: 29}], split={100: 32}, only={101: (k, 9)}, tier="quickonly") for k in (0, 3, 8)],
              job("c11_long", params=at((1100, 1021)), split={100: 8, 101: 2}, max_steps=BIG)],
    ),
    "C12": dict(
        level="model_checking",
        bounds="every width 1..64, element counts 0,1,2,5,21,64, every 64-bit index and value; every 64-bit invalid width",
        runs=[job("c12_reject", split={100: 16}), job("c12_width"), job("c12_width_any")],
    ),
    "C13": dict(
        level="model_checking",
        bounds="every width 1..64, element counts 0,1,2,3,33,66 of any value; skipping any 64-bit number of up to 11 elements; 8 widths with 1100 elements, three of them of any value",
        runs=[job("c13_iter", split={100: 16}), job("c13_adapters", split={100: 7}), job("c13_skip", split={100: 4}),
              job("c13_long", params=at((1100, 1021)), split={100: 8, 101: 2}, max_steps=BIG)],
    ),
    "C14": dict(
        level="model_checking",
        bounds="every width 1..64, up to 67 pushes of any values with interleaved sets, several capacities; 8 widths with 1100 pushes, three of them of any value",
        runs=[job("c14_layout", params=[{0: 67}], split={100: 16, 101: 9}), job("c14_long", params=at((1100, 1021)), split={100: 8, 101: 2}, max_steps=BIG)],
    ),
    "C15": dict(
        level="model_checking",
        bounds="every vector of length 0..70 at every position; every vector of length 512, 513, 4095, 4096, 4097, 5000, 8192 with a given first one, "
               "at up to 516 positions each (all block and word borders, the inside of every word); lengths 12288..70000 with up to 14 arbitrary words in a fixed pattern",
        runs=[job("c15_window", params=at((20000, 1, 300, 13, 512), (70000, 1, 1091, 3, 512), (70000, 3, 1080, 14, 512), (66000, 12, 64, 4, 64)), max_steps=BIG),
              job("c15_big", params=at((8192, 0, 64), (512, 0, 64), (513, 3, 64), (4095, 70, 64), (4096, 4095, 64), (4097, 0, 64), (5000, 600, 64))),
              job("c15_small", params=[{0: 70}], split={0: 71}),
              job("c15_small", params=[{0: 200}], split={0: 201}, tier="thorough"),
              job("c15_big", params=at((8192, 4096, 16), (7681, 0, 16), (3585, 100, 16), (1024, 0, 4), (16383, 16000, 64)), tier="thorough"),
              job("c15_window", params=at((140000, 11, 64, 8, 512), (140000, 13, 1100, 8, 512), (81920, 14, 63, 4, 64), (270000, 15, 4000, 4, 4096)), max_steps=HUGE, tier="thorough")],
    ),
    "C16": dict(
        level="model_checking",
        bounds="every vector of length 0..70 at every position; every vector of length 512, 513, 4096, 4097, 8192 with a given first one at up to 260 positions each; "
               "lengths 20000 and 70000 with up to 13 arbitrary words in a fixed pattern",
        runs=[job("c16_window", params=at((20000, 1, 300, 13, 512), (70000, 1, 1091, 3, 512), (66000, 12, 64, 4, 512)), max_steps=BIG),
              job("c16_big", params=at((8192, 0, 128), (512, 0, 64), (513, 3, 64), (4096, 4095, 64), (4097, 0, 64))),
              job("c16_small", params=[{0: 70}], split={0: 71}),
              job("c16_small", params=[{0: 140}], split={0: 141}, tier="thorough"),
              job("c16_big", params=at((8192, 4096, 16), (7681, 0, 16), (3585, 100, 16)), tier="thorough")],
    ),
    "C17": dict(
        level="model_checking",
        bounds="rank: every 64-bit position past the end, lengths 0,1,63..65,448,511..513,1024,3584,4095..4097 with any contents; "
               "select: every 64-bit argument, lengths 0..2,7,63..65 with any contents, answers in the last words of vectors of 512, 513, 600, 4096, 4097 bits with any contents, "
               "and of 12288 and 20000 bits with 2 or 3 arbitrary words",
        runs=[job("c17_window", params=at((12288, 1, 190, 2, 191, 192), (20000, 3, 310, 3, 312, 313)), split={9: 2}, max_steps=BIG),
              job("c17_big", params=at((4096, 0, 63, 64), (512, 0, 7, 8), (513, 0, 8, 9), (600, 3, 9, 10), (4097, 5, 64, 65))),
              job("c17_select", split={0: 7, 9: 2}), job("c17_rank", split={0: 14}), job("c17_in", split={0: 14}),
              job("c17_big", params=at(*[(1100, 0, k, k + 1) for k in range(18)], (8192, 5, 127, 128)), tier="thorough"),
              job("c17_window", params=at((70000, 3, 1091, 3, 1092, 1094)), split={9: 2}, max_steps=BIG, tier="thorough")],
    ),
    "C18": dict(
        level="model_checking",
        bounds="every vector of length 0..20,33,63..66, every 64-bit k, both scalar strategies; every vector of length 600 with first bit set, answers in every word; "
               "lengths 512, 513, 1100, 4095..4097, 5000, 8192 with a given first one, answers around the block borders; lengths 12288..70000 with 2 to 4 arbitrary words in a fixed pattern; 20000 bits, all ones from a position in {1,4089,4096,8191} on (sampled ones at block borders)",
        runs=[job("c18_big", params=at((8192, 0, 127, 128), (5000, 0, 64, 65), (5000, 0, 78, 79), (4095, 0, 63, 64)), split={9: 2}),
              job("c18_window", params=at((12288, 1, 190, 2, 190, 191), (20000, 3, 311, 2, 311, 312), (20000, 12, 64, 4, 66, 67), (40000, 11, 64, 2, 120, 140),
                                          (40000, 12, 64, 2, 250, 260), (70000, 1, 1091, 3, 1092, 1093), (40000, 14, 128, 2, 128, 129), (40000, 17, 100, 2, 110, 112)), split={9: 2}, max_steps=BIG),
              job("c18_run", params=at(*[(20000, f, k, k + 2) for f in (1, 4089, 4096, 8191) for k in (f // 64, (f + 8191) // 64)], (20000, 1, 255, 257)), split={9: 2}, max_steps=BIG),
              job("c18_edge", split={0: 5, 9: 2}),
              job("c18_big", params=at(*[(600, 0, k, k + 1) for k in range(10)], (512, 9, 7, 8), (513, 512, 8, 9), (1100, 1030, 16, 18), (4200, 4095, 63, 65), (4200, 4090, 63, 64), (4097, 4096, 64, 65)), split={9: 2}),
              job("c18_small", params=[{0: 20}], split={0: 21}),
              job("c18_small", params=[{0: 66}], split={0: 67, 9: 2}, tier="thorough"),
              job("c18_big", params=at(*[(4200, 0, k, k + 1) for k in range(0, 66, 3)], *[(8192, 64, k, k + 1) for k in (64, 71, 72, 100)]), split={9: 2}, tier="thorough"),
              job("c18_window", params=at((140000, 11, 64, 2, 1020, 1030), (140000, 12, 64, 4, 2040, 2060), (80000, 13, 64, 4, 900, 910)), split={9: 2}, max_steps=HUGE, tier="thorough")],
    ),
    "C19": dict(
        level="model_checking",
        bounds="every 128-bit entry with non-decreasing counts, every 64-bit rank",
        runs=[job("c19_strats"), job("c19_upper")],
    ),
    "C20": dict(
        level="model_checking",
        bounds="every 128-bit entry with non-decreasing counts, every in-block rank; select on every vector of length 0,1,2,17,64,65 with every 64-bit argument, "
               "on every vector of 600, 1100, 4096, 4097 bits with a given first one for answers in one word each, and on 20000 bits with 3 arbitrary words",
        runs=[job("c20_strats", profiles=SIMD),
              job("c20_big", profiles=SIMD, params=at((600, 0, 0, 1)), only={9: (0, 3)}),
              job("c20_big", profiles=SIMD, params=at((4097, 4096, 64, 65)), split={9: 3}),
              job("c20_window", profiles=SIMD, params=at((20000, 3, 311, 2, 311, 312), (20000, 12, 64, 4, 66, 67), (40000, 12, 64, 2, 250, 260), (12288, 11, 190, 2, 190, 191)),
                  only={9: (0, 3)}, max_steps=BIG),
              job("c20_window", profiles=SIMD, params=at((20000, 12, 64, 2, 120, 130)), split={9: 3}, max_steps=BIG),
              job("c20_small", profiles=SIMD, split={0: 6, 9: 3}),
              job("c20_window", profiles=SIMD, params=at(*[(13000, 12, 128 + k, 2, 128 + k, 129 + k) for k in range(0, 64, 8)]), only={9: (0, 3)}, max_steps=BIG, tier="thorough"),
              job("c20_big", profiles=SIMD, params=at(*[(4200, 0, k, k + 1) for k in range(1, 66, 8)]), split={9: 3}, tier="thorough")],
    ),
    "C21": dict(
        level="model_checking",
        bounds="every vector of length 0..3,9,33,64,65 with every 64-bit argument and up to 9 positions (consecutive arguments: up to length 33); every vector of 600, 1100, 4096, 4097 bits with a given first one and 20000 bits "
               "with 2 arbitrary words, for answers in one word each",
        runs=[job("c21_big", params=at((4096, 0, 63, 64), (600, 0, 0, 1), (600, 0, 8, 9), (1100, 3, 16, 17), (4097, 4096, 64, 65)), split={8: 2}),
              job("c21_window", params=at((20000, 3, 311, 2, 311, 312), (20000, 12, 64, 2, 124, 126), (40000, 17, 100, 2, 110, 111)), split={8: 2}, max_steps=BIG),
              job("c21_small", split={0: 8, 8: 2, 9: 2}), job("c21_next", split={0: 4, 9: 2}),
              job("c21_big", params=at(*[(4200, 0, k, k + 1) for k in range(2, 66, 8)]), split={8: 2}, tier="thorough")],
    ),
    "C22": dict(
        level="model_checking",
        bounds="every vector of length 0,1,5,33,64,65,130 (repeated select: up to 33, any argument); 512, 600, 4096, 5000 bits with a given first one; 20000 and 70000 bits with 13 or 14 arbitrary words",
        runs=[job("c22_window", params=at((20000, 1, 300, 13), (70000, 3, 1080, 14)), max_steps=BIG),
              job("c22_big", params=at((512, 0), (600, 600), (4096, 3), (5000, 4999))),
              job("c22_keep", split={0: 7, 2: 3})],
    ),
    "C23": dict(
        level="model_checking",
        bounds="any length 0..2^46, any contents, any 64-bit index; wrapper nestings up to depth 5",
        runs=[job("c23_get", split={0: 15}), job("c23_modify", split={0: 12}), job("c23_ints")],
    ),
    "C24": dict(
        level="model_checking",
        bounds="any length 0..2^46, any contents, one write at any position, either copy dropped; copies made bit by bit are decided for lengths 0..2, 63..66, 128..130, 200",
        runs=[job("c24_some", split={9: 11}), job("c24_vec"), job("c24_slice")],
    ),
    "C25": dict(
        level="model_checking",
        std=True,
        bounds="all contents of lengths 0..8; lengths 63, 64, 65, 130 and 200 with any four consecutive bits out of 16 places, within three patterns; lengths 300 and 1100 with any last four bits",
        runs=[job("c25_fmt", params=[{0: 8}], split={0: 9}), job("c25_long", params=[{0: n} for n in (63, 64, 65, 130, 200)], split={0: 16, 1: 3}),
              job("c25_long", params=[{0: n} for n in (300, 1100)], only={0: (15, 16), 1: (1, 3)}, max_steps=BIG)],
    ),
    "C26": dict(
        level="model_checking",
        bounds="any length up to 2^46, any contents, position and range; every width 1..64 with up to 66 elements",
        runs=[job("c26_bits", split={0: 13}), job("c26_ranges", split={0: 3, 2: 2}), job("c26_words"), job("c26_ints"), job("c26_packed", split={100: 16})],
    ),
    "C27": dict(
        level="model_checking",
        bounds="any container length 0..2^46, any 64-bit start and end, any index; storage words, vector and boxed words",
        runs=[job("c27_slice", split={0: 4, 1: 3}), job("c27_iter"), job("c27_ints")],
    ),
}


def jobs(pid, tier):
    out = []
    for r in PROPS[pid]["runs"]:
        if r["tier"] == "thorough" and tier != "thorough":
            continue
        if r["tier"] == "quickonly" and tier == "thorough":
            continue
        for prof in r["profiles"]:
            for par in r["params"]:
                parts = [r["only"]]
                for i, n in (r["split"] or {}).items():
                    parts = [{**p, i: (k, n)} for p in parts for k in range(n)]
                for c in parts:
                    out.append(dict(harness=r["harness"], profile=prof, params=dict(par), choose=c or None, **r["kw"]))
    return out
