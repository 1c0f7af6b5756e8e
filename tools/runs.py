"""How each property is decided: harness, build variant, suite, and (cases, time cap in s) per tier."""

HARNESSES = {
    # one binary per suite keeps the compile time of each check low
    **{"h_nd_" + c: dict(file="h_nd.cc", flags=["-DSUITE_" + c]) for c in ("C06", "C10", "C19", "C23", "C28")},
    "h_crash": dict(file="h_crash.cc", libs=["-ldl"]),
    "h_conc": dict(file="h_conc.cc", libs=["-ldl"]),
    "h_shower": dict(file="h_shower.cc", inc=["@/extern/shower_profile/" + d for d in ("shower_1D", "environment", "charge_excess_profile", "shower_creator")] + ["@/extern/utilities"],
                     src=["@/extern/shower_profile/" + f for f in ("shower_1D/shower_1D.cpp", "shower_creator/shower_creator.cpp", "environment/ice_profile.cpp")], flags=["-Wl,--allow-multiple-definition"]),
    # the driver of the field simulation, with a stand-in for the simulation package
    "h_meep": dict(file="h_meep.cc", inc=["%/harness/meepstub", "@/eisvogel/meep", "@/eisvogel/meep/impl", "@/extern/corsika/include", "@/extern/corsika/impl"], src=["@/extern/corsika/src/C8.cxx"],
                   flags=["-DWITHMEEP", "-Wl,--allow-multiple-definition"]),
    "h_c8": dict(file="h_c8.cc", inc=["@/extern/corsika/include", "@/extern/corsika/impl"], src=["@/extern/corsika/src/C8.cxx"], flags=["-Wl,--allow-multiple-definition"]),
}

CASES_RULE = "a case is a randomly generated history or input, derived from (seed, suite, case index); "

def run(harness, suite, quick, thorough, variant="prod", **kw):
    return dict(harness=harness, suite=suite, variant=variant, quick=quick, thorough=thorough, **kw)

VALGRIND = ["valgrind", "-q", "--show-mismatched-frees=no", "--exit-on-first-error=yes", "--error-exitcode=99"]

def perturbed(harness, suite, quick, thorough):
    """The same cases with different contents of newly allocated and freed heap memory: all observable results must agree."""
    return [run(harness, suite, quick, thorough, env={"VH_PERTURB" if harness == "h_gf" else "MALLOC_PERTURB_": v}, digest=harness + suite) for v in ("85", "170")]

MODEL = "Trusts the reference model (about 250 lines, double precision, direct evaluation of the separable kernel sums) and its error bounds, which grow with the size of indices, times and the conditioning of the direction near the axis."

RUNS = {
"C01": dict(level="exploration", technique="runtime monitoring: randomized operation histories against a dense reference model",
    note="Held on the executed histories; every read is compared bit-exactly with a dense reference array. Trusts the reference model (about 100 lines) and the C++ toolchain.",
    rule=CASES_RULE + "non-trivial if at least two chunks were stored; distinct by the sequence of operation kinds, number of chunks and cache depth.",
    runs=[run("h_darr", "C01", (100000, 90), (1500000, 700), floor=300)]),
"C02": dict(level="exploration", technique="runtime monitoring: histories with flush, snapshot, close, reopen and extension against a dense reference model",
    note="Held on the executed histories. Trusts the reference model.",
    rule=CASES_RULE + "non-trivial if at least two chunks were stored; distinct by the sequence of operation kinds, number of chunks and cache depth.",
    runs=[run("h_darr", "C02", (45000, 90), (500000, 700), floor=300)]),
"C03": dict(level="exploration", technique="runtime monitoring: rechunking against a dense model, with inspection of complete stored chunks",
    note="Held on the executed cases; overlap regions are read from the stored chunks through the library's own cache. Trusts the reference model.",
    rule=CASES_RULE + "non-trivial if the array has more than one element; distinct by all parameters of the case.",
    runs=[run("h_darr", "C03", (40000, 90), (400000, 700), floor=300)]),
"C04": dict(level="exploration", technique="runtime monitoring: histories with axis swaps against a dense reference model",
    note="Held on the executed histories. Trusts the reference model.",
    rule=CASES_RULE + "non-trivial if at least two chunks were stored; distinct by the sequence of operation kinds, number of chunks and cache depth.",
    runs=[run("h_darr", "C04", (40000, 90), (400000, 700), floor=300)]),
"C05": dict(level="exploration", technique="runtime monitoring: histories with moves, imports and merges against a dense reference model",
    note="Held on the executed histories, with /dev/shm as second file system where available. Trusts the reference model.",
    rule=CASES_RULE + "non-trivial if at least two chunks were stored; distinct by the sequence of operation kinds, number of chunks and cache depth.",
    runs=[run("h_darr", "C05", (30000, 90), (500000, 700), floor=300)]),
"C06": dict(level="exploration", technique="runtime monitoring: randomized serialisation, append and read-back sequences with bit-exact comparison; address/UB sanitizers",
    note="Held on the executed cases for normal finite values. Trusts the reference copy kept by the harness.",
    rule=CASES_RULE + "non-trivial if at least one array or append was processed; distinct by shapes, serialisation chunks, modes and append outcomes.",
    runs=[run("h_nd_C06", "C06", (600000, 60), (8000000, 500), floor=1000),
          run("h_nd_C06", "C06", (60000, 60), (1500000, 200), variant="asan", floor=300)]),
"C07": dict(level="exploration", technique="runtime monitoring: null-rich histories and Green's functions stored with the hint against dense and analytic reference models; address/UB sanitizers",
    note="Held on the executed histories. Trusts the dense reference array and the interpolation reference.",
    rule=CASES_RULE + "non-trivial if at least one null chunk was stored as marker; distinct by operations, chunk counts and cache depth, or by all parameters of the Green's function case.",
    runs=[run("h_darr", "C07", (30000, 60), (400000, 400), floor=300),
          run("h_gf", "C07", (12000, 60), (300000, 400), floor=100),
          run("h_gf", "C07", (900, 60), (20000, 200), variant="asan2", floor=30)]),
"C11": dict(level="exploration", technique="runtime monitoring: interpolation requests against kernel identities and a double-precision reference; address/UB sanitizers",
    note="Held on the executed cases. " + MODEL,
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_gf", "C11", (800000, 40), (15000000, 500), floor=1000),
          run("h_gf", "C11", (60000, 60), (1200000, 200), variant="asan2", floor=300)]),
"C12": dict(level="exploration", technique="runtime monitoring: evaluations of randomly chunked Green's functions against a double-precision reference; address/UB sanitizers",
    note="Held on the executed cases. " + MODEL,
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_gf", "C12", (18000, 60), (400000, 500), floor=100),
          run("h_gf", "C12", (1200, 60), (25000, 200), variant="asan2", floor=30)]),
"C13": dict(level="exploration", technique="runtime monitoring: metamorphic relations between signal calculations; address/UB sanitizers",
    note="Held on the executed cases. " + MODEL,
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_gf", "C13", (18000, 60), (400000, 500), floor=100),
          run("h_gf", "C13", (900, 60), (20000, 200), variant="asan2", floor=30)]),
"C14": dict(level="exploration", technique="runtime monitoring: causality and time-shift relations between signal calculations; address/UB sanitizers",
    note="Held on the executed cases. " + MODEL,
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_gf", "C14", (22000, 60), (450000, 500), floor=100),
          run("h_gf", "C14", (1200, 60), (25000, 200), variant="asan2", floor=30)]),
"C15": dict(level="exploration", technique="runtime monitoring: rotations and reflections of segments; address/UB sanitizers",
    note="Held on the executed cases. " + MODEL,
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_gf", "C15", (20000, 60), (450000, 500), floor=100),
          run("h_gf", "C15", (1200, 60), (25000, 200), variant="asan2", floor=30)]),
"C16": dict(level="exploration", technique="runtime monitoring: requests in, near and outside the domain against a reference that knows the domain; address/UB sanitizers",
    note="Held on the executed cases. Positions closer to the border of the domain than single-precision rounding are not judged. " + MODEL,
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_gf", "C16", (35000, 60), (700000, 500), floor=100),
          run("h_gf", "C16", (2200, 60), (45000, 200), variant="asan2", floor=30)]),
"C17": dict(level="exploration", technique="runtime monitoring: signals against a double-precision trapezoidal reference; address/UB sanitizers",
    note="Held on the executed cases. " + MODEL,
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_gf", "C17", (28000, 60), (600000, 500), floor=100),
          run("h_gf", "C17", (1500, 60), (30000, 200), variant="asan2", floor=30)]),
"C18": dict(level="exploration", technique="runtime monitoring: grid exports against pointwise evaluation and a double-precision reference; address/UB sanitizers",
    note="Held on the executed cases. " + MODEL,
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_gf", "C18", (40000, 60), (800000, 500), floor=100),
          run("h_gf", "C18", (2500, 60), (50000, 200), variant="asan2", floor=30)]),
"C08": dict(level="exploration", technique="runtime monitoring: spatial index operations against brute force, with structural checks of the dumped tree; address/UB sanitizers",
    note="Held on the executed histories. Trusts the brute-force list of boxes.",
    rule=CASES_RULE + "non-trivial if at least two boxes were inserted; distinct by the sequence of operation kinds and node capacity.",
    runs=[run("h_tree", "C08", (200000, 25), (4000000, 400), floor=1000),
          run("h_tree", "C08", (20000, 25), (800000, 200), variant="asan", floor=300)]),
"C09": dict(level="exploration", technique="runtime monitoring: cache operations against a list model; address/UB sanitizers",
    note="Held on the executed histories. Trusts the list model.",
    rule=CASES_RULE + "non-trivial if at least one element was evicted; distinct by the sequence of operation kinds and the capacity.",
    runs=[run("h_tree", "C09", (200000, 20), (4000000, 400), floor=1000),
          run("h_tree", "C09", (40000, 20), (800000, 200), variant="asan", floor=300)]),
"C10": dict(level="exploration", technique="runtime monitoring: randomized operation sequences on arrays and nested views against an element-wise model; address/UB sanitizers",
    note="Held on the executed sequences. Trusts the reference model.",
    rule=CASES_RULE + "non-trivial if at least one view was taken; distinct by array type and sequence of operation kinds.",
    runs=[run("h_nd_C10", "C10", (800000, 60), (10000000, 500), floor=1000),
          run("h_nd_C10", "C10", (60000, 60), (1500000, 200), variant="asan", floor=300)]),
"C19": dict(level="exploration", technique="runtime monitoring: downsampling of random partitions against the definition; address/UB sanitizers",
    note="Held on the executed cases.",
    rule=CASES_RULE + "non-trivial if the partition has at least two blocks; distinct by shape, offset, factor and partition.",
    runs=[run("h_nd_C19", "C19", (600000, 60), (8000000, 500), floor=1000),
          run("h_nd_C19", "C19", (60000, 60), (1500000, 200), variant="asan", floor=300)]),
"C23": dict(level="exploration", technique="runtime monitoring: exported files are parsed back and compared with what was exported; address/UB sanitizers",
    note="Held on the executed cases. The numpy parser of the harness implements format 1.0 as documented.",
    rule=CASES_RULE + "non-trivial if at least one sample or element was exported; distinct by shape, length and precision.",
    runs=[run("h_nd_C23", "C23", (200000, 60), (2500000, 500), floor=1000),
          run("h_nd_C23", "C23", (20000, 60), (400000, 200), variant="asan", floor=300)]),
}

RUNS["C21"] = dict(level="exploration", technique="address and undefined-behaviour sanitizers and the library's own assertions under all workloads; monitor of the memory in use over repeated operations",
    note="Held on the executed cases. Sanitizers see accesses outside of allocations, not accesses to wrong places inside of them; null, alignment and pointer-overflow instrumentation is off for the Green's function harness, where an invalid access still faults.",
    rule=CASES_RULE + "non-trivial and distinct as for the property whose workload it is.",
    runs=[run("h_darr", "C01", (6000, 60), (200000, 150), variant="asan", floor=100),
          run("h_darr", "C02", (3000, 60), (100000, 150), variant="asan", floor=100),
          run("h_darr", "C03", (3000, 60), (80000, 150), variant="asan", floor=100),
          run("h_darr", "C04", (2500, 60), (80000, 150), variant="asan", floor=100),
          run("h_darr", "C05", (2500, 60), (80000, 150), variant="asan", floor=100),
          run("h_darr", "C07", (1500, 60), (50000, 150), variant="asan", floor=100),
          run("h_gf", "C12", (1200, 60), (20000, 150), variant="asan2", floor=30),
          run("h_gf", "C16", (1200, 60), (20000, 150), variant="asan2", floor=30),
          run("h_gf", "C17", (700, 60), (15000, 150), variant="asan2", floor=30),
          run("h_gf", "C18", (1500, 60), (25000, 150), variant="asan2", floor=30),
          run("h_nd_C10", "C10", (15000, 60), (400000, 100), variant="asan", floor=300),
          run("h_nd_C06", "C06", (15000, 60), (400000, 100), variant="asan", floor=300),
          run("h_darr", "C21leak", (4000, 60), (80000, 150), floor=100, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}),
          run("h_gf", "C21leak", (1500, 60), (30000, 150), floor=30, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})])
RUNS["C22"] = dict(level="exploration", technique="differential monitoring under perturbed heap contents; valgrind memcheck",
    note="Held on the executed cases: two settings of the heap perturbation and memcheck's tracking of undefined values up to branches and system calls.",
    rule=CASES_RULE + "non-trivial and distinct as for the property whose workload it is.",
    runs=perturbed("h_darr", "C01", (6000, 60), (150000, 150)) + perturbed("h_darr", "C02", (3000, 60), (80000, 150)) + perturbed("h_darr", "C03", (4000, 60), (80000, 150))
       + perturbed("h_darr", "C04", (3000, 60), (80000, 150)) + perturbed("h_darr", "C07", (3000, 60), (80000, 150))
       + perturbed("h_gf", "C12", (2000, 60), (60000, 150)) + perturbed("h_gf", "C17", (2000, 60), (60000, 150)) + perturbed("h_gf", "C18", (2500, 60), (60000, 150))
       + perturbed("h_nd_C10", "C10", (30000, 60), (500000, 100)) + perturbed("h_nd_C06", "C06", (20000, 60), (500000, 100))
       + [run("h_darr", s, (n, 60), (n * 25, 200), variant="plain", wrap=VALGRIND, tscale=20, floor=20) for s, n in (("C01", 1200), ("C02", 700), ("C03", 700), ("C04", 700), ("C05", 400), ("C07", 500))]
       + [run("h_gf", s, (n, 60), (n * 25, 200), variant="plain", wrap=VALGRIND, tscale=20, floor=20) for s, n in (("C12", 120), ("C16", 150), ("C18", 150))])

RUNS["C20"] = dict(level="exploration", technique="runtime monitoring: generated Green's functions against the closed form in extended precision; address/UB sanitizers",
    note="Held on the executed cases. Trusts the closed form as evaluated by the harness.",
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_num", "C20", (4000, 60), (80000, 500), floor=30),
          run("h_num", "C20", (400, 60), (8000, 200), variant="asan2", floor=10)])
RUNS["C30"] = dict(level="exploration", technique="runtime monitoring: numeric helpers against independent evaluations in double precision; address/UB sanitizers",
    note="Held on the executed cases.",
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_num", "C30", (3000000, 30), (60000000, 400), floor=10000),
          run("h_num", "C30", (300000, 30), (6000000, 200), variant="asan2", floor=3000)])

RUNS["C24"] = dict(level="exploration", technique="runtime monitoring: crash and input/output fault injection at every kind of file operation, with a checker of the reopened directory; address/UB sanitizers",
    note="Held on the executed cases. Faults are injected at the calls into the C library made by the process (file contents are those the kernel has accepted, as after a crash of the process, not of the machine). Trusts the record of guaranteed contents kept in shared memory.",
    rule=CASES_RULE + "non-trivial if a fault was injected or contents were checked after reopening; distinct by operations, kind of fault and place where it hit.",
    runs=[run("h_crash", "C24", (6000, 60), (80000, 500), floor=100),
          run("h_crash", "C24", (200, 60), (4000, 200), variant="asan", floor=20)])

RUNS["C25"] = dict(level="exploration", technique="runtime monitoring: shower files and showers against an independent model of the profile, its interpolation and the track geometry; address/UB sanitizers",
    note="Held on the executed cases, in ice of constant density. Trusts the reference model (about 80 lines, double precision).",
    rule=CASES_RULE + "non-trivial if a shower with at least two tracks was compared; distinct by all parameters of the case.",
    runs=[run("h_shower", "C25", (400000, 30), (6000000, 400), floor=1000),
          run("h_shower", "C25", (40000, 30), (800000, 200), variant="asan", floor=300)])
RUNS["C27"] = dict(level="exploration", technique="runtime monitoring: tracks through the interface library against the core and the double-precision reference; address/UB sanitizers",
    note="Held on the executed cases. " + MODEL,
    rule=CASES_RULE + "non-trivial if several tracks were accumulated; distinct by all parameters of the case.",
    runs=[run("h_c8", "C27", (25000, 40), (450000, 500), floor=300),
          run("h_c8", "C27", (1500, 40), (25000, 200), variant="asan2", floor=30)])
RUNS["C28"] = dict(level="exploration", technique="runtime monitoring: invalid requests at random points of operation histories, with comparison of everything stored against a reference model; address/UB sanitizers",
    note="Held on the executed histories. Trusts the reference model.",
    rule=CASES_RULE + "distinct by the sequence of operations or requests.",
    runs=[run("h_darr", "C28", (30000, 60), (400000, 400), floor=300),
          run("h_darr", "C28", (2500, 60), (40000, 200), variant="asan", floor=100),
          run("h_nd_C28", "C28", (200000, 30), (4000000, 200), floor=300),
          run("h_nd_C28", "C28", (20000, 30), (400000, 200), variant="asan", floor=100),
          run("h_gf", "C28", (15000, 30), (400000, 200), floor=100),
          run("h_gf", "C28", (1500, 30), (30000, 200), variant="asan2", floor=30)])

RUNS["C26"] = dict(level="exploration", technique="runtime monitoring: the driver run in several real processes against a recording stand-in for the simulation package, every stored sample compared with the recorded fields; address/UB sanitizers",
    note="Held on the executed simulations. Trusts the stand-in for the simulation package (real processes with barriers, block decomposition, field values and loops over chunks as its documentation describes), not the package itself.",
    rule=CASES_RULE + "non-trivial if a simulation was run to its end; distinct by all parameters of the case.",
    runs=[run("h_meep", "C26", (4000, 60), (80000, 600), floor=100),
          run("h_meep", "C26", (500, 60), (10000, 200), variant="asan2", floor=20)])
RUNS["C29"] = dict(level="exploration", technique="runtime monitoring: geometry, antenna and coordinate maps against direct evaluation, with a stand-in for the simulation package; address/UB sanitizers",
    note="Held on the executed cases. Trusts the stand-in for the simulation package.",
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_meep", "C29", (400000, 30), (6000000, 400), floor=1000),
          run("h_meep", "C29", (40000, 30), (800000, 200), variant="asan2", floor=300)])
RUNS["C28"]["runs"] += [run("h_meep", "C28", (60000, 30), (1000000, 100), floor=300)]

RUNS["C33"] = dict(level="exploration", technique="runtime monitoring: processes interleaved at their file operations by a seeded scheduler, with a reference model for each; race detector on threads; address/UB sanitizers",
    note="Held on the executed schedules. Interleavings are at the granularity of calls that open, write, close, rename or remove files. Trusts the reference model and the scheduler.",
    rule=CASES_RULE + "non-trivial if at least two processes or threads ran; distinct by the schedule of the file operations and all parameters of the case.",
    runs=[run("h_conc", "C33", (20000, 40), (300000, 400), floor=100),
          run("h_conc", "C33", (2000, 30), (20000, 200), variant="asan2", floor=20),
          run("h_conc", "C33threads", (5000, 20), (60000, 200), floor=30),
          run("h_conc", "C33threads", (2000, 30), (20000, 400), variant="tsan", floor=10)])

RUNS["C31"] = dict(level="exploration", technique="runtime monitoring: signals from generated Green's functions against the exact line integral of the closed-form field in double precision",
    note="Held on the executed cases, to within 4% (linear interpolation: 10%) of the integral of the magnitude of the integrand at the oversampling used. Trusts the closed form (about 15 lines) and Simpson quadrature.",
    rule=CASES_RULE + "non-trivial if a signal was compared; distinct by all parameters of the case.",
    runs=[run("h_num", "C31", (12000, 40), (150000, 500), floor=50)])
RUNS["C32"] = dict(level="exploration", technique="runtime monitoring: accounting of heap memory, open files and files on disk over the same operations on arrays with different numbers of chunks; address/UB sanitizers",
    note="Held on the executed histories; memory is what is obtained through operator new, and the rise of its peak with the number of chunks is bounded by 2500 bytes per chunk index entry.",
    rule=CASES_RULE + "distinct by all parameters of the case.",
    runs=[run("h_res", "C32", (30000, 40), (400000, 500), floor=100),
          run("h_res", "C32", (800, 30), (10000, 200), variant="asan2", floor=20)])

NOT_APPLICABLE = {}
