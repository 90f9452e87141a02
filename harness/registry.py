"""What is built (BINS) and which runs decide which property (PROPS)."""
_SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
_L = "/usr/lib/x86_64-linux-gnu"
# the legacy code: its own headers (it ships copies of lobpcgxx and sparsexx), C++20; MPICH as in the upstream build
ATTIC_CXX = {"attic": "g++ -std=gnu++20 -O1 -g1 -w -fopenmp " + _SAN + " -D_GLIBCXX_ASSERTIONS -include memory -include optional -include cstdint -I{H} -I{REPO}/attic/inc -I{REPO}/attic/external/lobpcgxx/include -I{REPO}/attic/external/sparsexx/include -isystem " + _L + "/mpich/include -isystem /usr/include/eigen3"}
ATTIC_LINK = {"attic": "-fopenmp " + _SAN + " " + _L + "/liblapackpp.a " + _L + "/libblaspp.a -lblas -llapack " + _L + "/libopenblas.so " + _L + "/mpich/lib/libmpich.so -latomic -lpthread -lm -ldl"}
ATTIC_CXX["attic_vg"] = ATTIC_CXX["attic"].replace(_SAN, "-ftrivial-auto-var-init=uninitialized").replace("-g1", "-g")
_TS = "-fsanitize=thread -fno-omit-frame-pointer"
ATTIC_CXX["attic_ts"] = ATTIC_CXX["attic"].replace(_SAN, _TS).replace("-g1", "-g")
ATTIC_LINK["attic_ts"] = ATTIC_LINK["attic"].replace("-fopenmp", "").replace(_SAN, _TS)
ATTIC_LINK["attic_vg"] = ATTIC_LINK["attic"].replace(_SAN, "")
BINS = {
    "dets": dict(src=["h_dets.cxx"]),
    "ham": dict(src=["h_ham.cxx"], mpi=True),
    "solve": dict(src=["h_solve.cxx"], mpi=True),
    "sparse": dict(src=["h_sparse.cxx"], repo=["src/sparsexx/src/metis_wrapper.cxx"]),
    "dist": dict(src=["h_dist.cxx"], repo=["src/sparsexx/src/metis_wrapper.cxx"], mpi=True),
}
MORB = ["src/macis/%s.cxx" % x for x in ("transform", "fock_matrices", "orbital_energies", "orbital_gradient", "orbital_hessian", "orbital_rotation_utilities", "orbital_steps", "moller_plesset", "fcidump")]
BINS["orb"] = dict(src=["h_orb.cxx"], repo=MORB)
BINS["mcscf"] = dict(src=["h_mcscf.cxx"], repo=MORB + ["src/macis/casscf.cxx"], mpi=True, xlink="-Wl,--wrap=_ZN5macis19two_index_transformEmmPKdmS1_mPdm -Wl,--wrap=_ZN5macis20four_index_transformEmmPKdmS1_mPdm")
BINS["asci"] = dict(src=["h_asci.cxx"], repo=["src/macis/transform.cxx"], mpi=True)
BINS["attic"] = dict(src=["h_attic.cxx"], flavour="attic", mpi=True, repo=["attic/src/cmz_ed/%s.c++" % x for x in ("eigsolver", "combins", "bandlan", "slaterdet", "hamil", "ed", "rdms", "utils")])
BINS["legacy"] = dict(BINS["attic"], src=["h_legacy.cxx"], repo=BINS["attic"]["repo"] + ["attic/src/dbwy/gf.c++"])
# the same harnesses without sanitizers, for valgrind (reads of uninitialised memory)
for _k in ("dets", "ham", "solve", "sparse", "dist", "orb", "mcscf", "asci"):
    BINS["vg_" + _k] = dict(BINS[_k], flavour="vg")
BINS["vg_attic"] = dict(BINS["attic"], flavour="attic_vg")
BINS["vg_legacy"] = dict(BINS["legacy"], flavour="attic_vg")
# and with ThreadSanitizer, over an OpenMP runtime it can see through
BINS["ts_sparse"] = dict(BINS["sparse"], flavour="tsan", src=["h_sparse.cxx", "gomp_shim.cxx"])
BINS["ts_attic"] = dict(BINS["attic"], flavour="attic_ts", src=["h_attic.cxx", "gomp_shim.cxx"])
BINS["ts_legacy"] = dict(BINS["legacy"], flavour="attic_ts", src=["h_legacy.cxx", "gomp_shim.cxx"])
NPS = (1, 2, 3, 4, 6)
PROPS = {
    "X01": dict(runs=[dict(bin="attic", threads=2, cores=2, args=["--scale", "3"])], rule="random determinants up to 32 orbitals, random integrals and determinant lists compared with second quantisation; distinct by determinant, integrals and list"),
    "X02": dict(runs=[dict(bin="attic", threads=2, cores=2, args=["--scale", "3"])], rule="random integrals written to files in three styles, random wavefunctions and orbital transformations compared with second quantisation; distinct by integrals"),
    "X03": dict(runs=[dict(bin="attic", threads=2, cores=2, args=["--scale", "3"])], rule="random symmetric matrices and many-body problems solved by an independent Jacobi diagonalisation, block Krylov projections by Gram-Schmidt; distinct by matrix"),
    "X04": dict(runs=[dict(bin="legacy", threads=2, cores=2)], rule="random determinants up to 256 bits, random integrals, determinant lists and symmetric matrices compared with second quantisation; distinct by determinant, integrals and list"),
    "X05": dict(runs=[dict(bin="legacy", threads=2, cores=2)], rule="random integrals, wavefunctions, orbitals and frequencies compared with the resolvent in the particle-changed sectors; distinct by integrals and wavefunction"),
    "A01": dict(runs=[dict(bin="asci")] + [dict(bin="asci", np=k, shards=1, args=["--scale", "0.5", "--filter", "distribution"]) for k in (2, 3, 5)], rule="random alpha strings x orbital counts x constraint sizes and levels x rank counts, compared with brute-force excitation sets; distinct by strings, level and rank count"),
    "A02": dict(runs=[dict(bin="asci")] + [dict(bin="asci", np=k, shards=1, args=["--scale", "0.5"]) for k in (2, 3, 4, 6)], rule="random integrals (also with exact ties) x core wavefunctions x tolerances x buffer sizes x limits x rank counts, scores recomputed from second quantisation; distinct by integrals, core and rank count"),
    "A03": dict(runs=[dict(bin="asci")] + [dict(bin="asci", np=k, shards=1, args=["--scale", "0.5"]) for k in (2, 3, 5)], rule="random integrals x sectors x growth schedules x natural-orbital rotation x rank counts, every returned state judged against dense diagonalisation; distinct by integrals, sector and rank count"),
    "O01": dict(runs=[dict(bin="orb")], rule="random non-symmetric tensors x dense/permutation/sparse/rank-one rectangular coefficients x padded leading dimensions; distinct by tensor and coefficients"),
    "O02": dict(runs=[dict(bin="orb")], rule="random integrals x inactive/active/virtual splits x random active wavefunctions, compared with second quantisation over the whole orbital space; distinct by integrals and split"),
    "O03": dict(runs=[dict(bin="orb")], rule="random integrals, splits, densities of random wavefunctions, rotations up to |K|=20; distinct by integrals or rotation"),
    "O04": dict(runs=[dict(bin="mcscf")] + [dict(bin="mcscf", np=k, shards=1, args=["--scale", "0.4"]) for k in (2, 3, 4)], rule="molecule-like random integrals x orbital partitions x electron counts x settings x rank counts; distinct by integrals, partition and rank count"),
    "O05": dict(runs=[dict(bin="orb")], rule="random integrals x occupations x leading dimensions; distinct by integrals and occupation"),
    "O06": dict(runs=[dict(bin="orb")], rule="random objectives, starting points, histories; distinct by starting point"),
    "F01": dict(runs=[dict(bin="orb")], rule="random integrals written by the library or in foreign styles and read back; distinct by integrals"),
    "S05": dict(runs=[dict(bin="dist", np=k, shards=1) for k in NPS], rule="random square matrices x row tilings (also with empty tiles) x communicators (also rank-permuted) x 1..6 ranks; distinct by matrix and rank count"),
    "M03": dict(runs=[dict(bin="dist", np=k, shards=1, args=["--scale", "8"]) for k in NPS], rule="random data x types x counts x roots x communicators x 1..6 ranks; distinct by data and rank count"),
    "A04": dict(runs=[dict(bin="dist", np=k, shards=1, args=["--scale", "5"]) for k in NPS], rule="random, constant, heavily tied, sorted and unbalanced data x comparators x 1..6 ranks; distinct by data and rank count"),
    "S01": dict(runs=[dict(bin="sparse", args=["--scale", "3"])], rule="random matrices over 11 pattern families x shapes x index bases x index/value types x entry orders; distinct by matrix content"),
    "S02": dict(runs=[dict(bin="sparse", threads=4, cores=2)], rule="random matrices x formats x block widths, leading dimensions, scalars and thread counts; distinct by matrix content"),
    "S03": dict(runs=[dict(bin="sparse", args=["--scale", "8"])], rule="random matrices x random (also empty and full) ranges; distinct by matrix content"),
    "S04": dict(runs=[dict(bin="sparse", threads=4, cores=2)], rule="random matrices x permutations x thread counts, random partitions; distinct by matrix content"),
    "F02": dict(runs=[dict(bin="sparse", args=["--scale", "4"])] + [dict(bin="dist", np=k, shards=1) for k in (1, 2, 3, 5)], rule="random matrices written by an independent writer or by the library and read back; distinct by matrix content"),
    "E01": dict(runs=[dict(bin="solve")] + [dict(bin="solve", np=k, args=["--filter", "dist"], shards=1) for k in (2, 3, 5)], rule="random symmetric matrices (gaussian, dominant, degenerate, wide, sparse, integer) and CI Hamiltonians x guesses x subspace limits x rank counts; distinct by matrix and rank count"),
    "E02": dict(runs=[dict(bin="solve")], rule="random symmetric and hermitian operators of prescribed spectrum x block sizes x preconditioners; distinct by spectrum"),
    "E03": dict(runs=[dict(bin="solve")] + [dict(bin="solve", np=k, shards=1) for k in (2, 3, 5)], rule="random integrals x electron counts x rank counts, full CI by dense diagonalisation as oracle; distinct by integrals, sector and rank count"),
    "H01": dict(runs=[dict(bin="ham")], rule="random symmetric integrals (gaussian, integer, sparse, molecule-like, wide range) x random determinant pairs of excitation rank 0..3, norb up to the half width; distinct by determinant pair"),
    "H02": dict(runs=[dict(bin="ham", args=["--filter", "block"])] + [dict(bin="ham", np=k, args=["--filter", "dist"], shards=1) for k in (1, 2, 3, 5)], rule="random bra/ket lists and thresholds, every entry checked against second quantisation; distinct by integrals and lists and rank count"),
    "H03": dict(runs=[dict(bin="ham")], rule="random CI vectors on random determinant lists; distinct by integrals, vector and list"),
    "H04": dict(runs=[dict(bin="ham")], rule="random density matrices (degenerate and not), one to three successive rotations; distinct by integrals"),
    "D01": dict(runs=[dict(bin="dets")], rule="random and word-boundary-biased bit patterns at widths 32/64/128/256 (plus 16/48/96/192), every one- and two-bit pattern enumerated; distinct by pattern and width"),
    "D02": dict(runs=[dict(bin="dets")], rule="random determinants x orbital counts x active windows, compared with brute-force excitation sets; distinct by determinant and orbital count"),
    "D03": dict(runs=[dict(bin="dets")], rule="random determinants and wavefunction files; distinct by determinant set"),
}

_AS = ("dets", "ham", "solve", "sparse", "orb", "mcscf", "asci", "attic", "legacy")
PROPS["M01"] = dict(
    runs=[dict(bin=b, hprop="ALL", threads=1, shards=4 if b in ("solve", "mcscf", "asci") else 2, args=["--memory", "--repeat", "4", "--scale", "0.03"]) for b in _AS]
       + [dict(bin="dist", np=k, hprop="ALL", threads=1, shards=1, args=["--memory", "--repeat", "4", "--scale", "0.1"]) for k in (1, 3)]
       + [dict(bin="mcscf", np=2, hprop="ALL", threads=1, shards=1, args=["--memory", "--repeat", "4", "--scale", "0.02"]),
          dict(bin="asci", np=2, hprop="ALL", threads=1, shards=1, args=["--memory", "--repeat", "4", "--scale", "0.02"])]
       + [dict(bin="vg_" + b, hprop="ALL", threads=1, shards=2 if b in ("dets", "solve", "mcscf", "orb", "asci") else 1, valgrind=True, args=["--memory", "--scale", "0.01"]) for b in _AS + ("dist",)],
    technique="AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ assertions, Valgrind memcheck (uninitialised reads), heap-growth monitor over repeated cases, on the workloads of every other property",
    rule="the workloads of every other property at small scale with a shifted seed, each case run four times under ASan+UBSan with the live heap compared, and once under memcheck; distinct by case content")
for _r in PROPS["M01"]["runs"]: _r["seed_shift"] = 1000003
PROPS["M02"] = dict(
    runs=[dict(bin="ts_" + b, hprop="ALL", threads=8, shards=8, args=["--threads", "--scale", "0.8"]) for b in ("sparse", "attic", "legacy")]
       + [dict(bin=b, hprop="ALL", threads=8, cores=4, shards=2, args=["--threads", "--scale", "0.15"]) for b in ("sparse", "attic", "legacy")],
    technique="ThreadSanitizer over a pthread OpenMP runtime with random delays and unordered chunk dispatch; every case on 1..8 threads against the same oracles, failures attributed by re-running on one thread",
    rule="the workloads of the properties with multi-threaded kernels, each on a random number of threads with random delays; distinct by case content")

# How much more than the base number of cases a quick run makes (the base is what thorough runs and M01 start from)
QSCALE = dict(X01=4, X02=8, X03=10, X04=4, X05=8, A01=2, A02=3, A03=2, O02=12, O03=6, O05=20, O06=6, M03=3, A04=8, S02=2, S03=8, F02=5,
              E01=2, E02=15, E03=4, H01=3, H02=8, H03=6, H04=15, D01=3, D02=3, D03=15, S05=1.5)
