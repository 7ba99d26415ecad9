"""Which harness binaries decide which property."""
MPI_LIBS = ["-lboost_serialization", "-lpugixml", "-lfmt", "-ldl"]


def mr(dim, *more):
    return {"src": "mr_mpi.cpp", "defs": ["-DDIM=%d" % dim, "-DSAMURAI_WITH_MPI"] + list(more), "libs": MPI_LIBS, "opt_thorough": "-O2"}


def omp(dim):
    return {"src": "omp_fv.cpp", "defs": ["-DDIM=%d" % dim, "-DSAMURAI_WITH_OPENMP"], "libs": ["-lpugixml", "-lfmt"], "two_step": True, "overlay": "nosimd",
            "flags": ["-fopenmp", "-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"]}


def io(dim):
    return {"src": "io.cpp", "defs": ["-DDIM=%d" % dim, "-DSAMURAI_WITH_MPI"], "libs": MPI_LIBS}


def mem(dim):
    return {"src": "mem.cpp", "defs": ["-DDIM=%d" % dim], "libs": ["-lpugixml", "-lfmt", "-ldl"]}


HARNESSES = {
    "mr1": mr(1),
    "mr2": mr(2),
    "mr3": mr(3, "-DMODES={0,1,2}"),
    "mr2w": mr(2, "-DSW=2"),
    "io1": io(1),
    "io2": io(2),
    "io3": io(3),
    "tm0": {"src": "timers.cpp", "defs": [], "libs": ["-lfmt", "-ldl"]},
    "tm1": {"src": "timers.cpp", "defs": ["-DSAMURAI_WITH_MPI"], "libs": ["-lboost_serialization", "-lfmt", "-ldl"]},
    "mem1": mem(1),
    "mem2": mem(2),
    "mem3": mem(3),
    "omp1": omp(1),
    "omp2": omp(2),
    "omp3": omp(3),
}

REAL = ["every samurai header reached from the operation (MR and AMR mesh, sub-meshes, partition, adaptation, ghost update, boundary conditions, field, schemes)"]
MPI_STUB = ["boost::mpi is simulated (point-to-point, non-blocking, collectives; serialisation through boost.serialization)", "processes are fibers of one program"]
MPI_ASSUME = ["the message layer delivers every message once and in order per (sender, receiver) pair, as MPI guarantees; order across pairs, delay, and whether a send completes before its receive is posted are chosen by the seed",
              "one process has one thread", "numerical comparison at 1e-10 relative"]
MR_PARTS = [{"harness": "mr1", "weight": 1}, {"harness": "mr2", "weight": 4}, {"harness": "mr3", "weight": 4}]
AMR_PARTS = MR_PARTS + [{"harness": "mem1", "weight": 0.5}, {"harness": "mem2", "weight": 1}]
MR_RULE = "a case = one seed: random domain, levels, boundary conditions, process count (1-6), initial data and history of adapt / modify / ghost update / scheme step operations, executed under a random schedule; counted once per distinct execution hash; non-trivial: "


def mrc(nontriv, **kw):
    d = {"parts": MR_PARTS, "level": "exploration", "rule": MR_RULE + nontriv, "real": REAL, "stub": MPI_STUB, "assumptions": MPI_ASSUME}
    d.update(kw)
    return d


OMP_REAL = ["the cell and interface loops, the explicit flux-based schemes, boundary conditions, mesh and field code, compiled with the OpenMP pragmas"]
OMP_STUB = ["the OpenMP runtime (team creation, loop scheduling, tasks, barriers, critical sections, atomics) is simulated: threads are fibers and every shared memory access is a possible switch",
            "'#pragma omp simd' hints are removed (gcc 13 internal error)"]
OMP_ASSUME = ["threads interleave at memory accesses (sequential consistency)", "numerical comparison at 1e-10 relative"]
OMP_RULE = "a case = one seed: random adapted mesh, fields, scheme or loop, team size 1-8, loop chunk assignment, and thread interleaving; counted once per distinct execution hash; non-trivial: "


def ompc(nontriv, **kw):
    d = {"parts": [{"harness": "omp1", "weight": 1}, {"harness": "omp2", "weight": 3}, {"harness": "omp3", "weight": 2}], "level": "exploration", "rule": OMP_RULE + nontriv, "real": OMP_REAL, "stub": OMP_STUB,
         "assumptions": OMP_ASSUME, "technique": "seeded thread schedules at memory-access granularity on a simulated OpenMP runtime, sequential reference"}
    d.update(kw)
    return d


IO_PARTS = [{"harness": "io1", "weight": 1}, {"harness": "io2", "weight": 2}, {"harness": "io3", "weight": 2}]
IO_RULE = "a case = one seed: random adapted mesh over 1-6 processes, fields, kinds of save (mesh, cells, one level, uniform mesh), output options, file names and message timing; counted once per distinct execution hash; non-trivial: "
IO_REAL = ["hdf5.hpp: collection of cells and values, offsets between processes, XDMF document, error paths; pugixml; mesh and field code"]
IO_STUB = ["HighFive/HDF5 is a stand-in that keeps the datasets in memory with collective semantics; the XDMF file descriptor is simulated by interposing the C library", MPI_STUB[0]]
IO_ASSUME = ["the stand-in reports errors where HighFive does (exceptions on open, create, write and flush; close is silent)", "collective HDF5 calls fail on every process or on none"]
MEM_RULE = "a case = one seed: random adapted mesh (multiresolution or AMR), boundary conditions, fields, history of operations"
MEM_STUB = ["operator new and the contents of fresh heap and stack memory are simulated"]

CHECKS = {
    "C01": mrc("the leaves of all processes were checked against the domain", parts=AMR_PARTS),
    "C02": mrc("the mesh carried several levels", parts=AMR_PARTS, budget={"quick": 75, "thorough": 600}),
    "C03": mrc("several processes ran and their result was compared with the one-process execution"),
    "C04": mrc("ghosts were checked with several processes", parts=AMR_PARTS),
    "C05": mrc("messages were exchanged"),
    "C06": mrc("the adaptation changed the number of leaves", parts=AMR_PARTS),
    "C07": mrc("a scheme step was compared with the reference with several processes"),
    "C08": ompc("several threads ran in at least one parallel region"),
    "C09": ompc("several threads ran in at least one parallel region"),
    "C10": {"parts": IO_PARTS, "level": "exploration", "rule": IO_RULE + "a save was read back from the simulated disk and compared with the mesh", "real": IO_REAL, "stub": IO_STUB, "assumptions": IO_ASSUME,
            "technique": "seeded schedules of simulated processes writing to a simulated disk, read-back oracle"},
    "C11": {"parts": IO_PARTS, "level": "exploration", "rule": IO_RULE + "a storage fault was injected into a save", "real": IO_REAL, "stub": IO_STUB, "assumptions": IO_ASSUME,
            "technique": "seeded disk faults (open, create, torn write, flush, close, XDMF open/write/close) on a simulated disk, read-back oracle"},
    "C12": {"parts": [{"harness": "tm0", "weight": 1}, {"harness": "tm1", "weight": 1}], "budget": {"quick": 15, "thorough": 180}, "level": "exploration",
            "rule": "a case = one seed: random history of starts, stops, nested timers and prints on 1-6 processes with simulated clocks that jump, drift and differ; counted once per distinct execution hash; non-trivial: several intervals were measured and the report compared",
            "real": ["timers.hpp: accumulation, statistics over the processes, report"], "stub": ["clock_gettime / MPI_Wtime are simulated", MPI_STUB[0]],
            "assumptions": ["all processes use the same set of timers (the report exchanges one message per timer)", "the printed numbers are compared at the printed precision"],
            "technique": "seeded clocks with jumps and skew, seeded schedules of simulated processes, exact reference durations"},
    "C13": {"parts": [{"harness": "mem1", "weight": 1}, {"harness": "mem2", "weight": 2}, {"harness": "mem3", "weight": 2}], "level": "exploration",
            "rule": MEM_RULE + " and which allocation of which operation fails (once or until the operation gives up); counted once per distinct execution hash; non-trivial: an allocation failed", "real": REAL, "stub": MEM_STUB,
            "assumptions": ["allocation failures show as std::bad_alloc from operator new"],
            "technique": "seeded allocation failures at arbitrary points of mesh and field operations, invariants on the state left behind"},
    "C14": mrc("the same history ran twice on one process with complementary contents of fresh memory", parts=[{"harness": "mr2", "weight": 3}, {"harness": "mr3", "weight": 3}, {"harness": "mem1", "weight": 1}, {"harness": "mem2", "weight": 3}], stub=MPI_STUB + MEM_STUB, technique="two executions of one seed with complementary contents of fresh memory"),
    "C15": mrc("the copy of another process's mesh was compared with the original"),
}
