#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks_config import CHECKS

I = "include/samurai/"


def P(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech],
                        "observe_at": observe or [], "hook_needed": hook}}


NOMPI = "The test suite never compiles the message-passing code paths nor the multiresolution adaptation driver; "

PROPS = [
    P("C01", "The leaves of all processes tile the domain exactly once",
      "After a multiresolution mesh is built, and after every adaptation of it, the leaf cells of all processes together cover the whole domain, no two of them overlap (neither inside one process nor across processes), none lies outside, and every leaf level stays between the minimum and maximum level. This holds for every number of processes, including more processes than the domain has slices, and also for AMR meshes, built and updated from cell flags, on one process.",
      ["configurations", "histories", "schedules", "inputs"], "every box shape, level range, process count, initial data, sequence of adaptations and data changes, and message timing",
      NOMPI + "unit tests build single-process meshes only and sample a few shapes.",
      ["mesh.hpp", "mr/mesh.hpp", "mr/adapt.hpp", "algorithm/update.hpp", "box.hpp", "level_cell_array.hpp"],
      [("domain partition between processes", "mesh.hpp: partition_mesh"), ("removal of duplicated coarsening at process borders", "algorithm/update.hpp: keep_only_one_coarse_tag"), ("new mesh from tags", "algorithm/update.hpp: update_field_mr")]),
    P("C02", "Adjacent leaves never differ by more than one level",
      "After every adaptation of a multiresolution mesh, any two leaf cells that touch each other by a face, an edge or a corner differ by at most one level. This includes neighbours that belong to different processes and neighbours across a periodic boundary. It also holds on one process for an AMR mesh whose flags were graduated with a stencil that includes the diagonals.",
      ["configurations", "histories", "schedules", "inputs"], "every level range, boundary type, process count, data history, thresholds and message timing",
      NOMPI + "the one graduation test checks a single-process hand-made mesh.",
      ["mr/adapt.hpp", "mr/operators.hpp", "algorithm/update.hpp"],
      [("coarsening and refinement graduation", "mr/adapt.hpp: harten"), ("tag exchange between processes", "algorithm/update.hpp: update_tag_subdomains"), ("tag exchange across periodic boundaries", "algorithm/update.hpp: update_tag_periodic")]),
    P("C03", "The number of processes and message timing never change the result",
      "Running the same program (mesh construction, adaptations, ghost updates, stencil scheme steps) on any number of processes, under any interleaving, message delay and buffering of sends, produces the same set of leaf cells and the same field values as the one-process run, up to rounding.",
      ["configurations", "schedules", "histories", "inputs"], "every process count, message timing and operation history",
      NOMPI + "there is no multi-process test, and a real MPI run samples one timing.",
      ["mesh.hpp", "mr/mesh.hpp", "mr/adapt.hpp", "algorithm/update.hpp", "bc.hpp", "subset/subset_op.hpp"],
      [("neighbour mesh exchange", "mesh.hpp: update_mesh_neighbour"), ("ghost value exchange", "algorithm/update.hpp: update_ghost_subdomains"), ("tag exchange", "algorithm/update.hpp: update_tag_subdomains")]),
    P("C04", "After a ghost update every ghost holds the value the leaves imply",
      "After a ghost update, every ghost cell that a stencil can read on any process holds exactly the value implied by the leaf values of the whole domain: the owner's leaf value, the average of finer leaves, the interpolation from coarser cells, the periodic image, or the boundary condition. It does not matter which process owns the cells involved, how many fields are updated together, or how messages are timed. This holds for multiresolution meshes on any number of processes and for graduated AMR meshes on one process.",
      ["configurations", "schedules", "histories", "inputs"], "every mesh reached by adaptation, boundary condition, process count and message timing",
      NOMPI + "ghost values are only tested on single-process uniform or hand-made meshes.",
      ["algorithm/update.hpp", "bc.hpp", "numeric/projection.hpp", "numeric/prediction.hpp", "mr/mesh.hpp"],
      [("multi-level ghost update", "algorithm/update.hpp: update_ghost_mr"), ("exchange", "algorithm/update.hpp: update_ghost_subdomains"), ("periodic copies", "algorithm/update.hpp: update_ghost_periodic"), ("boundary ghosts", "bc.hpp: update_bc"), ("AMR ghost update", "algorithm/update.hpp: update_ghost; amr/mesh.hpp: update_sub_mesh_impl")]),
    P("C05", "Distributed operations always complete, with matching messages",
      "Whatever the process count (including processes that own no cell), the mesh and the timing of messages, every collective mesh or field operation completes on every process: no process waits forever, every sent message is received with the type and size it was sent with, no buffer is reused while a send still needs it, and no process crashes.",
      ["schedules", "configurations", "fault_sequences", "histories"], "every interleaving, delivery order, and choice of buffered or synchronous sends",
      NOMPI + "deadlocks that need synchronous sends or a stalled process do not show on an idle machine.",
      ["mesh.hpp", "algorithm/update.hpp", "mr/adapt.hpp", "mr/mesh.hpp"],
      [("neighbour exchange with non-blocking sends", "mesh.hpp: update_mesh_neighbour"), ("agreement on levels and on the end of adaptation", "algorithm/update.hpp: update_field_mr")]),
    P("C06", "Adaptation conserves the integral of every field",
      "An adaptation call changes the mesh but not the integral over the domain of any field it handles, whether the field drives the adaptation or is only carried along; a field that is carried along gets the same values as an equal field that drives the adaptation. This holds for any number of fields, any number of processes and any message timing, and for AMR meshes updated from cell flags on one process.",
      ["configurations", "histories", "schedules", "inputs"], "every mesh and data history, process count and message timing",
      NOMPI + "no test adapts a mesh and sums its fields.",
      ["algorithm/update.hpp", "numeric/projection.hpp", "numeric/prediction.hpp", "mr/adapt.hpp"],
      [("transfer of field values to the new mesh", "algorithm/update.hpp: update_fields"), ("projection and prediction", "numeric/projection.hpp, numeric/prediction.hpp")]),
    P("C07", "A distributed stencil scheme step equals the reference step",
      "One explicit step with the upwind operators (linear transport at any velocity, scalar Burgers) on an adapted mesh gives, in every leaf of every process, the value of the textbook formula applied to the leaf values of the whole domain; the flux-based diffusion operator of the finite-volume library gives in every leaf the sum of the fluxes through its faces, each computed at the finer level of its two sides. Both hold for any number of processes and any message timing.",
      ["configurations", "histories", "schedules", "inputs"], "every adapted mesh, process count and message timing",
      NOMPI + "schemes are tested on one process and on uniform meshes.",
      ["stencil_field.hpp", "algorithm/update.hpp", "field.hpp", "field_expression.hpp", "interface.hpp", "schemes/fv/flux_based/explicit_flux_based_scheme__lin_hom.hpp", "schemes/fv/operators/diffusion.hpp"],
      [("stencil operator", "stencil_field.hpp: upwind"), ("fluxes through the faces", "interface.hpp: for_each_interior_interface"), ("ghosts they read", "algorithm/update.hpp: update_ghost_mr")]),
    P("C08", "Parallel cell and interface loops visit every item exactly once",
      "The multi-threaded loops over cells and over interior and boundary interfaces of a mesh call the user function exactly once per cell or per interface (for schemes that treat both directions: once per interface and direction), with the right cells, whatever the number of threads, the assignment of work to threads and the interleaving.",
      ["schedules", "configurations", "inputs"], "every mesh, thread count, work assignment and thread interleaving",
      "The tests are built without OpenMP; and a threaded run samples one interleaving.",
      ["algorithm.hpp", "interface.hpp", "stencil.hpp", "schemes/fv/flux_based/flux_based_scheme.hpp"],
      [("parallel cell loop", "algorithm.hpp: parallel_for_each_cell"), ("interface loops with per-thread stencil iterators", "interface.hpp: for_each_interior_interface")]),
    P("C09", "Multi-threaded explicit schemes give the sequential result",
      "Applying an explicit flux-based scheme (linear, non-linear, one or several components, sums of operators) with several threads gives in every leaf the sum of the face fluxes that the sequential application gives, up to rounding, for any thread count, work assignment and interleaving: no contribution is lost, doubled or read half-written.",
      ["schedules", "configurations", "inputs"], "every mesh, scheme, thread count and thread interleaving",
      "The tests are built without OpenMP; lost updates need a rare interleaving.",
      ["schemes/fv/flux_based/explicit_flux_based_scheme.hpp", "schemes/fv/flux_based/explicit_flux_based_scheme__lin_hom.hpp", "schemes/fv/flux_based/explicit_flux_based_scheme__nonlin.hpp", "interface.hpp", "algorithm.hpp"],
      [("atomic accumulation of fluxes", "schemes/fv/flux_based/explicit_flux_based_scheme__nonlin.hpp"), ("per-thread iterators and buffers", "interface.hpp, schemes/fv/flux_based")]),
    P("C10", "Saved files contain exactly the cells and values of the mesh",
      "A save of a mesh, cell array, single level or uniform mesh, with any fields and any output options (grouped by level, by sub-mesh, explicit path), writes for any number of processes an HDF5 file and an XDMF file that agree with each other and contain every cell of every process exactly once, with its geometry and with the value of each field component of that very cell. A second save to the same name replaces the first completely.",
      ["configurations", "schedules", "histories", "inputs"], "every mesh, process count (including processes without cells), set of fields, output option, file name and message timing",
      "The HDF5 writer is not compiled by the tests: HighFive is not installed and there is no multi-process test.",
      ["hdf5.hpp"], [("cells and connectivity of all processes", "hdf5.hpp: save_on_mesh"), ("field values at the offset of their process", "hdf5.hpp: save_field"), ("XDMF document", "hdf5.hpp: save")]),
    P("C11", "A save that fails is always reported",
      "If opening, creating, writing, flushing or closing any of the files of a save fails (full disk, I/O error, missing permission), the save throws on every process; it never returns normally on a process while the files on disk are missing or incomplete, and it never leaves another process waiting.",
      ["fault_sequences", "schedules", "configurations"], "every storage fault at every point of a save, on any number of processes",
      "Tests never make the storage fail.",
      ["hdf5.hpp"], [("flush and XDMF write with error agreement", "hdf5.hpp: save")]),
    P("C12", "Timers report true durations whatever the clocks do",
      "The report of the timers gives for each timer the time actually spent between its starts and stops and its number of calls, even if the wall clock is set back or forward in between; on several processes it gives the minimum, maximum, average and standard deviation over the processes and names the processes that hold the extremes, whatever the offset between their clocks and the timing of messages.",
      ["fault_sequences", "schedules", "histories"], "every history of starts and stops, clock jump, clock offset between processes, and message timing",
      "A test cannot set the clock, and sees no second process.",
      ["timers.hpp"], [("start, stop and accumulation", "timers.hpp: Timers::start, stop"), ("statistics over processes", "timers.hpp: Timers::print")]),
    P("C13", "Running out of memory is reported and leaves the mesh usable",
      "If a memory allocation fails at any point of an adaptation, ghost update, scheme step or copy, the operation ends with an exception the caller can catch (never an abort, never a silently wrong result), the leaves still tile the domain, a failed ghost update has left the leaf values as they were, a failed adaptation has kept the integral of its field, and the same work done afresh gives the same result as without the failure.",
      ["fault_sequences", "histories", "inputs"], "every allocation of every operation of every history",
      "Tests never make an allocation fail.",
      ["algorithm/update.hpp", "field.hpp", "mesh.hpp", "mr/adapt.hpp", "schemes/fv/FV_scheme.hpp"], [("new mesh and fields are built before the old ones are replaced", "algorithm/update.hpp: update_field_mr, update_fields")]),
    P("C14", "Results never depend on the previous contents of memory",
      "Building, adapting, updating ghosts of, and stepping a field on a mesh gives leaf cells and leaf values that are a function of the program and its data alone: they never depend on what freshly allocated memory happened to contain.",
      ["histories", "fault_sequences", "inputs"], "every operation history and every initial content of heap memory",
      "A test run sees one memory content, usually zeros.",
      ["field.hpp", "algorithm/update.hpp", "bc.hpp", "mr/adapt.hpp"],
      [("ghost update reads only what was written", "algorithm/update.hpp: update_ghost_mr"), ("new field storage after adaptation", "algorithm/update.hpp: update_fields"), ("fields are not initialised", "field.hpp: resize")]),
    P("C15", "Every process holds a true copy of the other processes' meshes",
      "After a mesh is built, and after every adaptation of it, each process knows every other process of the run exactly once, and the copy of that process's mesh it holds is identical to the original: the same cells (level and indices) in every sub-mesh, the same domain, sub-domain, origin and scaling, level range and periodicity. This holds for any number of processes, including processes without cells, and any message timing.",
      ["configurations", "histories", "schedules", "inputs"], "every mesh history, process count and message timing",
      NOMPI + "a stale copy shows only in the exchanges that read it.",
      ["mesh.hpp", "mr/mesh.hpp", "level_cell_array.hpp", "cell_array.hpp"],
      [("exchange of meshes", "mesh.hpp: update_mesh_neighbour"), ("what is sent", "mesh.hpp, cell_array.hpp, level_cell_array.hpp, interval.hpp: serialize"), ("sub-meshes that depend on neighbours", "mr/mesh.hpp: update_sub_mesh_impl")],
      observe=["mesh.mpi_neighbourhood()"]),
    P("N01", "Set algebra on cell lists equals pointwise set algebra",
      "Union, intersection, difference, translation, contraction, expansion and level projection of cell sets contain exactly the cells that the pointwise definition gives.",
      ["inputs"], "every pair of cell sets and levels", "Unit tests sample hand-written sets.",
      ["subset/node.hpp", "subset/start_end_fct.hpp", "subset/visitor.hpp"], [("subset evaluation", "subset/node.hpp")]),
    P("N02", "Interval lists stay sorted, disjoint and complete",
      "Adding points and intervals in any order to a list of intervals yields the sorted minimal list of disjoint intervals that covers exactly what was added.",
      ["inputs"], "every sequence of additions", "Unit tests sample short sequences.",
      ["list_of_intervals.hpp"], [("insertion", "list_of_intervals.hpp: add_interval")]),
    P("N03", "Boundary-condition and prediction formulas have their stated order",
      "Boundary-condition extrapolations and the multiresolution prediction reproduce polynomials up to their order exactly.",
      ["inputs"], "every polynomial and level", "Tests cover a few orders.",
      ["bc.hpp", "numeric/prediction.hpp", "reconstruction.hpp"], [("coefficients", "numeric/prediction.hpp")]),
    P("N04", "Assembled matrices equal the explicit schemes they come from",
      "Multiplying a vector by the matrix assembled for an implicit scheme gives the same values as applying the scheme explicitly.",
      ["inputs"], "every mesh and scheme", "Not tested at all.",
      ["petsc/fv/flux_based_scheme_assembly.hpp"], [("assembly", "petsc/fv")]),
]

NA = {
    "N01": "pure function of its inputs: no schedule, clock, message, I/O or fault for a simulator to control (its effects inside the distributed and threaded operations are covered through C01-C04)",
    "N02": "pure function of the call sequence in one thread: nothing for a scheduler or fault injector to decide",
    "N03": "pure arithmetic on given inputs: nothing for a scheduler or fault injector to decide (the values are checked in context by C04 and C07)",
    "N04": "pure function of mesh and scheme; the sparse solver library is the only I/O-like party and it is not part of the statement",
}

missing = [p["id"] for p in PROPS if p["id"] not in CHECKS and p["id"] not in NA]
PROPS = [p for p in PROPS if p["id"] not in missing]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NA:
        continue
    c = CHECKS[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": "deterministic simulation with fault injection: " + c.get("technique", "seeded schedules of simulated processes, reference model"),
                   "level": c["level"], "level_note": c.get("note", "seeded search, not exhaustive; trusts the simulated environment and the reference model (harness/model.hpp)")})
m = {"version": 1, "setup_cmd": "g++ --version && python3 --version",
     "hooks": {"guard": "none", "enable": "no hook in /repo: the seams are the boost::mpi headers, the OpenMP runtime, the HDF5 wrapper headers, operator new and the clock, all replaced at build time from /verif/sim", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print("left out:", missing)
