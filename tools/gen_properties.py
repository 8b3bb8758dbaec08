#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("G01", "Gather-scatter replaces every entry by the combination over its id group",
 "After a gather-scatter with operation op, every entry whose id is nonzero and positive holds op applied over all entries, on all processes, that carry the same id (each counted once, repeated local ids included), and entries with id zero are untouched. This holds for add, mul, min, max and common-bit-prefix, for every supported element type, for any 64-bit ids in any order and for any number of processes, including ranks with no entries.",
 ["inputs", "configurations"], "every assignment of ids to entries on every number of processes, every op and element type",
 "gs_test checks one symmetric pattern with add on doubles, np 1-4; other ops and types only with one id per rank; no test has id 0, repeats across several ranks with other ops, empty ranks or np>4.",
 ["src/gs.c", "src/gs_local.c", "src/gs_defs.h", "src/gs.h"],
 [("topology discovery (nonzero_ids, shared_ids)", "src/gs.c"), ("local gather / remote exchange / local scatter", "src/gs.c:gs_aux"), ("typed combine loops", "src/gs_local.c")],
 ["values of the user array before and after gs()"],
 [("groups S_j", "partition of (process, index) pairs by |id|", "src/gs.h")])

prop("G02", "Flagged entries only receive going forward and only contribute in transpose",
 "With transpose 0, entries with a negative id contribute nothing but receive the combination over the non-flagged members of their group (the identity of the operation if there is none). With transpose 1, flagged entries contribute to the combination but keep their own value, and only non-flagged members receive the result.",
 ["inputs", "configurations"], "every placement of flags over every group on every number of processes, both transpose values, every method",
 "gs_test uses one flagged pattern (one id negated per rank) and only prints the numbers; nothing asserts on flagged entries, all-flagged groups or flagged repeats within one rank.",
 ["src/gs.c", "src/gs.h"],
 [("local_map / flagged_primaries_map", "src/gs.c"), ("FLAGS_LOCAL / FLAGS_REMOTE masks in the three exchange setups", "src/gs.c"), ("init of flagged primaries", "src/gs.c:gs_aux")],
 ["values of the user array before and after gs()"])

prop("G03", "Pairwise, crystal-router, all-reduce and auto exchange give the same answer",
 "A gather-scatter handle returns the same result whichever exchange method it was set up with, and the automatic choice is the same on all processes and correct whatever timings were measured. The result does not depend on which process holds which member of a group.",
 ["inputs", "configurations", "schedules"], "every method, every outcome of the timing runs (also different timings on different ranks), every distribution of the same groups over processes",
 "The tests run pairwise and all-reduce on one pattern and never set up the crystal router explicitly; which method auto picks depends on the machine.",
 ["src/gs.c", "src/comm.c"],
 [("pw_setup / cr_setup / allreduce_setup", "src/gs.c"), ("auto_setup, dry_run_time", "src/gs.c")],
 ["values of the user arrays for the same input under the four methods"])

prop("G04", "Vector and many-array gather-scatter equal one plain operation per component",
 "A gather-scatter on vectors of k components, or on k separate arrays at once, gives exactly the result of k plain operations, for every k, operation, element type, method, transpose value and flag pattern. The number of messages each process sends does not depend on k.",
 ["inputs", "configurations"], "all k, including 1 and values larger than any tested; all element types and methods, both transpose values",
 "Only igs_many with k=2, add on doubles, is asserted by a test; the vector form has no test at all.",
 ["src/gs.c", "src/gs_local.c"],
 [("mode dispatch tables", "src/gs.c"), ("gather/scatter *_vec, *_many, vec_to_many, many_to_vec", "src/gs_local.c")],
 ["values of the user arrays; messages sent per process during one operation"])

prop("G05", "A nonblocking gather-scatter equals the blocking one, for any order of waits",
 "Issuing a nonblocking gather-scatter (plain, vector or many-array, with any method) and waiting on its handle leaves the data exactly as the blocking call would. Outstanding operations on different gather-scatter handles with separate scratch buffers may be waited on in any order and interleaved with blocking operations; waiting affects only its own operation.",
 ["histories", "schedules", "inputs"], "all interleavings of issue, wait and blocking operations, all orders of waits, all delivery orders of messages",
 "The tests always wait right after issuing, one operation at a time.",
 ["src/gs.c", "src/comm.c"],
 [("outstanding-operation table", "src/gs.c: nblkng_dict"), ("issue/wait split of the exchange", "src/gs.c: pw_exec_irecv, pw_exec_isend, pw_exec_wait, allreduce_exec_i, allreduce_exec_wait")],
 ["user arrays after wait; handle values returned"],
 [("nblkng_dict", "table of outstanding operations", "src/gs.c")])

prop("G06", "Making ids unique leaves exactly one unflagged member per group",
 "Marking ids unique keeps every absolute value and every zero, leaves exactly one unflagged entry in every group that had an unflagged entry (one of those that were unflagged), and flags all other entries. Setting up a handle with the unique option leaves the caller's ids unmodified and behaves as if the ids had been made unique first.",
 ["inputs", "configurations"], "every assignment of ids and flags, any number of processes",
 "gs_unique_test prints the arrays for one pattern where all ranks share all ids and asserts nothing.",
 ["src/gs.c"], [("make_topology_unique", "src/gs.c"), ("gs_unique / unique argument of gs_setup", "src/gs.c")],
 ["the id array after gs_unique; results of operations on a handle set up with unique=1"])

prop("G07", "Gather-scatter handles are independent, reusable and fully released",
 "Any number of handles may be live at once on any communicators (including sub-communicators), set up and freed in any order and used any number of times, sharing scratch space or not: each operation's result depends only on its own handle and data. Once handles are freed no communicator, request or message belonging to them remains and memory use does not grow with the number of set-up/use/free cycles.",
 ["histories"], "all sequences of set-up, operation and free over several handles and communicators",
 "Each test program creates at most two handles, one after the other, and never measures what is left after freeing.",
 ["src/gs.c", "src/comm.h", "src/crystal.c"],
 [("gs_setup duplicates the communicator, gs_free releases everything", "src/gs.c"), ("shared static scratch buffer", "src/gs.c: static_buffer")],
 ["results of operations; live communicators, requests, memory after gs_free"])

prop("G08", "The Fortran gather-scatter interface agrees with C and rejects bad arguments",
 "Every Fortran-callable gather-scatter entry point (plain, vector, up to six arrays, strided fields, nonblocking forms, unique) acts on the user's data as the corresponding plain operations would, for each of its element types and operations. A handle that was never returned or is already freed, an element type or operation outside the documented range, or a wrong process count stops the program with an error instead of touching data.",
 ["inputs", "histories"], "all handle histories, all element type / operation / transpose / count arguments",
 "f-igs.f calls setup, one nonblocking add on doubles and wait; no other entry point and no invalid argument is tested.",
 ["src/gs.c"],
 [("fgs_info handle table, fgs_check_handle, fgs_check_parms", "src/gs.c"), ("fgs, fgs_vec, fgs_many, fgs_fields, figs*", "src/gs.c")],
 ["user arrays; error exit"], [("fgs_info", "table of live Fortran handles", "src/gs.c")])

prop("M01", "The crystal router delivers every message exactly once and intact",
 "Whatever set of messages (any target, any length including zero, several per target, to oneself) the processes put in, each message comes out exactly once, on its target process, with its payload unchanged and its source field naming the process it came from, and the router can be used again for any number of rounds.",
 ["inputs", "schedules", "histories"], "all message sets, any number of processes (not only powers of two), all delivery orders, repeated use",
 "crystal_test sends one fixed message per pair of ranks, np 1-4, and checks a total count and sum.",
 ["src/crystal.c"], [("recursive halving with fold-over for odd sizes", "src/crystal.c: crystal_router, crystal_move, crystal_exchange")],
 ["contents of the router's data buffer before and after"])

prop("M02", "Routing needs a logarithmic number of messages; exchanges combine messages",
 "In one crystal-router call every process sends at most two point-to-point messages per halving step (twice the ceiling of log2 of the process count), independent of what is routed. One pairwise gather-scatter sends at most one message to each process it shares ids with and none to others, and one crystal-router gather-scatter sends at most one message per halving step, whatever the number of components.",
 ["inputs", "configurations"], "all message sets, id patterns and process counts",
 "No test counts messages.",
 ["src/crystal.c", "src/gs.c"], [("halving schedule", "src/crystal.c, src/gs.c: cr_schedule"), ("one message per neighbour", "src/gs.c: pw_comm_setup")],
 ["point-to-point messages sent by each process during a call"])

prop("M03", "Array transfer moves each record exactly once and reports its source",
 "Transferring an array of records by a destination field (or an external destination list) delivers every record exactly once, on the process it names, with all other bytes unchanged; if asked, the destination field then holds the sending process, otherwise it is unchanged. The receiving array grows as needed, records from one sender keep their relative order, and doing the source-setting transfer twice restores the original multiset of records on every process.",
 ["inputs", "schedules", "histories"], "all record counts (zero included), record sizes, field positions, destinations, process counts, delivery orders",
 "sarray_transfer_test does one round trip with a single record type and 3*np records, np 1-4; the external-destination and multi-array forms are untested.",
 ["src/sarray_transfer.c", "src/sarray_transfer.h"], [("pack / route / unpack", "src/sarray_transfer.c")],
 ["array contents before and after"])

prop("M04", "Tuple transfer reports the true count, respects capacity and validates handles",
 "The Fortran tuple transfer delivers the integer, long and real parts of every tuple together, sets the key to the source process and the count to the number of tuples sent here, even when that exceeds the capacity; it then stores exactly the capacity's worth of complete tuples and never writes beyond it. Tuple sorts order the tuples by the listed keys and keep parts together, and handles not returned by set-up or already freed are rejected with an error.",
 ["inputs", "histories"], "all tuple shapes (parts may be absent), counts, capacities smaller or larger than what arrives, all key lists and handle histories",
 "No test calls the Fortran crystal-router interface or the fixed-capacity transfer.",
 ["src/fcrystal.c", "src/sarray_transfer.c"], [("cap_rows", "src/sarray_transfer.c"), ("fcrystal_*", "src/fcrystal.c")],
 ["tuple arrays, guard memory after the capacity, returned count, error exit"])

prop("M05", "Reductions and scans combine exactly the contributions they should",
 "An all-reduce (blocking or nonblocking), a scalar reduction over local arrays and a dot product give every process the combination of all contributions, and a scan gives each process the combination over strictly lower ranks (the identity on the first) together with the total. This holds for every supported element type and operation, vector length (zero included) and number of processes, including sub-communicators.",
 ["inputs", "configurations", "schedules"], "all process counts, lengths, types and operations, all delivery orders",
 "comm_test prints one sum scan without checking it, np 1-4; the operation that is not delegated to MPI and all other types are never run.",
 ["src/comm.c", "src/comm.h"], [("binary-tree scan and all-reduce", "src/comm.c: scan_imp, allreduce_imp"), ("delegation to MPI", "src/comm.c: comm_allreduce")],
 ["returned values on every process"])

prop("M06", "No schedule can block, corrupt or leave behind communication",
 "Every collective operation of the library (set-up, gather-scatter, routing, transfers, reductions, scans, point finding and evaluation) completes on all processes under every order of message delivery and even if sends do not complete before they are received, with a result independent of the schedule. Buffers of pending communication are never modified or reused before completion, messages are received with the size they were sent, and no message, request or communicator is left behind.",
 ["schedules"], "all interleavings of the processes, all delivery orders, eager and synchronous sends",
 "The tests run each program once on a shared-memory transport that buffers small messages and delivers promptly.",
 ["src/crystal.c", "src/gs.c", "src/comm.c", "src/sarray_transfer.c", "src/findpts_imp.h"],
 [("nonblocking receive posted before send", "src/crystal.c, src/gs.c"), ("tree order of blocking sends", "src/comm.c")],
 ["completion of every call; MPI-level bookkeeping; results under different schedules"])

prop("M07", "Communicators keep members, order and messages apart",
 "A communicator made by initialising, duplicating or splitting has exactly the members it should (all of them, or those giving the same colour), numbered from zero without gaps in the order of keys, ties in parent order, and every process sees its size; a wrong announced size stops the program. Blocking and nonblocking messages sent on a communicator are received complete, in the order sent for each sender and tag, never on another communicator or by the library's own traffic, and nothing is written beyond a message; a barrier is passed only after all have reached it. Freed communicators are released.",
 ["inputs", "histories", "schedules"], "all colours and keys, all nestings of communicators, all interleavings of user messages with library operations, all delivery orders",
 "The tests use the world communicator only; comm_split, comm_dup and comm_init_check are never run and no test mixes its own messages with the library's.",
 ["src/comm.h", "src/comm.c"], [("comm_init, comm_split, comm_dup, comm_init_check", "src/comm.h"), ("comm_isend, comm_irecv, comm_wait", "src/comm.h"), ("private communicators of handles", "src/gs.c, src/crystal.c")],
 ["rank and size of new communicators; contents of received messages; live communicators; error exit"])

prop("S01", "Sorting returns the stable sorted order for every length, stride and key",
 "The permutation sort returns a permutation of the indices that orders the keys and keeps the order of equal keys (relative to the starting permutation when one is supplied); the value sort returns the same keys in order, also in place. This holds for every length, stride, key type (32-bit, 64-bit, float, double, negative values included) and key distribution, with the input left unmodified.",
 ["inputs"], "all lengths (around the switch between algorithms as well), strides, key values, initial permutations",
 "sort_test uses random 64-bit keys of random lengths and compares sums; 32-bit, float, strides, initial permutations, equal keys and in-place use are not asserted.",
 ["src/sort.c", "src/sort_imp.h"], [("merge sort below 256 keys, radix sort above", "src/sort_imp.h")],
 ["returned permutation / values"])

prop("S02", "Record sorting is lexicographic, stable and moves whole records",
 "Sorting an array of records by one to four fields leaves the same records ordered lexicographically by those fields, equal ones in their original order, with every byte of each record kept together. Applying a permutation in place puts record perm[i] at position i for every permutation and leaves the permutation as it was, so that further arrays can be permuted alike.",
 ["inputs"], "all record sizes, field types and positions, all permutations, all lengths",
 "sarray_sort_test prints a sorted array of a few records; nothing is asserted.",
 ["src/sarray_sort.c", "src/sarray_sort.h", "src/sort.c"], [("chained stable sorts from the last field", "src/sarray_sort.h"), ("in-place cycle permutation", "src/sarray_sort.c")],
 ["array contents before and after"])

prop("S03", "Growable arrays keep their contents and always have the room asked for",
 "Any sequence of initialise, reserve, append and resize on a growable array keeps all elements stored so far in order, provides at least the capacity asked for, never shrinks when reserving, and lets the capacity grow geometrically. The count changes only when elements are appended.",
 ["histories"], "all sequences of operations, element sizes and lengths",
 "Arrays are used by the tests only incidentally, with generous initial sizes.",
 ["src/mem.h"], [("array_reserve_, array_cat_, array_resize_", "src/mem.h")],
 ["array contents, count and capacity after each operation"], [("struct array", "pointer, count, capacity", "src/mem.h")])

prop("F01", "Every point of the mesh is found, at coordinates that map back to it",
 "A point inside any element, on any process, is reported as found with a process, element and reference coordinates in [-1,1] that map back to the point (distance zero up to rounding), whichever process asks; a point interior to a single element is reported in exactly that element, a point on a shared face in one of the elements containing it. Each query's answer depends only on that query.",
 ["inputs", "configurations"], "all valid meshes (affine and curved, 2-D and 3-D, repeated over any number of processes, some with no elements), all query points and numbers of queries per process (zero included)",
 "findpts_test checks 3-D random quadratic elements on 1-4 equal ranks and looks only at the count of points not found; the 2-D distributed finder is not tested, nor exact locations, uneven ranks or empty ones.",
 ["src/findpts.c", "src/findpts_imp.h", "src/findpts_local.c", "src/findpts_local_imp.h", "src/findpts_el_2.c", "src/findpts_el_3.c", "src/obbox.c"],
 [("global hash of bounding boxes", "src/findpts_imp.h"), ("local hash", "src/findpts_local_imp.h"), ("Newton search per element", "src/findpts_el_2.c, src/findpts_el_3.c")],
 ["code, proc, el, r, dist2 per query"])

prop("F02", "Locations do not depend on distribution, hash sizes or batch size",
 "Redistributing elements or query points over any number of processes, changing the hash-table sizes, the batch size or the array strides changes no answer: the same points are found, at the same physical element (or another element sharing the point) and the same coordinates.",
 ["configurations", "inputs"], "all distributions of elements and queries, all hash sizes (for the local table from nel+2 upward), all batch sizes and strides",
 "The tests use one hash size and batch size.",
 ["src/findpts_imp.h", "src/findpts_local_imp.h", "src/findpts.c"], [("hash tables sized by arguments", "src/findpts_local_imp.h: hash_opt_size, src/findpts_imp.h"), ("batching by npt_max", "src/findpts_local_imp.h")],
 ["answers for the same mesh and points under different configurations"])

prop("F03", "Evaluating a field at found points gives its interpolant, whenever called",
 "For points returned by the finder, evaluation returns the value of the element's polynomial interpolant of the given field at the reported coordinates, on whichever process the element lives, for any subset, order, number and stride of points, any number of fields and any number of evaluations after one search. Entries for points that were not found are left untouched.",
 ["inputs", "histories", "configurations"], "all fields, subsets and orders of found points, repeated evaluations, all distributions",
 "findpts_test evaluates the coordinate fields of all points once, in the order found.",
 ["src/findpts_imp.h", "src/findpts_local_imp.h", "src/findpts.c"], [("route to owner, evaluate, route back", "src/findpts_imp.h")],
 ["returned field values"], [("saved points of the last evaluation set-up", "cache reused by later evaluations", "src/findpts_imp.h")])

prop("F04", "Overlapping-mesh search respects the session filter and picks the best donor",
 "In the multi-session finder a point excluded from a session is never located in an element of that session, and a point restricted to a session is located only there; among the admissible meshes that contain the point the one with the largest supplied distance field there is chosen. A point no admissible mesh contains is reported as not found (or on a border).",
 ["inputs", "configurations"], "all session layouts, overlaps, distance fields, match modes, process distributions",
 "findpts_test_ms has two sessions overlapping in one band, prints counts of wrong sessions, np 1-4.",
 ["src/findpts_imp.h", "src/findpts_local_imp.h", "src/findpts.c"], [("session comparison and distance comparison in local and global merge", "src/findpts_local_imp.h, src/findpts_imp.h")],
 ["code, proc, el and therefore session of each answer"])

prop("F05", "Points outside the mesh are never reported as inside",
 "A point strictly outside every element is never reported as interior: it is reported as not found, or as nearest to a border with reference coordinates on the element boundary and a squared distance equal to the true squared distance from that boundary point to the query point, which no feasible move within that element reduces. A point further from every element than its bounding-box tolerance is reported as not found.",
 ["inputs"], "all points outside the mesh, near and far, in all directions and all numbers of dimensions; meshes of any number of processes",
 "findpts tests query only points inside the mesh.",
 ["src/findpts_imp.h", "src/findpts_local_imp.h", "src/findpts_el_2.c", "src/findpts_el_3.c", "src/obbox.c"], [("constrained Newton search with boundary clamping", "src/findpts_el_2.c, src/findpts_el_3.c"), ("bounding-box test", "src/obbox.h")],
 ["code, r, dist2 per query"])

prop("F06", "The Fortran finder and the purely local finder agree with the distributed one",
 "The Fortran-callable finder gives the same codes, processes, elements, coordinates, distances and field values as the C interface, for two and three dimensions and any strides, and keeps several finder handles apart. On one process's own elements the local finder gives the same answers; handles never returned or already freed are rejected with an error.",
 ["inputs", "histories"], "all meshes and queries; all handle histories",
 "No test calls the Fortran finder; findpts_local_test checks one random 3-D mesh.",
 ["src/findpts.c", "src/findpts_local.c"], [("handle table and wrappers", "src/findpts.c"), ("findpts_local_*", "src/findpts_local.c")],
 ["answers of the three interfaces for the same mesh and points"])

prop("N01", "Polynomial bounds always contain the polynomial, and tighten with more points",
 "The bound computed for a polynomial given by its values at the Lobatto nodes contains every value the polynomial takes on the reference interval, square or cube, for any degree supported and any number of bounding points that is at least twice the number of nodes (what every caller in the library uses); so does the piecewise-linear enclosure at every point. It is exact for constants and linear functions, and doubling the number of points does not widen it.",
 ["inputs"], "all polynomials (degrees, signs, oscillation), one, two and three dimensions, all admissible numbers of bounding points",
 "lob_bnd_test samples random polynomials in one configuration of sizes.",
 ["src/lob_bnd.c", "src/lob_bnd.h"], [("piecewise-linear bounds of the basis functions", "src/lob_bnd.c")],
 ["returned interval versus exact polynomial values"])

prop("N02", "Bounding boxes contain their element",
 "Both the axis-aligned and the oriented bounding box computed for an element contain every point of the (curved) element, in two and three dimensions, for any order, orientation and tolerance, so that the box test never rejects a point of the element; for affine elements the axis-aligned box is exactly the element's extent enlarged by the tolerance asked for.",
 ["inputs"], "all element geometries, orders, orientations (left-handed as well), tolerances down to zero",
 "obbox_test checks random elements with one set of sizes.",
 ["src/obbox.c", "src/obbox.h", "src/lob_bnd.c"], [("Jacobian at centre, bounds by lob_bnd", "src/obbox.c"), ("obbox_test", "src/obbox.h")],
 ["box test value at points of the element"])

prop("N03", "Quadrature and interpolation are exact for polynomials of the right degree",
 "Gauss nodes and weights integrate every polynomial of degree 2n-1 exactly and Lobatto nodes and weights every polynomial of degree 2n-3, with nodes increasing, symmetric and (for Lobatto) including the endpoints. Lagrange interpolation weights and their first and second derivatives reproduce every polynomial of degree n-1 and its derivatives at every point, nodes included, and the specialised Lobatto evaluation equals the general one.",
 ["inputs"], "all n up to the largest tabulated and beyond, all polynomials, all evaluation points",
 "poly_test only prints; interpolation is exercised indirectly at orders 5-8.",
 ["src/poly.c", "src/poly_imp.h"], [("Newton iteration on Legendre polynomials", "src/poly.c"), ("barycentric Lagrange evaluation, generated Lobatto code", "src/poly.c, src/poly_imp.h")],
 ["integrals and interpolated values of integer polynomials"])

prop("N04", "Tensor-product operations apply each factor along its own direction",
 "Matrix, vector and tensor-product kernels compute the contraction of the data with each factor along the corresponding direction, for all shapes including size one and non-square factors, and the gradient forms return the interpolated value together with each partial derivative. The result is the same with the built-in loops and with an external BLAS.",
 ["inputs", "configurations"], "all shapes and integer data; both linear-algebra back ends",
 "No test targets the tensor kernels; they run indirectly in square-ish shapes.",
 ["src/tensor.c", "src/tensor.h"], [("tensor_mxm, tensor_mtxm, tensor_i*, tensor_ig*, tensor_m*", "src/tensor.h, src/tensor.c")],
 ["output arrays for integer input"])

prop("C01", "Without MPI the library works as a single process",
 "Compiled without MPI every operation behaves as the MPI build does on one process: communicators that are made, duplicated or split are one process numbered 0; gather-scatter by every method (nonblocking forms included), record and message transfer, reductions, scans, broadcasts and gathers, sorting, the point finder through its C and Fortran interfaces and the numerical kernels give the documented results; asking for any other number of processes is refused with an error.",
 ["inputs", "configurations", "histories"], "all operation histories and inputs on one process",
 "Every test is built with MPI.",
 ["src/comm.h", "src/comm.c", "src/gs.c", "src/findpts.c"], [("the branches taken without GSLIB_USE_MPI", "src/comm.h, src/comm.c, src/gs.c"), ("serial message passing", "src/comm.h")],
 ["all observable results of the single-process build"])

prop("C02", "The guarantees do not depend on the width of the integer types",
 "With local and global integers configured as int, long or long long (separately), gather-scatter, transfers, reductions, sorting, communicators, the point finder and their Fortran interfaces give the same documented results: identifiers, counts, process numbers and strides are interpreted at the configured width everywhere, and records of any size and alignment keep their content.",
 ["inputs", "configurations"], "all integer configurations (32- and 64-bit local and global integers, with and without long long), all inputs and histories",
 "The tests run with 32-bit local and 64-bit global integers only.",
 ["src/types.h", "src/gs.c", "src/crystal.c", "src/sarray_transfer.c", "src/sort_imp.h", "src/findpts.c", "src/fcrystal.c"], [("uint, sint, ulong, slong and the domain tables", "src/types.h, src/gs_defs.h"), ("message header packing", "src/sarray_transfer.c")],
 ["all observable results of each configuration"])

prop("C03", "Without nonblocking collectives the rest of the library still works",
 "Compiled against an MPI without nonblocking collectives, all blocking operations by every method, and nonblocking gather-scatter by the pairwise and crystal-router methods, give the documented results, and the automatic choice of method still works.",
 ["inputs", "configurations", "schedules"], "all histories and schedules in that configuration",
 "The default-configuration tests use blocking operations with a few sizes on two processes.",
 ["src/comm.c", "src/gs.c"], [("comm_iallreduce", "src/comm.c"), ("igs_* tables", "src/gs.c")],
 ["all observable results"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
