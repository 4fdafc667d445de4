#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one reviewable place)."""
import json, os
B = "src/pymatching/sparse_blossom/"
P = []
def add(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None)))

DRV = [B+"driver/mwpm_decoding.cc", B+"driver/user_graph.cc", B+"driver/user_graph.h"]
CORE = [B+"matcher/mwpm.cc", B+"matcher/alternating_tree.cc", B+"flooder/graph_flooder.cc", B+"flooder/graph_fill_region.cc", B+"flooder/detector_node.cc", B+"flooder/graph.cc"]

add("C01", "Decoding returns the exact minimum total weight",
    "For every matching graph with non-negative integer edge weights and every set of detection events that some set of edges can explain, the solution weight returned by decoding equals the minimum total weight over all sets of edges whose detection events are exactly the given ones (parallel routes, ties, zero weights, disconnected parts and boundary edges included).",
    ["inputs"], "all graphs, integer weights 0..2^24-1 and feasible syndromes",
    "Unit tests fix a few hand-made event sequences and three recorded data sets; the driver tests are not even built here. Optimality depends on rare combinations of blossom formation, shattering, implosion and boundary hits that only generated graphs reach.",
    CORE + DRV,
    [("sparse blossom: region growth, alternating trees, blossom shrink/shatter", B+"matcher/mwpm.cc, "+B+"flooder/graph_flooder.cc"), ("weight accounting by region radii", B+"matcher/mwpm.cc shatter_blossom_and_extract_matches")],
    ["weight returned by decode"], [("region radius", "dual variable of a region; their sum is the weight", B+"flooder/graph_fill_region.h")])

add("C02", "Predicted observables belong to a minimum-weight explanation (up to 64 ids)",
    "With at most 64 fault ids, the fault ids predicted by decoding are exactly the mod-2 sum of the fault ids over the edges of some minimum-weight set of edges that reproduces the given detection events, and the weight reported with them is that set's weight. This includes edges that carry several fault ids, none, or the highest allowed id.",
    ["inputs"], "all graphs, assignments of fault ids 0..63 to edges and feasible syndromes",
    "Existing tests compare predictions on recorded data where the optimum is unique; they cannot tell whether a prediction is valid for every tie, blossom nesting and id position.",
    CORE + DRV, [("observable masks carried along region growth and compressed edges", B+"flooder/graph_flooder.cc, "+B+"flooder_matcher_interop/compressed_edge.cc"), ("mask-to-bit expansion", B+"driver/mwpm_decoding.cc")],
    ["predicted fault ids and weight of decode"])

add("C03", "Predictions stay exact with more than 64 fault ids",
    "When a graph has more than 64 fault ids, decoding still returns the fault ids of a minimum-weight set of edges reproducing the detection events together with exactly that minimum weight, for every fault id however large. Crossing the 64-id threshold (for example by declaring extra unused ids) never changes the returned weight.",
    ["inputs", "configurations"], "all graphs with 65 or more fault ids, feasible syndromes",
    "The >64 path re-derives paths with a second search structure; tests exercise it on one recorded surface-code data set only.",
    [B+"driver/mwpm_decoding.cc", B+"matcher/mwpm.cc", B+"search/search_flooder.cc", B+"search/search_graph.cc", B+"search/search_flooder.h", B+"driver/user_graph.cc"],
    [("match-edge extraction and bidirectional path search", B+"matcher/mwpm.cc extract_paths_from_match_edges, "+B+"search/search_flooder.cc")],
    ["predicted fault ids and weight of decode"])

add("C04", "Decoding to edges yields a valid minimum-weight edge set",
    "Decoding a syndrome to edges returns each edge at most once, only edges that exist in the graph, the edges' detection events are exactly the given syndrome (modulo boundary nodes), and their total weight equals the minimum possible, also with negative weights. The same call repeated gives an answer of the same weight.",
    ["inputs", "histories"], "all graphs (signed weights, no self-loops) and feasible syndromes",
    "Tests check a handful of repetition-code and recorded examples; cancellation of overlapping paths and of negative edges needs generated graphs.",
    [B+"driver/mwpm_decoding.cc", B+"search/search_flooder.cc", B+"search/search_graph.cc", "src/pymatching/matching.py", B+"driver/user_graph.pybind.cc"],
    [("flip markers cancel edges used twice", B+"driver/mwpm_decoding.cc decode_detection_events_to_edges"), ("bidirectional path search", B+"search/search_flooder.cc")],
    ["edge list returned by decode-to-edges"])

add("C05", "Matched detection events form an optimal perfect pairing",
    "Decoding to matched detection events pairs every given detection event with exactly one other given event or with the boundary, pairs nothing else, and the sum of shortest-path distances over the pairs equals the minimum solution weight. The array and dictionary forms describe the same pairing, and graphs with negative weights are refused with an error rather than answered wrongly.",
    ["inputs"], "all graphs with non-negative weights and feasible syndromes",
    "Only a few line graphs are tested; whether blossoms are unwound into a consistent optimal pairing depends on the whole event history.",
    [B+"matcher/mwpm.cc", B+"driver/mwpm_decoding.cc", B+"driver/user_graph.pybind.cc", "src/pymatching/matching.py"],
    [("blossom unwinding into match edges", B+"matcher/mwpm.cc shatter_blossom_and_extract_match_edges")],
    ["pairs returned by decode-to-matched-detection-events"])

add("C06", "Negative edge weights are decoded exactly",
    "For graphs in which any subset of edges has negative weight, decoding returns the minimum total weight (possibly negative) over all edge sets reproducing the detection events, and the prediction is that of such a set. This holds for negative boundary edges, negative edges sharing nodes, negative self-loops, and for the empty syndrome.",
    ["inputs"], "all graphs with signed weights and feasible syndromes",
    "One recorded data set with negative weights and two tiny examples are tested; the pre- and post-processing must be right for every sign pattern.",
    [B+"driver/mwpm_decoding.cc", B+"flooder/graph.cc", B+"flooder/graph_flooder.cc", B+"driver/user_graph.h", B+"search/search_graph.cc"],
    [("virtual detection events and observable flips for negative edges", B+"flooder/graph.cc add_edge/add_boundary_edge, "+B+"driver/mwpm_decoding.cc")],
    ["weight and prediction of decode"])

add("C07", "Decoding results do not depend on decoder history",
    "A decoder that has already processed any sequence of syndromes, in any mix of decoding modes and including rejected syndromes, returns for the next syndrome the same weight as a freshly built decoder and a prediction of equal validity. No earlier call leaves state behind that changes, blocks or corrupts a later one.",
    ["histories"], "all sequences of decode, decode-to-edges, decode-to-pairs, correlated decode, path queries and rejected calls on one decoder",
    "Tests decode a few shots of one kind on a graph; leaks between shots show up only for particular pairs of successive calls, above all after an error.",
    [B+"driver/mwpm_decoding.cc", B+"matcher/mwpm.cc", B+"flooder/graph_fill_region.cc", B+"tracker/queued_event_tracker.h", B+"tracker/radix_heap_queue.h", B+"arena.h", B+"search/search_flooder.cc"],
    [("cleanup of regions, node fields, trackers and arenas after each shot", B+"matcher/mwpm.cc, "+B+"flooder/graph_fill_region.cc cleanup_shell_area"), ("full reset on failure", B+"matcher/mwpm.cc reset")],
    ["results of the last call in a history"])

add("C08", "Syndromes are rejected exactly when they cannot be decoded",
    "Decoding raises an error if and only if no set of edges explains the detection events (odd number of events in a component without boundary) or an event index is not a node of the graph; feasible syndromes are never rejected and infeasible ones never answered. Rejection terminates cleanly and the decoder remains usable with correct results afterwards.",
    ["inputs", "histories"], "all graphs and all syndromes, feasible or not, valid or out of range",
    "Two examples of infeasible syndromes are tested; partial progress before the rejection, boundary nodes, negative weights and reuse after failure are not.",
    [B+"driver/mwpm_decoding.cc", B+"matcher/mwpm.cc"],
    [("unmatched tree detection, range checks and reset", B+"driver/mwpm_decoding.cc process_timeline_until_completion")],
    ["error or result of decode"])

add("C09", "Shortest-path queries return real shortest paths in order",
    "A shortest-path query between two nodes, or between a node and the boundary, visits a chain of existing edges from the source to the target in order, whose total absolute weight is the minimum possible. Repeated queries in any order on one decoder give equally short paths.",
    ["inputs", "histories"], "all graphs and all connected (source, target) pairs, boundary included",
    "Tests follow one line and one ring; ties, zero weights, boundary detours and stale search state need generated graphs and histories.",
    [B+"search/search_flooder.cc", B+"search/search_flooder.h", B+"search/search_graph.cc", B+"driver/user_graph.cc"],
    [("bidirectional event-driven Dijkstra with reset", B+"search/search_flooder.cc run_until_collision")],
    ["visited edges / returned node list"])

add("C10", "The event queue is a faithful monotone priority queue",
    "Over any legal sequence of enqueue and dequeue operations (times not before the current time and within half the time range), the event queue returns every enqueued event exactly once, in non-decreasing time order, and its current time never moves backwards, also when the stored times wrap around their integer type. Its size and its listing agree with the events that are pending, and clearing or resetting it leaves it empty and reusable.",
    ["histories"], "all legal enqueue/dequeue/clear histories and start times, including wrap-around",
    "Tests enqueue a few dozen fixed times; bucket redistribution and wrap-around fail only for particular histories of time gaps.",
    [B+"tracker/radix_heap_queue.h", B+"tracker/cyclic.h", B+"tracker/flood_check_event.cc"],
    [("radix buckets indexed by the highest differing bit", B+"tracker/radix_heap_queue.h")],
    ["sequence of dequeued events"])

add("C11", "No scheduled wake-up is lost, early, or kept after being cancelled",
    "Whatever sequence of set, reschedule and cancel requests is made for an entity, each dequeue round-trip reports its event exactly when the current desired time is reached: never at another time, never for a cancelled request, and at least once for every request that stays in force. Stale queued copies never multiply: the queue never holds more entries than requests were made.",
    ["histories", "schedules"], "all interleavings of set/cancel/dequeue over several entities sharing a queue",
    "Tests walk through a few hand-written sequences for one entity.",
    [B+"tracker/queued_event_tracker.h", B+"tracker/radix_heap_queue.h"],
    [("desired/queued time bookkeeping with lazy re-enqueue", B+"tracker/queued_event_tracker.h")],
    ["events accepted by the dequeue decision"])

add("C12", "Time and radius arithmetic is exact",
    "Cyclic timestamps order and widen correctly for every pair of times closer than half the range and every reference time; growing, shrinking and frozen radii evaluate, freeze, resume, collide and cross zero at exactly the times given by integer arithmetic, for every time and slope sequence. Switching a radius between growing, shrinking and frozen never changes its value at the switching time.",
    ["inputs", "histories"], "all times, offsets and sequences of slope changes within the supported range",
    "Tests probe chosen values; wrap-around and sign cases form a continuum.",
    [B+"tracker/cyclic.h", B+"flooder_matcher_interop/varying.h"],
    [("cyclic comparison and widening", B+"tracker/cyclic.h"), ("slope packed into the low bits of the intercept", B+"flooder_matcher_interop/varying.h")],
    ["values returned by the arithmetic"])

add("C13", "Region growth never overshoots an edge and always explains the result",
    "At every step of decoding, the parts of an edge covered by different regions never add up to more than the edge's weight and no region's radius is negative, so that the accumulated radii always remain a lower bound on the optimum; at the end they add up to exactly the weight of the returned solution. Every node is attributed to the region that actually reached it at every step.",
    ["inputs", "histories"], "all graphs, syndromes and intermediate events of the decoding timeline",
    "Tests look at single hand-picked events; the invariant must hold after every event of every run and is the certificate of optimality.",
    [B+"flooder/graph_flooder.cc", B+"flooder/graph_fill_region.cc", B+"flooder/detector_node.cc", B+"matcher/mwpm.cc", B+"matcher/alternating_tree.cc"],
    [("event scheduling at collision times; freezing, shrinking, wrapping of regions", B+"flooder/graph_flooder.cc, "+B+"flooder/graph_fill_region.cc")],
    ["regions, radii and node ownership between decoding events"],
    [("wrapped radius", "growth past a node by enclosed regions", B+"flooder/detector_node.h")])

add("C14", "Graph construction and edge merging follow the documented rules",
    "After any sequence of edge additions, the graph's nodes, edges, weights, fault ids, error probabilities, number of fault ids and detectors equal those of a simple model in which re-adding an existing edge behaves per its merge strategy: disallow raises and changes nothing, keep-original ignores, replace overwrites, smallest-weight keeps the lighter edge with its attributes, independent combines weights and probabilities of independent mechanisms. Edge queries in either direction agree with that model, and invalid requests leave the graph unchanged.",
    ["histories", "inputs"], "all sequences of add edge / add boundary edge / set boundary / set minimum ids with any strategy",
    "Tests add one or two parallel edges per strategy; interactions (new ids on replaced edges, boundary and self-loop edges, order of endpoints) are not covered.",
    [B+"driver/user_graph.cc", B+"driver/user_graph.h", B+"driver/user_graph.pybind.cc", "src/pymatching/matching.py"],
    [("add_or_merge_edge, merge_edge_or_boundary_edge, merge_weights", B+"driver/user_graph.cc")],
    ["edge list and counters of the graph"])

add("C15", "Changes to a graph take effect on the next decode",
    "After any interleaving of edge additions, merges, boundary changes and extra fault ids with decoding calls of any mode, the next decode gives the result for the graph as it is now, the same as for a graph built from scratch with the final contents. No decode uses weights, fault ids, boundaries or nodes of an earlier version.",
    ["histories"], "all interleavings of graph mutations and decode calls",
    "Tests decode once after construction; stale cached decoders appear only for specific mutation/decode orders.",
    [B+"driver/user_graph.cc", B+"driver/user_graph.h", B+"driver/user_graph.pybind.cc"],
    [("needs-updating flag and lazy rebuild, with or without path-search structure", B+"driver/user_graph.cc get_mwpm, get_mwpm_with_search_graph")],
    ["decode results after mutations"])

add("C16", "Detector error models load as the graph they describe",
    "Loading any detector error model yields one edge per distinct pair of detectors (or detector and boundary) named by an error component, with the probability of the independent combination of all its mechanisms and the corresponding log-likelihood weight, the fault ids of its first component, and as many detectors and observables as the model declares. Repeats, detector shifts, decompositions, zero-probability errors and components without or with more than two detectors are treated as documented.",
    ["inputs", "programs"], "all detector error models, with nesting, shifts, separators and repeated mechanisms",
    "About fifteen fixed model strings are in the (here unbuilt) driver tests; models are a language.",
    [B+"driver/user_graph.cc", B+"driver/user_graph.h", B+"driver/mwpm_decoding.cc"],
    [("iter_detector_error_model_edges, handle_dem_instruction", B+"driver/user_graph.h, "+B+"driver/user_graph.cc")],
    ["edges of the loaded graph; decode results"])

add("C17", "Correlated decoding equals two-pass reweighted matching",
    "With correlations enabled, the result is that of minimum-weight decoding after lowering edge weights to the implied conditional weights of the edges in a first minimum-weight solution, with implied weights given by the joint and marginal probabilities of decomposed errors; every call restores the original weights, and the same holds after the loaded graph was changed by adding edges or making nodes boundary nodes. Models that cannot be used this way (probability above one half, undecomposed or undetectable components) and decoders loaded without correlations are refused with an error.",
    ["inputs", "histories"], "all decomposed detector error models, syndromes and mixes of correlated and plain calls",
    "One recorded data set and a few tiny models are checked; restoring weights and rule application depend on the history and on overlapping rules.",
    [B+"driver/user_graph.cc", B+"driver/user_graph.h", B+"driver/mwpm_decoding.cc", B+"flooder/graph.cc", B+"flooder/graph.h", B+"search/search_graph.cc"],
    [("joint probabilities, implied weights, reweight/undo", B+"driver/user_graph.cc, "+B+"flooder/graph.cc")],
    ["weight, prediction and edges of correlated decode; plain decode afterwards"])

add("C18", "Check matrices load as the graph they describe",
    "Constructing a decoder from a check matrix (dense or sparse, any format) gives one edge per column joining the rows with ones, a boundary edge for single-one columns, the given weights, error probabilities and faults-matrix ids, and for several repetitions one copy per round joined by timelike edges; decoding then returns a correction with the given syndrome and minimum weight. Malformed matrices or arguments of wrong length raise an error.",
    ["inputs", "configurations"], "all check matrices with at most two ones per column, faults matrices, repetitions, weight forms and merge strategies",
    "Tests use a few repetition and toric code matrices; most argument combinations are untested and nothing of the Python layer runs here.",
    ["src/pymatching/matching.py", B+"driver/user_graph.pybind.cc", B+"driver/user_graph.pybind.h", B+"driver/user_graph.cc"],
    [("sparse_column_check_matrix_to_matching_graph and load_from_check_matrix", B+"driver/user_graph.pybind.cc, src/pymatching/matching.py")],
    ["edges() and decode results of the Python Matching object"])

add("C19", "Graph import and export preserve the matching problem",
    "Loading a networkx or rustworkx graph produces exactly its nodes, edges, boundary flags, fault ids, weights and error probabilities, and exporting a decoder to networkx or rustworkx and loading it again yields an equivalent decoder: same edges and attributes, same number of detectors and fault ids, same solution weights for every syndrome.",
    ["inputs"], "all graphs with any mix of attributes, boundary nodes and virtual-boundary edges",
    "Tests convert two or three small graphs; missing attributes, sets versus integers, and virtual boundary handling combine freely.",
    ["src/pymatching/matching.py", B+"driver/user_graph.pybind.cc"],
    [("load_from_networkx, load_from_rustworkx, to_networkx, to_rustworkx", "src/pymatching/matching.py")],
    ["edges(), num_detectors, num_fault_ids, decode results"])

add("C20", "Batch decoding equals shot-by-shot decoding in every encoding",
    "Decoding a batch returns for every shot exactly the prediction and weight obtained by decoding that shot alone, in the same order, whether shots or predictions are bit-packed or not, and whatever the number of shots, detectors and fault ids. All accepted syndrome encodings of a single shot (lists, arrays of any integer or boolean type, one- or two-dimensional) give the same result, and shapes that do not fit the graph raise an error.",
    ["inputs", "configurations"], "all graphs, batches and combinations of packing options",
    "Tests decode two or three recorded data sets; sizes around byte boundaries, boundary nodes and repeated shots are not enumerated.",
    ["src/pymatching/matching.py", B+"driver/user_graph.pybind.cc", B+"driver/mwpm_decoding.cc"],
    [("decode_batch, syndrome array conversion, bit packing", B+"driver/user_graph.pybind.cc, src/pymatching/matching.py")],
    ["predictions and weights of decode_batch and decode"])

add("C21", "Simulated noise is consistent with the graph and reproducible",
    "Every noise sample is consistent: the returned fault ids and syndrome are those of one set of edges, probability-zero edges never and probability-one edges always fail, boundary nodes stay unflagged, and each edge fails with its own probability independently. Setting the seed makes all following samples reproducible, and graphs with missing probabilities give no sample.",
    ["inputs", "histories"], "all graphs with error probabilities, seeds and sample sequences",
    "Tests sample a few deterministic graphs; consistency and frequencies quantify over graphs and seeds.",
    [B+"driver/user_graph.cc", "src/pymatching/rand/rand_gen.cc", "src/pymatching/rand/rand_gen.pybind.cc", B+"driver/user_graph.pybind.cc", "src/pymatching/matching.py"],
    [("add_noise and the global Mersenne twister", B+"driver/user_graph.cc, src/pymatching/rand/rand_gen.cc")],
    ["noise and syndrome arrays"])

add("C22", "The command line agrees with the library",
    "For every detector error model, shot file and supported file format, the predict command writes for each shot, in order, the prediction that decoding that shot in the library gives, and count_mistakes reports exactly the number of shots whose recorded observables differ from the prediction together with the number of shots, whether observables come appended to the shots or from a separate file. Missing or unknown arguments and truncated observable data end in an error.",
    ["inputs", "configurations"], "all models, shot sets, formats and option combinations (at most 64 observables for count_mistakes)",
    "Two small in-process examples exist and are not built here.",
    [B+"driver/namespaced_main.cc", B+"driver/mwpm_decoding.cc", "src/main.cc"],
    [("main_predict and main_count_mistakes loops", B+"driver/namespaced_main.cc")],
    ["output files and exit status"])

add("C23", "All ways of expressing a boundary are equivalent",
    "Representing boundary edges through the virtual boundary, through one node marked as boundary, or spread over several boundary nodes gives the same solution weights for every syndrome; only the lightest of several boundary edges at a node matters, edges between boundary nodes are irrelevant, and detection events reported on boundary nodes are ignored. Numbering of the boundary nodes does not matter.",
    ["inputs", "configurations"], "all non-negative-weight graphs, splits of boundary edges over boundary nodes, and syndromes",
    "Tests use one boundary style per example and never compare styles.",
    [B+"driver/user_graph.h", B+"driver/user_graph.cc", B+"driver/mwpm_decoding.cc"],
    [("collapse of boundary nodes into per-node boundary edges", B+"driver/user_graph.h to_matching_or_search_graph_helper")],
    ["weights and predictions of decode"])

add("C24", "Real-valued weights are decoded faithfully and in the user's units",
    "For arbitrary real weights up to the documented maximum magnitude, the edge set decoding selects has true weight within the rounding resolution of the weights (edges used times one unit in 2^24 of the largest weight) of the true optimum, and the weight is reported in the user's units to the same accuracy. This holds for weights of very different magnitude and for solutions that span arbitrarily long distances in the graph; larger weights, infinite weights and weights that are not a number are refused.",
    ["inputs", "configurations"], "all graphs with real weights, path lengths up to thousands of edges",
    "Tests use unit-like weights on short graphs; rounding, normalisation and time-range limits appear only for extreme weights or long paths.",
    [B+"driver/user_graph.cc", B+"driver/user_graph.h", B+"ints.h", B+"flooder/detector_node.h", B+"tracker/cyclic.h"],
    [("normalising constant, doubling and rounding", B+"driver/user_graph.h iter_discretized_edges")],
    ["edges chosen and weight returned"])

add("C25", "Large instances stay exact and independent of labelling",
    "On graphs with hundreds of nodes and dozens to hundreds of detection events the returned weight still equals the true optimum, and relabelling nodes, permuting edges or detection events, swapping edge endpoints, scaling all weights, or splitting the problem into its connected components leaves the solution weight unchanged (scaled accordingly).",
    ["inputs"], "large lattices and random graphs, all relabellings and orderings",
    "Exhaustive oracles and hand-made tests stop at tiny graphs; deep blossom nesting needs many simultaneous events.",
    CORE + DRV, [("sparse blossom on large instances", B+"matcher/mwpm.cc, "+B+"flooder/graph_flooder.cc")],
    ["weight returned by decode"])

add("C26", "No sequence of API calls corrupts memory or hangs",
    "Any sequence of valid or cleanly rejectable API calls (building, merging, boundary changes, loading models, all decoding modes, path queries, noise sampling, moving decoders) runs to completion without out-of-bounds access, use of freed memory, undefined arithmetic, crash or endless loop. Calls with arguments outside the graph end in an error.",
    ["histories", "inputs"], "all API call sequences",
    "Sanitized unit tests run only fixed sequences over the part of the code that builds without Stim.",
    DRV + CORE + [B+"search/search_flooder.cc", B+"arena.h", B+"tracker/radix_heap_queue.h"],
    [("index checks, arenas, reset paths", B+"driver/user_graph.cc, "+B+"arena.h")],
    ["sanitizer reports, signals and CPU time of a history"])

add("C27", "The animation shows the decoding that takes place",
    "For every error model with probabilities up to one half and every shot that can be explained, the animate command ends and writes consecutively numbered complete SVG frames, all of whose coordinates are finite and on the canvas. Every frame shows every detector, every edge and boundary edge of the model, and exactly the given detection events. The requested number of identical frames is held at the start and at the end, each step of the decoder is highlighted for exactly the requested number of frames, and growth frames appear at the requested spacing. The final frames show no growing region, every detection event matched, and only matches the decoder returns. Detectors with two coordinates keep their relative positions at the requested scale. A shot that cannot be explained, or a missing or wrong argument, ends in an error instead.",
    ["inputs", "configurations"], "all error models, coordinates, shots, input formats and frame settings",
    "No test runs the animate command; one test draws a single state of one model.",
    [B+"diagram/mwpm_diagram.cc", B+"diagram/animation_main.cc", B+"driver/namespaced_main.cc"],
    [("frame loop, coordinate choice and drawing of the decoder state", B+"diagram/mwpm_diagram.cc")],
    ["frame files, progress output and exit status"])

add("C28", "Memory held by a decoder stays bounded over any number of shots",
    "Repeating any list of operations on a decoder (every decoding mode, correlated decoding, path queries, refused syndromes, sampling, replacing an edge and decoding again) never makes the memory it holds grow without bound: after a few repetitions it levels off. Dropping a decoder, moving it or assigning another one to it releases what it held. Through the Python layer, neither repeated calls (refused syndromes and refused model files included) nor repeated successful runs of the command line tool hold more and more memory, objects or open files.",
    ["histories"], "all graphs, error models and repeated lists of operations",
    "Tests decode a handful of shots and never look at memory; a region, tree node or list entry kept per shot changes no result.",
    [B+"arena.h", B+"matcher/mwpm.cc", B+"flooder/graph.cc", B+"search/search_graph.cc"],
    [("regions and tree nodes are returned to their arenas when a solution is extracted", B+"matcher/mwpm.cc")],
    ["bytes held after n repetitions", "open files after n repetitions"])

add("C29", "Decoders are independent of each other",
    "Using one decoder never affects another: with any number of decoders on different graphs or error models, calls interleaved in any order, calls made from inside another decoder's path callback, and calls (including building the decoders) made concurrently with one thread per decoder all give for each decoder the result it gives alone, without data races.",
    ["schedules", "histories"], "all sets of decoders, call orders and thread schedules; random sampling, which shares one seeded generator, is excluded",
    "Every test uses one decoder in one thread; a buffer shared between decoders is invisible to it.",
    [B+"driver/mwpm_decoding.cc", B+"search/search_flooder.h", B+"driver/user_graph.cc"],
    [("all scratch state lives in the decoder", B+"matcher/mwpm.h")],
    ["answers of every decoder", "ThreadSanitizer reports"])

add("C30", "repr() and draw() describe the graph as it is",
    "For every graph with non-negative weights, repr() states its numbers of detectors, boundary nodes and edges (singular only for one), and draw() draws every node once with its index as label, boundary nodes (the virtual boundary included) white and detectors grey, and every edge once between the places of its nodes, labelled with exactly its fault ids, its thickness growing in proportion to its weight from 0.2 for weight zero. Neither changes the graph.",
    ["inputs", "histories"], "all graphs with at least one positive and no negative weight for draw(), all graphs for repr(); drawing is observed as the calls made to networkx's drawing functions",
    "The tests only look at one repr string and that draw() does not raise.",
    ["src/pymatching/matching.py"],
    [("draw and __repr__", "src/pymatching/matching.py")],
    ["repr text", "recorded networkx drawing calls"])

add("C31", "Trees, matches and blossoms stay well formed at every step",
    "At every step of decoding, alternating trees (outer regions growing, inner regions shrinking, parents and children linked to each other), matches (mutual) and blossoms (an odd cycle of frozen regions) are well formed, every detection event belongs to exactly one region at the top level, and the path recorded for every tree edge, match, blossom cycle edge and reached node starts and ends in the regions it joins and is exactly as long as the radii of those regions.",
    ["histories"], "all graphs with non-negative weights and feasible sets of detection events; looked at between any two steps of the timeline",
    "Tests of the matcher build a handful of trees by hand; a wrong recorded path or link changes the result only if a later step happens to use it.",
    [B+"matcher/mwpm.cc", B+"matcher/alternating_tree.cc", B+"flooder/graph_fill_region.cc", B+"flooder/graph_flooder.cc", B+"flooder_matcher_interop/compressed_edge.cc"],
    [("trees are joined, grown and shattered, blossoms formed and taken apart", B+"matcher/mwpm.cc")],
    ["trees, matches and blossoms between two steps"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
