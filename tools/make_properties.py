#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code because the lines are long)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

add("C01", "Writing a plain PGM image and reading it back yields the same image",
    "For every valid image whose maximal intensity is at most 65536, the written text is a plain PGM (magic P2, width and height, maximal value, intensities row by row, no line longer than 70 characters) which, when read back, gives exactly the same width, height, maximal value and intensities with the stream left without failure. The text does not depend on the state of formatting of the stream (base, width, sign, locale), nor does the reading. Writing no image, or an invalid image, produces no output at all and no failure.",
    ["inputs"], "every valid or invalid image: all widths, heights, maximal values and intensities, in particular rows shorter, equal and longer than a text line",
    "Two fixed round trips (3x2 and 13x3) are tested; the wrapping of rows depends on width, digits and position.",
    ["lib/pgm_io.cpp", "include/pgm_io.hpp"],
    [("writer", "operator<<(ostream&, PGM_IO)"), ("reader", "operator>>(istream&, PGM_IO)"), ("row wrapping", "PGM_IO::MAX_NUMBERS_PER_ROW")])
add("C02", "Every well-formed plain PGM file is decoded exactly",
    "A text made of the magic P2, width, height, maximal value (at most 65536) and exactly width times height decimal intensities not above it, separated by any mix of blanks, tabs, line breaks and comments (a # up to the end of the line, even right after a number, even inside the header or data or at the end of the file without a line break), is read successfully and yields exactly the numbers written in it. The layout of whitespace and comments, the kind of the stream, its state of formatting and the way its buffer is refilled never change the result. Each reading makes a new image: those which were held or read before stay as they were.",
    ["inputs"], "every well-formed plain PGM text: all sizes, numbers (with leading zeros too) and all placements of separators and comments",
    "Tests read a handful of fixed texts; the number of layouts of separators, comments and file ends is unbounded.",
    ["lib/pgm_io.cpp", "include/pgm_io.hpp"],
    [("chunk reader", "PGM_IO::read_pgm_instruction"), ("end of file", "PGM_IO::check_file_end"), ("reader", "operator>>")])
add("C03", "Malformed PGM input is rejected cleanly and changes nothing",
    "Reading a text with a wrong magic, a header or intensity chunk that is not a plain decimal number or is too big for the number type, a maximal value above 65536, fewer intensities than width times height (however huge the promised size is), or anything but whitespace and comments after the last intensity sets the failure state of the stream. It never throws (unless the caller asked the stream for exceptions), crashes, hangs, exhausts memory or touches memory out of bounds, and the image held by the reader before stays as it was. Whatever bytes are given, whatever image a successful read yields has exactly width times height intensities.",
    ["inputs", "fault_sequences"], "every byte sequence, and every corruption of a well-formed text (truncation, huge and signed numbers, junk in any place), also through a stream that fails in the middle",
    "Tests feed seven fixed malformed texts; malformed inputs are unbounded and several corruptions crash only for particular sizes.",
    ["lib/pgm_io.cpp", "include/pgm_io.hpp"],
    [("number parsing", "parse_number in lib/pgm_io.cpp"), ("reader", "operator>>"), ("trailing data", "PGM_IO::check_file_end")])
add("C04", "Image validity is decided exactly by its definition",
    "An image is reported valid if and only if its width, height and maximal intensity are positive and no intensity of its width times height pixels exceeds the maximal one, wherever the only offending pixel is. The check never modifies the image.",
    ["inputs"], "every image whose data has width times height elements: all sizes, maxima and intensities",
    "Tests try six tiny images; a check that skips a pixel, a row or a boundary value passes them.",
    ["lib/image.cpp", "include/image.hpp"], [("validity", "image_valid")])
add("C05", "Index functions map coordinates to array cells one to one",
    "For every valid problem, distinct pixels, nodes, (pixel, neighbour) and (node, neighbour) tuples are mapped to distinct indices inside the arrays that hold their data, intensities being row-major as documented. The alternative forms of one index or value accessor (by neighbour number, by neighbour pixel, by edge) agree, and neighbour number and neighbour pixel are inverse to each other with non-adjacent pixels reported as having no number.",
    ["inputs"], "every graph size (width, height, number of disparity levels) and every tuple of coordinates inside it, square and non-square",
    "Tests check a few indices of small, fixed graphs; a collision or overrun appears only for particular ratios of width, height and levels.",
    ["lib/indexing.cpp", "include/indexing.hpp"],
    [("indices", "pixel_index, node_index, neighborhood_index*, reparametrization_index*"), ("neighbours", "neighbor_index, neighbor_by_index"), ("values", "pixel_value, reparametrization_value*")])
add("C06", "Existence of neighbourhoods, nodes and edges follows the image geometry",
    "A node exists exactly when its pixel lies in the image, its disparity is below the number of levels, and the shifted column stays inside the left image; a neighbourhood exists exactly for two pixels of the image which share a side. An edge exists exactly when both nodes exist, their pixels are neighbours, and, for a horizontal pair, the disparity of the left pixel is at most one greater than the disparity of the right pixel; so existence is symmetric. The answer is right for any coordinates, including far outside of the image.",
    ["inputs"], "every graph size and all coordinates, disparities and neighbour numbers, inside and outside of the image",
    "Tests list some edges of 3x2 graphs; the conditions interact at borders and with the number of levels.",
    ["lib/indexing_checks.cpp", "include/indexing_checks.hpp"],
    [("existence", "node_exists, neighborhood_exists, neighborhood_exists_fast, edge_exists")])
add("C07", "A stereo problem is accepted exactly when its parameters make sense",
    "Building the problem succeeds exactly for two valid images of equal width, height and maximal intensity, a number of disparity levels from two to the width, and non-negative weights which are not both zero (below the machine precision); anything else is reported as an invalid argument. An accepted problem keeps the images, levels and weights as given and starts with all-zero reparametrization for every node and neighbour.",
    ["inputs"], "all pairs of images, levels and finite weights, valid and with one or several broken conditions",
    "Tests check one example per condition; off-by-one limits and conditions hidden by other ones are not reached.",
    ["lib/disparity_graph.cpp", "include/disparity_graph.hpp"], [("validation", "DisparityGraph::DisparityGraph")])
add("C08", "Node and edge penalties follow the model and conserve the total energy",
    "Penalty of a node is cleanness times the squared difference of intensities of the right pixel and of the left pixel shifted by the disparity, plus its reparametrization towards all its neighbours; penalty of an edge is smoothness times the squared difference of disparities minus the reparametrization of its two ends, equal in both directions. Hence the total penalty of any labeling does not depend on the reparametrization.",
    ["inputs"], "every valid problem (intensities up to the limits of the type of images, any weights), every reparametrization, node, edge and labeling",
    "Tests evaluate a few penalties with single-valued reparametrization on 2x2-3x3 images.",
    ["lib/disparity_graph.cpp", "include/disparity_graph.hpp", "lib/indexing.cpp"], [("penalties", "node_penalty, edge_penalty")])
add("C09", "Lowest penalties are the exact minima over existing nodes and edges",
    "For every pixel and every pair of neighbouring pixels, the calculated and the stored lowest penalties equal the minimum over exactly the existing nodes, respectively existing edges, and do not depend on the direction in which the pair is taken. All forms of the calculation and of the lookup agree, and the stored values do not change when the problem is changed afterwards.",
    ["inputs", "histories"], "every valid problem and reparametrization, every pixel and neighbour, and changes of the problem after the minima were stored",
    "Tests put single negative values in 3x2 graphs; minima reached only through nonexistent or skipped edges are not sampled.",
    ["lib/lowest_penalties.cpp", "include/lowest_penalties.hpp"],
    [("minima", "calculate_lowest_pixel_penalty, calculate_lowest_neighborhood_penalty{,_fast,_slow}"), ("storage", "LowestPenalties, lowest_pixel_penalty, lowest_neighborhood_penalty{,_fast}")])
add("C10", "Candidate thresholds are exactly the achievable penalty differences",
    "The lists of candidate thresholds of a pixel, of a neighbouring pair and of the whole problem contain exactly the differences between the penalty of each existing node or edge and the corresponding lowest penalty, sorted in ascending order without repetitions. In particular the list of the whole problem starts with zero and contains nothing negative.",
    ["inputs"], "every valid problem and reparametrization, every pixel and neighbour",
    "Tests compare lists for two fixed problems; a missing or spurious candidate shows only for particular penalties.",
    ["lib/labeling_finder.cpp", "include/labeling_finder.hpp"],
    [("candidates", "fetch_pixel_available_penalties, fetch_edge_available_penalties, fetch_available_penalties")])
add("C11", "Availability of nodes and edges follows threshold and history of operations",
    "A fresh constraint problem has available exactly the existing nodes whose penalty exceeds the lowest one of the pixel by at most the threshold; afterwards each operation changes availability of exactly the node (or nodes) it names. At any moment an edge is available exactly when it exists, its penalty exceeds the lowest one of the pair by at most the threshold, and both its nodes are available; a node is to be removed exactly when it is available and lacks an available edge to some neighbour; and the query for remaining nodes tells whether any is available. Questions about any pair of nodes, even nonexistent, are answered without touching memory out of bounds.",
    ["histories", "inputs"], "every valid problem, reparametrization and threshold and every sequence of operations on it",
    "Tests make a few calls on fixed graphs; interference between nodes (wrong index, stale answer) depends on history.",
    ["lib/constraint_graph.cpp", "include/constraint_graph.hpp"],
    [("construction", "ConstraintGraph::ConstraintGraph"), ("operations", "make_node_available, make_node_unavailable, make_all_nodes_unavailable"), ("queries", "is_node_available, is_edge_available, should_remove_node, check_nodes_left")])
add("C12", "CSP solution leaves the greatest consistent set of nodes",
    "Solving terminates and leaves available exactly the greatest subset of the initially available nodes in which every node has an available edge to some node of each neighbouring pixel (nothing at all when a pixel loses all its nodes), and reports whether anything is left. Without reparametrization it reports success exactly when a consistent labeling exists, and no node of any consistent labeling is ever removed. Solving again changes nothing, and a greater threshold or a larger initial set never leaves fewer nodes.",
    ["inputs", "histories"], "every valid problem, reparametrization, threshold and initial set of available nodes",
    "Tests solve two fixed problems; removal must propagate through arbitrarily long chains in all directions.",
    ["lib/constraint_graph.cpp", "include/constraint_graph.hpp"],
    [("solver", "solve_csp"), ("iteration", "csp_solution_iteration, csp_process_pixel, should_remove_node")])
add("C13", "The CSP result does not depend on threads, work split and interleaving",
    "Solving with OpenMP gives, for any number of threads (also when fewer are granted than the maximum, as inside of another parallel region) and any interleaving of their steps, the same set of available nodes and the same answer as solving sequentially. So does any fair repetition of single iterations over any split of the rows into jobs, in any order, and any order of processing of single pixels, until nothing changes. An iteration reports a change exactly when it made one (when nothing is left available, either answer is right).",
    ["schedules", "inputs", "configurations"], "every problem, number of threads or jobs (also more than rows), order of jobs and pixels, and interleaving of threads",
    "Tests run the build without OpenMP only, in one order.",
    ["lib/constraint_graph.cpp", "include/constraint_graph.hpp", "lib/CMakeLists.txt"],
    [("parallel loop", "solve_csp"), ("jobs", "csp_solution_iteration"), ("pixels", "csp_process_pixel")])
add("C14", "The minimal consistent threshold is the best achievable bottleneck",
    "Without reparametrization the found threshold equals the minimum over all labelings of the greatest excess of penalty of a node or an edge over the corresponding lowest penalty; the problem is solvable with it and with no smaller candidate. It scales together with both weights, and does not change when both images are flipped upside down, when a constant is added to all intensities, or when equal rows are appended.",
    ["inputs"], "every valid problem (images, levels, weights)",
    "Tests compute the threshold for two fixed problems; the optimum is over exponentially many labelings.",
    ["lib/labeling_finder.cpp", "include/labeling_finder.hpp"],
    [("binary search", "calculate_minimal_consistent_threshold"), ("candidates", "fetch_available_penalties"), ("solver", "solve_csp")])
add("C15", "Choosing the best node keeps exactly one cheapest available node",
    "If a pixel has available nodes, choosing the best node leaves available exactly one of them, which was available before and has the lowest penalty among those available (of equally good ones, the one with the smallest disparity), whatever the sign of penalties is; otherwise nothing changes and the failure is reported. Availability of nodes of other pixels is never changed.",
    ["inputs"], "every valid problem, reparametrization, set of available nodes and pixel",
    "Tests choose in two fixed pixels with non-negative penalties.",
    ["lib/labeling_finder.cpp", "include/labeling_finder.hpp"], [("choice", "choose_best_node")])
add("C16", "A labeling is found for every solvable problem and satisfies it",
    "For every problem without reparametrization which the CSP solution reports solvable (at the minimal threshold or any greater one), a labeling is found: exactly one available node per pixel, all of them available before, with an available edge between every two neighbouring pixels, so no node or edge exceeds the corresponding lowest penalty by more than the threshold. Whenever taking the best available node of each pixel independently is consistent, the result is that labeling, and the search is deterministic.",
    ["inputs"], "every valid problem, threshold at which it is solvable, and initial set of available nodes",
    "Tests find labelings of two fixed problems; a node kept by the CSP solution may belong to no labeling, which needs particular images (about one random problem in 25000).",
    ["lib/labeling_finder.cpp", "include/labeling_finder.hpp"], [("labeling", "find_labeling"), ("choice", "choose_best_node"), ("solver", "solve_csp")])
add("C17", "The disparity map encodes the labeling, or the problem is reported",
    "If exactly one node of each pixel is available, the disparity map is a valid-size image of the same width and height, with the number of levels as the maximal intensity and the disparity of the available node as the intensity of each pixel. If some pixel has no available node or more than one, a logic error is reported and no map is returned; the constraint problem is never changed.",
    ["inputs"], "every valid problem and every set of available nodes",
    "Tests build maps of two fixed labelings and one empty graph.",
    ["lib/labeling_finder.cpp", "include/labeling_finder.hpp"], [("map", "build_disparity_map")])
add("C18", "The program writes an optimal, consistent disparity map",
    "For two valid plain PGM files of the same size and maximal intensity and valid options, the program exits with zero and writes a plain PGM disparity map of the same size with the number of levels as maximal value, whose disparities stay below the number of levels and inside the left image and form a labeling attaining the least possible greatest excess over the lowest penalties. Omitted options mean levels equal to the width, cleanness 1 and smoothness 1, and fractional weights are taken as written. The output does not depend on the layout or kind of input files (a pipe included), the form of options or repetition of the run, nor on the chosen CPU technology.",
    ["inputs", "configurations"], "every pair of images, layouts of files and combination of options (long and short names, any order, omitted ones)",
    "No test runs the program at all.",
    ["lib/main.cpp", "lib/labeling_finder.cpp", "lib/pgm_io.cpp", "README.rst"],
    [("options and pipeline", "main in lib/main.cpp"), ("input", "read_image"), ("output", "operator<<(ostream&, PGM_IO)")])
add("C19", "Failures of the program are reported and leave the output alone",
    "Whenever the program cannot do its job (missing, unreadable or malformed images, images that do not match, unknown, repeated or invalid options, levels or weights out of range or not a number, missing required options, output that cannot be opened or completely written) it writes a message to the error stream and exits with a non-zero code, without crash or hang. A failure detected before writing leaves the output file as it was (or absent). Asked for help, the program prints the description of its options and succeeds; launched without parameters, it prints the description and exits with a non-zero code.",
    ["inputs", "fault_sequences", "configurations"], "every combination of broken inputs, options and output destinations",
    "No test runs the program at all.",
    ["lib/main.cpp", "lib/pgm_io.cpp", "lib/disparity_graph.cpp", "README.rst"],
    [("error handling", "main in lib/main.cpp"), ("numbers", "parse_natural, parse_weight in lib/main.cpp"), ("input", "read_image")])
add("C20", "Labeling via OpenCL equals labeling on CPU for any device schedule",
    "For every problem whose numbers are exact in single precision, finding the labeling via OpenCL gives the same available nodes as the CPU does, for any partition of work items into groups and any interleaving of them, terminates, and does not touch memory outside of the buffers of the problem. The part done on the device leaves the greatest consistent set after choosing the best node in each pixel, column by column (nothing if that meets a dead end); a problem which needs stepping back from the best node is solved as well.",
    ["schedules", "inputs", "configurations"], "every problem, sequence of work groups, interleaving of work items and device memory contents",
    "No test exercises OpenCL code, not even compiles kernels: there is no device.",
    ["lib/gpu_csp.cpp", "lib/solve_csp.cl", "lib/compile_cl.cpp", "lib/labeling_finder.cpp", "include/gpu_csp.hpp"],
    [("host", "csp_solution_cl, prepare_problem, build_csp_program"), ("kernels", "csp_iteration, choose_best_node_gpu"), ("entry", "find_labeling_cl")])
add("C21", "Labeling via CUDA equals labeling on CPU for any device schedule",
    "For every problem whose numbers are exact in single precision, finding the labeling via CUDA gives the same available nodes as the CPU does, for any interleaving of device threads between synchronization points, terminates, releases all device memory, and does not touch memory outside of its allocations. The part done on the device leaves the greatest consistent set after choosing the best node in each pixel, column by column (nothing if that meets a dead end); a problem which needs stepping back from the best node is solved as well.",
    ["schedules", "inputs"], "every problem and interleaving of device threads and device memory contents",
    "No test exercises CUDA code: it is not even compiled here.",
    ["lib/cuda_csp.cu", "lib/solve_csp.cu", "lib/labeling_finder.cpp", "include/cuda_csp.hpp", "include/solve_csp.hpp"],
    [("host", "prepare_problem, csp_solution_cuda, free_problem"), ("kernels", "csp_iteration_cuda, choose_best_node_gpu"), ("entry", "find_labeling_cuda")])

add("C22", "The program gives the same map with every technology it is built with",
    "Built with OpenCL or with CUDA, the program still handles CPU technologies, and with the device technology it searches on the device and finds the same labeling as on CPU: for any valid images and options (of numbers exact in single precision), any schedule of the device and any contents of its memory, it exits with zero and the map it writes is byte for byte the one found on CPU, also when it is asked for another problem before. A technology the program is not built with is reported as a failure, and the output is left as it was.",
    ["schedules", "inputs", "configurations"], "every problem, form of options, technology, set of technologies the program is built with, and schedule of the device",
    "Tests neither run the program nor build it with any device technology.",
    ["lib/main.cpp", "lib/gpu_csp.cpp", "lib/compile_cl.cpp", "lib/cuda_csp.cu", "lib/labeling_finder.cpp", "README.rst"],
    [("choice of the technology", "main in lib/main.cpp"), ("entries", "find_labeling_cl, find_labeling_cuda"), ("launch", "csp_solution_cl, csp_solution_cuda")])
add("C23", "Problems do not influence each other",
    "Steps of several problems (reading, building, minima, candidates, threshold, solution, labeling, map, writing) may be mixed in any order: each gives what it gives alone, and no step changes any object but the one it is asked to change, neither of the same problem nor of another one, even if a problem occupies addresses of a finished one. The same holds when different problems are solved by different threads at once, which is free from data races.",
    ["schedules", "inputs"], "every set of problems and every order or interleaving of their steps",
    "Tests handle one small problem at a time, in one thread.",
    ["lib/constraint_graph.cpp", "lib/labeling_finder.cpp", "lib/lowest_penalties.cpp", "lib/disparity_graph.cpp", "lib/pgm_io.cpp"],
    [("search", "find_labeling, calculate_minimal_consistent_threshold"), ("solver", "solve_csp"), ("reader", "PGM_IO")])
add("C24", "Failures of a device are reported and leave the output alone",
    "Whenever a call to the device library fails while the program solves a problem on the device (no platform or device, no memory, compilation, transfer, launch, a kernel which fails, the device getting lost at any moment), the program writes a message to the error stream and exits with a non-zero code, without crash or hang. The output file is left as it was (or absent) in that case. Only releases of resources are allowed to fail unnoticed.",
    ["inputs", "fault_sequences", "configurations"], "every problem, every call to the device library which the program makes and every error code it may return",
    "Tests never run device code, and no real device fails on demand.",
    ["lib/gpu_csp.cpp", "lib/compile_cl.cpp", "lib/cuda_csp.cu", "include/cuda_csp.hpp", "lib/main.cpp"],
    [("CUDA errors", "cdpErrchk, cudaCheckError in lib/cuda_csp.cu"), ("OpenCL errors", "exceptions of cl.hpp in gpu_csp.cpp, compile_cl.cpp"), ("report", "main in lib/main.cpp")])

add("C25", "Running out of memory is reported and nothing is leaked",
    "Whichever allocation fails (one of them, all from some moment on, or all larger ones than a limit), the program ends with a non-zero code and a message on the error stream, without crash or hang, leaving the output file as it was when the failure happened before writing, or it writes exactly the map it writes otherwise; each step of the library throws or gives exactly the result it gives otherwise, and reading of an image fails or yields the image in full. Problems and images given to a failing step keep their state, and the step succeeds when it is repeated with memory available. Repeated work, successful or failed, leaves no more memory and no more open files in use.",
    ["inputs", "fault_sequences"], "every problem, every step and every allocation it makes",
    "Tests never run out of memory and do not watch releases; a handler that swallows a failure, or a leak on one path, passes them.",
    ["lib/main.cpp", "lib/pgm_io.cpp", "lib/disparity_graph.cpp", "lib/lowest_penalties.cpp", "lib/constraint_graph.cpp", "lib/labeling_finder.cpp", "lib/labeling.cpp"],
    [("report", "main in lib/main.cpp"), ("reading", "operator>> in lib/pgm_io.cpp"), ("objects", "constructors of DisparityGraph, LowestPenalties, ConstraintGraph")])
add("C26", "Rounding of arbitrary weights does not spoil any step of the solution",
    "For any positive weights, also those which are not exact in binary (0.1, 1/3) or of very different magnitude, penalties and lowest penalties agree with exact arithmetic up to rounding, and a pixel or neighbourhood always keeps the node or edge that has its lowest penalty, so that threshold zero never removes it. Removal of nodes, the chosen threshold and the labeling agree with exact arithmetic for every threshold which is not within rounding of an excess, and lie between the solutions for a slightly smaller and a slightly greater threshold otherwise. The chosen threshold always admits a labeling by the finder, whatever the rounding is.",
    ["inputs"], "every problem with weights, reparametrization and thresholds whose penalties are rounded",
    "Tests use integers only, so no operation of theirs is rounded; inconsistent rounding (of a minimum and of the penalty compared with it) shows only for particular decimal weights.",
    ["lib/disparity_graph.cpp", "lib/lowest_penalties.cpp", "lib/constraint_graph.cpp", "lib/labeling_finder.cpp"],
    [("penalties", "node_penalty, edge_penalty"), ("minima", "lib/lowest_penalties.cpp"), ("availability", "is_edge_available, is_node_available"), ("search", "calculate_minimal_consistent_threshold, find_labeling")])

add("C27", "Single precision of devices does not spoil the labeling",
    "For any weights, also those which are not exact in single precision (0.1, 1e-9, 2^24 + 1), and any consistent threshold, the search on an OpenCL or a CUDA device succeeds wherever the search on CPU does and gives a complete labeling: one node per pixel, taken from nodes which were available, whose edges exist and exceed the threshold by no more than the rounding to single precision. The labeling is the same for every schedule of the device and contents of its memory, and a disparity map can be built of it.",
    ["inputs", "schedules"], "every solvable problem with rounded weights or reparametrization, every schedule of device threads",
    "Tests compile no device code, and use integers only, which single precision represents exactly.",
    ["lib/gpu_csp.cpp", "lib/solve_csp.cl", "lib/cuda_csp.cu", "lib/solve_csp.cu", "lib/labeling_finder.cpp"],
    [("host code", "csp_solution_cl in lib/gpu_csp.cpp, csp_solution_cuda in lib/cuda_csp.cu"), ("search", "find_labeling_cl, find_labeling_cuda in lib/labeling_finder.cpp")])

for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
