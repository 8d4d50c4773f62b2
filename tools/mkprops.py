#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
S = "src/ska-sdp-func/"
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": [S + f if not f.startswith("src/") else f for f in files],
         "mechanism": [{"name": n, "where": S + w if not w.startswith("src/") else w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

props = [
P("C01", "W-stacked w-tower gridding counts every visibility exactly once",
  "Gridding a whole set of visibilities with w-stacking and w-towers gives an image equal, to the accuracy of the chosen kernel, to the sum over every visibility of its Fourier response, for any number of worker threads and any order in which the threads pick up, run and finish their pieces of work. "
  "Every visibility contributes exactly once: no piece's contribution is lost, added twice, computed from another piece's data, or combined in a data race.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of the worker threads, every team size (including fewer threads than asked for), every uvw distribution spanning one or many sub-grids and w-planes, single and double precision",
  "the tests run one natural schedule per configuration on an idle machine and compare against one data set; a lost update needs two workers inside the same few instructions",
  ["grid_data/sdp_grid_wstack_wtower.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_gridder_clamp_channels.cpp", "grid_data/sdp_gridder_utils.cpp"],
  [("task queue shared by all workers, guarded by a mutex", "grid_data/sdp_grid_wstack_wtower.cpp (pick_task)"),
   ("critical section around adding a sub-grid to the shared grid", "grid_data/sdp_grid_wstack_wtower.cpp (subgrid_add)"),
   ("half-open channel clamping so neighbouring pieces never share a visibility", "grid_data/sdp_gridder_clamp_channels.h")],
  [("vis_count_check", "number of visibilities processed by all workers", "grid_data/sdp_grid_wstack_wtower.cpp")],
  ["return of sdp_grid_wstack_wtower_grid_all: image contents, status"]),
P("C02", "W-stacked w-tower degridding predicts every visibility from the image",
  "Degridding a whole set of visibilities with w-stacking and w-towers sets every visibility to the Fourier transform of the image at its (u,v,w), to the accuracy of the chosen kernel, for any number of worker threads and any order in which they pick up, run and finish their pieces of work. "
  "No visibility is skipped, predicted twice, or predicted from another worker's sub-grid, no worker races with another, and the input image is left unchanged.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of the worker threads, every team size, every uvw distribution, single and double precision",
  "the tests exercise one schedule per run on one data set; cross-talk between workers shows only in particular interleavings",
  ["grid_data/sdp_grid_wstack_wtower.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp"],
  [("per-worker scratch buffers and channel ranges", "grid_data/sdp_grid_wstack_wtower.cpp (degrid_all)"),
   ("mutex-guarded task queue", "grid_data/sdp_grid_wstack_wtower.cpp (pick_task)")],
  None, ["return of sdp_grid_wstack_wtower_degrid_all: visibility contents, status"]),
P("C03", "Sub-grid (de)gridding honours its row and channel ranges on any thread count",
  "Gridding onto, or degridding from, one sub-grid uses exactly the visibilities inside the given row range and per-row channel ranges: each selected visibility is accumulated once (gridding) or written once (degridding), every other visibility is left untouched, and results add up over any split of the rows. "
  "The result matches the direct Fourier sum over those visibilities to the accuracy of the kernel, for every number of threads and every interleaving, with no data race between them.",
  ["schedules", "inputs", "configurations"],
  "every interleaving and team size of the parallel degridding loop, every split of rows into consecutive calls, every channel range including empty and single-channel ones, w ranges that make the gridder step through many w-planes up or down",
  "tests call it once with the full row range on the natural schedule",
  ["grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_gridder_direct.cpp"],
  [("row/channel range tests in the per-row loops", "grid_data/sdp_gridder_wtower_uvw.cpp"),
   ("w-plane sub-grid stack shifting", "grid_data/sdp_gridder_wtower_uvw.cpp")],
  None, ["sdp_gridder_wtower_uvw_grid/degrid, sdp_gridder_direct_grid/degrid outputs"]),
P("C04", "Parallel channel clamping and uvw bounds equal their serial definition",
  "For every row, clamping a channel range to a (u,v) or w interval keeps exactly the channels of the input range whose scaled coordinate lies in the half-open interval, so ranges for adjacent intervals never share a channel and together lose none; the reported uvw bounds are the minimum and maximum over the selected visibilities, and the channel-count difference is the exact sum over the chosen rows. "
  "These results are identical for every thread count and interleaving, with no data race.",
  ["schedules", "inputs", "configurations"],
  "every interleaving and team size; every row and channel range, coordinates of either sign, on boundaries and near zero; every sub-range of rows",
  "tests use one thread schedule and never compare clamped ranges of adjacent intervals or parallel reductions across schedules",
  ["grid_data/sdp_gridder_clamp_channels.cpp", "grid_data/sdp_gridder_clamp_channels.h", "grid_data/sdp_gridder_utils.cpp"],
  [("half-open interval arithmetic", "grid_data/sdp_gridder_clamp_channels.h"),
   ("parallel min/max and sum reductions", "grid_data/sdp_gridder_utils.cpp")],
  None, ["sdp_gridder_clamp_channels_single/_uv, sdp_gridder_uvw_bounds_all, sdp_gridder_sum_diff outputs"]),
P("C05", "Parallel grid and image operations equal their serial element-wise definition",
  "The parallel array operations used around the gridders (scaling and accumulating arrays, residuals and RMS differences, zero counts, sub-grid cut-out and addition with wrap-around, shifting a sub-grid stack, pixel-to-coordinate conversion, kernel and w-pattern generation, and grid correction) give, for every element and every thread count and interleaving, the result of their serial element-wise definition. "
  "No element is skipped, processed twice or written by two threads, and no data race occurs.",
  ["schedules", "inputs", "configurations"],
  "every interleaving and team size, shapes smaller than the team, odd and even sizes, offsets that wrap around the grid edge, every supported type combination, read-only inputs",
  "tests run single shapes with the natural schedule; an element race or a lost reduction term is masked by luck of timing",
  ["grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_grid_correct.cpp", "utility/sdp_mem.cpp"],
  [("OpenMP worksharing loops with disjoint output rows", "grid_data/sdp_gridder_utils.cpp"),
   ("reduction clauses", "grid_data/sdp_gridder_utils.cpp"),
   ("OpenMP loops of precision conversion and element-wise set/scale", "utility/sdp_mem.cpp")],
  None, ["outputs of the sdp_gridder_* utility functions, sdp_gridder_grid_correct_*, sdp_mem_convert_precision, sdp_mem_set_value"]),
P("C06", "FFT plans give the DFT, and can be shared by concurrent callers",
  "Executing an FFT plan of one or two dimensions, optionally batched over the leading dimension, gives the unnormalised discrete Fourier transform in the requested direction of exactly the array passed, in or out of place of the C-contiguous arrays a plan accepts, and the centred variant equals phase, transform, phase and optional normalisation. "
  "One plan executed at the same time by several caller threads on their own arrays gives each the result it would get alone, and a plan refuses arrays that do not match those it was created for.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every interleaving of caller threads sharing a plan and of the worker threads of the phase/normalise loops, every shape, direction, precision and batch size; every history of plan creation, execution, and failed execution",
  "tests execute a plan once from a single thread",
  ["fourier_transforms/sdp_fft.cpp", "fourier_transforms/pocketfft_hdronly.h"],
  [("plan holds only layout data and is read-only during execution", "fourier_transforms/sdp_fft.cpp (sdp_fft_exec)"),
   ("array match test", "fourier_transforms/sdp_fft.cpp (sdp_fft_exec)")],
  None, ["sdp_fft_exec, sdp_fft_exec_shift, sdp_fft_norm, sdp_fft_phase outputs and status"]),
P("C07", "Direct Fourier prediction and imaging equal the serial sum on any schedule",
  "Predicting visibilities from point-source components, and imaging visibilities, by direct Fourier transform gives for every time, baseline, channel and polarisation (or every pixel) the exact sum over all components (or all selected visibilities). "
  "The result does not depend on the number of threads or their interleaving, no output element is skipped or mixed with a neighbour's, and visibilities outside the given channel ranges are neither used nor written.",
  ["schedules", "inputs", "configurations"],
  "every interleaving and team size of the baseline, row and pixel loops, 1 to 4 polarisations, mixed precisions, empty and partial channel ranges",
  "the tests compare one random data set on one schedule",
  ["visibility/sdp_dft.cpp", "grid_data/sdp_gridder_utils.cpp"],
  [("per-iteration local accumulators", "visibility/sdp_dft.cpp"),
   ("parallel row/pixel loops", "grid_data/sdp_gridder_utils.cpp (sdp_gridder_dft, sdp_gridder_idft)")],
  None, ["sdp_dft_point_v00/v01, sdp_gridder_dft, sdp_gridder_idft outputs"]),
P("C08", "RFI flags of a baseline depend only on that baseline, on any schedule",
  "The flags computed for a baseline depend only on that baseline's visibilities and the given thresholds and follow the documented two-stage rule (amplitude excess against the running median across channels, then step changes against the previous time samples, with the flag window applied). "
  "They are the same for every number of threads, every interleaving and every order of baselines, whether or not other baselines are present, and two threads never share working storage.",
  ["schedules", "inputs", "configurations"],
  "every interleaving and team size of the baseline loop, every arrangement of baselines, times, channels and polarisations, all threshold sets and window lengths",
  "the tests flag a single small data set whose baselines are processed in the natural order",
  ["visibility/sdp_flagger.cpp"],
  [("per-thread scratch arrays inside the parallel region", "visibility/sdp_flagger.cpp")],
  None, ["sdp_flagger_dynamic_threshold output flags"]),
P("C09", "Beam evaluation of each point is independent of threads and of other points",
  "Station (aperture array) and element (dipole, spherical-wave) beam values at each direction equal the defining sum for that direction alone, written at the requested output offset, for every thread count and interleaving. "
  "Output positions outside the requested range, and polarisations not requested, are not touched, and no data race occurs.",
  ["schedules", "inputs", "configurations"],
  "every interleaving and team size of the direction loop, input/output offsets, indexed and non-indexed element data, normalised or not, scalar and polarised, single and double precision",
  "tests evaluate one configuration on one schedule",
  ["station_beam/sdp_station.cpp", "station_beam/sdp_element_spherical_wave_harp.cpp", "station_beam/sdp_element_dipole.cpp"],
  [("OpenMP loop over directions with local accumulators", "station_beam/sdp_station.cpp")],
  None, ["sdp_station_beam_aperture_array, sdp_element_beam_* outputs"]),
P("C10", "Distributed facet/subgrid transform is independent of message order",
  "When facets are transformed to subgrids (or subgrids to facets) by exchanging contributions between separate workers sharing one plan, the accumulated result is the Fourier transform of the whole image, to the accuracy of the window, whatever order contributions are produced, delivered and accumulated in, and whichever workers run at the same time. "
  "A worker that restarts and recomputes its contributions from its input produces the same contributions again, and no call changes the plan or its input contributions.",
  ["schedules", "inputs", "histories", "crash_points"],
  "every delivery order, delay and re-computation of contributions between simulated facet and subgrid workers, every interleaving of concurrent calls sharing one plan, facet and subgrid offsets anywhere in the image including negative ones, one- and two-dimensional accumulation",
  "the tests run the steps in one fixed sequential order in one thread",
  ["fourier_transforms/sdp_swiftly.cpp"],
  [("plan is read-only after creation; temporaries are per call", "fourier_transforms/sdp_swiftly.cpp"),
   ("accumulation is additive", "fourier_transforms/sdp_swiftly.cpp (add_to_subgrid, add_to_facet)")],
  None, ["outputs of the sdp_swiftly_* calls"]),
P("C11", "Concurrent callers get the result each would get alone",
  "Processing functions called at the same time from several threads, on separate outputs and possibly shared read-only inputs or plans, give every caller exactly the result and status of the same call made alone. "
  "No function keeps hidden shared state that one caller's work, errors or parameters could leak into another's.",
  ["schedules", "inputs", "histories", "configurations"],
  "every interleaving of 2 to 4 caller threads, each making a random sequence of calls (visibility prediction and rotation, weighting, flagging, FFT, convolution, CLEAN, beams, gridding utilities, PSWF generation, custom degridding, SwiFTly steps, timers and memory operations), some of them failing",
  "no test calls the library from more than one thread",
  ["visibility/sdp_phase_rotate.cpp", "visibility/sdp_weighting.cpp", "visibility/sdp_dft.cpp", "visibility/sdp_flagger.cpp", "clean/sdp_hogbom_clean.cpp", "clean/sdp_ms_clean_cornwell.cpp", "numeric_functions/sdp_fft_convolution.cpp", "fourier_transforms/sdp_fft.cpp", "fourier_transforms/sdp_pswf.cpp", "fourier_transforms/sdp_swiftly.cpp", "grid_data/sdp_degrid_uvw_custom.cpp", "utility/sdp_logging.c"],
  [("functions keep their state in locals, plans and caller arrays", "visibility/, clean/, fourier_transforms/"),
   ("per-call FFT working arrays", "fourier_transforms/pocketfft_hdronly.h")],
  None, ["outputs and status of every public call, compared with the same call made alone"]),
P("C12", "No data race inside any parallel function or between concurrent callers",
  "No two threads ever access the same memory without an ordering between them when at least one of them writes it, in any processing function run with any number of worker threads, or in different functions run by several caller threads on separate outputs. "
  "The error status and the cached log level, which only ever hold valid whole values, are the sole exceptions.",
  ["schedules", "inputs", "configurations"],
  "every interleaving and team size of every parallel region in the library, and every interleaving of concurrent callers",
  "the tests only see final values on one schedule; a race usually gives the right answer there",
  ["grid_data/sdp_grid_wstack_wtower.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_clamp_channels.cpp", "grid_data/sdp_gridder_grid_correct.cpp", "fourier_transforms/sdp_fft.cpp", "visibility/sdp_dft.cpp", "visibility/sdp_flagger.cpp", "station_beam/sdp_station.cpp", "utility/sdp_mem.cpp", "utility/sdp_timer.cpp", "utility/sdp_logging.c"],
  [("OpenMP private/reduction/atomic/critical clauses and mutexes", "grid_data/sdp_grid_wstack_wtower.cpp"),
   ("per-thread timers", "utility/sdp_timer.h")],
  None, ["every memory access of the library code, as instrumented by the compiler"]),
P("C13", "Array handles: contents live exactly as long as someone refers to them",
  "Array handles are reference counted: memory the library owns is released exactly when the last reference is dropped, and never before; wrappers, aliases and slices never release or reallocate memory they do not own, and always see and describe the same elements as the array they refer to. "
  "After every handle and plan of a program has been freed nothing is left allocated, nothing was freed twice, and no freed memory was read or written, in any order of creation, copying, slicing, converting and freeing, including when some of those operations failed.",
  ["histories", "fault_sequences", "schedules", "inputs"],
  "every history of create, wrap, alias, slice, copy, convert, fill, reference and free operations, interleaved with allocation failures at arbitrary points",
  "tests create and free each object once in a fixed order and never look at the heap",
  ["utility/sdp_mem.cpp", "fourier_transforms/sdp_fft.cpp", "fourier_transforms/sdp_swiftly.cpp", "fourier_transforms/sdp_pswf.cpp", "utility/sdp_sky_coord.c", "utility/sdp_timer.cpp"],
  [("ref_count and is_owner", "utility/sdp_mem.cpp (sdp_mem_ref_inc/_dec, sdp_mem_free)")],
  [("ref_count", "number of references held", "utility/sdp_mem.cpp"), ("is_owner", "whether the data is released with the handle", "utility/sdp_mem.cpp")],
  ["sdp_mem_* calls; the allocator"]),
P("C14", "A failed allocation is reported, contained and leaves no trace",
  "If any memory allocation made while a library call runs fails, the call still returns to its caller in bounded time with a non-zero status (or, for calls with no status, an empty result); it never crashes, aborts or ends the process, hangs a worker, reads or writes through a missing array, or changes its inputs. "
  "Everything the failed call had allocated can be released through the normal free functions with nothing leaked, and the same call repeated once memory is available succeeds with the normal result.",
  ["fault_sequences", "schedules", "inputs"],
  "every choice of which allocation (or allocations) fail, in every public function that allocates, on any worker thread, in every interleaving of the workers",
  "tests never run out of memory",
  ["utility/sdp_mem.cpp", "grid_data/sdp_grid_wstack_wtower.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_gridder_wtower_height.cpp", "grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_direct.cpp", "numeric_functions/sdp_fft_convolution.cpp", "clean/sdp_hogbom_clean.cpp", "clean/sdp_ms_clean_cornwell.cpp", "fourier_transforms/sdp_pswf.cpp", "fourier_transforms/sdp_swiftly.cpp", "fourier_transforms/sdp_fft.cpp", "visibility/sdp_flagger.cpp"],
  [("memory allocation failure status", "utility/sdp_mem.cpp (sdp_mem_create)"),
   ("status tests before using new arrays", "grid_data/")],
  None, ["status after each call; heap accounting; process survival"]),
P("C15", "Once an error status is set, every later call is a no-op until it is cleared",
  "A call made with an error status already set changes nothing: it keeps that status value, leaves all its arrays and plans as they were, allocates nothing that is not returned, and creates no object that has to be used. "
  "So after the first failing step of any pipeline sharing one status variable, the outputs of all later steps stay untouched, the first error is the one reported, and clearing the status makes the same steps work normally.",
  ["fault_sequences", "histories", "inputs"],
  "every pipeline of public calls sharing one status, every position and value of the first error (invalid argument, wrong type or location, allocation failure)",
  "tests check the status of individual calls, never what calls after a failed one do",
  ["utility/sdp_mem.cpp", "utility/sdp_data_model_checks.c", "visibility/sdp_dft.cpp", "visibility/sdp_phase_rotate.cpp", "visibility/sdp_weighting.cpp", "visibility/sdp_tiled_functions.cpp", "grid_data/sdp_gridder_utils.cpp", "fourier_transforms/sdp_swiftly.cpp", "fourier_transforms/sdp_fft.cpp"],
  [("if (*status) return at the top of every function", "utility/sdp_mem.cpp and all processing functions")],
  None, ["status and array contents after each call"]),
P("C16", "Timers account simulated time exactly, whatever threads and clocks do",
  "An elapsed-time timer reports exactly the time for which it was running: the sum of its resume-to-pause intervals plus the current one if it is running, unaffected by time spent paused, by repeated pause or resume, by other threads' timers or by jumps of the wall clock; starting or resetting it sets it to zero. "
  "In a set of nested timers, each thread's named sections accumulate their own time, a reported section total covers all its entries, and a report never changes the measurements.",
  ["schedules", "histories", "fault_sequences"],
  "every history of start, pause, resume, restart, push, pop and report by several threads, every interleaving, with the wall clock jumping forwards and backwards and threads stalling at any point",
  "tests cannot control the clock: they only check that elapsed values are roughly as long as a sleep",
  ["utility/sdp_timer.cpp", "utility/sdp_timer.h"],
  [("monotonic clock and accumulated time since start", "utility/sdp_timer.cpp"),
   ("per-thread timer nodes", "utility/sdp_timer.cpp (sdp_timers_push)")],
  None, ["sdp_timer_* and sdp_timers_* calls"]),
P("C17", "Each log record is one whole line with the right time and level",
  "Every message at or above the active level, and none below it, appears on its stream as exactly one complete line in the documented format, with the UTC time at which it was logged (never earlier than a record completed before it while the clock runs forward), its level, function, file, line and formatted text; records from concurrent threads never mix within a line. "
  "A failing, slow or full log stream never blocks, crashes or changes the result or status of the call that logs.",
  ["schedules", "fault_sequences", "histories", "configurations"],
  "every interleaving of logging threads, every clock value including roll-over of a second between reads and wall-clock jumps, every level setting, write errors and short writes on the stream",
  "tests do not check log output, control the clock or make the stream fail",
  ["utility/sdp_logging.c", "utility/sdp_logging.h"],
  [("level filter", "utility/sdp_logging.c"), ("record formatting", "utility/sdp_logging.c")],
  [("log_filter", "cached active level", "utility/sdp_logging.c")],
  ["bytes written to the output and error streams"]),
P("C18", "Results depend only on inputs: never on heap contents or earlier calls",
  "Repeating a call with the same inputs on the same schedule gives bit-for-bit the same outputs, whatever uninitialised memory happens to contain, whatever calls came before it, and whether objects are fresh or re-used; on a different schedule or thread count results differ at most by floating-point summation order. "
  "In particular no function reads an element of an array before it was written.",
  ["histories", "schedules", "inputs", "configurations"],
  "every content of uninitialised heap and stack memory, every history of earlier calls, every schedule",
  "on a test machine fresh memory is almost always zero, which hides reads of uninitialised values",
  ["grid_data/sdp_grid_wstack_wtower.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp", "numeric_functions/sdp_fft_convolution.cpp", "visibility/sdp_flagger.cpp", "fourier_transforms/sdp_pswf.cpp", "clean/sdp_ms_clean_cornwell.cpp", "fourier_transforms/sdp_swiftly.cpp"],
  [("work arrays cleared before accumulation", "grid_data/sdp_grid_wstack_wtower.cpp"),
   ("zero-initialised allocations", "utility/sdp_mem.cpp")],
  None, ["bit patterns of all outputs over repeated runs with different memory fill"]),
P("C19", "Functions touch only what they are given, on every schedule",
  "A processing function never modifies an array it takes as input, and never reads or writes outside the elements of the arrays passed to it and its own live allocations, whatever the thread count, interleaving, array sizes smaller than the team, offsets or ranges it is given. "
  "Elements of output arrays outside the selected rows, channels, sub-grids or offsets keep their values.",
  ["schedules", "inputs", "configurations"],
  "every valid call of every processing function, every team size and interleaving, arrays placed directly against inaccessible memory",
  "out-of-range accesses by one element, or writes to a neighbour's unused element, do not show in the values a test compares",
  ["grid_data/sdp_gridder_utils.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp", "visibility/sdp_flagger.cpp", "numeric_functions/sdp_fft_convolution.cpp", "fourier_transforms/sdp_swiftly.cpp", "station_beam/sdp_station.cpp", "grid_data/sdp_degrid_uvw_custom.cpp", "utility/sdp_mem.cpp"],
  [("shape checks before processing", "utility/sdp_mem.cpp, utility/sdp_data_model_checks.c"),
   ("const views of inputs", "utility/sdp_mem_view.h")],
  None, ["every memory access; contents of inputs and unselected output elements before and after"]),
P("C20", "Parallel work always completes: no deadlock, hang or process exit",
  "Every call that runs worker threads returns after finitely many steps on every schedule, with every lock released and every worker finished, also when it gets fewer threads than it asked for, when a worker is stalled for long periods, when several callers run such calls at once, and when a worker meets an error. "
  "It never ends the process, and afterwards the caller's threading configuration and the library are usable for the next call.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving, team size, stall pattern and worker failure point of the parallel gridding calls and of all other parallel loops",
  "a test that hangs on one schedule in a million never hangs in the suite",
  ["grid_data/sdp_grid_wstack_wtower.cpp", "utility/sdp_thread_support.cpp", "grid_data/sdp_gridder_wtower_height.cpp"],
  [("task queue drained under a mutex", "grid_data/sdp_grid_wstack_wtower.cpp"),
   ("lock wrapper", "utility/sdp_thread_support.cpp")],
  None, ["return of the call within a step budget; scheduler's view of blocked threads"]),
# ---- not simulation targets -------------------------------------------------
P("C21", "Uniform and Briggs weights follow their definition",
  "Uniform weights are the inverse, and Briggs weights the robustness-scaled inverse, of the gridded weight of the cell each visibility falls in, with every visibility counted once.",
  ["inputs"], "all uvw, frequencies, weights, grids and robustness values",
  "tests compare one data set per weighting scheme",
  ["visibility/sdp_weighting.cpp"], [("grid write, sum, grid read", "visibility/sdp_weighting.cpp")]),
P("C22", "CLEAN conserves the dirty image",
  "After CLEAN, residual plus loop-gain-weighted shifted PSFs of the components equals the dirty image, components are taken at residual maxima, and iteration stops at the threshold or cycle limit.",
  ["inputs"], "all dirty images, PSFs, gains, thresholds and limits",
  "tests compare one image with a Python implementation",
  ["clean/sdp_hogbom_clean.cpp", "clean/sdp_ms_clean_cornwell.cpp"], [("subtract shifted PSF", "clean/sdp_hogbom_clean.cpp")]),
P("C23", "PSWF and Legendre values and FFT sizes are correct for all parameters",
  "Generated spheroidal wave functions, Legendre functions and padded FFT sizes equal their mathematical definitions over their whole parameter range.",
  ["inputs"], "all orders, bandwidth parameters, arguments and sizes",
  "tests sample a few parameter values",
  ["fourier_transforms/sdp_pswf.cpp", "math/sdp_legendre_polynomial.h", "fourier_transforms/sdp_fft_padded_size.cpp"],
  [("series expansion, min-heap of products", "fourier_transforms/")]),
P("C24", "FFT convolution equals direct convolution for all sizes",
  "The convolution of two square images equals the centred part of their direct convolution for every combination of sizes.",
  ["inputs"], "all image sizes and contents",
  "tests use one pair of sizes", ["numeric_functions/sdp_fft_convolution.cpp"], [("zero padding to a power of two", "numeric_functions/sdp_fft_convolution.cpp")]),
P("C25", "GPU implementations agree with the CPU ones",
  "Every function given GPU arrays gives the result of the CPU implementation.",
  ["inputs", "schedules"], "all inputs and all GPU schedules",
  "no GPU is available to the test suite in most environments",
  ["visibility/sdp_dft.cu", "grid_data/sdp_gridder_wtower_uvw.cu", "utility/sdp_device_wrapper.cpp"],
  [("CUDA kernels", "visibility/sdp_dft.cu")]),
P("C26", "Tile sorting places every visibility in the tiles it touches exactly once",
  "Counting, prefix-summing and bucket-sorting visibilities into tiles places each visibility once in each tile its kernel footprint touches, with offsets consistent with the counts.",
  ["inputs"], "all uvw, frequencies, grid and tile sizes and kernel supports",
  "tests compare one data set", ["visibility/sdp_tiled_functions.cpp"], [("tile ranges and offsets", "visibility/sdp_tiled_functions.cpp")]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in props:
    for fn in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + fn): print("missing", p["id"], fn)
