PROPS = []
NA = []


def P(**k):
    PROPS.append(k)


def N(**k):
    NA.append(k)


P(id="C01", title="An image save that reports success has stored the whole image",
  statement="When saving an 8-bit gray or RGBA image as PNM, PNG or JPEG (the format chosen by the file extension in lower or upper case, or by a format-specific call) reports success, the named file "
            "holds exactly that image: independently decoding it gives the same size, channel layout and pixels (within JPEG loss; PNM and JPEG carry no alpha), whatever the row padding or the previous content of the file. "
            "If opening, writing or closing the file fails or memory runs out, the checked variant stops with a diagnostic and the fatal exit status and the other variant returns an error; success is never "
            "reported for a truncated, stale or damaged file, and the image being saved is never modified. After a reported failure the same call succeeds again once the fault is gone.",
  over=["inputs", "fault_sequences"],
  qtext="every image shape, padding and content, every save entry point (C and C++), every placement of open, write, disk-full, close and allocation failures inside the save",
  why="The tests save a few fixed images to a healthy file system; write errors that only appear at flush/close, disk-full in the middle of a row and short writes never occur.",
  files=["src/nx_image_io.c", "src/nx_io.c", "src/vg_image.cc"],
  mech=[("nx_fwrite/nx_fclose error propagation, libpng/libjpeg error handlers", "src/nx_image_io.c, src/nx_io.c")],
  observe=["file content after nx_image_save*/VGImage::save", "return value / exit status"],
  note="Each seeded run saves 1-3 images fault-free (decoded by an independent codec) and 1-3 times under drawn faults placed at measured event positions.")

P(id="C02", title="An image load that reports success returned exactly the stored image",
  statement="Loading an intact PNM, PNG or JPEG file (recognised by content, not by name) succeeds and yields exactly the stored size and pixels, in the file's own layout, as gray or as RGBA as requested, "
            "with opaque alpha added where the file has none, whatever the previous state of the target image. If the file is truncated, cannot be opened, a read fails or memory runs out, the load "
            "reports an error (or stops with a diagnostic and the fatal exit status in the checked variant) unless the image it returns is still the complete one. After a failed load the same image "
            "object can be loaded again.",
  over=["inputs", "fault_sequences"],
  qtext="every image file of the supported formats and pixel layouts, load mode, prior target state, short-read pattern, tear position and placement of open, read and allocation failures",
  why="The tests load a handful of intact files; torn files, read errors in the middle of a row, short reads and allocation failures inside libpng/libjpeg are never seen.",
  files=["src/nx_image_io.c", "src/nx_image.c", "src/vg_image.cc"],
  mech=[("format sniffing, libpng setjmp/libjpeg error manager, short-read checks", "src/nx_image_io.c")],
  observe=["nx_image_load*/VGImage::load result and pixels"],
  note="Files come from harness-side encoders over all PNG colour types/depths/interlacing, PNM header styles and baseline/progressive JPEG; the oracle is the encoded pixels or an independent decode.")

P(id="C03", title="Data frames survive CSV files exactly or the failure is reported",
  statement="Saving a data frame as CSV (or printing it with another separator) writes every label and cell (quotes, separators, newlines and any non-zero byte in labels and strings, "
            "full-precision doubles, extreme integers, missing cells) so that loading it gives the same shape, labels, missing cells and values, with column types inferred from the stored values and strings "
            "turned into factors only on request; ordinary CSV written by other programs (unquoted text, no final newline, mixed columns) loads with the same rules. "
            "If a file operation fails or memory runs out, the plain calls report failure and the checked ones stop with a diagnostic and the fatal exit status: no save is acknowledged whose file is "
            "incomplete, and no load returns a partial or altered frame.",
  over=["inputs", "fault_sequences"],
  qtext="every frame (types, missing cells, labels, strings, numbers), separator, save/load entry point, and every placement of open, read, write, disk-full, close and allocation failures",
  why="The tests store a few tame frames on a healthy file system; adversarial strings, extreme numbers, single-column missing rows, short reads and failing writes are not sampled.",
  files=["src/nx_data_frame.c", "src/nx_csv_parser.c", "src/nx_csv_lexer.c", "src/nx_lexer.c", "src/nx_io.c"],
  mech=[("CSV writer, lexer, parser and type inference", "src/nx_data_frame.c, src/nx_csv_parser.c, src/nx_csv_lexer.c")],
  observe=["file text after nx_data_frame_save_csv*/fprintf", "frames returned by nx_data_frame_load_csv*"],
  note="Saved text is judged by an independent reader, loads by a model frame; faults are placed at measured event positions of the same operation.")

P(id="C04", title="JSON trees, bundles and JSON logs survive storage exactly or report it",
  statement="A JSON tree built through the API prints as well-formed JSON that an independent reader and the library's own parser (from string, stream or file) read back as the same tree (types, "
            "order, keys, strings with any non-zero bytes, numbers), JSON text from other writers parses to the tree it denotes, and every bundled scalar, array, string or keypoint unbundles to the same value. "
            "Each JSON log stream holds exactly what was logged to it since it was cleared and is written out as such. A torn file, a failing read, write, open or close, or lack of memory ends in a "
            "diagnosed fatal stop and never in an accepted partial tree or an acknowledged incomplete file.",
  over=["inputs", "histories", "fault_sequences"],
  qtext="every tree and text, bundled value, logging history over the log streams, tear position, and placement of open, read, write, close and allocation failures",
  why="The tests parse fixed documents from memory; escapes, precision, log histories, torn files and failing I/O are not sampled.",
  files=["src/nx_json_tree.c", "src/nx_json_parser.c", "src/nx_json_lexer.c", "src/nx_json_bundle.c", "src/nx_json_log.c", "src/nx_string.c"],
  mech=[("JSON printer/lexer/parser, bundle number formats, log streams", "src/nx_json_*.c")],
  observe=["text of nx_json_tree_fprint/xwrite and NX_JLOG_XWRITE", "trees and values returned by nx_json_tree_from_*/nx_json_unbundle_*"],
  note="Trees, bundles and log histories are drawn at random and compared against a model tree; files are also torn at drawn bytes.")

P(id="C05", title="Stream records read back exactly; torn or failing streams are reported",
  statement="Strings, string arrays, keypoints, BRIEF extractors (size, radius, tests, limits, level offset), raw blocks, SIFT key files and text matrices written to a stream are read back equal, "
            "whatever the target object held before, and text lines and quoted strings come back exactly as written, the end of the text being reported with -1. "
            "If the stream is torn or ends early, or an open, read, write, close or allocation fails, the plain calls report failure and the checked ones stop with a diagnostic and the fatal exit status: "
            "nothing that differs from what was written is ever reported as read, and nothing incomplete as written and closed.",
  over=["inputs", "histories", "fault_sequences"],
  qtext="every sequence of records of mixed kinds in one stream, prior target state, entry point, short-transfer pattern, tear position and placement of open, read, premature end, write, close and allocation failures",
  why="The tests write and read a few records through a healthy temporary file; torn streams, failing devices, reused targets and mixed streams are not sampled.",
  files=["src/nx_string.c", "src/nx_string_array.c", "src/nx_keypoint.c", "src/nx_brief_extractor.c", "src/nx_mat.c", "src/nx_io.c", "src/nx_sift_detector.c"],
  mech=[("length-prefixed records, whole-item counts, stream error checks", "src/nx_string.c, src/nx_string_array.c, src/nx_keypoint.c, src/nx_brief_extractor.c, src/nx_mat.c, src/nx_sift_detector.c")],
  observe=["objects and results of the *_read/*_xread/*_read0/xload calls", "file bytes after *_write/*_xwrite/xsave and close"],
  note="The writer's in-memory values are the oracle; faults and tears are placed at measured positions of the same stream.")

P(id="C08", title="Dataset readers return exactly what the files say or stop",
  statement="Opening a KITTI SLAM, VGG affine or Temple Color 128 sequence yields exactly the poses, times, calibration, homographies, frame range, attributes, ground truth and availability flags that "
            "its files and directories hold (optional parts such as KITTI poses, cameras and lidar may be absent), and loading a frame yields exactly that frame's image. "
            "If a required file or line is missing, or an open, read or allocation fails, the reader stops with a diagnostic and the fatal exit status rather than returning partial or altered data; at most an optional part "
            "that could not be opened is reported as unavailable.",
  over=["inputs", "fault_sequences"],
  qtext="every dataset content and length (across the readers' buffer growth), subset of optional parts, missing line or file, and placement of open, read, directory and allocation failures",
  why="The repository has no tests with dataset files; torn or partly missing datasets and failing reads are not sampled at all.",
  files=["src/nx_kitti_slam.c", "src/nx_vgg_affine_dataset.c", "src/nx_temple_color_128.c"],
  mech=[("sequence constructors and frame loaders", "src/nx_kitti_slam.c, src/nx_vgg_affine_dataset.c, src/nx_temple_color_128.c")],
  observe=["fields of the returned sequence structures", "images from *_xload_frame", "exit status"],
  note="Synthetic datasets are laid out in the simulated file system; the numbers written are the oracle.")

P(id="C07", title="SIFT results through the cache equal uncached ones, whatever happened before",
  statement="SIFT keypoints, descriptors and brute-force matches obtained through the on-disk cache (any directory, existing or not, or the default one) equal those computed without it, for every gray image "
            "(8-bit or float, any row padding), parameter set, look-alike input and history of earlier calls; a repeated call is served without writing again, and the uncached result depends only on "
            "image and parameters, not on heap content, buffer capacity or earlier use of the detector. "
            "If a call crashes, or opening, reading, writing, closing, renaming or allocating fails in it, it returns the right result or stops with a diagnostic, and the next fault-free call returns the right result; "
            "processes sharing the cache directory at the same time all succeed with the right result.",
  over=["inputs", "histories", "schedules", "crash_points", "fault_sequences"],
  qtext="every image/descriptor input and parameters, call history on one cache directory, crash point, fault placement and interleaving of up to three processes at I/O steps",
  why="The tests never run SIFT at all, let alone twice against a cache directory that a crash, a full disk or another process left behind.",
  files=["src/nx_sift_detector.c", "src/nx_filesystem.c", "src/nx_hash_sha256.c", "src/nx_image.c"],
  mech=[("cache key, cache file validation and replacement", "src/nx_sift_detector.c nx_sift_detector_compute_with_cache, nx_sift_match_brute_force_with_cache"), ("key store growth and peak search", "src/nx_sift_detector.c")],
  observe=["keypoints, descriptors and matches returned", "files in the cache directory", "exit status"],
  note="The uncached result of the same build (matches: also a naive nearest-neighbour search) is the oracle; crashes keep only what reached the simulated disk.")

P(id="C06", title="Damaged or hostile stored bytes never corrupt, hang or crash a reader",
  statement="Whatever bytes a stored image (PNM, PNG, JPEG), CSV or JSON text, binary or text record, SIFT cache file or dataset text file contains, the reader either returns an error, returns an accepted object, or "
            "stops with a diagnostic and the fatal exit status, within bounded work: it never accesses memory it does not own, loops, or dies of a signal. "
            "An accepted object is usable (its declared size is positive and matches its storage; it can be read, saved, printed and freed), and after a rejected load an image object can still load an intact file.",
  over=["inputs", "fault_sequences"],
  qtext="every byte string derived from intact objects by cuts, bit flips, hostile sizes, counts and numbers, inserted, erased, copied or zeroed ranges, and random byte strings, through every reading entry point",
  why="The tests read intact files only; sizes and counts taken from a damaged header are what index and size every later buffer.",
  files=["src/nx_image_io_pnm.c", "src/nx_image_io_png.c", "src/nx_image_io_jpeg.c", "src/nx_csv_parser.c", "src/nx_json_tree.c", "src/nx_string.c", "src/nx_string_array.c", "src/nx_sift_detector.c", "src/nx_mat.c", "src/nx_kitti_slam.c",
         "src/nx_vgg_affine_dataset.c", "src/nx_temple_color_128.c"],
  mech=[("header and length validation in every reader", "src/nx_image_io_*.c, src/nx_string*.c, src/nx_mat.c, dataset readers")],
  observe=["sanitizer reports, signals, watchdog", "return values, exit status", "accepted objects"],
  note="Every run damages one stored object (checksums of PNG chunks repaired in most cases so that damage reaches the decoder) and reads it under AddressSanitizer with short reads and junk-filled memory.")

P(id="C15", title="Directory helpers tell the truth under races, faults and crashes",
  statement="When nx_ensure_dir returns the directory exists, and it stops the process (diagnostic, fatal exit status) only if a file-system operation failed or the parent is missing or a file is in the way, never because another "
            "process created the directory first; regular files stay untouched and directories can always be established once faults stop. "
            "nx_scan_dir lists, in alphabetical order and without duplicates or gaps, every entry that existed throughout the call and none that never existed, or stops with a diagnostic. "
            "nx_check_dir and nx_check_file never stop the process, never confirm something that did not exist or is unreadable, deny an existing one only when an operation failed, and no helper leaves a handle open.",
  over=["schedules", "fault_sequences", "crash_points", "histories"],
  qtext="every interleaving of up to four processes at file-system steps with concurrent creation and removal of entries, every placement of directory, open, close and allocation failures and of a crash, every directory size and entry name",
  why="The tests run one process on an undisturbed directory; lost creation races and failures between check and creation need a particular interleaving.",
  files=["src/nx_filesystem.c", "src/nx_string_array.c"],
  mech=[("check-then-create with re-check, scandir with alphasort", "src/nx_filesystem.c")],
  observe=["return values and listings", "directory tree after each call", "exit status, open handles"],
  note="Simulated processes share the in-memory file system and are switched at every file-system step; listings are judged against what existed at some or at every moment of the call.")


P(id="C09", title="Running out of memory is an orderly stop or error, never a wrong result",
  statement="Whatever allocation fails inside any library operation (image files and processing, pyramids, warps, detectors, descriptors and their caches, tables, JSON, strings and containers, datasets, options, "
            "estimators, samplers, plotting, drawing, C and C++ interfaces), the operation either stops the process with a diagnostic and the fatal exit status, or reports failure, or completes with exactly the result "
            "it has when memory is plentiful; it never crashes, touches memory it does not own, or returns something else as a result. A reported failure leaves the library usable: repeating the operation gives the normal result, "
            "which depends only on its inputs and not on what the heap held.",
  over=["inputs", "fault_sequences", "histories"],
  qtext="every operation of the public interface and its arguments, every position of a single or persistent allocation failure in it (including inside libpng and libjpeg), heap content, and the state left by earlier failures",
  why="Allocations never fail in the tests, and fresh heap pages happen to be zero there.",
  files=["src/nx_alloc.c", "src/nx_string.c", "src/nx_mem_block.c", "src/nx_image.c", "src/nx_sift_detector.c", "src/fast/fast_nonmax.c"],
  mech=[("checked allocation wrappers", "src/nx_alloc.c"), ("all allocation sites", "src/")],
  observe=["result of each operation against its own fault-free run", "exit status and diagnostic", "address-sanitizer and guard-byte reports"],
  note="33 kinds of whole-API operations are each executed fault-free and under failures at drawn allocation positions; the fault-free execution of the same inputs is the reference.")

P(id="C10", title="Operations give back all memory, streams and handles, also when they fail",
  statement="A library operation that returns to its caller, successfully or with an error code, has released every memory block, stream, pipe and directory handle it acquired, apart from the object it hands "
            "out, and freeing that object releases all of it; this holds whichever file, directory, pipe or allocation step failed inside the operation (including errors raised inside libpng and libjpeg), so "
            "that a process which survives errors can repeat operations indefinitely.",
  over=["inputs", "fault_sequences", "histories"],
  qtext="every operation of the public interface and its arguments, damaged or intact input files, and every placement of up to two open, read, write, disk-full, close, directory, pipe and allocation failures in it",
  why="The tests do not look at leaks and never take the error paths, where early returns skip the releases.",
  files=["src/nx_image_io_png.c", "src/nx_image_io_jpeg.c", "src/nx_image_io_pnm.c", "src/nx_data_frame.c", "src/nx_csv_parser.c", "src/nx_json_parser.c", "src/nx_io.c", "src/nx_filesystem.c", "src/nx_sift_detector.c"],
  mech=[("release on every return path", "src/")],
  observe=["blocks, streams and directory handles alive after the operation returned and its objects were freed"],
  note="Every allocation, stream and directory handle passes a counted seam; what is left when an operation and the freeing of its results have returned is a violation.")

P(id="C13", title="Seeded randomness, BRIEF patterns and timers hold for every stream and clock",
  statement="A uniform sampler yields exactly the SFMT-19937 stream of its seed (32/64-bit words, reals, array fills), however it was initialised before, whatever other samplers exist, and with the clock-seeded shared "
            "instances following the second of their creation; Gaussian samples are the finite polar-method values of that stream shifted and scaled by mean and sigma. Real uniform samples lie in [0,1) and Gaussian ones are finite for every "
            "word sequence the generator can emit. A BRIEF extractor (radius 4 or more) reseeded after any history has exactly the pattern and limits of its seed, and accepts and describes points by exactly those comparisons. "
            "Timers report elapsed time even if the wall clock jumps.",
  over=["inputs", "histories", "fault_sequences"],
  qtext="every seed, interleaved draw history over several samplers, extreme generator word, heap content, wall-clock value and jump, extractor size, radius and reuse history",
  why="The tests draw a few samples from one seed; extreme words appear once in 2^32 draws and clock jumps never.",
  files=["src/nx_uniform_sampler.c", "src/nx_gaussian_sampler.c", "src/nx_brief_extractor.c", "include/virg/nexus/nx_timing.h", "src/SFMT/SFMT.c"],
  mech=[("sampler state and seeding", "src/nx_uniform_sampler.c"), ("polar method", "src/nx_gaussian_sampler.c"), ("pattern generation, limits, descriptor", "src/nx_brief_extractor.c")],
  observe=["sample values", "extractor offsets, limits and descriptors", "nx_timer_measure_in_msec"],
  note="An independent SFMT-19937 and polar method are the oracle; the generator refill is a seam through which extreme words are injected, the clock another for jumps.")


P(id="C14", title="Robust estimators report exactly the consensus of the model they return",
  statement="For every random stream, the RANSAC and USAC homography and the RANSAC fundamental-matrix estimators (plain, normalised, C++) terminate, return the caller's matches intact and sorted by match cost, flag exactly the matches within "
            "tolerance of the returned model and return their number (or 0 inliers: too few matches, or a homography that is mirrored or badly skewed), and the result depends only on matches, parameters and random stream. "
            "Samples never repeat a match, so exact data needs one iteration on a minimal set and a clear majority consensus is found, all of it for homographies. "
            "The generic USAC loop returns the best-scoring model its callbacks allow (sample and model checks, degeneracy, refinements) with its score.",
  over=["inputs", "schedules", "fault_sequences"],
  qtext="every match list (exact, contaminated, second consensus, mirrored, degenerate, minimal, too few), cost order, tolerance, iteration limit, random stream including extreme words, clock seed, heap content, previous model content and "
        "callback behaviour",
  why="The tests run the estimators on friendly data with whatever the clock-seeded stream gives; repeated samples, unset models and rare streams need particular random words.",
  files=["src/nx_usac.c", "src/nx_usac_homography.c", "src/nx_homography.c", "src/nx_epipolar.c", "src/nx_point_match_2d_stats.c", "include/virg/nexus/vg_homography.hpp", "src/vg_point_correspondence_2d.cc"],
  mech=[("sampling, keep-best, refinement loops", "src/nx_usac.c, src/nx_usac_homography.c, src/nx_homography.c, src/nx_epipolar.c"), ("normalisation", "src/nx_point_match_2d_stats.c")],
  observe=["return value, model, flags and order of the match list"],
  note="Randomness enters only through the clock seed and the generator refill, both seams; oracles are distances recomputed from the returned model, the ground truth of the drawn data and a reference of the USAC callback history.")


P(id="C16", title="The plotting peer receives exactly the commands sent, in order",
  statement="Everything sent through a plot object (free-form commands, terminals, titles and labels with any text, named and inline data frames) reaches the plotting process or the caller's stream as exactly those commands in that order, "
            "fully delivered after a flush and after the object is freed; the process is started as requested and waited for, while a caller's stream stays open and usable. "
            "If the process cannot be started or memory runs out, the library stops with a diagnostic and the fatal exit status; if the peer goes away or the disk fills up, it has received a prefix of the commands and nothing else.",
  over=["inputs", "histories", "fault_sequences"],
  qtext="every sequence of plot commands, texts, frames and flushes, pipe or stream, and placement of start, write, peer-loss and allocation failures",
  why="The tests only drive one healthy session; a peer that is gone, text with directives and partial delivery are not sampled.",
  files=["src/nx_gnuplot.c", "src/nx_data_frame.c"],
  mech=[("pipe ownership and command formatting", "src/nx_gnuplot.c")],
  observe=["bytes received by the peer", "pipe reaped, stream usable", "exit status"],
  note="popen/pclose are seams whose simulated peer records what arrives; the expected text is built by the harness.")

P(id="C17", title="Log messages and fatal errors behave as configured, even when output fails",
  statement="A message is printed on stderr exactly when its level is at or above the current verbosity, as one line with level letter, tag, function and line, coloured (and reset) only if stderr is a terminal; printing never stops the process. "
            "A fatal error always ends the process: through the installed handler with the original arguments, or, by default and after resetting the handler, with the message, a call stack and the fatal exit status, "
            "also when stderr refuses output or no memory is left.",
  over=["inputs", "histories", "fault_sequences"],
  qtext="every history of messages, verbosity, handler and terminal changes, every message text and length, with stderr failing or allocation failing at any point",
  why="The tests never look at log output and cannot survive a fatal error, let alone one while memory or stderr is gone.",
  files=["src/nx_log_c_impl.c"],
  mech=[("verbosity filter, colour control, fatal handler", "src/nx_log_c_impl.c")],
  observe=["stderr text", "exit status", "handler arguments"],
  note="stderr, isatty, exit, backtrace and the heap are seams; output is compared byte for byte.")


P(id="C18", title="Containers, tables, graphs and option sets keep the values put into them",
  statement="Over every history of calls, string arrays, memory blocks, keypoint vectors, data frames (typed cells, missing values, factor levels), graphs in both forms, descriptor maps and C/C++ option sets hold exactly the values, sizes, "
            "order and lookups their calls imply - also when text comes from the object itself, when memory is borrowed rather than owned, and when blocks move as they grow - and nothing is left when they are freed. "
            "Each parse of an option set depends only on its own command line and the declared defaults, leaves argv intact, and prints its values and usage; a missing required option or value, malformed, duplicate or unknown option, "
            "or a cell read as what it is not, stops the process with a diagnostic and the fatal exit status.",
  over=["inputs", "histories"],
  qtext="every history of operations and arguments on these objects, every heap content and block placement, and every sequence of command lines",
  why="The tests make a few calls on each container on a friendly heap; growth at particular sizes, reuse after release, aliasing and repeated parses need particular histories.",
  files=["src/nx_string_array.c", "src/nx_string.c", "src/nx_mem_block.c", "src/nx_vector_gen.c", "src/nx_data_frame.c", "src/nx_graph.c", "src/nx_options.c", "src/vg_options.cc", "src/vg_descriptor_map.cc"],
  mech=[("growth and ownership", "src/nx_mem_block.c, src/nx_vector_gen.c, src/nx_string_array.c"), ("typed cells and levels", "src/nx_data_frame.c"), ("parse and defaults", "src/nx_options.c")],
  observe=["values and sizes after every call", "blocks left", "exit status and diagnostics"],
  note="A small model of each object is compared after every call; the heap seam fills fresh memory with junk, moves every realloc and guards every block.")


P(id="C19", title="Image operations depend on image content only, not on memory layout",
  statement="For every image (8 bit or float, gray or RGBA, any size down to 1x1, any row padding, owned or borrowed pixels), allocation, resize, copy, wrapping, channel and type conversion, colour maps, arithmetic and normalisation, "
            "resampling (scale, up- and downsampling), filters (box, Gaussian, derivatives, 1-d convolutions with every border rule), bilinear affine warps and 45-degree rotations, in C and C++, give the result "
            "their definition implies for the pixels, identical for every memory layout, heap content, previous state of the target and block placement, never read or write outside the images, and leave their source untouched.",
  over=["inputs", "histories"],
  qtext="every image size, content, layout and padding, operation and parameter, previous target state, heap content and placement of moving blocks",
  why="The tests apply some of these operations to one or two fixed, densely packed images; padded rows, tiny images, borders wider than the image, stale targets and uninitialised memory are not sampled.",
  files=["src/nx_image.c", "src/nx_image_warp.c", "src/nx_filter.c", "src/nx_colorspace.c", "src/nx_color_map_data.h", "src/vg_image.cc"],
  mech=[("resize and ownership of pixel buffers, row strides", "src/nx_image.c"), ("border handling", "src/nx_filter.c, src/nx_image_warp.c")],
  observe=["pixels, size and type of the result", "source pixels and padding", "guard zones of every block"],
  note="Each operation runs on the same pixels in several layouts on a junk-filled, moving, guarded heap; results are compared bit for bit with each other and within tolerance with a naive double precision reference.")

P(id="C20", title="Pyramids, detectors and warpers give the same result fresh or reused",
  statement="Image pyramids (fast, fine and scaled; built, rebuilt or updated in place; C and C++), FAST (detection, score, non-maximum suppression, capacity limits, orientation, pyramid levels), Harris (derivatives, score, keypoints, C++ detector), "
            "the affine warp processor (geometry, filtering, backgrounds) and the checkerboard responses give, for every image, parameter set and history of earlier images and settings on the same object, exactly what a fresh object gives, "
            "which is what their definition implies; they never exceed the caller's capacity or the images, keep threshold adaptation in range and direction, and leave the source untouched.",
  over=["inputs", "histories"],
  qtext="every image, layout, parameter set, capacity and history of reuse, random stream of the noise background and heap content",
  why="The tests use each object once with one image; work buffers of another size, shrinking level counts, changed settings and full key buffers need a history.",
  files=["src/nx_image_pyr.c", "src/nx_image_pyr_builder.c", "src/nx_fast_detector.c", "src/fast/fast_9.c", "src/fast/fast_nonmax.c", "src/nx_harris_detector.c", "src/vg_harris_detector.cc", "src/vg_image_pyr.cc",
         "src/nx_affine_warp_processor.c", "src/nx_checkerboard_detector.c"],
  mech=[("level reuse", "src/nx_image_pyr.c, src/nx_image_pyr_builder.c"), ("work buffers and capacity", "src/nx_fast_detector.c, src/vg_harris_detector.cc"), ("stage buffers and transforms", "src/nx_affine_warp_processor.c")],
  observe=["levels, keypoints, warped pixels and transforms"],
  note="Every seeded run repeats the computation on an object with a drawn history, in another layout and on a fresh junk heap, compares bit for bit and against naive references (segment test, exhaustive suppression, double precision pyramid and warp pipeline).")

P(id="C11", variant="mt", title="Threads that use different objects do not disturb each other",
  statement="Library calls made at the same time on several threads of one process, each on objects and files of its own (image files and processing, pyramids, warps, detectors, descriptors and their caches, tables, CSV, JSON, strings, "
            "containers, datasets, options, graphs, matrices, plotting, directories, C and C++ interfaces), give on every thread exactly the result the call has when it runs alone, including when one of them meets an I/O error, "
            "for every interleaving of their memory accesses and I/O steps; they share no memory without ordering. (The process-wide default random generators, JSON log and log settings are shared by definition and not included.)",
  over=["schedules", "inputs", "fault_sequences"],
  qtext="every choice of 2-3 concurrent library operations, their inputs, every preemption point at single memory accesses and I/O steps, and I/O errors on individual threads",
  why="The tests are single threaded; a hidden static buffer, cached table or stateful libc call is harmless there and only corrupts a result under a particular interleaving.",
  files=["src", "include/virg/nexus"],
  mech=[("no mutable state outside of the objects passed in, apart from the documented process-wide instances", "src/nx_*.c, src/vg_*.cc")],
  observe=["every result of the operation on each thread", "memory accesses of the threads (race detection by vector clocks)"],
  note="The library is compiled with the compiler's memory-access callbacks against the simulator's own runtime: one thread runs at a time, the seed decides at which access or I/O step the next one takes over; every access is checked against "
       "the happens-before order and every observation against the run alone.")

P(id="C12", variant="mt", title="Parallel affine warps equal the serial ones for every schedule",
  statement="Built with OpenMP, the affine warp processor gives for every image, warp, background, post blur and reuse history exactly the result, size and transforms of the serial computation, whatever number of threads is announced or granted, "
            "however iterations are handed to the threads and wherever they are preempted; the threads never touch the same memory without ordering, all work memory is released, and running out of memory ends in a diagnosed fatal stop.",
  over=["schedules", "inputs", "fault_sequences"],
  qtext="every image, warp parameter set and reuse, team size announced and granted, assignment of loop chunks to threads, preemption at single memory accesses, and allocation failure",
  why="The default build has no OpenMP and the tests never run the parallel loops; a shared work buffer shows only under particular chunk assignments and preemptions.",
  files=["src/nx_affine_warp_processor.c", "src/nx_filter.c"],
  mech=[("per-thread filter buffers indexed by omp_get_thread_num, private row state, disjoint output rows and columns", "src/nx_affine_warp_processor.c")],
  observe=["warped pixels, transforms", "memory accesses of the team (race detection by vector clocks)"],
  note="GOMP_* and omp_* entry points are implemented by the simulator: team size, dynamic chunk order and preemption come from the seed; the reference is the same warp with one thread.")

P(id="C21", title="A tool that exits with success has delivered its complete, correct output",
  statement="Each command-line tool (nx-harris-detector, nx-sift-detector, nx-sift-benchmark, nx-stitch, nx-fit-homography, vg-stereo-matcher) that exits with status 0 has delivered everything its options ask for: the keypoints, descriptors, "
            "benchmark lines, panorama and pictures of the given input, complete on standard output and in the named files, equal for every run on the same input (measured times and the clock-seeded random samples aside) whatever earlier or killed runs left behind. If an input is missing "
            "or damaged, an argument is wrong, images cannot be connected, a file or standard output cannot be opened, read, written or closed, or memory runs out, it exits with a non-zero status and says so on standard error; it never crashes.",
  over=["inputs", "histories", "fault_sequences", "crash_points"],
  qtext="every tool, command line and set of input files, every placement of open, read, write (standard output included), disk-full, close and allocation failures and of a kill inside the run, and every sequence of such runs over the same directories",
  why="No test runs the tools; lost output on a full disk, pictures that do not match or leave no keypoints, stale caches and killed runs need particular inputs and fault positions.",
  files=["tools/nx_harris_detector_main.c", "tools/nx_sift_detector_main.c", "tools/nx_sift_benchmark_main.c", "tools/nx_stitch_main.c", "tools/nx_panorama_builder.c", "tools/nx_fit_homography_main.c", "tools/vg_stereo_matcher_main.cc"],
  mech=[("check of standard output before success", "tools/*_main.c"), ("connection of the images to the reference", "tools/nx_panorama_builder.c"), ("options and input files", "tools/*_main.c, src/nx_options.c")],
  observe=["exit status", "standard output and error", "files written"],
  note="The tools' real main() functions run as simulated processes with fresh static data over the simulated file system; a fault-free run is checked against a model of its output (library calls made by the harness, known view geometry for panoramas "
       "and homographies), runs under faults and after kills against that run.")

# ---------------------------------------------------------------- not claimed: no schedule, clock, I/O, fault or history to decide
N(id="N01", title="Linear algebra, polynomial and rotation routines compute what they define",
  statement="Vector, matrix, SVD, least squares, polynomial, quaternion, rotation, pinhole camera, essential matrix and pose routines return the mathematically defined result within rounding for every well conditioned input.",
  over=["inputs"], qtext="every numeric input", why="The tests sample a few matrices and vectors.",
  files=["src/nx_mat.c", "src/nx_svd.c", "src/nx_linear_solvers.c", "src/nx_quaternion.c", "src/nx_rotation_3d.c", "src/nx_pinhole.c", "src/nx_epipolar.c", "src/nx_math.c", "src/nx_statistics.c"],
  mech=[("closed-form arithmetic and LAPACK calls", "src/nx_mat.c, src/nx_svd.c, src/nx_linear_solvers.c")],
  reason="Pure functions of their arguments: no schedule, clock, randomness, I/O, allocation history or fault can change the result, so a simulator has nothing to decide (their use inside robust estimation is covered by C14, memory failure by C09, concurrency by C11).")
N(id="N02", title="SHA-256 digests equal the standard's for every message",
  statement="nx_sha256 and nx_sha256_multi return the FIPS 180-4 digest of the (concatenated) message for every length and split.",
  over=["inputs"], qtext="every message and split", why="The tests hash a few short messages.",
  files=["src/nx_hash_sha256.c"], mech=[("compression function and padding", "src/nx_hash_sha256.c")],
  reason="A pure function of the bytes. What depends on histories and faults - that equal work finds its cache file and different work does not - is C07.")
N(id="N03", title="Drawing calls put the described shapes on the canvas",
  statement="The cairo based drawing context and the image annotator draw the described lines, curves, arcs, text and keypoint marks with the set colours, widths and transformations.",
  over=["inputs"], qtext="every sequence of drawing commands", why="The tests look at file existence only.",
  files=["src/nx_gc_cairo_imp.c", "src/vg_image_annotator.cc"], mech=[("one cairo call per drawing call", "src/nx_gc_cairo_imp.c")],
  reason="Rendering is done by the cairo library from the arguments alone; there is no behaviour of this repository that depends on schedule, time, I/O or faults beyond allocation (C09, C10) and what the tools save (C21).")
N(id="N04", title="OpenGL helpers map buffers, shaders and projections as documented",
  statement="The OpenGL helpers compile and link shader programs, fill buffers and derive projection matrices from pinhole cameras as documented.",
  over=["inputs"], qtext="every driver and call sequence", why="No test covers them.",
  files=["src/GL", "include/virg/nexus/GL"], mech=[("one GL call per helper", "src/GL")],
  reason="Needs a GL context, driver and display outside of the simulated process; once those are stubbed only argument passing remains.")
N(id="N05", title="The Python option parser returns what the command line says",
  statement="virg.nexus.options parses declared options from a list of arguments, applies defaults and reports missing or unknown options like its C counterpart.",
  over=["inputs"], qtext="every option declaration and argument list", why="The tests parse a few command lines.",
  files=["pyvirg/virg/nexus/options.py"], mech=[("single pass over the argument list", "pyvirg/virg/nexus/options.py")],
  reason="Pure Python over a list of strings: no I/O, time, concurrency or fault for a simulator to decide, and no part of the C/C++ process simulated here. The C/C++ parser, whose histories and memory matter, is C18 and C21.")
