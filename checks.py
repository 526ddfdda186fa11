"""What each property's check builds, runs and counts. See DESIGN.md for the reasoning."""
from run_check import *

COMMON_ASSUMPTIONS = ["held on the executions counted here only; nothing is claimed about executions the workload does not produce",
                      "the sanitizer runtimes, the compiler and the harness's own reference models are trusted"]
CHECKS = {}
# a build in which wchar_t has 2 bytes (wide text is UTF-16), as on some platforms the library supports
SHORT_WCHAR = ["-fshort-wchar", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-U_FORTIFY_SOURCE", "-fno-builtin"]

def simple(prop, rule, src=None, flags=None, n=NCPU, need=(), assumptions=(), libs=(), args=(), env=None, technique="ASan+UBSan execution judged by a reference model", level="exploration", note="", wide=False, more=None):
    src = src or prop.lower() + ".cpp"
    def run(ctx):
        jobs = [dict(out="h", srcs=[src], flags=(flags or ASAN) + HDR, libs=libs)]
        if wide: jobs.append(dict(out="w", srcs=[src, "shortwchar.cpp"], flags=(flags or ASAN) + HDR + SHORT_WCHAR, libs=libs, optional=True))
        if more: jobs.append(dict(out="m", srcs=[more[0]], flags=(flags or ASAN) + HDR + more[1], libs=libs, optional=True))
        ex = ctx.compile_all(jobs)
        ctx.shards(ex["h"], n=n, args=args, env=env)
        if "m" in ex: ctx.shards(ex["m"], n=n, args=args, env=env, tag=more[0][:-4])
        if "w" in ex: ctx.shards(ex["w"], n=n, args=args, env=env, tag="short-wchar")
    if wide: rule += " The parts that concern wide text also run in a build in which wchar_t has 2 bytes."
    CHECKS[prop] = dict(run=run, rule=rule, need=list(need), assumptions=list(assumptions), technique=technique, level=level, note=note)

simple("C01", wide=True, rule="Every Unicode scalar value alone and random sequences of boundary-biased scalars, converted between every pair of character types from strings, views and pointers; compared with an independent encoder. Non-trivial: contains a non-ASCII code point or more than one.")
simple("C02", wide=True, rule="Random iterator walks (++ -- += -= + - and reverse iteration) over well-formed texts in exact-size heap blocks, compared with the decoded sequence after every move. Non-trivial: the text has at least one code point.",
       need=["lengths_enumerated", "exact_jumps", "iterator_moves", "negative_jumps", "scalars_in_context", "random_texts", "long_texts"])
simple("C03", wide=True, rule="All 1- and 2-byte UTF-8 strings, 3- and 4-byte strings over the boundary alphabet, every UTF-16 surrogate unit next to boundary units, out-of-range UTF-32 values, and randomly mutated texts, each decoded forwards, backwards, by jumps and through conversions in exact-size heap blocks. Non-trivial: the text is ill-formed.",
       need=["lengths_enumerated", "backward_jumps", "ill_formed", "exhaustive_2_bytes", "random_hostile_texts"])

simple("C04", wide=True, rule="validate_string on all 2-byte and boundary-alphabet 3/4-byte UTF-8 strings, all UTF-16 pairs of boundary units, UTF-32 values aliasing surrogates and randomly mutated texts, compared with the reference decoder's longest well-formed prefix. Non-trivial: non-empty text.",
       need=["lengths_enumerated", "exhaustive_2_bytes", "exhaustive_3_bytes", "exhaustive_4_bytes", "exhaustive_16", "exhaustive_32_surrogate_aliases", "random_texts"])
simple("C05", wide=True, rule="starts_with/ends_with on related and unrelated text pairs in every pair of encodings, string_size, and insertions of valid and invalid code points at every boundary, compared with the decoded sequences. Non-trivial: non-empty text.",
       need=["lengths_enumerated", "starts_true", "starts_false", "ends_true", "ends_false", "insertions", "invalid_rejected", "string_sizes"])
simple("C06", "All 8- and 16-bit code units and all code points (plus values above U+10FFFF) through every examiner, compared with independent definitions. Non-trivial: every value.", need=["bytes", "units", "code_points"])
simple("C07", "All 8/16-bit values and boundary-biased values of every wider integer type under every radix, sign status and separator, into every string type, compared with independent digit arithmetic; the character types, bool and 128-bit integers in GNU mode. Non-trivial: every formatted value.", need=["exhaustive_small_types", "boundary_values", "formatted"], more=("wide_integers.cpp", ["-std=gnu++20"]))
simple("C08", more=("wide_integers.cpp", ["-std=gnu++20", "-DPARSE"]), rule="Round trips, all short texts over a hostile alphabet, overflow-boundary texts and mutated texts under every format; verdict and value compared with an independent recogniser; values of the character types, bool and 128-bit integers in GNU mode. Non-trivial: every text.",
       need=["accepted", "rejected", "rejected_out_of_range", "rejected_negative_unsigned", "boundary_texts", "exhaustive_short_texts", "mutated_texts", "round_trips"])
simple("C09", "Random, boundary and negative values of the three floating-point types under random formats compared with exact digit expansion; exhaustive short texts and mutated texts compared with an independent recogniser. Non-trivial: every text.",
       need=["formatted", "round_trips", "texts_accepted", "texts_rejected", "exhaustive_short_texts", "mutated_texts", "all_target_types"])
simple("C10", "Random constructor/setter/copy histories on the format classes mirrored field by field, every radix, and booleans formatted and parsed with near-miss texts. Non-trivial: every operation.", need=["format_operations", "formatted", "parse_rejected", "radices", "self_assignments"])
simple("C11", "Random histories of reads, writes, seeks, flushes and queries on real files with many buffer capacities and access modes; every observation compared with a byte array with one cursor. Non-trivial: every operation, identified by the history before it.",
       need=["request_sizes", "large_capacities", "other_capacities", "histories", "reads", "writes", "seeks", "flushes", "reads_larger_than_buffer", "writes_larger_than_buffer", "writes_after_a_gap", "go_back", "go_forward", "position_queries", "end_queries_at_end"])
simple("C12", "Random histories over several files and paths (write, flush, close, reopen, move, destroy, streams on top); the disk is inspected through an independent descriptor during and after the operations and must equal the required bytes plus a prefix of the pending ones. Non-trivial: every operation, identified by its history.",
       need=["large_capacities", "other_capacities", "observations", "observations_with_pending_bytes", "flushes", "closes", "reopens", "move_assignments", "move_constructions", "streams"])
simple("C13", "Short transfers, EINTR and permanent errors injected between the library and the kernel: every plan of faults at the first calls for small histories (enumerated), and random plans over random histories on files, standard input and standard output, compared with a byte array. Non-trivial: every operation under a fault plan.", level="fault_enumeration",
       technique="fault injection at the system-call boundary judged by a reference model, ASan+UBSan",
       need=["large_capacities", "other_capacities", "histories_under_faults", "injected_short", "injected_eintr", "enumerated_plans", "reads_failed_for_good", "writes_failed_for_good", "reads_continued_after_failures", "writes_continued_after_failures", "stdin_histories", "stdout_histories"])
simple("C14", env={"ASAN_OPTIONS": san_env()["ASAN_OPTIONS"].replace("hard_rss_limit_mb=3000:", "")},  # its watcher thread opens descriptors of its own
       rule="Random lifecycle histories on several file objects; after each step the process's descriptor table is compared with the set of files that should be open, including descriptors owned by the caller. Non-trivial: every step.",
       need=["descriptor_audits", "audits_with_open_files", "audits_with_caller_descriptors", "forbidden_accesses_rejected", "constructions", "closes", "destructions", "move_assignments", "move_constructions"])
def c15(ctx):
    ex = ctx.compile_all([dict(out="h%d" % p, srcs=["c15.cpp"], flags=ASAN + HDR + ["-DPART=%d" % p]) for p in range(3)] + [dict(out="huge", srcs=["c15_huge.cpp"], flags=ASAN + HDR, optional=True)])
    for p in range(3): ctx.shards(ex["h%d" % p], tag="part%d" % p)
    if "huge" in ex: ctx.shards(ex["huge"], n=1, tag="huge")
CHECKS["C15"] = dict(run=c15, technique="ASan+UBSan execution judged by a reference model", level="exploration", note="", assumptions=[], need=["request_sizes", "large_capacities", "other_capacities", "histories", "reads", "writes", "seeks", "flushes", "external_changes", "copies_and_moves", "transparent_copies_and_moves", "reads_larger_than_buffer", "writes_larger_than_buffer", "writes_after_a_gap"],
    rule="Random histories on opaque and transparent container resources over containers of 1- to 8-byte elements with many buffer capacities, compared with a byte array with one cursor; copies, moves and changes of the container from outside included. Non-trivial: every operation, identified by its history.")
simple("C16", "Random sequences of values of every arithmetic type and endianness written through data output streams over files and containers with many buffer capacities; the stored bytes are compared with an independent encoding and read back through input streams, past the end included; values, blocks, seeks, byte orders and flushes mixed on input/output streams. Non-trivial: every value.",
       need=["block_sizes", "mixed_histories", "mixed_values_read", "mixed_values_written", "streams_copied_or_moved", "large_capacities", "other_capacities", "streams_written", "values_written", "values_read", "reads_past_the_end", "io_streams", "blocks_written", "blocks_read"])
simple("C17", "Every scalar value in every encoding, and random histories of insertions (characters, strings of every type, numbers, booleans, byte order marks, settings changes, flushes) into text output streams; the stored bytes are compared with an independent encoding of the expected text. Non-trivial: every insertion.",
       need=["lengths_enumerated", "streams_copied_or_moved", "long_strings", "large_capacities", "other_capacities", "scalars_enumerated", "edge_insertions", "characters", "strings", "values", "byte_order_marks", "settings_changes", "flushes", "io_streams"])
simple("C18", "Random extraction histories (characters, words, lines, rest, typed values, byte order marks, encoding switches) from text input streams over well-formed, ill-formed and truncated stored texts, compared with an independent decoder and tokenizer; writing, reading and seeking mixed on input/output streams. Non-trivial: every extraction, identified by its history.",
       need=["lengths_enumerated", "mixed_histories", "mixed_lines_read", "mixed_words_read", "mixed_texts_written", "streams_copied_or_moved", "long_texts", "large_capacities", "other_capacities", "histories", "lines_read", "words_read", "remaining_texts_read", "characters_read", "values_read", "values_rejected", "read_bom_calls", "encoding_switches", "ill_formed_texts", "truncated_texts", "scalars_enumerated", "scalars_read_by_read_bom", "read_bom_on_hostile", "lone_cr_probes", "io_streams"])
simple("C19", "All small content size x request size x buffer capacity ratios and random larger ones on files, containers and streams over them; counts, untouched memory, positions and end answers compared with the bytes left. Non-trivial: every read.",
       need=["large_capacities", "other_capacities", "exhaustive_ratios", "reads_at_the_end", "reads_hitting_the_end", "values_past_end", "partial_values", "end_queries", "renamed_files", "unlinked_files", "replaced_files", "directory_changes"])
import c20_ext
def c20(ctx):
    ex = ctx.compile_all([dict(out="h", srcs=["c20.cpp"], flags=ASAN + HDR), dict(out="child", srcs=["c20_child.cpp"], flags=ASAN + HDR)])
    ctx.shards(ex["h"])
    c20_ext.run(ctx, ex["child"])
CHECKS["C20"] = dict(run=c20, technique="trace monitor at the system-call boundary plus external pipe driver, ASan+UBSan", level="exploration", note="", assumptions=["uin is used in UTF-8 or for raw bytes; raw reads may return short counts"],
    need=["request_sizes", "prompt_checks", "stdin_system_reads", "flushes", "lines_read", "words_read", "characters_read", "raw_reads", "large_raw_reads", "sessions_interactive", "sessions_chunks", "sessions_file", "sessions_socket", "answers_sent_after_their_prompt"],
    rule="Random histories of insertions, flushes and reads on uin/uout/uerr with intercepted read/write: at every system-call read all inserted uout bytes must have been written, and the written bytes are always a prefix of the inserted ones; and whole processes driven over pipes, files and sockets whose answers are sent only after the prompt was seen. Non-trivial: every operation (identified by its history) and every session.")
simple("C21", "Rounds of six threads, each with its own texts, formats, files, containers and streams plus shared constant data, running the same part of the library at once or a mix, under ThreadSanitizer; every thread's observations are compared with the same work done alone afterwards. Non-trivial: every section run, identified by its seed.", flags=TSAN,
       technique="ThreadSanitizer plus comparison of concurrent with sequential observations", need=["rounds", "concurrent_jobs", "observations"] + ["sections_" + s for s in "convert iterate strings integers floating_point formats file containers data_streams text_output text_input core examiners".split()],
       assumptions=["ThreadSanitizer reports the races of the schedules that occurred; distinct interleavings are not enumerated"])
import c22_ext
CHECKS["C22"] = dict(run=c22_ext.run, technique="differential runtime monitoring of one workload across build configurations", level="exploration", note="", assumptions=["g++ and clang++ as installed; x86-64 only"],
    need=["configurations_run", "observations_compared", "unit_comparisons", "shared_object_checks", "standard_stream_outputs_compared", "lines_read_before_main", "outputs_of_global_objects"],
    rule="A two-unit program over all three packages built header-only, compiled separately, as a shared library, with g++ and clang++, at several optimisation levels and default buffer capacities; per-section digests, the bytes on the standard streams and the addresses of shared objects are compared. Non-trivial: every digest compared.")
simple("C23", "Test modules of 0 to 65535 tests with random outcomes, stages, names and message traffic, run once or repeatedly, copied or moved; complete output, return value, order of calls and every popped message are compared with a model. Non-trivial: every module run and message operation.",
       need=["modules_run", "tests_run", "failed_tests", "sizes_enumerated", "large_modules", "message_operations", "tests_leaving_messages", "repeated_runs", "all_passed", "all_failed", "log_lines"])
simple("C25", "count_digits on all 8-bit values and all power boundaries of every integer type in every radix, cmp_equal on pairs built around digit boundaries and on arbitrary finite pairs, invert_endianness on all lengths up to 600 and beyond, application life cycles; compared with exact arithmetic. Non-trivial: every call.",
       need=["exhaustive_types", "power_boundaries", "large_radices", "pairs_equal", "pairs_different", "pairs_negative", "wild_pairs", "blocks_inverted", "opposites", "applications", "notices_set"])
simple("C26", "Random histories of reads, writes, flushes and ties on resources derived from input_resource, output_resource and io_resource whose raw operations record every call (sources answering short included), and data and text streams on top; delivered and sent bytes are compared with the source's and the caller's, and at every raw read everything written to the tied resource must have been sent. Resources copied, moved and assigned half way; files and containers tied to files, containers and user-defined outputs, which are inspected after every read that had to reach the source. Non-trivial: every operation, identified by its history.",
       technique="trace monitor inside user-defined resources judged by a byte-sequence model, ASan+UBSan",
       need=["request_sizes", "resources_copied", "resources_moved", "tied_reads_of_files_and_containers", "large_capacities", "other_capacities", "histories", "reads", "writes", "flushes", "raw_reads", "raw_writes", "short_answers", "tie_observations_with_text", "text_streams", "data_streams", "duplex_histories", "duplex_mixed_probes", "duplex_mixed"],
       assumptions=["user-defined raw writes take everything they are given; seekable user-defined resources are not judged"])
import c24_ext
CHECKS["C24"] = dict(run=c24_ext.run, technique="monitor of window events and lifetimes against a model on GTK's broadway backend, ASan+UBSan", level="exploration", note="", assumptions=["GTK 4 on its broadway backend; toolkit events are emitted through GTK's own signals", "only the GTK implementation can be executed here, not the Windows and macOS ones"],
    need=["totals_bounded_below", "histories", "windows_opened", "reopened", "moves_of_open_windows", "move_assignments", "window_objects_destroyed", "key_presses", "key_releases", "keysyms_enumerated", "resizes", "closes_allowed", "closes_vetoed", "runs_with_windows", "updates", "pace_checks", "operations_in_updates", "actions_in_close_handlers", "actions_in_resize_handlers", "actions_in_key_handlers", "bursts_in_handlers", "moves_of_the_active_window", "titles", "key_names"],
    rule="Random histories of opening, showing, hiding, titling, moving, closing (allowed or vetoed), reopening and destroying windows, key, resize and close signals emitted on their native windows, also from inside handlers and updates, and the main loop run to its end; every event, owner and native window's lifetime is compared with a model. Non-trivial: every toolkit event and run.")
