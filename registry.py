"""What each check runs: builds, time budgets (quick, thorough) in seconds over all builds, level and the text of the evidence
and of MANIFEST.json (written by `check.py --manifest`)."""
BASE = ["the oracle observes executions only: inputs outside the generated workloads are not covered",
        "x86_64 Linux, the pinned dependency versions, std's in-memory streams"]
BOTH = ["checked", "release"]
MON = "runtime monitoring: "
PROPS = {
    "P01": dict(level="exploration", builds=BOTH, secs=(40, 3000), assumptions=BASE,
                technique=MON + "round-trip oracle (encode, apply, compare bytes) over generated file pairs and encoder configurations, with a panic monitor and a CPU-time watchdog, in a debug build (overflow checks, debug assertions) and an optimised build",
                note="Every generated pair and configuration must round-trip; pairs and configurations not generated are not covered.",
                rule="generated source/target pairs x generated encoder configurations, encoded and applied with the real code and compared byte for byte; a case is non-trivial when the target is not empty, distinct by hash of (source, target, configuration)",
                require=["roundtrips"]),
    "P02": dict(level="exploration", builds=BOTH, secs=(40, 2400), assumptions=BASE + ["the independent decoder (harness/src/refm.rs) states the format correctly"],
                technique=MON + "every patch the encoder, merger, transcoder and converter write is judged by an independent strict parser and reference decoder written from the specification",
                note="A format deviation in any observed patch is a violation; trusts the independent model of spec.md in refm.rs.",
                rule="patches written by the four producers over generated inputs and options; a case is non-trivial when the patch has operations, distinct by hash of its inputs",
                require=["patches_judged"]),
    "P03": dict(level="exploration", builds=BOTH, secs=(40, 2400), assumptions=BASE + ["the independent builder and decoder (refm.rs) state the format correctly"],
                technique=MON + "patches built freely by an independent builder (every size form, kind, layout, compression, section count, 64-bit offsets on virtual files) are applied and read by the real decoder and compared with the independent decoder",
                note="Differential against an independent decoder; 64-bit source and output offsets are observed through virtual sources and sinks with on-line comparison of every write.",
                rule="free-form valid patches applied and read section by section; distinct by hash of (patch, source)",
                require=["applied", "virtual_outputs", "virtual_sources", "size_forms_checked"]),
    "P04": dict(level="exploration", builds=BOTH, secs=(30, 1500), assumptions=BASE,
                technique=MON + "write-then-read oracle on section headers and operation lists, with a byte counter on the reader that observes exactly how much is consumed",
                note="Both layouts, all operation sizes, addresses over the whole 64-bit range; headers enumerated at their boundary values.",
                rule="generated headers and operation lists, written and read back; distinct by hash of the operations",
                require=["headers_roundtripped", "sections_roundtripped"]),
    "P05": dict(level="exploration", builds=BOTH, secs=(30, 1500), assumptions=BASE,
                technique=MON + "conservation monitor over the section splitter and the section writer: every operation accounted for once, in order; limits and counts recomputed; false headers must be refused",
                note="Limits below, at and above the clamp bounds; operation lists placed so that sums land on and around the limit.",
                rule="generated operation lists x section limits, plus headers that misdescribe the operations; distinct by hash of the list and limit",
                require=["splits_of_long_stretches", "splits", "splits_written"]),
    "P06": dict(level="exploration", builds=BOTH, secs=(40, 2400), assumptions=BASE,
                technique=MON + "the same encode with and without secondary compression is compared section by section and after applying; mixed patches observe where each decompressing reader leaves the stream",
                note="All three algorithms, all levels and options the API exposes, compressed and plain sections mixed in one stream.",
                rule="pairs x configurations x compression settings; distinct by hash of inputs and settings",
                require=["compressed_patches_compared", "mixed_patches"]),
    "P07": dict(level="exploration", builds=BOTH, secs=(40, 2400), assumptions=BASE,
                technique=MON + "a history checker: each chain is applied step by step and as merged patch, by the real decoder and by the independent one, and all results are compared",
                note="Chains of up to a dozen links from the encoder and from the free-form builder, all output options.",
                rule="version histories of 1 to 12 links merged under generated options; distinct by hash of the history",
                require=["merges", "merged_patches_judged"]),
    "P08": dict(level="exploration", builds=BOTH, secs=(30, 1500), assumptions=BASE,
                technique=MON + "an online monitor of the merge protocol: after every step the returned variant is compared with whether the operations resolved so far still copy from a source",
                note="The expected variant comes from an independent byte-origin model of the chain.",
                rule="merge protocols over generated histories, finished at every possible point; distinct by hash of the history",
                require=["mergers_returned", "summaries_returned"]),
    "P09": dict(level="exploration", builds=BOTH, secs=(30, 1500), assumptions=BASE,
                technique=MON + "differential: the original and the transcoded patch are applied to the same source by both decoders, the transcoded one is parsed strictly and the source bytes it reads are recorded and compared",
                note="Free-form and encoder patches, all layouts, algorithms and section sizes; also transcoding the result again.",
                rule="valid patches x output options; distinct by hash of patch and options",
                require=["transcoded", "transcoded_again", "patches_with_long_rows", "far_patches_transcoded"]),
    "P10": dict(level="exploration", builds=BOTH, secs=(60, 3600), assumptions=BASE + ["a case that uses more than its CPU-time limit counts as not terminating"],
                technique=MON + "hostile-input workload (mutated, spliced, truncated, grammar-generated and random patches) against every entry point under a panic, abort, overflow and CPU-time monitor",
                note="Every entry point sees every input; the debug build turns arithmetic overflow into an observable panic.",
                rule="hostile byte strings presented to every patch-reading entry point; distinct by hash of the bytes",
                require=["in_repeated", "calls_ok", "calls_refused"]),
    "P11": dict(level="exploration", builds=BOTH, secs=(40, 1800), assumptions=BASE + ["memory obtained by native codecs outside Rust's allocator is not counted"],
                technique=MON + "an allocation monitor (global allocator with per-thread peak) around every read and apply, compared with a linear bound in the bytes present",
                note="Peak and largest single request are both bounded; hostile claims in every header field and small well-formed bombs.",
                rule="patches whose headers claim far more than they hold, read and applied under the allocation monitor; distinct by hash of the patch",
                require=["calls_measured", "claim_patches"]),
    "P12": dict(level="fault_enumeration", builds=BOTH, secs=(40, 2400), assumptions=BASE,
                technique=MON + "enumerated damage: every proper prefix of a patch, every disagreement of header and operations, every bad reference is applied and must be refused; mutated patches are judged against the independent decoder",
                note="All prefixes of each generated patch are enumerated; corruption that yields another well-formed patch is outside the property (the format has no integrity check).",
                rule="damaged patches applied by the real decoder; distinct by hash of the damaged patch and source",
                require=["prefixes_refused", "inner_injuries_refused", "injuries_refused_by_all_takers"]),
    "P13": dict(level="fault_enumeration", builds=BOTH, secs=(30, 2400), assumptions=BASE + ["flush is not among the failing calls", "for conversion an UnexpectedEof fault is not injected: the VCDIFF reader takes it for the end of the file"],
                technique=MON + "fault enumeration: every read, write and seek an operation makes fails in turn, with a monitor of what the operation returned; chunked and interrupted streams compared with plain ones",
                note="For each generated operation (encode, apply, read, extract, merge, transcode, convert, write, numbers) each I/O call fails once, as an error of several kinds or a write taking nothing.",
                rule="operations x every I/O call failing x chunking schedules; distinct by the operation's description",
                require=["failed_reads_reported", "failed_writes_reported", "failed_seeks_reported", "chunked_runs"]),
    "P14": dict(level="exploration", builds=BOTH, secs=(40, 2400), assumptions=BASE + ["deltas on which RFC 3284 and the pinned vcdiff-reader disagree are recorded findings and kept out of the random workload; periodic copies are generated in that reader's reading"],
                technique=MON + "deltas from an independent VCDIFF builder are converted; the result is parsed strictly, decoded by both decoders and compared with the target the builder computed; standard output and error are captured and must stay empty",
                note="Every opcode both sides agree on, every address mode, window kind and instruction kind crossing the section limit; four disagreements of the VCDIFF reader with RFC 3284 are recorded findings.",
                rule="generated VCDIFF deltas; distinct by hash of delta and source",
                require=["deltas_converted", "conversions_with_output_captured"]),
    "P15": dict(level="exploration", builds=BOTH, secs=(20, 1200), assumptions=BASE,
                technique=MON + "inverse, minimality, truncation and consumption oracles over the public coding functions; all 8- and 16-bit values, blocks of consecutive values from zero and around every power of two, random and malformed byte strings",
                note="Exhaustive for fixed-width values, block-wise exhaustive around every power of two, sampled elsewhere.",
                rule="values and byte strings, each written, read back from exact, truncated and followed input; distinct by hash of the first values of a case",
                require=["unsigned_values", "signed_values", "address_pairs", "non_numbers_refused"]),
    "P16": dict(level="exploration", builds=BOTH, secs=(40, 2400), assumptions=BASE + ["the scheduler decides which interleavings of concurrent calls occur"], extra="p16_processes",
                technique=MON + "repeat-and-compare monitor: the same call again, after other calls, on several threads at once, through other stream types, on files and in other processes and builds must give identical bytes; options are compared before and after",
                note="No shared state is visible in any run; schedules are those the OS produced with barrier-aligned threads.",
                rule="operations x ways of running them; distinct by the operation's description",
                require=["repetitions_compared", "sibling_calls_compared", "families_with_different_results", "concurrent_calls_compared", "file_backed_compared", "reused_configurations_compared"]),
    "P17": dict(level="exploration", builds=BOTH, secs=(30, 1500), assumptions=BASE,
                technique=MON + "extraction, statistics, look-up, slicing and copy resolution are compared with a byte-by-byte model of which operation produces which output byte; all ranges of small patches are enumerated",
                note="Exhaustive over ranges for small operation lists, sampled for large ones, plus patches with offsets near the 64-bit limits. Empty ranges are outside the property.",
                rule="valid patches and operation lists x output ranges; distinct by hash of the patch or list",
                require=["patches_extracted", "ranges_sliced", "positions_looked_up", "lists_with_output_copies_resolved", "operations_clipped", "far_patches", "vast_lists"]),
    "P18": dict(level="exploration", builds=BOTH, secs=(40, 2400),
                assumptions=BASE + ["what a run of the encoder must find is computed from its documented step, window and table size so that chance misses have odds below 1e-10"],
                technique=MON + "targets are assembled from known pieces of random data; the emitted patch is parsed by the independent parser and the bytes it spells out are charged to the pieces that the receiver already holds",
                note="Moved, repeated and edited blocks, every step and level, sources several times the window, self-repeating targets, and data with nothing to share.",
                rule="constructed source/target pairs x configurations; distinct by hash of target and settings",
                require=["patches_weighed", "moved_block_targets", "repeating_targets", "windowed_sources", "incompressible_targets", "slightly_changed_distinct_files"]),
    "P19": dict(level="exploration", builds=["asan", "msan", "tsan", "checked"], secs=(80, 5400), extra="p19_sanitizers",
                assumptions=BASE + ["Miri runs pure Rust stand-ins instead of the native codecs (brotli, zstd compression)", "zstd compression and brotli are observed by the compiler sanitizers only"],
                technique=MON + "compiler sanitizers (address, leak, memory, thread) over library, standard library and native codecs, Miri over the Rust code, the standard library's unsafe-precondition checks and an allocation monitor for leaks, all under the workloads of the other properties",
                note="Every build first runs deliberate errors and must report them. Cases with other threads run under thread sanitizer and Miri.",
                rule="cases of the other properties' workloads, run under each sanitizer with their own oracles switched off; distinct by hash as in the lending property",
                require=["cases_that_met_their_own_oracle", "crowds", "jobs_repeated_for_leaks", "hostile_patches_repeated_for_leaks"]),
    "P20": dict(level="exploration", builds=BOTH, secs=(35, 1500),
                assumptions=BASE + ["memory that native codecs obtain outside Rust's allocator is not counted", "the allowances are several times what the operations, bytes and tables of the data in hand need"],
                technique=MON + "a counting global allocator; the peak of live heap caused by each call is judged against an allowance computed from the files, the largest section or the operation lists in hand",
                note="Small files under settings made for huge ones; patches of up to 20,000 sections; merge chains, writing, transcoding; deltas of more than 60 MB (500 MB of copies) converted.",
                rule="file pairs x settings, patches, operation lists and deltas; distinct by hash of input and settings",
                require=["encodes_measured", "streams_measured", "lists_measured", "conversions_measured"]),
    "P21": dict(level="exploration", builds=BOTH, secs=(35, 1500), assumptions=BASE,
                technique=MON + "metamorphic comparison of runs that differ in one option only: the operations found by an independent parser, or the bytes, have to be the same, or copies of one kind have to be absent",
                note="Encoder, merger and transcoder; defaults, levels, section-size limits, orders of setting. The default of the lazy-match length is left out (its documentation names another number than the code).",
                rule="file pairs and chains x option sets; distinct by hash of files and options",
                require=["packagings_compared", "section_limits_compared", "absent_and_empty_sources_compared", "patches_without_source_matching", "patches_without_target_matching", "naive_tests_that_do_not_apply", "configurations_compared", "outputs_compared", "long_lists_compared", "sections_packed_as_asked"]),
    "P22": dict(level="exploration", builds=BOTH, secs=(25, 1200), assumptions=BASE,
                technique=MON + "counting monitor over transcoded patches: an independent parser splits input and result into rows of additions, rows of runs and copies by output position; each row's operations are counted and each copy compared",
                note="Rows cut anywhere by sections and operations, up to 20,000 operations and some megabytes; counts may not exceed what documented sizes and growing copies need.",
                rule="generated and merged patches x output options; distinct by hash of patch and options",
                require=["compacted", "rows_of_additions", "rows_of_runs", "rows_of_runs_long_enough_for_copies", "copies_kept"]),
    "P23": dict(level="exploration", builds=["release"], secs=(40, 1500),
                assumptions=BASE + ["processor time is measured per thread in the optimised build; a call beyond its allowance is repeated and its best time counts", "the allowances are four times and more what the unchanged tree needs, with all cores busy"],
                technique=MON + "a processor-time monitor around every call on data that is hard on matchers, or of very many operations, sections, windows and instructions, against an allowance in proportion to bytes and operations",
                note="Periodic, low-entropy and self-similar files, up to 9 MB, levels 0-9; lists of up to 300,000 operations and chains of them; the native codecs' own time is left out.",
                rule="file pairs x settings, operation lists, chains and deltas; distinct by hash of input and settings",
                require=["encodes_timed", "encodes_of_rearranged_content", "lists_timed", "merge_steps_timed", "conversions_timed"]),
}
NOT_YET = [f"P{i:02}" for i in range(1, 24) if f"P{i:02}" not in PROPS]
