"""What each property's check runs."""

_ALL = ["mkvmuxer", "mkvparser", "m2ts", "webvtt", "common"]
HARNESSES = {
    "webm": {"main": ["h_webm.cc"], "dirs": ["webm_parser/src"]},
    "mkv": {"main": ["h_mkv.cc"], "dirs": ["mkvparser"]},
    "m2ts": {"main": ["h_m2ts.cc"], "dirs": ["m2ts", "mkvparser", "mkvmuxer", "common"]},
    "vtt": {"main": ["h_vtt.cc"], "dirs": ["webvtt"]},
    "util": {"main": ["h_util.cc"], "dirs": ["mkvmuxer", "mkvparser", "common"]},
    "io": {"main": ["h_io.cc"], "dirs": ["webm_parser/src", "mkvmuxer", "mkvparser"]},
    "tsan": {"main": ["h_tsan.cc"], "mode": "tsan", "libs": ["-lpthread"], "dirs": ["mkvmuxer", "mkvparser", "webm_parser/src", "m2ts", "webvtt", "common"]},
    "ebml": {"main": ["h_ebml.cc"], "dirs": ["mkvmuxer", "mkvparser", "webm_parser/src"]},
    "tools": {"main": ["h_tools.cc"], "dirs": _ALL, "tools": {
        "mkvmuxer_sample": {"main": ["mkvmuxer_sample.cc", "sample_muxer_metadata.cc"], "dirs": _ALL},
        "mkvparser_sample": {"main": ["mkvparser_sample.cc"], "dirs": _ALL},
        "webm_info": {"main": ["webm_info.cc"], "dirs": _ALL},
        "vttdemux": {"main": ["vttdemux.cc"], "dirs": _ALL},
        "dumpvtt": {"main": ["dumpvtt.cc"], "dirs": _ALL},
        "webm2pes": {"main": ["m2ts/webm2pes_main.cc"], "dirs": _ALL},
        "webm2ts": {"main": ["m2ts/vpxpes2ts_main.cc"], "dirs": _ALL},
        "webm_parser_demo": {"main": ["webm_parser/demo/demo.cc"], "dirs": ["webm_parser/src"]},
    }},
    "mux": {"main": ["h_mux.cc"], "dirs": ["mkvmuxer", "mkvparser"]},
}

_DOC = "random well-formed WebM/Matroska documents built by an independent EBML writer (random element sets, orders, size and integer widths, unknown sizes, Void and unknown elements, all lacings)"

_MUX = "random muxing runs (modes, options, 1-12 tracks, metadata, all frame interfaces, up to 90 frames with gaps and edge sizes)"

PROPS = {
    "C01": {"harness": "mkv", "quick": 60000, "need": ["loaded", "growing", "faulty", "frames_read", "seeks", "cues", "clusters_loaded", "clusters_parsed_next"],
            "rule": "random bytes, byte- and tree-mutated documents, truncations and element soup, opened at once, growing, or with injected read faults; every query used in random order under ASan+UBSan+LSan with asserts on; non-trivial = distinct input whose walk reached more than one block"},
    "C02": {"harness": "mkv", "quick": 60000, "need": ["full_loads", "header_loads", "colours", "projections", "encodings", "chapters", "tags", "seekheads"],
            "rule": _DOC + "; everything the parser reports is compared with the generated tree; non-trivial = distinct expected view"},
    "C03": {"harness": "mkv", "quick": 40000, "need": ["frames", "blocks", "track_steps", "lace0", "lace1", "lace2", "lace3", "padded", "durations"],
            "rule": _DOC + "; the cluster walk and every per-track walk are compared block by block and frame by frame with the generated tree; non-trivial = distinct sequence of block kinds"},
    "C04": {"harness": "mkv", "quick": 40000, "need": ["find_cluster", "seeks", "video_seeks", "cue_finds", "cue_blocks", "cue_by_time", "preloaded", "follow_preloaded", "follow_loaded", "stepwise_loads", "full", "partial", "parse_next_preloaded"],
            "rule": _DOC + " in time order; random interleavings of cluster and cue loading, preloading, lookups and seeks, each answer compared with the generated tree; non-trivial = distinct document and operation sequence"},
    "C05": {"harness": "mkv", "quick": 40000, "need": ["grows", "drip_runs", "asked", "underflows", "blocks_parsed", "parse_next_runs", "preload_runs", "track_runs", "policy0", "policy1", "policy2", "policy3", "total_known", "total_unknown"],
            "rule": _DOC + " that arrive byte by byte, in random pieces or exactly as asked, loaded by LoadCluster, ParseNext or a track walk; every request, intermediate block and the final state are checked; non-trivial = distinct document and number of arrivals"},
    "C16": {"harness": "webm", "quick": 60000, "need": ["recoveries", "callbacks"],
            "rule": "random bytes, byte- and tree-mutated documents and element soup, fed through split/would-block readers to callbacks with random skips, failures and reading styles, under ASan+UBSan+LSan; non-trivial = distinct input causing more than 3 callbacks"},
    "C17": {"harness": "webm", "quick": 24000, "need": ["ev:FRAME", "ev:BGE", "ev:TAG", "ev:CUE", "ev:TRACK", "ev:EDITION", "ev:UNK", "ev:VOID", "ev:SEEK"],
            "rule": _DOC + "; the recorded event log is compared with a reference walk of the document tree; non-trivial = distinct set and number of event kinds"},
    "C18": {"harness": "webm", "quick": 6000, "need": ["would_blocks", "partial_reads", "callback_suspensions", "callback_exceptions", "docs_damaged", "docs_wellformed"],
            "rule": _DOC + ", a quarter of them damaged; each parsed uninterrupted and with 4 delivery/suspension schedules whose logs must be equal; non-trivial = distinct event profile"},
    "C19": {"harness": "webm", "quick": 6000, "need": ["seeks", "histories"],
            "rule": _DOC + "; 6 seeks per document to random elements, after random histories, checked against a reference walk from that element; non-trivial = distinct (element, depth, number of events)"},
    "C20": {"harness": "webm", "quick": 10000, "need": ["skips", "suspensions", "exceptions", "failed_callbacks"],
            "rule": _DOC + " parsed with random skip decisions, callback suspensions, exceptions and one permanent failure at a random callback, checked against a reference walk making the same decisions; non-trivial = distinct event profile with at least one skip"},
    "C21": {"harness": "webm", "quick": 2000, "need": ["truncations", "corruptions", "partial_cuts", "complete_cuts", "corrupt:lace sum", "corrupt:lace below zero", "corrupt:unknown element of unknown size", "corrupt:skipped block within header", "corrupt:block within header", "corrupt:nesting", "corrupt:overflow", "corrupt:bad id", "corrupt:bad size", "corrupt:int>8", "corrupt:float size", "corrupt:bool value"],
            "rule": _DOC + ", truncated at sampled (small documents: all) byte positions, and with one element corrupted in a way that has a defined status; non-trivial = distinct (corruption, element, parent) or event profile"},
    "C06": {"harness": "mux", "quick": 60000, "need": ["files", "files_live", "files_accurate", "notifications"], "rule": _MUX + "; every byte written is parsed by an independent strict EBML reader and checked against the schema; non-trivial = distinct (options, track kinds, clusters, blocks)"},
    "C07": {"harness": "mux", "quick": 60000, "need": ["frames", "simple_blocks", "block_groups", "discard_paddings", "additionals", "durations", "files_accurate", "direct_clusters"], "rule": _MUX + "; the blocks found by an independent reader are matched one to one with the accepted frames"},
    "C08": {"harness": "mux", "quick": 60000, "need": ["compared_info", "compared_tracks", "compared_chapters", "compared_tags", "mkvparser_agreed", "getter_runs", "ebml_headers"], "rule": _MUX + " with all metadata setters; the element tree found by an independent reader and the view of the project's parser are compared with what was set"},
    "C09": {"harness": "mux", "quick": 60000, "need": ["seek_entries", "cue_points", "direct_cues"], "rule": _MUX + "; every seek-head entry and cue point is followed in the output and compared with a model"},
    "C10": {"harness": "mux", "quick": 60000, "need": ["clusters", "durations_set", "durations_estimated", "durations_plain"], "rule": _MUX + "; cluster boundaries, timestamps, block placement and duration are compared with an executable model of the documented rules"},
    "C11": {"harness": "mux", "quick": 2500, "need": ["faults_write", "faults_sticky", "faults_transient", "faults_move", "faults_read"], "rule": _MUX + "; every (or 150 sampled) writer operation of the run is failed in turn, once or permanently, under ASan/LSan"},
    "C12": {"harness": "mux", "quick": 30000, "need": ["live_runs", "file_runs", "live_seekable_runs"], "rule": _MUX + " on a writer that cannot seek; the write log and the output are checked and compared with the seekable run"},
    "C13": {"harness": "mux", "quick": 20000, "need": ["moves", "cue_points", "unseekable_targets"], "rule": _MUX + "; the original and the cue-moved copy are compared element by element"},
    "C14": {"harness": "mux", "quick": 25000, "need": ["runs", "chunks", "cues_files"], "rule": _MUX + " with chunk files in a scratch directory; the concatenation is compared with the unchunked output"},
    "C15": {"harness": "mux", "quick": 40000, "need": ["determinism_pairs", "runs_with_bad", "invalid_configurations"], "rule": _MUX + " interleaved with refused requests of 27 kinds; outputs are compared byte for byte"},
    "C22": {"harness": "m2ts", "quick": 30000, "need": ["frames_direct", "superframes", "fragments", "emulation_bytes", "movies", "movie_frames", "receiver_failures", "io_errors", "hostile", "unsupported"],
            "rule": "random frames (sizes around every length limit, contents dense in 0/1/3, superframes of 1-8) converted one at a time and from generated WebM files with random track layouts and lacing; the output is taken apart by an independent PES reader; non-trivial = distinct frame or file"},
    "C23": {"harness": "m2ts", "quick": 80000, "need": ["packets", "reassembled", "from_converter", "from_reference", "hostile", "hostile_packets", "open_failures", "defect_cut", "defect_magic", "defect_length"],
            "rule": "PES files from the converter and from an independent PES writer, and damaged ones, parsed under ASan+UBSan; every header, time and payload is compared with what was written; non-trivial = distinct file"},
    "C24": {"harness": "m2ts", "quick": 20000, "need": ["movies", "frames", "ts_packets", "adaptations", "residue0", "residue1", "residue182", "residue183", "io_errors", "unsupported"],
            "rule": "generated WebM files converted to transport streams that an independent reader takes apart and compares with the PES packets; non-trivial = distinct file"},
    "C25": {"harness": "vtt", "quick": 200000, "need": ["valid", "cues", "files", "bom", "seconds_only", "eol0", "eol1", "eol2", "eol3", "time_checks", "reader_errors", "truncations", "hostile", "invalid:timing", "invalid:header", "invalid:no_payload", "invalid:long_line"],
            "rule": "generated WebVTT streams (all line endings, time forms, settings), single defects, reader errors and truncations at random bytes, and hostile text; every cue compared with the generated one; non-trivial = distinct stream"},
    "C26": {"harness": "util", "quick": 400000, "need": ["headers", "key_frames", "intra_only_frames", "inter_frames", "size_from_reference", "show_existing", "segmented", "defects", "indexes", "no_index", "bad_indexes", "hostile_headers", "hostile_accepted", "tile_cols_64"],
            "rule": "sequences of uncompressed headers written bit by bit from the VP9 specification (all profiles, frame types, tile layouts), wrong sync codes and markers, superframe indexes of every shape, correct and damaged, and hostile bytes in exactly sized buffers; non-trivial = distinct header sequence, index or hostile input"},
    "C27": {"harness": "util", "quick": 400000, "need": ["checks", "durations_set", "last_estimated", "level_0", "level_10", "level_11", "level_20", "level_21", "level_30", "level_31", "level_40", "level_41", "level_50", "level_51", "level_52", "level_60", "level_61", "level_62"],
            "rule": "frame sequences around the limits of each level (size, rate, bitrate, buffer, compression, tiles, altref distance, references); every statistic is recomputed from its definition and the level from the published table; non-trivial = distinct statistics and level"},
    "C28": {"harness": "util", "quick": 600000, "need": ["to_ticks", "to_ns", "orders", "private_ok", "private_bad", "colours", "colours_mastering", "frames", "words", "files", "failed_writes"],
            "rule": "random and boundary values through every helper, compared with exact arithmetic, a reference codec-private reader and the values given; non-trivial = distinct input"},
    "C29": {"harness": "ebml", "quick": 400000, "need": ["uints", "uints_refused", "ints", "floats", "dates", "strings", "binaries", "huge_binaries", "coded", "coded_refused", "masters", "ids", "voids", "voids_refused", "raws", "hostile_reads", "faults", "matches"],
            "rule": "random and boundary values through every writing primitive, compared byte for byte with an independent encoder and read back with the file parser's primitives and the streaming parser; non-trivial = distinct value and width"},
    "C31": {"harness": "io", "quick": 60000, "need": ["reads", "short_reads", "skips", "skips_past_end", "seeks", "seeks_refused", "moves", "faults", "parses", "parses_with_skips", "reader_buffer", "reader_file", "reader_pipe", "reader_cookie", "reader_istringstream", "reader_ifstream", "reader_istream_pipe", "mkvreader_reads", "mkvreader_outside", "mkvreader_files", "mkvreader_pipes", "mkvreader_odd", "truncated_under", "writes", "writer_seeks", "writer_files", "writes_to_full", "files_compared"],
            "rule": "random sequences of reads, skips, seeks, moves, writes and repositioning with edge lengths and offsets on memory, regular files, pipes, streams and failing FILEs, compared with a model of the bytes, and the same (damaged) documents parsed through every reader; non-trivial = distinct history"},
    "C30": {"harness": "tsan", "quick": 4000, "chunk": 60, "need": ["interleaved_runs", "switches", "task_mux", "task_mkv", "task_webm", "task_vtt", "task_pes", "task_ts", "task_vp9", "task_hdr", "task_files"],
            "rule": "2-6 threads that mux, parse, convert and classify independent inputs with random yields inside readers and writers, under ThreadSanitizer; every result is compared with the same work done alone; non-trivial = distinct interleaving of the yield points"},
    "C32": {"harness": "tools", "quick": 12000, "chunk": 100, "need": ["remuxes", "remux_frames", "remux_chunked", "remux_tags", "remux_chapters", "remux_durations", "remux_with_cues", "remux_cues_first", "remux_cues", "extracted_files", "extracted_cues", "infos", "info_blocks", "info_cues", "info_seeks", "info_vp8", "info_vp9", "info_packed", "info_encrypted", "info_partitions", "printed", "printed_cues", "printed_tags", "dumped_cues", "conversions", "demo_lines", "hostile", "hostile_vtt"],
            "rule": "the tools built from the tree under ASan+UBSan and run on generated files with random option combinations: remuxed files, embedded and extracted WebVTT, printed descriptions and conversions are compared with what an independent reader finds in the input; damaged files, odd values and hostile WebVTT must end with exit status 0 or 1; non-trivial = distinct input and options"},
}
