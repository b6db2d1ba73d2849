#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                    "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None},
    })

prop("C01", "Splitting a stream into log lines is exact and lossless",
 "For any byte stream the line reader yields, in order and byte for byte, exactly the non-empty pieces found between separators: the newline, the two-character escape sequence backslash-n (a backslash that is itself escaped does not start one) and, in JSON mode, the characters , [ ] { } outside double-quoted strings. Only pieces longer than 6000 bytes are left out; every other piece is kept, whatever precedes or follows it. Nothing is lost, duplicated, merged, altered or invented.",
 ["inputs"], "All byte streams (valid UTF-8 or not), of any length, in plain and JSON mode, with separators and over-long pieces anywhere relative to the 8 KiB read buffer.",
 "Two tests feed two tiny strings that fit one buffer and have no over-long piece; the buffer refill, reclaim and discard paths are never executed.",
 ["iterator/src/iterator.rs"],
 [("separator scan with escape and JSON-string state", "iterator/src/iterator.rs find_next_line, match_json_kv"), ("buffer refill and discard of over-long pieces", "iterator/src/iterator.rs read_slice, get_slice, drop_until_next_line")],
 ["items of BytesLines::new(reader, json)"],
 [("buf/prev_pos/escaped", "unread bytes, scan position and pending backslash", "iterator/src/iterator.rs struct BytesLines")])

prop("C02", "Every line carries its physical line number",
 "Each piece yielded by the line reader carries the 1-based number of the physical (newline-separated) line it comes from. Pieces of one physical line share its number, and blank lines, lines ending in a backslash and over-long discarded lines each count once. The number is therefore the one an editor shows for that text.",
 ["inputs"], "All byte streams, both modes, any mixture of blank, over-long, escaped and sub-divided lines.",
 "The tests check numbering on one 4-line and one 2-line input; none has a blank line, a trailing backslash, a discarded line or a line after the first buffer.",
 ["iterator/src/iterator.rs"],
 [("counter advanced only when the previous separator was a newline", "iterator/src/iterator.rs update_line_counter")],
 ["second component of the items of BytesLines"],
 [("line_count/state", "number of the current line, last separator", "iterator/src/iterator.rs struct BytesLines")])

prop("C03", "Reading does not depend on delivery and survives any stream",
 "The lines produced for a stream are the same however the underlying reader fragments it into short reads. When the reader returns an error, that error is handed to the consumer once, no byte is invented, and if the reader recovers the remaining lines follow as if the error had not happened. Extreme streams (millions of consecutive separators, unterminated lines of many megabytes) are processed to the end without crashing or exhausting the stack, holding a bounded amount of memory whatever the length of the stream.",
 ["inputs", "schedules", "fault_sequences"], "All byte streams x all sequences of read sizes x all positions of injected read errors.",
 "Tests only read from an in-memory cursor that delivers everything in one read and never fails, on inputs shorter than 60 bytes.",
 ["iterator/src/iterator.rs"],
 [("state kept between reads (left-over bytes, pending backslash)", "iterator/src/iterator.rs read_slice"), ("error propagation", "iterator/src/iterator.rs read_slice, drop_until_next_line")],
 ["items of BytesLines over a fault-injecting reader"])

prop("C04", "Tokenizing is total, pure and bounded",
 "Tokenizing any string of up to the 6000 bytes that the line reader lets through returns normally: it never panics or overflows the stack, and the result depends on the text alone, not on earlier calls or on concurrent ones. The result has no leading or trailing white space and its size is at most linear in the size of the input.",
 ["inputs", "histories"], "All UTF-8 strings up to the 6000-byte line limit, including control characters, nested separators, unbalanced quotes and multi-byte characters; all call orders and concurrent calls.",
 "About 60 fixed ASCII lines; no adversarial nesting, multi-byte text or long words.",
 ["tokenizer/src/tokenizer.rs"],
 [("recursive word decomposition on sub-slices", "tokenizer/src/tokenizer.rs do_process"), ("entry point", "tokenizer/src/tokenizer.rs process")],
 ["process(line)"])

prop("C05", "Varying values do not change the tokens of a line",
 "Two lines that differ only in the value of a varying element give identical tokens. Varying elements are: digits replaced one for one by other digits, and whole words that are week-day or month names, hexadecimal ids (UUIDs, MAC and IP addresses, timestamps, hex numbers), urls, hash digests (md5:, sha256:, 64 or more token characters), base64 blobs (long, or padded with = signs), request cookies (req-, tx, tap, AUTH_, gAAAA), temporary paths, git refs, process ids in brackets, and the alphanumeric value given to a key naming an id, key, ref, region, token, secret or password (replaced by one of the same length). A word with a run of 64 or more token characters counts as a digest before anything else.",
 ["inputs"], "All surrounding lines x all pairs of values of the same class, wrapped or not in quotes and punctuation.",
 "A few dozen hand-written pairs; the claim is a relation over all values of each class and all contexts.",
 ["tokenizer/src/tokenizer.rs"],
 [("literal classes", "tokenizer/src/tokenizer.rs parse_literal and the is_* predicates"), ("number removal", "tokenizer/src/tokenizer.rs remove_numbers"), ("key/value handling", "tokenizer/src/tokenizer.rs is_key_value, is_key_for_id")],
 ["process(a) == process(b)"])

prop("C06", "Words that carry meaning survive tokenizing",
 "Outside lines matched by the documented skip rules (single-word lines and the listed noise patterns), every ordinary alphabetic word of more than three letters appears unchanged in the tokens, in order and unaffected by the other words of the line, by extra spaces, tabs or escaped line returns between the words or around the line, or by surrounding quotes and brackets. The same goes for each word of a group joined by slashes, pipes, a colon, an equals sign, an at sign, brackets or up to three dashes (unless the group is itself a varying element, such as a long run of letters and slashes or the value of a key naming an id), and an identifier of up to 31 characters joined by dots or underscores is kept whole. Error keywords (error, fatal, failure, failed, warning, denied, assert, exception, traceback... in any case) are always kept and weighted by five tokens. Hence two lines that differ in such a word have different tokens. A line matched by a skip rule gives a skip token alone, and a line that only resembles one (the pattern broken by one character) keeps its words.",
 ["inputs"], "All lines assembled from ordinary words, error keywords and varying elements, in any order, spacing and quoting.",
 "Tests pin the tokens of about 25 literal lines; they cannot show that no word is dropped or that words do not influence one another.",
 ["tokenizer/src/tokenizer.rs"],
 [("word splitting and trimming", "tokenizer/src/tokenizer.rs words, trim_quote_and_punctuation"), ("error weighting", "tokenizer/src/tokenizer.rs is_error, push_error"), ("skip rules", "tokenizer/src/tokenizer.rs global_filter")],
 ["process(line)"])

prop("C07", "Line distance is the cosine distance over distinct words",
 "The distance of a line to a baseline is one minus the best cosine similarity between the set of space-separated words of the line and that of each baseline line (word order and repetition do not matter; words are compared by hash). It lies between 0 and 1, is 0 (up to rounding) for a line whose set of words is in the baseline, and is 1 when the baseline is empty or shares no word with it.",
 ["inputs"], "All baselines (including empty) and all lines, over any vocabulary free of hash collisions for the exact value, over arbitrary text for range and self-distance.",
 "Tests compare two or three sentences; range, self-distance and the exact value are claims over all line sets.",
 ["index/src/index.rs"],
 [("hashing vectorizer", "index/src/index.rs vectorize"), ("similarity and search", "index/src/index.rs similarity, search, cosine_distance")],
 ["index/search, index_mat/search_mat, search_mat_chunk results"])

prop("C08", "All index implementations agree and chunking is invisible",
 "For the same baseline and target lines, the per-line search, the matrix search and the chunked matrix search return the same distances (within 1e-4), one per target and in target order. Splitting the baseline into chunks in any way, reordering or duplicating baseline lines, saving and reloading a matrix, and batching the targets differently never change the distances. Adding baseline lines never increases a distance.",
 ["inputs", "configurations"], "All baselines, all partitions of them in chunks, all permutations and batches of targets, sizes from zero upward.",
 "One test compares two implementations on three baseline lines held in a single chunk.",
 ["index/src/index.rs"],
 [("row-normalised sparse matrices and column-wise minimum", "index/src/index.rs create_mat, cosine_distance, cosine_distance_chunk"), ("matrix (de)serialisation", "index/src/index.rs save_mat, load_mat")],
 ["search, search_mat, search_mat_chunk, save_mat/load_mat"])

prop("C09", "Lines known from the baseline are never reported",
 "A target whose lines all occur in the baseline of its group, in any order, repeated any number of times, or differing only by varying values, yields no anomaly. This holds for any number of lines and baseline sources, and for plain and JSON content; in particular comparing any readable log with itself reports nothing, and neither does a target directory made of files of the baselines, whatever other files (plain, JSON, rotated, compressed) share their group.",
 ["inputs", "configurations"], "All baselines (one or many sources) and all targets drawn from their lines, of any length relative to the 512-line chunks.",
 "Two unit tests use six lines, far below one chunk, one source and no JSON.",
 ["model/src/process.rs", "model/src/model.rs"],
 [("training on unique tokenized lines by chunk", "model/src/process.rs ChunkTrainer"), ("search of unique lines by chunk and threshold", "model/src/process.rs ChunkProcessor")],
 ["anomalies returned by ChunkProcessor, Index::inspect and Model::report"])

prop("C10", "Exactly the unknown lines are reported, once, with text and position",
 "Inspecting a target reports, in order, exactly the lines whose distance to the baseline is greater than 0.3, each the first time its tokens are seen, with the raw text, the physical line number and the distance of that line. Nothing else is reported and no such line is missed, whatever its position and the number of lines, duplicates and other anomalies around it. The line and byte counts equal the number and total size of the lines read.",
 ["inputs", "histories"], "All target logs, from empty to many thousands of lines (beyond the 512-unique-line and 5120-buffered-line chunk limits), all baselines, any already-seen set carried from earlier sources of the group.",
 "The single test has two anomalies in six lines; nothing crosses a chunk.",
 ["model/src/process.rs"],
 [("matching of distances with buffered raw lines", "model/src/process.rs do_search_anomalies"), ("chunking and de-duplication", "model/src/process.rs read_anomalies")],
 ["AnomalyContext.anomaly of every item, processor line_count and byte_count"],
 [("buffer/targets/targets_coord/skip_lines", "raw lines of the chunk, unique tokenized lines and their coordinates, tokens seen", "model/src/process.rs struct ChunkProcessor")])

prop("C11", "Anomaly context is exactly the surrounding lines, never shown twice",
 "Each anomaly carries up to three lines that follow it, stopping before the next anomaly, and up to three lines that precede it, leaving out lines already shown with the previous anomaly. The context lines are the raw, consecutive neighbours of the anomaly, in file order. This holds wherever the anomaly lies, including next to a chunk boundary, among duplicates, and at the start or end of the file.",
 ["inputs"], "All placements of anomalies, known lines and duplicate lines, in particular around multiples of 512 unique lines and of 5120 buffered lines.",
 "One test covers contexts within a single six-line chunk, another calls the helper on five lines.",
 ["model/src/process.rs"],
 [("before/after collection and carry-over between chunks", "model/src/process.rs do_search_anomalies, collect_before, reset")],
 ["AnomalyContext.before / .after"],
 [("left_overs/current_anomaly", "context carried over a chunk boundary", "model/src/process.rs struct ChunkProcessor")])

prop("C12", "A failing or self-produced tail never hides what precedes it",
 "Inspection stops at the first line containing the tool's own task banner (TASK [log-classify): that line and everything after it is never reported nor used as context, and all anomalies before it are reported as usual. When reading fails midway (read error or invalid UTF-8), every anomaly located before the failure is still reported, the failure is reported once, and it comes after those anomalies.",
 ["inputs", "fault_sequences"], "All targets, all positions of the banner or of the failing read or invalid byte, with any number of chunks before it.",
 "No test contains the banner or a failing reader.",
 ["model/src/process.rs"],
 [("banner check and end-of-input flush", "model/src/process.rs read_anomalies"), ("iterator protocol", "model/src/process.rs impl Iterator for ChunkProcessor")],
 ["sequence of Ok/Err items of ChunkProcessor"])

prop("C13", "Saved models and reports reload to the same thing",
 "A model that is saved and loaded again gives the same baselines, indexes and anomalies for every target as the original, and a report that is saved and loaded is identical. Loading a file that was truncated or altered at any point, or that is not such a file, fails with an error or yields the identical content; it never panics and never yields partial content.",
 ["inputs", "crash_points"], "All models and reports, all truncation points and byte alterations of their files, arbitrary foreign files.",
 "No test saves or loads a model or a report.",
 ["model/src/model.rs", "index/src/index.rs"],
 [("compressed serialisation", "model/src/model.rs Model::save/load, Report::save/load")],
 ["Model::save/load, Report::save/load, Model::report on both"])

prop("C14", "Saving reports success only when the whole file is on disk",
 "Saving a model or a report returns success only if the complete file has been written: if the device is full or the file size limit is hit at any byte, the save returns an error. A file whose save returned success can always be loaded back.",
 ["fault_sequences", "crash_points"], "All models and reports x every byte offset at which writing starts to fail.",
 "No test saves anything, let alone with write faults.",
 ["model/src/model.rs"],
 [("flush of the compressed stream before returning", "model/src/model.rs Model::save, Report::save")],
 ["result of save against the file content"])

prop("C15", "Directory targets cover exactly their regular log files",
 "The sources of a local directory are exactly the regular files below it at any depth, each once, except files with an excluded extension or name (the fixed list of binary, font, configuration and tool-output suffixes, with or without .gz) and files below an /etc/ directory; symbolic links are not followed. Each source displays its path relative to the directory. A directory without usable source is an error, and file names that are not UTF-8 or otherwise unusual never crash the listing or the analysis.",
 ["inputs", "configurations"], "All directory trees: nesting, empty directories, links, excluded and look-alike names, unusual bytes in names.",
 "No test lists a directory; one test groups a fixed list of path strings.",
 ["model/src/files.rs", "model/src/model.rs"],
 [("tree walk", "model/src/files.rs dir_iter, keep_path"), ("exclusion list", "model/src/model.rs Source::is_valid"), ("relative name", "model/src/model.rs Source::get_relative")],
 ["Content::from_path(..).get_sources(), group_sources"])

prop("C16", "Sources of the same kind share an index, others do not",
 "The index of a source depends only on its file name and the name of its directory. Variants of a log that differ by an appended number or date suffix, by .gz, or by the value of the digits in their name share one index, as do pods of one service, and a directory named by a seven-digit lower-case hex hash is ignored in favour of its parent. Logs whose directory or file names differ in their letters get different indexes (except for k8s/pvc/pod/qemu instances), and grouping puts every source in exactly one group.",
 ["inputs"], "All relative paths built from directory names, hash directories, file stems, extensions and rotation suffixes; all sets of sources.",
 "Eight literal paths and one fixed listing.",
 ["model/src/files.rs", "model/src/model.rs"],
 [("name normalisation", "model/src/files.rs IndexName::from_path, is_small_hash, is_k8s_service, take_until_pod_uuid"), ("grouping", "model/src/model.rs Content::group_sources")],
 ["IndexName::from_path, Content::group_sources"])

prop("C17", "Compressed files are analysed like their plain content",
 "A local file whose name ends in .gz is decompressed transparently: training on it or inspecting it gives the same anomalies, contexts, line numbers and counts as the plain file with the same content. A damaged or truncated compressed file is reported as a read error for that source after what precedes the damage has been analysed.",
 ["inputs", "fault_sequences"], "All contents, compression levels and truncation points, as baseline and as target.",
 "No test opens a compressed file.",
 ["model/src/reader.rs", "model/src/files.rs"],
 [("choice of decoder from the file extension", "model/src/reader.rs from_path")],
 ["Source::file_open, Model::report on .gz and plain trees"])

prop("C18", "A report accounts for every source and isolates failures",
 "In a report every source of the target is either analysed, listed as having no baseline index, or listed once as a read error; a source that cannot be opened or read does not prevent the others from being analysed. The totals equal the sums over the analysed sources, each listed source has at least one anomaly and its own counts, and the index of each listed source is described. The report carries the target and the baselines it was given. A baseline file whose reading fails midway does not prevent the training: its lines before the failure, and those of the other files, are known. When the model has a single index it is used for every source, otherwise only sources of the same kind are compared.",
 ["inputs", "fault_sequences"], "All target trees and models, with any subset of unreadable sources.",
 "No test creates a report.",
 ["model/src/model.rs"],
 [("per-source loop and error lists", "model/src/model.rs Model::report"), ("index lookup", "model/src/model.rs lookup_or_single")],
 ["fields of Report"])

prop("C19", "The HTML report shows the findings faithfully and safely",
 "Rendering any report succeeds, and the page shows every anomaly and context line of every source verbatim with its line number (and the distance of the anomalies) and every file name, in report order, with a separator between non-adjacent anomalies of a file, the number of anomalies and the index name of each file, and the target, baselines and totals of the report. Text coming from logs, file names or urls never alters the markup of the page: it is escaped in both text and attributes, so decoding the page gives back the original text.",
 ["inputs"], "All reports: lines with any characters including markup, quotes and control characters; any positions, distances, context sizes, source names.",
 "The report crate has no test.",
 ["report/src/report.rs"],
 [("line rendering", "report/src/report.rs render_lines, render_context"), ("page structure", "report/src/report.rs add_head, add_container, render_content_report, table")],
 ["logreduce_report::render(report)"])

prop("C20", "The command line prints exactly the findings with right line numbers",
 "Comparing local files or directories on the command line prints, for each source, the same anomalies and contexts as the library finds, in order, each line prefixed by its line number (context lines are numbered consecutively around the anomaly), with a separator between non-adjacent anomalies. Sources that cannot be read or have no baseline are named in the output and do not stop the analysis of the others. Errors in the arguments of the implemented commands give an error message and a non-zero exit status, never a panic; a remote source that is refused is a source that cannot be read. On a terminal the same findings are printed, followed by a summary with the number of lines read and of anomalies; the debug commands print the lines, tokens, index names and groups that the library computes.",
 ["inputs", "configurations"], "All pairs of baseline and target files or directories; all argument strings.",
 "The command line program has no test.",
 ["cli/src/main.rs"],
 [("live output", "cli/src/main.rs process_live"), ("argument handling", "cli/src/main.rs Cli::run, process")],
 ["stdout and exit status of the logreduce program"])

prop("C21", "Trained, saved and direct analyses agree on the command line",
 "Training a model to a file and then analysing with that file gives the same output as analysing directly against the same baselines; an analysis given a model path that does not exist creates it, one that exists is used unchanged, and giving both baselines and an existing model is refused. The discovered baseline of a file is the file with .0 appended. The dataset evaluation succeeds exactly when the anomalies found are, in order and number, the expected ones.",
 ["inputs", "histories"], "All sequences of train/analyse/report commands over generated baselines and targets; all datasets.",
 "The command line program has no test.",
 ["cli/src/main.rs", "cli/src/dataset.rs", "model/src/files.rs"],
 [("model load/save decision", "cli/src/main.rs process"), ("dataset comparison", "cli/src/dataset.rs process"), ("baseline discovery", "model/src/files.rs discover_baselines_from_path")],
 ["stdout, exit status and files written by the logreduce program"])

prop("C22", "The cache gives back exactly what was stored",
 "For any sequence of operations, the cache returns for each url the content, listing or availability that was stored for it, byte for byte and independently of every other entry, and returns nothing for what was never stored or has been dropped. Availability is stored once per url. While content is being stored the consumer receives exactly the remote bytes. Storing an entry that already exists is refused and leaves the existing one intact.",
 ["histories", "inputs"], "All sequences of store, read and drop operations over several base and entry urls, all contents and read sizes, through one or several handles.",
 "Two tests each store and read one entry.",
 ["cache/src/cache.rs"],
 [("entry names derived from kind, base and url", "cache/src/cache.rs mod filename"), ("tee reader", "cache/src/cache.rs CacheReader"), ("existence check", "cache/src/cache.rs Cache::get, create")],
 ["Cache::remote_add/remote_get/remote_drop/httpdir_*/head*"])

prop("C23", "Interrupted downloads are never served from the cache as complete",
 "If storing remote content is interrupted at any point (the consumer stops early, the remote fails, or the process dies), a later lookup never returns truncated content as if it were complete: it finds no entry or fails with an error, and in the first two cases the content can be fetched and stored again. A listing that could not be stored in full is not found, and can be stored again. Content read to its end is served in full. This holds as well when several downloads of the same content take place at the same time, and a download that is stopped or fails leaves no file behind.",
 ["crash_points", "fault_sequences", "histories"], "All contents, all interruption points and kinds, followed by any later operations.",
 "The test reads the whole entry every time.",
 ["cache/src/cache.rs"],
 [("entry published only when the remote is exhausted", "cache/src/cache.rs CacheReader")],
 ["Cache::remote_get after an interrupted remote_add"])

prop("C24", "Crawling an index page finds every file exactly once",
 "Crawling an http directory listing, whose pages link the entries of their directory as <a href=\"...\"> next to parent and sort links, returns the url of every file linked in it and in its sub-directories, at any depth, each exactly once and nothing else: no directories, no parent or sort links, and nothing below an /etc/ directory. The result is the same whatever the order and timing of the responses, and the iterator and the list forms give the same set and always terminate.",
 ["inputs", "schedules"], "All finite trees of generated names and page formats x all response delays and worker interleavings.",
 "One flaky test on a two-page tree.",
 ["httpdir/src/httpdir.rs"],
 [("page parsing and recursion guard", "httpdir/src/httpdir.rs parse_index_of, Visitor, path_dir"), ("worker pool and completion detection", "httpdir/src/httpdir.rs Crawler::process, CrawlerIter")],
 ["httpdir::list, Crawler::list, Crawler::walk"])

prop("C25", "A crawl that fails says so and leaves no trace",
 "When any page of the tree cannot be fetched (connection dropped, http error status, truncated body), the list form returns an error and the iterator form yields an error; a partial listing is never presented as complete. A failed crawl does not influence later crawls made with the same crawler.",
 ["fault_sequences", "histories", "schedules"], "All trees x all subsets of failing pages and kinds of failure, followed by further crawls.",
 "No test makes a request fail.",
 ["httpdir/src/httpdir.rs"],
 [("error propagation through the channel", "httpdir/src/httpdir.rs http_list, Crawler::process, Crawler::list")],
 ["httpdir::list, Crawler::list, Crawler::walk"])

prop("C26", "Analysing remote logs equals analysing the same files locally",
 "Training on and inspecting a directory or file served over http gives the same anomalies, contexts, counts and relative names as doing so with the same tree on disk. A file the server refuses or fails to deliver is listed as a read error and never analysed as if the error page were the log. Compressed files are served with a gzip content encoding. With the cache enabled, repeating the analysis after the server has gone gives the same result for the files that were read to their end, and content whose first download failed is not served from the cache.",
 ["inputs", "fault_sequences", "histories"], "All trees, url lengths, per-file failures, with and without cache.",
 "No test reads a remote log.",
 ["model/src/urls.rs", "model/src/reader.rs", "model/src/model.rs"],
 [("remote sources and readers", "model/src/urls.rs url_open, httpdir_iter"), ("http client and cache", "model/src/reader.rs from_url, remote")],
 ["Model::train / Model::report on remote content"])

prop("C27", "Zuul build pages resolve to the right API build",
 "A url whose path ends in build/ followed by a 32-character alphanumeric id is recognised as a Zuul build; the API is queried at <prefix>/api/tenant/<tenant>/build/<id> for multi-tenant urls (<prefix>/t/<tenant>/build/<id>) and at <prefix>/api/build/<id> otherwise, and every field of the answer is carried over unchanged. Any other url is treated as a directory when it ends with a slash and as a file otherwise. Unusable answers (error status, invalid JSON, missing urls or change) give an error, never a panic, and are not kept in the cache: once the API gives a usable answer the build resolves. The files of the build are named relative to its log url, with or without trailing slash.",
 ["inputs", "fault_sequences"], "All prefixes, tenants, ids, queries and API answers.",
 "Two literal urls and one literal answer.",
 ["model/src/zuul.rs", "model/src/urls.rs"],
 [("url recognition", "model/src/zuul.rs get_zuul_api_url, api_from_webui, api_from_whitelabel_webui"), ("build conversion", "model/src/zuul.rs get_build, new_content")],
 ["Content::from_url, requests seen by the API server"])

prop("C28", "Zuul baseline discovery picks the best available build",
 "The baseline chosen for a build is a successful build of the same job, never the build itself, that has a log url, a ref url and a change and whose logs answer a HEAD request with success, and no available candidate ranks higher. The rank adds 50 for the same project with another change (minus 500 for the same change), 50 for the same branch, 50 for a pipeline whose name contains gate or periodic and 10 if voting, minus its age in days. When no candidate qualifies the discovery is an error, and no answer of the API makes it panic nor prevents the discovery from succeeding once the API gives a usable answer; likewise, logs that could not be reached once (the connection fails) are asked for again the next time.",
 ["inputs", "fault_sequences"], "All target builds and API answers (any mix of missing fields, ages, pipelines) and all subsets of unavailable logs.",
 "No test runs the discovery.",
 ["model/src/zuul.rs"],
 [("scoring and selection", "model/src/zuul.rs baseline_score, discover_baselines, logs_available")],
 ["Content::discover_baselines against a mock API"])

prop("C29", "Zuul builds decode faithfully and bad entries are skipped",
 "Encoding a build to JSON and decoding it gives back the same build, and a build as sent by the API (extra fields, null optional fields, fractional durations, in any field order) decodes to the values sent, with the duration truncated to whole seconds. In a list, entries that are not usable builds are skipped and all the others are kept in order; a document that is not a list of JSON values is an error, never a panic.",
 ["inputs"], "All builds and all JSON documents.",
 "One literal build, of which one field is checked.",
 ["zuul/src/zuul-build.rs"],
 [("decoders", "zuul/src/zuul-build.rs decode_build, decode_builds, python_utc_without_trailing_z, rounded_float")],
 ["decode_build, decode_builds, serde round trip"])

prop("C30", "User input is interpreted by what it is",
 "An input string that starts with http:// or https:// is a url, any other is a local path. A path that is a directory becomes a directory target, a regular file becomes a file target and anything else is an error; malformed urls and urls without a host are errors. No input string makes the conversion panic. The default baseline of a local file is what its name with .0 added designates; directories and urls have none.",
 ["inputs"], "All strings, in particular local names starting with http, malformed urls, missing paths and links.",
 "No test converts an input.",
 ["model/src/model.rs", "model/src/files.rs", "model/src/urls.rs"],
 [("conversion rules", "model/src/model.rs Input::from_string, Content::from_input; model/src/files.rs from_path; model/src/urls.rs from_url")],
 ["Input::from_string, Content::from_input"])

prop("C31", "The Python bindings return what the library computes",
 "For any lines, the Python functions process, index/search, index_mat/search_mat and save_mat/load_mat return exactly what the Rust library returns for the same arguments, a model saved and loaded in Python gives the same distances, and generate(n) returns n lines that begin with those of generate(n-1), each made of 2 to 9 words of 2 to 17 alphanumeric characters.",
 ["inputs"], "All lists of Unicode lines and all sizes.",
 "The bindings have no test.",
 ["python/src/bindings.rs", "generate/src/generate.rs"],
 [("wrappers", "python/src/bindings.rs"), ("line generator", "generate/src/generate.rs")],
 ["Python module logreduce_rust compared with the Rust crates"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
