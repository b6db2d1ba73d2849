E_ = 'exploration'
F_ = 'fault_enumeration'
T['C01'] = ('property-based testing against a reference splitter', E_, 'Generated streams only; the reference splitter is trusted.')
T['C02'] = ('property-based testing against a reference line counter and self-numbered lines', E_, 'Generated streams only; the reference is trusted.')
T['C03'] = ('metamorphic property-based testing over delivery schedules, with fault injection and giant streams', E_, 'Generated schedules, error offsets and sizes up to a few million bytes (quick) or 60 MB (thorough).')
T['C04'] = ('property-based fuzzing of the tokenizer with purity, concurrency and size oracles', E_, 'Generated strings of up to 6000 bytes.')
T['C05'] = ('metamorphic property-based testing: same line, other value of the same class', E_, 'Generated classes, values and contexts; class membership is defined by the generators.')
T['C06'] = ('property-based testing: generated word lists against the expected tokens', E_, 'Generated lines of dictionary-free words; words that match a documented noise rule are excluded by the generator.')
T['C07'] = ('property-based testing against a set-cosine reference model', E_, 'Exact value only for generated vocabularies without hash collision.')
T['C08'] = ('differential and metamorphic property-based testing of the index implementations', E_, 'Generated baselines, partitions, permutations and batches.')
T['C09'] = ('metamorphic property-based testing: targets drawn from the baseline', E_, 'Generated logs up to several chunks.')
T['C10'] = ('property-based testing against a line-by-line reference model of the inspection', E_, 'Generated logs up to several chunks; the tokenizer and the index are used as given (decided by C04-C08).')
T['C11'] = ('property-based testing of contexts against a reference model, with generated chunk boundaries', E_, 'Generated placements around the chunk limits.')
T['C12'] = ('property-based testing with injected read failures and banners', E_, 'Generated targets and failure positions.')
T['C13'] = ('round-trip property-based testing with truncation and corruption of the files', E_, 'Generated models and reports; every truncation point of small files, sampled alterations.')
T['C14'] = ('property-based testing with write faults at generated byte offsets', F_, 'File size limits at every offset of small files and sampled offsets of larger ones.')
T['C15'] = ('property-based testing: generated directory trees against a reference listing', E_, 'Generated trees in a scratch directory, including unusual names, links and pipes.')
T['C16'] = ('metamorphic property-based testing of index names and groups', E_, 'Generated names and variants.')
T['C17'] = ('differential property-based testing of compressed against plain trees, with truncation', E_, 'Generated contents, levels, members and truncation points.')
T['C18'] = ('property-based testing of whole reports against a reference analysis, with injected unreadable sources', E_, 'Generated trees and models.')
T['C19'] = ('property-based testing: the page is parsed back and compared with the report', E_, 'Generated reports; the parser of the pages is trusted.')
T['C20'] = ('property-based testing of the program output against a reference analysis', E_, 'Generated trees, argument lists and unreadable sources; clap is trusted for non-UTF-8 arguments.')
T['C21'] = ('stateful property-based testing of command sequences against a model of the files', E_, 'Generated sequences of commands and datasets.')
T['C22'] = ('stateful model-based property testing of the cache', E_, 'Generated histories over several handles and easily confused urls.')
T['C23'] = ('fault injection at generated interruption points followed by generated histories', F_, 'Every interruption point of small contents, sampled points of larger ones; process death is simulated by leaking the reader.')
T['C24'] = ('property-based testing with a local server: generated trees and response delays against the reference listing', E_, 'Generated trees, page styles and delays; thread interleavings are those that the delays and the scheduler provoke.')
T['C25'] = ('fault injection at generated pages of generated trees, followed by further crawls', F_, 'Generated subsets of failing pages and kinds of failure.')
T['C26'] = ('differential property-based testing of remote against local analysis, with injected failures and cache histories', E_, 'Generated trees served on the loopback.')
T['C27'] = ('property-based testing with a mock API and injected answer faults', E_, 'Generated urls and answers on the loopback.')
T['C28'] = ('property-based testing with a mock API against a reference ranking', E_, 'Generated candidates; the mock filters and limits as the real API.')
T['C29'] = ('round-trip property-based testing and document fuzzing', E_, 'Generated builds, lists and documents.')
T['C30'] = ('property-based testing of inputs against the kind of file system object or url', E_, 'Generated names, objects and strings; the url crate is trusted.')
T['C31'] = ('differential stateful property-based testing of the Python module against the Rust crates', E_, 'Generated call sequences; the installed Python only.')
