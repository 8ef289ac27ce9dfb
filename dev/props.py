P = []
NA = []
def prop(id, title, statement, over, q, why, files, mech, tech, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files.split(), mech=mech, tech=tech, note=note))
def na(id, title, statement, over, q, why, files, mech, reason):
    prop(id, title, statement, over, q, why, files, mech, '')
    NA.append((id, reason))

prop('C01', 'TLS verification is only turned off by the documented environment variable',
 'Every HTTPS client the program creates verifies certificates and host names, unless the user set LOGREDUCE_SSL_NO_VERIFY in the environment. The program never sets that variable itself.',
 'configurations inputs', 'every client construction, every environment in which the variable is unset',
 'The tests only talk plain http to a mock server; no test creates a TLS connection.',
 'model/src/reader.rs httpdir/src/httpdir.rs', [('client builders', 'reader.rs CLIENT, Crawler::new')],
 'constant propagation with branch facts over MIR to every verification switch')
prop('C02', 'The content cache and the debug dump of a report are opt-in',
 'Unless LOGREDUCE_CACHE is set, no fetched file, API answer or availability answer is read from, written to or removed from the content cache, and the raw debug copy of a report is not written. (The cache of remote directory listings is always on and is not concerned.)',
 'configurations inputs histories', 'every command and every path with the variable unset',
 'The variable is process-global and read once; the tests exercise one setting only.',
 'model/src/reader.rs model/src/urls.rs cli/src/main.rs', [('USE_CACHE gate', 'reader.rs from_url/head_url/drop_url'), ('raw report gate', 'cli main.rs process')],
 'conditional reachability (path-sensitive abstract interpretation over the call graph)')
prop('C03', 'Cache entries are keyed by the complete identity of what they answer',
 'A cached answer can only be found for exactly the base and full URL (query included) it was stored under, and only by the kind of request it was stored for: content, directory listing, positive probe and negative probe never share an entry, nor does a file being written. Lookup, storage and eviction of one kind address the same entry, and a probe is answered with the recorded outcome.',
 'inputs histories', 'all pairs of URLs and all request kinds',
 'Collisions need specific pairs of URLs; the tests use one base and one path.',
 'cache/src/cache.rs', [('file name derivation', 'cache.rs filename module'), ('public operations', 'Cache::*')],
 'value-flow normalisation of cache keys to templates, sibling agreement and disjointness of templates',
 'Assumes SHA-256 has no collisions.')
prop('C04', 'Reading through the cache and decompression layers is transparent',
 'A read through the caching or decompressing reader fills the caller\'s buffer by a single read of the wrapped source and returns exactly the byte count of that read; a failure of the source is returned as a failure, never as data or end of file. While an entry is being recorded, exactly the bytes delivered to the caller are written to it, once and in full.',
 'inputs fault_sequences', 'every sequence of short reads, errors and buffer sizes',
 'The tests read one short in-memory buffer successfully.',
 'cache/src/cache.rs model/src/reader.rs', [('tee', 'CacheReader::read'), ('dispatch', 'DecompressReader::read')],
 'path-sensitive value-flow analysis of every Read implementation')
prop('C05', 'A cache entry becomes visible only when it is complete',
 'A content or listing entry appears in the cache only after all of its data was received to the end and written out without any error. After a failed read or write, or if the reader is dropped early or the process dies, no truncated entry can ever be served.',
 'crash_points fault_sequences histories', 'every prefix of reads, every failing read or write, every crash point',
 'The tests never interrupt a download nor fail a write.',
 'cache/src/cache.rs', [('temporary file + rename', 'PendingFile, create_pending, commit'), ('end of data', 'CacheReader::read_and_save')],
 'typestate / product automaton over MIR paths of two consecutive calls',
 'Renames are taken as atomic; power-loss ordering (fsync) is not claimed.')
prop('C06', 'An HTTP error answer is never taken for content',
 'The body of an HTTP response is used (read, decoded, listed, cached) only if its status is a success; any client or server error status makes the fetch or listing fail. An availability probe is positive exactly when the status of the response is a success.',
 'inputs fault_sequences', 'every status code of every request',
 'The mock server of the tests mostly answers 200.',
 'model/src/reader.rs httpdir/src/httpdir.rs', [('status check', 'remote::get_url, http_list'), ('probe', 'remote::head')],
 'must-check typestate on responses, escalated through callers')
prop('C36', 'With the cache on, hits avoid the network and fetched answers are stored',
 'When the cache is on, the network is asked for a URL (content, probe or listing) only after a lookup for that same URL found nothing, and the answer that is returned was stored under the key that was looked up. On a hit, the cached answer is what the caller receives.',
 'histories inputs', 'every order of requests',
 'Tests run with the cache variable unset and a fixed order of requests.',
 'model/src/reader.rs model/src/urls.rs', [('lookup/store', 'from_url, head_url, httpdir_iter')],
 'event-order (typestate) analysis with escalation to callers')
prop('C08', 'Every source of the target is accounted for',
 'Every source listed for the target is, in the report, either inspected to the end of its content, or recorded in read_errors with its error, or recorded in index_errors because no index matches it; every anomaly found in it ends up in a log report of that source, even if the source fails later on. An unreadable source or a source without index does not stop the inspection of the others: the report fails only if the listing fails. The terminal output likewise prints every anomaly (line and position) and mentions every source that is unreadable or has no index.',
 'inputs fault_sequences', 'every set of sources and every combination of failing ones',
 'The tests inspect one readable file; which sources fail, and after how many anomalies, is unbounded.',
 'model/src/model.rs cli/src/main.rs', [('report', 'Model::report'), ('terminal', 'process_live')],
 'obligation automaton (typestate of each listed source) over MIR paths, loops by fixpoint')
prop('C09', 'The report attributes its content and sums its totals correctly',
 'Each source is compared with the index found under its own index name, skipping only lines already seen in sources of that same index. Each log report carries its own source, that index name, the final line and byte counts of that source and its anomalies; index_reports describes, under that name, the index used. total_line_count is the sum of the final line counts of all the sources that were opened (anomalies or not, failed later or not), total_anomaly_count the number of anomalies in the log reports; target and baselines are the ones given.',
 'inputs fault_sequences', 'every number of sources, groups and anomalies',
 'Tests compare a single source with a single index.',
 'model/src/model.rs', [('report', 'Model::report')],
 'value-provenance analysis with abstract accumulators over MIR paths')
prop('C25', 'Log content cannot act as markup in the HTML report and is shown as it is',
 'Whatever the log lines, file names, urls and index names contain, they appear in the HTML report as text: every such value is escaped exactly once for the place where it is inserted (element text or quoted attribute), and none is used as a tag name, in an unquoted attribute, or inside a script or style.',
 'inputs', 'every content of lines, names and urls',
 'No test renders hostile content.',
 'report/src/report.rs', [('escape', 'report.rs escape'), ('sinks', 'render_content_report, render_context, render_lines, table, add_head')],
 'value-flow (taint) analysis with sanitiser recognition over MIR')
prop('C26', 'External scripts and styles of the report are pinned by digest',
 'Every script or stylesheet the HTML report loads from another site has a constant address and carries a complete SHA-2 integrity digest together with crossorigin="anonymous", so that a modified resource is refused by the browser.',
 'configurations inputs', 'every element the renderer can emit',
 'No test looks at the generated elements.',
 'report/src/report.rs', [('elements', 'add_link, add_script, STYLES, SCRIPTS')],
 'typestate of html elements at their drop point, with constant propagation')
prop('C37', 'The HTML report shows every anomaly with its context',
 'For every log report and every anomaly of it, the HTML page contains the line of the anomaly with its position, between all of its preceding and all of its following context lines, each under its own number: the preceding ones count up to the position minus one, the following ones from the position plus one. Nothing recorded in the log reports is left out of the page.',
 'inputs', 'every number of log reports, anomalies and context lines',
 'No test renders a report with several anomalies.',
 'report/src/report.rs', [('rendering', 'add_container, render_content_report, render_lines, render_context')],
 'obligation automaton over nested iterations with symbolic line numbers')
prop('C41', 'The live output shows every anomaly with its context',
 'Without a report file, the command line prints every anomaly the processor of a source delivers before it takes the next one: the lines before it, then its own line with its position, then the lines after it, none of them left out, repeated or reordered. Every line of the context is printed under its own number: the ones before an anomaly count up to its position minus one, the ones after it from its position plus one.',
 'inputs', 'every number of sources, anomalies and context lines',
 'No test looks at the printed anomalies.',
 'cli/src/main.rs', [('live output', 'process_live')],
 'obligation automaton over nested iterations with symbolic line numbers')
prop('C42', 'Every section of the HTML page stands under its own log report',
 'The section of a log report in the HTML page shows the relative path of its source, a link to that very source, the name of its index and the number of its anomalies. If the report holds an index report under that index name, samples of the sources of that index, and of no other one, are shown as well. The head of the page shows the target, all the baselines, and the total numbers of lines and anomalies of the report.',
 'inputs', 'every number of log reports, indexes and sources',
 'No test renders a report with several log files.',
 'report/src/report.rs', [('rendering', 'add_container, render_content_report')],
 'obligation automaton over the iteration of the log reports')
prop('C20', 'Saving a model or report succeeds only if it is completely written',
 'When Model::save or Report::save reports success, the whole value was encoded and written to a file at the given path, with the compressed stream terminated and no write error ignored; any failure along the way, the very last write included, is reported as a failure. load reads the same format back from the given path and reports every failure to open, decompress or decode.',
 'fault_sequences crash_points', 'every failing write, at any position',
 'Tests never fail a write.',
 'model/src/model.rs', [('save/load', 'Model::save, Model::load, Report::save, Report::load')],
 'typestate of the writer stack over MIR paths')
prop('C38', 'Saved models and reports are loaded back field for field',
 'For Model, Report and every workspace type they contain, saving emits every field, in order and unconditionally (and the variant of enums), and loading puts each element back in the field, or the variant, it was saved from: no content of a model or report is skipped, defaulted or exchanged by a save and a load.',
 'inputs', 'every value of every serialized type',
 'Tests do not compare a reloaded model or report with the original.',
 'model/src/model.rs model/src/zuul.rs', [('serde implementations', 'Serialize/Deserialize of Model, Index, ChunkIndex, Report, ...')],
 'value-flow analysis of the generated (de)serializers', 'Trusts the (de)serializers of library types and bincode.')
prop('C21', 'Baselines are discovered among available successful builds of the same job',
 'For a Zuul build, a baseline is only ever chosen from the api\'s answer to a query for builds of the same job with result SUCCESS; it is never the target build itself, and a probe of its own log url answered that the logs are available. A build of the answer that lacks a log url, ref url or change is skipped without failing the discovery. Every recorded detail of a build (uuid, job, project, branch, result, pipeline, urls, end time, change) is the one of the decoded build of the same name.',
 'inputs fault_sequences', 'every answer of the api and of the log servers',
 'The tests do not exercise the discovery of baselines.',
 'model/src/zuul.rs', [('discovery', 'Build::discover_baselines'), ('content', 'new_content, Content::from_zuul_url')],
 'path-sensitive value provenance with element-wise facts carried through filters, sorts and collections')
prop('C40', 'The page of a Zuul build is resolved to that very build',
 'Content::from_zuul_url only takes a url for the page of a Zuul build if its path ends with `build/` and a last segment of 32 bytes. The build is then requested from, and cached under, the api of that page: the url up to the `/t/<tenant>/build/<uid>` its path ends with, followed by `/api/tenant/<tenant>/`; or, when the path does not end so, the url up to `/build/<uid>`, followed by `/api/`. There it is requested at `build/<uid>`, tenant and identifier being exactly the ones of the url. Neither the host, the rest of the path, the query nor the fragment of the page change that.',
 'inputs', 'every url given as the target',
 'The tests resolve two well-known urls; they contain the searched markers only once.',
 'model/src/zuul.rs', [('resolution', 'Content::from_zuul_url, get_zuul_api_url, is_uid, api_from_webui, api_from_whitelabel_webui'), ('request', 'get_build')],
 'typestate of the segment iterator and symbolic decomposition of the requested url into literals and pieces of the page')
prop('C22', 'An undecodable API answer is not kept in the cache',
 'When an answer of the Zuul api was fetched but cannot be decoded, its cache entry (same base and url) is dropped, so that a later attempt asks the api again, and the failure is reported. A failed request is reported as a failure as well.',
 'inputs fault_sequences histories', 'every answer of the api',
 'Tests only see a decodable answer.',
 'model/src/zuul.rs', [('decode or drop', 'get_build, get_builds')],
 'event automaton over MIR paths')
prop('C12', 'Training indexes every line of every readable baseline source',
 'Every line of a baseline source whose tokens were not added before is handed to the index, in the final incomplete chunk as well, and every line counts once in line_count and byte_count. A line that cannot be read or decoded makes the training of that source return the error; the lines before it stay indexed and are never skipped. Index::train opens and adds every source it is given and completes the last chunk: a source that cannot be opened makes the training fail, one that fails while being read does not prevent the following ones from being indexed. Model::train stores one index, under the name of the group, for every group of sources of the baselines, and fails if listing or training fails.',
 'inputs fault_sequences', 'every number of lines, sources and groups, and every failing read',
 'The tests train on a few lines that fit one chunk; chunk boundaries and failing reads are not sampled.',
 'model/src/process.rs model/src/model.rs', [('chunking', 'ChunkTrainer::add, ChunkTrainer::complete'), ('sources', 'Index::train'), ('groups', 'Model::train')],
 'obligation automaton (typestate of each line, source and group) over MIR paths, loops by fixpoint')
prop('C13', 'Every line of an inspected source is compared with the index',
 'Every line of an inspected source, up to the log-classify marker, is compared with the index, unless a line with the same tokens was already compared; this includes the lines of the last incomplete chunk. Every line (the marker line included) counts once in line_count and byte_count. The inspection ends only when the source is exhausted or the marker was met; a line that cannot be read or decoded is delivered to the caller as an error and never taken for the end of the source.',
 'inputs fault_sequences', 'every number, content and order of lines, and every failing read',
 'The tests inspect a handful of lines that fit one chunk.',
 'model/src/process.rs', [('inspection', 'ChunkProcessor::next, read_anomalies, do_search_anomalies, reset')],
 'obligation automaton (typestate of each line) by abstract interpretation of MIR with loop fixpoints')
prop('C14', 'An anomaly is delivered, once and in order, for each distance above threshold',
 'While a source is inspected, an anomaly is created for a compared line exactly when the distance found for it is strictly above the single fixed threshold, and it carries that distance together with the text and the line number of the line the distance was computed for. Every anomaly is delivered by the iterator exactly once, in order of creation, including the one still waiting for context when the source ends or the inspection stops.',
 'inputs histories', 'every sequence of distances and chunk boundaries',
 'The tests look at two anomalies in one chunk.',
 'model/src/process.rs', [('anomalies', 'ChunkProcessor::do_search_anomalies, read_anomalies, next')],
 'abstract interpretation with path facts and typestate of the pending anomaly')
prop('C15', 'An anomaly is shown with the lines around it, and no line is shown twice',
 'The lines that follow an anomaly in the source are the context after it: each of them, in full, until there are three, the next anomaly follows, or the source ends; the line of an anomaly is never part of it. The context is the same wherever the boundaries of the chunks fall. The lines before an anomaly are the last ones before it that were not already shown, as an anomaly or around another one, three at most; a line is never shown as the context after one anomaly and again before the next one.',
 'inputs histories', 'every sequence of lines, distances and chunk boundaries',
 'The tests look at two anomalies in one short chunk.',
 'model/src/process.rs', [('context', 'ChunkProcessor::do_search_anomalies, read_anomalies, reset, collect_before')],
 'abstract interpretation with ghost counters and an affine congruence domain')
prop('C11', 'Training and inspection turn a line into features in the same way',
 'A line is tokenized from the whole of its decoded text, and its words are split, hashed, weighted and placed in the feature space by the same operations with the same constants when it is indexed and when it is searched. The tokens and features of a line depend on its text and on the kind of index only: not on the content of the index, the environment, the clock, the file system, random state or earlier calls.',
 'inputs histories', 'every line text and every history of calls',
 'A test compares a few lines within one process.',
 'model/src/model.rs index/src/index.rs tokenizer/src/tokenizer.rs', [('features', 'index_mat, search_mat_chunk, vectorize'), ('tokens', 'ChunkIndex::tokenize')],
 'comparison of the canonical operation sets of both sides by abstract interpretation, and an effect analysis over the call graph')
prop('C16', 'A line is compared with every indexed line, the closest one counts',
 'ChunkIndex::add keeps the features of every line it is given, each in its own row, and appends them to what was indexed before. ChunkIndex::search returns one distance per line, starting from 1.0 when nothing is shared, and every chunk of the index and every entry of the product with that chunk can lower it: the result for a line is the minimum of 1 - similarity over all indexed lines.',
 'inputs', 'every number of lines, words and chunks',
 'The tests search one chunk of three lines.',
 'index/src/index.rs model/src/model.rs', [('add', 'index_mat, create_mat, HashingIndex::add'), ('search', 'search_mat_chunk, cosine_distance_chunk')],
 'obligation automata (every line, vector, feature, chunk and product entry) over MIR paths with loop fixpoints')
prop('C17', 'The line reader loses nothing but separators and over-long lines',
 'BytesLines only drops separators, empty lines and the text of lines over the length limit: every other byte the reader gives is delivered, in order, including an unterminated last line. No padding or stale bytes are ever delivered, and no delivered line is over the limit. A failed read is returned as an error before anything else is read and no text is lost by it. The end is reported only after the reader gave its end, and only then is the iterator finished for good.',
 'inputs fault_sequences', 'every reader: every chunking of the data, every sequence of short reads and failures',
 'The tests read short in-memory strings in one chunk.',
 'iterator/src/iterator.rs', [('reader', 'BytesLines::next, fill, read_slice'), ('lines', 'get_slice, discard, drop_until_next_line')],
 'abstract interpretation of BytesLines::next over a ghost buffer (typestate of padding, cuts, discards and reads)')
prop('C27', 'The crawler lists every file behind a url, or fails',
 'Every link of every page that is visited is resolved against the url of that page and then, unless it ends with /etc/ or is a directory whose path is not longer than that of the page, is sent as a file (when it is not a directory) or visited as a page. A request, status, body or link that fails is reported as an error. Crawler::list waits for all the work to be over and returns every file that was found, or an error when anything was reported or a worker panicked.',
 'inputs schedules fault_sequences', 'every page and tree of pages, every failing request, every interleaving of the workers',
 'The test crawls one small tree that never fails.',
 'httpdir/src/httpdir.rs', [('task', 'Crawler::process, http_list, parse_index_of, path_dir'), ('collection', 'Crawler::list')],
 'obligation automata per link and per message over MIR paths of the crawler task and its collector',
 'What the pattern of the links matches is taken as given.')
prop('C28', 'The crawler only goes down: it never visits a page again from below',
 'A page is visited from a listing only when its path is longer than the path of that listing, so that no chain of links leads back to a page that is already being visited: parent links, links to the page itself and mutual links never make the crawler loop.',
 'inputs schedules', 'every link structure',
 'The test has a parent link and nothing else.',
 'httpdir/src/httpdir.rs', [('progress', 'Visitor::visit, Crawler::process')],
 'ranking argument decided by abstract interpretation: a relation on path lengths must dominate every task start')
prop('C29', 'Walking a listing hands out every result and ends after the work is over',
 'The iterator of Crawler::walk returns every result a worker sends, errors included. It ends only when no work was running or queued before it last looked for a message and found none. A worker that panicked makes it return an error before it ends.',
 'schedules fault_sequences', 'every interleaving of the workers with the iterator',
 'The test runs one schedule of a few requests.',
 'httpdir/src/httpdir.rs', [('iterator', 'CrawlerIter::next, is_done')],
 'typestate of the message loop by abstract interpretation of MIR',
 'The counts of the thread pool are taken as one consistent reading.')
prop('C31', 'Every log file of a directory or build is listed, under its own index name',
 'Listing a local directory yields every regular file below it, at any depth, as its own path, and nothing else: no symbolic link is listed or followed, no directory, pipe or device is listed. Listing a remote directory or build yields every url of the listing. The only files left out are those Source::is_valid excludes, and it excludes a source only for the ending of its path or url, or because it lies in an /etc/ directory. An entry that cannot be read, a listing that fails and a content without any source make get_sources fail. group_sources puts every source of every content exactly once in the group named by IndexName::from_source of that source, and fails when a content cannot be listed.',
 'inputs fault_sequences', 'every directory tree and remote listing, with every unreadable entry',
 'The tests list a few regular files.',
 'model/src/model.rs model/src/files.rs model/src/urls.rs', [('listing', 'Content::get_sources, Source::dir_iter, keep_path, httpdir_iter'), ('groups', 'Content::group_sources')],
 'typestate of every listed entry by abstract interpretation of the iterator pipelines in MIR')
prop('C34', 'A source is compared with the index of its own name, or with the only index',
 'Model::get_index returns the index stored under the given name when there is one. When there is none it returns the only index of a model that has exactly one index, and None for a model with no or several indexes: a source is never silently compared with the index of an unrelated name.',
 'inputs', 'every name and every number of indexes',
 'The tests build models with one index.',
 'model/src/model.rs', [('lookup', 'Model::get_index, lookup_or_single')],
 'abstract interpretation over a cardinality domain of the index map')
prop('C23', 'An existing model file is loaded and never overwritten, else one is trained',
 'With --model FILE and an existing FILE, the path and url commands use the model loaded from it and never train or write it; diff, which names its own baselines, fails. Otherwise the model is trained from all the baselines given (diff, train) or from those discovered for the target (path, url), and used for the inspection; with --model it is first saved as FILE, without it nothing is saved. train requires --model and saves the model there. No command changes the model file in any other way.',
 'inputs histories', 'every combination of command, options and existing files',
 'No test runs the command line.',
 'cli/src/main.rs', [('lifecycle', 'main, Cli::run, process')],
 'typestate of the run by abstract interpretation of MIR from main')
prop('C24', 'A command that could not do its work does not exit successfully',
 'When the target or a baseline cannot be resolved or listed, baselines are not found, the model cannot be loaded, trained or saved, or the report cannot be computed, rendered or written, main returns the error, so that the exit status is a failure. A path, url or diff command that succeeds inspected the target it was given, and with --report FILE wrote to FILE the report rendered for it.',
 'fault_sequences inputs', 'every failing step of every command',
 'No test runs the command line.',
 'cli/src/main.rs', [('errors', 'main, Cli::run, process, process_live')],
 'typestate of the run by abstract interpretation of MIR from main')

prop('C32', 'A target is opened as what it is: kind, place and compression',
 'Content::from_input makes a Directory of a path only when it is a directory, a File only when it is a regular file and fails for any other path; it rejects a url without a host, hands Zuul urls to the Zuul resolver, and makes a Directory of any other url exactly when it ends with a slash. Source::file_open opens exactly the path it is given, fails when that fails, and decompresses it exactly when its extension is gz. Source::url_open gets exactly the url it is given, under a cache base that is the url itself or its text before the base offset, and decompresses cached copies. Every caller passes the place and base offset of one and the same source.',
 'inputs fault_sequences', 'every path, url, base offset and cache state',
 'The tests open a few plain local files.',
 'model/src/files.rs model/src/urls.rs model/src/reader.rs model/src/model.rs', [('kind', 'Content::from_input, from_path, from_url'), ('open', 'Source::file_open, url_open, reader::from_path, from_url')],
 'abstract interpretation of MIR: path conditions and event order of every successful outcome')
prop('C35', 'A source is named by its path below the directory or url that was listed',
 'Every file of a listed directory or url gets as base offset the length of the text of that directory or url, up to the separator that follows it, so that its relative name does not depend on where the listing is. A single file or url has base 0. Source::get_relative returns the text of the path or url after the base, or all of it when the base is no position of it, and never panics. IndexName::from_source is the index name of that relative text.',
 'inputs', 'every path, url and base offset',
 'The tests compare a few index names of literal paths.',
 'model/src/files.rs model/src/urls.rs model/src/model.rs', [('base', 'Source::dir_iter, httpdir_iter'), ('name', 'Source::get_relative, IndexName::from_source')],
 'abstract interpretation of MIR: symbolic terms of the base offsets and names')
prop('C43', 'A dataset is accepted only if exactly its expected anomalies are found',
 'The test command succeeds only if, for every dataset it was given, the expectations were decoded, the model trained and the target inspected to its end without an error, there are as many anomalies as expected lines, and each expected line, without the blanks around it, is contained in the line of the anomaly at the same place.',
 'inputs fault_sequences', 'every number of datasets, expectations and anomalies, and every failing step',
 'The evaluation of the datasets is itself not tested.',
 'cli/src/dataset.rs', [('evaluation', 'test_datasets, load_inf, process, assert_anomaly_includes')],
 'obligation automaton over the paired iteration of expectations and anomalies')
prop('C30', 'A python capsule is only used as the type it was created with',
 'In the python bindings, the pointer held by a capsule is used as a Rust value of some type only after the name of that same capsule was compared with the name under which capsules of that type are created; an object which is not such a capsule gives a python error. No sequence of python calls, including giving the model made by index to search_mat, makes the extension read memory as another type.',
 'histories inputs', 'every sequence of calls and every object given by python',
 'No test runs the python extension.',
 'python/src/bindings.rs index/src/index.rs', [('capsules', 'create_capsule, get_capsule and the functions that use them')],
 'typestate of capsules by abstract interpretation of MIR (python extension crate)')
prop('C18', 'The depth of the call stack does not depend on the input',
 'No function of the workspace recurses once per line, per part of a line, per directory or per anomaly: whatever the number of blank or dropped lines, the shape of a line or the depth of a crawled server, the number of nested calls is bounded by a constant of the program, and no data type contains itself. An input cannot abort the process by a stack overflow.',
 'inputs', 'every input, of any size and shape',
 'The tests read short lines and small trees; an overflow needs thousands of levels.',
 'tokenizer/src/tokenizer.rs iterator/src/iterator.rs model/src/process.rs httpdir/src/httpdir.rs', [('graph', 'every function of the workspace'), ('tokenizer', 'do_process'), ('anomalies', '<ChunkProcessor as Iterator>::next'), ('crawler', 'Crawler::process')],
 'cycles of the call graph, each bounded by abstract interpretation (nested activations, parts of texts)')
prop('C33', 'The features of a line contain none of its numbers, identifiers or secrets',
 'Every part of the text returned by the tokenizer is a constant of the program, an error keyword, or a part of a word whose digits were all replaced. The value of a key=value or key:value word whose key starts with a letter and contains the name of a secret (password, token, secret, key, id...) is replaced by a constant and never used. A word is compared with the error keywords before it is dropped or split, and an error keyword is always kept. Unless the whole line is filtered, each of its words is processed, and separated from the next one.',
 'inputs', 'every line',
 'The tests compare a few dozens of lines with their expected tokens.',
 'tokenizer/src/tokenizer.rs', [('line', 'process'), ('word', 'do_process')],
 'abstract interpretation of MIR: provenance of every text written in the result, typestate of keys and words')
prop('C10', 'The results do not depend on the order in which hash tables are walked',
 'Two runs on the same inputs give the same report: the log reports, the index errors and the read errors come in the order of the index names, not of the hash seed. No table is walked in its own order to build a sequence, to write, to print (transient progress lines excepted) or to pick an element, unless there is only one; where elements are sorted first, the comparison tells any two of them apart.',
 'schedules histories', 'every hash seed and every set of sources',
 'A test which compares the order of a few groups passes for most seeds.',
 'model/src/model.rs cli/src/main.rs', [('walks', 'Model::report, Model::train, lookup_or_single, debug_groups')],
 'taint of the iteration order by abstract interpretation of MIR; comparisons evaluated symbolically')
prop('C19', 'Paths, urls, listings, answers and log lines never make the program panic',
 'No result that depends on outside data (a conversion, a parser, a request, a file or directory operation, a serialized model) and no piece of a text, path or url that may be missing is unwrapped, unless it was found to be there. A text is only cut at a position known to be in it and between two characters: found in it, after a checked or stripped prefix, before a checked suffix, or tested; nothing unsigned (a length, a line number) is subtracted from something that may be smaller. Lines kept for later are only kept once they are known to be text.',
 'inputs', 'every path, url, listing, answer and log content',
 'The tests use well formed paths, urls and ascii logs.',
 'model/src/model.rs model/src/files.rs model/src/urls.rs model/src/process.rs httpdir/src/httpdir.rs report/src/report.rs', [('names', 'Source::get_relative, path_dir'), ('inputs', 'Content::from_input, Input::from_pathbuf'), ('lines', 'ChunkProcessor'), ('report', 'render_lines')],
 'abstract interpretation of MIR: reachability of unwraps, cuts and subtractions under the path facts (linear order facts)')
na('C07', 'The distance of a line is between 0 and 1, and 0 for a line of the index',
 'Every distance returned by a search lies between 0 and 1 (within rounding), it is 0 (within rounding) for a line which was indexed and 1 for a line that has no feature in common with any indexed line.',
 'inputs', 'every set of indexed lines and every searched line',
 'The tests look at a few lines with rounded distances.',
 'index/src/index.rs', [('distance', 'search, search_mat, search_mat_chunk')],
 'The value is a minimum of 1 minus dot products of normalised floating-point vectors: bounding it needs the accumulated rounding of sums whose length and terms come from the input, and an identity (the product of a vector with itself, divided by its norms) that no dataflow domain in reach carries through the sparse-matrix library. That the same features are computed on both sides is decided by C11, the use of every row by C10, the minimum and the threshold by C10 and C14.')
na('C39', 'Lines that differ only in volatile parts are tokenized alike',
 'Two lines that differ only in dates, identifiers, hashes, numbers, addresses or random paths have the same tokens, and lines that differ in an ordinary word have different tokens.',
 'inputs', 'every pair of lines',
 'The tests compare about thirty words with the expected tokens.',
 'tokenizer/src/tokenizer.rs', [('normalisation', 'process, do_process, global_filter, is_* predicates')],
 'What is volatile is defined by the regular expressions and length rules of the tokenizer itself: there is no independent specification in the repository to compare them with, and the claim relates two runs on related inputs through the languages of these expressions. Which text is tokenized, that no word is silently dropped and that tokens depend on the line only are decided by C11 and C18.')
