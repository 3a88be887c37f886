import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Tokens tile the input exactly: nothing lost, duplicated or displaced",
"For every input byte string, mode, dictionary and option, analysis returns (without panicking) tokens whose surfaces, in order and without the begin/end-of-sentence markers, concatenate to exactly the input, invalid UTF-8 included. Each token's byte position, character start and end are the true offsets of its surface in the input (an invalid byte counts as one character), tokens are contiguous, and indexes count up from zero. Unless they are omitted by option, exactly one begin marker comes first and exactly one end marker comes last.",
["inputs","configurations"],"all byte strings (any length, any encoding damage) x {normal, search, extended} x all system/user dictionaries x with/without BOS/EOS",
"The passing tests segment a handful of short sentences and assert nothing about offsets of long, mixed or malformed text; the failure needs an unusual input (grouping limits, U+FFFD, long documents, buffer reuse sizes).",
["tokenizer/tokenizer.go","tokenizer/lattice/lattice.go"],
[("lattice construction (every reachable position gets at least one candidate)","tokenizer/lattice/lattice.go Build/addNode"),("forward/backward pass","tokenizer/lattice/lattice.go Forward/Backward"),("node to token conversion","tokenizer/tokenizer.go Analyze")],
[("lattice list","candidate words indexed by their end position","tokenizer/lattice/lattice.go Lattice.list")],
["tokenizer.Tokenizer.Analyze results"])

p("C02","Normal mode returns a least-cost segmentation over the dictionary candidates",
"In normal mode every returned token is a legitimate candidate of the dictionary at its place: a dictionary word with exactly that surface, or an unknown word formed by the dictionary's character-category rules (invoked when the category says so or when no dictionary word starts there, grouped up to 1024 characters, the group being also offered without its last character). The total of word weights and connection costs along the returned path, from begin to end marker, is the minimum over all candidate paths, however long the input is.",
["inputs","configurations"],"all inputs x all system dictionaries (costs, connection matrices, character categories)",
"Tests check a few known segmentations; optimality is a statement about all alternative paths of each lattice, and errors in tie handling, clamping, candidate generation or matrix orientation change only some inputs.",
["tokenizer/lattice/lattice.go","tokenizer/tokenizer.go"],
[("candidate generation","tokenizer/lattice/lattice.go Build"),("Viterbi recurrence","tokenizer/lattice/lattice.go Forward"),("back-pointer walk","tokenizer/lattice/lattice.go Backward")],
[("node cost","best accumulated cost up to a node","tokenizer/lattice/node.go Node")],
["tokenizer.Tokenizer.Analyze(Normal)"])

p("C03","Search mode minimises penalised cost; extended mode unigrams unknown words",
"In search mode the returned path is a least-cost path when every word of only ideographs longer than 2 characters costs 3000 extra per character beyond 2, and every other word longer than 7 characters costs 1700 extra per character beyond 7. Extended mode returns the search-mode segmentation with each unknown word replaced by one dummy-class token per character (same id, no features) and all other tokens unchanged. Any mode value that is none of the three behaves as normal mode.",
["inputs","configurations"],"all inputs x all dictionaries, with and without user dictionary",
"Tests compare one or two compound nouns; the penalty thresholds, its application exactly once per word (the last one included) and the per-character split of arbitrary unknown words range over all inputs.",
["tokenizer/lattice/lattice.go","tokenizer/tokenizer.go"],
[("penalty","tokenizer/lattice/lattice.go additionalCost/kanjiOnly"),("recurrence with penalty","tokenizer/lattice/lattice.go Forward"),("unigram split","tokenizer/lattice/lattice.go Backward"),("mode mapping","tokenizer/tokenizer.go Analyze/AnalyzeGraph")],
None,["tokenizer.Tokenizer.Analyze(Search|Extended)"])

p("C04","User dictionary entries take precedence where they match, and only there",
"At every place where at least one user-dictionary entry starts, only user-dictionary entries (all those that match there, at zero weight and zero connection cost on both sides) are candidates, everywhere else the system candidates are unchanged, and the result is a least-cost path over these candidates. A token of user class has exactly the surface of the entry it names and reports that entry's part of speech, segmentation and readings. A text in which no entry occurs is analysed exactly as without the user dictionary.",
["inputs","configurations"],"all user dictionaries (overlapping, nested, single-character, ASCII entries) x all inputs x all modes",
"Tests use one three-entry user dictionary and one sentence each; overlap between entries, entries inside system words and entries that cut unknown-word groups are never exercised.",
["tokenizer/lattice/lattice.go","tokenizer/tokenizer.go","tokenizer/tokenizer_option.go","tokenizer/token.go"],
[("user candidates suppress system candidates","tokenizer/lattice/lattice.go Build"),("zero connection cost next to user words","tokenizer/lattice/lattice.go Forward"),("option","tokenizer/tokenizer_option.go UserDict"),("user features","tokenizer/token.go Features/POS/UserExtra")],
None,["tokenizer.Tokenizer.Analyze with UserDict"])

p("C05","Results depend only on configuration and input, never on earlier calls",
"The result of an analysis is a function of the dictionaries, options, mode and input alone: it is the same whatever analyses (other inputs, lengths, modes, dictionaries, user dictionaries, graph exports, writers that fail or panic) the process ran before. Tokens already returned, and everything read from them, stay unchanged by later analyses. Modifying any slice obtained from a token never changes what any token or later analysis reports.",
["histories","inputs"],"all sequences of calls on any number of tokenizers in one process",
"Pooled lattices and nodes carry state between calls; a stale field shows only for particular sequences (long then short, user dictionary then none), while each test makes one call or repeats the same one.",
["tokenizer/lattice/lattice.go","tokenizer/lattice/node.go","tokenizer/lattice/mem/pool.go","tokenizer/tokenizer.go","tokenizer/token.go"],
[("reset on release","tokenizer/lattice/lattice.go Free"),("re-initialisation of reused nodes","tokenizer/lattice/lattice.go addNode"),("buffer growth","tokenizer/lattice/lattice.go Build"),("copying accessors","tokenizer/token.go")],
[("object pools","lattices and nodes reused across calls","tokenizer/lattice/lattice.go latticePool, node.go nodePool")],
["tokenizer API results over a call history"])

p("C06","Concurrent analyses are race-free and equal to sequential ones",
"One tokenizer, and any number of tokenizers sharing dictionaries, may be used from any number of goroutines at the same time (analysis in all modes, graph export, token accessors, filters): no execution has a data race, and every call returns exactly what it returns when run alone. This holds also while tokenizers are being created and while returned tokens are read by other goroutines.",
["schedules","inputs"],"all interleavings of concurrent calls on shared tokenizers, filters and splitters",
"No passing test calls the tokenizer from more than one goroutine; sharing goes through process-wide pools, so a lifetime error shows only under particular interleavings.",
["tokenizer/tokenizer.go","tokenizer/lattice/lattice.go","tokenizer/lattice/mem/pool.go","filter/feature.go","filter/word.go","filter/ja/filter.go","filter/sentence_splitter.go"],
[("value-receiver tokenizer without mutable state","tokenizer/tokenizer.go"),("per-call lattice from a goroutine-safe pool","tokenizer/lattice/lattice.go New/Free"),("pool","tokenizer/lattice/mem/pool.go")],
None,["race detector","per-call results against sequential results"])

p("C07","Token attributes all agree with the dictionary entry the token names",
"For every token of every analysis, the feature list, each indexed feature, the part of speech, inflection type and form, base form, reading, pronunciation, user-dictionary extras and the exported data record (also as JSON) are exactly those of the dictionary entry given by the token's class and id, and agree with each other. Asking for a feature or attribute that the entry does not have (index negative or too large, attribute unknown to the dictionary, begin/end marker or dummy token) yields 'absent', never a wrong value or a panic. Two tokens compare equal exactly when id, class and surface are equal, and their features or parts of speech compare equal exactly when the lists are equal element by element.",
["inputs","configurations"],"all tokens of all inputs x dictionaries with and without contents x all feature indexes",
"Almost all of these tests are among those that cannot run here (missing dictionary file), and they cover one word per class; agreement must hold for each of the 400,000+ entries and for dictionaries without contents.",
["tokenizer/token.go"],
[("features","tokenizer/token.go Features/FeatureAt/POS"),("named attributes","tokenizer/token.go pickupFromFeatures"),("data record","tokenizer/token.go NewTokenData"),("comparison","tokenizer/token.go Equal/EqualFeatures/EqualPOS")],
None,["tokenizer.Token accessors"])

p("C08","All analysis entry points agree on the same segmentation",
"For every input, the standard tokenize call equals normal-mode analysis, the word-splitting call returns exactly the surfaces of the non-marker tokens, and graph export returns the same tokens (all public fields) as plain analysis in the same mode. Omitting begin/end markers removes exactly the two markers and renumbers the rest, in every entry point. A dictionary loaded without its contents part gives the same segmentation as the full dictionary.",
["inputs","configurations"],"all inputs x modes x options x full/contents-less dictionaries",
"Tests look at each entry point in isolation on a few inputs, and the graph entry point's tokens are not inspected at all.",
["tokenizer/tokenizer.go","tokenizer/tokenizer_option.go"],
[("Tokenize/Wakati/Analyze/Dot/AnalyzeGraph","tokenizer/tokenizer.go"),("OmitBosEos","tokenizer/tokenizer_option.go")],
None,["tokenizer API"])

p("C09","The exported lattice graph is well-formed and faithful for every input",
"For every input and mode the exported graph is syntactically valid in the graph description language, whatever characters the words contain, and injects nothing beyond the lattice. In normal and search mode it has one node for each dictionary and user word candidate plus the unknown words on the returned path, labelled with surface, part of speech and weight; an edge for every pair of shown words that are adjacent in the text, labelled with their connection cost (0 next to user words). The highlighted nodes and edges form exactly the returned path from begin to end marker.",
["inputs"],"all inputs x modes x dictionaries",
"The tests only check that the output is not empty; quoting and completeness depend on the words in the input.",
["tokenizer/lattice/lattice.go","tokenizer/tokenizer.go"],
[("graph export","tokenizer/lattice/lattice.go Dot/posFeature"),("AnalyzeGraph","tokenizer/tokenizer.go")],
None,["bytes written to the graph writer"])

p("C10","Feature and POS filters match exactly the given pattern set",
"A feature filter (and a part-of-speech filter) matches a feature vector if and only if at least one of its non-empty patterns is a prefix of the vector, where the wildcard element matches any feature. The answer does not depend on the order, overlap or repetition of the patterns, and matching never changes the filter.",
["inputs","configurations"],"all pattern sets (with wildcards anywhere) x all feature vectors",
"Tests use one pattern set with wildcards in only one pattern; order- and overlap-dependence needs combinations of patterns.",
["filter/feature.go","filter/pos.go"],
[("pattern trie insertion","filter/feature.go add"),("matching","filter/feature.go Match/has")],
None,["filter.FeaturesFilter.Match, filter.POSFilter.Match"])

p("C11","Keep and Drop split any token sequence exactly, in order, in place",
"For the general, part-of-speech and word filters and any token slice, dropping leaves exactly the tokens that do not match and keeping exactly those that match, each unchanged, in the original order and with their multiplicity, so that the two results together are the original. Matching looks at the token itself (the given predicate, the whole part of speech, the exact surface), each token is decided independently of the others, and a nil, empty, all-matching or none-matching sequence is handled without error.",
["inputs"],"all token slices x all predicates / pattern sets / word sets",
"Most of these tests cannot run here (missing dictionary), and those that could use one sentence; compaction errors depend on the pattern of matches.",
["filter/filter.go","filter/pos.go","filter/word.go"],
[("in-place compaction","filter/filter.go applyFilter, filter/pos.go apply, filter/word.go apply")],
None,["slices after Drop/Keep"])

p("C12","Sentence splitting is lossless and follows its delimiter rules",
"For every text and splitter setting, concatenating the sentences gives back the text exactly, minus all white space when white space is skipped, with no character cut in two and no empty sentence. A sentence ends only after a delimiter together with all delimiters and followers right after it (white space between them ignored when skipped), at two consecutive line feeds when that option is on, at a white-space delimiter, when it has reached the maximum number of characters (plus trailing delimiters and followers), or at the end of the text; and it does end at the first such place. (Invalid UTF-8 whose broken bytes would make up a character once the white space between them is skipped is outside this property and the next.)",
["inputs","configurations"],"all texts (invalid UTF-8 included) x all delimiter/follower sets, flags and maximum lengths",
"Tests use a few short strings with the default and one custom setting; interaction of line feeds, white space, followers and the length limit is not covered.",
["filter/sentence_splitter.go","cmd/sentence/cmd.go"],
[("split function","filter/sentence_splitter.go ScanSentences")],
None,["sentences delivered by a scanner"])

p("C13","Sentence splitting does not depend on how the input is delivered",
"A scanner using the splitter yields the same sentences for every way in which the reader delivers the text: any chunk sizes, cuts inside a character, inside a run of white space, between line feeds or between a delimiter and its followers, empty reads, or end-of-file together with the last data (a read ending after a line feed that follows a finished sentence may end that sentence, and so may the end of a read after a finished sentence of more than 32 KiB). Runs of white space of any length never make it fail. A sentence whose end is followed by a line feed in the data already read is delivered without waiting for more input.",
["inputs","schedules"],"all texts x all sequences of reads (sentences below 32 kB)",
"Every test feeds the text in one read; the split function is called with partial buffers only when the text crosses the scanner's buffer, at places tests do not choose.",
["filter/sentence_splitter.go"],
[("request for more data","filter/sentence_splitter.go ScanSentences (atEOF=false path)")],
None,["bufio.Scanner over controlled readers"])

p("C14","The Japanese search filter applies its stop and base-form rules per token",
"The word sequence produced from a token sequence holds, in order, exactly one word for every token that is neither of a stop part of speech nor a stop word: the token's base form if its part of speech is in the base-form set and it has one, otherwise its surface. Dropping with the same filter keeps exactly those tokens. The default sets are the ones in the shipped lists (comments and blank lines ignored, stop tags matching the exact part of speech), options replace exactly the set they name, and the filter leaves its input tokens unchanged when producing words.",
["inputs","configurations"],"all token sequences x all filter options",
"The only test cannot run here and uses one sentence with the defaults.",
["filter/ja/filter.go","filter/ja/loader.go","filter/ja/asset/stop_tags.txt","filter/ja/asset/stop_words.txt"],
[("Yield/Drop","filter/ja/filter.go"),("list loading","filter/ja/loader.go loadConfig"),("options","filter/ja/filter.go BaseFormFilterOption/StopTagsFilterOption/StopWordsFilterOption")],
None,["ja.Filter.Yield/Drop results"])

p("C15","The tokenize command prints exactly the library's analysis of each line",
"For every input text and option combination, the tokenize command prints for each input line (or sentence, when splitting), in order, one record per non-marker token with the surface and comma-joined features (surface only for tokens without features) followed by an end line, or with the JSON option one valid JSON array per line holding every non-marker token's data record. The tokens are those of the library for the chosen dictionary, user dictionary and mode, text and JSON output list the same tokens, and nothing is printed for input that does not exist. (A line of more than 64 KiB ends the command with an error instead.)",
["inputs","configurations"],"all input files x all option combinations",
"The tests that inspect the output cannot run here and use three short lines in normal mode.",
["cmd/tokenize/cmd.go","kagome.go"],
[("line loop","cmd/tokenize/cmd.go command"),("printers","cmd/tokenize/cmd.go printTokens/printTokensJSON"),("dictionary and mode selection","cmd/tokenize/cmd.go selectDict/selectMode")],
None,["stdout and exit status of the kagome binary"])

p("C16","The HTTP API answers every request with exactly the library's analysis",
"Every well-formed request to the tokenize endpoint, whatever else the server is doing concurrently, is answered with status 200 and a JSON body with status true and the data records of the library's analysis of that request's sentence in that request's mode (normal unless 'Search' or 'Extended'), without markers; an empty or missing sentence gives an empty list. Every malformed request is answered with status 400 and a body that is valid JSON with status false and an error text. No request makes the server stop serving others or mixes data between requests.",
["inputs","schedules"],"all request bodies x all interleavings of concurrent requests",
"The handler tests that inspect bodies cannot run here, are sequential and contain no malformed request.",
["cmd/server/api.go","cmd/server/cmd.go"],
[("handler","cmd/server/api.go ServeHTTP"),("routing and dictionary choice","cmd/server/cmd.go command")],
None,["HTTP responses of a running server (race-instrumented)"])

p("C17","The demo page always completes and never lets input become markup",
"Every request to the demo page ends with a complete page, whatever the sentence contains and whatever the external graph renderer does (missing, failing, exiting without reading its input, producing garbage, hanging until the time limit), and no request leaves a goroutine or child process behind, and if the client disconnects, they end then and not only at the time limit. The page shows one row per non-marker token with the library's surface, part of speech, base form, reading and pronunciation ('*' when absent) in the selected mode (search mode for both 'Search' and 'Extended'), or an error message if rendering failed. Characters of the input only ever appear as text: they never create elements, attributes, links or scripts in the page or its graph.",
["inputs","fault_sequences","schedules"],"all sentences x renderer behaviours x client disconnects",
"Tests render one harmless sentence with a working renderer.",
["cmd/server/demo.go","cmd/server/asset/graph.html","cmd/server/asset/demo.html","tokenizer/lattice/lattice.go"],
[("renderer process handling","cmd/server/demo.go analyzeGraph"),("templates","cmd/server/demo.go ServeHTTP, cmd/server/asset"),("label quoting","tokenizer/lattice/lattice.go Dot")],
None,["HTTP responses, goroutine and child-process tables of a running server"])

p("C18","The server starts, fails and stops cleanly without cutting requests off",
"When the server command is cancelled or receives a hang-up, interrupt or terminate signal, it stops accepting connections, lets requests already being processed finish with their full response, releases its port and ends without error. If it cannot listen or its dictionary options are unusable it reports an error instead of running. It can be started and stopped repeatedly in one process, always with the configured dictionaries.",
["schedules","fault_sequences","configurations"],"all moments of cancellation relative to requests in flight x start-up failures",
"Tests start the server for 100 ms without sending any request and do not look at the port afterwards.",
["cmd/server/cmd.go"],
[("listen/cancel select and shutdown","cmd/server/cmd.go command"),("signal handling","cmd/server/cmd.go Run")],
None,["connections and exit status of a running server"])

p("C19","Commands accept exactly their documented options and fail loudly otherwise",
"Each command accepts exactly its documented options and values; unknown options, stray arguments, invalid mode or dictionary names, and unreadable or malformed input, dictionary or user-dictionary files make it end with a non-zero status and a message on standard error, with no analysis printed for them. The default command without a command name behaves exactly like the explicit tokenize command, the option check of each command accepts an argument list exactly when running it gets past option parsing, and the version command succeeds.",
["inputs","configurations"],"all argument lists",
"Tests try about five argument lists per command and do not run the program itself.",
["kagome.go","cmd/tokenize/cmd.go","cmd/lattice/cmd.go","cmd/sentence/cmd.go","cmd/server/cmd.go"],
[("dispatch","kagome.go main"),("option parsing","cmd/*/cmd.go parse/OptionCheck/Run")],
None,["exit status, stdout and stderr of the kagome binary"])

p("C20","A pooled object never has two owners at the same time",
"The memory pool never hands an object to a second caller while a first one still holds it, never returns nil, and only returns objects that its constructor made or that were put back, also under concurrent use. Every analysis and graph export gives back each lattice and node it borrowed at most once and never touches it afterwards.",
["schedules","histories"],"all interleavings of gets and puts, and all analyses",
"Ownership errors are silent until two analyses overlap in time; the pool tests use one goroutine and the other tests never overlap.",
["tokenizer/lattice/mem/pool.go","tokenizer/lattice/lattice.go","tokenizer/lattice/node.go"],
[("pool wrapper","tokenizer/lattice/mem/pool.go"),("release","tokenizer/lattice/lattice.go Free"),("deferred release","tokenizer/tokenizer.go Analyze/AnalyzeGraph")],
[("pool ownership","which objects are lent out","tokenizer/lattice/mem/pool.go")],
["hook on pool get/put"],"get/put observer in the pool, compiled in only with the build tag 'verif'")

p("C21","The sentence and lattice commands reproduce the library results",
"The sentence command prints exactly the sentences of the default splitter, one per line in order, for a file and for standard input alike. The lattice command writes exactly the graph of the library for its arguments joined by blanks, in the chosen mode and dictionaries, to standard output or, completely replacing previous contents, to the named file, and with the verbose option lists the tokens after the begin marker with their features on standard error.",
["inputs","configurations"],"all texts x option combinations",
"Tests run each command once or twice and mostly check only that no error occurs.",
["cmd/sentence/cmd.go","cmd/lattice/cmd.go","kagome.go"],
[("sentence loop","cmd/sentence/cmd.go command"),("graph output","cmd/lattice/cmd.go command")],
None,["stdout, stderr and output files of the kagome binary"])

p("C22","Every platform gives the same results",
"On 32-bit platforms and as WebAssembly the library and the commands compile and run, and for every input, dictionary, mode, option, filter and splitter setting they show exactly what they show on 64-bit platforms: the same tokens with all attributes and data records, words, graphs, filter results, sentences and command output. Nothing panics, overflows or hangs there that does not here.",
["inputs","configurations"],"all inputs x platforms (word size, number of threads, alignment)",
"Tests run on one 64-bit platform only; sizes, alignment, hashing and scheduling differ on the others.",
["tokenizer/tokenizer.go","tokenizer/lattice/lattice.go","tokenizer/token.go","filter/sentence_splitter.go","filter/feature.go","filter/word.go","filter/ja/filter.go","kagome.go"],
[("cost arithmetic in int32 and int","tokenizer/lattice/lattice.go"),("single-threaded scheduling in WebAssembly","tokenizer/lattice/mem/pool.go")],
None,["results of the same cases printed by programs built for linux/386 and js/wasm"])

p("C23","The WebAssembly tokenizer and its pages show exactly the library's tokens",
"For every string the tokenize function of the WebAssembly example returns exactly the library's non-marker tokens in order: id, class, character position, surface, part of speech joined by commas, base form, reading and pronunciation (empty when absent); a byte order mark at the very start, which the language's own glue code removes, excepted. The pages that show them list every token, and whatever a token holds is only ever shown as text: it never becomes elements, attributes or scripts of the page.",
["inputs"],"all strings given to the function or typed into the page",
"The example has no tests; neither have the pages.",
["_examples/wasm/main.go","_examples/wasm/kagome.html","docs/index.html"],
[("conversion of tokens","_examples/wasm/main.go tokenize"),("row building","_examples/wasm/kagome.html, docs/index.html")],
None,["return values of the function in node","what the page's script gives to the document"])

p("C24","No command reports success for output that was lost",
"If the tokenize, sentence or lattice command cannot write all of its output, because the device is full, a limit on the file size is reached or the reader has gone, on standard output or in the named output file, it ends with a non-zero status and a message on standard error, or by the signal that says so. Success means that the complete output has been written, however slowly it is taken.",
["fault_sequences","inputs"],"all outputs x all points at which writing fails",
"Tests write into buffers that never fail; an error on writing would not be noticed.",
["kagome.go","cmd/tokenize/cmd.go","cmd/sentence/cmd.go","cmd/lattice/cmd.go"],
[("remembered write error","kagome.go main"),("flush and close of the output file","cmd/lattice/cmd.go command")],
None,["exit status, standard error and what arrived at the end of the output"])

p("C25","Time and memory stay proportional to the text, and nothing is left behind",
"For every kind of text, analysis in every mode, word splitting, graph export, data records, filters and sentence splitting take time and allocate memory at most proportional to the length of the text (beyond lengths at which unknown words stop growing, and for texts delivered at once). However many calls are made, also with ever new texts, new tokenizers and dictionaries or failing output, the memory in use and the number of goroutines do not grow once the results are dropped; the same holds for the server and its files and processes, however many requests it has answered.",
["inputs","histories"],"all kinds of text at growing lengths, and all sequences of calls",
"Tests analyse short texts a few times; a quadratic step or a small leak per call does not show.",
["tokenizer/tokenizer.go","tokenizer/lattice/lattice.go","tokenizer/lattice/mem/pool.go","filter/sentence_splitter.go","filter/feature.go","filter/ja/filter.go","cmd/server/api.go","cmd/server/demo.go"],
[("one pass over the text","tokenizer/lattice/lattice.go Build/Forward"),("limit of unknown words","tokenizer/lattice/lattice.go"),("release to pools","tokenizer/lattice/lattice.go Free")],
None,["processor time and allocated bytes of calls","live heap and goroutines between rounds of calls"])

p("C26","The commands answer each line at once and in bounded memory",
"While the input of the tokenize or sentence command stays open, on standard input or in a named pipe, the complete answer to everything whose end has been given (a line, or when splitting a sentence with its delimiter and line feed) is printed without waiting for more, and nothing printed differs from what the complete input gives. The memory in use does not grow with the length of the input, however long it is.",
["inputs","histories"],"all texts x all points at which the input pauses",
"Tests give complete inputs of a few lines and look at the output at the end.",
["cmd/tokenize/cmd.go","cmd/sentence/cmd.go","filter/sentence_splitter.go"],
[("line loop and flush per line","cmd/tokenize/cmd.go command/printTokens/printTokensJSON"),("sentence loop","cmd/sentence/cmd.go command")],
None,["standard output of the kagome binary while its input is open","resident memory of the process"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
