"""The properties (source of properties.jsonl and MANIFEST.json; `python3 tools/gen.py` rewrites both)."""
def P(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=list(state), observe_at=[observe], hook_needed=hook))
RECS = [
P("P01", "Numbers, weights and strings survive the compressed file encoding",
  "Every unsigned integer below 2^30, every weight, and every string that is written in the compressed form used by compiled dictionary files is read back as the same value (weights up to the documented mantissa precision, exactly when they need no more), and the reader consumes exactly the bytes the writer produced, so values written one after another never bleed into each other. No byte sequence makes the integer decoder crash.",
  ["inputs"], "all integers, all doubles, all short strings including characters outside the BMP, any following bytes", "the encodings change length at 2^6, 2^14 and 2^22 and split doubles into mantissa and exponent; tests touch a few values",
  ["lttoolbox/compression.cc", "lttoolbox/compression.h"], [("variable length integers", "Compression::multibyte_write/_read"), ("weights", "Compression::long_multibyte_write/_read"), ("strings", "Compression::string_write/_read")], "return values of the readers, file position"),
P("P02", "Symbol alphabets keep their meaning, also through saving and loading",
  "An alphabet gives every symbol string and every symbol pair one stable code, different ones different codes, and code and string convert back into each other; symbols of two alphabets are the same exactly when they stand for the same thing, a wildcard for every tag or every character. After saving an alphabet (binary file or stream) and loading it again every symbol and pair has the same code and meaning, the alphabet can go on growing without clashes, and exactly the written bytes are consumed. Numbers, strings and containers written by the serialiser read back unchanged and truncated input is reported instead of accepted.",
  ["inputs", "histories"], "all sequences of a few symbols and pairs, all code points, every truncation point", "the mapping must hold for every insertion order and every character, tests use a fixed alphabet",
  ["lttoolbox/alphabet.cc", "lttoolbox/serialiser.h", "lttoolbox/deserialiser.h"], [("symbol and pair codes", "Alphabet::includeSymbol, operator(), decode"), ("binary format", "Alphabet::write/read"), ("stream format", "Alphabet::serialise/deserialise, Serialiser, Deserialiser"), ("tokenising", "Alphabet::tokenize, getSymbol, writeSymbol")], "codes, strings and pairs answered by the reloaded alphabet"),
P("P03", "Determinising, minimising and reversing preserve the weighted language",
  "Determinisation and minimisation change only the shape of a transducer: every string keeps exactly its acceptance and its best weight, the result has no two equal arcs leaving one state, and determinisation leaves no empty arcs. Reversal accepts exactly the mirrored strings with the same best weights, and joining final states or computing closures changes no string.",
  ["inputs", "programs"], "all transducers over the listed skeletons with any labels, weights and final states, all words up to the bound", "equality of languages for every automaton and word; tests compare a few dictionaries",
  ["lttoolbox/transducer.cc", "lttoolbox/transducer.h"], [("determinisation", "Transducer::determinize"), ("minimisation", "Transducer::minimize"), ("reversal", "Transducer::reverse"), ("closures and finals", "Transducer::closure, closure_all, joinFinals")], "the arcs, weights and finals of the resulting transducer"),
P("P04", "Building blocks combine transducers into exactly the specified language",
  "Inserting strings, inserting one transducer into another, union, optional, one-or-more and zero-or-more yield a transducer whose strings and best weights are exactly those of the mathematical operation on the operands. Operands passed as arguments are not changed, copies are independent of their originals, and clearing leaves an empty reusable transducer.",
  ["inputs", "programs"], "all operand transducers over the listed skeletons with any labels, weights and finals, all words up to the bound", "the algebraic law must hold for all operands; tests build a few shapes",
  ["lttoolbox/transducer.cc"], [("concatenation", "Transducer::insertTransducer"), ("union", "Transducer::unionWith"), ("closures", "Transducer::optional, oneOrMore, zeroOrMore"), ("tries", "Transducer::insertSingleTransduction"), ("values", "copy constructor, assignment, clear")], "the arcs, weights and finals of the resulting transducer"),
P("P05", "Composition, inversion and relabelling act on relations exactly as specified",
  "Composing two transducers relates exactly the pairs of strings linked through a common middle string, with the best summed weight, also when the two use differently numbered alphabets, when the first is applied inverted, and, when asked for anywhere, with unmatched stretches passed through. Inversion swaps the two sides; renaming into another alphabet, deleting or emptying chosen labels and adding equivalent characters affect exactly the arcs concerned and nothing else.",
  ["inputs", "programs"], "all pairs of small transducers over the listed skeletons and label pairs, all pairs of strings up to the bound", "relations over all operand pairs, tests hold a few fixed compositions",
  ["lttoolbox/transducer.cc"], [("composition", "Transducer::compose"), ("inversion", "Transducer::invert"), ("renaming", "Transducer::updateAlphabet"), ("label removal", "Transducer::deleteSymbols, epsilonizeSymbols"), ("equivalent characters", "Transducer::applyACX")], "the relation of the resulting transducer"),
P("P06", "Trimming keeps exactly the entries the other dictionary can handle",
  "Trimming a monolingual dictionary by a bilingual one keeps exactly those entries whose right side the bilingual dictionary accepts (followed by any tags when it was prepared that way), with their weights, and drops all others. Entries joined with + survive exactly when every part is accepted, and a # continuation is matched as if it directly followed the part before the first +. Marks of compound parts are passed over.",
  ["inputs", "programs"], "all small monolingual entries over letters, tags, +, # and compound marks, against all small bilingual dictionaries", "every combination of joins and continuations matters, tests have a handful",
  ["lttoolbox/transducer.cc"], [("trimming", "Transducer::trim"), ("prefix match", "Transducer::appendDotStar")], "the relation of the trimmed transducer"),
P("P07", "A compiled dictionary file gives back the dictionary that was written",
  "Reading a compiled dictionary, either for editing or for processing, gives exactly the letters, tags, sections, paths and weights that were written, for weighted and unweighted dictionaries and for files from before headers were introduced. Writing what was read produces the same bytes again. A file that announces features this version does not know is refused, and one with known features is never refused.",
  ["inputs", "programs"], "all small transducers over the listed skeletons with any labels, weights and finals; all 64-bit feature words", "each state, arc and flag goes through its own encoding; tests reload a few compiled dictionaries",
  ["lttoolbox/file_utils.cc", "lttoolbox/transducer.cc", "lttoolbox/trans_exe.cc", "lttoolbox/alphabet.cc"], [("file layout", "writeTransducerSet, readTransducerSet"), ("transducers", "Transducer::write/read"), ("processor's reader", "TransExe::read"), ("features", "header checks LTTB / LTTD")], "relation, letters and weights of the reloaded sections; bytes of a rewritten file"),
P("P08", "Analysis is the left-to-right longest match of the text against the dictionary",
  "Morphological analysis cuts a text from left to right into the longest dictionary words, where entries of the standard section end only at a word boundary and unconditional, preblank and postblank sections may end anywhere and add their blank; each known word is printed once with every distinct analysis it has, other letter sequences as one unknown word marked with an asterisk, and everything else as it is. Upper case in the text matches lower case in the dictionary and is carried over to the lemma, unless case-sensitive or dictionary-case mode is on, and ignored characters such as the soft hyphen do not affect matching unless switched off.",
  ["inputs", "programs"], "all texts up to the bound over tables of letters, capitals, punctuation, spaces and characters outside the BMP, for each of several dictionaries", "back-tracking depends on every later character; tests run a few sentences",
  ["lttoolbox/fst_processor.cc", "lttoolbox/state.cc", "lttoolbox/trans_exe.cc"], [("matching loop", "FSTProcessor::analysis"), ("parallel states", "State::step, filterFinals"), ("sections", "FSTProcessor::load/classifyFinals")], "bytes printed for a text"),
P("P09", "Analysis keeps all text, blanks and escapes in place",
  "Whatever the input, analysis loses, doubles and moves nothing: every character, every bracketed or word-bound blank and every escaped character comes out exactly once and in order (a blank inside a matched multiword directly after it), and reserved characters come out escaped. With null flushing each part between nulls is processed exactly as if it were the only input and its null is passed on.",
  ["inputs"], "all token sequences up to the bound made of characters, blanks with any contents and escapes; any single character from all Unicode categories", "blank queues and escapes interact with back-tracking; tests have a few formatted inputs",
  ["lttoolbox/fst_processor.cc", "lttoolbox/input_file.cc"], [("reading", "FSTProcessor::readAnalysis, readFullBlock, readEscaped"), ("blanks", "FSTProcessor::printSpace, flushBlanks, blankqueue"), ("null flush", "FSTProcessor::analysis at end of part")], "bytes printed for a text"),
P("P10", "Generation turns each lexical form into its surface form and keeps the rest",
  "Generation replaces each lexical unit by the surface forms the dictionary gives for exactly that lemma and tags, with the case of the lemma carried over, and leaves everything between units unchanged. Units without a form, and units marked unknown, untranslated or ungenerated, come out with or without mark and tags exactly as the selected mode documents, and careful-case mode lowers a letter only where the dictionary has no exact-case continuation. Nulls in the stream stay where they are and no unit influences another.",
  ["inputs", "histories"], "all lexical units up to the bound over tables of letters and tags, known and unknown, all marks and modes; streams of two units with any blanks", "modes, marks, case and escapes combine; tests hold a few per mode",
  ["lttoolbox/fst_processor.cc", "lttoolbox/state.cc"], [("generation", "FSTProcessor::generation, readGeneration"), ("careful case", "State::step_careful, firstNotLower"), ("output", "State::filterFinals")], "bytes printed for a stream"),
P("P11", "Bilingual lookup translates the longest known prefix and keeps the other tags",
  "Bilingual lookup prints for each lexical unit the unit itself followed by every distinct translation of its longest prefix known to the dictionary, with the tags after that prefix appended in order, the case carried over and best weight first; units with no translation are marked as such, unknown words pass through, and surface forms are kept or dropped as asked. The single-word lookup functions agree with the stream, blanks and nulls stay in place, and a tag the dictionary does not have never matches anything.",
  ["inputs", "histories"], "all units up to the bound over tables of letters, tags known and unknown to the dictionary, all modes, streams of two units with any blanks", "every split between matched and remaining tags matters; tests hold a few words",
  ["lttoolbox/fst_processor.cc", "lttoolbox/state.cc", "lttoolbox/alphabet.cc"], [("stream lookup", "FSTProcessor::bilingual, readBilingual"), ("single words", "FSTProcessor::biltrans, biltransWithQueue, biltransfull, lookup"), ("unknown tags", "Alphabet::operator()")], "bytes printed for a stream; strings returned"),
P("P12", "Post-generation and transliteration rewrite by longest match and keep the rest",
  "Post-generation and transliteration rewrite the text from left to right with the longest matching rule at each place, going on right after the replacement, carrying case over, and dropping the wake-up mark only in post-generation; text no rule matches comes back byte for byte. Blanks spanned by a rule are kept once and in order, word-bound blanks of merged words are combined, and nulls in the input end a part that is processed on its own.",
  ["inputs"], "all texts up to the bound over tables of letters, capitals, spaces, marks and characters outside the BMP, for several rule sets, with any blanks", "overlapping rules, partial matches and blanks interact; tests hold a few rules",
  ["lttoolbox/fst_processor.cc"], [("rewriting", "FSTProcessor::transliteration_drop_tilde, postgeneration, transliteration"), ("blanks", "FSTProcessor::wblank_merge/wblankqueue")], "bytes printed for a text"),
P("P13", "Weights add up along a path and decide which readings come first",
  "The weight of a reading is the sum of the weights along its best path, readings are printed from the best to the worst with weights shown correctly on request, and a reading reached in several ways is printed once with its best weight. A limit on readings or on weight classes keeps exactly that many of the best distinct readings or classes, in analysis, generation and bilingual lookup.",
  ["inputs", "programs"], "all weight assignments from the tables, all limits, words with several readings spread over sections", "ties, duplicates and limits combine; tests use one weighted dictionary",
  ["lttoolbox/state.cc", "lttoolbox/fst_processor.cc", "lttoolbox/trans_exe.cc"], [("sum along the path", "State::apply, epsilonClosure"), ("order and limits", "State::NFinals, filterFinals"), ("limits and display", "FSTProcessor::setMaxAnalysesValue, setMaxWeightClassesValue, setDisplayWeightsMode")], "bytes printed for a word"),
P("P14", "Compound analysis splits unknown words only into allowed parts",
  "With compound analysis switched on, a word with no reading of its own is read exactly as every split with the fewest joints into parts the dictionary allows on the left and on the right, up to the limit on parts, with joined readings, added weights and the requested case. Words in the dictionary and words without such a split are printed as without compound analysis.",
  ["inputs", "programs"], "all texts up to the bound over tables of letters, spaces, capitals and characters outside the BMP, for several dictionaries", "the number of splits grows with every part, tests have a few words",
  ["lttoolbox/fst_processor.cc", "lttoolbox/state.cc"], [("splitting", "FSTProcessor::compoundAnalysis"), ("restart", "State::restartFinals"), ("pruning", "State::pruneCompounds, pruneStatesWithForbiddenSymbol")], "bytes printed for a text"),
P("P15", "A compiled dictionary holds exactly the entries its source describes",
  "Compiling an XML dictionary in either direction yields, section by section, exactly the pairs of strings its entries describe: paradigms expanded in every position, regular expressions, blanks, joins, groups and marks as written, weights added up, and entries restricted to the other direction, another variant or alternative, or marked as ignored left out. The letters of the alphabet element are kept, and a dictionary with undefined tags or paradigms, unexpected elements or entries that would match nothing is refused.",
  ["inputs", "programs"], "all small dictionaries built from the listed entry shapes, paradigms, attributes and weights, all pairs of strings up to the bound", "paradigms, restrictions and positions combine; tests compile a few fixed dictionaries",
  ["lttoolbox/compiler.cc", "lttoolbox/transducer.cc", "lttoolbox/regexp_compiler.cc", "lttoolbox/xml_parse_util.cc"], [("entries and paradigms", "Compiler::procEntry, insertEntryTokens, procPar"), ("filtering", "Compiler::filterEntry"), ("sections", "Compiler::procSection, write"), ("regular expressions", "RegexpCompiler")], "sections and paths of the compiled file"),
P("P16", "Expanding a dictionary lists exactly its pairs, direction by direction",
  "Expanding an XML dictionary prints exactly the pairs of strings its entries describe, each marked for the direction or directions in which it holds: paradigms unfolded in every position, restrictions of entries and of paradigm entries combined, entries for another alternative or variant and ignored entries left out, blanks, joins, groups and tags as signs and every character with a meaning in the list escaped. Invalid dictionaries are refused.",
  ["inputs", "programs"], "all small dictionaries built from the listed shapes, restrictions and attributes; any characters in the texts", "restrictions and paradigms combine, tests expand one dictionary",
  ["lttoolbox/expander.cc"], [("unfolding", "Expander::procEntry, append"), ("texts", "Expander::readString"), ("filtering", "Expander::procEntry")], "lines printed"),
P("P17", "The dictionary tools turn compiled files into exactly the promised files",
  "Appending gives all sections of both files (the second or, on request, the first wins), inverting swaps the sides of all sections, trimming and composing act section by section against the union of the other file's sections (or the section of the same name on request), applying equivalent characters adds exactly those variants, and restricting a dictionary compiled for both directions gives what compiling for one direction gives. Letters, tags and weights are kept, also when the files number their tags differently.",
  ["inputs", "programs"], "all combinations of small files, sections, options and restrictions from the tables", "options, sections and alphabets combine, tests run a few files",
  ["lttoolbox/lt_append.cc", "lttoolbox/lt_invert.cc", "lttoolbox/lt_restrict.cc", "lttoolbox/lt_trim.cc", "lttoolbox/lt_compose.cc", "lttoolbox/lt_apply_acx.cc", "lttoolbox/acx.cc", "lttoolbox/cli.cc"], [("appending", "lt-append"), ("restricting", "lt-restrict, Compiler::symbolFilters"), ("trimming", "lt-trim"), ("composing", "lt-compose"), ("options", "CLI::parse_args")], "sections and paths of the file written"),
P("P18", "Text transducers compile to what they describe and survive print and recompile",
  "Compiling a transducer in ATT text form gives exactly the paths and weights the text describes, from the state of its first line, several transducers joined, symbols of several characters read one by one, and words put into the section their first character calls for. Printing a compiled dictionary and compiling the print again gives the same paths, the listed alphabet is that of the dictionary, and malformed text is refused.",
  ["inputs", "programs"], "all small texts over the listed skeletons, labels, weights, line orders and notations; any character", "shared states, orders and notations combine, tests hold a few files",
  ["lttoolbox/att_compiler.cc", "lttoolbox/transducer.cc", "lttoolbox/lt_print.cc"], [("reading", "AttCompiler::parse, add_transition"), ("splitting", "AttCompiler::classify_forwards, classify_backwards, extract_transducer"), ("printing", "Transducer::show, lt-print")], "sections and paths of the compiled file, text printed"),
P("P19", "Merging marked words and splitting them again gives back the text",
  "Merging replaces each run of lexical units from one marked as beginning to one marked as ending by a single unit whose surface form is the escaped text of the whole run and whose readings are the run's mark, and leaves everything else byte for byte as it was. Splitting merged units again gives back exactly the original text, units, blanks and word-bound blanks included, also for a run that is not closed before a null or the end of the input.",
  ["inputs"], "all streams of up to three units with any marks, blanks and escapes from the tables, with and without nulls", "marks, escapes and blanks combine over the whole run; tests hold a few streams",
  ["lttoolbox/fst_processor.cc", "lttoolbox/lt_merge.cc"], [("merging", "FSTProcessor::quoteMerge"), ("splitting", "FSTProcessor::quoteUnmerge"), ("tool", "lt-merge")], "bytes printed for a stream"),
P("P20", "Regular expressions in dictionaries accept exactly the strings they describe",
  "A regular expression in a dictionary entry compiles to exactly the set of strings it describes: sequences, alternatives, groups, lists and ranges of characters and their complements, optional and repeated parts, and escaped signs, each string related to itself. A malformed expression is refused with an error instead of being compiled to something else.",
  ["inputs", "programs"], "all expressions up to the bound over the signs of the language and letters, also outside the BMP, and all strings up to the bound", "every nesting of operators matters; tests use a few expressions",
  ["lttoolbox/regexp_compiler.cc", "lttoolbox/compiler.cc"], [("parser and construction", "RegexpCompiler::S, RExpr, Term, Esp, Lista, Postop"), ("entry point", "Compiler::procRegexp")], "strings accepted by the compiled section"),
P("P21", "The options of the processor select exactly the documented processing",
  "Every combination of command-line options of the stream processor either selects exactly the documented task, mode, case handling, limits and display, in short and long form and any order, or is refused with an error. Characters listed as ignored are treated as if they were not in the text (the soft hyphen by default, unless switched off), and characters listed for restoration match every character they may stand for.",
  ["inputs", "programs"], "all sets of up to two of the flags and sets of four in one argument, all listed limits, all tables of ignored and restored characters from the harness and all texts up to the bound", "options combine quadratically, tests use a few command lines and no character files",
  ["lttoolbox/lt_proc.cc", "lttoolbox/cli.cc", "lttoolbox/fst_processor.cc"], [("options", "lt_proc main, CLI::parse_args"), ("ignored characters", "FSTProcessor::parseICX, readAnalysis"), ("restored characters", "FSTProcessor::parseRCX, analysis, State::apply")], "bytes printed, exit status"),
P("P22", "The compiler command compiles what its arguments ask for",
  "The compiler command compiles the given dictionary in the given direction for the given alternative and variants, keeps or drops morpheme boundaries as asked, adds exactly the variants with equivalent characters, and recognises text transducers; an unknown direction, a variant of the wrong side or a malformed file of equivalent characters is refused. A limit on the size of sections only changes how entries are spread over sections. In separable dictionaries wildcards stand for one or more tags or characters and every entry may be followed by a word boundary.",
  ["inputs", "programs"], "all directions and sets of up to two of the variant options, all small dictionaries built from the listed entries, wildcards and boundaries, all string pairs up to the bound", "options, shared prefixes and wildcards combine; tests compile a few fixed files",
  ["lttoolbox/lt_comp.cc", "lttoolbox/compiler.cc", "lttoolbox/acx.cc", "lttoolbox/cli.cc"], [("command line", "lt_comp main"), ("strings, wildcards, equivalents", "Compiler::matchTransduction"), ("sections", "Compiler::procNode, setMaxSectionEntries"), ("separable", "Compiler::parse, readString")], "sections and paths of the compiled file, exit status"),
P("P23", "A pattern lists exactly the paths of the dictionary that match it",
  "The listing tool prints, for each pattern in its input, every path of the dictionary whose tagged side matches the pattern (letters, any letters, tags, alternatives of tags, any tags with or without exceptions) with its other side, and no other path; a tag that does not exist matches nothing. Excluded tags are left out of wildcards, sorting gives each path once in order, and the listings are separated as the patterns are.",
  ["inputs", "programs"], "all patterns up to the bound over the listed elements, all option sets", "wildcards combine with each other and with every shape of entry; tests run a handful of patterns",
  ["lttoolbox/lt_paradigm.cc", "lttoolbox/symbol_iter.cc", "lttoolbox/transducer.cc"], [("patterns", "process, split_tag"), ("listing", "expand"), ("command line", "lt_paradigm main")], "lines of the listing"),
P("P24", "Pattern lists give each word the first pattern that matches it",
  "A list of patterns (lemma and tags with wildcards, alone or as sequences joined with plus, built from items, from labels or from both) gives every word, read symbol by symbol, the number of the first pattern that matches it, or none if there is none; a part of a word may carry an invariable queue. A list that is saved and loaded or copied, and a match that is copied half way, go on as the original would, and calls outside a sequence that belong inside one are refused.",
  ["inputs", "programs"], "all pairs of patterns from the table of shapes, all words up to the bound with any tags, queue and second part", "wildcards, queues and shared beginnings of patterns interact; no test builds a pattern list",
  ["lttoolbox/pattern_list.cc", "lttoolbox/match_exe.cc", "lttoolbox/match_state.cc", "lttoolbox/match_node.cc", "lttoolbox/sorted_vector.cc"], [("patterns", "PatternList::insert, beginSequence, endSequence, buildTransducer"), ("matching", "MatchState::step, classifyFinals"), ("files", "PatternList::write, read, serialise, deserialise")], "number given to a word"),
P("P25", "Text and stream units are read exactly as they are written",
  "Reading UTF-8 text character by character gives exactly its characters for every code point, looking ahead and putting back change nothing, starting over or going on with another input gives that input from its first character, and malformed text is reported as an error instead of being read as something else. Reading a stream unit by unit gives the blanks, word-bound blanks, readings with their marks, escapes and symbols, and chunk contents exactly as written, with nulls and the end of input reported where they are. Converting between UTF-8, strings and code points and cutting a string into letters, escaped letters and tags loses nothing.",
  ["inputs"], "all code points (except the noncharacter U+FFFF that stands for the end of input), all byte sequences of up to four bytes, all streams up to the bound built from the listed readings, blanks and chunks", "every code point, byte sequence and combination of blanks and escapes matters; tests read a few plain streams",
  ["lttoolbox/input_file.cc", "lttoolbox/stream_reader.cc", "lttoolbox/ustring.cc", "lttoolbox/ustring.h", "lttoolbox/symbol_iter.cc"], [("characters", "InputFile::internal_read, get, peek, unget"), ("blanks", "InputFile::readBlank, readBlock, finishWBlank"), ("units", "StreamReader::next"), ("symbols", "symbol_iter::iterator")], "characters, fields of each unit, symbols of a string"),
P("P26", "String helpers treat every string as documented, by whole characters",
  "Trimming, splitting (also with escapes), joining, replacing and testing beginnings and ends of strings give exactly what they promise for every string, also for empty ones, ones of nothing but blanks and ones with characters outside the basic plane. Changing the case of a word, telling its case and carrying its case over to another word work on whole characters, also when a letter becomes several. Numbers turned into text read back as the same number, text that is no number is refused, and merging two word-bound blanks keeps the contents of both.",
  ["inputs"], "all strings up to the bound over the tables (any characters of the basic plane for trimming), all letters of the table for case", "the length of a string, its last character and growing letters are corner cases; no test calls these helpers with them",
  ["lttoolbox/string_utils.cc"], [("cutting", "StringUtils::trim, split, split_escaped, join, substitute"), ("case", "StringUtils::toupper, totitle, tolower, getcase, copycase, caseequal"), ("numbers", "StringUtils::stoi, stod, itoa, ftoa"), ("blanks", "StringUtils::merge_wblanks")], "value returned"),
P("P27", "Translation memories are compiled exactly, replace whole segments, lose no text",
  "lt-tmxcomp relates, for each unit of the memory whose two sides have at least five symbols, exactly the text of the first language (without surrounding blanks) to that of the second: a number of the first side stands for any number and an equal number of the second side for the one found there, mark-up within a segment for a blank; other languages, shorter units and text outside units contribute nothing. lt-tmxproc replaces a segment that begins at the start of the text or after a word which begins no segment, and that is followed by a punctuation mark (with -s also by a space), by its translation in square brackets with reserved characters escaped and the numbers and marked blanks of the text put in. All other text comes out unchanged, also at the end of the input and before a null character, and text before a null character has no influence on what follows.",
  ["inputs", "programs"], "all units up to the bound with any letters of the table, forms of the file, numbers and mark-up; all texts up to the bound around a segment, with any following character and any digits", "where a text stops within a segment, which characters, numbers and blanks surround it are combinations the few tests do not reach",
  ["lttoolbox/tmx_compiler.cc", "lttoolbox/lt_tmxcomp.cc", "lttoolbox/lt_tmxproc.cc", "lttoolbox/fst_processor.cc", "lttoolbox/state.cc"], [("compiling", "TMXCompiler::procTU, align, align_blanks, insertTU"), ("reading", "FSTProcessor::readTMAnalysis"), ("replacing", "FSTProcessor::tm_analysis, State::filterFinalsTM")], "pairs of the compiled memory, text written"),
P("P28", "Command lines are read as documented in any order, or refused with an error",
  "Every option is recognised in its short form, joined with others, in its long form and by an unambiguous beginning of it, wherever it stands among the files; its value is exactly the text given, repeated values are kept in order, and what follows -- is a file. The files come in the order given. A command line with an unknown or ambiguous option, a missing or unwanted value or a wrong number of files is refused with a failing exit status by every tool, as is an input that does not exist: no tool reports success where it did not do its work.",
  ["inputs"], "all command lines up to the bound over the listed elements; every tool with every kind of wrong command line", "the order of options, values and files and their combinations are many; tests call each tool in one or two fixed ways and never with an error",
  ["lttoolbox/cli.cc", "lttoolbox/cli.h", "lttoolbox/lt_append.cc", "lttoolbox/lt_proc.cc", "lttoolbox/lt_tmxcomp.cc", "lttoolbox/file_utils.cc"], [("arguments", "CLI::parse_args"), ("options", "CLI::add_str_arg, add_bool_arg, add_file_arg"), ("files", "openInBinFile, openOutBinFile, InputFile::open_or_exit")], "options, values and files taken; exit status"),
P("P29", "Working on several sections at once gives the same result for every schedule",
  "With the option for parallel jobs the compiler minimises and lt-compose composes each section of a dictionary in a task of its own. No two tasks that can run at the same time, nor a task and the program that waits for it, use the same data while one of them changes it, unless both hold the same lock; so every schedule gives what working on the sections one after another gives: exactly the sections the source or the two dictionaries describe.",
  ["schedules", "inputs"], "all schedules of the tasks of a run, all dictionaries up to the bound", "a race shows in rare schedules only; the tests run small dictionaries, and lt-compose without parallel jobs",
  ["lttoolbox/compiler.cc", "lttoolbox/lt_compose.cc", "lttoolbox/transducer.cc", "lttoolbox/sorted_vector.hpp", "lttoolbox/alphabet.cc"], [("tasks of the compiler", "Compiler::parse"), ("tasks of lt-compose", "compose"), ("what tasks run", "Transducer::minimize, Transducer::compose, sorted_vector::insert")], "data used by tasks that run at the same time; sections of the result"),
]
TECH = "symbolic execution of the LLVM IR of the current sources with Z3 deciding every branch and assertion within stated bounds; counterexamples replayed natively"
NOTE = "bounded: holds for every value within the bounds listed in the evidence file; trusts clang's IR generation, the interpreter in engine/, Z3 and the environment models in model/ (validated each run by replaying sampled paths against the real libraries)"
NA = []
