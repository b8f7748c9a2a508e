"""Harness entries, bounds and assumptions per property."""
COMMON_ASSUMPTIONS = ["x86-64 LLVM IR of the current /repo sources at -O1 (clang 18), C locale", "libstdc++ templates are the real headers; iostream, stdio, ICU I/O and character tables, libxml2 and the red-black-tree runtime are environment models (model/)", "single-threaded execution; allocation succeeds"]
PROPS = {}
def E(name, what, reach=(0,), **kw): return dict(name=name, what=what, reach=list(reach), **kw)
PROPS["P01"] = dict(harness=["codec"], bounds={"quick": "all 32-bit integers; all doubles with up to 52 mantissa bits; strings up to 2 code points, any following byte", "thorough": "same, strings up to 3 code points"}, outside="longer strings (the loop treats each character alike)", entries=[
  E("h_varint_roundtrip", "write/read of any value below 2^30 returns it", [0,1,2]), E("h_varint_prefix_free", "two values in a row stay apart"), E("h_varint_range", "larger values are refused, not mangled"), E("h_varint_decode_total", "any bytes decode without a crash"),
  E("h_string_long","strings of up to 1000 characters"), E("h_weight_exact", "weights with short mantissa are exact"), E("h_weight_truncates", "other weights lose only trailing bits"), E("h_weight_special", "zero, infinities, extremes"), E("h_string_roundtrip", "strings incl. outside the BMP", [0,1])])
PROPS["P02"] = dict(harness=["alpha"], bounds={"quick": "up to 3 tags/pairs in any order, any code points; up to 2-element containers; all truncations", "thorough": "up to 2 tags and 2 pairs, longer tags"}, entries=[
  E("h_ser_u64","64-bit integers"), E("h_ser_u32","32-bit integers"), E("h_ser_small","8/16-bit"), E("h_ser_double","doubles"), E("h_ser_containers","strings, vectors, pairs"), E("h_ser_map","maps, sets"), E("h_deser_truncated","truncated input throws"),
  E("h_ser_sizes","containers of up to 300 elements"), E("h_alpha_big","up to 300 tags and pairs"), E("h_alpha_symbols","symbol codes are a bijection"), E("h_alpha_pairs","pair codes are a bijection"), E("h_alpha_file","binary save/load"), E("h_alpha_stream","stream save/load"), E("h_alpha_any","wildcards and loops"), E("h_alpha_same","symbol identity across alphabets"), E("h_alpha_write","printing a symbol"), E("h_alpha_tokenize","tokenising text into symbols")])
FSK = {"quick": "2-4 states, 2-5 arcs over the first skeletons of harness/fst.cc, labels from {empty,1,2}, weights from a table of quarter units, all words up to length 3", "thorough": "all skeletons, words up to length 4, more weights"}
PROPS["P03"] = dict(harness=["fst"], bounds=FSK, outside="larger automata; weights that are not small multiples of 1/4", entries=[
  E("h_determinize","language and shape"), E("h_minimize","language and shape"), E("h_minimize_w","weights"), E("h_determinize_w","weights"), E("h_reverse","mirror language"), E("h_join_finals","language unchanged"), E("h_closure","closure is reachability")])
PROPS["P04"] = dict(harness=["fst"], bounds=FSK, outside="larger operands", entries=[
  E("h_insert_transducer","concatenation at a state"), E("h_union","union"), E("h_optional","optional"), E("h_one_or_more","positive closure"), E("h_zero_or_more","closure"), E("h_trie","string insertion"), E("h_copy","copies are values"), E("h_clear","clear empties")])
RSK = {"quick": "3 states, 2-3 arcs, label pairs from the tables of harness/fst2.cc, all string pairs up to length 2", "thorough": "more skeletons, labels and weights"}
PROPS["P05"] = dict(harness=["fst2"], bounds=RSK, outside="larger relations", entries=[
  E("h_invert","inversion"), E("h_compose","composition"), E("h_compose_w","weights of a composition"), E("h_compose_inv","inverted composition"), E("h_compose_any_inv","composition of the inverted first one anywhere"), E("h_compose_anywhere","anywhere composition"), E("h_update_alphabet","renaming"), E("h_delete_symbols","label removal"), E("h_acx","equivalent characters")])
PROPS["P06"] = dict(harness=["fst2"], bounds={"quick": "two monolingual entries (up to 2 symbols, or a+bXY with any X,Y from letters, tag, +, #; any word of 5 letters, +, # and compound marks) against dictionaries of two entries or the listed ones", "thorough": "all 63 dictionaries, more symbols"}, outside="longer entries", entries=[
  E("h_dotstar","any-tags suffix"), E("h_trim_simple","entries without joins"), E("h_trim_join","entries with + and #"), E("h_trim_parts","any word of parts, marks of compounds")])
PROPS["P08"] = dict(harness=["ana"], bounds={"quick": "six dictionaries, all texts of 4-6 characters over tables of 4-6 characters", "thorough": "texts of 5-8 characters"}, outside="longer texts, other dictionaries", entries=[
  E("h_ana0","multiwords"), E("h_ana1","sections"), E("h_ana2","blank sections"), E("h_ana3","case"), E("h_ana4","non-BMP"), E("h_ana5","leading punctuation"), E("h_ana_types","kinds of sections"), E("h_ana_long","texts longer than the buffer"),E("h_ana_longword","words longer than the buffer"),E("h_ana_modes","case modes"), E("h_ana_ties","ambiguity"), E("h_ana_ignored","ignored characters",[0,1])])
PROPS["P09"] = dict(harness=["ana"], bounds={"quick": "texts of 3-4 tokens: characters, bracketed blanks, escapes", "thorough": "one more token"}, outside="longer texts", entries=[
  E("h_blank0","blanks in a multiword"), E("h_blank1","blanks and escapes"), E("h_blank2","blank sections"), E("h_blank3","apostrophes"), E("h_anychar","any Unicode character"), E("h_nullflush","null flush"), E("h_blank_any","blanks with any contents"), E("h_blank_many","several blanks in one word")])
PROPS["P10"] = dict(harness=["gen"], bounds={"quick": "lemmas up to 3 characters over tables of 4-8, 5 tag sequences, all 7 modes and 6 marks; streams of 2 units", "thorough": "longer lemmas"}, outside="longer lemmas and streams, other dictionaries", entries=[E("h_gen0","case options"),E("h_gen1","escapes, accents"),E("h_gen2","non-BMP"),E("h_gen_wake","forms with the wake-up mark"),E("h_gen_modes","modes and marks"),E("h_gen_careful","careful case"),E("h_gen_stream","text between units"),E("h_gen_null","nulls"), E("h_gen_blank","blanks with any contents")])
PROPS["P12"] = dict(harness=["post"], bounds={"quick": "texts of 5-7 characters over tables of 3-5, five rule sets; 3 words with blanks", "thorough": "texts of 6-8 characters"}, outside="longer texts, other rule sets", entries=[E("h_post0","overlapping rules"),E("h_post1","wake-up mark, rules ending in a space"),E("h_post2","insertion before a letter"),E("h_post3","deletion, capitals"),E("h_post4","rules over several words"),E("h_post_case","case"),E("h_post_blank","blanks and word-bound blanks"),E("h_post_span","word-bound blanks over several words"),E("h_post_tags","tags"),E("h_post_id","no rule matches"),E("h_post_null","nulls"), E("h_post_any","blanks with any contents")])
PROPS["P11"] = dict(harness=["bil"], bounds={"quick": "lemmas up to 3 characters over tables of 5-7, 7 tag sequences with unknown tags, 4 modes; streams of 2 units", "thorough": "longer lemmas"}, outside="longer lemmas and streams, other dictionaries", entries=[E("h_bil0","prefix and queue"),E("h_bil1","case, any-character"),E("h_bil2","non-BMP, star, space"),E("h_bil_modes","modes"),E("h_bil_hash","units starting with #"),E("h_bil_unknown","unknown words"),E("h_bil_stream","text between units"),E("h_bil_surf","surface forms"),E("h_bil_null","nulls"),E("h_bil_api","single words"),E("h_lookup_api","lookup"), E("h_bil_blank","blanks with any contents")])
PROPS["P07"] = dict(harness=["file"], bounds={"quick": "four-state transducers over 6 skeletons of 4 arcs, label pairs from a table with tags, empty sides and a non-BMP letter, weights from a table, all string pairs up to length 2; all 2^64 feature words in either header, both readers", "thorough": "more labels and weights"}, outside="transducers with more states or symbols; truncated files", entries=[E("h_file_fst","read back for editing"),E("h_file_fst_w","the same with weights"),E("h_file_old","files without headers"),E("h_file_exe","read back for processing",[0,1]),E("h_file_big","chains of up to 300 states"), E("h_file_features","unknown features",[0,1]),E("h_file_stable","rewriting")])
PROPS["P13"] = dict(harness=["wt"], bounds={"quick": "words with 4 readings in 2 sections, weights from a table, limits 1-3 on readings and 1-2 on classes or none; a weighted path of 4 arcs", "thorough": "more weights and limits"}, outside="more readings, other weights", entries=[
  E("h_best_ana","best readings in analysis",[0,1]), E("h_best_gen","in generation",[0,1]), E("h_best_bil","in bilingual lookup",[0,1]), E("h_path_sum","weight of a path",[0,1]), E("h_show","display"), E("h_nbest","any weights and limits")])
PROPS["P14"] = dict(harness=["cmp"], bounds={"quick": "six dictionaries of 4-7 left and right parts, all texts of 4-7 characters over tables of 3-6; at most 1-4 joints; one dictionary with a left part that contains a blank", "thorough": "one more character"}, outside="longer texts, other dictionaries; case of letters outside the BMP", entries=[
  E("h_cmp0","parts, unknown rest"), E("h_cmp1","ambiguous parts"), E("h_cmp_w","weights of compounds"), E("h_cmp_case","case modes"), E("h_cmp_names","names of the marks"), E("h_cmp_uni","letters outside the BMP"), E("h_cmp_short","parts with little output"),E("h_cmp_max","limit on joints"), E("h_cmp_space","blank inside the first part",[0,1])])
PROPS["P15"] = dict(harness=["dix"], bounds={"quick": "dictionaries with 2 paradigms of 1-2 entries (also nested) and 1-2 sections of 1-3 entries, every combination of 8 entry shapes, restrictions, alternatives, variants, ignored entries, weights from a table, 8 kinds of special elements, 4 regular expressions, comments between elements, both directions; all pairs of strings up to length 3 over the symbols of the dictionary; 7 kinds of invalid entry", "thorough": "one entry more, more weights"}, outside="larger dictionaries, separable and post-generation compilation, XML parsing itself (libxml2 is modelled)", entries=[
  E("h_dix_par","paradigms in every position"), E("h_dix_attr","restrictions, variants, alternatives, ignored entries"), E("h_dix_name","names of variants"), E("h_dix_w","weights add up along an entry"), E("h_dix_sec","sections, letters, blanks, joins, groups, marks"), E("h_dix_re","regular expressions"), E("h_dix_errors","invalid dictionaries are refused")])
PROPS["P16"] = dict(harness=["expand"], bounds={"quick": "dictionaries with 2 paradigms of 1-2 entries (also nested) and 2 entries in 8 shapes, every combination of restrictions, variants, alternatives, ignored entries; all pairs of 25 characters and elements in each position of an entry; 4 kinds of invalid entry", "thorough": "same with more second characters"}, outside="larger dictionaries, separable dictionaries, regular expressions (covered by the tests only), XML parsing itself (libxml2 is modelled)", entries=[
  E("h_exp_par","paradigms and restrictions"), E("h_exp_attr","variants, alternatives, ignored entries"), E("h_exp_text","escaping, elements, boundaries"), E("h_exp_group","groups"),E("h_exp_re","regular expressions"),E("h_exp_errors","invalid dictionaries are refused")])
PROPS["P17"] = dict(harness=["tools"], mains=["lt_append","lt_invert","lt_restrict","lt_trim","lt_compose","lt_apply_acx"], bounds={"quick": "pairs of files with 1-2 sections of 1-2 entries picked from tables of 4-7, tags numbered differently, letters outside the BMP; every option; dictionaries of 3 entries and a paradigm with every combination of restriction and variant for lt-restrict; all pairs of strings up to length 2-3", "thorough": "all table entries"}, outside="larger files, joined entries in lt-trim (P06), lt-compose -a on files (P05), parallel jobs", entries=[
  E("h_append","lt-append",[0,1]), E("h_inverted","lt-invert"), E("h_restrict","lt-restrict",[0,1]), E("h_restrict_many","restrictions that list several names",[0,1]), E("h_trim_secs","lt-trim",[0,1]), E("h_compose_any","composition anywhere",[0,1]), E("h_trim_many","trimming with several sections matched by name"), E("h_trim_group","lt-trim with groups",[0,1]), E("h_compose_secs","lt-compose",[0,1]), E("h_acx_secs","lt-apply-acx")])
PROPS["P18"] = dict(harness=["att"], mains=["lt_print"], bounds={"quick": "texts of 4 arcs over 6 skeletons with labels from a table of 5 (any single code point in symbols of several characters), line orders, weights, notations of the empty symbol, one or two transducers, both directions; all pairs of strings up to length 2-3; 9 kinds of malformed text; printed dictionaries of 1-2 sections", "thorough": "more labels and orders"}, outside="larger texts; weights beyond 6 decimals; a letter that is spelled like an empty symbol of the notation", entries=[
  E("h_att_read","reading"), E("h_att_w","weights"), E("h_att_many","several transducers"), E("h_att_case","letters of a text in either case"), E("h_att_multi","symbols of several characters"), E("h_att_split","splitting",[0,1]), E("h_att_print","printing and reading again",[0,1,2]), E("h_print_alpha","alphabet listing"), E("h_att_errors","malformed text is refused")])
PROPS["P19"] = dict(harness=["quote"], mains=["lt_merge"], bounds={"quick": "streams of 1-3 units with any marks of begin and end, blanks from a table of 5 (also with escapes and brackets), word-bound blanks, forms of 1-2 characters from a table of 9, nulls; pairs out of 10 other units", "thorough": "one unit more"}, outside="forms that start with one of the marks * # = % @ (the reader takes it for the mark of an unknown word and merging drops it on purpose), longer streams", entries=[
  E("h_merge","any two units"), E("h_merge_blank","blanks and escapes inside a merged unit"), E("h_merge_three","three units"), E("h_merge_null","nulls"), E("h_merge_other","everything else unchanged"), E("h_merge_main","lt-merge")])
PROPS["P20"] = dict(harness=["regex"], bounds={"quick": "every expression of up to 3 of the 13 signs and letters, of 5 signs for alternatives, groups and repetition, lists of 3 elements, negated lists, ranges beyond the BMP; all strings up to length 2-3; expressions inside entries and paradigms, both directions", "thorough": "one sign more"}, outside="longer expressions; negated lists cover characters up to U+00FF only (as the code documents by construction)", entries=[
  E("h_re_all","any signs",[0,1]), E("h_re_ops","alternatives, groups, repetition",[0,1]), E("h_re_brk","lists of characters",[0,1]), E("h_re_nest","repeated groups",[0,1]), E("h_re_neg","negated lists"), E("h_re_uni","letters outside the BMP"), E("h_re_entry","expressions inside entries")])
PROPS["P21"] = dict(harness=["opt"], mains=["lt_proc"], bounds={"quick": "every set of up to two of 19 flags in short and long form, sets of four flags in one argument with null flushing, 8 values of each limit; 1-2 ignored characters out of 5 and texts of 3-4 tokens; 7 tables of restored characters and words of 1-2 characters out of 7", "thorough": "one more character"}, outside="larger option sets, standard input and output, the SAO format", entries=[
  E("h_opt_two","any two options",[0,1,2]), E("h_opt_many","options in one argument",[1,2]), E("h_opt_num","limits"), E("h_opt_icx","ignored characters"), E("h_opt_rcx","restored characters",[0,1]), E("h_opt_files","missing files")])
PROPS["P22"] = dict(harness=["comp"], mains=["lt_comp"], bounds={"quick": "one dictionary with every kind of restriction, all directions and sets of up to two of the options for alternative and variants; boundaries in 3 positions; dictionaries of 2-3 entries out of 7 with a paradigm and 3 tables of equivalent characters; section limits 1-3; separable dictionaries of 2 entries out of 9 elements; one text transducer in every mode; all string pairs up to length 2-5", "thorough": "all elements of separable dictionaries"}, outside="parallel minimisation (threads), the line numbers inserted with -d, larger dictionaries", entries=[
  E("h_comp_opts","directions and variants",[0,1]), E("h_comp_bound","morpheme boundaries"), E("h_comp_acx","equivalent characters",[0,1]), E("h_comp_max","limit on the size of a section"), E("h_comp_lsx","separable dictionaries"), E("h_comp_att","text transducers"), E("h_comp_errors","errors")])
PROPS["P24"] = dict(harness=["pat"], bounds={"quick": "lists of 2-3 patterns from a table of 11 lemma and tag shapes with wildcards, sequences of items and labels; words of 1-3 characters with up to 3 tags, a queue and a joined second word; words of about 1100 characters over the ring of states", "thorough": "the same"}, outside="adjacent wildcards, banned rules, copies of the compiled automaton", entries=[
  E("h_pat","two patterns",reach=[0,1]), E("h_pat_queue","queues",reach=[0,1]), E("h_pat_seq","sequences and labels",reach=[0,1]), E("h_pat_mixed","items and labels in one list",reach=[0,1]), E("h_pat_file","save, load and copy",reach=[0,1]), E("h_pat_state","copies of a state"), E("h_pat_long","long words"), E("h_pat_errors","misplaced calls")])
PROPS["P23"] = dict(harness=["para"], mains=["lt_paradigm"], bounds={"quick": "two dictionaries of 6-9 entries in 1-2 sections, every pattern of up to 2-3 of 13 kinds of elements with any letters from a table of 3-4; every option; up to 3 patterns separated by newlines or nulls", "thorough": "patterns one element longer"}, outside="longer patterns, dictionaries with cycles, entries with joins; letters that the dictionary does not list as letters", entries=[
  E("h_para","any pattern",[0,1]), E("h_para3","longer patterns",[0,1]), E("h_para_opt","options",[0,1]), E("h_para_many","several patterns",[0,1])])
PROPS["P29"] = dict(harness=["jobs"], mains=["lt_comp","lt_compose"], sanitizer="thread", bounds={"quick": "dictionaries of 2-3 sections with 1-3 entries each out of 5 kinds or with any letters of a table of 5, both directions; compositions of 1-3 sections; all schedules of the tasks: each runs once, and no byte that one of them writes may be used by another one that can run at the same time (without a common lock)", "thorough": "more entries"}, outside="larger dictionaries; results that depend on the order in which tasks take a lock; the threads of the C++ library itself", entries=[
  E("h_jobs_comp","minimising sections at the same time"),E("h_jobs_any","sections with any letters"),E("h_jobs_compose","composing sections at the same time")])
PROPS["P28"] = dict(harness=["cli"], mains=["lt_append","lt_apply_acx","lt_comp","lt_compose","lt_expand","lt_invert","lt_merge","lt_paradigm","lt_print","lt_proc","lt_restrict","lt_tmxcomp","lt_tmxproc","lt_trim"], bounds={"quick": "command lines of up to 3 elements out of 22 (options with and without values, short, joined, long, shortened, ambiguous, unknown; files; the end of the options), every number of files from 0 to 5; any two bytes after a dash, any three after two dashes, values of any two bytes; all 14 tools with too few or too many files, unknown options at every place and missing input", "thorough": "4 elements"}, outside="longer command lines; getopt_long is an environment model, checked against the C library on sampled paths", entries=[
  E("h_cli_args","options, values and files in any order"),E("h_cli_count","number of files"),E("h_cli_letters","joined options of any letters"),E("h_cli_long","long options of any letters"),E("h_cli_value","values of any letters"),E("h_cli_version","version"),E("h_cli_tool","the tools refuse wrong command lines and missing files")])
PROPS["P27"] = dict(harness=["tm"], mains=["lt_tmxcomp","lt_tmxproc"], bounds={"quick": "memories of 1-2 units with any letters from a table of 13, every order of 2-3 languages, sides of 3-6 symbols, 8 kinds of numbers and mark-up; a memory of 6 units used on texts of up to two segments, 5 beginnings, 10 following characters, 12 texts cut off in the middle, all texts of up to 3 characters from a table of 9, pairs of parts with a null between them", "thorough": "texts of 4 characters"}, outside="memories of more units; formatting blanks within a segment where the unit has no mark-up; segments that begin within a failed one; malformed files", entries=[
  E("h_tm_unit","one unit",[0]), E("h_tm_file","forms of the file",[0]), E("h_tm_short","length of the sides",[0]), E("h_tm_num","numbers and mark-up",[0]), E("h_tm_use","a segment in a text",[0,1]), E("h_tm_other","text without a segment",[0,1]), E("h_tm_text","any text",[0]), E("h_tm_null","parts",[0]), E("h_tm_two","two segments",[0]), E("h_tm_any","any following character",[0,1]), E("h_tm_digits","any digits",[0,1]), E("h_tm_many","many numbers"), E("h_tm_long","long texts")])
PROPS["P25"] = dict(harness=["stream"], bounds={"quick": "any code point or byte sequence of up to 4 bytes; streams of 1-3 units with readings of up to 2 letters and tags, marks, escapes, chunks, nulls and pairs of blanks from a table of 12; strings of up to 4 characters cut into symbols", "thorough": "one more symbol"}, outside="longer units", entries=[
  E("h_in_restart","starting over or with another input"), E("h_in_char","any character, looking ahead and putting back",[0,1]), E("h_in_bytes","any bytes",[0,1]), E("h_conv","conversions",[0,1]), E("h_symbols","symbols of a string",[0,1]), E("h_unit","readings",[0,1]), E("h_unit_any","any character"), E("h_unit_esc","escapes"), E("h_unit_blank","blanks"), E("h_unit_chunk","chunks"), E("h_unit_many","several units and nulls")])
PROPS["P26"] = dict(harness=["strs"], bounds={"quick": "strings of up to 5 characters over tables of 2-5, case of words of up to 2 of 16 letters with every kind of expansion; 9 numbers, 5 weights", "thorough": "one more character"}, outside="longer strings; other numbers", entries=[
  E("h_str_trim","trimming",[0,1]), E("h_str_trim_any","any characters"), E("h_str_split","splitting and joining",[0,1]), E("h_str_escaped","splitting with escapes",[0,1]), E("h_str_subst","replacing",[0,1]), E("h_str_affix","prefixes and suffixes",[0,1]), E("h_str_case","case",[0,1]), E("h_str_copycase","carrying case over",[0,1]), E("h_str_caseeq","comparing without case",[0,1]), E("h_str_num","numbers"), E("h_str_wblank","word-bound blanks")])
