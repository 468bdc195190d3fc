I, H, CF, FS = 'inputs', 'histories', 'configurations', 'fault_sequences'

prop('C01', 'Integer options store exactly the integer written, or reject it',
     'An integer option accepts a text exactly when it is an integer (decimal, 0x hexadecimal, 0o octal or 0b binary, in either case, with optional '
     'white space and sign before it) followed by nothing, or by one of the suffixes KB, MB, GB in either case, and optional trailing white space, and the result '
     'fits an int. The stored value is then that number times 1, 1024, 1024*1024 or 1024*1024*1024. Otherwise nothing is stored or counted, and the error is '
     '"overflow" when the text is well formed but out of range and "bad integer" when it is not well formed.',
     [I], 'every NUL terminated argument text, of any length, at any fill level of the option',
     'the texts form an infinite set with boundary cases at 2^31, 2^21, 2^11, 2 and at every prefix, sign and suffix combination; the tests try about forty texts',
     ['src/arg_int.c'], [('scan of the integer formats', 'src/arg_int.c arg_int_scanfn, strtol0X'), ('suffix match', 'src/arg_int.c detectsuffix'),
                         ('range checks before scaling', 'src/arg_int.c arg_int_scanfn')],
     ['return value of the scan function', 'count and ival[] of the option'],
     note='assumes the C library contracts of strtol, isspace and toupper')

prop('C02', 'Each accepted value is counted once and stored; refused ones change nothing',
     'For every option type, scanning one occurrence either accepts it, raising the count by exactly one and writing only the next free slot, or refuses it and changes neither '
     'the count nor any stored value (defaults placed there by the program included). An occurrence is refused as excess exactly when the count has already reached the maximum, so the count never exceeds the '
     'maximum and no access is outside the slots; an occurrence without its optional value is counted and stores nothing.',
     [I, CF], 'every type, every minimum and maximum, every current count, every argument text including none',
     'the tests use maxima up to about four and look at counts, not at untouched slots',
     ['src/arg_int.c', 'src/arg_dbl.c', 'src/arg_str.c', 'src/arg_lit.c', 'src/arg_file.c'],
     [('count == maxcount test', 'scan function of each type'), ('value array behind the structure', 'constructor of each type')],
     ['return value of the scan function', 'count and value arrays'],
     note='one symbolic call from any reachable count stands for any history of calls; assumes the contracts of strtol and strtod')

prop('C03', 'An entry passes the final check exactly when its minimum is reached',
     'For every option type, the final check of an entry reports "missing" exactly when fewer occurrences than its minimum were accepted, and changes nothing. '
     'Resetting an entry makes its count zero and keeps its limits, and a new entry starts with count zero, with the minimum asked for and with a maximum that is at least the minimum.',
     [I, CF], 'every type, every minimum and maximum, every count',
     'the tests use minima of zero, one and two on some of the types',
     ['src/arg_int.c', 'src/arg_dbl.c', 'src/arg_str.c', 'src/arg_lit.c', 'src/arg_file.c'],
     [('count < mincount', 'check function of each type'), ('maxcount raised to mincount', 'constructor of each type')],
     ['return value of the check function', 'count, minimum and maximum of the entry'],
     note='complete for the types listed')

PARSE = ['src/argtable3.c']
prop('C04', 'Every positional argument is claimed in order or reported',
     'After the options have been taken out, the remaining arguments are offered, in command line order, to the entries without short and long options, in table order: an entry is '
     'offered arguments until it refuses one, then the next positional entry gets the refused argument; an entry that has refused gets nothing more. When no entry is left, the refused '
     'argument is reported with the error of the last entry that refused it, and all further arguments are reported as unexpected. No argument is skipped, claimed twice or lost.',
     [I, CF], 'every table of any length, every scan function behaviour, every number of remaining arguments',
     'the tests parse a few dozen command lines with two or three positional entries', PARSE,
     [('untagged loop', 'src/argtable3.c arg_parse_untagged'), ('error registration', 'src/argtable3.c arg_register_error')],
     ['calls of the scan functions', 'errors in the end entry'],
     note='scan functions are arbitrary monitors; the table is any table with one terminator at its end')

prop('C05', 'The error list keeps its capacity and says so when it is full',
     'An end entry made for n errors (at least 1; a smaller n counts as 1) records the first errors in order, each with its code, its entry and its argument. When an error arrives and all n places are taken, the last '
     'place is replaced by a "too many errors" entry that belongs to the end entry, the count stays n, the other places stay, and nothing outside the n places is written.',
     [H, CF], 'every capacity, every number of errors already recorded, every error',
     'the tests use capacities of 20 and never fill them', ['src/arg_end.c', 'src/argtable3.c'],
     [('capacity test', 'src/argtable3.c arg_register_error'), ('layout of the arrays', 'src/arg_end.c arg_end')],
     ['count, error, parent and argval of the end entry'], note='capacities up to 1,000,000')

prop('C06', 'arg_parse leaves the caller argv alone and returns the error count',
     'arg_parse resets the whole table, processes the options on a private copy of the argument vector, then the positional arguments, and then, if there was no error so far, the minimum counts. '
     'It returns the number of errors recorded in the end entry. The vector of the caller keeps its pointers and order, nothing allocated during the parse is kept, and a later parse of the same table does not depend on an earlier one. '
     'With argc 0 only the minimum counts are checked.',
     [I, H, CF], 'every table, every argument vector (also empty), every outcome of the phases', 'the tests never compare the vector before and after, and look for leaks on no error path', PARSE,
     [('copy of the vector', 'src/argtable3.c arg_parse'), ('phases', 'src/argtable3.c arg_parse')], ['argv of the caller', 'result of arg_parse', 'live heap blocks'],
     note='argc up to 1,000,000; the phases are used by contract')

prop('C07', 'Each option occurrence is delivered once, to its own entry',
     'Every option on the command line that belongs to an entry of the table is delivered exactly once, in command line order, to the scan function of that entry (the first entry that has the '
     'letter, for short options), with its own value or with none. Every unknown option is reported with its letter or text, and every missing value as a missing argument; a long option with an '
     'empty value ("--name=") is reported as a missing argument and still delivered. An error of the scan function is reported for its entry with its value. All memory used for it is released.',
     [I, CF], 'every table of any length, every sequence of options', 'the tests use tables of three to ten entries and look at counts', PARSE,
     [('option loop', 'src/argtable3.c arg_parse_tagged'), ('search for the entry', 'src/argtable3.c find_shortoption'), ('option tables', 'src/argtable3.c alloc_longoptions, alloc_shortoptions')],
     ['calls of the scan functions', 'errors in the end entry'],
     note='arg_parse_tagged and find_shortoption proved against the contract of getopt_long; alloc_longoptions and alloc_shortoptions have assumed contracts, bounded by a reference interpreter run against arg_parse')

prop('C08', 'Long options: exact name or unambiguous abbreviation',
     'A long option is selected when its name is given in full, or when the text abbreviates the names of one option only; an exact name always wins, and a text that abbreviates different options, or none, is refused. '
     'A value after "=" goes to the option, and is refused by an option that takes none; a required value without "=" is the next argument, and its absence is reported; an optional value is taken only after "=".',
     [I, CF], 'every table of long options of any length, every text', 'prefix relations between names and every combination with values are not sampled by the tests', ['src/arg_getopt_long.c'],
     [('match loop', 'src/arg_getopt_long.c parse_long_options')], ['result, optarg, optind and optopt of getopt_long', 'values stored by arg_parse'],
     note='complete functional contract of parse_long_options; names with an empty text before "=" included')

prop('C09', 'Short options: groups, attached and separate values, end of options',
     'Letters after a single dash are processed one after the other; an unknown letter is reported and the group continues. A letter that takes a value uses the rest of the group as its value, or, '
     'when nothing is left and the value is required, the next argument, whose absence is reported; an optional value has to be attached. "--" ends the options and a lone "-" is an ordinary argument. Each call makes progress, so that a parse ends.',
     [I, H], 'every argument vector, every option string, every state earlier calls can leave', 'the state kept between calls gives interleavings the tests do not reach', ['src/arg_getopt_long.c'],
     [('state between calls', 'src/arg_getopt_long.c place, nonopt_start, nonopt_end, optind'), ('short option part', 'src/arg_getopt_long.c getopt_internal')],
     ['results, optarg, optind and optopt of getopt_long', 'values stored by arg_parse'],
     note='one call from every state except one (see DESIGN.md: arguments skipped, options since then, next argument not an option), which is bounded by a reference interpreter')

prop('C10', 'Options and positional arguments may be mixed without changing their order',
     'Positional arguments may stand before, between and after options. They are processed after the options, in the order they have on the command line, followed by everything after "--"; options are processed in the order they '
     'have on the command line. No argument is lost, duplicated or reordered.',
     [I], 'every argument vector', 'the permutation depends on the sizes of the blocks and on all earlier exchanges', ['src/arg_getopt_long.c'],
     [('block exchange', 'src/arg_getopt_long.c permute_args'), ('bookkeeping', 'src/arg_getopt_long.c getopt_internal')],
     ['order of the values stored by arg_parse'],
     note='getopt_internal by contract for vectors of any length; the exchange itself (gcd cycles) is discharged for all block sizes up to 7 and otherwise bounded by a reference interpreter')

prop('C11', 'Dates: accepted exactly when the whole text matches the format',
     'A date option accepts a text exactly when its format matches the whole text. Each directive reads what it stands for (numbers in their range, names of days and months in full or abbreviated in either case, AM or PM, '
     'literal characters, any amount of white space) and sets exactly its own field; two-digit years 69-99 are in the 1900s, 00-68 in the 2000s, and a century combines with a two-digit year. Composite directives mean their expansion. '
     'For every format and every text no byte outside them is read, every field stays in its range, and matching ends.',
     [I, CF], 'every text; for the field values the formats made of each single directive, with and without modifier, and of the usual combinations; for safety and ranges every format',
     'the tests parse five dates with one format', ['src/arg_date.c'],
     [('format interpreter', 'src/arg_date.c arg_strptime'), ('numbers', 'src/arg_date.c conv_num'), ('names', 'src/arg_date.c arg_strncasecmp, arg_strcasecmp'), ('use of the result', 'src/arg_date.c arg_date_scanfn')],
     ['return value of the scan function', 'tmval[] of the option'],
     note='values proved for 60 formats and every text; arbitrary formats compared with a reference interpreter by execution (bounded); C locale')

prop('C12', 'Regular expressions accept a text only when they match it',
     'A regular expression option accepts a text only when the expression matches it; an ill-formed expression is refused when the option is made, not by a crash. Literals, ".", classes, anchors, case folding (only when asked for) and '
     'repetitions bounded by their limits mean what they say; for expressions without choices the text is accepted exactly when it is in the language. Matching stays within the text and the expression, and what was compiled is released.',
     [I, CF], 'every expression, every text', 'the tests use about ten expressions', ['src/arg_rex.c'],
     [('matcher', 'src/arg_rex.c trex_matchnode, trex_matchclass, trex_matchcclass'), ('compiler', 'src/arg_rex.c trex_compile'), ('use', 'src/arg_rex.c arg_rex_scanfn')],
     ['return value of the scan function', 'sval[] of the option'],
     note='the matcher is proved on any well-formed compiled expression (memory safety, progress, meaning of each leaf); the compiler (setjmp) is not within reach and is bounded by a reference matcher')

prop('C13', 'File options: the base name and extension are those of the given path',
     'For every path, a file option stores the path itself, as its base name the text behind the last path separator (none, the empty text at the end, when that is "." or ".."), and as its extension the text from the last dot of the base name on, or the empty text at its end when '
     'the base name has no dot or its last dot is its first or its last character. All three are in the given text, and no byte outside it is read.',
     [I], 'every path', 'the tests try about twenty paths', ['src/arg_file.c'],
     [('base name', 'src/arg_file.c arg_basename'), ('extension', 'src/arg_file.c arg_extension')], ['filename[], basename[], extension[] of the option'],
     note='complete, for the separator of this platform')

prop('C14', 'Null check and release of a table: every entry once, nothing twice',
     'arg_nullcheck reports a table exactly when an entry up to and including its end marker is NULL. arg_freetable releases every entry that is not NULL exactly once and sets all entries to NULL, so that calling it '
     'again is harmless, also for a partly built table; arg_free does the same up to the end entry or the first NULL. Releasing a NULL pointer does nothing, and after the release of a table nothing it allocated is left.',
     [I, H], 'every table of any length, with NULL entries anywhere', 'the tests release complete tables once', ['src/argtable3.c'],
     [('release loop', 'src/argtable3.c arg_freetable, arg_free'), ('null check', 'src/argtable3.c arg_nullcheck')], ['result of arg_nullcheck', 'entries of the table', 'live heap blocks'],
     note='tables of up to 1,000,000 entries')

prop('C15', 'Error messages: one per error, in order, naming option and argument',
     'arg_print_errors prints one message for each recorded error, in the order they were recorded, each with the program name given. For every type and every error it can report, the message says what was wrong (missing, excess or '
     'extraneous option, invalid argument, overflow, illegal value, unexpected argument, option without its argument, unknown option, too many errors) and names the option by its own short and long names and data type or argument, and '
     'the argument text exactly as it was given ("" when there is none), whatever the names and argument are.',
     [I, CF], 'every type, every error code of the type, every name, data type and argument (also none), any number of errors', 'the tests compare the messages of a few command lines',
     ['src/arg_int.c', 'src/arg_dbl.c', 'src/arg_str.c', 'src/arg_lit.c', 'src/arg_file.c', 'src/arg_date.c', 'src/arg_rex.c', 'src/arg_end.c', 'src/argtable3.c'],
     [('error function of each type', 'src/arg_*.c arg_*_errorfn'), ('loop over the errors', 'src/argtable3.c arg_print_errors_ds')], ['text of arg_print_errors'],
     note='sequence of pieces appended, by contract of arg_dstr_cat, arg_dstr_catf (discharged by C17) and arg_print_option_ds; the final text is also compared with a reference by execution (bounded)')

prop('C16', 'Help texts describe the table, stay in their buffers and keep every word',
     'The syntax line, the verbose syntax line and both glossaries show every entry of the table in order, with its names, data type and how often it has to and may be given, and nothing else; entries without glossary text are left '
     'out of glossaries. Texts of any length never write outside the buffers used to build them; a piece that fits is complete. Wrapping keeps all words in order and breaks a line only where the next word does not fit.',
     [I, CF], 'every table, names, data types and glossary texts of any length', 'the tests print short tables with short names', ['src/argtable3.c'],
     [('bounded append', 'src/argtable3.c arg_cat, arg_cat_option, arg_cat_optionv'), ('syntax', 'src/argtable3.c arg_print_syntax_ds, arg_print_syntaxv_ds'), ('glossary', 'src/argtable3.c arg_print_glossary_ds, arg_print_glossary_gnu_ds'),
      ('wrapping', 'src/argtable3.c arg_print_formatted_ds')], ['text of the arg_print_* functions'],
     note='memory safety of the buffers proved for texts of any length; the layout of the texts is bounded: compared with a reference by execution')

prop('C17', 'Dynamic strings hold exactly the text that was set and appended',
     'Whatever was done with it before, a dynamic string holds after arg_dstr_set the text given, after arg_dstr_cat, arg_dstr_catc and arg_dstr_catf the text it held before followed by the new piece, complete and '
     'terminated, whatever their lengths, and after arg_dstr_create and arg_dstr_reset the empty text. A text handed over with arg_dstr_set is released exactly once, by the free function given with it, when it is replaced or '
     'the string is destroyed; static and volatile texts of the caller are never released or changed. Nothing outside the storage is read or written, and after arg_dstr_destroy nothing is left allocated.',
     [I, H], 'every state a history of calls can leave, every text of any length', 'the tests append a few short texts to a fresh string', ['src/arg_dstr.c'],
     [('append', 'src/arg_dstr.c arg_dstr_cat, arg_dstr_catc, arg_dstr_catf, setup_append_buf'), ('set and release', 'src/arg_dstr.c arg_dstr_set, arg_dstr_reset, arg_dstr_free, arg_dstr_destroy')],
     ['arg_dstr_cstr', 'live heap blocks', 'calls of the free function'],
     note='texts shorter than 2^28 bytes; vsnprintf by its C standard contract; histories of calls also by execution against a reference (bounded)')

prop('C18', 'Commands: the registry holds exactly the last registration of each name',
     'After any sequence of registrations and removals, however many, arg_cmd_info and arg_cmd_itr_search find a command exactly when it is registered, with the name, description, procedure and context of its last registration (also when that '
     'was made with texts of the registration it replaces); arg_cmd_count is the number of registered commands; an iteration meets each once and nothing else; arg_cmd_dispatch runs the registered procedure once, with its context and the arguments given, and '
     'returns its result. arg_cmd_uninit releases everything. arg_make_syntax_err_help_msg gives the help text and success when help was asked for, even with errors, the error messages with the syntax and failure when there are errors, and '
     'otherwise says nothing; its texts and that of arg_make_get_help_msg carry the module name, version and description that were set.',
     [I, H], 'every history of calls, every name and description within the documented lengths, every hash function', 'the tests register three commands', ['src/arg_cmd.c', 'src/arg_hashtable.c'],
     [('registry', 'src/arg_cmd.c arg_cmd_register, arg_cmd_unregister, arg_cmd_dispatch'), ('table', 'src/arg_hashtable.c arg_hashtable_insert, arg_hashtable_search, arg_hashtable_remove, arg_hashtable_expand, arg_hashtable_itr_*'),
      ('messages', 'src/arg_cmd.c arg_make_*')], ['arg_cmd_info, arg_cmd_count, arg_cmd_itr_*', 'calls of the procedures', 'texts of arg_make_*', 'live heap blocks'],
     note='registry functions and messages proved against the contracts of the hash table; the hash table itself is bounded: histories against a reference by execution. names < 100, descriptions < 256 characters (asserted by the code)')

prop('C19', 'Sorting orders exactly the given range and keeps every element',
     'After arg_mgsort of the elements i to k, these are in ascending order of the comparison function given, each element that was in the range is in it exactly as often as before, and nothing outside the range was changed or read.',
     [I, H], 'every array, element size, range and comparison function that is an order', 'no test calls arg_mgsort', ['src/arg_utils.c'],
     [('recursion', 'src/arg_utils.c arg_mgsort'), ('merge', 'src/arg_utils.c merge')], ['contents of the array'],
     note='recursion proved for every range against the contract of merge; merge itself bounded by execution against a reference; arrays smaller than 2^31 bytes')
