"""writes properties.jsonl (kept in git; run after editing)"""
import json, os
T = "ticdat/ticdatfactory.py"; PF = "ticdat/pandatfactory.py"; U = "ticdat/utils.py"; PIO = "ticdat/pandatio.py"
J = "ticdat/jsontd.py"; C = "ticdat/csvtd.py"; S = "ticdat/sqlitetd.py"; X = "ticdat/xls.py"; PG = "ticdat/pgtd.py"; M = "ticdat/model.py"
props = []
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    props.append(d)

P("P01", "Every accepted shape of table data builds the same TicDat, defaults filled in",
  "Constructing a TicDat from the same rows in any documented shape (dict keyed by primary key with dict, list or scalar rows; list of tuples; list of row dicts; DataFrame with the key as columns or as index; Series) gives the same keys and the same data values, and a table that is not passed is empty. Fields a row does not mention take the factory's default value for the field (zero for data fields when none was set), both at construction and when a row is added later by assigning a partial dict, by accessing a missing key or by any other method of the table that adds rows. Data of the wrong shape (unknown table, unknown field, wrong key length, wrong row length) is rejected with an error, and the object passed in is left as it was, nor do later changes to it change the TicDat.",
  ["inputs", "configurations"], "every schema, default setting, data set and mix of shapes per table",
  "tests use a handful of fixed schemas (diet, netflow, silly) and a few shapes each; shape x schema x default combinations are unbounded",
  [T, U], [("TicDat.__init__ shape dispatch", T + ":TicDatFactory.__init__"), ("row normalisation and defaults", U + ":td_row_factory"), ("shape checks", T + ":good_tic_dat_table")],
  ["attributes of the constructed TicDat", "TicDatFactory.as_dict"])
P("P02", "Copies are equal and independent; diagnostics never modify data or schema",
  "copy_tic_dat, copy_pan_dat, copy_to_pandas, copy_to_tic_dat and as_dict return objects holding exactly the source data, and changing any row, table or cell of the copy or of the source afterwards never changes the other. The find_* diagnostics, create_full_parameters_dict, obfusimplify, the good-object checks and every file writer leave the data object they are given and the factory's schema exactly as they were.",
  ["inputs", "histories"], "every schema, data set and sequence of copies, edits and diagnostic calls",
  "tests compare a few copies and never re-check the source after each diagnostic or writer",
  [T, PF, PIO], [("copy_tic_dat", T + ":copy_tic_dat"), ("copy_pan_dat", PF + ":copy_pan_dat"), ("copy_to_pandas", T + ":copy_to_pandas")],
  ["content of source and copy after every operation"])
P("P03", "A frozen TicDat cannot be changed through its public interface",
  "After freeze_me (or copy_tic_dat with freeze_it) every public way of changing the object raises an error and leaves its content unchanged: setting or deleting attributes, adding, replacing, removing or clearing rows, editing cells, and editing through foreign key links. Reading a missing key of a frozen table raises KeyError rather than creating a row, freezing twice is harmless, and a non-frozen copy of a frozen TicDat is fully editable. Factory schema properties (default_values, data_types, parameters, tooltips) are likewise read-only views.",
  ["inputs", "histories"], "every schema (with and without foreign key links), data set and sequence of mutation attempts",
  "tests attempt a few assignments on fixed objects; they do not enumerate the mutating methods of tables, rows and link tables",
  [T, U], [("_freeze", T + ":_TicDat._freeze"), ("FreezeableDict", U + ":FreezeableDict"), ("freezable_factory", U + ":freezable_factory"), ("TicDatDataRow.__setitem__", U + ":td_row_factory")],
  ["exceptions raised and content after each mutation attempt"])
P("P04", "Good-object checks accept exactly well-formed data objects",
  "good_tic_dat_object and good_pan_dat_object return True exactly when the object has every table of the schema in a form the factory accepts (for a PanDat: DataFrames carrying every field of the schema; for strict TicDat checking: dicts and rows with exactly the schema's fields and key lengths), return False otherwise, and call the message handler at least once whenever they return False. Objects built by a factory are always good for that factory and for any factory with the same tables and fields, and the PanDat constructor accepts the documented table forms with missing data columns filled in by defaults.",
  ["inputs", "configurations"], "every schema and every data object obtained from a good one by one structural corruption",
  "tests probe a few corruptions on fixed schemas",
  [T, PF], [("good_tic_dat_object/table", T + ":good_tic_dat_table"), ("good_pan_dat_object", PF + ":good_pan_dat_object"), ("PanDat.__init__", PF + ":PanDatFactory.__init__")],
  ["return value and handler messages"])
P("P05", "A factory is fully described by its full schema and can be rebuilt from it",
  "For any factory F, create_from_full_schema(F.schema(include_ancillary_info=True)) is a factory with the same tables, fields and field order, foreign keys with cardinalities, default values, data types, parameters, tooltips, infinity flag and other settings, for TicDatFactory and PanDatFactory alike and across the two. This still holds when the full schema went through JSON text and back, and setters such as clear_data_type, remove_parameter, clear_foreign_keys and set_tooltip with an empty string undo exactly what they name. add_foreign_key warns of a circular relationship exactly when the new key completes a circle.",
  ["inputs", "configurations", "histories"], "every factory reachable by a sequence of schema setter calls",
  "tests rebuild a few fixed factories; the space of setting combinations is not sampled",
  [T, PF, U], [("schema", T + ":schema"), ("create_from_full_schema", T + ":create_from_full_schema"), ("PanDat versions", PF + ":create_from_full_schema")],
  ["schema(include_ancillary_info=True) and the behaviour of the rebuilt factory"])
P("P06", "Clones and schema edits change exactly what they name",
  "clone() gives an independent factory with the same schema, row predicates and settings; with table_restrictions it keeps exactly those tables and everything that refers only to them. clone_add_a_table, clone_add_a_column, clone_remove_a_column and clone_rename_a_column return a new factory in which the named table or column is added at the requested position, removed or renamed and every other table, field order, foreign key, data type, default, tooltip, parameter, predicate and setting is unchanged (those of a removed column are dropped, those of a renamed column follow the new name), and never alter the original factory.",
  ["inputs", "configurations", "histories"], "every factory and every sequence of clone and edit operations on it",
  "tests edit two or three hand-made schemas one step at a time",
  [U, T, PF], [("clone", T + ":clone"), ("clone_a_anchillary_info_schema", U + ":clone_a_anchillary_info_schema"), ("column edits", U + ":clone_add_a_column, clone_remove_a_column, clone_rename_a_column, clone_add_a_table")],
  ["schema(include_ancillary_info=True), get_row_predicates of original and clone"])
P("P07", "Foreign key cardinality, implied keys and row links follow the declared keys",
  "The reported cardinality of each foreign key follows from whether its fields cover each side's primary key, and add_implied_foreign_keys adds exactly the keys obtained by chaining declared keys through tables' primary keys, without changing whether any data set has foreign key failures. With foreign key links enabled, each parent row of a TicDat reaches exactly the child rows that refer to it, as the very same row objects, keyed by the rest of the child's primary key (or the row itself for one-to-one keys).",
  ["inputs", "configurations"], "every foreign key graph onto primary keys and every data set",
  "tests check links on one or two fixed schemas",
  [T, U], [("foreign_keys", T + ":foreign_keys"), ("add_implied_foreign_keys", T + ":add_implied_foreign_keys"), ("_try_make_foreign_links", T + ":_try_make_foreign_links")],
  ["factory.foreign_keys", "link attributes on rows"])
P("P08", "Foreign key failures reported are exactly the unmatched child rows",
  "find_foreign_key_failures, for TicDat and PanDat objects, reports for every foreign key exactly the native rows whose tuple of native values has no matching tuple in the foreign table (simple, compound, reordered, non-primary-key, self-referencing and overlapping-field-name keys included), with the right native values, and nothing else. With max_failures it reports at most about that many genuine failures and at least one whenever any exists, low verbosity and table/boolean forms carry the same information, and TicDat and PanDat agree.",
  ["inputs", "configurations"], "every foreign key graph, every data set, each reporting option",
  "tests assert a few planted failures on fixed schemas; the relation is over all data sets and mappings",
  [T, PF], [("TicDat find_foreign_key_failures", T + ":find_foreign_key_failures"), ("PanDat _find_foreign_key_failure_rows", PF + ":find_foreign_key_failures")],
  ["returned dictionaries compared with a naive join"])
P("P09", "Removing foreign key failures deletes exactly the orphan rows, to a fixpoint",
  "remove_foreign_key_failures leaves a data object with no foreign key failures, and the rows left are exactly the largest subset of the original rows in which every reference is satisfied: every row removed had (possibly after other removals) an unmatched reference, and no other row or value changes. With propagate=False exactly the rows reported by find_foreign_key_failures are removed, and removing twice changes nothing further.",
  ["inputs", "configurations"], "every foreign key graph, cycles included, and every data set",
  "tests remove failures from a few fixed data sets",
  [T, PF], [("TicDat remove_foreign_key_failures", T + ":remove_foreign_key_failures"), ("PanDat remove_foreign_key_failures", PF + ":remove_foreign_key_failures")],
  ["tables after removal compared with a naive fixpoint"])
P("P10", "Data type failures reported are exactly the cells that break their rule",
  "find_data_type_failures reports, for each field with a data type, exactly the rows whose cell breaks the rule as declared (number allowed and within bounds with the declared inclusivity, integrality, allowed strings, nullability, datetime), with the distinct bad values; primary key fields without a rule fail only on null, other fields without a rule never fail. Booleans are neither numbers nor strings, TicDat and PanDat agree, as_table and boolean forms carry the same rows, and with max_failures a non-empty subset of the true failures no larger than about the limit is reported when any exist.",
  ["inputs", "configurations"], "every combination of rule arguments and every data set",
  "tests check a few rules; the boundary lattice of min/max/inclusive/int/nullable/strings is not enumerated",
  [U, T, PF], [("TypeDictionary.valid_data", U + ":TypeDictionary"), ("find_data_type_failures", T + ":find_data_type_failures"), ("PanDat version", PF + ":find_data_type_failures")],
  ["returned dictionaries compared with a naive evaluation of the rule"])
P("P11", "Replacing data type failures fixes exactly the failing data cells",
  "replace_data_type_failures writes the replacement value (the one given for the field, otherwise the field's default) into exactly the data cells reported by find_data_type_failures and changes nothing else; afterwards no data field with a rule has failures. If a replacement value needed is itself invalid for its rule an error is raised, and primary key cells are changed only by the PanDat version and only when a replacement for that key field is explicitly given, as argument or as default value.",
  ["inputs", "configurations"], "every rule, default, replacement mapping and data set",
  "tests replace failures in a few fixed tables",
  [T, PF], [("replace_data_type_failures", T + ":replace_data_type_failures"), ("PanDat version", PF + ":replace_data_type_failures")],
  ["tables before and after"])
P("P12", "Row predicate failures are exactly the rows the predicate rejects",
  "find_data_row_failures applies each predicate to every row (all key and data fields, by name) and reports exactly the rows for which it is falsy, or not True with the right message text for error-message predicates. A kwargs maker is called exactly once per search with the data object (converted if the clone asked for it) and its dict is passed to every call; a maker that raises or does not return a dict yields one bulk failure for that predicate, and exceptions are reported as failures or propagated as exception_handling says. TicDat and PanDat agree, and max_failures yields a non-empty subset of the true failures no larger than about the limit.",
  ["inputs", "configurations", "fault_sequences"], "every set of predicates, makers (succeeding, failing, raising), data set and option",
  "tests register a handful of predicates on fixed tables",
  [T, PF, U], [("find_data_row_failures", T + ":find_data_row_failures"), ("PanDat version", PF + ":find_data_row_failures"), ("faster_df_apply trip wire", U + ":faster_df_apply")],
  ["returned dictionaries; calls seen by instrumented predicates and makers"])
P("P13", "The full parameters dictionary overlays actual settings on declared defaults",
  "create_full_parameters_dict returns every declared parameter with its default unless the parameters table has an entry for it, in which case that entry's value is returned. Parameter entries with unknown names or values breaking their declared rule are reported by find_data_row_failures and by nothing else, parameters declared without type enforcement accept any value, and a parameter default that breaks its own rule is rejected when declared.",
  ["inputs", "configurations"], "every set of parameter declarations and parameters table content, TicDat and PanDat",
  "tests use one or two fixed parameter sets",
  [T, PF], [("add_parameter", T + ":add_parameter"), ("create_full_parameters_dict", T + ":create_full_parameters_dict"), ("Good Name/Value Check", T + ":find_data_row_failures")],
  ["returned dictionary and failure reports"])
P("P14", "Duplicate primary keys are found exactly, in files and DataFrames",
  "The find_duplicates of the JSON, CSV, SQLite and Excel readers returns exactly the primary keys that occur in more than one row of the file, with their number of occurrences, and that of PanDatFactory returns exactly the duplicated rows selected by keep ('first', 'last' or False), as table or boolean Series. Tables without a primary key never have duplicates, and constructing a TicDat from duplicated rows is rejected unless the factory is set to warn about or ignore them.",
  ["inputs", "configurations"], "every schema and multiset of rows, in every format",
  "tests plant one or two duplicates in the diet data",
  [U, PF, J, C, S, X, T], [("find_duplicates", U + ":find_duplicates"), ("find_duplicates_from_dict_ticdat", U + ":find_duplicates_from_dict_ticdat"), ("PanDat find_duplicates", PF + ":find_duplicates"), ("duplicates_ticdat_init", T + ":TicDat.__init__")],
  ["returned dictionaries compared with a naive count"])
P("P15", "Obfuscation is a consistent renaming that can be undone",
  "obfusimplify renames the single-field primary keys of entity tables and every field that refers to them through declared or implied foreign keys, using new names that are unique across tables, start with the table's prefix and are listed in renamings; applying renamings backwards gives exactly the original data. Skipped tables, non-entity tables' own keys and all other values are untouched, the result has no foreign key failures, and an object with foreign key failures or an invalid prefix is refused.",
  ["inputs", "configurations"], "every foreign key graph, consistent data set, choice of prefixes and skipped tables",
  "tests obfuscate two fixed schemas",
  [T, PF, U], [("obfusimplify", T + ":obfusimplify"), ("PanDat obfusimplify", PF + ":obfusimplify"), ("baseConverter", U + ":baseConverter")],
  ["copy and renamings"])
P("P16", "TicDat and PanDat represent the same data and convert without loss",
  "copy_to_pandas followed by the PanDat constructor, and copy_to_tic_dat, carry every row and value across unchanged in either direction (null values excepted, which may appear as None or NaN), for any schema. copy_to_pandas honours table_restrictions, drop_pk_columns and reset_index, produces the index and columns documented and .sloc accessors whose empty full-wildcard slices are empty rather than errors.",
  ["inputs", "configurations"], "every schema, data set and option",
  "tests convert a few fixed data sets",
  [T, PF, U], [("copy_to_pandas", T + ":copy_to_pandas"), ("copy_to_tic_dat", PF + ":copy_to_tic_dat"), ("Sloc", U + ":Sloc")],
  ["content of the converted objects"])
P("P17", "JSON files round trip",
  "Reading back a JSON file or string written by a factory gives exactly the data that was written: same tables, same keys, same values with their types (numbers, strings, booleans, null, infinities under an infinity flag), for TicDat and PanDat factories and each of their JSON layouts (verbose or compact, file or string, with or without prettified table names). Malformed JSON content is rejected with an error naming the problem rather than silently dropped.",
  ["inputs", "configurations"], "every schema, data set and writer option",
  "tests round trip a few fixed data sets",
  [J, PIO], [("JsonTicFactory", J + ":JsonTicFactory"), ("JsonPanFactory", PIO + ":JsonPanFactory")],
  ["data read back"])
P("P18", "CSV directories round trip",
  "Reading back a directory of .csv files written by a factory gives the data that was written for every table, with numbers restored as numbers and strings, including ones containing delimiters, quotes, line breaks, leading zeros under a string rule and non-ASCII text, restored as strings as far as the field's data type tells them apart; an empty table stays empty. Any dialect or headers option that was used for writing and is given again for reading gives the same result, for TicDat and PanDat factories.",
  ["inputs", "configurations"], "every schema, data set, csv dialect and option",
  "tests use a few fixed data sets and two dialects",
  [C, PIO], [("CsvTicFactory", C + ":CsvTicFactory"), ("CsvPanFactory", PIO + ":CsvPanFactory")],
  ["data read back"])
P("P19", "SQLite databases and SQL text files round trip",
  "Writing data to a SQLite database file and reading it back gives the same data for keyed and keyless tables, and so does writing it as .sql text (with or without schema) and reading that text, for any strings (quotes, semicolons, line breaks, non-ASCII; consecutive single quotes only in a database file) and numbers including booleans, nulls and infinities under an infinity flag. write_db_schema creates tables with the factory's primary keys, foreign keys and defaults, so that SQLite itself rejects duplicate keys.",
  ["inputs", "configurations"], "every schema, data set and writer option, TicDat and PanDat",
  "tests round trip a few fixed data sets without hostile strings",
  [S, PIO], [("SQLiteTicFactory", S + ":SQLiteTicFactory"), ("SqlPanFactory", PIO + ":SqlPanFactory"), ("_fix_str/_insert_format", S + ":_fix_str")],
  ["data read back", "the database as seen by sqlite3"])
P("P20", "Excel workbooks round trip",
  "Reading back an .xlsx or .xls file written by a factory gives the data that was written for every table (numbers as numbers, strings as strings, nulls as null), regardless of sheet order, extra sheets or prettified sheet names. Trailing all-empty rows of an .xlsx sheet are pruned or kept as the factory's setting says, row_offsets skips exactly that many leading rows, and interior rows are never lost.",
  ["inputs", "configurations"], "every schema, data set, file type and reader option, TicDat and PanDat",
  "tests round trip a few fixed data sets",
  [X, PIO], [("XlsTicFactory", X + ":XlsTicFactory"), ("XlsPanFactory", PIO + ":XlsPanFactory")],
  ["data read back"])
P("P21", "Postgres writes and reads are faithful and confined to the model's tables",
  "write_schema followed by write_data and reading back gives the same data (nulls, infinities under a flag, datetimes and typed fields included) for TicDat and PanDat factories and compound foreign keys, in whatever order the tables depend on each other. With pre_existing_rows 'delete' (the default) exactly the factory's own tables are emptied before writing and with 'append' they are extended; other tables in the schema are untouched, and active_fld rows flagged inactive are not read while all new rows are written as active.",
  ["inputs", "configurations", "histories"], "every schema, data set, pre-existing content and option",
  "tests use two fixed schemas against a scratch server",
  [PG], [("write_schema", PG + ":write_schema"), ("write_data", PG + ":write_data"), ("_ordered_tables", PG + ":_ordered_tables"), ("create_tic_dat", PG + ":create_tic_dat")],
  ["rows in the database", "data read back"])
P("P22", "The infinity flag replaces infinities on write and restores them on read",
  "With a numeric infinity_io_flag, data containing infinities written in any format and read back equals the original, no stored number exceeds the flag in size, and stored values at or beyond the flag read as infinity; with a None flag, infinities are stored as null exactly in fields whose rule admits infinity but not null, and read back as the infinity the rule admits. The parameters table is exempt, 'N/A' changes nothing, keyed, keyless and generator tables are treated alike, and the in-memory data is never altered by a write.",
  ["inputs", "configurations"], "every flag, rule, data set and storage format",
  "tests use two or three flags on the diet schema",
  [T, PF, J, C, S, X, PIO], [("_general_read_cell", T + ":_general_read_cell"), ("_infinity_flag_write_cell", T + ":_infinity_flag_write_cell"), ("PanDat adjustments", PF + ":_general_post_read_adjustment, _pre_write_adjustment")],
  ["stored values", "data read back"])
P("P23", "Readers find tables and fields whatever their case and spacing, or say why not",
  "In every format and for both factories, table names in a source match schema tables regardless of case and of spaces in place of underscores. Field names match regardless of case in the TicDat CSV, Excel and SQLite readers (white space is respected), and exactly in PanDat and JSON readers; the order of the columns, and extra columns or tables, make no difference. A table that is absent reads as empty, a matching table that lacks a field is an error unless fill_missing_fields (PanDat) asks for the default, two candidates for one table or one field are an error, and no reader silently assigns a column to the wrong field (rows longer than their header included).",
  ["inputs", "configurations"], "every schema, renaming, reordering and omission of tables and columns in a source",
  "tests perturb one or two names in the diet data",
  [C, X, S, J, PIO, U, PF], [("table and field matching", C + ":_get_table_dict"), ("sheets", X + ":_get_sheets"), ("sqlite", S + ":_get_table_names"), ("PanDat readers", PIO), ("case_space_to_pretty", U + ":case_space_to_pretty")],
  ["data read, or the error raised"])
P("P24", "Writers never clobber what they were told not to overwrite",
  "With allow_overwrite=False a writer whose destination (file, table file or populated table) already exists raises an error and leaves every existing byte of the destination as it was, and with no conflict it writes as usual; with allow_overwrite=True the result is as if the destination had been fresh for the tables written. Writers reject destinations of the wrong kind (a directory given for a file, a file given for a directory) and never touch other files in the directory or other tables in the database.",
  ["inputs", "configurations", "histories"], "every destination state, option and format",
  "tests overwrite one file once per format",
  [J, C, S, X, PIO], [("write guards", C + ":write_directory, " + X + ":write_file, " + S + ":write_db_data, " + J + ":write_file")],
  ["bytes of the destination tree before and after"])
P("P25", "All formats and both factories agree on the same data",
  "A file written by TicDatFactory is read by a PanDatFactory with the same schema as the same rows and values, and the other way round, in JSON, CSV, SQLite and Excel; converting data from any one format to any other through a factory loses nothing that both formats can represent. Reading the same file twice, or with a cloned factory, gives the same data.",
  ["inputs", "configurations"], "every schema, data set and pair of formats",
  "tests never read one factory's output with the other over generated data",
  [J, C, S, X, PIO, PF, T], [("TicDat readers/writers", J + ", " + C + ", " + S + ", " + X), ("PanDat readers/writers", PIO)],
  ["data read back by each factory"])
P("P26", "Declared types guide how text from files becomes values",
  "On reading, fields with a datetime rule get datetimes for every parsable entry (unparsable entries are kept as they were and reported as failures), fields allowing both numbers and strings get numbers for entries that look like numbers unless automunging is off, fields allowing only strings keep text that looks like numbers, and parameters are cast to the type of their declaration. Datetimes written in any format come back as the same instant, and the rule is applied the same way by every format and both factories.",
  ["inputs", "configurations"], "every mix of rules, entries and formats",
  "tests cover a few date strings and one munging example",
  [T, PF, C, X, PIO, U], [("_general_read_cell", T + ":_general_read_cell"), ("dateutil_adjuster", U + ":dateutil_adjuster"), ("_parameter_table_post_read_adjustment", T + ":_parameter_table_post_read_adjustment"), ("csv default type", C + ":_dv_dt")],
  ["values read back and their types"])
P("P27", "Generator tables stream the same rows as ordinary tables, repeatably",
  "Declaring a keyless table as a generator table changes only how it is held: calling it yields exactly the rows, in order, that the ordinary table would hold, as often as it is called and independently of other iterations in progress, whether built from a list, a function or any file format, and it writes out to any format the same rows. Copies keep the same rows, and diagnostics that cannot treat it say so or skip it.",
  ["inputs", "configurations", "histories"], "every schema, row sequence, format and interleaving of iterations",
  "tests iterate a fixed table once or twice",
  [T, C, S, X, J], [("generatorfactory", T + ":generatorfactory"), ("csv generator", C + ":_create_generator_obj"), ("sqlite generator", S + ":_create_gen_obj"), ("xls generator", X + ":_create_generator_obj")],
  ["rows yielded by each call"])
P("P28", "The command line entry point reads, checks, solves and writes as asked",
  "standard_main reads the input given by -i in the format its extension names, calls solve exactly once with that data and writes the returned solution where -o says in the format its extension names, so that reading it back gives the solution; with a falsy solution nothing is written. With -e it writes an error report listing exactly the duplicate rows, data type, foreign key and row predicate failures of the input, solves only if there are none, and an invalid input path or option produces no output file. With -f the same data is uploaded to, solved on and downloaded from the configured Foresta app, and -f together with -e is refused.",
  ["inputs", "configurations"], "every schema, data set, format combination and option list, for both factory kinds",
  "tests run it on the diet example with a few options",
  [U], [("standard_main", U + ":standard_main"), ("_integrity_solve", U + ":_integrity_solve"), ("_get_dat_object", U + ":_get_dat_object"), ("_get_write_function_and_kwargs", U + ":_get_write_function_and_kwargs")],
  ["files written, arguments seen by solve"])
P("P29", "Slicer returns exactly the matching index tuples",
  "slice(args) returns exactly the index tuples, with multiplicity and in insertion order, that agree with every non-wildcard argument, for any hashable entries including nested tuples, for any sequence of calls and clears, and the same with or without gurobipy's accelerated list. A wrong number of arguments or a '*' inside the index is rejected.",
  ["inputs", "histories"], "every index sequence and sequence of slice and clear calls",
  "tests slice a few fixed lists",
  [U], [("Slicer", U + ":Slicer")], ["returned lists compared with a linear filter"])
P("P30", "Utility helpers agree with their simple definitions",
  "faster_df_apply equals row-by-row application (including the trip-wire replacement of the function and the original index), ampl_format substitutes exactly the double-braced names and leaves single braces alone, LogFile.log_table writes the header and at most max_write rows of the table, case-space prettifying is undone by table name matching, deep_freeze and deep_copy preserve content and independence, nearly_same is a symmetric relative comparison, renaming fields that are reserved keywords is undone by its undo, and Progress relays a solver's bounds as lower and upper bound and stops the solver exactly when told to.",
  ["inputs"], "every input in each helper's documented domain",
  "tests call each helper on a few values",
  [U], [("faster_df_apply", U + ":faster_df_apply"), ("ampl_format", U + ":ampl_format"), ("LogFile", U + ":LogFile"), ("deep_freeze, deep_copy", U + ":deep_freeze"), ("per_error", U + ":per_error")],
  ["return values and files"])
P("P31", "The Model wrapper solves the same problem on every solver",
  "For a small linear or integer program built through Model (variables with bounds and types, linear constraints, objective and sense), optimize returns truthy exactly when the program is feasible and bounded, get_solution_value gives a feasible point within tolerance, its objective value is optimal, and every available solver (gurobi, cplex, xpress) agrees with brute force. Parameter setting and mip results report values consistent with the solution.",
  ["inputs", "configurations"], "every small program with integer data, every solver available",
  "tests solve a few fixed diet, netflow and fantasy models",
  [M], [("Model", M + ":Model")], ["optimize result and solution values"])
P("P32", "Access (.mdb/.accdb) files round trip",
  "For every schema and data set that conforms to the column types of an Access schema, mdb.write_file followed by create_tic_dat gives the same data back: "
  "any sequence of writes with or without allow_overwrite leaves exactly the last data written in the tables, a refused write leaves the file untouched, tables and columns "
  "that are none of the schema's business stay as they are, duplicate primary keys are counted exactly as in the other formats, differently cased or spaced table and field names are found, and the "
  "infinity flag replaces infinities on write and restores them on read.",
  ["inputs", "histories", "configurations"], "every schema, data set and write history",
  "the tests need the Access ODBC driver, which exists on Windows only; here the SQL that ticdat sends is executed by a stand-in driver",
  ["ticdat/mdb.py"], [("MdbTicFactory", "ticdat/mdb.py:MdbTicFactory")], ["data read back", "the rows of foreign tables", "duplicate counts"])
P("P33", "The AMPL bridge hands over exactly the chosen data and merges variables back",
  "copy_to_ampl builds, for every table with a primary key that is not excluded, one AMPL frame indexed by the primary key fields (renamed as asked, in order) whose columns are the data fields "
  "(renamed as asked, without those renamed to nothing; for PanDat also the extra columns that were asked for) and whose rows are the rows of the table; it leaves its argument as it was and refuses renamings of "
  "fields that do not exist and the omission of primary key fields. set_ampl_data passes each table to AMPL.setData exactly once, with its set name if it has one, and turns a failure into a TicDatError. "
  "copy_from_ampl_variables returns a good object with exactly one row per key for which some variable of the table passes its filter (nonzero by default), each field holding its variable's value "
  "or else its default. TicDatFactory and PanDatFactory agree.",
  ["inputs", "configurations"], "every schema, data set, choice of renamings and exclusions, and set of variables",
  "the tests need amplpy and an AMPL installation and are skipped without; with them they see three models",
  ["ticdat/ticdatfactory.py", "ticdat/pandatfactory.py"],
  [("TicDatFactory.copy_to_ampl", "ticdat/ticdatfactory.py:TicDatFactory.copy_to_ampl"), ("TicDatFactory.copy_from_ampl_variables", "ticdat/ticdatfactory.py:TicDatFactory.copy_from_ampl_variables"),
   ("PanDatFactory.copy_to_ampl", "ticdat/pandatfactory.py:PanDatFactory.copy_to_ampl")], ["frames built", "setData calls", "rows returned"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))
