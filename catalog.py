"""The properties: what is claimed, where it is anchored, how it is decided."""
LIB = "libmsi public API: query rows, column info, catalogue tables, result codes"
NOTE = ("Holds on every generated case; no exhaustiveness. Trusts the reference model, the driver "
        "(public API calls only) and the ASan build. ")

PROPS = []


def prop(**k):
    PROPS.append(k)


prop(id="P01", title="Committed data is exactly what a later session reads back",
     statement="After any history of successful SQL statements and a successful commit, reopening the file gives exactly the tables, "
               "columns and rows the history had produced, with temporary rows gone and nothing else lost, added or altered. "
               "This holds again for every further edit, commit and reopen of the same file.",
     over=["histories", "inputs"],
     text="all histories of CREATE/DROP/ALTER TABLE, INSERT, UPDATE, DELETE, commit and reopen over all schemas, strings and integers the format can store",
     why="The tests commit and reopen a handful of fixed tables with short ASCII strings and rarely edit a file again after reopening it.",
     files=["libmsi/table.c", "libmsi/string.c", "libmsi/libmsi-database.c", "libmsi/streams.c"],
     mech=[("tables are written column by column, sorted by key", "libmsi/table.c save_table / read_table_from_storage"),
           ("string pool with reference counts, saved with the tables", "libmsi/string.c msi_save_string_table / msi_load_string_table"),
           ("commit writes strings, tables and streams, then replaces the file", "libmsi/libmsi-database.c libmsi_database_commit")],
     observe=["SELECT of every table after reopening the committed file"],
     technique="stateful property-based testing against a relational reference model, with shrinking",
     note=NOTE + "Schemas up to 30 columns, histories up to 25 operations (thorough: more of them), integers other than the null sentinels.")

prop(id="P02", title="SELECT returns exactly the rows, columns and order the query asks for",
     statement="For any tables and any SELECT, the result is the projection of exactly those combinations of rows that satisfy the WHERE "
               "condition, each as often as it occurs (once with DISTINCT), and the reported column names and types are those of the selected columns. "
               "ORDER BY puts the rows in ascending order of the listed columns, equal strings standing together.",
     over=["inputs", "programs"],
     text="all databases and all SELECT statements of the supported grammar: joins, nested AND/OR conditions, literals, parameters, column comparisons, IS NULL, DISTINCT, ORDER BY, projections",
     why="The tests fix some dozens of queries over tables of a few rows; evaluation depends on the shape of the condition, the join order chosen from it, the position of parameters and the data.",
     files=["libmsi/where.c", "libmsi/select.c", "libmsi/distinct.c", "libmsi/table.c", "libmsi/sql-parser.y", "libmsi/libmsi-query.c"],
     mech=[("conditions are evaluated on partial joins and tables are reordered", "libmsi/where.c check_condition, ordertables"),
           ("projection", "libmsi/select.c"), ("duplicate elimination", "libmsi/distinct.c"), ("sorting", "libmsi/where.c compare_entry")],
     observe=["rows, order and column info returned by libmsi_query_fetch / libmsi_query_get_column_info"],
     technique="property-based testing of generated queries against a naive nested-loop evaluator",
     note=NOTE + "Null integers order before all others, null and empty strings are equal; the order among different strings is not specified.")

prop(id="P03", title="Every statement changes exactly what it says, refused ones change nothing",
     statement="INSERT adds exactly the given row with unnamed columns null, UPDATE and DELETE affect exactly the rows their WHERE clause selects "
               "and only the named columns. A statement that duplicates a primary key, leaves a required column null on insert, changes a key, gives an integer that does not "
               "fit, or names what does not exist is refused and leaves every table as it was.",
     over=["histories", "inputs"],
     text="all histories of valid and invalid INSERT, UPDATE and DELETE statements, literal or parameterised, over all schemas",
     why="The tests exercise single statements on tables of a few rows and seldom look at the rest of the table afterwards, or at what a refused statement left behind.",
     files=["libmsi/insert.c", "libmsi/update.c", "libmsi/delete.c", "libmsi/table.c", "libmsi/where.c"],
     mech=[("rows are validated before insertion", "libmsi/table.c table_validate_new"),
           ("row insertion by key order, set_row, delete_row", "libmsi/table.c"),
           ("markers of SET and WHERE are told apart", "libmsi/update.c update_view_execute")],
     observe=["full contents of every table after each statement; result of each statement"],
     technique="stateful property-based testing against a relational reference model, every table compared after each statement",
     note=NOTE + "Null into a NOT NULL column by UPDATE is not specified by the code and not generated.")

prop(id="P04", title="The catalogue always describes the tables that exist",
     statement="After any history of CREATE, ALTER ... ADD and DROP TABLE, the table and column catalogues, the primary keys and the persistence of each table "
               "describe exactly the tables that exist, with their columns in order and of the declared types. Adding a column keeps the rows and gives them null, dropping a table "
               "removes only that table, HOLD followed by FREE changes nothing, and temporary tables last only for the session.",
     over=["histories", "inputs"],
     text="all histories of schema changes interleaved with rows, refused statements, commits and reopens",
     why="The tests check a few fixed schemas; whether the catalogue stays consistent depends on the order of creations, drops, column additions and commits.",
     files=["libmsi/create.c", "libmsi/alter.c", "libmsi/drop.c", "libmsi/table.c", "libmsi/sql-parser.y"],
     mech=[("catalogue rows are inserted and deleted with the table", "libmsi/table.c msi_create_table, table_view_drop, table_view_add_column"),
           ("column information is reloaded after a change", "libmsi/table.c msi_update_table_columns"),
           ("temporary tables and reference counts", "libmsi/table.c table_view_add_ref / table_view_release")],
     observe=["_Tables, _Columns, primary keys, persistence, column info and contents of every table"],
     technique="stateful property-based testing against a relational reference model, catalogue compared after each schema change",
     note=NOTE + "ALTER and DROP of a temporary table, and persistent tables with single temporary columns, are not specified and not generated.")

prop(id="P05", title="Committed files conform to the MSI database format",
     statement="Every file that a successful commit produces is a well-formed compound file with the installer database class id, whose string pool, "
               "catalogue and table streams, parsed independently of libmsi, give exactly the tables, column types and rows of the session. Strings are stored once and with a reference "
               "count no lower than their uses, no reference is dangling, and streams of binary columns carry the names of their rows.",
     over=["histories", "inputs"],
     text="all histories of schema changes, row changes, binary data, commits and reopens, over all strings the code page can represent and lengths around the 64k limit",
     why="The tests only read files back with the same library, so an encoding mistake made symmetrically in reader and writer, or a file other implementations reject, goes unnoticed.",
     files=["libmsi/table.c", "libmsi/string.c", "libmsi/libmsi-database.c", "libmsi/streams.c"],
     mech=[("string pool layout, long strings, reference width", "libmsi/string.c msi_save_string_table"),
           ("column-wise table streams with biased integers", "libmsi/table.c save_table"),
           ("encoded stream names", "libmsi/table.c encode_streamname"), ("output storage", "libmsi/libmsi-database.c")],
     observe=["bytes of the committed file"],
     technique="stateful property-based testing; committed files parsed by an independent implementation of the format and compared with the reference model",
     note=NOTE + "Row order within a table and streams left behind by deleted rows are not specified; at most one binary column per table (they share a stream by format).")

prop(id="P06", title="Databases written by other producers are read, edited and kept intact",
     statement="A valid database written by another implementation (either reference width, unused or empty string pool entries, any supported code page, strings over 64k, "
               "tables without a stream) is read with exactly its tables, columns and rows. Editing and committing it changes only what was edited and keeps its code page; this includes the edit by which the number of strings passes 64k.",
     over=["inputs", "histories"],
     text="all well-formed databases within the generator's bounds and all short edits of them",
     why="The tests contain no databases made elsewhere beyond a few samples; layout freedoms of the format that libmsi itself never uses are never exercised.",
     files=["libmsi/string.c", "libmsi/table.c", "libmsi/libmsi-database.c"],
     mech=[("string pool parsing", "libmsi/string.c msi_load_string_table"), ("table stream parsing", "libmsi/table.c read_table_from_storage"),
           ("reference width chosen on commit", "libmsi/string.c msi_save_string_table")],
     observe=["query results over the independently written file", "independent parse of the file after an edit"],
     technique="property-based testing with an independent writer and reader of the format (differential round trip)",
     note=NOTE + "Code pages 0, 1250, 1251, 1252, 932 and 65001; files up to a few thousand sectors, string counts around 65536 as fixed cases.")

prop(id="P07", title="Streams, binary columns and storages keep their exact bytes",
     statement="Whatever is stored through _Streams, a binary column or _Storages is read back byte for byte under exactly its name, in the session and after commit and reopen, "
               "also by msiinfo streams and msiinfo extract. Replacing or deleting one leaves all others as they were; editing a database keeps the streams and storages (with their class ids) it already had; data that cannot be stored is refused.",
     over=["histories", "inputs"],
     text="all histories of adding, replacing, deleting and reading streams, binary rows and storages, over all names the format can hold and contents around the sector sizes",
     why="The tests store a few small streams once; they do not look at the neighbours of a replaced stream, at nested storages, or at sizes where the file layout changes.",
     files=["libmsi/streams.c", "libmsi/storages.c", "libmsi/libmsi-database.c", "libmsi/table.c", "libmsi/libmsi-istream.c", "tools/msiinfo.c"],
     mech=[("stream list and its copy on commit", "libmsi/libmsi-database.c msi_create_stream, commit_stream, commit_storage"),
           ("_Streams and _Storages views", "libmsi/streams.c, libmsi/storages.c"), ("name encoding", "libmsi/table.c encode_streamname")],
     observe=["_Streams and binary columns through queries", "independent parse of the committed file", "msiinfo output"],
     technique="stateful property-based testing against a dictionary model and an independent parser of the file",
     note=NOTE + "At most one binary column per table; whether the stream of a deleted row stays is not specified; empty streams cannot be set through the API.")

prop(id="P08", title="Commits are all-or-nothing and uncommitted work stays out of the file",
     statement="A session that ends without commit, or works read-only or into a separate output file, leaves the database file exactly as it was and nothing behind. "
               "Other sessions see committed data only. If the process dies at any point of a commit, or any of its file operations fails, the file holds completely the old or completely the new data, can be opened and committed again, and success is reported only if the new data is in the file.",
     over=["histories", "crash_points", "fault_sequences"],
     text="all pairs of transactions, all file operations of a commit as crash or failure points, all file size limits",
     why="No test interrupts a commit or makes a file operation fail; the guarantee is about every point in the sequence.",
     files=["libmsi/libmsi-database.c"],
     mech=[("work goes to a temporary file which then replaces the database", "libmsi/libmsi-database.c _libmsi_database_start_transaction, _libmsi_database_close"),
           ("commit", "libmsi/libmsi-database.c libmsi_database_commit")],
     observe=["bytes of the file and contents of its directory", "independent parse after the fault", "result of the commit"],
     technique="property-based testing with fault injection: generated transactions, crash or failure at a generated file operation, differential check against both contents",
     note=NOTE + "Crashes are deaths of the process at calls of the C library (fwrite, fclose, fflush, rename, unlink, fdopen); loss of the page cache (power failure) is not simulated.")

prop(id="P09", title="Export followed by import gives the same table",
     statement="Every persistent table that can be exported to text can be imported into another (or the same) database, and gives a table with the same name, columns, primary key and rows, "
               "binary contents included, whatever characters the strings contain. Importing over an existing table replaces its rows, leaves all other tables alone, and the result survives commit and reopen.",
     over=["inputs", "histories"],
     text="all tables within the generator's bounds: all column types, nullable or not, keys of one or several columns, strings with tabs, line breaks, control and non-ASCII characters, SQL keywords as names, binary columns",
     why="The tests export a handful of tables with plain values; values that need escaping, keyword names or binary keys were never tried, and several of these lost data.",
     files=["libmsi/libmsi-database.c"],
     mech=[("export of header and rows", "libmsi/libmsi-database.c msi_export_row, msi_export_record, msi_export_stream"),
           ("import: parsing, table creation, row insertion", "libmsi/libmsi-database.c _libmsi_database_import"), ("column types to SQL", "libmsi/libmsi-database.c msi_build_createsql_columns")],
     observe=["queries over the importing database", "independent parse of the committed file"],
     technique="property-based testing: round trip through text files, compared with the reference model of the exported tables",
     note=NOTE + "A one-column row whose only value is empty is an empty line, which the format cannot express here: recorded as a known finding.")

prop(id="P10", title="Text archive files follow the IDT format in both directions",
     statement="An exported table is exactly the documented text: column names, column types, table name with primary keys, then one line per row, CR LF line ends, tab separators, tab, CR and LF in strings replaced by 0x10, 0x11 and 0x19, binary values as file names below a directory of the table's name. "
               "Any text file following this format, whoever wrote it, is imported as exactly the table it describes; a text that breaks the format (a row with too few fields, an unknown type, a key that is no column, a number out of range, a missing file, the same key twice) is refused and changes no other table. Files for binary values are only written inside that directory.",
     over=["inputs"],
     text="all tables within the generator's bounds, written by libmsi and read by an independent parser, and written by an independent writer (LF or CR LF line ends, optional trailing blank line) and read by libmsi",
     why="A round trip alone passes when writer and reader share a mistake; other tools (and the repository's own IDT sources) have to agree on the text.",
     files=["libmsi/libmsi-database.c", "tools/msiinfo.c", "tools/msibuild.c"],
     mech=[("writer", "libmsi/libmsi-database.c msi_export_*"), ("reader", "libmsi/libmsi-database.c msi_parse_line, _libmsi_database_import"), ("_ForceCodepage", "libmsi/libmsi-database.c msi_import_forcecodepage, msi_export_forcecodepage")],
     observe=["bytes of the exported files", "files created on disk", "queries over the importing database"],
     technique="property-based testing against an independent writer and reader of the format",
     note=NOTE + "The trailing NUL byte that the export of _ForceCodepage writes is fixed by an existing test and is not judged.")

prop(id="P11", title="Summary information keeps every property it is given",
     statement="Properties of the summary information read back with the type and value they were set to; all others are unaffected by a set, a rejected set (wrong type, unknown property, no room left) changes nothing. "
               "Persisted and committed properties are in the file as a well-formed property set; property sets other producers wrote are read completely; saving into another database, text export and import, and msiinfo suminfo show the same values.",
     over=["histories", "inputs"],
     text="all histories of open, set, persist, save, commit, reopen, export and import over all properties and values, starting from nothing or from an independently written property set in any layout",
     why="The tests check a few properties with short strings in one order; padding, order of the index, limits and the interplay of several sets are sampled once.",
     files=["libmsi/libmsi-summary-info.c", "tools/msiinfo.c"],
     mech=[("reader", "libmsi/libmsi-summary-info.c load_summary_info"), ("writer", "libmsi/libmsi-summary-info.c suminfo_persist"),
           ("text form", "libmsi/libmsi-summary-info.c msi_add_suminfo, summary_info_export"), ("printing", "tools/msiinfo.c suminfo")],
     observe=["getters", "independent parse of the property set in the committed file", "text export", "output of msiinfo suminfo"],
     technique="stateful property-based testing against a dictionary model and an independent reader and writer of property sets",
     note=NOTE + "Filetimes with fractions of a second are excluded from the text form, which has none.")

prop(id="P12", title="msibuild does what its command line says, or says that it failed",
     statement="msibuild creates or edits a package by carrying out its options in order: -q statements, -i tables from text files, -a streams from files, -s summary information; the saved file holds exactly the outcome, "
               "defaults of a new package included. If any option fails, or is unknown or incomplete, the exit status is not zero and an existing package keeps its previous contents; no temporary file stays behind.",
     over=["programs", "inputs"],
     text="all msibuild command lines over new and existing packages, valid or failing at any option",
     why="The tests run msibuild a few times with options that work, and never look at what a failing command line leaves.",
     files=["tools/msibuild.c", "libmsi/libmsi-database.c", "libmsi/sql-parser.y"],
     mech=[("option loop and commit at the end", "tools/msibuild.c main"), ("tables, streams, summary information", "tools/msibuild.c import_table, add_stream, set_suminfo, do_query")],
     observe=["exit status, standard error", "independent parse of the written package", "directory contents"],
     technique="property-based testing of generated command lines against a model of the options",
     note=NOTE + "Up to three command lines per package; import directories and stream files exist only inside the scratch directory.")

prop(id="P13", title="SQL that msiinfo exports rebuilds the same table in msibuild",
     statement="The statements written by msiinfo export -s for a table, given to msibuild -q, create a table with the same columns, keys and rows, "
               "whatever strings and numbers it holds and however the statements are split over arguments.",
     over=["inputs"],
     text="all tables without binary columns within the generator's bounds, the statements in one argument or several",
     why="The tests compare the output for two fixed tables with a stored text; they never feed it back, and several values made it unusable.",
     files=["tools/msiinfo.c", "tools/msibuild.c", "libmsi/tokenize.c", "libmsi/sql-parser.y"],
     mech=[("writing of statements", "tools/msiinfo.c export_create_table, export_insert"), ("splitting of statements", "tools/msibuild.c do_query, libmsi/sql-parser.y")],
     observe=["independent parse of the rebuilt package"],
     technique="property-based testing: round trip through both tools, compared with the reference model",
     note=NOTE + "Strings with a single quote and rows with nothing but nulls have no SQL form here: recorded as known findings.")

prop(id="P14", title="Merging adds what is missing and reports what conflicts",
     statement="After merging a database into another, the target has all its own rows plus the tables and rows (with binary data) only the other has; rows in both stay once. A table with rows of equal key and different values is not merged but "
               "listed with the number of conflicts in the error table, all other tables are merged and failure is reported. If a table is defined incompatibly in both, nothing is changed. The merged database is never altered, and the result survives a commit.",
     over=["inputs", "histories"],
     text="all pairs of databases that share some tables, rows and keys, with equal, extended, shortened or incompatible definitions, merged once or repeatedly",
     why="The tests merge a few pairs of two-row tables; keys with quotes, nulls or keyword table names, binary rows and the absence of an error table made a merge fail or crash.",
     files=["libmsi/libmsi-database.c", "libmsi/table.c"],
     mech=[("comparison of tables and rows", "libmsi/libmsi-database.c merge_diff_tables, merge_verify_*"), ("merging", "libmsi/libmsi-database.c merge_table, libmsi_database_merge")],
     observe=["queries over target and source", "error table", "independent parse of the committed target"],
     technique="property-based testing against a reference merge of the relational model",
     note=NOTE + "Which of several incompatibilities is reported first is not specified.")

prop(id="P15", title="Applying a transform turns the base database into the target",
     statement="A transform that lists the differences between two databases (rows added, deleted, modified in some or all columns, tables added, columns added, binary data) applied to the first gives exactly the second, "
               "leaves everything it does not mention unchanged, and the result survives a commit. A file that is no transform is refused and changes nothing.",
     over=["inputs"],
     text="all pairs of databases within the generator's bounds and the transform between them, in both string reference widths and several code pages",
     why="The tests apply one fixed transform; no test has one with added columns next to untouched tables, string keys, or three-byte references.",
     files=["libmsi/table.c", "libmsi/libmsi-database.c", "libmsi/string.c"],
     mech=[("reading and applying of table transforms", "libmsi/table.c msi_table_load_transform, msi_table_apply_transform"), ("record decoding", "libmsi/table.c msi_get_transform_record")],
     observe=["queries and catalogue after applying", "independent parse of the committed file"],
     technique="property-based testing with transforms written by an independent implementation of the format",
     note=NOTE + "The writer follows the format as msitools reads it and Windows Installer writes it; validation conditions of transforms are not implemented by the repository and not judged.")

WNOTE = ("Holds on every generated case; no exhaustiveness. Trusts the reference compiler (written from the WiX and Windows Installer documentation), the independent "
         "readers of compound files, tables and cabinets, and the ASan build of wixl. ")
WCASE = "all WiX documents of the supported vocabulary within the generator's bounds, split over any number of source files"

prop(id="P19", title="Every source file arrives in its cabinet byte for byte",
     statement="For each file of an installed component, the File table names it with its size, version and sequence number, the Media table assigns that sequence to the medium asked for, "
               "and the cabinet of that medium, embedded or beside the package, holds exactly the medium's files, in sequence order, with the bytes of the sources. Unversioned files have their MD5 in MsiFileHash. "
               "A file on a medium that does not exist is refused.",
     over=["inputs"], text=WCASE + "; source files of 0 to 70000 bytes, one to three media",
     why="The tests build a few packages with one medium and compare tables; none reads the cabinet back, and none has several media or cabinets outside of the package.",
     files=["tools/wixl/builder.vala", "tools/wixl/msi.vala"],
     mech=[("files are sequenced and put into cabinets", "tools/wixl/builder.vala build_cabinet"), ("hashes of unversioned files", "tools/wixl/builder.vala hash_files")],
     observe=["File, Media and MsiFileHash tables", "contents of the cabinets"],
     technique="property-based testing of generated documents against a reference compiler and an independent cabinet reader", note=WNOTE)

prop(id="P20", title="Directories, components and features of a package are the document's",
     statement="The package has the documented schema; its Directory, Component, Feature, FeatureComponents, CreateFolder and RemoveFile tables say exactly what the document says, wherever the elements stand: "
               "nested, in fragments, referred to from other source files, in component groups within groups. Key paths belong to their component and every reference between tables resolves.",
     over=["inputs"], text=WCASE, why="The tests compare the tables of some fixed documents; combinations of groups, references, fragments and nesting are sampled once or not at all.",
     files=["tools/wixl/builder.vala", "tools/wixl/wix.vala", "tools/wixl/msi.vala"],
     mech=[("elements become rows", "tools/wixl/builder.vala visit_directory, visit_component, visit_feature"), ("references are resolved over all documents", "tools/wixl/builder.vala resolve, find_element"),
           ("components are added to features", "tools/wixl/builder.vala feature_add_component")],
     observe=["schema and rows of the tables of the package, read by an independent parser"],
     technique="property-based testing of generated documents against a reference compiler", note=WNOTE)

prop(id="P21", title="Builds are repeatable and generated GUIDs are stable",
     statement="Building the same input again, elsewhere and in another environment, gives the same package except for its package code, timestamps and a product code asked to be generated. "
               "Generated component GUIDs are distinct and stay the same when other parts of the document, the order of source files, product name, version or file contents change.",
     over=["inputs", "configurations"], text=WCASE + ", pairs of environments and directories, and generated changes that do not concern the existing components",
     why="The tests build each document once. That order or GUIDs depend on addresses, on hash tables or on unrelated content shows only when builds are compared.",
     files=["tools/wixl/builder.vala", "tools/wixl/wix.vala", "tools/wixl/util.vala", "tools/wixl/msi.vala"],
     mech=[("GUIDs are computed from the component's path", "tools/wixl/util.vala uuid_from_name, tools/wixl/wix.vala full_path"), ("actions are ordered", "tools/wixl/msi.vala add_sorted_actions")],
     observe=["all tables and streams of both packages"],
     technique="metamorphic property-based testing: repeated and varied builds compared", note=WNOTE)

prop(id="P22", title="Actions are sequenced in the order the document asks for",
     statement="Each sequence table holds exactly the standard actions its content calls for and the actions the document schedules, each with its condition and its given or documented number; "
               "every After and Before that can be met is met, and demands that contradict each other are refused rather than dropped. Custom actions have the documented type bits, source and target.",
     over=["inputs"], text=WCASE + "; up to three sequences with up to seven scheduled actions each",
     why="The tests have a few fixed sequences; whether an order holds depends on the graph of constraints, on numbers and on the standard actions that other elements bring in.",
     files=["tools/wixl/msi.vala", "tools/wixl/builder.vala", "tools/wixl/msi-default.vala"],
     mech=[("topological sort of the actions", "tools/wixl/msi.vala sort_topological"), ("default actions", "tools/wixl/builder.vala sequence_actions"), ("standard numbers", "tools/wixl/msi-default.vala")],
     observe=["the sequence tables and CustomAction of the package"],
     technique="property-based testing of generated constraint graphs, each constraint checked on the result", note=WNOTE + "Actions before those with negative numbers are not specified.")

prop(id="P25", title="Component and product content arrives in the tables unchanged",
     statement="Registry values, ProgIds, shortcuts, services and their controls, ini entries, properties and searches, upgrades, launch conditions, icons, binaries, custom actions and the summary information of a package are "
               "exactly those of the document: one row each, with the documented encoding of types and flags and with every character of their texts.",
     over=["inputs"], text=WCASE + "; texts with quotes, brackets, dollars, line breaks, other scripts, as attributes, text or CDATA",
     why="The tests have one or two values of each kind; the encoding of values (escapes of registry types, flags, defaults of missing attributes) depends on the attributes given and the characters in them.",
     files=["tools/wixl/builder.vala", "tools/wixl/msi.vala", "tools/wixl/wix.vala"],
     mech=[("elements become rows", "tools/wixl/builder.vala visit_*"), ("rows are inserted through prepared records", "tools/wixl/msi.vala")],
     observe=["rows, streams and summary information of the package, read by independent parsers"],
     technique="property-based testing of generated documents against a reference compiler", note=WNOTE)

prop(id="P18", title="msiextract writes the package's files to their places",
     statement="For any package, msiextract writes each file of its cabinets, byte for byte, to the path its component's directories and long names give below the target directory, prints these paths and writes nothing else; "
               "with -l it prints the paths of all files of all packages and writes nothing. Nothing is ever written outside of the target directory. Dangling references and missing cabinets are errors, damaged packages never crash it or make it loop.",
     over=["inputs"],
     text="all packages within the generator's bounds: directory trees, short, long, source and target names, several media, embedded and external cabinets, stored or MSZIP; names leading outside; damage",
     why="The tests list one or two packages. Path composition, several cabinets, case-insensitive lookup, hostile names and damage are untested.",
     files=["tools/msiextract.vala"],
     mech=[("directories are joined up to the root", "tools/msiextract.vala extract"), ("cabinets are found as streams or beside the package", "tools/msiextract.vala extract_cab, lookup_cab")],
     observe=["files below and outside of the target", "standard output", "exit status"],
     technique="property-based testing with packages and cabinets written by an independent writer, and hostile and damaged variants",
     note=NOTE + "Two files with one path, and what is printed for hostile names, are not specified. All escaping names stay inside the scratch directory.")

prop(id="P24", title="wixl-heat's fragment builds to exactly the listed files",
     statement="For any listing of files, wixl-heat writes well-formed XML in which each listed file below the prefix that no exclusion covers occurs once, with unique identifiers that are the same in every run, in the directories of its path; "
               "built by wixl, the package holds exactly these files at these paths with their contents.",
     over=["inputs"],
     text="all trees and listings within the generator's bounds, names with spaces, quotes, markup, dollars, percent signs and other scripts, sorted or not, all options",
     why="The test lists four files with plain names and looks at their File elements; nesting, special characters and whether the output builds are untested.",
     files=["tools/wixl/wixl-heat.vala", "tools/wixl/util.vala"],
     mech=[("directories are opened and closed along the listing", "tools/wixl/wixl-heat.vala main"), ("identifiers are hashes of paths", "tools/wixl/util.vala generate_id")],
     observe=["the fragment as parsed by an XML parser", "the package wixl builds from it"],
     technique="property-based testing, round trip through the fragment and wixl back to the tree", note=WNOTE + "The prefix ends in a slash; names outside the package's code page are parsed, not built.")

prop(id="P23", title="The preprocessor is a function of the documents, definitions and environment",
     statement="For any document with includes, what wixl -E prints is the document with every instruction carried out: of each if/elseif/else/endif only the branch whose condition is the first to hold, variables replaced by the values "
               "they have at that point, included files in place, looked up as named, along the -I directories and beside the including file, required files once; parts left out have no effect; warnings are reported with their place. "
               "Undefined variables, missing includes and errors end the run with a failure. Several inputs do not see each other's definitions.",
     over=["inputs"],
     text="all documents within the generator's bounds: nesting to depth 4, compound conditions, definitions from file, command line and environment, up to 11 include files in 5 directories, text, attributes and CDATA with dollars and markup",
     why="The tests print two documents and count one warning. Nesting, elseif chains, redefinition, search order, operators and escapes combine in ways no sample covers.",
     files=["tools/wixl/preprocessor.vala", "tools/wixl/builder.vala", "tools/wixl/wixl.vala", "tools/wixl/util.vala"],
     mech=[("a stack of conditions decides what is written", "tools/wixl/preprocessor.vala preprocess_xml"), ("conditions are parsed with a recursive descent parser", "tools/wixl/preprocessor.vala EvalCondition"), ("values are expanded", "tools/wixl/preprocessor.vala eval")],
     observe=["the XML printed by wixl -E", "warnings", "exit status"],
     technique="property-based testing against a reference evaluator", note="Ordering of non-numbers, bare strings as conditions and mixing and/or without parentheses are not specified. White space between elements is not compared.")

prop(id="P17", title="No file makes the library misbehave",
     statement="Whatever bytes a database, transform, patch or merge module consists of, opening it, reading it through every query, key, export and summary function, applying or merging it, changing it and committing it either fail or work: "
               "there is no crash, no memory error, no use of uninitialised results, no endless loop, and every file that was opened is closed again.",
     over=["inputs"],
     text="well-formed databases, transforms and modules with up to 8 changes to values, lengths, streams and container bytes, and whatever coverage-guided search reaches from them within its budget, up to 20 kB",
     why="The tests only open files the library wrote itself. The format is full of lengths, counts, offsets and references that need not agree with each other.",
     files=["libmsi/libmsi-database.c", "libmsi/table.c", "libmsi/string.c", "libmsi/streams.c", "libmsi/storages.c", "libmsi/libmsi-summary-info.c", "libmsi/query.h", "libmsi/where.c", "libmsi/libmsi-record.c"],
     mech=[("the string pool is bounds checked", "libmsi/string.c msi_load_string_table"), ("table streams are checked against the row size", "libmsi/table.c read_table_from_storage"), ("transform rows are decoded", "libmsi/table.c msi_table_load_transform"),
           ("property sets are decoded", "libmsi/libmsi-summary-info.c load_summary_info")],
     observe=["crashes and AddressSanitizer reports", "time", "open file descriptors"],
     technique="structured mutation and coverage-guided fuzzing with AddressSanitizer", note="Holds on every input executed; no exhaustiveness. Memory that is merely leaked is not counted.")

prop(id="P29", title="No statement and no table file makes the library misbehave",
     statement="Whatever text is given as a statement, and whatever bytes are given as a table file to import, the library either rejects it or carries it out: there is no crash, no memory error, no endless loop and no open file left, "
               "in any sequence of statements, imports and commits on one database, with queries left open while others change, drop or save the tables they refer to; the database can still be read and saved afterwards.",
     over=["inputs", "histories"],
     text="sequences of up to 10 (searched: 12) statements, table files and commits; grammatical statements of every kind, with tokens left out, repeated up to 300 times, exchanged or replaced; damaged table files; up to 4 queries left open",
     why="The tests check a few dozen syntactic errors, each once. Parser, planner and views take any combination of clauses, tables (including the tables that list tables, columns, streams and storages) and arguments.",
     files=["libmsi/sql-parser.y", "libmsi/tokenize.c", "libmsi/libmsi-query.c", "libmsi/where.c", "libmsi/select.c", "libmsi/distinct.c", "libmsi/insert.c", "libmsi/update.c", "libmsi/delete.c", "libmsi/create.c", "libmsi/alter.c", "libmsi/drop.c",
            "libmsi/streams.c", "libmsi/storages.c", "libmsi/libmsi-database.c", "libmsi/table.c"],
     mech=[("the tokenizer and the grammar reject what is not a statement", "libmsi/sql-parser.y sql_lex"), ("views check columns and rows", "libmsi/table.c table_ops"), ("imported lines are split and checked", "libmsi/libmsi-database.c _libmsi_database_import")],
     observe=["crashes and AddressSanitizer reports", "time", "open file descriptors"],
     technique="grammar-based generation and coverage-guided fuzzing with AddressSanitizer", note="Holds on every input executed; no exhaustiveness. Statements are valid UTF-8 without NUL. Memory that is merely leaked is not counted.")

prop(id="P30", title="Every execution of a prepared query delivers its result, each row once",
     statement="A query that was prepared once can be executed any number of times, with other parameter values each time: a SELECT then delivers exactly the rows that its text with those values selects from the database as it is at that moment, "
               "each once, in the order asked for, and then no row and no error, however often it is asked; executing it again in the middle, after the end, or after closing it starts over. INSERT, UPDATE and DELETE take effect once per execution and deliver no rows. "
               "Any number of queries can be read by turns, over the same or other tables and databases, without disturbing each other, and their column information stays the same. A query whose table was dropped, altered or committed meanwhile fails cleanly.",
     over=["histories"],
     text="one or two databases with up to two tables, up to 28 steps over up to five prepared queries; what is delivered after the table changed under a result set being read is left open (it must not crash)",
     why="The tests execute most queries once and read one result at a time. Views keep state between executions (row maps, reordering, distinct sets, hash tables, parameters), which shows only in sequences.",
     files=["libmsi/libmsi-query.c", "libmsi/where.c", "libmsi/select.c", "libmsi/distinct.c", "libmsi/insert.c", "libmsi/update.c", "libmsi/delete.c", "libmsi/table.c"],
     mech=[("execution resets the row counter", "libmsi/libmsi-query.c _libmsi_query_execute"), ("matching rows are collected per execution", "libmsi/where.c where_view_execute"), ("distinct rows are collected per execution", "libmsi/distinct.c distinct_view_execute"),
           ("parameters are merged into each execution", "libmsi/libmsi-query.c msi_query_merge_record"), ("queries notice that their table went away", "libmsi/table.c table_view_is_valid")],
     observe=["rows, errors and column information of each call", "table contents afterwards"],
     technique="model-based stateful testing of prepared queries against a reference model", note=NOTE)

prop(id="P28", title="wixl either builds a complete package or fails cleanly",
     statement="Whatever documents wixl is given, it terminates without crashing and exits with 0 or 1. If it fails it says so on standard error, leaves no new output file (an older one is left as it was, or removed) and no temporary files behind. "
               "It fails for XML that is not well-formed, inputs or sources that do not exist, an unwritable output, unknown architectures and extensions, and references to things that do not exist or that lead back to themselves. "
               "If it succeeds, the package is a readable database with its required values filled in, unique keys and no foreign key without its row, and every named element of the documents that belongs in the package has its row.",
     over=["inputs", "configurations"],
     text="generated documents with up to three mutations (attributes and elements deleted, added, renamed, moved, repeated, given odd values, broken references, cycles), broken XML, missing files and options; sources up to 300 bytes; whether a questionable document is accepted is left open except for the classes named",
     why="The tests compile nine correct documents and never one that should be refused. Any omission in an authored document leads into a lookup, cast or conversion that must not be taken for granted.",
     files=["tools/wixl/wixl.vala", "tools/wixl/builder.vala", "tools/wixl/wix.vala", "tools/wixl/msi.vala", "tools/wixl/util.vala", "tools/wixl/preprocessor.vala", "tools/wixl/main.vala"],
     mech=[("errors are thrown and reported", "tools/wixl/wixl.vala main"), ("references are resolved or refused", "tools/wixl/wix.vala WixResolver.resolve"), ("elements of unknown kind or place are refused", "tools/wixl/wix.vala WixNode.load"),
           ("the package is written to a temporary file first", "tools/wixl/msi.vala MsiDatabase.build")],
     observe=["exit status and messages", "files left", "tables of the package"],
     technique="mutation-based property testing of generated documents against structural invariants", note=WNOTE)

prop(id="P16", title="A record gives back what was put in, and its streams read the same each time",
     statement="A field of a record holds the last value set - an integer, a string or the contents of a file - until it is set again or the record is cleared, whatever happened to other fields, to the query or row it came from, or to the file it was loaded from. "
               "Reading it as another type gives the documented conversion or null, never another field's value. A stream of a record delivers the same bytes each time it is taken, from any position that was sought or skipped to, independently of other streams of the same field; "
               "positions outside of it are refused with an error and do not move it. A record inserted into a table is stored as it was then.",
     over=["histories"],
     text="up to four records of up to six fields and three open streams, steps that set, clear, read, fetch, insert, open, read, skip and seek",
     why="The tests set and read a few fields once. Streams share the data of a record and of the database, and reads move them, so mistakes need two uses of the same field.",
     files=["libmsi/libmsi-record.c", "libmsi/libmsi-istream.c", "libmsi/libmsi-query.c", "libmsi/streams.c"],
     mech=[("a new stream of a field starts at its beginning", "libmsi/libmsi-istream.c libmsi_istream_new"), ("seek and skip stay inside the data", "libmsi/libmsi-istream.c"), ("strings are converted to integers", "libmsi/libmsi-record.c expr_int_from_string"),
           ("fields are copied between records", "libmsi/libmsi-record.c _libmsi_record_copy_field")],
     observe=["field values as integer, string, null and stream", "bytes, positions and errors of streams", "stored rows"],
     technique="model-based stateful testing of the record and stream API against a reference model", note=NOTE)

prop(id="P26", title="msidump writes all of a database, only below its directory, and can be undone",
     statement="msidump writes one text file for every table, the summary information and the code page, the data of each binary field, and, if asked, one file for every stream, with exactly the contents they have, whatever the names of the tables, streams, files and directories are; "
               "it writes only below the directory it was given, and changes nothing else. Importing and adding what was dumped into an empty database gives the same tables and streams. It fails, without writing, if the file or directory is missing.",
     over=["inputs", "configurations"],
     text="databases of up to three tables with binary columns and up to four streams, names with blanks, wildcards, slashes, quotes and leading dashes; relative and absolute files and directories, all selections",
     why="The tests never run msidump. It is a shell script over msiinfo: what breaks it are particular names and working directories.",
     files=["tools/msidump.in", "tools/msiinfo.c", "tools/msibuild.c", "libmsi/libmsi-database.c"],
     mech=[("each name is one file", "tools/msidump.in"), ("binary data is exported beside the table", "libmsi/libmsi-database.c msi_export_stream"), ("streams are copied whole", "tools/msiinfo.c cmd_extract")],
     observe=["files below and outside of the directory", "exit status", "rebuilt database, read by an independent parser"],
     technique="round-trip and reference-reader property testing of dumps of generated databases", note=NOTE)

prop(id="P27", title="msidiff prints exactly what differs between two packages",
     statement="Comparing two databases, msidiff prints nothing if their dumps are equal; otherwise the output, applied as a patch to the dump of the first, gives the dump of the second, so no difference is left out and none invented. Comparing lists of files, it names exactly the files and directories which only one of the packages has. "
               "It succeeds in both cases, fails if one of the files is missing or no database, and leaves nothing behind, whatever the names of the files and of the directories it works in are.",
     over=["inputs", "configurations"],
     text="pairs of databases of up to three tables, equal or up to four edits apart (rows, tables, order), pairs of packages with up to eight files; file and temporary directory names with and without blanks; default and given diff options; the long list (-L) is left out",
     why="The tests never run msidiff. A wrong comparison shows only for particular differences, names or working directories.",
     files=["tools/msidiff.in", "tools/msidump.in", "tools/msiextract.vala", "tools/msiinfo.c"],
     mech=[("both files are dumped and compared recursively", "tools/msidiff.in"), ("the temporary directory is removed", "tools/msidiff.in cleanup")],
     observe=["output, applied with patch to a dump", "exit status and messages", "files of the working and temporary directories"],
     technique="metamorphic property testing: the printed diff has to turn the one dump into the other", note=NOTE)

prop(id="P31", title="User interfaces and the UI extension arrive in the package",
     statement="Dialogs, controls, their conditions, events and subscriptions, radio buttons, check boxes, text styles, interface and progress texts of a package are exactly those of the document, with their documented attributes, "
               "defaults, tab order and event order. With the ui extension, its common parts and exactly those further parts that are referred to and not defined by the document are included, each once, and sources are also found in its directory; "
               "a reference that nothing satisfies, or that needs the extension when it is not enabled, is an error.",
     over=["inputs", "configurations"],
     text=WCASE + "; up to five dialogs with up to five controls, in the document or in a generated extension directory, references among them; also the extension that is installed",
     why="The tests build one package with the installed extension and compare two of its tables. The attributes of controls are bits that depend on twenty attributes and the type, the order of events is counted over the whole document, and what is loaded depends on what refers to what.",
     files=["tools/wixl/builder.vala", "tools/wixl/wix.vala", "tools/wixl/msi.vala", "tools/wixl/wixl.vala", "data/ext"],
     mech=[("parts of the extension are loaded when an element is not found", "tools/wixl/builder.vala load_extension_file"), ("elements become rows", "tools/wixl/builder.vala visit_dialog, visit_control, visit_publish"),
           ("tables of the user interface exist with the extension", "tools/wixl/msi.vala")],
     observe=["tables, streams and sequences of the package, read by an independent parser", "exit status"],
     technique="property-based testing of generated documents and extension directories against a reference compiler", note=WNOTE)

prop(id="P32", title="Sessions leave no memory or open files behind",
     statement="A session with the library that releases the objects it obtained leaves nothing behind: repeated in the same process any number of times on the same files, it ends with the same amount of allocated memory and the same files open. "
               "This holds for statements and tables, records and streams, summary information, imports and exports, merges, transforms, commits and sessions given up, and as well where an operation is refused: "
               "statements that do not parse, rows with a key that exists, malformed text archives, files and transforms that are damaged. Failed writes are left out.",
     over=["histories", "inputs"],
     text="the generated sessions of P02, P03, P04, P07, P09, P10, P11, P14, P15, P16 and P30 and the damaged inputs of P17 and P29, repeated four to eight times each",
     why="The tests end after one session, where everything is returned to the system anyway. What is not released is released on some paths and not on others: mostly those of refused operations.",
     files=["libmsi/libmsi-database.c", "libmsi/libmsi-query.c", "libmsi/libmsi-record.c", "libmsi/table.c", "libmsi/where.c", "libmsi/insert.c", "libmsi/update.c", "libmsi/streams.c", "libmsi/libmsi-summary-info.c", "libmsi/string.c", "libmsi/sql-parser.y"],
     mech=[("objects are counted", "libmsi/libmsi-database.c libmsi_database_finalize"), ("views release what they hold", "libmsi/libmsi-query.c libmsi_query_close"), ("memory of a statement is freed with it", "libmsi/sql-parser.y parser_alloc")],
     observe=["bytes the allocator has handed out", "entries in /proc/self/fd"],
     technique="metamorphic property testing: repetition of generated sessions with accounting of memory and handles", note=NOTE)

prop(id="P33", title="Output that cannot be written in full is reported",
     statement="A tool (msiinfo, msidump, msiextract, msibuild, wixl, wixl-heat) that cannot write all of its output, be it to standard output or to files, because the device is full, a file may not grow or something is in the way, ends with a failure and a message; "
               "it does not crash and never succeeds with output that is cut or missing. A limit that its output does not reach changes nothing.",
     over=["inputs", "fault_sequences"],
     text="generated databases, packages, lists of files and documents; a limit on the size of every written file at any point of the output, a full device as standard output, files and dangling links where a directory has to be made, a directory where none can be made",
     why="The tests never fill a device. Output is buffered, so the failure of most writes shows only when a stream is flushed or closed, and whether it is noticed depends on the byte at which it happens.",
     files=["tools/msiinfo.c", "tools/msidump.in", "tools/msiextract.vala", "tools/msibuild.c", "tools/wixl/wixl-heat.vala", "tools/wixl/builder.vala", "tools/wixl/msi.vala", "libmsi/libmsi-database.c"],
     mech=[("standard output is flushed and checked", "tools/msiinfo.c main"), ("the sink of the file is checked when it is closed", "libmsi/libmsi-database.c _libmsi_database_close"), ("heads and rows of exports are written", "libmsi/libmsi-database.c msi_export_record"),
           ("cabinets are written beside the package", "tools/wixl/msi.vala")],
     observe=["exit status and messages", "standard output and files, compared with an unlimited run"],
     technique="differential property testing with injected limits: a limited run against an unlimited one", note=NOTE)

NA = []
