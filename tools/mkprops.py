import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or ["standard output: the recovered SQL statements"],"hook_needed":hook}})
IB="recovery/ibdata/parse.go";FM="recovery/ibdata/format.go";UT="recovery/utils/utils.go";UC="recovery/utils/const.go"
RP="recovery/redo/parse.go";RM="recovery/redo/mlog.go";LG="recovery/logs/logs.go"
NT="The only data-path tests need a MySQL 5.7 fixture that is not in the repository and assert nothing about values; "
p("C01","Numeric columns are recovered with exactly the stored value",
 "Whatever value a row stores in a TINYINT, SMALLINT, MEDIUMINT, INT or BIGINT column (signed or unsigned), a BIT(1) to BIT(64) column, or a FLOAT or DOUBLE column, the REPLACE statement recovered from the data file carries a literal that MySQL reads back as exactly that value. No value of any width is truncated, masked, sign-flipped or makes the recovery fail.",
 ["inputs"],"all stored bit patterns of every integer width 1,2,3,4,8 and signedness, BIT byte lengths 1..8, all float and double bit patterns",
 NT+"a test samples a handful of the up to 2^64 values per column type.",
 [UT,UC,IB,FM],[("big-endian readers and sign-bit handling",UT+": GetIntValue, GetUintValue, MatchReadFrom*"),("type dispatch",UT+": ParseData"),("literal rendering",FM)])
p("C02","Date and time columns are recovered exactly",
 "For every DATE and DATETIME of the years 1 to 9999, every TIME between -838:59:59 and 838:59:59, every TIMESTAMP second after the epoch and every YEAR 1901-2155, and for dates with zero parts (0000-00-00, 2020-00-00), the year 0000 and the zero timestamp, stored in MySQL 5.6+ format with zero to six digits of fractional seconds, the recovered literal denotes exactly the stored value, as MySQL reads it (TIMESTAMP in the time zone of the process). The result depends only on the bytes of that column, never on what follows it in the row or page.",
 ["inputs"],"all valid values of each temporal type, all contents of the bytes that follow the column",
 NT+"no test decodes a temporal value, and wrong results only show for particular ranges (afternoon hours, years outside 1991-2099).",
 [UT],[("temporal decoders",UT+": ParseDateTime, GetTimeFormat, ParseDate, ParseTime, ParseTimeStamp")])
p("C03","Character and binary columns are recovered byte for byte",
 "For every CHAR, VARCHAR, TEXT, BINARY, VARBINARY and BLOB value stored in the row itself, the recovered literal denotes exactly the stored bytes; only the trailing space padding of CHAR values may be absent. Binary types are recovered as the hexadecimal form of exactly the stored bytes.",
 ["inputs"],"all byte contents and lengths within the bounds, latin1 and multi-byte column types, one- and two-byte length prefixes",
 NT+"contents and lengths are unbounded; only particular bytes (leading blanks, quotes, control bytes, the text NULL) or lengths (127/128, 255/256) go wrong.",
 [UT,IB,FM],[("type dispatch",UT+": ParseData, ParseBlob"),("length bytes",IB+": ibRecInitOffsetsNew"),("fixed/variable classification",UT+": GetFixedLength")])
p("C04","NULL is recovered as NULL, and only NULL is",
 "For every pattern of NULLs over the nullable columns of a row, in COMPACT and in REDUNDANT row format, each column stored as NULL is recovered as the SQL keyword NULL and each column not stored as NULL is recovered as its value. A NULL never leaks a value from another row or column, and no stored value, including the text 'NULL', is turned into NULL.",
 ["inputs","histories"],"all NULL patterns over up to 9 nullable columns (crossing a null-bitmap byte), rows following one another on a page",
 NT+"2^n NULL patterns times column types times the preceding rows.",
 [IB,FM,UT],[("null bitmap walk",IB+": ibRecInitOffsetsNew"),("null bit of field end info",IB+": ibRecInitOffsetsOld"),("value assignment",IB+": parseRecords"),("NULL rendering",FM)])
p("C05","Rows are split into fields correctly for every table shape",
 "For every table definition mixing fixed-length, variable-length and nullable columns, in COMPACT and in REDUNDANT format (one-byte and two-byte field offsets), each column of a recovered row is built from exactly the bytes that the row format assigns to that column. This includes the hidden row-id, transaction-id and roll-pointer fields, which shift the user columns but never appear in the statement.",
 ["inputs","configurations"],"table shapes of up to 4 user columns drawn from fixed/variable(<=255)/variable(>255)/nullable, all field lengths within the bounds, primary key or generated key",
 NT+"shapes times lengths times NULL patterns are combinatorial.",
 [IB,UT],[("field offset arithmetic",IB+": ibRecInitOffsetsNew, ibRecInitOffsetsOld; "+UT+": RecGetNthFieldOffs, Rec1GetFieldEndInfo, Rec2GetFieldEndInfo"),("hidden columns",IB+": addInternalColumns")])
p("C06","A page yields exactly the rows on its record chain, in order",
 "Reading table data yields exactly one statement per record on the page's live record chain, in chain order; recovering deleted data yields exactly one statement per record on the page's free-record chain, in chain order, and none from the live chain. This holds wherever the records lie in the page and however the chain jumps forwards and backwards.",
 ["inputs","configurations"],"all chains over up to 4 records at symbolic page positions, both row formats, both modes",
 NT+"record positions and chain orders are combinatorial; relative next-pointers wrap at 16 bits.",
 [IB],[("record chain walk",IB+": parsePage")])
p("C07","Every clustered leaf page is processed exactly once, and no other page",
 "Over any sequence of pages in a data file, statements are produced for exactly the pages that are B-tree leaf pages of the clustered index (index page type, level 0, no max-transaction-id), in file order and once per page number; when recovering deleted data, exactly those of them that hold deleted records. All other page types and levels never contribute statements and never stop later pages from being processed.",
 ["inputs","configurations"],"all page header field values (type, level, max trx id, free list, garbage, record count, page number) for files of up to 3 pages",
 NT+"no test checks which pages contribute.",
 [IB],[("page filter",IB+": ParseDataPage"),("page de-duplication",IB+": parseFile")])
p("C08","A recovered value can never escape its SQL literal",
 "For every byte string stored in a column, the recovered REPLACE or UPDATE statement is a single well-formed statement in which the value appears as one literal that MySQL's lexer decodes back to the stored bytes. No quote, backslash, newline, NUL or control byte inside a value ends the literal, starts another statement or changes the value.",
 ["inputs"],"all byte contents of values up to the bounded length, in data-file and redo recovery",
 "No test covers escaping at all; the property quantifies over all byte strings.",
 [UT,FM,RP],[("escaping",UT+": EscapeValue"),("REPLACE statement",FM+": makeReplaceIntoStatement"),("UPDATE statement",RP+": makeSQL")])
p("C09","REPLACE lists the values in the table's declared column order",
 "Whatever columns make up the primary key, and in whatever order, the values of a recovered REPLACE statement are listed in the declared column order of the table, one per user column, without the engine's hidden columns. No column is lost, duplicated or exchanged with another.",
 ["inputs","configurations"],"all primary keys (ordered subsets of the columns, or none) over tables of up to 4 columns",
 NT+"key/column arrangements are combinatorial, and the dictionary step that arranges them is untested.",
 [IB,FM],[("primary key first",IB+": movePrimaryKeyFirst, moveColumns2First"),("hidden columns",IB+": addInternalColumns, addColumns"),("value order",FM)])
p("C10","The data dictionary is reconstructed faithfully",
 "From every well-formed system tablespace, each table is reconstructed with its database, name, space, and all of its columns with their type, length, nullability, signedness and position, and all its indexes with their key columns in key order. The result does not depend on the order in which dictionary pages and entries lie in the file or in which internal collections are iterated.",
 ["inputs","configurations","schedules"],"dictionaries of up to 2 tables, symbolic type attributes and ids, names of up to sixteen arbitrary bytes, all orders of dictionary leaf pages, all internal map iteration orders",
 NT+"attributes, placements and iteration orders are unbounded.",
 [IB],[("dictionary table parsing",IB+": ParseDictPage, getAllTables, getAllColumns, getAllIndexes, getAllFields"),("attribute decoding",IB+": getAllColumns")],observe=["the table map after reading the system tablespace","standard output"])
p("C11","InnoDB compressed integers decode exactly and advance exactly",
 "For every 32-bit value in InnoDB's 1-5 byte compressed form, every 64-bit value in the compressed form used for transaction ids, and every 64-bit value in the much-compressed form used for undo numbers and table ids, decoding the canonical encoding returns the encoded value, and the reported sizes equal the number of encoded bytes. Decoding depends only on the bytes of the encoding.",
 ["inputs"],"all 2^32 / 2^64 values, any following bytes, encoding at any position including the very end of the buffer",
 "No test covers these decoders; errors sit at the encoding-size boundaries and above 2^32.",
 [UT],[("compressed readers",UT+": MatchParseCompressed, MatchGetCompressedSize, MatchUllReadComPressed, MatchUllReadMuchCompressed, MachUllGetMuchCompressedSize")],observe=["return values and advanced positions of the decoders"])
p("C12","The redo stream is reassembled exactly from log blocks and files",
 "However a sequence of redo records is split over 512-byte log blocks, partially filled blocks and consecutive log files, recovery behaves as if the block payloads were one contiguous stream: file headers, checkpoints, block headers and trailers never enter the stream and no payload byte is lost or repeated.",
 ["inputs","configurations"],"all fill levels of up to 3 blocks over up to 2 files, all header and trailer contents, records straddling block and file boundaries",
 NT+"the split points are positions in the file; tests have none.",
 [RP],[("block reassembly",RP+": ParseRedoLogs, readRedoBlockHeader, readRedoLogFileHeader, readRedoLogFileCheckpoint")])
p("C13","Every redo record type is skipped by exactly its length",
 "For every MySQL 5.7 redo record type and every legal content of such a record, an update that follows the record in the log is still found and recovered exactly as if the record were not there. In particular no record type, field count, field length, NULL field or name length desynchronises the parser.",
 ["inputs","histories"],"all record types of the 5.7 format, symbolic header and body within the bounds, alone and in pairs, with and without the single-record flag",
 NT+"about 55 record types with variable-length bodies; one wrong length silently loses the rest of the log.",
 [RP,RM,UT],[("record dispatch",RP+": parseRedoBlockData, validateLogHeader"),("record bodies",RM+": mlog*"),("index and insert bodies",UT+": ParseIndex, ParseInsertRecord")])
p("C14","Every logged update is recovered as an UPDATE restoring the old values",
 "For every undo record of an in-place or ordinary update to a table with a primary key, exactly one UPDATE statement is recovered, for that table, whose SET list assigns to exactly the updated columns their old values (NULL included) and whose WHERE clause names every primary key column with its value. Undo records of other kinds, or for tables not in the dictionary, yield no statement and do not disturb later ones.",
 ["inputs","histories"],"all undo/table/transaction ids and roll pointers, keys of up to 2 columns, up to 2 updated columns, symbolic values, records of all four undo kinds in sequence",
 NT+"ids, lengths and record mixes are unbounded.",
 [RM,RP],[("undo record parsing",RM+": mlogUndoInsert"),("statement",RP+": makeSQL")])
p("C15","Redo recovery prints only the requested tables",
 "When a database and a table are given, statements are printed only for that table of that database; when only one of them is given, only for that database's tables, respectively for tables of that name; when neither is given, for all tables. No matching statement is withheld.",
 ["inputs","configurations"],"all combinations of requested and actual database and table names (symbolic, including empty)",
 NT+"no test sets the filter.",
 [RM],[("filter",RM+": mlogUndoInsert")])
p("C16","A damaged data page never crashes or hangs the recovery",
 "Whatever bytes a data page contains (record chain cycles, out-of-page pointers, impossible lengths), reading the data file terminates without a crash, and the rows of the other, intact pages are still recovered.",
 ["inputs","fault_sequences"],"arbitrary values of page header, free-list and next pointers, null/length bytes and row-format flag of a page, followed by an intact page",
 "Corruption is the tool's normal operating condition but has no test; the space of damaged pages is unbounded.",
 [IB,UT],[("chain and field bounds",IB+": parsePage, ibRecInitOffsetsNew, ibRecInitOffsetsOld, parseRecords, checkFieldSize")])
p("C17","A damaged or truncated redo log never crashes or hangs the recovery",
 "Whatever bytes the log blocks contain and wherever the log ends, parsing terminates without a crash, and every statement whose undo record precedes the damage is still printed.",
 ["inputs","crash_points","fault_sequences"],"arbitrary byte strings up to the bounded length in place of a record, truncation of any record at any byte, arbitrary block length fields",
 "A log normally ends in the middle of a record; no test covers this.",
 [RP,RM,UT],[("bounds",RP+": parseRedoBlockData; "+RM+": mlog*; "+UT+": ParseIndex, ParseInsertRecord, MatchParseCompressed")])
p("C18","Recovery does not depend on how the operating system chunks reads",
 "If the operating system returns file data in arbitrary smaller pieces, the recovered statements are the same as when each read is filled completely. A trailing partial page is ignored and never invents rows, and a file that cannot be opened is reported as an error.",
 ["inputs","fault_sequences"],"all chunkings with up to a bounded number of short reads, data file and redo log; all lengths of a trailing partial page within the bounds",
 "Local test files never produce short reads.",
 [UT,IB,RP],[("page reader",UT+": ReadNextBytes, ReadIntoStruct; "+IB+": parseFile")])
p("C19","Logging is gated by level and never changes what is recovered",
 "A message is written to the log if and only if its level is at or below the configured level (names are case-insensitive, unknown names mean INFO). The recovered statements and the returned errors are the same at every log level. When a recovery command ends, in success or failure, every message it logged is in the log files of the given LogPath.",
 ["configurations","inputs"],"all level settings including unknown names, all message levels, recovery runs at a symbolic verbosity, every kind of failing command at every level",
 "The logging tests call the functions without asserting anything.",
 [LG],[("level map and gates",LG)],observe=["log output","standard output"])
p("C20","A request that cannot be satisfied is reported as an error",
 "Asking for a database/table that is not in the dictionary, or giving a system tablespace without the dictionary pages, returns an error and prints no statement, instead of crashing or silently printing nothing. Names are compared in full: a table whose name or database merely overlaps the requested one is never used.",
 ["inputs","configurations"],"all requested names (symbolic) against dictionaries of up to 2 tables; every missing dictionary page",
 "No test asks for a missing table.",
 [IB],[("lookup",IB+": getTableColumnsFromDict, ParseDataPage, ParseDictPage")],observe=["returned error","standard output"])
p("C21","The command line does what its options ask",
 "Whatever options the recovery commands are given, in any order and in either form (--name=value or --name value), global options before or after the command words: FromDataFile prints the deleted rows if and only if OpType is RecoveryData and the live rows otherwise; FromRedoFile reads the files of its comma-separated list in the given order as one log, and its DBName and TableName are filters that may each be left out; LogLevel is the level in effect; names and paths are taken exactly as they are given, whatever characters they have. A missing required option ends with a non-zero exit status and without a crash, and a request that cannot be carried out (missing file, damaged dictionary, unknown table) is reported on standard output; in neither case is a statement printed.",
 ["inputs","configurations"],"all OpType strings near the documented words, all rotations and forms of the options, every subset of the required options, every kind of failing request, names of any two bytes, paths with special characters, all splits of a record over two redo files and all filters",
 "No test runs the program; options, orders and failures are combinatorial.",
 ["cmd/db-recovery/command.go","cmd/db-recovery/main.go"],[("commands","cmd/db-recovery/command.go: FromDataFile, FromRedoFile, NewFromDataFileCommand, NewFromRedoFileCommand, NewRootCommand"),("exit status","cmd/db-recovery/main.go: main")],observe=["standard output","exit status","log level in effect"])
p("C22","Recoveries are repeatable and do not influence one another",
 "What a recovery prints depends only on the dictionary, the files and the request: reading a table or a log again, after any sequence of recoveries of other tables, other modes, other logs or failed requests with the same parser, or next to another parser with another dictionary, gives the same statements. The statement of a row or an update does not depend on the rows or updates in front of it, and nothing depends on the order in which internal collections are iterated.",
 ["histories","inputs","schedules"],"sequences of up to three recoveries over three tables, two dictionaries, live and deleted rows, logs and failing requests, files that change between two recoveries, symbolic values, every NULL pattern, all map iteration orders of two-table runs",
 "State left behind by one recovery shows only in particular sequences; no test performs two.",
 [IB,RP,RM],[("parser state",IB+": ParseDictPage, ParseDataPage, getTableColumnsFromDict, makeReplaceIntoStatement; "+RP+": ParseRedoLogs; "+RM+": mlogUndoInsert")],observe=["standard output","returned error"])
p("C23","Names in recovered statements denote exactly the dictionary's objects",
 "Every database, table and column name in a recovered statement is an identifier between backticks that a MySQL parser reads back as exactly the bytes stored in the data dictionary, whatever they are (except NUL, which MySQL names never have): a name with backticks, quotes, blanks, parentheses, semicolons, keywords or multi-byte characters neither ends the identifier early nor changes what follows. A column with an unusual name is neither lost nor confused with another one, and an index counts as the primary key only if it is one, whatever other indexes are called.",
 ["inputs"],"names of up to three arbitrary bytes in each position (database, table, column, key column), of up to sixteen without backticks, names like the internal columns, key words and prefixes of one another, indexes of any names, both recovery paths",
 NT+"the tests use no names but plain words.",
 [FM,RP,UT],[("row statement",FM+": makeReplaceIntoStatement"),("update statement",RP+": makeSQL"),("identifier quoting",UT+": EscapeIdentifier")])
p("C24","A file that cannot be read on is not taken for a file that has ended",
 "If the operating system fails to read a system tablespace, a table's data file or a redo log at whatever place (an input/output error), the request returns an error, which the command reports on standard output; the failure is never taken for the end of the file. What is printed until then is the beginning of what the intact file gives, and of a redo log every update whose blocks were read before the failure is still recovered.",
 ["inputs","fault_sequences"],"a persistent read error from any byte of the dictionary, the data file or one of two redo logs, live and deleted rows, both row formats",
 "Recovery is run on failing disks; no test makes a read fail, and the place where it fails is unbounded.",
 [UT,IB,RP],[("page reader",UT+": ReadNextBytes; "+IB+": parseFile, ParseDictPage, ParseDataPage"),("log reader",RP+": ParseRedoLogs, readRedoLogFileHeader, readRedoLogFileCheckpoint")],observe=["returned error","standard output"])
p("C25","Recovery only reads its input files and leaves no other files behind",
 "Whatever a recovery comes to - rows, damage, a request that fails - the system tablespace, data files and redo logs are byte for byte what they were, keep their names and modes, and no file is made, changed or removed anywhere but log files in the directory given for them; a path that does not exist is not created. Files that the user may only read suffice for recovery.",
 ["inputs","fault_sequences"],"intact, cut-off and damaged data files, logs and dictionaries with arbitrary bytes, missing and empty files, failing requests, every log level and OpType, as a user without write permission",
 "The input is often the only copy of lost data; a write hidden on a rare path (damage, failure) is not seen by tests that look at output only.",
 [IB,RP],[("data and dictionary files",IB+": parseFile, ParseDictPage, ParseDataPage"),("redo logs",RP+": ParseRedoLogs"),("commands","cmd/db-recovery/command.go")],observe=["the file system","standard output","returned error"])
p("C26","The exit status tells whether a recovery succeeded",
 "A recovery command ends with exit status 0 if it came to its end without an error, even if there was nothing to recover, and with another one if it did not: a file is missing or cannot be read, the dictionary is missing or damaged, the table is unknown, a log of the list cannot be opened. For damaged pages and logs it agrees with the error that the recovery itself returns. This holds for every log level, OpType and filter; what was recovered until the failure is printed all the same.",
 ["inputs","fault_sequences"],"missing, empty and truncated files in any place of the request, arbitrary unknown names, a read error at any offset, arbitrary damage, every log level",
 "Scripts decide by the exit status; the commands have no tests, and which of the many failures reaches it depends on the place and kind of fault.",
 ["cmd/db-recovery/command.go","cmd/db-recovery/main.go",IB,RP],[("commands","cmd/db-recovery/command.go: FromDataFile, FromRedoFile; main.go: main"),("errors",IB+": ParseDictPage, ParseDataPage; "+RP+": ParseRedoLogs")],observe=["the exit status","standard output"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
