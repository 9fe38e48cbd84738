TRUST = " Trusts clang's IR of the current sources (-O0, C++17), the class-hierarchy resolution of virtual calls and the rule tables of the check; nothing is executed."
PROPS = [
 dict(id="F01", title="Frame header: what is written is exactly what is read back",
  statement="For every frame and both byte orders, the sequence of header fields emitted when a frame is written (types, widths, order, conditional fields, repeated groups) is exactly the sequence consumed when it is read, and each value is restored into the attribute it was taken from: row count, data size, column names, types, bitfields, codec names, missing values, minima and maxima, properties. The same holds for the header block of every column codec.",
  over=["inputs", "programs"], quant="all frames, all column types and codecs, both byte orders, all property tables",
  why="The tests encode a few tables on one machine; the opposite byte order writer, many codecs and most header attribute combinations are never crossed.",
  files=["src/odc/core/Header.cc", "src/odc/core/MetaData.cc", "src/odc/core/Column.cc", "src/odc/core/DataStream.h", "src/odc/codec"],
  mech=[("serializeHeader / loadAfterMagic", "src/odc/core/Header.cc"), ("codec save/load", "src/odc/codec/*.h, src/odc/core/Codec.cc")],
  technique="effect-language comparison of serialiser and loader over inlined IR",
  note="Writer and reader are inlined from their entry points into automata over stream operations; the languages must be equal and the values in matching positions must have the same role. Does not decide numeric values."),
 dict(id="F02", title="Row codecs: encode, decode and skip agree for every codec",
  statement="For every column codec and both byte orders, decoding consumes exactly the bytes encoding appended on every path, skipping consumes the same bytes, and the decoded value is obtained by the inverse of the mapping and byte swapping that encoding applied. A missing input is stored as a marker that only a missing input can produce and that decodes to the column's missing value.",
  over=["inputs"], quant="all codec classes the library can instantiate, both byte orders, all stored values",
  why="Round-trip tests run one byte order and a handful of values per codec; a wrong width, swap or guard on an untested codec or path is invisible to them.",
  files=["src/odc/codec/Constant.h", "src/odc/codec/Integer.h", "src/odc/codec/Real.h", "src/odc/codec/String.h", "src/odc/codec/IntegerMissing.h", "src/odc/core/DataStream.h"],
  mech=[("Codec::encode/decode/skip", "src/odc/codec/*.h"), ("byte order helpers and stream primitives", "src/odc/core/DataStream.h")],
  technique="per-codec summaries of inlined IR (bytes, swaps, guarded value mapping) compared pairwise",
  note="Every codec class is enumerated from the emitted vtables; widths on all paths, byte swaps, mapping inverse, marker guards. Rounding of floating-point values is not decided."),
 dict(id="A01", title="C API: no exception escapes; failures give the documented code and text",
  statement="No call of the C interface lets an exception propagate to its caller: a failure inside returns the general error code for library exceptions and the unknown-exception code otherwise, never success. The message of the latest failure is what the error-string call returns, and a registered failure handler is called once with the registered context and the code that is returned, after the message is available. Advancing a frame succeeds exactly when a new frame was obtained and otherwise reports end of iteration.",
  over=["inputs", "fault_sequences"], quant="all C API functions, all exceptions thrown below them, all handler registrations",
  why="Tests exercise a few error paths; an unprotected function, a handler returning the wrong code or an unset message only shows on the faults they do not inject.",
  files=["src/odc/api/odc.cc", "src/odc/api/odc.h"],
  mech=[("API error wrapper", "src/odc/api/odc.cc")],
  technique="exception-flow (landing pad) analysis and must-precede rules on inlined IR",
  note="Every function declared in the C header is analysed; every unwinding edge outside a handler must end in a catch-all."),
 dict(id="A02", title="C API: arguments are validated and outputs are written as documented",
  statement="Every C call rejects null handles and out-of-range column, bitfield and property indices with an error on every call instead of accessing memory through them, and never touches an optional output the caller passed as null. On success every requested output is written with the attribute it documents, and attributes set on a decoder are those its query calls return; row, size and layout arguments are validated before they take effect.",
  over=["inputs", "histories"], quant="all C API functions, all argument values, all call sequences",
  why="Tests call the functions with valid arguments and a few invalid ones; bounds off by one, checks run only on the first call, or outputs missed on one branch survive them.",
  files=["src/odc/api/odc.cc", "src/odc/api/odc.h"],
  mech=[("argument assertions in API bodies", "src/odc/api/odc.cc")],
  technique="guard-dominance and must-write dataflow over the API bodies' inlined IR",
  note="Guards are compared in a normal form of inequalities, so equivalent formulations are accepted."),
 dict(id="W01", title="Writing frames: header and data describe exactly the rows written",
  statement="Every frame the library writes consists of one header followed by its data: the header's row count is the number of rows encoded, its data size is the number of bytes that follow, and both are transferred completely (a short write is never ignored). Every buffered row is flushed exactly once - when the buffer is full, on close, on destruction, before the layout changes - and none is dropped or written twice. Each row holds its columns in order, each encoded by its own codec from its own value, and codecs are chosen only after the statistics of every value of every column were gathered. Staging buffers are large enough for the worst case.",
  over=["inputs", "histories"], quant="all tables, row counts, buffer sizes, write histories and short writes of the output handle",
  why="Tests write small tables that fit one buffer to handles that never write short; full buffers, layout changes, destruction without close and partial writes are not sampled.",
  files=["src/odc/WriterBufferingIterator.cc", "src/odc/core/Encoder.cc", "src/odc/tools/MDSetTool.cc", "src/odc/core/Header.cc"],
  mech=[("WriterBufferingIterator::flush/writeRow/close", "src/odc/WriterBufferingIterator.cc"), ("encodeFrame", "src/odc/core/Encoder.cc"), ("MDSetTool::run", "src/odc/tools/MDSetTool.cc")],
  technique="loop and def-use analysis (counters, cursor threading, must-write) over the writers' inlined IR",
  note="The row loop, its counters and the cursor chain are recovered from natural loops; quantities are compared in a normal form. Shapes that cannot be normalised are reported as undecided in the evidence, not as violations."),
 dict(id="R02", title="Truncated or corrupt data is reported, never decoded",
  statement="Reading fails with an error when the data ends inside a frame's header or data, or when the frame's magic word, format version, header digest or sizes are inconsistent; it ends cleanly only at a frame boundary. No frame or row is handed out whose data was not read completely: a buffer is decoded only after as many bytes as the header announces arrived in it, rows are taken from the frame's own data only and exactly as many as announced, and no stream primitive reads past the end of that data. Frame positions and sizes reported for a file are those of the file, and readers sharing one file each read from their own position.",
  over=["inputs", "fault_sequences", "histories"], quant="all files and streams, every truncation point and corrupted field, all interleavings of readers on one file",
  why="Tests read intact files; a short read, a file cut at any byte, a wrong digest or a second reader on the same handle is not sampled.",
  files=["src/odc/core/Header.cc", "src/odc/core/Table.cc", "src/odc/core/TablesReader.cc", "src/odc/core/DataStream.h", "src/odc/core/ThreadSharedDataHandle.cc", "src/odc/ReaderIterator.cc", "src/odc/api/odc.cc"],
  mech=[("Header::readMagic/loadHeaderAndBufferData/loadAfterMagic", "src/odc/core/Header.cc"), ("Table::readTable/readEncodedData", "src/odc/core/Table.cc"), ("stream callback handle", "src/odc/api/odc.cc"), ("ReaderIterator", "src/odc/ReaderIterator.cc"), ("ThreadSharedDataHandle", "src/odc/core/ThreadSharedDataHandle.cc")],
  technique="must-check (result used before data) and cursor-bound dataflow over the readers' inlined IR",
  note="Each raw read is followed on all paths to the comparison of its result with the requested count; each decode is dominated by such a comparison."),
 dict(id="F05", title="Row markers: unchanged leading columns repeat the previous row",
  statement="In every frame the library writes, each row starts with the index of the first column whose whole value differs from the previous row (any column the reader's initial missing values already cover may be omitted from the first row), stored high byte first, followed by exactly the values of the columns from there on in order. Every reader - whole-frame decoding, span decoding, the row iterator - interprets the marker the same way, decodes or skips each of those columns exactly once with its own codec into its own column and row, gives omitted columns the value of the row before (initially the missing value) in every row they cover, starts afresh for each frame, and rejects a marker beyond the last column.",
  over=["inputs", "histories"], quant="all tables, column counts, value sequences, strides and element sizes, all row markers in files",
  why="Which columns are omitted depends on the values of consecutive rows; tests sample few patterns, rarely more than 255 columns, wide strings or strided targets.",
  files=["src/odc/core/Table.cc", "src/odc/core/Encoder.cc", "src/odc/ReaderIterator.cc", "src/odc/WriterBufferingIterator.cc", "src/odc/api/StridedData.h"],
  mech=[("Table::decode / decodeSpan", "src/odc/core/Table.cc"), ("ReaderIterator::next/initRowBuffer", "src/odc/ReaderIterator.cc"), ("encodeFrame", "src/odc/core/Encoder.cc"), ("doWriteRow / allocBuffers", "src/odc/WriterBufferingIterator.cc"), ("StridedData fill / isNewValue", "src/odc/api/StridedData.h")],
  technique="loop, counter and indexing analysis of the row writers and readers over inlined IR",
  note="Row and column loops, their counters, bounds and per-iteration calls are recovered from natural loops; marker bytes and indices are compared in a linear normal form. Unrecognised shapes are reported as undecided."),
 dict(id="F03", title="Codec choice: every value and missing marker fits the codec chosen",
  statement="Whatever values a column holds, the codec chosen for it when a frame is written can represent all of them: constant codecs only when minimum and maximum are equal, 8 and 16 bit codecs only when the range of values (and, where values are missing, the marker beside them) fits, string table codecs only when the number of distinct strings fits, single precision codecs never when a value equals the marker they reserve for missing; integers no codec can hold are reported. The minimum, maximum, missing flag and string table behind that choice take account of every value as its type interprets it (a NaN makes no column constant), are carried over unchanged into the codec chosen, with the column's width, and each codec name builds that codec for the column's type and byte order.",
  over=["inputs", "histories"], quant="all columns, types, value distributions, missing values, string sets and byte orders",
  why="The boundary between two codecs is met only by particular ranges (255 with a missing value, 65535, a value equal to a marker, 256 strings); tests sample a few comfortable ones.",
  files=["src/odc/codec/CodecOptimizer.h", "src/odc/core/Codec.cc", "src/odc/codec/Real.h", "src/odc/codec/Integer.h", "src/odc/codec/String.h", "src/odc/core/CodecFactory.h", "src/odc/core/Column.h"],
  mech=[("CodecOptimizer::setOptimalCodecs", "src/odc/codec/CodecOptimizer.h"), ("Codec::gatherStats and overrides", "src/odc/core/Codec.cc, src/odc/codec/*.h"), ("CodecFactory / CodecBuilder", "src/odc/core/CodecFactory.h"), ("Column::type / resetCodec", "src/odc/core/Column.h")],
  technique="path-fact analysis of string-valued choices and statistics updates over inlined IR",
  note="For every path on which a codec name reaches the factory, the facts of that path must imply the codec's limits (a table of 15 codecs). Integers that double statistics cannot tell apart are outside the claim."),
 dict(id="C01", title="Threads: shared state is locked, every frame decoded, errors kept",
  statement="Threads that share one data handle, one table reader, the codec registry or the library itself never access its shared state without the lock that guards it: a handle's positioning and reading is one locked step and every table keeps a position of its own; no lock is taken twice by one thread, in conflicting orders, or left held; process-wide mutable state is written only during initialisation, by the documented set-up calls, under a lock or per thread. Decoding an aggregated frame gives the same rows for every number of threads: every frame is taken by exactly one worker, into its own consecutive range of rows and columns; the call returns only after all workers ended, passing their exceptions on, and nothing they use changes or is destroyed before.",
  over=["schedules", "inputs"], quant="all interleavings of threads, thread counts, frame counts, failures in any worker",
  why="A missing lock or an early release shows in a few interleavings only; tests run one schedule each and mostly one thread.",
  files=["src/odc/core/ThreadSharedDataHandle.cc", "src/odc/core/TablesReader.cc", "src/odc/core/CodecFactory.h", "src/odc/api/Odb.cc", "src/odc/core/DecodeTarget.cc", "src/odc/api/StridedData.h", "src/odc/api/odc.cc", "src/odc/codec/CodecOptimizer.cc"],
  mech=[("Internal::m_ / read", "src/odc/core/ThreadSharedDataHandle.cc"), ("ensureTable / getTable", "src/odc/core/TablesReader.cc"), ("builders_ / m_", "src/odc/core/CodecFactory.cc, CodecFactory.h"), ("FrameImpl::decode", "src/odc/api/Odb.cc"), ("slice", "src/odc/core/DecodeTarget.cc, src/odc/api/StridedData.h"), ("g_current_error_str, defaultCodec_", "src/odc/api/odc.cc, src/odc/codec/CodecOptimizer.cc")],
  technique="must-hold lockset, lock-order and escape analysis over IR; path and loop analysis of the worker threads",
  note="Classes that own a mutex guard all their other mutable members; the set of classes that must own one is listed. Two API objects used by two threads at once without sharing being documented (one frame, one encoder) are outside the claim."),
 dict(id="A04", title="Fortran bindings: same interfaces, arguments and results as the C API",
  statement="Each Fortran interface bound to a C function has that function's parameters in number, order, type and passing mode and its result, and each constant its C value. Every Fortran procedure performs the one C call it documents, with the caller's arguments in the documented places: column, bit and property indices are shifted between one-based and zero-based exactly once, column-major arrays are described with the strides that make element (row, column) the one the caller sees, the attributes of a window are those of the window, optional arguments left out take the documented default in every call, and strings are null-terminated on the way in and blank-padded on the way out. The result code returned is the C call's, the outputs requested are set and no null pointer is followed.",
  over=["inputs", "histories"], quant="all procedures of both Fortran modules, all combinations of optional arguments, all call histories",
  why="The compiler cannot compare the two languages' declarations, and the Fortran tests call each procedure once with one combination of optional arguments.",
  files=["src/odc/api/odc.f90", "src/fortran/odc_c_binding.f90", "src/odc/api/odc.h", "src/odc/odccapi.h"],
  mech=[("bind(C) interfaces and wrapper procedures of module odc", "src/odc/api/odc.f90"), ("legacy binding", "src/fortran/odc_c_binding.f90"), ("C declarations", "src/odc/api/odc.h, src/odc/odccapi.h")],
  technique="cross-language signature comparison and path evaluation over gfortran's resolved statement tree",
  note="Non-contiguous array sections handed to set_data_array (the binding takes their address) and statements the evaluator does not recognise (listed as undecided in the evidence) are outside the claim."),
 dict(id="A03", title="C++ frames: aggregation, spans and splitting cover exactly their data",
  statement="Iterating a reader returns the file's frames in order, each exactly once; with aggregation, consecutive frames are joined exactly as long as there is one, its layout is compatible (same columns, each equal to its partner) and the row limit is kept. Row count, properties, encoded data, offset, length, span and column info of a frame describe all the tables it aggregates. A span is the union of the values of the requested columns, each under its own column and type (constants as a whole, varying columns only if allowed). Encoding with a limit of rows per frame writes consecutive, non-empty frames that cover every row of every column once. Filtering runs the caller's query over all of the frame's tables and returns the number of rows written; copying a frame copies what it holds, also when it is empty.",
  over=["inputs", "histories"], quant="all files, frame sizes, layouts, row limits, column selections and call sequences",
  why="The tests aggregate a few frames of one layout and query spans of a few columns; limits met exactly, layouts that differ late, frames after the first and empty frames are not sampled.",
  files=["src/odc/api/Odb.cc", "src/odc/api/Odb.h", "src/odc/core/Span.cc", "src/odc/core/TablesReader.cc", "src/odc/core/MetaData.cc", "src/odc/core/Table.cc"],
  mech=[("ReaderImpl::next and FrameImpl", "src/odc/api/Odb.cc"), ("MetaData::compatible", "src/odc/core/MetaData.cc"), ("Span and Table::span", "src/odc/core/Span.cc, src/odc/core/Table.cc")],
  technique="typestate exploration of iterator positions, container-coverage and guard-dominance rules on inlined IR",
  note="Iteration is explored as a finite state machine over positions relative to the last table taken (all paths, loops to a fixpoint); walks over tables, columns and value maps must visit every element exactly once. Expressions the rules do not recognise are listed as undecided in the evidence."),
 dict(id="S01", title="SQL sees and stores exactly the rows and columns of the frames",
  statement="A query sees a frame file as a table with every column of the frame under its own name, type, width, missing value and bitfields; a short name is accepted only if it is unambiguous. Every row is delivered once, in order, for any number of frames and of passes over the table; where a frame's layout differs from the one before, or a new pass begins, values, widths and missing flags are taken from the column of that name in the current frame. Results, in memory or stored in a file, have one column per selected expression under its title and type; each row sets every column once, missing values become the result column's missing value, strings are zero-padded and never run beyond their place, and string columns that become wider are widened. A query is executed once and stays ended; rows and iterators report the underlying row.",
  over=["inputs", "histories"], quant="all frame sequences, layouts, selected columns, values and call sequences",
  why="Queries are sampled over a few files with one layout, one pass, and few missing or long strings; layouts that change between frames, repeated passes, missing values in columns of different types and wider strings later in the file are not.",
  files=["src/odc/sql/TODATable.cc", "src/odc/sql/TODATableIterator.cc", "src/odc/sql/SQLSelectOutput.cc", "src/odc/sql/ODAOutput.cc", "src/odc/sql/SQLOutputConfig.cc", "src/odc/sql/Types.cc", "src/odc/Select.cc", "src/odc/SelectIterator.cc", "src/odc/IteratorProxy.h"],
  mech=[("TODATable and TODATableIterator", "src/odc/sql"), ("SQLSelectOutput, ODAOutput, SQLOutputConfig", "src/odc/sql"), ("Select, SelectIterator, IteratorProxy, Row_", "src/odc/Select.cc, src/odc/SelectIterator.cc, src/odc/IteratorProxy.h")],
  technique="path-wise effect summaries (calls, stores and decisions in order) checked against typestate and correspondence rules on inlined IR",
  note="Every path of each function is summarised once (loops by their body); rules compare the order of effects with the decisions taken on that path. The SQL engine itself is eckit's and outside the analysis. Expressions the rules do not recognise are listed as undecided in the evidence."),
 dict(id="I01", title="Imported text becomes exactly the table it describes, or is refused",
  statement="A text (CSV) input becomes one table: each name:type of its header line is one column, in order, under its trimmed name, with its type and, for BITFIELD, the named members in order; malformed headers, members without a positive size, repeated member names and more than 31 bits are refused. Every line with text is one row and blank lines are none, up to the end of the input. A row has exactly one value per column, taken from its own text by the column's type; NULL (any case) is the column's missing value; strings are kept whole and zero-padded, the column growing, with the values already read and a layout-change flag, when one is longer. Every entry point (odbFromCSV, the SQL table, odc import with or without -sql) uses the given input, delimiter and query, refuses a file it cannot open, and returns the rows written.",
  over=["inputs", "configurations"], quant="all header lines, data lines, delimiters, queries and entry points",
  why="Imports are sampled with a few well-formed files; blank lines, malformed members, other delimiters, missing files and strings that grow in the middle of a row are not.",
  files=["src/odc/csv/TextReader.cc", "src/odc/csv/TextReaderIterator.cc", "src/odc/api/Odb.cc", "src/odc/tools/ImportTool.cc", "src/odc/sql/TODATable.h"],
  mech=[("TextReader, TextReaderIterator", "src/odc/csv"), ("odbFromCSV", "src/odc/api/Odb.cc"), ("ImportTool", "src/odc/tools/ImportTool.cc")],
  technique="path-wise effect summaries with text provenance (which part of which input a stored text or value was cut from) on inlined IR",
  note="Text is followed through trim, upper, split, join and unquote; the rules compare what each column and value was made from with the part of the input it stands for. The numeric conversion itself is eckit's Translator and outside the analysis."),
 dict(id="D01", title="Splitting puts every row into the file its values name, and only there",
  statement="odc split and DispatchingWriter write every row of every input exactly once, unchanged and in order, into the file whose name is the output template with each {column} replaced by that row's value of the column (text trimmed, slashes replaced, the rest of the template untouched). Rows are told apart by the whole values of all named columns, found at the columns' place in the row, whatever the widths of strings before them. A file has one writer at a time; a file is overwritten the first time a run opens it (unless appending was asked for) and appended to when it is opened again; writers given up to stay below the limit of open files are closed and no values lead to them any more. A changed layout or another input reaches the dispatcher and, after a flush, every open writer with a header of its own. Closing closes every writer once and reports failures. Every {name} of a template is taken, an open brace is refused. -sort orders by all named columns and its parts cover every frame of the file. Verification writes and creates nothing, and compares every input row with the next row of its own file.",
  over=["inputs", "histories", "configurations"], quant="all inputs, column widths and layouts, templates, limits of open files and numbers of inputs",
  why="The tests split one small file on a short column: wide strings before the column, equal prefixes, values with the same file name, slashes, reopened files, several inputs and layouts, and -sort are not sampled.",
  files=["src/odc/WriterDispatchingIterator.cc", "src/odc/WriterDispatchingIterator.h", "src/odc/DispatchingWriter.cc", "src/odc/TemplateParameters.cc", "src/odc/tools/SplitTool.cc"],
  mech=[("WriterDispatchingIterator", "src/odc/WriterDispatchingIterator.cc"), ("TemplateParameters", "src/odc/TemplateParameters.cc"), ("SplitTool", "src/odc/tools/SplitTool.cc")],
  technique="path-wise effect summaries of the dispatcher's operations, with loop coverage and running-sum (place) analysis on inlined IR",
  note="The containers and strings are summarised by their specified effects. That the least recently used writer is the one given up is not decided (any would be correct)."),
 dict(id="Q01", title="Comparing two files finds every difference, and only differences",
  statement="odc compare and Comparator succeed exactly when two files are the same: the same number of rows; at the start and wherever either file's layout changes the same number of columns with the same names, types, bitfield definitions and missing flags; and in every row and column a value that is missing in both (its bits are those of its own column's missing value) or the same in both - text within its own column's width, doubles and integers in double, reals in single precision, numbers equal (infinite ones too) or closer than 1e-9, relative to their size unless one of them is smaller than that. A single difference anywhere makes the comparison fail. Excluded columns are left out of the layout and the values and nothing else is; columns with excluded types keep the rest of their checks; -dontCheckMissing leaves out the missing flags, and no other option does. compact and fixrowsize compare everything they wrote with everything they read.",
  over=["inputs", "configurations"], quant="all pairs of files, layouts, layout changes, values and exclusions",
  why="The tests compare a few equal files and a few that differ in the first column; wide strings, values behind excluded columns, layouts that change in one file only, missing values on one side, infinite values and the options are not sampled.",
  files=["src/odc/Comparator.cc", "src/odc/Comparator.h", "src/odc/tools/CompareTool.cc", "src/odc/tools/CompactTool.cc", "src/odc/tools/FixedSizeRowTool.cc"],
  mech=[("Comparator", "src/odc/Comparator.cc"), ("CompareTool", "src/odc/tools/CompareTool.cc"), ("CompactTool, FixedSizeRowTool", "src/odc/tools")],
  technique="decision tables: each path's decisions, read as facts about the two values or columns, must imply the outcome the path has; loop coverage, place analysis and exception-flow of the difference count on inlined IR",
  note="NaNs are different unless the environment says otherwise, as today. The relative error may be taken with respect to either value (the difference is below rounding)."),
 dict(id="T01", title="The tools that write rows keep every row and change only what they are asked to",
  statement="Copying an input to a writer (odc compact, odc set, import) writes every row of every table once, in order and unchanged, under its own columns: when the columns or a column's missing value change, the rows waiting are written first and a new table begins; the number of rows is returned and a failure to close is reported. odc compact copies the input named to the output named and compares the two. odc set replaces, in every row of every table, the values of the columns named by the values given for them (a number, or bytes in hexadecimal digits; a replaced string is replaced whole), found at the columns' places in that table, and nothing else. odc merge writes rows made of one row of each input - every column of every input in order, whole strings, missing values still missing - while every input has rows left; it reads each input with its own query, and refuses a column that occurs in two inputs, a layout that changes within an input and a value that does not fit. odc index (Indexer) writes for each block (begin and length of a table of the file) and each run of rows with the same seqno one entry with that number and the number of rows, leaving no row out and counting none twice.",
  over=["inputs", "histories", "configurations"], quant="all inputs, layouts, layout changes, column widths, missing values, update lists, queries and sequence numbers",
  why="No upstream test runs merge, set, index or compact on more than one layout, if at all: strings wider than eight characters before the columns set, several tables, shorter inputs, missing values other than the default, and returning sequence numbers are not sampled.",
  files=["src/odc/WriterBufferingIterator.h", "src/odc/ODAUpdatingIterator.cc", "src/odc/ODAUpdatingIterator.h", "src/odc/ConstantSetter.h", "src/odc/Indexer.cc", "src/odc/tools/MergeTool.cc", "src/odc/tools/SetTool.cc", "src/odc/tools/CompactTool.cc", "src/odc/tools/IndexTool.cc"],
  mech=[("pass1", "src/odc/WriterBufferingIterator.h"), ("merge", "src/odc/tools/MergeTool.cc"), ("set", "src/odc/ODAUpdatingIterator.cc"), ("index", "src/odc/Indexer.cc")],
  technique="path-wise effect summaries of one row (read, write, advance) per loop iteration, with running-sum (place) analysis, loop coverage and option provenance on inlined IR",
  note="What rows a reader, query or writer delivers or stores is decided under R02, S01 and W01; here those operations are summarised by what they promise."),
 dict(id="T02", title="Reporting tools say what files hold; mdset edits only what is named",
  statement="odc count prints the sum of the rows of every table of every file named, however many. odc ls writes every row once: the columns' names whenever the columns change, then the values of all columns in order, text as text, numbers whole and unrounded to single precision, '.' exactly for missing values; rows go to the file given with -o, else to standard output. odc header visits every table once and gives its own limits (begin, length or end), rows, columns and byte order; -offsets and -ddl choose what is written; -ddl writes every layout with every column under its own name (only the table's own suffix removed), its own type and all fields of a bitfield. odc xyv writes longitude, latitude and value of every row. odc mdset changes, in every table, only the columns named, finding their place anew in each table: to the type, fields or constant given for that column, a constant only in a constant column; every table is written as a header in its own byte order, with its own data size, rows and properties, followed by its data unchanged, and a failure to write is reported. odc sql -i reads the input named, from -offset for -length bytes where given, else to the end, without wrapping at 2 GB. Command lines: an option registered as taking an argument consumes the next word whatever it is, others none; every other word (and a lone '-') is a parameter, in order; options are known before the line is read; a copied parser keeps everything.",
  over=["inputs", "configurations"], quant="all files, layouts, layout changes, table sizes, update lists, options and argument lists",
  why="The tools' tests run on one small table each and mostly check that nothing crashes: a second table with another layout, many rows, offsets beyond 2 GB, names that contain the table's name, negative arguments and several assignments are not sampled.",
  files=["src/odc/tools/CountTool.cc", "src/odc/tools/LSTool.cc", "src/odc/tools/ODAHeaderTool.cc", "src/odc/tools/XYVTool.cc", "src/odc/tools/MDSetTool.cc", "src/odc/tools/SQLTool.cc", "src/odc/CommandLineParser.cc", "src/odc/CommandLineParser.h"],
  mech=[("count, ls, header, xyv", "src/odc/tools/LSTool.cc"), ("mdset", "src/odc/tools/MDSetTool.cc"), ("command lines", "src/odc/CommandLineParser.cc")],
  technique="path-wise summaries of what one row, table, column, field or word contributes (printed values in order, calls, consumed words) per loop iteration, with loop coverage, element provenance and option correlation on inlined IR",
  note="What tables, headers and rows report and how headers are encoded is decided under R02, F01 and F03; here those operations are taken as they promise. The wording of messages and headings is only looked at where it says which value follows."),
 # ------------------------------------------------------------------ not applicable
 dict(id="N01", title="SQL queries compute the numerically correct result",
  statement="For every SQL query over ODB data the numeric and string results of its functions, aggregations, ordering and filters equal those defined by the SQL dialect.",
  over=["inputs", "programs"], quant="all queries, all data",
  why="Results are sampled for a few queries.", files=["src/odc/sql"], mech=[("SQL engine", "eckit::sql and src/odc/sql/function")],
  na="quantifies over runtime numeric values and an engine that lives in the external eckit library; no static rule in reach bounds results"),
 dict(id="N02", title="Real columns lose no precision on a write/read round trip",
  statement="Every double stored in a real column reads back bit-identical, and a value stored in a single-precision column reads back as the nearest single-precision value.",
  over=["inputs"], quant="all doubles",
  why="Round trips are sampled.", files=["src/odc/codec/Real.h"], mech=[("real codecs", "src/odc/codec/Real.h")],
  na="value-level rounding of floating point conversions; the structural part (widths, markers, inverse mapping) is decided under F02"),
]
for p in PROPS:
    if "note" in p:
        p["note"] += TRUST
