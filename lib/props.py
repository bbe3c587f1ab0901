"""The properties, and how each is decided: harness executables, cases, bounds."""
PROPS, NA = {}, {}
def prop(pid, **kw):
    PROPS[pid] = kw
def na(pid, **kw):
    NA[pid] = kw
C = lambda *a: list(a)

prop("C01", title="Numeric values written by encode come back from decode unchanged",
     statement="For every table of INTEGER, BITFIELD, REAL and DOUBLE columns whose integers fit in 32 bits, encoding it and decoding the frame returns, row by row, the values supplied: integers and doubles exactly (0.0 and -0.0 are not distinguished, NaN stays NaN), reals exactly or rounded to single precision, and the missing value as the missing value. No such table is refused by the encoder. This holds for either setting of 'integers as doubles'.",
     over=["inputs", "configurations"], qtext="all 64-bit patterns of every cell; every mix of missing, constant, narrow- and wide-range columns (hence every codec the optimiser can choose); both integer modes",
     why="Tests sample a few dozen values per codec; the codec choice depends on the min/max/missing/NaN pattern of a whole column, so the failing combinations are sparse (two were found: NaN in a constant column, and -FLT_MAX).",
     files=["src/odc/codec/CodecOptimizer.h", "src/odc/codec/Integer.h", "src/odc/codec/IntegerMissing.h", "src/odc/codec/Real.h", "src/odc/codec/Constant.h", "src/odc/core/Encoder.cc", "src/odc/core/Table.cc"],
     mech=[("codec choice", "CodecOptimizer::setOptimalCodecs"), ("column statistics", "Codec::gatherStats"), ("row encoding", "core::encodeFrame"), ("row decoding", "Table::decode")],
     bounds="one column, 2-4 rows (all cells symbolic); integers in int32.", outside="more than 4 symbolic rows in one column; integers beyond 32 bits (documented limit of the format); non-default missing values (see C21).",
     harness=[dict(name="c01", quick=C("double2", "double3", "real2", "real3", "int2", "int3", "int4", "bits3", "intd2", "intd3", "bitsd3"))])

prop("C02", title="String columns come back from decode unchanged",
     statement="For every STRING column of width 8, 16 or 24 bytes, encoding and decoding returns in each row exactly the bytes supplied up to the first NUL (or the column width), padded with NULs, whatever the bytes are. The decoded width never exceeds the width supplied and always suffices for every value. This holds for constant columns, for more than 256 distinct values, beside columns of other types, and with the long constant string option on or off.",
     over=["inputs", "configurations"], qtext="all byte contents of the cells (incl. embedded NULs, NaN bit patterns, empty strings); number of distinct values; column width; option on/off",
     why="Tests use a handful of ASCII words; bytes that look like a NaN double, empty strings and the 256-entry boundary are never sampled.",
     files=["src/odc/codec/String.h", "src/odc/codec/Constant.h", "src/odc/codec/CodecOptimizer.h", "src/odc/core/Encoder.cc"],
     mech=[("string table", "CodecChars::gatherStats, IntStringCodecBase"), ("codec choice", "CodecOptimizer::setOptimalCodecs"), ("clone", "CodecChars::clone")],
     bounds="1-3 rows of 1-3 words with all bytes symbolic; up to 258 rows with 254-257 distinct concrete values plus one with 3 symbolic bytes.", outside="more than 65535 distinct values (refused by design), wider columns.",
     harness=[dict(name="c02", quick=C("w8r1", "w8r2", "w16r1", "w16r2", "w24r2", "w16r3", "w8r3", "constants", "emptyconst", "distinct", "mixed"))])

prop("C03", title="Every codec's bytes mean what the file format documents, in both byte orders",
     statement="Row data of every documented codec (constant, constant_string, long_constant_string, constant_or_missing, real_constant_or_missing, chars, int8/16/32, int8/16_missing, int8/16_string, short_real, short_real2, long_real), stored in either byte order, decodes to the value the file format reference gives for those bytes, and skipping the column leaves the following column correctly aligned. The integer and real encoders write exactly the documented bytes and no others.",
     over=["inputs", "configurations"], qtext="all row bytes, all header min/missing values, both byte orders, both integer modes",
     why="The tests cover one byte order through the API and a few values; frames written in the other byte order are only exercised at codec level.",
     files=["src/odc/codec", "src/odc/core/Codec.h", "src/odc/core/Codec.cc", "src/odc/core/DataStream.h", "src/odc/core/Table.cc", "docs/content/reference/file-format-reference.rst"],
     mech=[("codecs", "src/odc/codec/*.h encode/decode/skip"), ("byte order", "DataStream<OtherByteOrder>, CodecFactory"), ("clone keeps byte order", "DataStreamCodec::clone")],
     bounds="two columns, two rows, all row bytes symbolic, min/missing symbolic (|min| < 2e9).", outside="header fields other than min/max/missing (C06, C09).",
     harness=[dict(name="c03", quick=C("int8", "int16", "int32", "int8_missing", "int16_missing", "constant_or_missing", "bitfield", "long_real", "short_real", "short_real2", "real_constant_or_missing", "constant", "constant_int", "chars", "constant_string", "int8_string", "int16_string", "long_constant_string", "enc_int8", "enc_int16", "enc_int32", "enc_int8_missing", "enc_int16_missing", "enc_constant_or_missing", "enc_long_real", "enc_short_real", "enc_short_real2"))])

prop("C04", title="The row-change marker never alters a row, wherever the first change is",
     statement="A row whose marker is k stores columns k.. and takes every earlier column from the row before (from the missing value for the first row). Decoding any sequence of markers, for any subset of columns, in either byte order and integer mode, yields exactly those rows. Encoding a table, whatever cells differ between consecutive rows and however many columns it has (also beyond 255), decodes to the same table.",
     over=["inputs", "histories"], qtext="all sequences of markers 0..ncols over 3-4 rows; all cell bytes; column subsets; 300- and 530-column tables with markers either side of the byte boundaries",
     why="Files written by the library only have the markers its own comparison produces; wide tables, partial first rows and runs of shrinking markers are not in the tests.",
     files=["src/odc/core/Table.cc", "src/odc/core/Encoder.cc", "src/odc/api/StridedData.h", "docs/content/reference/file-format-reference.rst"],
     mech=[("fill of unchanged columns", "Table::decode, StridedData::fill"), ("marker choice", "core::encodeFrame"), ("initial row", "Codec::missingValue, clone()")],
     bounds="5 columns x 2-4 rows with every marker sequence; 300 and 530 columns x 2-3 rows with markers {0,254..257,511..513,n-1,n}; 4 columns x 3 rows with 5 symbolic change bits per row when writing.", outside="more than 530 columns; longer marker sequences.",
     harness=[dict(name="c04", quick=C("read3", "read3int", "read4sub", "first", "wide_read", "wider_read", "wide_write", "wider_write", "write"))])

prop("C05", title="Decode writes exactly the requested cells, for any selection and layout",
     statement="Decoding a frame with any list of distinct column names (with or without table name), in any order, into buffers of any stride and with spare rows, stores the right value in every requested cell and touches no other byte. A request that names an unknown column, the same column twice, or supplies too few rows is refused with an exception and touches nothing outside the targets. Decoder::slice addresses exactly the rows asked for.",
     over=["inputs", "configurations"], qtext="all ordered selections of up to 3 of 6 columns in both spellings, gaps and spare rows; row-major layout; every unknown 0-3 byte column name; every slice offset",
     why="Tests decode all columns or one fixed selection with dense strides; the positions in between are combinatorial.",
     files=["src/odc/core/Table.cc", "src/odc/core/DecodeTarget.cc", "src/odc/api/Odb.cc", "src/odc/api/StridedData.h"],
     mech=[("selection", "Table::decode, columnLookup/simpleColumnLookup"), ("skipping", "Codec::skip"), ("strides", "StridedDataT"), ("slice", "DecodeTarget::slice")],
     bounds="6 columns of 6 codecs, 3 rows with markers 0,3,1.", outside="selections of 4 or 5 columns.",
     harness=[dict(name="c05", quick=C("one", "two", "three", "none", "rowmajor", "refused", "slice"))])

prop("C06", title="A frame's description round-trips through the header",
     statement="Column names, types, decoded sizes, bitfield members (name, size, offset), properties and row/column counts given to encode are what every frame of the file reports after reading, for any bytes in the names and values and for any size of header, including one that exceeds the header buffer. A header in the documented layout (either byte order, minor version 4 or 5, any flags) reads back the same description, and the serialised header is byte for byte the documented layout.",
     over=["inputs", "configurations"], qtext="all bytes of names, bitfield names, property keys and values; bitfield sizes; all header sizes around the buffer size; rows per frame; both byte orders; data size and row count of the serialised header",
     why="Tests use fixed short names; the growth of the header buffer, empty names, embedded NULs and the other byte order are not reached.",
     files=["src/odc/core/Header.h", "src/odc/core/Header.cc", "src/odc/core/MetaData.cc", "src/odc/core/Column.h", "src/odc/core/Encoder.cc", "src/odc/core/TablesReader.cc", "docs/content/reference/file-format-reference.rst"],
     mech=[("header layout", "Header::load, Header::serializeHeader"), ("column records", "Column::load/save, MetaData::load/save"), ("buffer growth", "core::encodeHeader")],
     bounds="1-3 columns; names up to 4 bytes, property values up to 70 bytes; up to 3 bitfield members; up to 5 rows in up to 5 frames.", outside="longer strings, more columns.",
     harness=[dict(name="c06", quick=C("names", "bitfields", "properties", "large", "frames", "read", "serialize"))])

prop("C08", title="Truncated input and full output devices are always reported",
     statement="If a file is cut at any byte that is not a frame boundary, every complete frame before the cut still decodes correctly, no row of the cut frame is delivered through the frame API, and an exception is thrown by the read, decode, span or data access that needs the missing bytes - whether or not the data handle can tell its size; where it can, the frame is already refused when it is read. Skipping over the data of a cut frame is also refused, unless the handle neither knows its size nor stops at its end when it seeks. A file cut between frames reads cleanly. If an output handle accepts fewer bytes than written, encode throws.",
     over=["fault_sequences", "inputs"], qtext="every cut position of a two-frame file, sized and unsized handles, both byte orders, frame-by-frame and aggregated; every offset at which the output device is full",
     why="The tests truncate at two positions of a sized file; streams (estimate 0) and most cut positions are never tried. A defect was found this way (short reads of frame data were ignored).",
     files=["src/odc/core/Table.cc", "src/odc/core/TablesReader.cc", "src/odc/core/Header.h", "src/odc/core/DataStream.h", "src/odc/core/Encoder.cc", "src/odc/api/Odb.cc"],
     mech=[("size check", "Table::readTable"), ("short reads", "Table::readEncodedData, DataStream::readBytes"), ("short writes", "core::encodeFrame")],
     bounds="two frames of 3 columns x 2 rows (about 630 bytes), every cut; output cut at each of the last 64 bytes and every 8th of the last 256 bytes.", outside="larger files; handles that fail by throwing.",
     harness=[dict(name="c08", quick=C("cut1", "cut2", "cut3", "stream1", "stream2", "stream3", "aggregated", "consumers", "counted", "fullDevice"))])

prop("C09", title="Malformed frames are refused or decoded as stored, never trusted",
     statement="Whatever the row bytes, row markers, string indices, string tables, counts, lengths, sizes, codec names and column types in a frame whose header digest is right, reading it (frame by frame, aggregated, decode, span, encodedData, row iterator) ends: with an exception, or with exactly the rows the frame's own bytes hold. A marker beyond the last column, a string index outside its table, a table entry outside the table and rows running past the frame's data are always refused. Nothing is read outside the frame's bytes (nor from an earlier frame) or written outside the targets.",
     over=["inputs"], qtext="all row bytes of 1-3 rows (hence all markers and indices, and all lengths of the row data); all values of each of 18 size, count and length fields; all values of each single byte of a header; all string table indices; all pairs of column type and codec",
     why="Tests only read files the library wrote. Six defects were found this way, among them writes outside the string table and an endless loop for a negative data size.",
     files=["src/odc/core/Table.cc", "src/odc/ReaderIterator.cc", "src/odc/codec/String.h", "src/odc/core/DataStream.h", "src/odc/core/Header.cc", "src/odc/core/MetaData.h", "src/odc/core/Column.h"],
     mech=[("row decoding", "Table::decode, Table::decodeSpan, ReaderIterator::next"), ("string tables", "IntStringCodecBase::load/decode"), ("header fields", "Header::load, DataStream::read, MetaData::load, Column::load")],
     bounds="frames of 2-3 columns, up to 3 rows and 14 bytes of row data; two-frame files; allocation sizes beyond 64 KiB are represented by one value each.", outside="headers with several inconsistent fields at once; damage that leaves the rows well-formed (there is no checksum over row data).",
     harness=[dict(name="c09", quick=C("rows_decode", "rows_span", "rows_reader", "rows3_decode", "rows3_reader", "wide_decode", "wide_span", "wide_reader", "subset", "after_longer", "strtab", "f_sizes", "f_props", "f_column", "f_bits", "f_codec", "f_strings", "headersize", "codecs"), thorough=C("byte"))])

prop("C10", title="Damaged headers, foreign data and newer versions are recognised",
     statement="A file is only accepted if every frame starts with the magic number, has a supported version (0.4, 0.5) and its header has the recorded digest: any change of a header after it was written, any wrong digest, any newer version, any other bytes where a frame must start (also after the last frame) makes every reader - frame by frame, aggregated, row iterator, header reader - throw, after delivering the complete frames before it. An empty file has no frames and is no error.",
     over=["inputs", "fault_sequences"], qtext="every byte and every 4-byte word of the header replaced by any value, in the first or second frame; all pairs of changed digest characters; all versions; all magic numbers; all trailing bytes (1-12); all short files (0-56 bytes)",
     why="Tests check one damaged digest and one wrong magic number; positions and readers are not combined.",
     files=["src/odc/core/Header.cc", "src/odc/core/Table.cc", "src/odc/core/TablesReader.cc", "src/odc/ReaderIterator.cc"],
     mech=[("magic", "Header::readMagic"), ("version, digest", "Header::load")],
     bounds="two frames with 2 columns, 1 row; MD5 is modelled as collision free in the symbolic build.", outside="collisions of MD5; several separate changes at once.",
     harness=[dict(name="c10", quick=C("header1", "header2", "headerword1", "headerword2", "digest", "digestlen", "version", "magic", "trailing", "foreign"))])

prop("C11", title="Frames tile the file and their bytes are exactly the stored bytes",
     statement="Reading a file frame by frame reports frames in file order whose offset and length tile the whole file; encodedData() returns exactly those bytes; the concatenation of files reads as the concatenation of their frames. These facts, and every decode, span, encodedData, copy, properties or read-on operation, do not depend on which other operations were made before or in between, nor on when the reader moved on.",
     over=["inputs", "histories"], qtext="all splits of tables into frames (0-3 rows, 1-3 files), all histories of up to 5 operations over three frames (read on, decode, span, encodedData, properties, copy, drop), row contents",
     why="Tests read a frame and decode it at once; interleavings of several live frames that share one file handle are not exercised.",
     files=["src/odc/api/Odb.cc", "src/odc/core/TablesReader.cc", "src/odc/core/Table.cc", "src/odc/core/ThreadSharedDataHandle.cc"],
     mech=[("tiling", "TablesReader::ensureTable, Table::nextPosition"), ("frame bytes", "FrameImpl::encodedData"), ("shared handle", "ThreadSharedDataHandle")],
     bounds="up to 3 frames (5 in one case) and 5 operations; 2 columns.", outside="longer histories; files changed while being read.",
     harness=[dict(name="c11", quick=C("tile0_3", "tile5", "concat", "history4", "history5"))])

prop("C12", title="An aggregated frame is the concatenation of the stored frames it covers",
     statement="An aggregating reader groups maximal runs of consecutive frames with the same columns (in any order), limited by the row limit if one is given. Each group has the first frame's columns, the sum of the rows, all properties (first frame wins), the spanned bytes, and decodes (with any number of threads requested) and spans to exactly the rows of the stored frames in order. Nothing is lost, duplicated or merged across incompatible frames.",
     over=["inputs", "histories"], qtext="all sequences of up to 4 frames drawn from 6 layouts (same, reordered columns, other type, extra column, wider string, other name), rows per frame 0-2, row limit 0-5, both byte orders, cell bytes",
     why="Tests aggregate a few homogeneous files; reordered columns, empty frames, mixed layouts and limits that fall exactly on a frame boundary are not combined.",
     files=["src/odc/api/Odb.cc", "src/odc/core/MetaData.cc", "src/odc/core/Span.cc", "src/odc/core/Table.cc"],
     mech=[("grouping", "ReaderImpl::next, MetaData::compatible"), ("decode offsets", "FrameImpl::decode, DecodeTarget::slice"), ("span union", "Span::extend"), ("properties", "FrameImpl::properties")],
     bounds="2-4 frames of 0-2 rows, 3-4 columns.", outside="more frames; a single frame larger than the row limit (refused by assertion).",
     harness=[dict(name="c12", quick=C("two", "three", "four", "limit", "zerothreads"))])

prop("C13", title="Threaded decoding equals serial decoding under every interleaving",
     statement="Decoding an aggregated frame with n threads fills the same cells with the same values as decoding it with one thread, whatever the interleaving of the threads, terminates without deadlock, creates at most n threads, and reports an error that any of the threads meets. No frame of the aggregate is skipped or decoded twice into the wrong place. The same goes for the program's own threads: one may decode a frame while another decodes the same or another frame of the same reader, or reads the next one, and threads may encode tables of their own at the same time.",
     over=["schedules", "inputs"], qtext="every schedule with up to 3 preemptions at locks, thread creation and handle operations; one preemption at every single memory access of namespace odc in the threads; row contents; which frame is undecodable",
     why="A test runs one schedule on one machine; the races here (shared handle position, frame counter, codec state) need a switch at one particular operation.",
     files=["src/odc/api/Odb.cc", "src/odc/core/ThreadSharedDataHandle.cc", "src/odc/core/Table.cc", "src/odc/core/DecodeTarget.cc", "src/odc/core/CodecFactory.h"],
     mech=[("work sharing", "FrameImpl::decode"), ("shared handle", "ThreadSharedDataHandle::read/seek"), ("targets", "DecodeTarget::slice")],
     bounds="2-3 frames of 1-2 rows and 3 columns, 2-3 threads (tables of 2 columns and 2 rows when encoding); 3 preemptions (2 frames) or 2 (3 frames) at synchronisation operations, or 1 at any memory access (plus 1 at a synchronisation operation in thorough).", outside="weak-memory effects (sequential consistency is assumed); more preemptions.",
     assumptions=["sequentially consistent memory", "threads are created with pthread_create (std::thread/std::async) and synchronise with mutexes, condition variables or futures"],
     harness=[dict(name="c13", extra=[], quick=C("sync2", "sync3", "sync33", "any2", "any3", "error", "user_frames", "user_next", "user_same", "user_frames_any", "user_next_any", "user_same_any", "encode", "encode_any", "encode_decode_any"), thorough=C("anysync"))])

prop("C14", title="The row iterator delivers exactly the stored rows and datasets",
     statement="Iterating a file with odc::Reader yields every stored row exactly once, in order, with the values frame decoding gives (numbers as doubles, strings up to their NUL, NUL padded), whatever the row-change markers, including rows whose first row omits columns. Each row reports the columns of its own frame, isNewDataset() is true exactly on the first row of a frame after the first one, empty frames are passed over, and each dataset's properties are reported. A file cut anywhere but between frames raises an exception after the complete frames.",
     over=["inputs", "histories"], qtext="all markers and cell bytes of 2-3 rows; all sequences of 2-3 frames of three layouts with 0-2 rows in either byte order; every cut position; tables written by encode with symbolic cells",
     why="The legacy reader is tested on files the library wrote itself; empty frames, layout changes, partial first rows and truncation are not combined. An uninitialised read was found this way.",
     files=["src/odc/Reader.cc", "src/odc/ReaderIterator.cc", "src/odc/IteratorProxy.h", "src/odc/core/Header.cc"],
     mech=[("row decoding", "ReaderIterator::next"), ("frame change", "ReaderIterator::loadHeaderAndBufferData"), ("initial row", "ReaderIterator::initRowBuffer"), ("row data", "ReaderIterator::readBuffer")],
     bounds="2-4 columns, 1-3 rows per frame, up to 3 frames.", outside="the missing-value flag of isNewDataset on the very first row (unspecified).",
     harness=[dict(name="c14", quick=C("rows3", "rows2", "firstPartial", "firstPartialWide", "frames2", "frames3", "frames5", "wide", "agree", "cut"))])

prop("C15", title="Rows written one by one are read back, whatever the buffer size",
     statement="Rows given to odc::Writer row by row, for any row buffer size, are read back in order with the same integers, reals (single precision), doubles, bitfields and strings up to their NUL, the same column names, types, bitfield members and missing values, in every frame the buffer produces. Cells not set again keep the value of the row before. Values equal to a column's missing value are reported missing and no others. Copying rows from another file (pass1), including a change of columns on the way, loses or alters no row.",
     over=["inputs", "histories", "configurations"], qtext="buffer size 1-6 against 0-5 rows; cell values (numbers, characters) and which cells are set; custom missing values; sequences of two datasets with different columns; strings that grow or shrink twice on the way",
     why="The writer's buffer holds 10000 rows by default, so the tests hardly ever flush in mid-stream; what happens at the boundary (row under construction, missing values, statistics) is not sampled. Three defects were found this way.",
     files=["src/odc/Writer.h", "src/odc/Writer.cc", "src/odc/WriterBufferingIterator.h", "src/odc/WriterBufferingIterator.cc", "src/odc/core/Column.h", "src/odc/codec/CodecOptimizer.h"],
     mech=[("buffering and flush", "WriterBufferingIterator::writeRow, flush, doWriteRow"), ("reset after a flush", "Column::resetCodec, Codec::resetStats"), ("copy", "WriterBufferingIterator::pass1")],
     bounds="5 columns, up to 5 rows, buffers of 1-6 rows, 2 datasets when copying.", outside="values REAL columns cannot hold exactly are compared after rounding to float only if symbolic floats.",
     harness=[dict(name="c15", quick=C("ints", "reals", "bits", "strings", "five", "initial", "sticky", "missing", "copy", "grow"))])

prop("C17", title="span() reports exactly the distinct values of the rows",
     statement="Frame::span(columns, visitor) reports for each requested column, by full or simple name, the set of values that decoding the frame's rows gives (NaN aside): no value is left out, added, repeated or attributed to another column, for stored and aggregated frames, either byte order, and whatever the row markers, including columns the first row omits. With onlyConstantValues it succeeds exactly for the columns that have one value in all rows. Unknown columns are refused. offset() and length() are the bytes the frame occupies, and asking again gives the same answer.",
     over=["inputs", "histories", "configurations"], qtext="all cell bytes and markers of 1-3 rows in 7 column codecs; frames with and without partial first rows; one or two stored frames; every column name spelling and unknown names; both modes",
     why="The tests span a few integer and string columns of complete rows. Three defects were found this way (NaN in the sets, long constant strings, columns omitted by the first row).",
     files=["src/odc/core/Span.cc", "src/odc/core/Span.h", "src/odc/core/Table.cc", "src/odc/api/Odb.cc"],
     mech=[("value sets", "Table::decodeSpan, SpanBuilder"), ("aggregation", "Span::extend"), ("constants", "onlyConstantValues"), ("position", "Span::offset, length")],
     bounds="7 columns x 1-3 rows, up to 2 stored frames.", outside="more rows and frames; frames without rows.",
     harness=[dict(name="c17", quick=C("ints", "strings", "doubles", "nan3", "reals", "bits", "constants", "same", "two", "partial", "every", "unknown"))])

prop("C16", title="Splitting puts every row, unaltered, in the file its values name",
     statement="Writing rows through DispatchingWriter (odc split, SELECT ... INTO a template) with a template such as 'out.{a}.{b}.odb' puts each row in exactly one file: the one named by replacing every placeholder with the row's value (integers in decimal, reals truncated, strings in full with '/' as '__SLASH__'). Rows keep their order and all their cells. The result does not depend on how many files may be open at once, on how often files are closed and reopened, nor on leftover files, which are overwritten (or kept in front, when appending was asked for). The columns may change or grow on the way. The chunks used for sorted splitting (odc split -sort) cover the whole file, frame by frame, and its files hold the same rows.",
     over=["inputs", "histories", "configurations"], qtext="all sequences of 3-4 rows over 2-5 key values (integer, real, NaN, short, wide and '/' strings, pairs); 1-3 open files; which files exist before; sequences of two layouts; one or two inputs; the row at which a string column grows; sizes of 1-4 frames against any chunk size; a symbolic payload cell",
     why="The tests split by integer columns with fewer values than open files. Six defects were found this way.",
     files=["src/odc/WriterDispatchingIterator.cc", "src/odc/DispatchingWriter.cc", "src/odc/TemplateParameters.cc", "src/odc/tools/SplitTool.cc"],
     mech=[("dispatch", "WriterDispatchingIterator::dispatchIndex, createIterator"), ("file names", "generateFileName, TemplateParameters::parse"), ("column changes", "pass1, flushAndResetColumnSizes"), ("chunks", "SplitTool::getChunks")],
     bounds="5 columns, up to 4 rows, up to 3 open files; the file system is a model in memory with stdio-like buffering.", outside="file names with unprintable or blank-padded strings; the sorting SQL query itself.",
     harness=[dict(name="c16", quick=C("ints", "reopen", "strings", "long_strings", "reals", "pairs", "nan", "existing", "change", "twice", "direct", "initial", "tool", "sorted", "chunks"))])

prop("C19", title="SQL statements see every row as stored and deliver their results unchanged",
     statement="A SELECT over ODB data - through the C++ Select iterator, filter() of a file or of a frame, odc sql with a statement or a script, odc merge -S or odc import -sql - is given every row of every frame exactly once and in order, with the values, missing values, types, bitfield members and strings of any length that are stored, whatever changes between the frames (byte order, order or width of columns, missing-value flags); over two tables it is given every combination of their rows. Files and frames without rows give a result without rows. What it selects arrives unchanged: in the iterator's rows, in the ODB data written (to one file, or to the files a template in the name of -o gives each row), and in the number of rows reported. The same holds for the rows of a CSV table, where NULL is missing in a column of any type. Columns are found by their full name, or by the unqualified one if that is unique, in every frame; -offset and -length restrict odc sql to that part of the file.",
     over=["inputs", "configurations"], qtext="1-2 frames (3 with a part of the file) of 1-2 rows of 4-7 columns (integers, strings of up to 4 words, bitfields, doubles, constants) in either byte order with the second frame reordered, wider or with missing values; cell values; selected columns; every subset of the rows as the result of WHERE; two tables of up to two frames; 3 CSV rows with NULLs and strings growing by up to 3 words; template values that are integers or strings; eight names of scripts and six statements; 1-3 frames of 0-2 rows each",
     why="The tests select from files of one layout; a second pass over a file with two layouts read stale data, a name's exact match was refused as ambiguous, NULLs of CSV files were values, files without rows could not be queried.",
     files=["src/odc/Select.cc", "src/odc/SelectIterator.cc", "src/odc/sql/TODATable.cc", "src/odc/sql/TODATableIterator.cc", "src/odc/sql/SQLSelectOutput.cc", "src/odc/sql/ODAOutput.cc", "src/odc/sql/SQLOutputConfig.cc", "src/odc/sql/Types.cc", "src/odc/api/Odb.cc", "src/odc/tools/SQLTool.cc", "src/odc/tools/MergeTool.cc", "src/odc/tools/ImportTool.cc", "src/odc/StringTool.cc", "src/odc/core/MetaData.cc", "src/odc/csv/TextReaderIterator.cc"],
     mech=[("tables", "TODATable<READER>, TODATableIterator<READER>::next, updateMetaData, rewind"), ("results", "SQLSelectOutput::updateTypes, output*, ODAOutput, SelectIterator"), ("entry points", "api::filter, FrameImpl::filter, SerialTableReadHandle, SQLTool::run, MergeTool::run, ImportTool::run, StringTool::isSelectStatement"), ("names", "MetaData::columnIndex, TODATable::column")],
     bounds="up to 3 frames and 4 rows, two tables; the SQL engine is a model.", outside="parsing, expressions, aggregation, ORDER BY and DISTINCT, which are in the binary-only libeckit_sql: a model of its SELECT loop (columns, subset of rows, product of tables; real SQLTable, SQLSession, SQLType) drives the real tables and outputs. Text output (formatted streams).",
     harness=[dict(name="c19", quick=C("select1", "select2", "filter1", "filter2", "frame_filter", "tool", "tool_split", "tool_split_strings", "merge_sql", "empties", "script", "tool_part", "join", "again", "csv", "csv_null", "import_sql", "names"))])
prop("C20", title="Comparing two files succeeds exactly when they hold the same rows",
     statement="Comparator (odc compare) accepts two files exactly when they have, row by row, the same columns (name, type, bitfields, order) and the same values: integers and bitfields exactly (read as doubles or as 64-bit integers), strings exactly, reals within the documented tolerance (relative 1e-9; equal values, also infinities, always), a missing value only equal to a missing value. Codec, byte order, string width and the split into frames do not matter. A missing row at the end, or columns that change half-way in one file, is a difference; files without rows are the same. Columns that are excluded are not compared.",
     over=["inputs", "configurations"], qtext="all pairs of 32-bit integers, of doubles (against 0, 1, -2^1000, infinities, itself), of strings of up to 10 bytes; all codec pairs listed; all splits of 3 rows; 10 differences in structure in either file and frame; exclusion of each column; both settings of the missing-value option",
     why="Tests compare a few files that are equal or differ grossly. Differences between large integers, and all differences between integers read as such, went unnoticed; infinities were reported.",
     files=["src/odc/Comparator.h", "src/odc/Comparator.cc", "src/odc/tools/CompareTool.cc"],
     mech=[("rows", "Comparator::compare"), ("tolerance", "Comparator::err, same"), ("columns", "Comparator::compare(MetaData)")],
     bounds="0-3 rows, 1-5 columns, 0-2 frames.", outside="NaN (governed by $odc_NAN_IS_OK); values closer than 1e-8 that are not equal.",
     harness=[dict(name="c20", quick=C("same_skip", "same", "cell", "int32", "int16", "bits", "double_zero", "double_one", "double_big", "double_inf", "real_one", "real_inf", "double_self", "str8", "str_const", "str16", "str_long", "missing", "structure", "split", "exclude", "rows"))])

prop("C21", title="The C decoder stores each requested cell where its layout says, only there",
     statement="odc_decode writes, for each column added to the decoder, the frame's values at the addresses odc_decoder_column_data_array and odc_decoder_data_array report: in memory the decoder allocates, in a caller's array (row- or column-major, wider or taller than needed, wide strings transposed) or in a caller's per-column arrays (with or without stride), in any mixture and column order, and touches no other byte. A decoder can be reused for further frames, other row counts and other arrays. Requests that cannot be met (too few rows, too narrow, unknown column, more rows than the array) give an error code, call the failure handler once and write nothing outside the targets.",
     over=["inputs", "configurations", "histories"], qtext="ordered selections of 1-3 of 4 columns, explicit and implicit sizes, spare width and height, both layouts; every mixture of own and allocated columns; two frames of 0-3 rows and different string widths per decoder; every kind of impossible request; logical frames with every row limit; cell values",
     why="The C tests decode with one or two layouts, once. Reuse, explicit sizes, taller arrays and wide strings were never combined: several memory errors were found this way.",
     files=["src/odc/api/odc.cc", "src/odc/api/odc.h", "src/odc/core/Table.cc", "docs/content/implementation/decoding-data.rst"],
     mech=[("layout", "fill_in_decoder"), ("decode and transposition", "odc_decode_threaded"), ("setters", "odc_decoder_*"), ("errors", "wrapApiFunction")],
     bounds="4 columns (integer, string of 1-3 words, double, bitfield), 0-3 rows.", outside="buffers smaller than the caller declared; decoders used from several threads.",
     harness=[dict(name="c21", quick=C("defaults_row", "defaults_col", "array_row", "array_col", "columns", "reuse", "refused", "aggregated"))])

prop("C22", title="The C encoder encodes exactly the rows its arrays describe",
     statement="odc_encode_to_* writes a file that decodes to the rows described by the encoder: from one row- or column-major array (wider or taller than needed, strings wider than the column unit) or from an array per column with or without stride, with the given names, types, bitfield members and properties, as many rows as set (or as the array has) in frames of at most the set number of rows, and treats the missing values set through the API as such. Encoding again, or from another array, encodes what is there then. Requests that make no sense (more rows than the array, too narrow, wrong sizes, duplicate or no columns, no data) are refused with an error code and write nothing.",
     over=["inputs", "configurations", "histories"], qtext="1-3 rows, string width, row count set or not, rows per frame, spare width and height, both layouts, every unit width against every column width; strides; pairs of arrays of 1-3 rows; every kind of impossible request; missing values and bitfield sizes; cell values",
     why="The C tests encode one table per layout. Units that do not divide a column, reused encoders and duplicate names were not tried: three defects were found this way.",
     files=["src/odc/api/odc.cc", "src/odc/api/odc.h", "src/odc/core/Encoder.cc", "docs/content/implementation/encoding-data.rst"],
     mech=[("layout", "fill_in_encoder"), ("rows per frame", "odc::api::encode"), ("settings", "odc_set_missing_*, odc_encoder_*")],
     bounds="2-3 columns, 1-3 rows, strings of up to 4 words.", outside="buffers smaller than the caller declared; larger tables (C01, C02, C04 and C06 cover the encoding itself).",
     harness=[dict(name="c22", quick=C("array_row", "array_col", "units", "columns", "reuse", "reuse_same", "refused", "settings"))])

prop("C23", title="C readers, streams, frames and errors behave as documented",
     statement="Reading through a stream callback delivers every frame, whatever the size of the pieces the callback returns and whichever frames are decoded; a stream that fails or ends within a frame is reported as an error and never as the end of the data or as values; a frame that has been passed cannot be decoded from a stream. Write callbacks that take little at a time lose nothing, and full ones or too little memory are errors. Copied frames stay valid and unchanged, column, bitfield and property queries return what the frame holds for valid indexes and an error otherwise. Every failure returns an error code, sets a message and calls the failure handler, and leaves other objects usable.",
     over=["inputs", "fault_sequences", "histories"], qtext="piece sizes, the byte at which a stream ends or fails, subsets of frames decoded, life times of frames and copies, every index around the valid ones, names, keys and property bytes, callbacks that fail or are short, memory around the needed size, every 1-8 byte prefix that is no ODB",
     why="odc_open_stream never worked and no test noticed. Faults, short reads and life times of frames are not exercised by the C tests.",
     files=["src/odc/api/odc.cc", "src/odc/api/odc.h", "src/odc/api/Odb.cc", "src/odc/core/ThreadSharedDataHandle.cc"],
     mech=[("streams", "odc_open_stream, odc_encode_to_stream"), ("frames", "odc_next_frame, odc_copy_frame"), ("attributes", "odc_frame_*"), ("errors", "wrapApiFunction, odc_error_string")],
     bounds="up to 3 frames of 1-2 rows and 2-5 columns; names and values of 1-3 symbolic bytes.", outside="files and open descriptors (operating system); using a reader after odc_close.",
     harness=[dict(name="c23", quick=C("stream", "stream_ends", "stream_fails", "stream_back", "copy", "describe_columns", "describe_bitfields", "describe_index", "describe_key", "write", "errors", "properties"))])

prop("C24", title="The legacy C interface (odb_*) delivers and writes every row as it is",
     statement="Through the row-by-row C interface of odccapi.h every row of a file is delivered once and in order with its values, missing values and strings of any length, at the offsets, with the sizes, types, names, bitfield members and missing values the interface reports, and a change of the columns between frames is announced on the first row it concerns. Asking with a wrong number of columns is refused without touching the buffer, and a column that does not exist is an error. A SELECT delivers the selected columns and rows likewise, also when rows become shorter, and never writes past the row's size. What is written or appended row by row is read back unchanged and what was there is kept. get_blocks_offsets gives one block per frame, covering the file, and odb_count its number of rows.",
     over=["inputs", "configurations", "histories"], qtext="two frames of 1-2 rows of 4-5 columns (integer, string of 1-3 words, double or real, bitfield, constants) in either byte order, the second reordered, wider, narrower or with a missing value; the call that asks for the wrong number of columns; every subset of the rows and two lists of columns selected; columns written in 5 orders, strings of 1-3 words, with and without an own missing value, over an existing file or appended; 1-3 frames of 0-2 rows; cell values",
     why="The tests read and write one file of one frame. The last member of a bitfield was lost, missing values were read past the end of the columns, and rows that became shorter were refused.",
     files=["src/odc/odccapi.cc", "src/odc/odccapi.h", "src/odc/ReaderIterator.cc", "src/odc/SelectIterator.cc", "src/odc/sql/SQLSelectOutput.cc", "src/odc/WriterBufferingIterator.cc", "src/odc/ODBAPISettings.cc"],
     mech=[("reading", "odb_read_iterator_*"), ("selecting", "odb_select_iterator_*, SQLSelectOutput::output"), ("writing", "odb_write_iterator_*, odb_create_append_iterator"), ("blocks", "get_blocks_offsets, odb_count")],
     bounds="2-3 frames, 4 rows, 5 columns.", outside="the SQL engine (a model drives the real tables and outputs, as in C19); buffers that do not have room for the widest frame (the interface copies the whole row before it announces the new layout); set_header twice without a flush.",
     harness=[dict(name="c24", quick=C("read", "select", "write", "append", "blocks"))])

prop("C18", title="CSV text is imported row by row as its header says, or refused",
     statement="Importing CSV text (odc import, odc::api::odbFromCSV, TextReader) gives one row per non-blank line, in order, with the columns, types and bitfield members the header names. Integer cells have the value of their decimal digits, string cells the (unquoted, trimmed) text in full whatever its length and whatever the lengths before it, bitfield cells their value; NULL (in any case) is the missing value of the column. Blank lines, a missing final newline and the delimiter make no difference. Lines with too few or too many cells, malformed headers, unknown types, and bitfield sizes that are not positive are refused.",
     over=["inputs"], qtext="every text of 1-6 bytes (thorough: 7) over the significant characters; cells of symbolic digits and letters, sequences of string lengths across the 8-byte word limits in two columns, every combination of blank and full lines, every delimiter, headers with symbolic names, case and type, bitfield widths",
     why="The tests import a few fixed texts. Which lengths of string follow each other, blank lines and NULL in each type of column decide whether values survive; rows after a blank line were dropped, -d was ignored and negative bitfield sizes accepted.",
     files=["src/odc/TextReader.cc", "src/odc/TextReaderIterator.cc", "src/odc/csv/TextReader.cc", "src/odc/csv/TextReaderIterator.cc", "src/odc/tools/ImportTool.cc", "src/odc/api/Odb.cc"],
     mech=[("header", "TextReaderIterator::parseHeader, parseBitfields"), ("rows", "TextReaderIterator::next"), ("string width", "TextReaderIterator::next, WriterBufferingIterator::pass1"), ("command", "ImportTool::odbFromCSV")],
     bounds="up to 4 lines, 2-3 columns, strings of up to 3 words, numbers of up to 4 (any) or 10 (decimal) digits.", outside="delimiters inside quotes (not supported by the reader); consecutive delimiters count as one; the spelling of reals and of non-decimal integers is eckit's Translator's.",
     harness=[dict(name="c18", quick=C("ints", "long_ints", "strings1", "nullword", "nulls", "lines3", "any5", "delimiter", "header", "badtype", "bitfields", "bitfield_syntax", "file_strings", "grow", "file_grow", "file_lines", "file_ints"), thorough=C("strings2", "strings3", "any6", "any7", "lines4", "file_two", "file_strings3")),
              dict(name="c26", quick=C("import"))])

prop("C25", title="Columns are found by full name, else by the unqualified one if unique",
     statement="Wherever a column is asked for by name (metadata look-ups, Frame::hasColumn, decoding, span, odc set, odc mdset, split templates), a name stands for the column that has exactly this name, or else for the only column whose name is this one followed by '@' and a table. A name that no column has, or that several have (as 'a' with a@x and a@y), is refused however often it is asked for, nothing is written, and no other column is ever taken instead; in files and aggregated frames whose frames have the columns in another order a name stands for the same column in all of them. Frames with two columns of the same name are refused.",
     over=["inputs", "configurations"], qtext="all bytes of two names of 1-4 characters and of the name asked for; all sets of 3 of 11 names that are prefixes, tables or qualified forms of each other, in either order, with every name asked for; pairs of names in one request; one or two frames, aggregated or not",
     why="The tests ask for names that exist and are unique. Decoding took the first of several matches, and in aggregated frames mixed two columns; a refused frame was decoded on the second request.",
     files=["src/odc/core/MetaData.cc", "src/odc/core/Table.cc", "src/odc/core/Span.cc", "src/odc/api/Odb.cc", "src/odc/TemplateParameters.cc", "src/odc/tools/SetTool.cc", "src/odc/tools/MDSetTool.cc"],
     mech=[("metadata", "MetaData::columnIndex, hasColumn, columnByName"), ("frames", "Table::columnLookup, simpleColumnLookup, decode, decodeSpan"), ("tools", "ODAUpdatingIterator, MDSetTool::run, TemplateParameters::parse")],
     bounds="2-3 columns per frame, names of up to 4 characters, 1-2 frames of 2 rows.", outside="names with several '@' or none before it (decode and span differ); a column requested in one span() by both its names; SQL (C19).",
     harness=[dict(name="c25", quick=C("md13", "md34", "md_three", "frame2", "frame3", "aggregated", "request2", "duplicate", "set", "mdset", "split"))])

prop("C26", title="The file tools change what they are told to and nothing else",
     statement="odc compact and fixrowsize write the rows of their input, odc merge the columns of its inputs side by side for as many rows as all have, odc set the input with the named columns set to the given values in every row, odc mdset the input with the named columns' type, or the value of constant ones, changed in every frame and everything else as it was, and odc count the number of rows: all names, types, bitfield members and values, in particular strings of any length, are kept. Requests that cannot be met (unknown columns, columns that change during a merge, values the column cannot take) are refused.",
     over=["inputs", "configurations"], qtext="1-2 frames of 1-2 rows of 4-7 columns (integers, strings of up to 3 words, bitfields, doubles, constants), in either byte order, with the columns of the second frame reordered, of another width, or flagged as having missing values in one only; frames and files without rows; cell values and rows; 2-3 merged inputs; every column, type and value set",
     why="The tests run each tool once on files with numbers or short strings; merge truncated strings and displaced values, set read out of bounds and shifted values, mdset ignored values.",
     files=["src/odc/tools/CompactTool.cc", "src/odc/tools/FixedSizeRowTool.cc", "src/odc/tools/MergeTool.cc", "src/odc/tools/SetTool.cc", "src/odc/tools/MDSetTool.cc", "src/odc/tools/CountTool.cc", "src/odc/ODAUpdatingIterator.cc", "src/odc/RowsCounter.cc"],
     mech=[("merge", "MergeTool::mergeMany, mergeTwo"), ("set", "SetTool::run, ODAUpdatingIterator"), ("mdset", "MDSetTool::run"), ("copies", "CompactTool, FixedSizeRowTool, WriterBufferingIterator::pass1")],
     bounds="up to 3 inputs, 2 frames and 3 rows; the file system is a model in memory.", outside="odc merge -S, which is SQL (C19); odc mdset's undocumented a:b:c bitfield syntax.",
     harness=[dict(name="c26", quick=C("compact", "compact2", "fixed", "merge2", "merge2c", "merge3", "merge_widths", "merge_type", "merge_same", "set1", "set1k", "set2", "set_unknown", "mdset1", "mdset1b", "mdset2", "empties_compact", "empties_fixed", "empties_set", "empties_mdset", "empties_merge", "count"))])

prop("C27", title="The block index counts the rows of every frame by sequence number",
     statement="odc index (Indexer::createIndex) writes a file with the INTEGER columns block_begin, block_length, seqno and n_rows: its entries come in the order of the frames of the data file, each gives the position and length of one frame, and for every frame and every value of seqno in it n_rows adds up to the number of rows of the frame with this value, whatever the values (negative ones and -1 included), the byte order of the frames and whether the column is named with or without its table. Nothing else is written, an older index is replaced, the data file is left alone, and a file that is missing or damaged is refused.",
     over=["inputs"], qtext="every value of seqno in frames of 2-3 rows (constant, int8 and int32 codecs, four minima); 1-3 frames of 1-2 rows in either byte order, with columns before seqno or not; every byte at which the last frame is cut",
     why="The one test that runs odc index cannot fail: index had stopped working altogether (the handle of a block was opened twice).",
     files=["src/odc/Indexer.cc", "src/odc/tools/IndexTool.cc", "src/odc/core/TablesReader.cc", "src/odc/Select.cc", "src/odc/Writer.cc"],
     mech=[("runs of rows", "Indexer::createIndex"), ("blocks", "Indexer::offsetsOfBlocks, core::Table::startPosition, nextPosition"), ("reading a block", "PartFileHandle (modelled), Select")],
     bounds="up to 3 frames and 5 rows; the file system, the parts of files and the SQL engine's SELECT of one column are models.", outside="positions beyond 2^31 (the columns are 32-bit INTEGERs); frames without rows, which odc does not write; whether rows of the same value that do not follow each other share an entry.",
     harness=[dict(name="c27", quick=C("runs2", "runs3", "runs_const", "blocks", "blocks_any", "tool", "again", "damaged"))])

prop("C29", title="encode() writes the cells its arrays describe, in frames of the rows asked for",
     statement="odc::api::encode() writes exactly the rows described by its columns' strided arrays, wherever their elements lie: dense, with gaps, interleaved row by row, all the same element (stride 0), or described wider than the values. The file's bytes do not depend on the arrangement. Frames hold the requested number of rows, the last one the rest, and are the bytes that encoding the slices one after the other gives; a table without rows gives one frame without rows; every frame carries the properties given. Requests with columns of different lengths, other numbers of arrays than columns, no columns, the same name twice, elements smaller than their values, sizes that are not whole words or no rows per frame are refused before anything is written.",
     over=["inputs", "configurations"], qtext="all cell values and gap contents; every mix of four arrangements for an integer, a string (1-2 words) and a double column; 0-5 rows, 1-6 rows per frame; seven kinds of inconsistent requests",
     why="The tests encode dense or row-major arrays of fixed values in one or two frames; no inconsistent request is tried. Three defects were found this way (no rows per frame wrote frames for ever; too small elements corrupted rows; an empty table failed after it was written).",
     files=["src/odc/api/Odb.cc", "src/odc/api/StridedData.h", "src/odc/core/Encoder.cc"],
     mech=[("splitting", "odc::api::encode"), ("addressing", "StridedDataT::get, slice, iteration"), ("encoding", "core::encodeFrame, isNewValue")],
     bounds="3 columns, up to 5 rows and 6 rows per frame; strings of 1-2 words; gaps of one word.", outside="negative strides, more columns or rows.",
     harness=[dict(name="c29", quick=C("layout0", "layout1", "layout2", "layout3", "layout5", "same", "refused", "wider"))])

prop("C31", title="Every command sees the options and parameters of its command line",
     statement="Whatever the command line, a tool's parameters are exactly the arguments that neither are options (start with '-' and are longer than that) nor the argument of one, in their order; optionIsSet() is true exactly for the options given; optionArgument() gives the argument of the last occurrence of an option registered with one, converted to the type asked for, and the default when it is not given. An option that lacks its argument is refused. The answers depend neither on the order of the questions nor on copying or assigning the command line. A command starts the tool of exactly its name, which sees its own arguments; other commands start none.",
     over=["inputs", "configurations"], qtext="all bytes of up to 4 arguments of up to 2-3 characters, either of two options (one a prefix of the other) registered with an argument or not; three orders of asking, copies and assignments; numeric arguments and defaults; all commands of up to 3 characters and every command with one character changed or added",
     why="Two fixed command lines are tested; the tools' tests give each option in one place.",
     files=["src/odc/CommandLineParser.cc", "src/odc/tools/ToolFactory.cc", "src/odc/tools/Tool.cc"],
     mech=[("command line", "CommandLineParser::parseCommandLine, parameters, optionIsSet, optionArgument"), ("commands", "Tool::registerTools, AbstractToolFactory::createTool")],
     bounds="up to 4 arguments of up to 3 characters; numbers: seven literals.", outside="the conversion of a text into a number, which eckit does; what each tool does with its options (C16, C18, C20, C26-C28).",
     harness=[dict(name="c31", quick=C("any2", "any3", "copies", "four", "numbers", "command", "command_near"))])

prop("C28", title="ls, header and count print what the file holds, and nothing else",
     statement="odc ls prints the names of the columns wherever they change and one line per row with every cell: integers and bitfields as the integer stored, reals in fixed notation, strings in full in quotes, missing values (and only they) as '.'. odc header prints for every frame its position, end, number of rows and byte order, and for every column name, type, bitfield members, codec, range and missing value as stored; with -offsets position, length, rows and columns of every frame; with -ddl one CREATE TABLE statement (with the types of its bitfields) for every change of the columns. odc count prints the sum of the numbers of rows of all frames of all its files.",
     over=["inputs", "configurations"], qtext="all values of integer, real, double and bitfield cells with any missing value; which cells are missing; 1-2 frames of columns of every kind, reordered, in either byte order; numbers of rows, ranges, missing values and sizes of bitfields of 1-3 frames",
     why="No test compares the text that these tools print.",
     files=["src/odc/tools/LSTool.cc", "src/odc/tools/ODAHeaderTool.cc", "src/odc/tools/CountTool.cc", "src/odc/core/Column.cc", "src/odc/core/MetaData.cc", "src/odc/core/Codec.cc", "src/odc/core/TablesReader.cc"],
     mech=[("rows", "LSTool::printData"), ("headers", "VerbosePrinter, Column::print, Codec::print"), ("table definitions", "DDLPrinter"), ("rows of files", "CountTool::rowCount")],
     bounds="up to 3 frames, 4 rows, 7 columns; the digits of a number are libstdc++'s: what is decided is which number, in which notation, goes where.", outside="ranges of columns other than int8 ones; the text of SQL results, which libeckit_sql writes.",
     harness=[dict(name="c28", quick=C("ls1", "ls2", "ls_numbers", "offsets", "header", "ddl", "count"))])

na("C30", title="The Fortran interface behaves as the C interface it wraps",
   statement="Every procedure of the Fortran module odc (readers, frames, decoders, encoders, settings) passes its arguments to the C function it wraps and its results back unchanged: names and strings are trimmed or NUL-terminated as needed, column, field and property indices start at 1, arrays are row- or column-major as declared, and failures are returned as the error codes of the C interface.",
   over=["inputs"], qtext="all names, indices, array shapes and layouts",
   why="The Fortran tests read and write one or two small files.",
   files=["src/odc/api/odc.f90", "src/fortran/odc_c_binding.f90"], mech=[("wrappers", "module odc")],
   reason="the module is Fortran and the only Fortran compiler here is gfortran, which does not produce the intermediate representation (LLVM IR) the checks execute symbolically; no other symbolic engine here reads Fortran. The C functions behind it are decided by C21-C24.")
