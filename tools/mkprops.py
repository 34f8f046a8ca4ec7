#!/usr/bin/env python3
"""Writes properties.jsonl. (Kept as a script only because JSON lines are hard to edit by hand.)"""
import json, os
P=[]
def p(id,title,statement,over,qt,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))

p("C01","Stored data survives closing and reopening",
"In a table with regular time blocks, whatever rows of whatever columns are written (including overwriting, and writing blocks in any order once the first block has been written), after closing and reopening the table every written row reads back as the last value written to it, to within the compression error. This holds for every polarization, channel, row position within a block, block (first, last, partially written) and column sharing the storage manager, and for every sequence of sessions.",
["histories","inputs","configurations"],
"Every sequence of put / close / reopen over tables with any rows-per-block, block count, shape, number of columns, bit count, distribution and normalization, with metadata columns filled before the data and the first block written first.",
"testdyscostman writes one table of one column front to back, once, and reads it back; it never overwrites, revisits a block, has several columns, leaves rows out or reopens for update.",
["threadeddyscocolumn.cc","threadeddyscocolumn.h","dyscostman.cc","dyscostmancol.h","timeblockbuffer.h","dyscodatacolumn.cc","dyscoweightcolumn.cc"],
[("_currentBlock/_timeBlockBuffer","block held decoded in memory","threadeddyscocolumn.h"),("_cache","blocks queued for encoding","threadeddyscocolumn.h"),("_nBlocksInFile","number of blocks in the file","dyscostman.h")],
[("putValues/storeBlock/loadBlock","threadeddyscocolumn.cc"),("shutdown on close","threadeddyscocolumn.cc"),("offset computation","dyscostman.h getFileOffset, getBlockIndex, getRowWithinBlock")],
["casacore Table/ArrayColumn get after reopen"])

p("C02","A read returns the latest write while the table is open",
"At any moment in a session, reading any row of any column returns the value most recently written to that row, to within the compression error, no matter whether that row is in the block being filled, queued for writing, being written, or already in the file. Reading never changes what later reads or a reopened table return.",
["histories","inputs","schedules"],
"Every interleaving of puts and gets over rows of the current block, queued blocks, written blocks and not yet existing blocks, in new and in reopened tables.",
"The existing tests never read a row in the session that wrote it.",
["threadeddyscocolumn.cc","timeblockbuffer.h"],
[("_currentBlock","block in the buffer","threadeddyscocolumn.h"),("_isCurrentBlockChanged","buffer differs from file","threadeddyscocolumn.h"),("_cache","blocks queued for encoding","threadeddyscocolumn.h")],
[("getValues","threadeddyscocolumn.cc"),("waitUntilWritten","threadeddyscocolumn.cc"),("loadBlock","threadeddyscocolumn.cc")],
["ArrayColumn get between puts"])

p("C03","A write changes only the row it addresses; unwritten rows read as zero",
"Writing a row never changes the value of any other row, time block, column, or other storage manager or table in the process (beyond the compression error of re-encoding the same block). A row that exists in the table but was never written reads as zeros in every column, both in the writing session and after reopening.",
["histories","inputs","configurations"],
"Every write history that leaves rows, blocks or whole columns unwritten, skips blocks, or alternates between columns, blocks, storage managers and tables.",
"The existing tests write every row of the only column, so leaking data between rows, blocks or columns and reading of unwritten cells never occurs.",
["threadeddyscocolumn.cc","timeblockbuffer.h","dyscostman.cc"],
[("OffsetInBlock","place of a column in each block","dyscostmancol.h"),("_timeBlockBuffer","rows of current block","threadeddyscocolumn.h")],
[("FillMissingRows/ResetData","timeblockbuffer.h"),("initializeRowsPerBlock assigning column offsets","dyscostman.cc"),("readCompressedData zero fill","dyscostman.cc")],
["ArrayColumn get of other rows and columns"])

p("C04","The result does not depend on thread scheduling",
"Whatever the scheduling of the encoding threads and the number of processors, the values read back during the session and after closing are those of the sequential history of calls: a later write of a block is never overtaken by an earlier one, a block is never lost, and no torn or misplaced block reaches the file. Closing a table waits until everything written has reached the file.",
["schedules","histories"],
"Every interleaving of the calling thread and the encoding threads of every column, for 1 to 8 processors, including starved encoding threads and preemption between file operations.",
"Tests run under whatever schedule the machine happens to produce, with one store per block.",
["threadeddyscocolumn.cc","threadeddyscocolumn.h","threadgroup.h","dyscostman.cc"],
[("_cache/isBeingWritten","queued blocks and which are taken","threadeddyscocolumn.h"),("_mutex/_cacheChangedCondition","column lock and condition","threadeddyscocolumn.h"),("DyscoStMan::_mutex","file lock","dyscostman.h")],
[("storeBlock waits until block is not in cache","threadeddyscocolumn.cc"),("EncodingThreadFunctor","threadeddyscocolumn.cc"),("file lock around seek+read/write","dyscostman.cc")],
["pthread calls, file system calls, ArrayColumn get"])

p("C05","Every operation terminates and the write queue stays bounded",
"Under every schedule of the encoding threads, each put, get, column operation and close returns (no deadlock, lost wake-up or endless wait), and closing ends all encoding threads. The number of blocks held in memory waiting to be written is bounded by a constant independent of the table size, however slow the encoding threads are.",
["schedules","histories","configurations"],
"Every interleaving of main and encoding threads, for 1 to 8 processors, one or more columns, and all operation histories, including closing with queued blocks and stopping idle or busy threads.",
"Tests would only hang by luck; the queue limit and the lost-wakeup freedom are never exercised.",
["threadeddyscocolumn.cc","threadgroup.h"],
[("_stopThreads","stop request","threadeddyscocolumn.h"),("_cache","queue","threadeddyscocolumn.h")],
[("notify_all after every change of the queue","threadeddyscocolumn.cc"),("maxCacheSize","threadeddyscocolumn.h"),("stopThreads","threadeddyscocolumn.cc")],
["controlled scheduler: blocked set, threads alive after close"])

p("C06","The file follows the version 1.0 layout and old files stay readable",
"A storage file consists of the version 1.0 header (little-endian fields, storage manager name, geometry, compression settings, one sub-header per column) followed by equally sized time blocks, each holding for every column in order its scale factors and its bit-packed symbols in row, channel, polarization, real/imaginary order. Any file that follows this layout is decoded to the values it describes, and every file written is decoded to the right values by an independent decoder of this layout, also for blocks beyond 4 GB.",
["inputs","configurations","histories"],
"All header contents, geometries, column counts, bit counts, distributions, normalizations and block indices.",
"All tests write and read with the same code, so a symmetric change of the layout, level tables or factor order goes unnoticed although existing archives become unreadable.",
["header.h","serializable.h","dyscostman.cc","bytepacker.h","aftimeblockencoder.cc","rftimeblockencoder.cc","rowtimeblockencoder.cc","weightblockencoder.h","stochasticencoder.cc"],
[("Header","file header","header.h"),("GenericColumnHeader","column sub-header","header.h")],
[("Serialize/Unserialize","header.h, serializable.h"),("InitializeDecode/Decode","*timeblockencoder.cc, weightblockencoder.h"),("getFileOffset","dyscostman.h")],
["bytes of table.f<n>"])

p("C07","A file that can not be interpreted is refused, not misread",
"Opening a table whose storage file is missing, has a truncated header, has another format version, has compression settings that do not exist (distribution, normalization, bit count of its columns), or has another number of columns than the table raises an error; data is never returned from it. The refused file is left unmodified.",
["inputs","fault_sequences"],
"Every truncation point inside the header, every major/minor version other than 1.0, every code of a distribution, normalization or bit count that does not exist, and every mismatch of the column count.",
"No test opens anything but a freshly written valid file.",
["dyscostman.cc","header.h","serializable.h"],
[("versionMajor/versionMinor","format version","header.h"),("columnCount","columns in file","header.h")],
[("readHeader checks","dyscostman.cc"),("open fallback to read-only","dyscostman.cc")],
["Table open: exception or success, bytes of the file"])

p("C08","Compression settings persist and round-trip",
"The bit counts, distribution and its parameters, normalization and storage manager name with which a storage manager was created are stored in the file and are the ones used and reported after every later reopening, whatever other settings the opening code would default to. The specification record reported by a storage manager can be used to create an equally configured storage manager, and copies of a storage manager have the same settings.",
["configurations","histories"],
"Every combination of data bits, weight bits, distribution (with parameters), normalization, name, and creation route (constructor, setters, specification record, clone, file).",
"testdyscostman checks a few fields of one specification; no test reopens each combination.",
["dyscostman.cc","dyscostman.h","header.h"],
[("_dataBitCount.._distributionTruncation","settings","dyscostman.h")],
[("setFromSpec/dataManagerSpec","dyscostman.cc"),("writeHeader/readHeader","dyscostman.cc")],
["DataManager::dataManagerSpec, Table::dataManagerInfo, stored values"])

p("C09","Bit packing is lossless for every bit count and length",
"For every supported bit count (2, 3, 4, 6, 8, 10, 12, 16) and every number of symbols, packing symbols and unpacking the bytes yields the same symbols. The bytes are the symbols concatenated least-significant bit first, exactly ceil(symbols x bits / 8) bytes are written or read, and no byte or symbol beyond those is touched.",
["inputs","configurations"],
"All bit counts, all lengths (in particular every remainder modulo the group size of a bit count) and all symbol values.",
"testbytepacking tries a handful of arrays of a few lengths per bit count and only checks the round trip.",
["bytepacker.h"],
[],
[("pack2..pack16, unpack2..unpack16 incl. tail handling","bytepacker.h"),("bufferSize","bytepacker.h")],
["packed bytes, guard bytes, unpacked symbols"])

p("C10","Quantization uses the neighbouring levels",
"Every finite sample is stored as one of the two quantization levels enclosing its normalized value (the nearest bin without dithering), saturating at the lowest and highest level; a value equal to a level is stored exactly, and zero is always exact. The levels are strictly increasing and symmetric around zero, and decoding the symbol a level encodes to gives that level back.",
["inputs","configurations"],
"All float values, all dither values, all distributions with their parameters and all bit counts.",
"testdithering and testdictionary sample a few values of one or two encoders.",
["stochasticencoder.h","stochasticencoder.cc","dictionary.h"],
[("_encDictionary/_decDictionary","bin boundaries and levels","stochasticencoder.h")],
[("lower_bound variants","dictionary.h"),("Encode/EncodeWithDithering/Decode","stochasticencoder.h"),("level construction","stochasticencoder.cc")],
["symbol and decoded value per sample"])

p("C11","Dithering is unbiased",
"When a value lies between two quantization levels, the chance that it is stored as the upper one equals its relative distance from the lower one, so that the expected value of the decoded sample equals the original, for every value, level gap, distribution and bit count. Different samples and different encoding threads are dithered independently.",
["inputs","configurations"],
"All values inside the level range, dither values over their full range, all distributions and bit counts, and whole tables with many equal samples.",
"testdithering draws samples for two levels and checks a coarse average; nothing checks the table path or other encoders.",
["stochasticencoder.h","dyscodatacolumn.cc","dyscodatacolumn.h","aftimeblockencoder.cc","rftimeblockencoder.cc","rowtimeblockencoder.cc"],
[("rnd","per-thread random generator","dyscodatacolumn.h")],
[("EncodeWithDithering","stochasticencoder.h"),("GetDitherDistribution","stochasticencoder.h"),("initializeEncodeThread seeding","dyscodatacolumn.cc")],
["decoded samples"])

p("C12","Non-finite samples stay non-finite and harm nothing else",
"A visibility component that is NaN or infinite reads back as NaN, every finite component reads back finite and zero reads back as zero. A visibility of which a component is non-finite does not take part in the normalization (its finite component needs only to stay finite). The presence of non-finite samples, zero samples, fully flagged rows, channels, polarizations, antennas or blocks does not change the accuracy with which the other samples are stored: their scale stays that of the group they are normalized with. This holds for all normalizations, distributions and bit counts.",
["inputs","configurations"],
"All patterns of NaN, +/-infinity and zeros over rows, antennas, channels, polarizations and components.",
"One encoder test puts a few NaNs in a fixed pattern; patterns that empty an antenna, channel, polarization or block are not tried through a table.",
["aftimeblockencoder.cc","rftimeblockencoder.cc","rowtimeblockencoder.cc","stochasticencoder.h","stochasticencoder.cc"],
[("reserved last symbol","stands for non-finite","stochasticencoder.cc")],
[("RMSMeasurement skipping non-finite","aftimeblockencoder.h"),("isfinite guards in maximization","*timeblockencoder.cc"),("reserved symbol","stochasticencoder.h")],
["decoded samples"])

p("C13","Compression error stays within the quantization step of the local scale",
"For every normalization, the difference between a stored and an original (cross-correlation) sample is at most one quantization step times the scale of the group of samples it is normalized with: its antennas, polarization and channel for AF, its row, polarization and channel for RF, its row for Row. In particular strong and weak antennas, channels, polarizations or rows do not degrade each other's relative accuracy where the normalization has separate factors for them (for AF: with antenna gains within a factor 10^4 of each other), and no finite cross-correlation is clipped. For AF, whose factors are found iteratively, the scale may exceed the product of the gains by a constant factor (2^6).",
["inputs","configurations"],
"All visibility data whose dynamic range fits in floats, with any antenna gains, channel bandpass, polarization and row scales, antenna numbering and baseline order, with or without autocorrelations.",
"testtimeblockencoder uses a few hand-made data sets with loose bounds, always of one geometry.",
["aftimeblockencoder.cc","aftimeblockencoder.h","rftimeblockencoder.cc","rowtimeblockencoder.cc"],
[("meta data factors","scale factors per channel/antenna/row","*timeblockencoder.cc")],
[("Normalize, fitToMaximum, changeAntennaFactor, changeChannelFactor, calculateAntennaeRMS","aftimeblockencoder.cc"),("maximizeRows/maximizeChannels","rftimeblockencoder.cc")],
["decoded samples, scale factors in the file"])

p("C14","Weights are stored as the lowest polarization weight within half a step",
"For finite non-negative weights, the weight read back for every polarization of a channel is the smallest weight written over the polarizations of that channel and row, to within half of (largest such weight in the time block) / (2^bits - 1), up to the rounding of single-precision floats. Zero stays exactly zero, the largest weight of a block is kept, the order of weights is kept, and a block of only zeros reads back as zeros.",
["inputs","configurations"],
"All weight bit counts, shapes, rows per block and all finite non-negative weight values.",
"One encoder test with a few values; no bound, no polarization minimum and no ordering is checked through a table.",
["weightblockencoder.h","weightencoder.h","dyscoweightcolumn.cc"],
[("maxValue","scale of the block","weightblockencoder.h")],
[("Encode/Decode","weightblockencoder.h")],
["decoded weights"])

p("C15","dscompress compresses the requested columns and nothing else",
"For a regular measurement set, dscompress replaces exactly the requested columns by columns stored with the requested settings, whose values equal the originals to within the compression error and are NaN where flagged, while all other columns, the rows, and the keywords of the table and of other columns keep their contents (columns that were compressed before are re-encoded, within their own compression error, only when -reorder asks for a complete rewrite). A measurement set that is not regular, or options or columns that can not be handled, are refused with an error before anything in the measurement set is changed. Columns that are already compressed are left alone.",
["inputs","configurations","programs"],
"All measurement sets (shapes, antenna patterns, time/field/spectral-window structure, flags, missing or already compressed columns) and all command lines.",
"No test runs the tool.",
["dscompress.cc","stmanmodifier.h"],
[("antennasInBlock","baseline list of the first block","dscompress.cc")],
[("regularity validation","dscompress.cc"),("flag to NaN","dscompress.cc"),("PrepareReplacingColumn/MoveColumnData/Reorder","stmanmodifier.h")],
["exit status and contents of the measurement set"])

p("C16","decompress restores ordinary columns with the same values",
"decompress turns DATA and WEIGHT_SPECTRUM columns stored with Dysco into ordinarily stored columns that hold exactly the values that were read from the compressed columns, whichever of the two exist or are compressed, and leaves every other column unchanged. The resulting measurement set no longer needs the storage manager for those columns and has the same name, and running the tool again changes nothing. A measurement set that can not be handled (for example, because the temporary column name is in use) is refused before anything is changed.",
["inputs","configurations","programs"],
"All measurement sets with compressed, uncompressed or absent DATA and WEIGHT_SPECTRUM columns and additional columns, and path spellings.",
"No test runs the tool.",
["decompress.cc","stmanmodifier.h"],
[],
[("InitColumnWithDefaultStMan/MoveColumnData/Reorder","stmanmodifier.h")],
["contents and storage managers of the measurement set"])

p("C17","Adding, removing and renaming columns never harms other data",
"Adding a column to a storage manager either succeeds with the new column reading zeros and everything already written kept, or (once time blocks have been stored) is refused with an error leaving the table fully usable and unchanged. Removing or renaming a column at any moment keeps the contents of all other columns, written or still pending, in the session and after reopening.",
["histories","configurations"],
"Every placement of add/remove/rename column among puts, gets and reopenings, for every column position and column kind.",
"No test adds, removes or renames a column.",
["dyscostman.cc","dyscostmancol.h","threadeddyscocolumn.cc"],
[("_columns","columns in file order","dyscostman.h"),("OffsetInBlock","place of a column in a block","dyscostmancol.h")],
[("addColumn/removeColumn/removeFromBlocks","dyscostman.cc")],
["ArrayColumn get, table columns, after reopen"])

p("C18","Reading never modifies the storage file",
"Opening a table, reading any rows in any order and closing it leaves the storage file byte for byte unchanged, whether opened read-only or for update, and any number of reads of the same row return identical values. A table opened from read-only files can be read completely.",
["histories","configurations"],
"All sequences of open/read/close, in both modes, on all kinds of tables (partial last block, never written columns, empty).",
"No test compares the file before and after reading, or opens read-only files.",
["dyscostman.cc","threadeddyscocolumn.cc"],
[("_isCurrentBlockChanged","buffer differs from file","threadeddyscocolumn.h")],
[("read path without marking the block changed","threadeddyscocolumn.cc"),("open fallback to read-only","dyscostman.cc")],
["digest of table.f<n>"])

p("C19","A static seed makes compression reproducible",
"With the static seed option, writing the same values in the same order produces byte-identical storage files on every run, for every schedule of threads and every number of processors. Without it, different runs are dithered differently.",
["schedules","configurations","inputs"],
"All schedules, processor counts, settings, and histories of writes.",
"No test uses the option.",
["dyscodatacolumn.h","dyscodatacolumn.cc","dyscostman.cc","dscompress.cc"],
[("_randomize/_rnd","seed state","dyscodatacolumn.h")],
[("SetStaticRandomizationSeed, single encoding thread","dyscodatacolumn.cc")],
["digest of table.f<n>"])

p("C20","Tables of any length work: empty, one block, partial last block, growing",
"A table without data, with a single (possibly only) time block, whose last block is incomplete in the table or was not written completely, or to which rows are added or removed at the end between or during sessions, can always be closed, reopened, read and extended, and all rows that stay in the table keep their values. Removing a row other than the last is refused without changing anything.",
["histories","configurations"],
"Every sequence of adding rows, removing rows, writing and reopening, with row counts around every block boundary.",
"The tests use one fixed table size, a whole number of blocks (at least two).",
["dyscostman.cc","threadeddyscocolumn.cc"],
[("_nRow","rows in table","dyscostman.h"),("_rowsPerBlock","rows per block, 0 if not known yet","dyscostman.h"),("_nBlocksInFile","blocks in file","dyscostman.h")],
[("open computing the block count","dyscostman.cc"),("shutdown of a single block table","threadeddyscocolumn.cc"),("addRow/removeRow","dyscostman.cc")],
["ArrayColumn get, Table::nrow, exceptions"])

p("C21","Unsupported settings and columns are refused up front",
"Creating a storage manager or column with an unsupported bit count (for the kind of column created), distribution, normalization, column type, column kind or cell shape (cells have two dimensions) raises an error at creation or when the shape is first given, before any data is accepted. Every combination of supported settings is accepted and usable.",
["configurations"],
"All bit counts 0..32 for data and weights, all distribution and normalization names, all casacore column types and kinds, and all column names.",
"Only one or two rejected settings are tested.",
["dyscostman.cc","bytepacker.h"],
[("settings","bit counts, distribution, normalization","dyscostman.h")],
[("setFromSpec/prepareColumn/prepare checks","dyscostman.cc"),("makeScalarColumn/makeDirArrColumn/makeIndArrColumn","dyscostman.cc")],
["exception or success"])
p("C22","A failing read or write of the storage file does not go unnoticed",
"When the operating system refuses to write or read a part of a storage file, at whatever moment, a call throws or the process ends abnormally; a program that ends normally finds everything it wrote when it opens the table again, and a value that is returned by a read is the stored one, never zeros in its place, also after an earlier read was refused. Reads and writes that only transfer a part of what was asked make no difference.",
["fault_sequences","histories"],
"Every read and write operation on the storage file of every history of puts, gets, sessions, added and removed rows and columns, refused once or from then on, with and without a part being written, including the last operation before the file is closed.",
"No test makes an operation of the file fail.",
["dyscostman.cc","threadeddyscocolumn.cc"],
[("_fStream","stream of the storage file, with its error state","dyscostman.h"),("_currentBlock","block in the buffer of a column","threadeddyscocolumn.h")],
[("readCompressedData/writeCompressedData/writeHeader","dyscostman.cc"),("loadBlock","threadeddyscocolumn.cc")],
["exceptions, end of the process, ArrayColumn get after reopening"])

p("C23","An interrupted update only affects the blocks that were being written",
"When a process that updates an existing table (of which the size of time blocks is known) is killed at any moment, the table can be opened afterwards and every time block of every column to which nothing was written since the table was opened reads as before. In particular a process that only reads can be killed without any effect.",
["crash_points","histories"],
"Every write operation on the storage file of every history of updates of an existing table, the process being killed before, halfway or after it.",
"No test ends a process before the table is closed.",
["dyscostman.cc","threadeddyscocolumn.cc"],
[("_blockSize/_headerSize","fixed places of blocks in the file","dyscostman.h")],
[("writeCompressedData in place","dyscostman.cc"),("prepare without writing a header","dyscostman.cc"),("open","dyscostman.cc")],
["opening the table and ArrayColumn get in another process"])
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
