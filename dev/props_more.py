IR = "src/mlio/instance_readers/"
RR = "src/mlio/record_readers/"
ST = "src/mlio/streams/"

prop("C06", "Peeking does not consume",
     "Peeking at an example, an instance or a record returns what the next read will return, however often it is repeated and whatever was read before; the next read returns that same element and consumes it; after that the following element is read. Reading without a peek reads exactly one element, and a read that fails leaves nothing pending.",
     ["histories"], "every sequence of peeks, reads and failures, for examples, instances and records",
     "Only particular interleavings of peeks and reads show a duplicated or lost element, and tests cover a couple of them.",
     ["src/mlio/data_reader_base.cc", IR + "instance_reader_base.cc", RR + "record_reader_base.cc"],
     [("pending element in front of the reading hook", "Data_reader_base, Instance_reader_base, Record_reader_base: peek_*, read_*")],
     PATHS + " of each peek/read pair, in the four combinations of pending or not",
     "All peek/read pairs over a reading hook are found by role; all paths including those on which the hook throws.")
prop("C09", "Skip, limit, shard, sample and shuffle select exactly the instances asked for",
     "A reader delivers exactly num_instances_to_read instances (or all) after dropping the first num_instances_to_skip; of these, shard i of n takes every n-th starting with the i-th; of each window of the shard sample_ratio is kept; the shuffle permutes what remains, losing and repeating nothing and drawing from a full window until the data ends. The four are applied in this order, each when and only when its parameters ask for it, and the end is reported only when the data or the limit is reached.",
     ["inputs", "configurations"], "every dataset length and every combination of skip, limit, shard, sample and shuffle parameters",
     "The selection is arithmetic over unbounded counts and windows; tests use a few small datasets and mostly one option at a time.",
     [IR + "ranged_instance_reader.cc", IR + "sharded_instance_reader.cc", IR + "sampled_instance_reader.cc", IR + "shuffled_instance_reader.cc", IR + "instance_reader.cc"],
     [("skip loop and limit counter", IR + "ranged_instance_reader.cc: read_instance_core"), ("distance between shard instances", IR + "sharded_instance_reader.cc"), ("window buffers", IR + "sampled_instance_reader.cc, shuffled_instance_reader.cc"), ("composition order", IR + "instance_reader.cc: make_instance_reader")],
     "symbolic trip counts of the skipping loops, conservation of instances through the buffers and symbolic composition of the readers, on all paths",
     "Loop trip counts are derived as terms (induction variable, guard, entry value) and compared with the parameters; the numbers drawn by the library's distributions are assumed within their bounds.")
prop("C26", "Functions that promise not to throw keep the promise",
     "No exception leaves a function declared noexcept, a destructor or a callback run by C code, in the library or in its Python extension, whatever the input: such an exception would end the whole process instead of reporting an error. A log message handler's exception is contained by the logger. Memory exhaustion is left out, as are interfaces implemented in Python whose noexcept methods raise.",
     ["inputs", "configurations"], "every noexcept function, destructor and C callback, on every input",
     "An exception that meets a noexcept boundary needs one particular bad input or handler, and ends the test process rather than failing a test.",
     ["include/mlio/", "src/mlio/", "src/mlio-py/mlio/core/"],
     [("noexcept functions and destructors", "all classes, e.g. Instance_batch_reader::reset, Input_stream::close, Parallel_data_reader::reset"), ("the logger", "src/mlio/logger.cc: handle_message")],
     "interprocedural exception-flow analysis (types let out per function, with handler matching over the call graph), candidates refuted by path analysis",
     "All noexcept functions, destructors and C callbacks of the library, its Python extension and the insights library.")
prop("C27", "Every message can be formatted",
     "Every error message, warning and textual representation the library builds is well-formed: its format string is fixed by the program and not by data, every placeholder refers to a value that is passed, in a format its type accepts, and every value passed is part of the text. Reporting a problem never fails on the report itself.",
     ["inputs", "configurations"], "all calls of the formatting and logging functions",
     "A malformed message shows only when its particular error is raised at its particular warning level; the tests raise few of them.",
     ["src/mlio/logger.h", "src/mlio/csv_reader.cc", "src/mlio/image_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/instance_readers/core_instance_reader.cc"],
     [("formatted messages", "all calls of fmt::format, logger::warn/info/debug")],
     "type-based check of format strings against arguments over the instantiated program (all call sites)",
     "All formatting calls; format strings are resolved through variables, constants, parameters and helper functions.")
MEM = "src/mlio/memory/"
prop("C13", "Failures of the operating system surface with their cause",
     "When an operating-system or library call the library depends on fails (open, read, seek, stat, map, resize, list a directory or an entry of it, wait for a pipe, convert text, inflate, change a signal mask, allocate), the operation reports an error instead of going on as if it had succeeded; the reported error code is the one the failed call left behind; and a call that did not fail is never reported as failed. Interrupted or not-yet-ready calls are repeated where that is intended.",
     ["faults"], "every call with a failure convention and every way it can fail, including failures in the middle of a sequence of calls",
     "The tests run on a healthy file system; almost no failing call is ever exercised, let alone the errno it leaves.",
     [ST + "file_input_stream.cc", ST + "sagemaker_pipe_input_stream.cc", ST + "detail/iconv.cc", ST + "detail/zlib.cc", MEM + "file_backed_memory_block.cc", MEM + "file_mapped_memory_block.cc", "src/mlio/data_stores/file_list.cc", "src/mlio/detail/thread.h"],
     [("result checks around the calls", "all functions that call C functions with a failure convention"), ("errno to error code", "src/mlio/detail/error.h: current_error_code"), ("directory entries", "src/mlio/data_stores/file_list.cc: list_files")],
     PATHS + "; per call a failure-convention table decides on which paths it may have failed",
     "All calls of C functions with a failure convention, on all paths of their functions (callers where the raw result is handed on); which errno values exist is not enumerated.")
prop("C14", "Operating-system resources are released exactly once",
     "Every file descriptor, memory mapping, heap block, directory traversal, converter, inflater and Python buffer the library acquires is released exactly once, also when a later step throws, when an object is moved, resized, reassigned or only half constructed, with the length it was mapped with. Descriptors do not leak into child processes, and the temporary file behind a memory block never stays in the file system.",
     ["faults", "histories"], "every path from an acquisition to the end of the owner's life, including those on which a later step throws",
     "A leak or a double release on an error path does not fail a test; the error paths are hardly run at all.",
     [MEM + "file_backed_memory_block.cc", MEM + "file_mapped_memory_block.cc", MEM + "heap_memory_block.cc", "include/mlio/detail/file_descriptor.h", ST + "detail/iconv.cc", ST + "detail/zlib.cc", "src/mlio/data_stores/file_list.cc", "src/mlio-py/mlio/core/py_memory_block.h"],
     [("owning classes", "File_descriptor, Heap/File_backed/File_mapped_memory_block, Iconv_desc, Zlib_inflater, Fts_deleter, Py_memory_block")],
     "resource typestate over " + PATHS + ", with throwing steps as additional paths; ownership rules per class",
     "All acquiring calls in the library and its Python extension, and all destructors, moves and overwrites of the classes that own what they return.")

prop("C11", "A closed stream stays closed and refuses every operation",
     "Once close() of an input stream was called, the stream reports that it is closed, every read, seek, size and position fails with a stream error (or as unsupported) without touching the underlying file, pipe, memory or inner stream, and closing again does no harm. An open stream is not refused. A stream says truthfully whether it is seekable: where it is, seek, size and position work; where it is not, they fail as unsupported.",
     ["histories"], "every history of operations on every kind of input stream the library implements, alone or wrapping another",
     "Tests use streams and drop them; use after close happens in error handling and in user code.",
     [ST + "file_input_stream.cc", ST + "gzip_inflate_stream.cc", ST + "memory_input_stream.cc", ST + "utf8_input_stream.cc", ST + "sagemaker_pipe_input_stream.cc", ST + "s3_input_stream.cc", ST + "input_stream_base.cc"],
     [("close, closed and check_if_closed of each stream class", "src/mlio/streams/*.cc"), ("capabilities", "include/mlio/streams/*.h: seekable")],
     "typestate (open/closed) over " + PATHS + ": the states close() ends in are handed to closed(), and the closed states to every operation",
     "All concrete stream classes of the library (streams implemented in Python are the user's); the class's own representation of being closed is used, whatever it is.")
prop("C12", "Streams deliver every byte of their source in order; zero bytes mean the end",
     "A read of an input stream returns zero only for an empty destination or at the end of the data, whatever sizes the reads ask for and however the source cuts the data into pieces: plain, gzip-compressed (several members included), and text converted to UTF-8, also when characters or the byte order mark are split between two reads. Nothing is lost, repeated or reordered; positions advance by what was delivered; seeking goes to the requested position or the end. Compressed or multi-byte data that is cut off is an error, not an end. Loops that read a stream go on until zero or until the destination is full.",
     ["inputs", "configurations"], "every content, every sequence of read sizes, and every way the source splits the data",
     "The tests read small files in one piece; short reads, boundaries inside a character or a compressed header, and truncated tails hardly occur.",
     [ST + "gzip_inflate_stream.cc", ST + "utf8_input_stream.cc", ST + "memory_input_stream.cc", ST + "file_input_stream.cc", ST + "detail/zlib.cc", ST + "detail/iconv.cc", "src/mlio/record_readers/detail/default_chunk_reader.cc", "src/mlio/instance.cc"],
     [("inflating loop", ST + "gzip_inflate_stream.cc: read"), ("converting loop and held-back bytes", ST + "utf8_input_stream.cc: convert, copy_from_remainder, set_preamble"), ("reading loops", "default_chunk_reader.cc: read_chunk; instance.cc: read_stream; utf8_input_stream.cc: fill_buffer")],
     PATHS + "; positions, spans and counts are compared as linear terms (conservation of bytes), and loop exits classified by what is known about the last count",
     "All concrete streams except S3 (its client is not part of this build) and all loops that read a stream; zlib and iconv are assumed to account for what they consume.")

prop("C37", "A pipe channel belongs to one stream at a time and advances with every FIFO",
     "Opening a pipe channel claims it; while a stream holds it, opening it again is refused. The channel is given back exactly once, when its stream is closed or destroyed (after the FIFO was closed) or when it cannot be opened, with the number of the next FIFO: the number advances by one for every FIFO opened and not for one that could not be opened, so no FIFO is skipped or read twice. A FIFO number given by the caller replaces the stored one. A stream is handed out only when data has arrived or its timeout has passed, and threads may open and close channels at the same time.",
     ["histories", "schedules"], "every history of opening, failing to open, closing, closing again and destroying pipe streams of the channels of a process",
     "The channel is process-wide state; the tests do not use pipes at all.",
     [ST + "sagemaker_pipe_input_stream.cc"],
     [("table of channels", ST + "sagemaker_pipe_input_stream.cc: exchange_fifo_id"), ("claim", ST + "sagemaker_pipe_input_stream.cc: constructor"), ("give back", ST + "sagemaker_pipe_input_stream.cc: close, destructor"), ("advance", ST + "sagemaker_pipe_input_stream.cc: open_fifo")],
     "linear typestate of the channel (claimed, held, given back) and of the FIFO number over " + PATHS,
     "All functions that use the table, all paths of the constructor, open_fifo, close and the destructor; the clock and the writer at the other end are not modelled.")

RD = "src/mlio/record_readers/"
AUT = "automaton extraction by abstract interpretation (states at labels and loop heads) and product with a specification automaton; the code around it by "
prop("C19", "CSV fields follow RFC 4180 and are handed out whole, in order and once",
     "A CSV record is taken apart into its fields as RFC 4180 says, for every text, delimiter and quote character: fields end at delimiters outside quotes, a field that begins with a quote ends at the matching one, a doubled quote within quotes stands for one quote, characters after a closing quote belong to the field, an empty record is one empty field, and a delimiter at the end is followed by an empty field. Each field's value has exactly its characters; only a field longer than max_field_length is cut, to that length, and only then marked as truncated. After the last field the end is reported, not before; a quoted field that is not closed is an error. A new record starts afresh whatever came before.",
     ["inputs", "configurations"], "every text, every delimiter, quote character and maximum length",
     "Tests cover a handful of texts; the state machine has hundreds of (state, character, history) combinations.",
     ["src/mlio/csv_record_tokenizer.cc", "src/mlio/csv_record_tokenizer.h"],
     [("state machine", "src/mlio/csv_record_tokenizer.cc: next"), ("limit", "src/mlio/csv_record_tokenizer.cc: push_char"), ("start of a record", "src/mlio/csv_record_tokenizer.cc: reset")],
     AUT + PATHS,
     "The whole product of the scanner's automaton with the specification (character classes instead of characters), and all paths of the functions that start a text.")
prop("C20", "Text records are whole lines, however the data is cut into chunks",
     "Text and CSV readers split their data at line ends only (LF, CR, CR LF), for CSV with allow_quoted_new_lines only at those outside quoted fields, whatever the sizes in which the data arrives: no line is cut, joined with another, lost, repeated or given characters of its line end, also when a chunk ends within a CR LF, a quoted field or the byte order mark. A last line without a line end is a record; one whose quotes stay open is an error. Only blank lines and comment lines are skipped, and only when asked for; only a byte order mark at the very beginning of the data is dropped. A line longer than max_line_length is refused. Memory that earlier records refer to is not overwritten when the next chunk is read, and a record longer than a chunk makes the chunk grow.",
     ["inputs", "configurations"], "every text and every way it is cut into chunks and reads",
     "The tests' files fit into one chunk of 32 MB: no test has a chunk boundary at all.",
     [RD + "detail/text_line.cc", RD + "csv_record_reader.cc", RD + "text_line_record_reader.cc", RD + "text_record_reader.cc", RD + "stream_record_reader.cc", RD + "detail/default_chunk_reader.cc", RD + "detail/in_memory_chunk_reader.cc", RD + "detail/chunk_reader.cc"],
     [("line scanners", RD + "detail/text_line.cc: read_line; " + RD + "csv_record_reader.cc: read_line"), ("skipping", "decode_text_record of the CSV and text line readers"), ("byte order mark", RD + "text_record_reader.cc: decode_record"), ("leftover of a chunk", RD + "stream_record_reader.cc: read_record_core; " + RD + "detail/default_chunk_reader.cc: read_chunk")],
     AUT + PATHS,
     "Both line scanners against a specification automaton (all texts and ends of chunks), and all paths of the functions that skip lines, drop the byte order mark, and hold and refill chunks.")
prop("C22", "RecordIO records have their true boundaries; split records come out whole or not",
     "A RecordIO file is taken apart exactly as its format says: a record starts with the magic number 0xced7230a and a little-endian word whose upper 3 bits are its kind and whose lower 29 bits are its payload's size; the payload is those bytes, the next record starts behind the padding to four bytes, and the padding is not part of the payload. Data that does not start with the magic number, or that ends inside a record, is refused with an error; an incomplete record at the end of a chunk is left in the chunk until more data arrived. A record split into parts is returned as one instance made of the payloads of a beginning, any number of middle parts and an end, in order and without gaps, in memory of exactly their total size; any other sequence of parts is refused as corrupt, and then nothing further is read until the reader is reset. Whole records, also empty ones, are returned as they are.",
     ["inputs", "configurations"], "every header word, every size of chunk, every sequence of kinds of records",
     "The tests read a few small, complete files; sizes not divisible by four, truncation and split records hardly occur.",
     [RD + "recordio_record_reader.cc", RD + "detail/recordio_header.cc", RD + "detail/recordio_header.h", RD + "detail/util.h", "src/mlio/instance_readers/core_instance_reader.cc"],
     [("decoding", RD + "recordio_record_reader.cc: decode_record"), ("header", RD + "detail/recordio_header.cc: decode_recordio_header"), ("split records", "src/mlio/instance_readers/core_instance_reader.cc: read_split_record_payload, read_record_payload")],
     PATHS + "; positions and sizes are expressions of the header word that are compared with the format's for header words covering all kinds and size residues",
     "All paths of the decoder and of the functions that put split records together; which bytes a stream delivers is C12, how chunks are refilled C20.")
prop("C38", "Instances are the records of the dataset's stores, in order, none lost",
     "Reading a dataset opens its data stores one after the other in their order, each once, and returns every record of each store as one instance before the next store is opened; stores without records are passed over, and the end is reported only after the last store. A store that cannot be opened is reported and not skipped: the next read tries it again. A store that is not made of records is one instance itself, whose bits are all of the store's bytes, read once, whatever the pieces in which the stream delivers them. Every instance names the store it came from, is numbered by its position in that store from zero on, and returns the bits it was given.",
     ["inputs", "configurations", "faults"], "every sequence of stores with any number of records each, also none, and stores that fail to open",
     "The tests read one or two small stores; empty stores between others, failures in the middle and short reads of whole stores hardly occur.",
     ["src/mlio/instance_readers/core_instance_reader.cc", "src/mlio/instance_readers/core_instance_reader.h", "src/mlio/instance.cc", "include/mlio/instance.h"],
     [("next record and next store", "src/mlio/instance_readers/core_instance_reader.cc: read_record, init_next_record_reader"), ("instances", "src/mlio/instance_readers/core_instance_reader.cc: read_instance_core"), ("whole stores", "src/mlio/instance.cc: load_bits_from_store, read_stream")],
     "typestate of the current store's reader (none, open, exhausted, record in hand) and of the position in the dataset over " + PATHS + ", opening and reading failing as additional paths; loop invariants of the collecting loop as linear terms",
     "All paths of the function that takes the next instance out of the dataset and of the functions that load a whole store; what a record is in each format is C19, C20 and C22.")
DEC = ["src/mlio/csv_reader.cc", "src/mlio/image_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/text_line_reader.cc"]
prop("C08", "Batches hold batch_size instances; the last one and padding follow the policy",
     "A batch holds exactly batch_size instances in the order of the dataset, each once; only the last one may hold fewer, and never none. A shorter last batch is returned as it is, dropped or padded as last_example_handling asks, with one warning with drop_warn and pad_warn and none otherwise. Batches are numbered from zero, again after a reset. The tensors of an example have as many rows as the batch asks for, good instances occupy the first rows in order without gaps, and Example.padding is the number of remaining rows.",
     ["inputs", "configurations"], "every dataset length, batch size and policy, any pattern of bad instances",
     "Tests use a few lengths and policies; combinations of a short last batch with bad instances, warnings, and resets hardly occur.",
     ["src/mlio/instance_batch_reader.cc", "include/mlio/instance_batch.h"] + DEC,
     [("assembly of batches", "src/mlio/instance_batch_reader.cc: read_instance_batch"), ("rows and padding", "decode, decode_ser, decode_prl, decode_serial, decode_parallel of the readers")],
     PATHS + ": every path is compared with what each value of the policy consistent with its decisions asks for; rows, counts and padding as linear terms, loops by invariants",
     "All paths of the assembly and of the batch decoders of all readers in this build; the elements inside a row are C19, C21 and C23.")
prop("C07", "Bad instances are handled as bad_example_handling asks, and reported once",
     "An instance that cannot be decoded never goes unnoticed and never does more than was asked: with error the read fails with an invalid-instance error (or invalid argument) that names the instance, with skip and skip_warn the whole example is dropped, with pad and pad_warn only the instance is, leaving nothing of it in the example, also not in its sparse features. skip_warn and pad_warn warn once per example, skip and pad do not; with warn_bad_instances each bad instance is warned about once, without it none. This holds whether the instances are decoded serially or in parallel, and whatever is wrong with the instance; only padding demands serial decoding. Good instances are never reported.",
     ["inputs", "configurations", "faults"], "every kind of bad instance at any place of a batch, every policy, with and without warnings, decoded serially or in parallel",
     "Tests have a couple of bad rows with two policies; failures of the image library, truncated fields, corrupt rows and sparse features of bad instances are not tested, nor is parallel decoding.",
     DEC + ["src/mlio/coo_tensor_builder.cc", "src/mlio/data_reader_base.cc"],
     [("decoding one instance", "src/mlio/csv_reader.cc: Decoder::decode; src/mlio/image_reader.cc: decode_core; src/mlio/recordio_protobuf_reader.cc: Decoder"), ("decoding a batch", "decode of each reader"), ("switches", "error_bad_example, warn_bad_instances")],
     PATHS + ", modular: functions that report are checked against the contract 'bad means reported once' assuming it of the functions they call; batch decoders against every policy a path is consistent with; exception-flow analysis for what gets out",
     "All paths of all functions of the readers that report bad instances, with the image library's exceptions as additional paths; which instances are bad is C19 to C24.")
prop("C25", "Data that cannot be read is reported as a data reader error naming its store",
     "Whatever goes wrong while reading a dataset (a store that is missing or may not be read, a system call that fails, data that is corrupt, truncated, too large or badly encoded, an operation that is not supported) comes out of reading an instance or its data as a Data_reader_error (or invalid argument), out of inferring the schema as a Schema_error, out of decoding as an Invalid_instance_error, all of them data reader errors, never as another type and never as a crash. The error names the data store that was being read, tells missing stores, denied permissions, too large and corrupt records and system errors apart, and keeps the original exception nested unless it says it all itself.",
     ["faults", "inputs"], "every failure of stores, streams, record readers and their data at any point of reading",
     "Failures are rare and come from outside; the tests provoke a handful with files that exist and can be read.",
     [IR + "core_instance_reader.cc", "src/mlio/instance.cc", "include/mlio/data_reader_error.h"] + DEC,
     [("wrapping", IR + "core_instance_reader.cc: handle_errors; src/mlio/instance.cc: handle_errors"), ("opening", IR + "core_instance_reader.cc: init_next_record_reader; src/mlio/instance.cc: load_bits_from_store"), ("schema", "infer_schema of the readers")],
     "interprocedural exception-flow analysis (types let out, with handler matching over the class hierarchy), and " + PATHS + " with failing steps for what the errors say",
     "All paths of the functions that make such errors; all functions reachable from reading, decoding and inferring for the types.")
prop("C39", "Failing system calls are noticed and reported with their own error code",
     "Every call of an operating system or C library function that can fail (opening, reading, positioning, sizing, mapping and resizing files and pipes, waiting, traversing directories, converting encodings, decompressing) is tested as its documentation says: a failure is never taken for a success, for data or for the end of the data, and a success is never reported as a failure. A failure that is not handled comes out as an exception whose error code is the one the failing call set, not one that a later call (closing, unlinking, logging) left behind; interrupted waits are repeated; results of zlib that mean corrupt data, a missing dictionary or lack of memory are errors.",
     ["faults"], "every failure of every system call the library makes",
     "Tests cannot make the operating system fail at a chosen call; error branches are practically untested.",
     [ST + "file_input_stream.cc", ST + "sagemaker_pipe_input_stream.cc", ST + "detail/iconv.cc", ST + "detail/zlib.cc", "src/mlio/memory/file_mapped_memory_block.cc", "src/mlio/memory/file_backed_memory_block.cc", "src/mlio/data_stores/file_list.cc", "src/mlio/detail/system_call.h"],
     [("system calls", "all functions of the library that make them"), ("error code", "current_error_code, errno"), ("retry", "src/mlio/detail/system_call.h: temp_failure_retry")],
     PATHS + ": what the decisions of each path establish about each result, and the order of calls between a failure and the place that takes its error code",
     "All calls of C functions that can fail in the library, all paths of the functions around them; calls whose failure is harmless (closing, unmapping, advice) are exempt.")
prop("C21", "CSV columns get the right names, types, selection and tensors",
     "The columns of a CSV dataset are settled as the parameters ask, for any header, number of columns and combination of parameters. The rows before header_row_index are passed over; column names are the given ones, the header row's fields (a blank header is one column) or the numbers 1, 2, ... with name_prefix in front; a header row is discarded in every data store, or only in the first one after construction or reset with has_single_header, and never without header_row_index. A column's type is default_data_type, else the inferred type of its field in the first row, else (no data) string, overridden by column_types_by_index and then by column_types; overrides that name no column are refused, and so is a number of names that is not the number of fields. A column is used exactly if use_columns_by_index and use_columns, as far as given, both list it; unused columns have no attribute, parser or tensor, used ones exactly one each, in column order, of the column's name (made unique with dedupe_column_names) and type and of shape batch size by 1. When a row is decoded, each field of a used column is parsed by that column's parser into that column's tensor at the row's place, and a row is accepted only if it has exactly one well-formed field for every column.",
     ["inputs", "configurations"], "every number of columns, header, selection and override, and every row",
     "The tests have a handful of files with one to three columns; combinations of selection, overrides, prefix, several stores and resets are not tested.",
     ["src/mlio/csv_reader.cc", "include/mlio/csv_reader.h"],
     [("header", "src/mlio/csv_reader.cc: make_record_reader, read_names_from_header, reset"), ("names and types", "src/mlio/csv_reader.cc: infer_column_types, set_or_validate_column_names, apply_column_type_overrides"), ("selection", "src/mlio/csv_reader.cc: init_parsers_and_make_schema, should_skip"), ("tensors and rows", "src/mlio/csv_reader.cc: make_tensors, make_column_iterators, Decoder::decode_core")],
     PATHS + "; positions over the per-column tables are symbolic, every iteration over the columns is shown to visit all of them in order and to do to each table what the parameters ask for its column",
     "All paths of the steps that settle the columns and of the decoding of a row; the fields of a row are C19, the rows of a file C20, what a text means as a number C36.")

prop("C23", "Protobuf features are read exactly into their own attribute and row",
     "For any RecordIO-protobuf data, the values of a batch are those of the messages. The whole of an instance is parsed, and only a message that could be parsed is used. The schema inferred from the first instance has one attribute for every label (name prefixed with label_) and feature (own name), with the feature's data type, with the shape (batch size, dimensions) or, if it has none, (batch size, number of values), sparse exactly if it has keys, or has a shape but no values; a sparse feature without a shape and other kinds of values are refused. An instance is good only if every label and feature of it is known, is read for an attribute no other one of the instance was read for, has the attribute's data type, sparsity and shape, as many values as the attribute (dense) or as many keys as values with all keys valid (sparse), and if there is one for every attribute. The values of a dense feature are copied, all and in their own type, to the instance's row of its own attribute's tensor, whose first dimension is the size of the batch. The values of a sparse feature are appended to its own attribute's builder: each key is split into its row-major coordinates, each below its dimension, and is put at the instance's row; an instance that turns out to be bad leaves neither values nor coordinates nor a row behind; the tensor that is built has all values, all lists of coordinates in order, and the size of the batch. Instances with sparse features are never decoded in parallel.",
     ["inputs"], "every message, shape, key and mix of dense and sparse features",
     "The tests read three files of well-formed messages with fixed shapes; malformed shapes, keys, duplicates and higher ranks are not tested.",
     ["src/mlio/recordio_protobuf_reader.cc", "src/mlio/coo_tensor_builder.cc", "src/mlio/coo_tensor_builder.h", "src/mlio/detail/protobuf/recordio_protobuf.proto"],
     [("schema", "src/mlio/recordio_protobuf_reader.cc: infer_schema, make_attribute, copy_shape"), ("instance", "src/mlio/recordio_protobuf_reader.cc: Decoder::decode, decode_feature, is_sparse, shape_equals, copy_to_tensor, append_to_builder"), ("batch", "src/mlio/recordio_protobuf_reader.cc: decode, Decoder_state"), ("sparse tensors", "src/mlio/coo_tensor_builder.cc")],
     PATHS + "; what the decisions of each path establish about name, type, sparsity, shape and sizes is compared with the rule for features under every valuation that agrees with them",
     "All paths of the functions that infer, decode, append and build, in all instantiations for float32, float64 and int32; that the number of elements of a shape fits into a machine word is assumed.")

prop("C24", "Images are decoded, scaled and centre-cropped into their own slot of the batch",
     "An image reader yields one uint8 attribute and tensor of shape (batch, height, width, channels) made from image_dimensions (channels, height, width), of which there must be three; its buffer has one slot of that many bytes for every image of the batch. Every instance is decoded once, in order, into the next free slot: an image that was decoded uses up its slot, one that was refused does not. What is decoded is the whole instance, or with RecordIO framing the instance without its 24-byte header, which is skipped only if the instance is that long. One channel is decoded as grey, three as colour, four unchanged and only if the image has four channels of 8 bits. If resize is given the image is scaled so that its shorter edge has that size and its aspect is kept, and otherwise not scaled; red and blue are swapped exactly if to_rgb is given and there is more than one channel, which keeps the number of channels. The image is then cropped to height and width at its centre, and refused if it is smaller; the copy has the size and type of the slot, so that it fills the slot. Images are refused for no other reasons, and the pixels are changed by nothing else.",
     ["inputs"], "every image, image_dimensions, resize, to_rgb and image frame",
     "The tests decode a few 8-bit JPEG and PNG images of one or three channels and look at sizes; alpha channels, 16-bit images, mixed good and bad images and the position of the crop are not tested.",
     ["src/mlio/image_reader.cc", "include/mlio/image_reader.h"],
     [("schema and tensor", "src/mlio/image_reader.cc: infer_schema, make_tensor, the constructor"), ("slots", "src/mlio/image_reader.cc: decode"), ("image", "src/mlio/image_reader.cc: decode_core, decode_image, resize, crop")],
     PATHS + "; every cv::Mat is followed through the calls that make it with what the path established about its channels, depth and size, slots are compared by evaluating the position of the span before and after an iteration",
     "All paths of the functions of the image reader, for every number of channels and frame; OpenCV is taken to do what it documents.")

prop("C17", "Every data type means the same in C++, in Python buffers, NumPy and DLPack",
     "Each Data_type is one kind and width of number (size: the unsigned machine word; float16 is kept as 16 bits; string: text) and stays that on every way in and out. An array made for a data type has elements of its C++ type, as many as asked for, and reports that type; a copy of an array has its type and all its elements. DLPack gets code, bits and one lane of the type, the data pointer, number of dimensions, shape and strides (in elements) of the tensor itself, with byte offset 0; the structure keeps the tensor alive until its deleter is called, which lets go of it; tensors that are not dense, strings and other DLPack versions are refused. The Python buffer of an array has the format, item size, memory and number of items of its type, that of a dense tensor also its shape and its strides in bytes. A Python buffer becomes an array of the data type that its format and item size say, in native byte order only, and only if it is contiguous; with copy every item is copied, without it the writable memory itself is used and kept alive, which strings refuse. The names of data types in C++ and Python agree. NumPy arrays keep shape and layout, and sparse matrices their coordinates, when they are converted.",
     ["inputs"], "every data type, format, item size, shape and layout",
     "There are 13 data types, five representations and two directions; a wrong entry for one of them goes unnoticed unless a test uses that very type with values that show it, and most are never used in a test.",
     ["include/mlio/data_type.h", "include/mlio/cpu_array.h", "src/mlio/cpu_array.cc", "src/mlio/integ/dlpack.cc", "src/mlio-py/mlio/core/py_buffer.cc", "src/mlio-py/mlio/core/py_device_array.cc", "src/mlio-py/mlio/core/tensor.cc", "src/mlio-py/mlio/integ/numpy.py", "src/mlio-py/mlio/integ/scipy.py"],
     [("arrays", "src/mlio/cpu_array.cc: make_cpu_array; include/mlio/cpu_array.h: wrap_cpu_array, Cpu_array"), ("DLPack", "src/mlio/integ/dlpack.cc: as_dlpack, as_dlpack_op::visit, as_dl_data_type"), ("Python buffers", "src/mlio-py/mlio/core: to_py_buffer, get_data_type, make_device_array"), ("names", "operator<<(Data_type), DataType")],
     PATHS + "; what each path knows of the data type, or of the format of the buffer, is compared with the C++ type, code, width and format that it stores or answers (a table of types in the check); the syntax trees of the Python conversions",
     "All paths of the conversions for all data types and formats; pybind11 and DLPack's consumers are taken to do what they document.")

prop("C32", "Tensors, attributes, schemas and examples are consistent, or are not made",
     "Constructing one either yields an object whose parts agree or throws. Tensors and attributes have the shape, data type and data given and one stride per dimension; without strides they get those of a contiguous row-major array (last dimension 1, each other the next stride times the next size). A dense tensor's last element, as shape and strides place it, is within its data, and no stride of a dimension of more than one element is negative; a scalar or a tensor with an empty dimension needs no data. A COO tensor has one coordinate array per dimension, each as long as its data. A CSR tensor has at most two dimensions, one index per value and rows + 1 index pointers (a vector is one row). A schema refuses two attributes of one name and finds each by its exact name at its own position, others not at all. An example has a schema and one non-null feature per attribute; find_feature answers the one at the position of the attribute of that name, or nothing. Accessors answer what the object was made with, nothing changes it afterwards, equality compares all parts (schemas: all attributes, in order), != is its negation and equal attributes have equal hashes. A visitor is called with the tensor that accepts it, as its own kind; a kind that it does not handle goes to the general visit, which throws unless overridden.",
     ["inputs"], "every shape, strides, array sizes, attribute list and feature list",
     "Shapes, strides and array sizes are unbounded combinations; the tests make a few valid tensors and hardly any invalid one, and sizes at which a product overflows are not tried.",
     ["src/mlio/tensor.cc", "include/mlio/tensor.h", "src/mlio/schema.cc", "include/mlio/schema.h", "src/mlio/example.cc", "include/mlio/example.h", "include/mlio/device.h", "src/mlio/tensor_visitor.cc"],
     [("tensors", "src/mlio/tensor.cc: the constructors, default_strides, validate_data_size, accept"), ("schemas", "src/mlio/schema.cc: Attribute, Schema, get_index, operator==, hash"), ("examples", "src/mlio/example.cc: Example, find_feature")],
     PATHS + "; what a path that makes the object has established about the sizes of its parts is compared with what the object promises, loops are judged by what one iteration does to the values that it carries",
     "All paths of the constructors, accessors, comparisons and visitors; that the pointers to arrays that C++ code passes in are not null, and that sizes fit into a machine word, is assumed.")

prop("C29", "Names in Python mean their C++ counterparts",
     "What Python code calls by a name is what C++ calls by that name. Every enumerator, public class (with its public base classes), field of a parameter structure, attribute, constructor argument, factory function and argument of it is bound, under its own name in Python's spelling, to that very C++ member and no other; fields of parameter structures can be read and changed. An argument arrives at the C++ function, constructor or field it is named after, unchanged; an argument left out means the C++ default. All types that occur in bound signatures are known to Python. Methods that Python classes override are found under their own name and get the arguments of the C++ call, and their result is what C++ gets. Special methods keep their contracts: equality and hashes are those of C++, len counts the elements, in and [] look up by the given key and [] raises for what is missing, iteration yields one element per read and then StopIteration, with closes what it opened. The package exports everything that its extension module defines under its name, and log levels of C++ and Python's logging correspond.",
     ["inputs", "configurations"], "every name, argument, default and combination of arguments of the Python API",
     "The Python API has several hundred names; the Python tests use a few dozen of them with a few values, so a name bound to its neighbour or a dropped argument goes unnoticed.",
     ["src/mlio-py/mlio/core/data_reader.cc", "src/mlio-py/mlio/core/data_store.cc", "src/mlio-py/mlio/core/schema.cc", "src/mlio-py/mlio/core/example.cc", "src/mlio-py/mlio/core/tensor.cc", "src/mlio-py/mlio/core/record_reader.cc", "src/mlio-py/mlio/core/stream.cc", "src/mlio-py/mlio/core/logging.cc", "src/mlio-py/mlio/__init__.py"],
     [("registrations", "src/mlio-py/mlio/core: register_..."), ("factories", "src/mlio-py/mlio/core: make_... functions and lambdas bound to init"), ("trampolines", "src/mlio-py/mlio/core: Py_data_store, Py_input_stream, Py_device_array ..."), ("package", "src/mlio-py/mlio/__init__.py")],
     "queries over the type-checked syntax trees of the bindings (which name is registered for which declaration), exhaustive over the C++ classes, fields and enumerators they stand for; " + PATHS + " of the functions behind the names, with the values of arguments traced to the fields, parameters and calls they end in; the syntax tree of the package's Python code",
     "All registrations of the extension module and all paths of the functions bound; pybind11's own conversions are assumed.")

prop("C40", "C++ errors arrive in Python as their own class with message and causes",
     "Every class of errors of the C++ library has an exception of its name in Python, derived from that of its base class (MLIOError from RuntimeError). An error that leaves C++ is raised in Python as the exception of its own class, not of a base class, with the message of the error; an error of the operating system is raised as OSError with its error code and message. An error that was thrown while another one was handled has that one, translated by the same rules, as its __cause__, over the whole chain of causes; causes are of classes that Python knows, so that they cannot take the place of the error. References to the exception objects are handed over exactly where CPython takes them. In C++ an error keeps the message it was made with, and an error of the library that is replaced by another one is kept as its cause.",
     ["inputs", "faults"], "every error that the library can raise and every chain of causes",
     "Tests raise two or three of the errors and look at their class only; the translation of causes, of errors of the operating system and of the other classes is never run.",
     ["src/mlio-py/mlio/core/error.cc", "src/mlio-py/mlio/core/module.cc", "include/mlio/mlio_error.h", "include/mlio/data_reader_error.h", "include/mlio/record_readers/record_error.h", "include/mlio/streams/stream_error.h", "include/mlio/not_supported_error.h", "src/mlio/instance.cc", "src/mlio/instance_readers/core_instance_reader.cc"],
     [("classes", "src/mlio-py/mlio/core/error.cc: register_exceptions"), ("errors", "src/mlio-py/mlio/core/error.cc: the exception translator, set_error, set_system_error"), ("causes", "src/mlio-py/mlio/core/error.cc: throw_nested_error, set_nested_error, set_nested_system_error"), ("errors in C++", "src/mlio: handle_errors and other handlers that throw")],
     PATHS + ": one path for every handler; for every class of errors the first handler that takes it, and the values of the calls on its paths, decide",
     "All classes of errors of the library and std::system_error, all paths of the translator and of the translation of causes, all handlers of the library that throw.")

prop("C30", "Python objects are touched only with the GIL; calls that may wait give it up",
     "Whatever thread runs them, functions that C++ calls back (methods overridden in Python, log message handlers, destructors of blocks, arrays and handlers that hold Python objects) take the GIL before they touch a Python object and have given back all they hold of Python before they let go of it; code that runs while the GIL is given up touches no Python object and does not give it up a second time. Every function that Python can call and from which a wait can be reached - reading and peeking examples and records, reading the schema, resetting, iterating, opening and reading streams, analyzing a dataset - waits with the GIL given up, so that the threads it waits for can call into Python. The end of an object does not wait with the GIL held (known finding: the readers).",
     ["schedules", "faults"], "every thread that can run the code of the bindings, and every moment at which it may have to wait",
     "A missing GIL goes unnoticed unless two threads meet in the interpreter, and a wait with the GIL held deadlocks only if the thread waited for calls into Python at that moment; the tests use neither log handlers, nor Python streams, nor several threads.",
     ["src/mlio-py/mlio/core/data_reader.cc", "src/mlio-py/mlio/core/record_reader.cc", "src/mlio-py/mlio/core/data_store.cc", "src/mlio-py/mlio/core/stream.cc", "src/mlio-py/mlio/core/logging.cc", "src/mlio-py/mlio/core/py_buffer.cc", "src/mlio-py/mlio/core/py_memory_block.cc", "src/mlio-py/mlio/contrib/insights/module.cc"],
     [("called back from C++", "src/mlio-py/mlio/core: Py_data_store, Py_input_stream, Py_data_reader, Py_log_message_handler"), ("called from Python", "src/mlio-py/mlio/core/*.cc: register_*, Py_data_iterator, Py_record_iterator"), ("ends of objects", "src/mlio-py/mlio/core/py_memory_block.cc, py_buffer.cc, logging.cc"), ("waits", "src/mlio: everything from which a condition variable, a join, poll, read or open can be reached")],
     PATHS + ": the state of the GIL along every path of every function of the bindings (guards as objects with a lifetime, call_guard as state at entry), and the call graph of the library, overriders included, for what may wait",
     "All functions that override one of the library, all functions handed to the library, all registered functions, all destructors of the classes of the bindings.")

prop("C15", "Objects with shared ownership live exactly as long as something refers to them",
     "Every object that the library shares (data stores, readers, memory blocks, tensors, schemas, instances, examples, streams ...) is referred to as soon as it exists, has a count that is the number of pointers referring to it, and ends exactly once: as what it is, when the last of them lets go, even if several threads let go at once. Copies, moves, assignments (also of null, of itself, of a pointer to a derived class, or of a pointer that lives in the object given up) and exchanges of Intrusive_ptr keep that, leave the pointer referring to what it was given, and use nothing after its end. A copy of an object starts with references of its own.",
     ["inputs", "history", "schedules"], "every operation of the pointer on every arrangement of pointers and objects, every object made in the library and its bindings",
     "Wrong counts leak or end objects early only for particular arrangements (self-assignment, a list whose head moves on) or interleavings; tests do not look at the counts, and the effects of a use after the end are seldom seen.",
     ["include/mlio/intrusive_ptr.h", "include/mlio/intrusive_ref_counter.h", "src/mlio", "src/mlio-py", "src/mlio/arrow"],
     [("the pointer", "include/mlio/intrusive_ptr.h:Intrusive_ptr"), ("the count", "include/mlio/intrusive_ref_counter.h:intrusive_ptr_inc_ref, intrusive_ptr_dec_ref"), ("makers", "every make_intrusive, wrap_intrusive, new and release in src"), ("ends", "destructors of all classes that count references")],
     "abstract interpretation of the operations of the pointer over all small arrangements of pointers and objects in the heap (shapes), and " + PATHS + " for the count, for every object that is made and every reference that is adopted or given up",
     "All operations of Intrusive_ptr on all arrangements of up to three objects with pointers outside and inside them; all functions of the library and bindings that make, adopt or give up references; all counted classes.")

prop("C16", "Memory blocks hold the bytes they claim; slices stay within them",
     "The memory that a memory block hands out is alive and exactly as large as size() says, at the end of every constructor and of every resize, also of one that failed; a file behind a mapping is never smaller than the mapping. Blocks are made with the size asked for, by every allocator; resizing, also by resize_memory_block, gives the size asked for or an error and keeps the bytes that both sizes have room for, whether the block stays on the heap or moves to a file, which it does as soon as it exceeds the threshold. A slice is exactly the range asked for, lies within the slice it was cut from (other ranges are refused, valid ones are not) and shares the ownership of the block. Blocks over buffers of Python objects cover exactly their contiguous bytes.",
     ["inputs", "history", "faults"], "every sequence of resizes to any sizes, every failing system call within them, every slicing of every slice",
     "The tests use few sizes, do not resize file-backed or hybrid blocks, and no system call fails; a block that claims more than it has is read beyond its end only by particular sizes.",
     ["include/mlio/memory/memory_slice.h", "src/mlio/memory/memory_slice.cc", "src/mlio/memory/heap_memory_block.cc", "src/mlio/memory/file_backed_memory_block.cc", "src/mlio/memory/file_mapped_memory_block.cc", "src/mlio/memory/file_backed_memory_allocator.cc", "src/mlio/memory/util.cc", "src/mlio-py/mlio/core/py_memory_block.h"],
     [("slices", "include/mlio/memory/memory_slice.h:Memory_slice"), ("blocks", "src/mlio/memory/*_memory_block.cc: constructors, resize"), ("moving to a file", "src/mlio/memory/file_backed_memory_allocator.cc:Hybrid_memory_block"), ("resizing what cannot be resized", "src/mlio/memory/util.cc:resize_memory_block")],
     PATHS + ": the memory of the block is followed through realloc, mmap, mremap, munmap, free and ftruncate and compared with what data() and size() hand out at the end of the path; ranges of slices are compared, as linear terms, with what was asked for and with the bounds the path has established",
     "All classes derived from Memory_block and Memory_allocator, library and bindings; all functions of Memory_slice; all paths, those after failing calls included.")

prop("C28", "Python code cannot make the library use memory that is not there",
     "Every function of the binding refuses None where it needs an object (constructors that take streams, schemas, clients; a dataset with None in it), a data store written in Python opens a stream or fails, and an input stream written in Python never reports more bytes than it was asked for. Memory that is const in C++ is shown to Python read-only and with its own size; whatever refers to memory of a tensor or reader (arrays, iterators, and their copies) keeps that tensor or reader alive; no function hands out bare pointers, and nothing that is const in C++ (schemas, their attributes) can be altered through a reference handed to Python.",
     ["inputs", "history"], "every argument Python can pass, every answer Python code can give, every order in which Python drops its references",
     "A test would have to pass None at every place and drop references in every order, and reading freed memory mostly still finds the old bytes there.",
     ["src/mlio-py/mlio/core/stream.cc", "src/mlio-py/mlio/core/data_store.cc", "src/mlio-py/mlio/core/data_reader.cc", "src/mlio-py/mlio/core/record_reader.cc", "src/mlio-py/mlio/core/example.cc", "src/mlio-py/mlio/core/schema.cc", "src/mlio-py/mlio/core/tensor.cc", "src/mlio-py/mlio/core/py_device_array.h", "src/mlio-py/mlio/core/memory.cc", "src/mlio/data_reader_base.cc", "src/mlio/record_readers/stream_record_reader.cc", "src/mlio/example.cc", "src/mlio/data_stores/s3_object.cc"],
     [("streams written in Python", "src/mlio-py/mlio/core/stream.cc:Py_input_stream::read"), ("stores written in Python", "src/mlio-py/mlio/core/data_store.cc:Py_data_store::open_read"), ("arrays", "src/mlio-py/mlio/core/py_device_array.h:Py_device_array"), ("iterators", "src/mlio-py/mlio/core/data_reader.cc:Py_data_iterator, record_reader.cc:Py_record_iterator, example.cc:__iter__"), ("datasets", "src/mlio/data_reader_base.cc:Data_reader_base")],
     PATHS + ": every constructor and function that Python reaches is followed with a null pointer for each pointer parameter; overrides that call into Python are followed to what they return, and counts compared with the size asked for; the fields of the objects handed to Python are traced back to the object they came from; registered return types are read from the type-checked syntax trees",
     "All registrations of the binding (classes, functions, properties, buffers), the functions, lambdas and constructors behind them, and all overrides that call into Python.")

prop("C34", "The data insights report what the cells of a column say, in any batches",
     "Every cell of a column is counted as exactly what it is: as a row, as empty, as whitespace only, as null-like, as a number or as what is not one, as finite. The shortest and greatest lengths, the least and greatest finite numbers, the sample for the median and the first captured values with their frequencies (and whether there were more) follow from all cells; the averages are those over everything seen, however the rows were batched, and NaN or 0 when nothing was seen. Every example is analyzed once, a feature only in its own column, and what does not fit the columns or is not a dense tensor of strings is refused. Every statistic is reported under its own name; the estimators never compute undefined values.",
     ["inputs", "history"], "every cell, every division of the rows into batches, every number of values to capture",
     "No test covers the insights; a test samples a few cells in a few batches, while a counter that misses one combination (an infinite number that is also null-like, a batch without numbers, a value repeated after the limit) stays plausible.",
     ["src/mlio-py/mlio/contrib/insights/column_analyzer.cc", "src/mlio-py/mlio/contrib/insights/module.cc", "src/mlio-py/mlio/contrib/insights/column_statistics.h", "src/mlio-py/mlio/contrib/insights/utils.cc", "src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc"],
     [("cells and averages", "src/mlio-py/mlio/contrib/insights/column_analyzer.cc:Column_analyzer::analyze"), ("the dataset and the names", "src/mlio-py/mlio/contrib/insights/module.cc:analyze_dataset, PYBIND11_MODULE"), ("null-like values", "src/mlio-py/mlio/contrib/insights/utils.cc:match_nan_values"), ("estimators", "src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc:HyperLogLog")],
     PATHS + ": one iteration of the loop over the cells, from any state of the statistics, is followed on all its paths; each path is classified by what it asked about the cell, and what it does to every statistic compared with what that class asks; the averages after the loop are compared, as fractions of polynomials over what the cells added to the accumulators, with the averages over everything seen",
     "All paths of one cell, one feature and one example; all statistics; all names the insights module registers. How whitespace and numbers are told (mlio::is_whitespace_only, try_parse_float) and how near the HyperLogLog estimates come is not judged.")

prop("C35", "What several threads share is not changed without synchronisation",
     "Any number of readers may be used by different threads, share data stores, schemas, tensors and memory, decode batches and log at once without a data race: every variable the whole process shares is thread-local, atomic, or only used while one and the same lock is held; the concurrent decoders of a reader and the concurrent bodies of its loops change nothing they share with each other except atomically; parsers that are handed out keep no state they change; the const operations of objects that may be shared change nothing of the object; and no function with hidden shared state is called. Exempt are the functions that set the library up.",
     ["schedules", "history"], "every interleaving of threads that use the library, all of its global and static variables and all of its const operations",
     "A data race shows only when two threads touch the same place at the same moment; a test that passes a thousand times says nothing about the next schedule.",
     ["src/mlio/logger.cc", "src/mlio/csv_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/image_reader.cc", "src/mlio/parser.cc", "src/mlio/data_stores/*.cc", "src/mlio/streams/sagemaker_pipe_input_stream.cc", "include/mlio/*.h"],
     [("the log handler and level", "src/mlio/logger.cc:msg_handler_, level_"), ("concurrent row decoding", "src/mlio/csv_reader.cc:Csv_reader::decode_prl"), ("one message per thread", "src/mlio/recordio_protobuf_reader.cc:proto_msg_"), ("parsers", "src/mlio/parser.cc:make_parser"), ("data stores", "include/mlio/data_stores/in_memory_store.h:In_memory_store::id"), ("the table of pipes", "src/mlio/streams/sagemaker_pipe_input_stream.cc:exchange_fifo_id")],
     "effect analysis: which memory each function may write is summarised bottom-up over the call graph (all overriders of virtual calls), in terms of its object, arguments, captured variables and globals, with the locks held there; every write of a shared place and, for shared variables that are changed, every use has to be synchronised",
     "All functions of the library in the core build (not the Python binding, which runs under the GIL). Elements of a container selected by an index are taken as distinct; streams, readers and instances are used by one thread at a time; the state a reader shares with its background thread is C02's.")

prop("C36", "Text becomes exactly the number it denotes, or is refused",
     "For every field, column type and parser option: a field is stored as a number only if the whole field, but for white space around it, was read as a number of the column's type in the base asked for (a plus sign is allowed), and what is stored is that number; a number outside the range of the type is reported as out of range and never wrapped, clipped or turned into an infinity; everything else is refused as malformed, in which case the destination is untouched; a floating-point field is a NaN if and only if it is no number and, without the white space around it, one of the NaN values asked for; a string column holds the field as it is; types that cannot be parsed are refused. The type inferred for a field is the first of int64, uint64 and float64 whose parser accepts it, else string.",
     ["inputs"], "every text, every column type make_parser() can be asked for, every number base and set of NaN values, and the public number parsing functions",
     "Texts are unbounded and the failures sit at rare ones: the edge of a type's range, a base other than ten, a sign or white space in an odd place. The tests parse a handful of well-formed numbers in base ten.",
     ["src/mlio/util/number.cc", "include/mlio/util/number.h", "src/mlio/parser.cc", "src/mlio/data_type.cc"],
     [("integers", "src/mlio/util/number.cc:try_parse_int_core"), ("floating point and NaN values", "src/mlio/util/number.cc:try_parse_float_core"), ("one parser for each type", "src/mlio/parser.cc:make_parser_core"), ("inference", "src/mlio/data_type.cc:infer_data_type")],
     "path-sensitive abstract interpretation of every parser make_parser() returns, down to the library's number parsing functions (std::from_chars, absl::SimpleAtof/SimpleAtod): each path's result, reason of refusal and writes are compared with the facts the path established about the text, the library's answer and the number's range",
     "All 13 parsers, the public try_parse_* functions for every element type and infer_data_type(), all paths. The library's parsing functions and mlio::trim() are taken to do what they document; which characters count as white space is trim()'s; the nearest representable value of a decimal fraction is absl's.")

prop("C18", "Data is decompressed and decoded as store and reader say, from its first byte",
     "For every store, compression, encoding and content: a store hands out its bytes decompressed as its compression says, where a compression left to be inferred is that of the name's ending (.gz, .bz2, .zip; nothing otherwise), the same whether the file is mapped or read, and a compression that is not supported is refused rather than handed out as it is. Readers of text hand out UTF-8: an encoding asked for is the one converted from, otherwise the encoding is the one the byte order mark at the start stands for (UTF-8, UTF-16 and UTF-32 of either byte order) and UTF-8 if there is none; only UTF-8 is handed out as it is. Looking for the mark needs as many bytes as the longest mark or the whole stream, however it is cut into pieces, and loses, adds and repeats nothing: a seekable stream starts over, and of any other the bytes read beforehand, and only those, come first.",
     ["inputs"], "every name, compression, encoding and first bytes; seekable and other streams; every way in which a stream cuts its bytes into pieces",
     "Names, contents and the sizes of the pieces a pipe delivers are unbounded, and each store and encoding crosses each kind of stream. The tests read a few small files, none of them with a mark and none of them through a stream that cannot be rewound.",
     ["src/mlio/data_stores/compression.cc", "src/mlio/data_stores/detail/util.cc", "src/mlio/data_stores/file.cc", "src/mlio/data_stores/in_memory_store.cc", "src/mlio/data_stores/sagemaker_pipe.cc", "src/mlio/data_stores/s3_object.cc", "src/mlio/streams/utf8_input_stream.cc", "src/mlio/streams/detail/iconv.cc", "src/mlio/text_encoding.cc", "src/mlio/csv_reader.cc", "src/mlio/text_line_reader.cc"],
     [("the compression of a name", "src/mlio/data_stores/detail/util.cc:infer_compression"), ("stores", "src/mlio/data_stores/file.cc:File::open_read"), ("decompression", "src/mlio/data_stores/compression.cc:make_inflate_stream"), ("marks", "src/mlio/streams/utf8_input_stream.cc:infer_bom_encoding"), ("conversion", "src/mlio/streams/utf8_input_stream.cc:make_utf8_stream"), ("bytes read beforehand", "src/mlio/streams/utf8_input_stream.cc:Utf8_input_stream::set_preamble")],
     "path-sensitive abstract interpretation of the functions that choose how a source is read (stores, inference of compression and encoding, construction of the decoding streams): what each path hands out is compared with what it established about the name, the first bytes, the compression, the encoding and the stream",
     "All paths of the stores' constructors and open_read(), infer_compression() and make_inflate_stream(), infer_bom_encoding(), make_utf8_stream(), set_preamble() and the readers that call it, the direction of the converter and the names of the encodings. The streams on top of each other are C12's; zlib and iconv are taken to do what they document.")

prop("C33", "File lists hold exactly the matching files, in a fixed natural order",
     "For every set of paths, directory tree, pattern, predicate and options: list_files() returns exactly the files that lie under the paths (links are followed, nothing that is not a file is listed, no path is passed over and none is listed twice for one path given) whose path matches the pattern, if there is one, and is accepted by the predicate, if there is one; an entry that cannot be read makes it fail rather than go missing, and no other entry does. The entries of every directory come in natural order (a2 before a10), which depends on their names alone and not on how the directory is laid out. Each file is the one that was looked at, read with the memory mapping and compression asked for. The same holds for list_s3_objects() and the objects under the URIs given, sorted as a whole. The shorter forms and the Python functions hand on everything they are given.",
     ["inputs"], "every tree, list of objects, pattern, predicate and set of options",
     "Directory trees and patterns are unbounded, the failures sit at links, unreadable entries and names that compare the same, and the order of a directory is the file system's. The tests list one directory with a handful of plain files, and no S3 bucket.",
     ["src/mlio/data_stores/file_list.cc", "src/mlio/data_stores/s3_object.cc", "src/mlio-py/mlio/core/data_store.cc"],
     [("files", "src/mlio/data_stores/file_list.cc:list_files"), ("order", "src/mlio/data_stores/file_list.cc:natural_sort"), ("objects", "src/mlio/data_stores/s3_object.cc:list_s3_objects"), ("Python", "src/mlio-py/mlio/core/data_store.cc:py_list_files")],
     "path-sensitive abstract interpretation of the listing functions: what each path does with an entry (lists it, leaves it out, fails) is compared with what it established about the entry's kind, the pattern and the predicate; the comparison functions and the calls that hand options on are checked path by path",
     "All paths of list_files(), list_s3_objects(), the callback that collects objects, both comparison functions, the shorter forms and the Python functions. fts, fnmatch() and the natural comparison are taken to do what they document; which objects a bucket has is S3's answer.")
