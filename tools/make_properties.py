"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            observe_at=observe, hook_needed=None)))

p("C01", "Every intact RTCM3 frame is extracted exactly once, in order, unaltered",
  "For any byte stream, the messages extracted are exactly those of the left-to-right scan in which a frame is 0xD3, six zero bits, a 10-bit payload length (0..1023), the payload and a matching 24-bit CRC: scanning resumes right after an accepted frame, and one byte further after a rejected candidate. Each frame is delivered byte-identical, once, in stream order, whatever garbage, false preambles, corrupted or truncated frames surround it. The only frames that may be withheld are those lying behind the start of a candidate that is still incomplete when the input ends.",
  ["inputs"], "all byte streams: clean, garbage, 0xD3-rich noise, corrupted, truncated, nested and maximum-length frames",
  "The tests feed a handful of clean recorded files; none contains noise, false preambles, nested frames or payloads of every length.",
  ["decoder_top.py", "utilities/CRC24Q.py", "utilities/bits.py"],
  [("synchronisation scan and CRC test", "decoder_top.py: DecoderTop.catch_message"), ("message length and CRC fields", "decoder_top.py: mlen, mcrc")],
  ["list of messages returned when bytes are fed", "records in output files"],
  [("unparsed tail", "bytes kept between feeds", "decoder_top.py: _tail")])

p("C02", "Extraction does not depend on how the byte stream is split into chunks",
  "Feeding a stream in any sequence of chunks (one byte at a time, empty chunks, splits inside the preamble, length, payload or CRC, one huge chunk) yields the same messages in the same order and the same parsing-error count as any other split of the same bytes. Each message is delivered by the call that supplies the last byte needed to recognise it, and a file's output does not depend on where its messages lie relative to the reader's block boundaries.",
  ["inputs", "schedules"], "all streams and all partitions of them into feeds",
  "Files are read in one fixed block size by the tests, so splits land on a few arbitrary positions only.",
  ["decoder_top.py", "run_conversion.py"],
  [("tail kept between calls", "decoder_top.py: catch_message"), ("block reader", "run_conversion.py: decode_rtcm_file")],
  ["messages returned per feed", "statistics after each feed", "output files for shifted inputs"],
  [("resynchronisation flags", "skipped bytes / synchronised state", "decoder_top.py")])

p("C03", "Conversion statistics and the final verdict account for every message",
  "After any history, decoding attempts equal the number of extracted frames whose message number the mode supports, decoding errors those of them that gave no result, parsing errors the number of gaps with skipped bytes between consecutive extracted frames, printing attempts the number of decoded results, and printing errors those not saved. The progress line of the log shows these numbers for the whole file, and the log ends with 'Finished without errors.' exactly when parsing, decoding and printing errors are all zero, with 'Finished with errors.' when any is not, and with 'Decoding was terminated.' when the conversion was aborted.",
  ["inputs", "histories", "fault_sequences"], "all message mixes, corruptions, modes and abort points",
  "No test reads the statistics or the log.",
  ["decoder_top.py", "printer_top.py", "converter_top.py", "run_conversion.py"],
  [("attempt/success counters", "decoder_top.py: decode; printer_top.py: print"), ("statistics", "converter_top.py: Converter.get_statistics"), ("verdict", "run_conversion.py: main")],
  ["get_statistics()", "log file"])

p("C04", "The frame checksum is CRC-24Q and no corrupted frame is ever accepted",
  "The checksum computed over any byte string is the CRC-24Q of RTCM 10403 (polynomial 0x1864CFB, initial value 0, no reflection). A frame altered outside its length field by any single-bit error, any two-bit error, any odd number of bit errors, any burst of at most 24 bits, a swap of its bytes or a wrong checksum is never delivered, while every frame whose checksum matches is.",
  ["inputs"], "all byte strings up to a maximum frame, and all error patterns the code is designed to detect",
  "Test data hold valid checksums only; a checker that accepts too much passes them.",
  ["utilities/CRC24Q.py", "decoder_top.py"],
  [("table-driven CRC", "utilities/CRC24Q.py: calc"), ("comparison over header and payload", "decoder_top.py: mcrc")],
  ["CRC24Q.calc()", "messages extracted from corrupted streams"])

p("C05", "Bit-field extraction is exact at every offset and width",
  "For any buffer, offset and width of 1 to 128 bits inside it, unsigned extraction returns the big-endian value of exactly those bits, signed extraction their two's-complement value, and the reversing functions the selected bits in mirrored order. An extraction outside the buffer or with a width out of range raises the library's bit error and never returns a value; so does reversing beyond 128 bits.",
  ["inputs"], "all buffers, offsets and widths",
  "Tests use the functions at the few offsets and widths of recorded messages.",
  ["utilities/bits.py"],
  [("bit accumulation and masking", "utilities/bits.py: getbitu, getbits, revbitu, revbits")],
  ["Bits.getbitu/getbits/revbitu/revbits"])

p("C06", "Bare MSM output reproduces every transmitted field bit for bit",
  "For every well-formed MSM1..MSM7 message of the seven constellations, JSON-B output (and the bare decoding result behind it) contains every header, satellite and signal field with exactly the integer that was transmitted, in transmission order, satellite, signal and cell masks being shown with satellite/signal/cell 1 in the lowest bit. This holds for every mask combination of up to 64 cells, including a message without satellites, and irrespective of reserved and padding bits.",
  ["inputs"], "7 constellations x 7 message types x all masks and field values",
  "Tests cover MSM5 and MSM7 samples in scaled modes; bare MSM output and MSM1-4 and MSM6 are never exercised.",
  ["sub_decoders/RTCM_MSM.py", "gnss_types/observables.py", "printers/json_printer.py"],
  [("field extraction", "sub_decoders/RTCM_MSM.py: BareObservablesMSM17Decoder"), ("serialisation", "printers/json_printer.py: BareObservablesMSMtoPrintBuffer")],
  ["JSON-B files", "converter.decode() result in JSON-B mode"])

p("C07", "Scaled MSM observables have the standard's value under the right sat/signal",
  "For every well-formed MSM1..MSM7 message using signals the converter knows, each valid cell yields code range and phase range in metres ((rough + fine) milliseconds x 299792.458 m), phase rate in m/s, lock time in ms, carrier-to-noise ratio in dB-Hz and the half-cycle flag, with the scale factors of RTCM 10403 for that message type, filed under the satellite number and RINEX signal code given by the masks. Header and auxiliary data (time, GLONASS day, satellite list, signals with carrier frequencies, station id, clock and smoothing indicators) are those of the same message, and nothing is reported for cells or observable types that were not transmitted.",
  ["inputs"], "7 constellations x 7 message types x all masks, signals and field values",
  "Tests cover a few MSM5/MSM7 epochs with typical values of five constellations.",
  ["sub_decoders/RTCM_MSM.py", "utilities/RTCM_utilities.py", "printers/json_printer.py"],
  [("scaling and cell attribution", "sub_decoders/RTCM_MSM.py: Bare2Scaled"), ("tables", "utilities/RTCM_utilities.py: MSMT")],
  ["JSON files", "converter.decode() result in JSON mode"])

p("C08", "Invalid-value markers suppress exactly the affected MSM observable",
  "A fine range, fine phase range or fine phase rate carrying the 'invalid' code, or a satellite whose rough range (255) or rough phase rate (-8192) is invalid, leaves precisely the observables that depend on it absent from every output (missing in JSON, NaN in MARGO); it never produces a number. All other observables of the same cell, satellite and message stay present with correct values, and codes adjacent to a marker are ordinary values. (A phase of an MSM3 cell whose range is invalid may be given or omitted.)",
  ["inputs"], "all placements of the invalid codes over cells, satellites, fields, constellations and MSM types",
  "Recorded samples hardly contain invalid markers and assertions compare typical epochs only.",
  ["sub_decoders/RTCM_MSM.py", "utilities/RTCM_utilities.py", "printers/margo_printer.py"],
  [("validity tests", "utilities/RTCM_utilities.py: isDF4xx_OK; sub_decoders/RTCM_MSM.py: _convert_obs47, _convert_obs13")],
  ["JSON and MARGO files", "converter.decode() result"])

p("C09", "Ephemeris messages decode to the exact transmitted and scaled parameters",
  "For every message 1019, 1020, 1041, 1042, 1044, 1045 and 1046 of full length and any field values, JSON-B gives each field as the transmitted integer (two's complement, or sign-magnitude for GLONASS) and JSON gives it in the units and with the scale factor of RTCM 10403, every field under its own name. Each message yields exactly one record in the file of its type.",
  ["inputs"], "7 message types x all values of all fields",
  "One recorded sample per type (none for 1044), so wrong widths, signs or scales of fields that happen to be zero or positive there stay unseen.",
  ["sub_decoders/RTCM_EPH.py", "gnss_types/ephemeris.py", "printers/json_printer.py"],
  [("field layout and scaling", "sub_decoders/RTCM_EPH.py: __decodeNNNN, __scaleNNNN")],
  ["JSON and JSON-B EPH files", "converter.decode() result"])

p("C10", "Base-station messages decode to the exact transmitted and scaled content",
  "For every well-formed message 1005, 1006, 1007, 1008, 1013, 1029, 1033 and 1230, JSON-B gives each field as the transmitted integer (text as its bytes in hexadecimal) and JSON gives metres, seconds, booleans, verbal codes and the UTF-8 text itself. This includes empty and longest strings, negative coordinates, any announcement count of 1013 (also when it is to be derived from the length) and any subset of 1230 biases.",
  ["inputs"], "8 message types x all values, string lengths, counts and validity masks",
  "One sample per type (none for 1008, 1013; all-zero biases for 1230).",
  ["sub_decoders/RTCM_BASE.py", "gnss_types/base_station.py", "printers/json_printer.py"],
  [("field layout and scaling", "sub_decoders/RTCM_BASE.py: __decodeNNNN, __scaleNNNN")],
  ["JSON and JSON-B BASE files", "converter.decode() result"])

p("C11", "A malformed message is rejected and counted, never decoded into data",
  "A frame with a valid CRC and a supported number whose payload cannot be right for that number (MSM or base-station message longer or shorter than its own masks and counts require, ephemeris shorter than its layout, more than 64 MSM cells, satellites without signals or without cells) gives no result and no output record and counts as exactly one decoding error. Messages before and after it in the stream are decoded and saved exactly as if it were absent.",
  ["inputs", "histories"], "all supported numbers x truncations, extensions and inconsistent masks x positions in a stream",
  "Tests contain well-formed messages only.",
  ["sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "decoder_top.py"],
  [("length checks", "sub_decoders: __length_check, __extract_*"), ("error containment", "decoder_top.py: catch_decoder_exceptions")],
  ["converter.decode() result", "statistics", "output files"])

p("C12", "No input can crash the converter or make it stop early",
  "For any file content (random bytes, mutated recordings, frames of any message number and length with random payloads) in any mode and configuration, the conversion of the file terminates, processes the input to its end without an escaping exception or an abort, reports a final verdict, and leaves only well-formed output files. Messages of unsupported numbers are skipped without any error or output.",
  ["inputs", "configurations"], "all file contents, modes and option settings",
  "Tests never feed damaged or unsupported input.",
  ["run_conversion.py", "decoder_top.py", "sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py"],
  [("exception containment", "decoder_top.py: catch_decoder_exceptions; utilities/bits.py: catch_bits_exceptions; run_conversion.py: decode_rtcm_file")],
  ["log verdict and progress", "output tree", "exceptions leaving main()"])

p("C13", "JSON output: one valid document per message type, records once and in order",
  "Every JSON and JSON-B product is a single valid UTF-8 JSON array at <subset>/<name of the message type>.json whose first element names the source type and whose further elements are the decoded messages of that number, each once and in stream order, MSM records keyed by the epoch time in ms (plus day x 86400000 for GLONASS in scaled output); no file exists for a type without decoded messages. The documents are also complete and valid when the conversion is interrupted by the user or by an error between two messages, then holding the records printed so far.",
  ["inputs", "histories", "crash_points"], "all message sequences, modes, and interruption points between messages",
  "Tests load files made from one message type each and never interrupt a run.",
  ["printers/json_printer.py", "run_conversion.py", "printer_top.py"],
  [("file table keyed by message number", "printers/json_printer.py: __append, __close"), ("release in finally", "run_conversion.py: decode_rtcm_file")],
  ["JSON files parsed after the run"],
  [("open files", "message number to file", "printers/json_printer.py")])

p("C14", "MARGO products: right files, header, columns and one row per message",
  "MSM data go to <GNSS>/<G><type><signal>_<MSMn>.obs with types C, L, D and S always, T only with lock time enabled and A only with half-cycle indication enabled. Each file has a header row (type id and satellite numbers 1..N), a frequency row (band centre and the carrier of every satellite) and one row, in stream order, per message that carries at least one such observable of that signal: the time, then one column per satellite of the constellation (32, 24, 36, 38, 5, 37, 14 for G, R, E, S, Q, B, I) in fixed width and precision, with NaN exactly where no value is available.",
  ["inputs", "configurations", "histories"], "all message sequences, constellations, signals, MSM types and option settings",
  "Tests compare a few recorded epochs per constellation under default options.",
  ["printers/margo_printer.py", "converter_top.py"],
  [("print buffer and header", "printers/margo_printer.py: MargoCore"), ("file table", "printers/margo_printer.py: PrintMARGO")],
  ["directory tree and .obs files"])

p("C15", "MARGO values are the decoded observables in MARGO units",
  "In every MARGO row, column N holds for satellite N: code range in m, carrier phase in cycles (phase range / wavelength), Doppler in Hz (minus phase rate / wavelength), C/N0 in dB-Hz, lock time in s and half-cycle flag 0/1, to the printed precision; the wavelength is that of the signal, for GLONASS shifted by the satellite's frequency number from the configuration (0.5625 MHz steps on L1, 0.4375 MHz on L2). With half-cycle indication disabled, a phase flagged ambiguous is NaN; with it enabled the phase is printed and its flag is 1.",
  ["inputs", "configurations"], "all observables, satellites, signals, frequency numbers and option settings",
  "Tests check some recorded epochs with the default frequency table.",
  ["printers/margo_printer.py", "utilities/RTCM_utilities.py"],
  [("unit conversion", "printers/margo_printer.py: ObservablesMSMtoPrintBuffer, make_lambdas, make_crr_frq")],
  ["values in .obs files"])

p("C16", "MARGO time is GPS time of week, wrapped correctly for every constellation",
  "The time of every MARGO row is the GPS time of week in ms of the message epoch, in 0..604799999: unchanged for GPS, Galileo, SBAS, QZSS and NavIC, BeiDou time plus 14 s, and for GLONASS day of week and Moscow time of day minus 3 h plus the configured leap-second shift, both modulo one week. This holds for every epoch of the week including the roll-over instants, and for every day 0..6.",
  ["inputs", "configurations"], "all epochs of the week x constellations x leap-second shifts",
  "Samples cover a few epochs, none near a day or week boundary.",
  ["printers/margo_printer.py", "gnss_types/observables.py"],
  [("time conversion", "printers/margo_printer.py: conv_to_gps_time"), ("GLONASS day and time split", "gnss_types/observables.py")],
  ["first column of .obs files"])

p("C17", "JARGO output equals MARGO observables plus JSON ephemeris and base data",
  "For any input, a JARGO conversion produces exactly the .obs files of a MARGO conversion and exactly the EPH and BASE files of a JSON conversion of the same input and settings, with identical content, and nothing else but its log. Converting the same file again gives identical products.",
  ["inputs", "configurations"], "all inputs and option settings",
  "No test runs JARGO.",
  ["converter_top.py", "printer_top.py", "printers/json_printer.py", "printers/margo_printer.py"],
  [("dispatch of results to sub-printers", "printer_top.py: print; converter_top.py: strategy_RTCM3_to_JARGO")],
  ["three output trees compared"])

p("C18", "Each option has exactly its documented effect; ini overrides defaults",
  "A setting given in the file passed with -i overrides the same setting of defaults.ini for every source of that run, all settings it does not mention keep their default, and nothing carries over to a later run. HCA, LOCK_TIME, GPS2UTC and the GLONASS frequency numbers affect only MARGO files, the header and auxiliary switches add or remove only the corresponding part of JSON MSM records, and the pretty-view switch changes white space only; without valid defaults nothing is converted and the log says so.",
  ["configurations", "histories"], "all combinations of options, partial ini files, modes and run sequences",
  "Tests run with the default configuration only.",
  ["controls.py", "run_conversion.py", "printers/json_printer.py", "printers/margo_printer.py"],
  [("ini reading", "controls.py: ConverterControls")],
  ["outputs under option combinations", "boxed controls"])

p("C19", "Sources of one run are independent; only their own product folders change",
  "Converting several files in one run gives for each exactly the products and log of converting it alone, in any order, after any other run in the same process, and even when another source is missing, empty, damaged or aborts. Everything is written in <source stem>-<MODE> beside the source (products plus <stem>-log.txt), stale content of that folder is gone, and source files and everything else in the file system stay untouched.",
  ["histories", "inputs", "fault_sequences"], "all batches, orders, modes and pre-existing directory contents",
  "Each test converts one file at a time.",
  ["run_conversion.py", "logger.py", "converter_top.py"],
  [("per-file converter, logger and folder", "run_conversion.py: main, create_work_folder; logger.py")],
  ["directory snapshots before and after", "log files"])

p("C20", "A message decodes the same whatever was decoded before it",
  "The result of decoding a message depends only on its bytes and the mode: it is the same in a fresh converter, after any sequence of other messages (valid, malformed, of the same or other numbers, thousands of them), when repeated, and alongside other converters in the process. Results already returned are never altered by later decoding.",
  ["histories", "inputs"], "all histories of messages preceding a message",
  "Tests decode a few messages with fresh state and look at results immediately.",
  ["sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "gnss_types/observables.py", "gnss_types/base_station.py"],
  [("fresh result object per message", "sub_decoders: decode")],
  ["converter.decode() results compared across histories"])

p("C21", "Memory kept by the converter does not grow with the input",
  "However long the stream and whatever it contains (garbage without preamble, endless false preambles, valid traffic), the data retained between two feeds is bounded by one incomplete maximum-size frame (1029 bytes) plus a constant, and nothing of already extracted or discarded input is kept. Likewise the number of open output files never exceeds the number of distinct products, and all are closed when the conversion of a file ends.",
  ["inputs", "histories"], "all stream lengths and contents",
  "Test inputs are short.",
  ["decoder_top.py", "printers/json_printer.py", "printers/margo_printer.py"],
  [("tail trimming", "decoder_top.py: catch_message"), ("release", "converter_top.py: Converter.release")],
  ["bytes reachable from the converter between feeds", "open file descriptors"])

p("C22", "Record comparison and copying are exact",
  "Comparing two decoded records is true exactly when they are of compatible type and all fields agree: integers and strings exactly, floats of either sign within the given relative tolerance (1e-15 when none is given; absolute for references below the tolerance), NaN only with NaN, containers element by element with equal sizes and keys. A copy equals its original field by field, and changing a deep copy (including its nested containers) never changes the original, nor vice versa.",
  ["inputs"], "all record types, field values, perturbations and tolerances",
  "The tests use compare only as their own oracle, on equal records.",
  ["gnss_types/data_class_methods.py"],
  [("recursive comparison", "gnss_types/data_class_methods.py: compare"), ("copying", "gnss_types/data_class_methods.py: copy, deepcopy")],
  ["compare(), copy(), deepcopy(), items(), len()"])

p("C23", "Selecting sources from a directory converts exactly the chosen files",
  "Given a directory, exactly the files (hidden ones aside) with the requested extension (default rtcm3) directly in it are offered, each numbered once, and exactly those whose numbers are entered are converted; numbers out of range select nothing and non-numeric input converts nothing. Given files, exactly the existing ones are taken, in the given order, whatever their extension, and missing ones are reported and skipped.",
  ["inputs", "configurations"], "all directory contents, names, extensions, answers and argument lists",
  "No test uses the directory mode or several arguments.",
  ["run_conversion.py"],
  [("source selection", "run_conversion.py: make_list_of_source_files")],
  ["returned list", "folders produced by a run"])

p("C24", "Failing output is reported, contained and never passed off as success",
  "If an output file or folder cannot be created, every message that should have gone there counts as a printing error, is logged, and all other products are complete and correct; if reading the source or writing a product fails, the conversion of that file is reported as terminated. In no such case does the log say 'Finished without errors.', and the remaining sources of the run are still converted correctly.",
  ["fault_sequences", "inputs"], "every creation, read, write and close step of a run as the failing one",
  "No test injects I/O failures.",
  ["run_conversion.py", "printers/json_printer.py", "printers/margo_printer.py", "printer_top.py"],
  [("assertion to printing error", "printer_top.py: catch_printer_asserts"), ("exception handling", "run_conversion.py: decode_rtcm_file")],
  ["log, statistics and products under injected faults"])

p("C25", "Message, signal, frequency and lock-time tables follow the standard",
  "Every message number 0..4095 is classified to the right constellation and subset (or none), every MSM signal number of every constellation to its RINEX code (or none), every known RINEX code to its carrier frequency, and every lock-time indicator, clock and smoothing code to its RTCM 10403 meaning. The converter attempts to decode exactly the numbers it documents (MSM1-7 of seven constellations, seven ephemeris and eight base-station messages, only MSM in MARGO mode).",
  ["inputs"], "the complete code spaces, enumerated",
  "Tests touch the entries used by the recorded samples.",
  ["utilities/RTCM_utilities.py", "decoder_top.py", "printers/json_printer.py"],
  [("tables", "utilities/RTCM_utilities.py"), ("message lists", "decoder_top.py: SubDecoderInterface")],
  ["classification functions", "decode attempts per message number"])

p("C26", "The command line does what its documented options say",
  "Every documented option, in any spelling (short, long, '=' form) and order, converts exactly the given sources in the requested mode (MARGO when none is given), with the same result whether the arguments come from the shell, from the process argument list or from a string. A malformed command line (unknown option or mode, missing value, no source) ends with exit code 2 and a usage message, help and version requests end with exit code 0, and neither creates or changes any file.",
  ["inputs", "configurations"], "all combinations, orders and spellings of options and sources, valid and invalid",
  "Tests pass a few fixed argument strings and never run the program as a process.",
  ["run_conversion.py"],
  [("argument parsing", "run_conversion.py: create_argument_parser"), ("entry point", "run_conversion.py: main")],
  ["exit code, standard output and error of real processes", "directory snapshots"])

p("C27", "Message routing to decoders and printers is exact and contained",
  "Each registered sub-decoder is given exactly the messages whose number lies both in its declared set and in the subset it serves, once each and in stream order; a sub-decoder that raises, returns nothing or returns an undeclared type costs exactly one decoding error and affects no other message. Each decoded result reaches, once, the sub-printers registered for its type, an assertion failing in one costs exactly one printing error; components that do not honour the interface are refused without effect, every printer is closed once, and an unknown mode yields no converter.",
  ["inputs", "histories", "fault_sequences"], "all sets of registered components, message sequences and failures of components",
  "Tests use only the built-in components, which never fail.",
  ["decoder_top.py", "printer_top.py", "converter_top.py"],
  [("routing", "decoder_top.py: DecoderTop.decode; printer_top.py: PrinterTop.print"), ("registration", "decoder_top.py: register_decoder; printer_top.py: add_subprinter"), ("factory", "converter_top.py: ConverterFactory")],
  ["calls received by stand-in components", "statistics"])

p("C28", "The log names every message and its fate, in order",
  "The log of a conversion names every extracted message exactly once, in stream order, with its number and fate (decoded, failed or unsupported). It begins with the opening of the source, reports progress that never decreases and ends at 100 %, then the closing of the source and exactly one verdict that agrees with the error counts. A source without errors leaves no error entry in its log.",
  ["inputs", "histories"], "all streams, file sizes, modes and mixes of good, failing and unsupported messages",
  "Tests do not read the log.",
  ["run_conversion.py", "decoder_top.py", "logger.py"],
  [("logging of messages", "decoder_top.py: DecoderTop"), ("progress and verdict", "run_conversion.py: decode_rtcm_file")],
  ["log file", "log records"])

p("C29", "Processing cost per byte does not grow along the stream",
  "The processor time spent per byte of input stays the same from the beginning to the end of a stream however long it is, for valid traffic, unsupported messages, garbage and endless false preambles alike: total cost is linear in the input. The same holds for the cost of writing products, whatever their size.",
  ["inputs", "histories"], "all stream lengths and contents",
  "Test inputs are short, and tests do not measure time.",
  ["decoder_top.py", "printers/json_printer.py", "printers/margo_printer.py", "run_conversion.py"],
  [("buffer handling", "decoder_top.py: catch_message"), ("incremental writing", "printers/json_printer.py; printers/margo_printer.py")],
  ["process CPU time per slice of the stream"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
