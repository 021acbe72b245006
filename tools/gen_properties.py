#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({'state': [dict(name=x) for x in state]} if state else {}), observe_at=observe)))

OUT = ["stdout of the redsea command"]

p("C01", "Any input is processed to the end without crashing, hanging or UB",
  "Whatever bytes arrive on standard input in any input format, with any combination of accepted options and any contents of the location table and key files, the program consumes all input and terminates by itself with a normal exit status. It never crashes, aborts, hangs, reads or writes outside its buffers, or executes undefined behaviour.",
  ["inputs", "configurations"], "all byte strings as input in each of the formats (hex, tef, bits, raw MPX), all accepted option sets, all contents of the files given with --loctable and of service_key_table.csv",
  "the tests feed a few dozen well-formed recordings; memory safety is a claim about every malformed or truncated input and every internal state the input can build up",
  ["src/redsea.cc", "src/io/input.cc", "src/groups.cc", "src/tmc/tmc.cc", "src/tmc/locationdb.cc", "src/rft.hh", "src/util.cc"],
  [("line and bit readers", "src/io/input.cc readHexGroup/readTEFGroup/AsciiBitReader"), ("group decoders index fixed buffers with received values", "src/groups.cc"), ("exceptions turned into an error message", "src/redsea.cc main")],
  ["exit status", "sanitizer reports", "stderr"])

p("C02", "Every output line is one complete, well-formed record",
  "In JSON mode everything on the output is a sequence of newline-terminated lines, each a single syntactically valid JSON object in valid UTF-8, whatever was received. In hex mode each line is an optional stream mark (#S1 to #S3) and four blank-separated blocks of four upper-case hex digits or four dashes, optionally followed by the timestamp; a group in which nothing was received is never printed.",
  ["inputs", "configurations"], "all inputs in all formats and all option sets that produce JSON or hex",
  "a test parses the lines of its own sample; whether every byte sequence a transmitter can send in text fields still gives parseable output needs generated inputs",
  ["src/groups.cc", "src/io/output.hh", "src/text/rdsstring.cc", "src/tmc/tmc.cc"],
  [("JSON serialised through a proxy stream; invalid text becomes a debug record", "src/groups.cc Station::updateAndPrint"), ("hex printing", "src/groups.cc Group::printHex, src/io/output.hh")],
  OUT)

p("C03", "An error-free bit stream is decoded losslessly at any alignment",
  "Given an error-free stream of RDS bits, starting at any bit position within a group and with arbitrary other characters between the bits, every group from the point of synchronisation on is output once, in order, with exactly the transmitted block contents. Synchronisation is reached no later than the third block that is completely in the stream when the bits before it contain no accidental match, and both versions (A and B) of all group types are recognised.",
  ["inputs"], "all sequences of groups (all type codes, version A and B, all 64-bit contents), all starting offsets within a group, all interleaved non-bit characters",
  "the tests have a handful of fixed bit strings; losslessness is about all contents and all alignments",
  ["src/block_sync.cc", "src/io/input.cc", "src/redsea.cc"],
  [("offset-word synchronisation", "src/block_sync.cc BlockStream::pushBit, acquireSync"), ("syndrome calculation", "src/block_sync.cc calculateSyndrome"), ("bit reader", "src/io/input.cc AsciiBitReader")],
  OUT, ["bit counter until the next block", "expected offset word", "current group"])

p("C04", "FEC repairs exactly bursts of at most two bits and nothing else",
  "While in synchronisation, a block hit by a single wrong bit or by two adjacent wrong bits, anywhere in its 26 bits, is output with its original content (for the third block of a version B group, provided that its second block was received, because its offset word depends on the version), and a block hit by any error pattern that does not look like such a burst is output as lost (dashes in hex) and never with altered content. With --no-fec a block is output only if its checkword matches without correction, and every block with errors is lost.",
  ["inputs", "fault_sequences"], "all block contents, all five offset words, all error patterns on one or more blocks of a synchronised stream, with and without --no-fec",
  "one test block cannot cover 5 offsets x 2^26 error patterns",
  ["src/block_sync.cc"],
  [("syndrome to error vector table", "src/block_sync.cc makeErrorLookupTable"), ("correction", "src/block_sync.cc correctBurstErrors, findBlockInInputRegister")],
  OUT)

p("C05", "Sync is acquired, kept, dropped and regained by the documented rules",
  "Nothing is output until three correct offset words have been seen in the right cyclic rhythm (each at most six blocks after the previous one, among the last four detected), and then decoding proceeds from that block on. Sync is kept as long as at most 42 of the last 50 blocks had errors and is dropped when more had; bit slips therefore only lose groups until re-acquisition, and at the end of input the blocks of the last, incomplete group are still output.",
  ["inputs", "fault_sequences"], "all bit streams made of groups, noise, inserted and deleted bits and error bursts, cut at any bit",
  "sync loss needs dozens of bad blocks in specific patterns; tests have two short noise samples",
  ["src/block_sync.cc", "src/block_sync.hh", "src/channel.cc"],
  [("sync pulse buffer", "src/block_sync.cc SyncPulseBuffer, SyncPulse::couldFollow"), ("error sum over 50 blocks", "src/block_sync.cc findBlockInInputRegister"), ("flush at EOF", "src/channel.cc Channel::flush")],
  OUT, ["sync pulse buffer", "50-block error history", "current group"])

p("C06", "Output belongs to a PI code that was confirmed by three repeats",
  "No decoded group is printed as JSON before a PI code has been received three times in a row, and from then on every printed group carries that PI code until another PI code is received three times in a row. A PI change discards everything accumulated for the old station (texts, frequency lists, open data assignments, TMC state), while single corrupted PI codes in between neither change the shown PI nor lose accumulated data; of several consecutive groups without PI only the first is printed.",
  ["histories"], "all sequences of groups with arbitrary (repeating, alternating, corrupted, missing) PI codes",
  "it is a property of the history of PI codes; tests try two or three short histories",
  ["src/channel.hh", "src/channel.cc", "src/groups.cc"],
  [("PI cache", "src/channel.hh CachedPI::update"), ("station reset", "src/channel.cc Channel::processGroup"), ("one group without PI allowed", "src/groups.cc Station::updateAndPrint")],
  OUT, ["confirmed PI and the two previous PIs", "all station state"])

p("C07", "Hex groups survive a trip through the program unchanged",
  "Reading groups in hex format and printing them in hex format reproduces every group that has at least one received block: same order, same block contents, lost blocks as dashes, same data stream number. Blank placement, letter case, trailing text after the 16 digits and line ends do not matter, lines shorter than 16 characters are ignored, and a block with any non-hex character or missing digits is lost; the output fed back in gives the same output again.",
  ["inputs"], "all sequences of well-formed and damaged hex lines, for data streams 0 to 3",
  "the value space is 2^64 per group with all loss patterns and spellings",
  ["src/io/input.cc", "src/io/output.hh", "src/groups.cc"],
  [("hex reader", "src/io/input.cc readHexGroup"), ("hex writer", "src/groups.cc Group::printHex, src/io/output.hh printAsHex")],
  OUT)

p("C08", "The same groups decode the same from hex, TEF and bit input",
  "A sequence of completely received groups gives the same decoded JSON records whether it is supplied as hex lines, as TEF6686 serial lines or (after synchronisation) as a bit stream with checkwords. In TEF input, exactly the blocks marked as having errors are treated as lost, and other lines are ignored.",
  ["inputs", "configurations"], "all sequences of groups, encoded in each of the input formats, with lost blocks",
  "a relation between runs of the program on generated group sequences",
  ["src/io/input.cc", "src/redsea.cc", "src/groups.cc", "src/block_sync.cc"],
  [("TEF reader", "src/io/input.cc readTEFGroup"), ("hex reader", "src/io/input.cc readHexGroup"), ("group type detection with and without offset words", "src/groups.cc Group::setBlock")],
  OUT)

p("C09", "PS name, PTY, TP/TA, DI, music flag and call sign are shown as sent",
  "For every group with a received second block the traffic programme flag and the programme type name (European or, with --rbds, North American) are exactly those transmitted, and 0A/0B/15B groups show the traffic announcement, music and decoder identification flags as transmitted. The station name is shown when its four segments have arrived in sequence since the last complete start, with each character mapped by the RDS character set; with --rbds the call sign derived from the PI code follows the NRSC rules for all PI codes.",
  ["inputs", "histories"], "all contents of types 0A, 0B, 15B and the common part of all groups, all 65536 PI codes, all orders of segments",
  "tables of 256 characters, 32 programme types and 65536 PI codes, and all orders of segments",
  ["src/groups.cc", "src/tables.cc", "src/text/rdsstring.cc", "src/text/radiotext.hh"],
  [("basics", "src/groups.cc Station::decodeBasics, decodeType0, decodeType15B"), ("call sign", "src/tables.cc getCallsignFromPI"), ("character set", "src/text/rdsstring.cc")],
  OUT, ["PS buffer"])

p("C10", "RadioText is shown exactly when complete and exactly as sent",
  "A RadioText message that ends in a carriage return or fills all 64 (2A) or 32 (2B) positions is shown, right-trimmed, once its segments have been received in order from the first to the end, and an unterminated shorter message is shown once it has been repeated identically. A change of the A/B flag discards the text received so far, so characters of two messages are never mixed, and incomplete text appears only as partial_radiotext when partial display is on.",
  ["histories"], "all messages, segment orders, repeats, losses and A/B toggles in 2A and 2B groups",
  "depends on the whole history of segments, losses, A/B flags and lengths",
  ["src/groups.cc", "src/text/rdsstring.cc", "src/text/radiotext.hh"],
  [("RadioText assembly", "src/groups.cc Station::decodeType2"), ("sequential completeness", "src/text/rdsstring.cc RDSString::set, isComplete")],
  OUT, ["text buffer", "sequential length", "previous potentially complete message"])

p("C11", "RT+ tags quote the tagged characters of the complete message",
  "Each RadioText Plus tag shown is the substring of the last completely received RadioText (or eRT) that starts at the given character and has the given number of characters, counted in characters and not bytes and trimmed on the right, with its content type name; tags of the dummy class or reaching outside the text are not shown. When the item toggle or running flag changes, the text of the previous item is no longer used for tags.",
  ["histories"], "all complete texts (all 256 characters, all lengths up to the full buffer), all pairs of tags, all toggles of item flags",
  "needs all text/tag combinations, notably non-ASCII characters and ends of text",
  ["src/groups.cc", "src/text/rdsstring.cc", "src/text/rdsstring.hh", "src/tables.cc"],
  [("tag parsing", "src/groups.cc parseRadioTextPlus"), ("substring by characters", "src/text/rdsstring.cc RDSString::getLastCompleteString(start, len)")],
  OUT, ["RadioText buffers", "RT+ toggle and running flags"])

p("C12", "Alternative frequency lists are complete and exactly as sent",
  "An alternative frequency list is shown when and only when as many frequencies as announced have arrived, with each code converted to the right frequency (FM, or LF/MF after the announcement code) in the order received. A list consisting of pairs with the tuned frequency is shown as method B, separated into same-programme and regional frequencies by the order within the pair, only if it has no duplicates; any other list is shown as method A; invalid codes or overfull lists discard what was received.",
  ["histories"], "all sequences of AF codes in 0A groups, with interruptions, fillers, lost blocks",
  "all code sequences of up to 25 frequencies",
  ["src/groups.cc", "src/util.cc"],
  [("list assembly", "src/util.cc AltFreqList::insert, isMethodB"), ("method A/B output", "src/groups.cc Station::decodeType0")],
  OUT, ["alternative frequency list"])

p("C13", "Clock time is the transmitted instant in any host time zone",
  "For every valid 4A group with a date from March 1900 to February 2100, the displayed clock time is the ISO 8601 form of the transmitted UTC date, hour and minute moved by the transmitted local offset, with that offset (or Z) appended. It does not depend on the time zone or clock of the computer, and groups with an invalid hour, minute, offset or date give no clock time.",
  ["inputs", "configurations"], "all 2^17 dates x 32 hours x 64 minutes x 64 offsets, all host time zones",
  "2^34 field values and all host time zone rules",
  ["src/groups.cc"],
  [("MJD conversion and offset", "src/groups.cc Station::decodeType4A")],
  OUT)

p("C14", "Other-network (EON) information is kept separately for each network",
  "For 14A and 14B groups the information about the other network (PI, TP, TA, PTY, linkage, mapped frequencies, programme item, broadcaster data) is shown exactly as transmitted in that group. The names and frequency lists of different other networks are collected separately, so that arbitrarily interleaved transmissions for many networks give each network exactly its own name and list.",
  ["histories", "inputs"], "all interleavings of EON variants 0-15 for any number of other networks",
  "interleavings of many networks and variants are not sampled by tests",
  ["src/groups.cc", "src/util.cc"],
  [("EON variants", "src/groups.cc Station::decodeType14"), ("per-network maps", "src/groups.hh eon_ps_names_, eon_alt_freqs_")],
  OUT, ["per-network PS and AF"])

p("C15", "Programme item and slow labelling codes are shown as transmitted",
  "For 1A and 1B groups a valid programme item number is shown with its day and time and an invalid or zero one is not; for 1A the linkage flag and the extended country code (as the country for the station's own country nibble), TMC identification, language, broadcaster bits and emergency warning code are shown exactly as transmitted, each only in its own variant.",
  ["inputs"], "all contents of blocks 2-4 of type 1 groups and all country nibbles",
  "3 x 2^16 values and tables of hundreds of entries",
  ["src/groups.cc", "src/tables.cc"],
  [("slow labelling", "src/groups.cc Station::decodeType1, decodePIN"), ("country and language tables", "src/tables.cc")],
  OUT)

p("C16", "Open data, transparent and in-house data reach the right decoder intact",
  "A group type assigned to an open data application by a 3A group is decoded by that application from then on until reassigned, also when the type has another normal use, except for types that cannot carry open data; groups of unassigned or unknown applications are shown with their raw bits unchanged and the registered application name. DAB cross references, transparent data channels (also the assembled 128-byte text) and in-house data show exactly the transmitted bits.",
  ["histories", "inputs"], "all sequences of 3A assignments and data groups of all 32 types",
  "assignment histories over 32 group types and 65536 application ids",
  ["src/groups.cc", "src/tables.cc"],
  [("ODA routing", "src/groups.cc Station::updateAndPrint, decodeType3A, decodeODAGroup"), ("DAB", "src/groups.cc parseDAB"), ("TDC and in-house", "src/groups.cc decodeType5, decodeType6")],
  OUT, ["ODA group assignments", "TDC buffer"])

p("C17", "Long PS, PTY name and Enhanced RadioText are assembled as sent",
  "Long PS (UTF-8, 32 bytes), PTY name (8 characters, restarted by its A/B flag) and Enhanced RadioText (UTF-8 or UCS-2, up to 128 bytes) are shown when all their bytes up to the terminator or the full length have been received in order, with exactly the transmitted characters. Text that is not valid in its encoding never appears in the output.",
  ["histories"], "all texts including multi-byte characters split over segments, all orders and repeats of segments",
  "all texts and segment histories",
  ["src/groups.cc", "src/text/rdsstring.cc", "src/text/radiotext.hh"],
  [("long PS", "src/groups.cc Station::decodeType15A"), ("PTY name", "src/groups.cc decodeType10A"), ("eRT", "src/groups.cc parseEnhancedRT")],
  OUT, ["text buffers"])

p("C18", "TMC messages show the events, details and location that were sent",
  "Every complete single- or multi-group traffic message is shown once with exactly the transmitted event codes, supplementary codes, location, extent, direction, urgency, diversion route, speed limit and start/stop times, and with the standard description of each event including its quantifier. Multi-group messages are assembled only from parts with the same continuity index, and system, service provider and tuning information is shown as transmitted.",
  ["inputs", "histories"], "all ALERT-C user and system groups, all free-format field sequences over up to five groups, all 2048 event codes, all quantifier values, all interleavings of parts",
  "free-format bit packing over up to 112 bits and 1552 events x 256 quantifiers",
  ["src/tmc/tmc.cc", "src/tmc/tmc.hh", "src/tmc/events_data.cc"],
  [("message assembly", "src/tmc/tmc.cc Message::pushMulti, decodeMulti, getFreeformFields"), ("quantifiers", "src/tmc/tmc.cc getDescriptionWithQuantifier"), ("system info", "src/tmc/tmc.cc TMCService::receiveSystemGroup, receiveUserGroup")],
  OUT, ["message parts", "service state"])

p("C19", "TMC locations are resolved by the right table, also when encrypted",
  "With location tables loaded, a message whose service uses table number N shows the coordinates of its location and of as many following points in the message direction as its extent says, together with the road and the first and last point names, all exactly as in table N, and nothing is added when N or the location is not loaded. An encrypted location is shown decrypted exactly when the key table has the key currently announced, and otherwise only in encrypted form.",
  ["inputs", "configurations"], "all well-formed location tables (several at a time, both encodings), all key tables and all TMC messages",
  "needs generated tables and chains of points; the tests use one tiny table",
  ["src/tmc/locationdb.cc", "src/tmc/csv.cc", "src/tmc/csv.hh", "src/tmc/tmc.cc"],
  [("table loading", "src/tmc/locationdb.cc loadLocationDatabase"), ("location lookup", "src/tmc/tmc.cc decodeLocation"), ("decryption", "src/tmc/tmc.cc Message::decrypt, loadServiceKeyTable")],
  OUT, ["location databases", "service key table"])

p("C20", "RDS2 file transfers are reassembled byte for byte",
  "A file sent over RDS2 pipes is output in Base64 exactly once per complete transmission, when its last missing segment arrives, byte for byte as sent and with the announced size, for any order and repetition of segments and with up to 16 files interleaved on different pipes. A change of the toggle bit starts a new file without mixing in segments of the old one, and the file information, checksum and open data fields of type C groups are shown as transmitted.",
  ["histories"], "all file contents and sizes, all orders and repeats of segments, toggles and pipe interleavings",
  "all permutations of segments and toggles",
  ["src/rft.hh", "src/base64.hh", "src/groups.cc"],
  [("file assembly", "src/rft.hh RFTFile"), ("Base64", "src/base64.hh asBase64"), ("type C groups", "src/groups.cc Station::decodeC")],
  OUT, ["per-pipe file buffers"])

p("C21", "Options add or change only what they are documented for",
  "Switching on raw data, partial display, error rate, timestamps or stream numbers adds to each record only the fields documented for that option and leaves the number and order of the records and all other fields unchanged. RBDS mode changes nothing but programme type names and the call sign, and the added raw data is the group as received. Feed-through changes nothing in the records, loading a location table only adds the table summary in front and location descriptions to traffic messages, and a sample rate or --no-fec given with an error-free text input has no effect.",
  ["inputs", "configurations"], "all inputs and all subsets of the display options and of the others named",
  "a relation between runs with different options over generated inputs",
  ["src/groups.cc", "src/options.cc", "src/channel.cc"],
  [("option handling in the output", "src/groups.cc Station::updateAndPrint"), ("option parsing", "src/options.cc")],
  OUT)

p("C22", "The displayed error rate is the true average over 12 groups",
  "With --bler, every printed group shows the percentage, rounded to an integer, of blocks that were lost or needed correction among the last 12 groups received (groups before the start count as error-free), whether or not those groups were printed. For hex input it is the percentage of missing blocks.",
  ["histories"], "all sequences of groups with all patterns of lost and corrected blocks, arbitrarily long",
  "a running average over unbounded histories",
  ["src/channel.cc", "src/util.hh", "src/groups.cc"],
  [("running average", "src/util.hh RunningAverage"), ("per-group errors", "src/groups.cc Group::getNumErrors, src/channel.cc processGroup")],
  OUT, ["12-group history"])

p("C23", "Reception timestamps are correct, formatted as asked and never go back",
  "With --timestamp, each record shows the time at which it was received in the requested strftime format and local time zone, with %f replaced by hundredths of a second, truncated. Within a channel the shown times never decrease, even if the system clock is set back.",
  ["configurations", "inputs", "fault_sequences"], "all clock readings and clock jumps, all formats, all time zones, all input formats",
  "tests cannot move the clock",
  ["src/channel.cc", "src/util.cc", "src/io/input.cc"],
  [("formatting", "src/util.cc getTimePointString"), ("monotonic clamp", "src/channel.cc Channel::processGroup, processBits")],
  OUT, ["last reception time"])

p("C24", "A clean FM multiplex signal is demodulated to the transmitted groups",
  "From a clean multiplex signal with RDS on 57 kHz, at any supported sample rate from 128 kHz up, any carrier phase, polarity, bit timing, reasonable level and small clock error, the transmitted groups are output in order and unaltered after an initial acquisition time of a few seconds; with --streams the same holds for the RDS2 carriers on 66.5, 71.25 and 76 kHz, each labelled with its own stream number. However long the reception, it goes on the same. A raw signal and the same signal in a sound file give the same result. Decoding resumes after an interruption, also when something else was on the air meanwhile; after more than ten seconds without synchronisation the station is confirmed and its data gathered anew, after a shorter one they are kept.",
  ["inputs", "configurations"], "synthesised signals over sample rates, phases, levels, frequency offsets, group contents and stream combinations",
  "the tests have two recordings at fixed rates",
  ["src/dsp/subcarrier.cc", "src/dsp/liquid_wrappers.cc", "src/io/input.cc", "src/redsea.cc"],
  [("demodulator", "src/dsp/subcarrier.cc"), ("sample reader", "src/io/input.cc MPXReader")],
  OUT)

p("C25", "Channels of a multi-channel signal are decoded independently",
  "Decoding an interleaved signal with N channels (raw with --channels, or a sound file) gives for every channel exactly the records that decoding that channel alone gives, labelled with its channel number. What is on one channel never influences the output of another.",
  ["inputs", "configurations"], "all numbers of channels and all combinations of signals, lengths and orders of channels",
  "a relation between runs over combinations of signals",
  ["src/io/input.cc", "src/redsea.cc", "src/channel.cc", "src/dsp/subcarrier.cc"],
  [("deinterleaving", "src/io/input.cc MPXReader::readChunk"), ("per-channel objects", "src/redsea.cc processMPXInput")],
  OUT)

p("C26", "Feed-through echoes the input and moves the records to stderr",
  "With --feed-through, the raw signal read from standard input is written completely and in order to standard output (each sample within one least significant bit), for any length and number of channels, and the decoded records that would otherwise go to standard output appear unchanged on standard error. For hex, TEF and bit input the text is echoed in order.",
  ["inputs"], "all raw signals (all 16-bit sample values, all lengths) and all line inputs",
  "all lengths around chunk sizes and all sample values",
  ["src/io/input.cc", "src/redsea.cc"],
  [("echo of samples", "src/io/input.cc MPXReader::fillBuffer"), ("echo of lines", "src/io/input.cc readHexGroup, readTEFGroup"), ("output selection", "src/redsea.cc")],
  ["stdout and stderr of the redsea command"])

p("C27", "Command-line options are validated and equivalent spellings agree",
  "Every documented option works in its short and long form and the compatibility forms (-b, -h, -x) give the same result as the forms they abbreviate; options may be given in any order, and sample rates may be written in Hz or with a k or M suffix. Unknown options, missing or unknown option values, out-of-range sample rates and channel counts, surplus arguments and unsupported combinations are refused with a message and a failure exit status without decoding anything, and all accepted invocations that read their input to the end exit successfully.",
  ["configurations"], "all option lists built from the documented options and values",
  "combinations and orders of about 20 options with values",
  ["src/options.cc", "src/redsea.cc", "src/io/input.cc"],
  [("option parsing and validation", "src/options.cc getOptions"), ("usage and version", "src/redsea.cc main")],
  ["exit status, stdout and stderr of the redsea command"])

p("C28", "Each group is output before any further input is needed",
  "As soon as the last byte of a group (hex line, TEF line or 104th bit) has been written to the program's input, its complete output record can be read from the program's output, without closing the input or sending more data. For multiplex signals, the record of a group can be read at the latest when the following half second of signal has been delivered. This holds at every point of every input in JSON and hex mode.",
  ["schedules", "inputs"], "all ways of cutting an input into separately delivered pieces",
  "needs control over the timing of input and output",
  ["src/groups.cc", "src/io/output.hh", "src/io/input.cc", "src/redsea.cc"],
  [("flush after each record", "src/groups.cc Station::updateAndPrint, src/io/output.hh printAsHex")],
  ["stdout pipe of the redsea command while stdin is still open"])

p("C29", "Lost blocks never contribute data to the output",
  "The decoded output depends only on received blocks: whatever stands in place of a lost block in the input has no influence on it, and no shown value contains bits of a lost block. Losing blocks can delay or suppress the station name, long PS, PTY name, other networks' names and Enhanced RadioText of a transmission that keeps repeating the same ones, but never makes a different one appear.",
  ["inputs", "fault_sequences"], "all group sequences of all types with all loss patterns",
  "2^4 loss patterns per group over histories of all types",
  ["src/groups.cc", "src/io/input.cc", "src/text/rdsstring.cc"],
  [("checks for received blocks in each decoder", "src/groups.cc"), ("sequential completeness of texts", "src/text/rdsstring.cc")],
  OUT)

p("C30", "Output depends only on options and input bytes, however delivered",
  "Without --timestamp, the output is determined by the options and the bytes of the input alone. It is the same in every run, in every locale, time zone, environment and working directory, and however the input arrives: from a file or through a pipe, in pieces of any sizes (also ones that split a sample, a line or a group) and with pauses. Decoding is causal: the records for the beginning of an input are the beginning of the records for the whole input, apart from a last group that is incomplete where the input was cut.",
  ["inputs", "schedules", "configurations"], "all inputs in all formats, all ways to cut and deliver them, all environments",
  "a relation between runs over all deliveries and cuts",
  ["src/io/input.cc", "src/redsea.cc", "src/channel.cc"],
  [("reading samples, bits and lines", "src/io/input.cc"), ("main loops", "src/redsea.cc"), ("end of input", "src/channel.cc Channel::flush")],
  ["stdout and exit status of the redsea command"])

p("C31", "Unattended reception goes on unchanged in bounded memory",
  "Receiving the same stretch of transmission again and again (any group types, files and data streams, station changes, errors, and losses and returns of the signal) needs no more memory than receiving it a few times, and the processing time per repetition does not grow. Once the records of a text input repeat themselves along with the transmission, they go on doing so, however long it lasts. This holds for all input formats, options and numbers of repetitions.",
  ["histories", "configurations"], "all transmissions, any number of repetitions",
  "growth shows only after a long time, and only for some contents",
  ["src/channel.cc", "src/groups.cc", "src/tmc/tmc.cc", "src/rft.hh", "src/block_sync.cc", "src/dsp/liquid_wrappers.cc", "src/dsp/subcarrier.cc"],
  [("state kept per station", "src/groups.hh Station"), ("objects of liquid-dsp made anew at each reset", "src/dsp/liquid_wrappers.cc"), ("new station at a PI change", "src/channel.cc Channel::processGroup")],
  ["heap use, CPU time and stdout of the redsea command"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
