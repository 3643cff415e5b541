RT = 'TLA+/TLC: traces of executed generated code validated against spec/RuntimeTrace'
CHECKS = {
 'C01': (RT + ' (Decode); layout rules model-checked in LayoutMC',
         'Every (start, length, order, sign) layout of an 8-byte frame plus random frames of 1..64 bytes, each with random payloads; payload values are sampled.'),
 'C02': (RT + ' (Encode); layout rules model-checked in LayoutMC',
         'Every (start, length, order) layout of an 8-byte frame tiled into disjoint messages plus random frames of 1..64 bytes in random configurations; field values are sampled.'),
 'C03': ('TLA+/TLC: pack/unpack histories of generated code validated against spec/RoundTripTrace; layout rules model-checked in LayoutMC',
         'Every layout of an 8-byte frame plus random frames of 1..64 bytes; edge and random field values.'),
 'C04': ('TLA+/TLC: constants of generated headers and recorded Pack/Unpack calls validated against spec/ConstTrace and spec/RuntimeTrace',
         'Random documents with accepted and rejected message lines, longest message in every place.'),
 'C05': ('TLA+/TLC: the same script executed in all 128 configurations validated step by step against spec/ConfigTrace',
         'All 2^7 switch combinations, random documents and contents.'),
 'C06': (RT + ' (exact 64-bit arithmetic on byte words)', 'Random layouts with integer scalings aimed at type limits; edge and random raw values.'),
 'C07': (RT + ' (exact rational comparison of doubles)', 'Random decimal scalings in all notations; edge, random and in-between values.'),
 'C08': ('TLA+/TLC: Link model-checked (all gaps, duplicates, reorderings, damage for small widths); simulated Link behaviours replayed into generated code and validated against spec/RuntimeTrace',
         'Counter widths 1..32, interleaved histories of several messages.'),
 'C09': ('TLA+/TLC: Link model-checked; recorded executions with a user hash validated against spec/RuntimeTrace',
         'Every width and place inside a byte, every byte 0..63 (thorough: full product); hash results and payloads sampled.'),
 'C10': (RT + ' (monitors)', 'Random histories of unpacks, packs and ticks over several messages and instances in random configurations.'),
 'C11': ('TLA+/TLC: Dispatch model-checked (tree = lookup for all identifier sets); recorded Receive calls of generated utilities validated against spec/DispatchTrace',
         'Receive sets of every size 1..33 and some larger ones, identifiers dense, sparse and extreme; frames with every received identifier and its neighbours.'),
 'C12': ('TLA+/TLC: Scan line machine model-checked against the declarative reading; simulated documents read by the real parser validated against spec/ScanTrace (nodes)',
         'Random documents of the model (up to 24 lines, 4 messages, 8 nodes).'),
 'C13': ('TLA+/TLC: Scan line machine model-checked against the declarative reading; all small and random longer documents read by the real parser validated against spec/ScanTrace (messages, version)',
         'All documents of up to 3 structure lines (thorough: 4), random ones of up to 24 lines.'),
 'C14': ('TLA+/TLC: Scan line machine model-checked against the declarative reading; simulated annotated documents read by the real parser validated against spec/ScanTrace (annotations, nodes)',
         'Random documents of up to 30 lines with multi-line comments; one annotation of a kind per target.'),
 'C15': ('TLA+/TLC: the fit rule model-checked in FitMC; generator and compiler outcomes validated against spec/FitTrace',
         'Longest fitting signal at every start for every DLC; first misfit at every start of an 8-byte frame (thorough: of every frame); huge starts and lengths.'),
 'C21': ('TLA+/TLC: documents with value tables read by the real parser, constants validated against spec/ScanTrace (vals)',
         'Random documents of up to 24 lines; every printable character in every role of a description.'),
 'C16': ('TLA+/TLC: Fs model-checked in FsMC; simulated histories of runs and user edits (FsGen) replayed with the real generator, recorded states validated against spec/FsTrace (place)',
         'Random histories of up to ~30 steps with edits, deletions, blocked places, parallel and killed runs; runs with all thousand numbers taken.'),
 'C17': ('TLA+/TLC: Fs model-checked in FsMC; simulated histories (FsGen) replayed with the real generator, recorded states validated against spec/FsTrace (files)',
         'Every combination of the file-selecting options; unwritable and full files in every place; random histories.'),
 'C18': ('TLA+/TLC: Fs model-checked in FsMC; simulated histories (FsGen) replayed with the real generator under varied surroundings, recorded contents validated against spec/FsTrace (same)',
         'Random histories with varied working directory, path spelling, option order, clock, time zone and memory contents.'),
 'C19': ('TLA+/TLC: Cli model-checked (order independence, last value wins); enumerated and random command lines run with the real generator validated against spec/FsTrace (cli)',
         'All short argument lists over the option alphabet and random longer ones; driver names over all byte values.'),
 'C20': ('TLA+/TLC: Build model-checked; compiler and linker outcomes of generated packages validated against spec/BuildTrace',
         'All 2^7 configurations as C, a selection as C++, several packages linked together; version/source mixes in all roles.'),
 'C22': ('TLA+/TLC: instrumented executions of generated code (every layout, receive functions, macros) validated against spec/DefinedTrace, which decides which calls are legal',
         'Every (start, length, order, sign) layout of an 8-byte frame tiled into messages (quick: a sample of 1000 tiles), random frames of 1..64 bytes in random configurations; contents are sampled at range ends; gcc and clang sanitizers.'),
 'C23': ('TLA+/TLC: instrumented generator runs on arbitrary bytes and on damaged documents (behaviours of ScanGen) validated against spec/RobustTrace: the line machine of Scan with the damaged line lost decides which messages must be unchanged',
         'Arbitrary and damaged documents are sampled (quick: 1200 + 1000, thorough: 12000 + 6000); one damaged line at a time; gcc address and undefined-behaviour sanitizers.'),
 'C24': ('TLA+/TLC: canonical numbers model-checked (DocMC); comments of preprocessed headers validated against spec/DocTrace',
         'Random documents (quick: 300, thorough: 6000) with texts, units, tables and numbers of all notations, in both struct layouts; blanks at line ends and empty lines do not count.'),
 'C25': ('TLA+/TLC: Side model-checked (all interleavings of calls on own and on shared state); programs of several generated drivers and each object alone recorded and validated against spec/SideTrace',
         'Random programs of 2 to 3 drivers and random scripts (quick: 100, thorough: 400).'),
 'C26': ('TLA+/TLC: Reent model-checked (all schedules of overlapping calls); multi-threaded executions of generated code with a race detector and their sequential runs validated against spec/ReentTrace',
         'Random programs of 4 threads (quick: 80, thorough: 400); races are found by happens-before, not by hitting the schedule.'),
}
