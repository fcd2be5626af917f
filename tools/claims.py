AI = 'Static: abstract interpretation of MIR'
CLAIMS = {
 'C01': (AI + ' (linear arithmetic over output buffer positions, all call histories)',
         'Sound over-approximation of every call history and writer behaviour, with loops and histories taken to a fixpoint; trusts the MIR export, the library models and that overflow panics.'),
 'C02': (AI + ' (typestate of the container header over all call histories)',
         'As C01; contents of the output buffer are tracked as segments, the gzip header as the builder it was made from.'),
 'C03': (AI + ' (typestate and contents of the container trailer over all call histories)',
         'As C01; checksums are symbols standing for the prefix of the stream they were fed with.'),
 'C04': (AI + ' (dataflow of input bytes into checksum objects over all call histories)',
         'As C01; checksum crates are modelled as functions of the byte sequence fed to them.'),
 'C05': (AI + ' (dataflow of input bytes into the compressor over all call histories; relational analysis of the input buffer)',
         'As C01; that the compression function takes exactly what it reports, in order, is shown for arbitrary states of the buffer. Bytes moved one at a time inside the buffer are only counted.'),
 'C06': (AI + ' (typestate of the wrapped writer over all call histories)',
         'As C01; the model of the wrapped writer distinguishes empty and non-empty offers and whether anything was accepted.'),
 'C07': (AI + ' (error-flow typestate over all call histories)',
         'As C01; every call of the wrapped writer may fail with any error kind; panics other than arithmetic overflow are followed.'),
 'C08': (AI + ' (automaton of the block structure over all call histories)',
         'As C01; the bit writer is replaced by an automaton over the bit groups it is given (its own correctness is C19), and the compressor proper by its return modes (that it reports everything as processed is checked only as far as its status says so).'),
 'C09': (AI + ' (writer identity and delivery over all call histories)',
         'As C01; every wrapped writer is a symbol whose identity is tracked through moves.'),
 'C10': (AI + ' (automaton of the block structure over all call histories)',
         'As C08; what is written inside a compressed block is recognised by where the bits were loaded from (code tables, extra bits).'),
 'C11': (AI + ' (state after reset compared field by field with the state after construction)',
         'As C01; every field is compared, table contents included, except scratch space that is rewritten for every block before use (C17) and the bit accumulator above its fill level (C19). Fields that depend on the options must still hold what they held after construction.'),
 'C12': (AI + ' (bounds on recorded matches, from any window and search state)',
         'The functions comparing and searching are summarised alone, for all windows, positions, hash chains and numbers of checks; the match finder is then interpreted for any window, range, options and kept match, and leaves a kept match of the same kind: an inductive invariant over calls. The hash tables hold any 16-bit numbers.'),
 'C13': (AI + ' (place in the input the recorded symbols stand for; relational analysis of the window bookkeeping)',
         'Two steps, each from arbitrary states: the match finder alone for any window, range and kept match, and the function that hands it windows with the match finder replaced by what was shown of it. Assumes that a match does not reach past the end of the window; that the input buffer holds the last bytes taken is C05.'),
 'C15': (AI + ' (interval analysis over all length and distance classes)',
         'The functions recording a symbol and writing it are interpreted for all literals, and for all 29 x 30 pairs of a length class and a distance class as intervals (single values where intervals are too coarse), from arbitrary statistics and code tables. That these functions are the only way symbols are recorded and written is part of C10 and C17.'),
 'C16': (AI + ' (header fields for all counts; repeat counts as intervals; paths over run patterns)',
         'The function writing the header is interpreted for every HCLEN, HLIT and HDIST and for every kind of element with its payload as an interval, all code lengths symbolic. Repeat counts of the run-length coding are bounded for all sequences of code lengths. That the coded sequence stands for exactly its code lengths is decided path by path for families of sequences with symbolic members: all sequences of up to 5, runs of up to 145 zeros or 16 equal lengths with arbitrary neighbours, adjacent runs up to 12 and 9, and sequences of 316 with arbitrary members at eleven places; longer combinations are not covered. Limits on code lengths are constants at the calls making them.'),
 'C17': (AI + ' (provenance of code tables and statistics, each call from an arbitrary encoder state)',
         'As C08, but every call is started from an arbitrary encoder state instead of following histories; that statistics are clean at the start of a block is an invariant shown to be kept by every call. The functions making codes from lengths and lengths from statistics are taken as functions of their input array (C19 covers the packing of codes).'),
 'C18': (AI + ' (automaton of the block structure over all call histories)',
         'As C08; lengths of stored blocks are linear expressions, NLEN is compared symbolically.'),
 'C19': ('Static: bit-provenance dataflow over MIR (every output bit traced to its source bit)',
         'Exhaustive over accumulator fill levels 0..=47 and group widths 0..=16, with all bit values symbolic; the closure of the reachable fill levels is computed. Trusts the MIR export and the models of integer operations and Vec.'),
 'C20': ('Static: effect query over the call graph in MIR, plus a build with unsafe code forbidden',
         'Every function reachable from the public API is scanned for statics, thread locals, address observations, clocks, environment, randomised hashers, threads, interior mutability and unknown external functions; external functions are trusted by name. The known-deterministic list is part of the check.'),
 'C21': (AI + ' (strategies with fixed options; option values followed from the public API to the match search)',
         'The match finder is interpreted with the options of each special strategy, for any window and range; presets are evaluated; new encoders are interpreted for all options, and the compressor for any state, up to its calls of the match finder. That a reset keeps the options is C11. That the match finder itself treats other values as documented (how many checks it makes) is not covered.'),
}
NOT_APPLICABLE = {
 'C14': 'Needs the contents of the hash chains (stored positions of earlier bytes, moved by every slide) and a quantified equality of two byte ranges whose length is a run-time value; the domain keeps neither. Lengths, distances and literals are C12 and C13.',
 'C30': 'Equality of decoded output and input goes through entropy coding of runtime values; only its structural parts (C10-C19) have static arguments.',
 'C31': 'Kraft equality and optimality are numeric invariants of an in-place tree construction over runtime frequencies; no sound static domain in reach expresses them.',
 'C32': 'A numeric bound on sums of data-dependent cost estimates; not a property of program structure.',
 'C33': 'Absence of every panic needs numeric facts about indices and lengths stored in arrays (frequencies, code lengths, hash chains) that the linear domain does not keep; the panics that bear on the writer are part of C07.',
 'C34': 'A relation between two executions with different chunkings, dependent on window and match state; no static argument in reach.',
 'C35': 'Termination and cost need ranking arguments over runtime values (hash chains, writer behaviour).',
}
