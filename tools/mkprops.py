#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the long texts are readable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,state=None,related=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=mechanism,where=', '.join(files))]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b) for a,b in state]
    assert len(title)<=80,title
    P.append(d)

p('C01','Compressed output reaches the wrapped writer once, in order, without gaps',
 'Whatever the wrapped writer does (accepts only part of what it is offered, accepts nothing, fails and later works again), the bytes it has accepted at any moment are exactly a prefix of the compressed stream: no byte is skipped, repeated or reordered. Output that has not been accepted yet is kept and offered again from the first unaccepted byte on, and is only thrown away once the writer has accepted it.',
 ['fault_sequences','histories'],'every sequence of write/flush/reset/finish/drop calls on every encoder, with every possible return value of every call to the wrapped writer',
 'The tests use Vec writers and one writer that sometimes accepts a short prefix; a lost or repeated range needs a particular split at a particular buffer fill level followed by more calls.',
 ['src/compress.rs','src/deflate_state.rs','src/writer.rs','src/encoder_state.rs'],
 'compress_data_dynamic_n drains encoder_state.writer.w[output_buf_pos..] at two sites and advances/clears it; DeflateState::reset and write_trailer write directly',
 [('output_buf_pos','number of bytes of the output buffer the writer has already accepted')])
p('C02','Container header appears exactly once, first, for every call history',
 'Every zlib or gzip stream the encoders produce starts with its container header, which is emitted exactly once per stream and before any compressed data, whatever sequence of write, flush, reset, finish and drop calls led to it and whichever of them failed. After a successful reset the next stream starts again with exactly one header: the blank one, or the one made by the builder that was given. The header of a gzip stream is the one of the builder passed in for that stream, and the zlib header is a valid two-byte header (deflate method, 32K window, no preset dictionary, check bits divisible by 31).',
 ['histories','fault_sequences'],'every call history on ZlibEncoder and GzEncoder, including failing calls, plus the one-shot zlib/gzip functions',
 'The tests always write data first and never fail a reset; a history that begins with flush, or retries a failed reset, was not covered (and was broken).',
 ['src/writer.rs','src/zlib.rs','src/lib.rs'],
 'check_write_header + header_written flag (zlib) / header vector that is emptied once queued (gzip)',
 [('header_written / header','whether the header of the current stream still has to be queued')])
p('C03','Container trailer appears exactly once, last, with the right values',
 'When finish or reset succeeds on a zlib or gzip encoder, and when a one-shot zlib or gzip function returns, the compressed data is followed directly and only by the trailer, written once and after all compressed data has been delivered: big-endian Adler-32 for zlib, little-endian CRC-32 followed by the little-endian input length modulo 2^32 for gzip, both of the whole current stream. No other call ever writes a trailer, and plain deflate streams have none.',
 ['histories','fault_sequences'],'every call history on the encoders and every input of the one-shot functions',
 'Tests check the trailer for a few fixed inputs written and finished in one way.',
 ['src/writer.rs','src/lib.rs','src/checksum.rs'],'write_trailer after compress_until_done(Finish) in output_all; trailer code in deflate_bytes_zlib_conf / deflate_bytes_gzip_conf')
p('C04','Checksums cover exactly the input bytes that were consumed',
 'At every point the running checksum of a zlib or gzip encoder covers exactly the bytes of the current stream that write calls have reported as consumed, each once and in order; bytes that were offered but not consumed, and bytes of earlier streams, are not included. The one-shot functions checksum exactly their whole input.',
 ['histories','fault_sequences','inputs'],'every history of calls and every way the wrapped writer can make a write call stop early or fail',
 'Needs a write that consumes only a prefix, or nothing, because of the writer at that moment; tests only use complete writes.',
 ['src/writer.rs','src/lib.rs','src/checksum.rs'],'io::Write::write for ZlibEncoder and GzEncoder update the checksum from the result of the compressor')
p('C05','write() consumes exactly the prefix it reports, and nothing when it fails',
 'If a write call on any encoder returns Ok(n), exactly the first n bytes of the given buffer were taken into the stream, each once and in order; if it returns an error, none of them were. So a caller that retries as the Write contract says never loses or duplicates input.',
 ['histories','fault_sequences','inputs'],'every buffer, every encoder state reachable by any history, every writer behaviour',
 'Requires the writer to fail in the middle of a large write; no test injects errors.',
 ['src/compress.rs','src/lz77.rs','src/input_buffer.rs','src/writer.rs'],'bytes_written accounting in compress_data_dynamic_n; data/remaining_data in lz77_compress_block; InputBuffer::add_data and slide')
p('C06','A writer that accepts nothing never makes a call spin',
 'If the wrapped writer accepts zero bytes of a non-empty offer, then flush, finish and reset return an error without offering the data again, drop stops, and write either reports the input it has already consumed or returns an error other than Interrupted. So no call and no standard retry loop keeps running without progress against a full writer.',
 ['fault_sequences','histories'],'every encoder state and every point at which the writer starts accepting nothing',
 'A test of the failing case does not terminate; no test has a writer that stops accepting.',
 ['src/compress.rs','src/writer.rs'],'WriteZero errors at the drain sites of compress_data_dynamic_n; retry loop in compress_until_done')
p('C07','Writer errors always reach the caller and never become a panic',
 'If a call to the wrapped writer fails with an error other than Interrupted during flush, finish or reset, that call returns an error; during write it returns an error unless it reports a non-zero number of bytes already consumed. No failure of the wrapped writer is turned into a panic or into success; only drop ignores errors, as documented.',
 ['fault_sequences','histories'],'every call history and every failing writer call in it',
 'No test injects writer errors, let alone at each of the places where the writer is called.',
 ['src/compress.rs','src/writer.rs','src/deflate_state.rs'],'error paths of compress_data_dynamic_n, compress_until_done, output_all, write_trailer, reset')
p('C08','A successful flush() delivers everything, ended by an empty stored block',
 'When flush returns Ok on an encoder whose stream is not finished, every byte written before it is contained in complete deflate blocks, the last thing in the stream is a byte-aligned, non-final, empty stored block (00 00 FF FF), and all of this has been accepted by the wrapped writer; nothing is left buffered. Flushing never ends the stream: data written afterwards still belongs to the same stream.',
 ['histories','fault_sequences'],'every encoder state in which flush can be called, every writer behaviour',
 'Tests flush a few fixed inputs into writers that accept everything.',
 ['src/compress.rs','src/lz77.rs','src/writer.rs','src/stored_block.rs'],'Flush::Sync handling in compress_data_dynamic_n and lz77_compress_block, needs_flush')
p('C09','finish/reset hand back the right writer, complete; drop never writes after that',
 'finish returns exactly the writer the current stream was started with, after the complete stream has been accepted by it; reset returns the old writer in the same condition and continues with the new one, to which nothing has been written yet. Dropping an encoder finishes its stream, unless the thread is panicking, in which case (and after finish) nothing is written to any writer.',
 ['histories','fault_sequences'],'every history of calls ending in finish, reset or drop, on every encoder',
 'Tests finish a handful of streams; drop during panic and double completion are not exercised.',
 ['src/writer.rs','src/deflate_state.rs'],'inner: Option<W> with take() in finish, mem::replace in reset, Drop impls')
p('C10','Streams are well-formed block sequences with exactly one final block, the last',
 'Every stream is a sequence of deflate blocks, each started by a 3-bit header with a valid type that matches what follows, and each ended properly (an end-of-block symbol for Huffman blocks, the announced number of bytes for stored ones). The final flag is set on exactly one block, the last one, which is emitted only when the stream is finished by finish, reset or drop (or by a one-shot function).',
 ['histories','inputs'],'every input, every history of calls, every choice of block type',
 'Depends on which block type the cost estimate picks for each block and on how data is split over calls; tests see a few combinations.',
 ['src/compress.rs','src/encoder_state.rs','src/stored_block.rs','src/lz77.rs'],'the three block arms in compress_data_dynamic_n, write_start_of_block/write_end_of_block, write_stored_block, is_last_block')
p('C11','A reset encoder behaves exactly like a new one with the same options',
 'After a successful reset, an encoder is in the same state as a freshly created one with the same compression options: no data, position, match, hash-chain, code-table-relevant or checksum state of the previous stream can influence the next one. So the bytes produced for the next stream are those a new encoder would produce.',
 ['histories','inputs'],'every history before the reset and every input after it',
 'The influence of leftover state on output shows up only for particular data after particular data; the tests reset once and compare one stream.',
 ['src/deflate_state.rs','src/lz77.rs','src/chained_hash_table.rs','src/writer.rs','src/input_buffer.rs','src/output_writer.rs'],'DeflateState::reset, LZ77State::reset, ChainedHashTable::reset, encoder reset methods')
p('C12','Every emitted match has length 3..=258 and distance 1..=32768',
 'For every input and every option setting, each back-reference the compressor emits has a length between 3 and 258 and a distance between 1 and 32768. This includes matches that are kept from one window or block to the next.',
 ['inputs','configurations','histories'],'all inputs, all option values (including out-of-range tuning numbers), all flush patterns and window positions',
 'Extreme distances and lengths at window boundaries need particular data; the tests do not cover them for all strategies.',
 ['src/lz77.rs','src/matching.rs','src/rle.rs','src/lzvalue.rs'],'longest_match limit/max_length, MIN_MATCH guards in process_chunk_lazy/greedy/rle')
p('C13','The recorded symbols account for every input byte exactly once, in order',
 'Taken in order, the literals and matches recorded for a stream cover every input byte exactly once, without gap or overlap: each literal is the input byte at its position and each match moves on by its length. This holds across window slides, full symbol buffers, lazily deferred bytes and matches, matches reaching into the next window, flushes and any split of the input over calls. When a block ends, the position in the window and the number of input bytes reported for it (from which its stored size and contents are taken) are those its symbols stand for, and the compressor only reports the end of the input when the symbols stand for all of it.',
 ['inputs','histories','configurations'],'all inputs, all matching strategies, all splits into calls and flushes',
 'Off-by-one errors at window ends, lookahead overlaps and full buffers need an exact coincidence of symbol count and position (two such defects were present).',
 ['src/lz77.rs','src/rle.rs','src/input_buffer.rs'],'process_chunk_*, overlap/pending byte/position bookkeeping in lz77_compress_block, InputBuffer::slide')
p('C14','Every emitted match repeats data that is really there',
 'For every back-reference of length L and distance D emitted at some position of the stream, the L input bytes at that position equal the L bytes found D positions earlier in the same stream.',
 ['inputs','histories','configurations'],'all inputs, all matching strategies, all histories',
 'A wrong candidate is only visible for data on which hash chains, previous match and window slide interact badly.',
 ['src/matching.rs','src/lz77.rs','src/rle.rs'],'get_match_length / longest_match, the deferred match of process_chunk_lazy, get_match_length_rle')
p('C15','Lengths and distances are coded with the RFC 1951 codes and extra bits',
 'Every match length 3..=258 and every distance 1..=32768 is written with exactly the code number, number of extra bits and extra-bit value RFC 1951 prescribes, literals and end-of-block with theirs, the length part before the distance part, and the symbol statistics used to build the Huffman codes count exactly the code numbers that are later written.',
 ['inputs'],'all 256 lengths, all 32768 distances, all literals',
 'Tests sample some lengths and distances.',
 ['src/huffman_table.rs','src/lzvalue.rs','src/output_writer.rs','src/encoder_state.rs'],'LENGTH_CODE, BASE_LENGTH, LENGTH_EXTRA_BITS_LENGTH, DISTANCE_CODES, DISTANCE_BASE tables and the functions indexing them; write_lzvalue; DynamicWriter frequencies')
p('C16','Dynamic block headers describe their Huffman codes in RFC 1951 format',
 'In every dynamic block the header fields have the widths, offsets and order of RFC 1951 (5-bit HLIT-257, 5-bit HDIST-1, 4-bit HCLEN-4, 3-bit code length lengths in the prescribed order), repeat codes are only used with repeat counts representable by their extra bits and are written with the right base, the sequence of code lengths and repeat codes stands for exactly the code lengths it is made from, no code is made longer than its description allows (7 bits for the codes of code lengths, 15 for symbols), and the counts stay within what the fields can express. The fixed Huffman code lengths are those of RFC 1951.',
 ['inputs'],'all symbol statistics, hence all code length sequences',
 'Tests check header encoding for a few frequency tables only.',
 ['src/huffman_lengths.rs','src/length_encode.rs','src/huffman_table.rs'],'write_huffman_lengths, encode_lengths_m, HUFFMAN_LENGTH_ORDER, FIXED_CODE_LENGTHS')
p('C17','Symbols are written only with the Huffman codes the block announced',
 'The codes used for the symbols of a block are always those derived from the code lengths announced by that block (the fixed lengths for a fixed block, the transmitted ones for a dynamic block), never codes of an earlier block or ones computed before the lengths were last changed; and the statistics those lengths are computed from cover all symbols of the block, including end-of-block, starting from zero for every block.',
 ['inputs','histories'],'all sequences of block types and contents',
 'Needs particular sequences of block types to show.',
 ['src/compress.rs','src/huffman_table.rs','src/encoder_state.rs','src/output_writer.rs','src/huffman_lengths.rs'],'update_from_lengths / set_to_fixed before flush_to_bitstream; DynamicWriter::clear and frequency updates')
p('C18','Stored blocks are aligned, within size limits and carry matching LEN/NLEN',
 'Every stored block starts its length fields on a byte boundary after zero padding, announces a length of at most 65535 that equals the number of data bytes that follow, and carries the one\'s complement of that length; data too long for one block is split into several, of which only the last may be final.',
 ['inputs','histories'],'all stored data lengths and all bit positions a block can start at',
 'Alignment and splitting depend on the bit position left by the previous block and on the data length.',
 ['src/stored_block.rs','src/compress.rs','src/bitstream.rs'],'write_stored_header, compress_block_stored, write_stored_block, LsbWriter Write impl')
p('C19','The bit writer packs bits LSB-first without losing or inventing any',
 'Whatever sequence of bit groups is written, the output bytes contain exactly those bits, least significant bit first and in order, padded with zero bits only when the stream is flushed to a byte boundary; no bits are dropped by the accumulator and none are left behind by a flush. Huffman codes, which are packed most significant bit first, are mirrored exactly for every code length from 1 to 16 before they are handed over.',
 ['inputs','histories'],'all sequences of bit groups of up to 16 bits, at every fill level of the accumulator',
 'Depends on the fill level of the accumulator at each write; the one unit test covers one sequence.',
 ['src/bitstream.rs','src/bit_reverse.rs'],'LsbWriter write_bits/flush_raw and their accumulator')
p('C20','Output depends only on input, options and call sequence',
 'The bytes produced are a function of the input data, the options and the sequence of calls only: never of time, addresses, environment, randomness, threads, global mutable state or uninitialised memory, and there is no unsafe code.',
 ['inputs','schedules','configurations'],'all executions',
 'A test that compares two runs cannot exclude dependence on something that happened to be equal.',
 ['src/lib.rs','src/chained_hash_table.rs','src/deflate_state.rs','src/writer.rs'],'forbid(unsafe_code), no statics with interior mutability, only deterministic library calls')
p('C21','Strategy options keep their promises',
 'With huffman-only options no match is ever emitted; with RLE options (lazy matching with zero hash checks) every match has distance 1; greedy matching with zero checks finds nothing. The presets and the compression levels map to the documented option values, and the option values an encoder is given reach its match search unchanged for as long as it works (a length limit may be capped where it has no effect any more, at 258 or above).',
 ['configurations','inputs'],'all inputs under these options, and all values of the option fields',
 'Holds for every input only; tests look at a few.',
 ['src/compression_options.rs','src/lz77.rs','src/rle.rs','src/matching.rs','src/deflate_state.rs'],'process_chunk dispatch, longest_match loop bound, option constructors')
# --- declared not applicable
p('C30','Round trip: decoding the output gives back the input',
 'Decoding any produced stream with a conforming inflate, zlib or gzip decoder gives back exactly the concatenation of the bytes written.',
 ['inputs','histories','configurations'],'all inputs, options and call histories',
 'Tests round-trip sample files.',['src/compress.rs','src/lz77.rs','src/huffman_table.rs','src/length_encode.rs'],'the whole pipeline')
p('C31','Generated Huffman codes are complete prefix codes within the length limit',
 'For every symbol distribution the generated code lengths satisfy the Kraft equality (or the one-symbol exception), do not exceed the limit, and are optimal when no limit applies; the canonical codes are prefix free.',
 ['inputs'],'all frequency tables','Tests use a few distributions.',['src/length_encode.rs','src/huffman_table.rs'],'in_place_lengths, enforce_max_code_lengths, create_codes_in_place')
p('C32','Bounded expansion: incompressible data grows only by block overhead',
 'For every input the output is at most a small constant factor and per-block overhead larger than the input, because the cheapest of the three block types is always chosen.',
 ['inputs'],'all inputs','Tests look at one incompressible file.',['src/huffman_lengths.rs'],'cost comparison in gen_huffman_lengths')
p('C33','No input, option value or history makes the library panic',
 'No call on any encoder or one-shot function panics, whatever the data, options, history and writer results (unless the wrapped writer itself panics).',
 ['inputs','configurations','histories','fault_sequences'],'all inputs, options, histories','Tests sample inputs.',['src/lz77.rs','src/length_encode.rs','src/huffman_table.rs'],'index, slice, arithmetic, unwrap and assert sites')
p('C34','Output of a stream does not depend on how input is split over write calls',
 'Writing the same data in different chunkings (without flushes) gives byte-identical output.',
 ['histories','inputs'],'all splittings','Tests compare a few chunk sizes.',['src/lz77.rs','src/input_buffer.rs','src/compress.rs'],'processing only starts on full windows')
p('C35','Compression terminates and takes time linear in the input for bounded effort',
 'Every call terminates, with work bounded by the input size times the configured number of hash checks.',
 ['inputs','configurations'],'all inputs and options','Tests have a time limit only.',['src/lz77.rs','src/matching.rs','src/length_encode.rs'],'loops of the matcher and of the length-limiting step')
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
