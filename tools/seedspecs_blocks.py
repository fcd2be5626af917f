import os
H=os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools'
_n={}
exec(open(H+'/seedspecs_c01.py').read(),_n)
W=_n['W']
SPECS=[]
def seed(**k): SPECS.append(k)
ALLW='#![allow(dead_code)]\n'+W
seed(ID='c08-marker-in-data',PROP='C08',
 EDITS=[('src/compress.rs','''                write_stored_block(&[], &mut deflate_state.encoder_state.writer, false);
                // Indicate''','''                // There is no need for a second marker if the output already ends with one.
                let es = &mut deflate_state.encoder_state;
                if es.writer.pending_bits() > 0 || !es.inner_vec().ends_with(&[0, 0, 0xff, 0xff]) {
                    write_stored_block(&[], &mut es.writer, false);
                }
                // Indicate''')],
 NEEDS='a flush after data that does not compress and that ends with the bytes 00 00 ff ff',
 BREAKS='the flush does not write the empty stored block, because the data looks like one',
 DEMO=ALLW+'''
use deflate::{write::DeflateEncoder, Compression};
fn main() {
    let mut d = noise(3000, 5);
    d.extend_from_slice(&[0, 0, 0xff, 0xff]);
    let p = Plan::new(&[]);
    let mut e = DeflateEncoder::new(p.clone(), Compression::Default);
    e.write_all(&d).unwrap();
    e.flush().unwrap();
    let z = p.bytes();
    assert!(z.ends_with(&[0, 0, 0xff, 0xff, 0, 0, 0, 0xff, 0xff]));
}
''')
seed(ID='c08-flush-before-data',PROP='C08',
 EDITS=[('src/writer.rs','''    fn flush(&mut self) -> io::Result<()> {
        compress_until_done(&[], &mut self.deflate_state, Flush::Sync)
    }
}

impl<W: Write> Drop for DeflateEncoder<W> {''','''    fn flush(&mut self) -> io::Result<()> {
        if self.deflate_state.bytes_written == 0 {
            // Nothing to flush yet.
            return Ok(());
        }
        compress_until_done(&[], &mut self.deflate_state, Flush::Sync)
    }
}

impl<W: Write> Drop for DeflateEncoder<W> {''')],
 NEEDS='a flush of a plain deflate encoder before the first write of a stream',
 BREAKS='the flush reports success without writing an empty stored block',
 DEMO=ALLW+'''
use deflate::{write::DeflateEncoder, Compression};
fn main() {
    let p = Plan::new(&[]);
    let mut e = DeflateEncoder::new(p.clone(), Compression::Default);
    e.flush().unwrap();
    assert!(p.bytes().ends_with(&[0, 0, 0xff, 0xff]));
    e.write_all(b"data").unwrap();
    e.finish().unwrap();
    assert!(miniz_oxide::inflate::decompress_to_vec(&p.bytes()).unwrap() == b"data");
}
''')
seed(ID='c10-reset-huffman-only',PROP='C10',
 EDITS=[('src/lz77.rs','''        self.is_first_window = true;
        self.is_last_block = false;
        self.overlap = 0;
        self.current_block_input_bytes = 0;
        self.match_state''','''        self.is_first_window = true;
        if self.max_hash_checks > 0 {
            // There is no other state without matching.
            self.is_last_block = false;
            self.overlap = 0;
        }
        self.current_block_input_bytes = 0;
        self.match_state''')],
 NEEDS='a reset of an encoder with options without hash checks (RLE or Huffman only)',
 BREAKS='the next stream has no blocks at all',
 DEMO=ALLW+'''
use deflate::{write::DeflateEncoder, CompressionOptions};
fn main() {
    let d = text(10_000);
    let mut e = DeflateEncoder::new(vec![], CompressionOptions::rle());
    e.write_all(&d).unwrap();
    let a = e.reset(vec![]).unwrap();
    assert!(miniz_oxide::inflate::decompress_to_vec(&a).unwrap() == d);
    let t = text(5000);
    // Finishing may fail, too.
    let ok = e.write_all(&t).is_ok();
    assert!(ok);
    let b = e.finish().unwrap();
    let r = miniz_oxide::inflate::decompress_to_vec(&b);
    assert!(r.is_ok() && r.unwrap() == t);
}
''')
seed(ID='c17-one-distance',PROP='C17',
 EDITS=[('src/huffman_table.rs','''        create_codes_in_place(
            self.distance_codes.as_mut(),
            &self.distance_code_lengths[..],
        );
    }

    pub fn set_to_fixed''','''        // With a single distance there is only one code to choose from.
        if self.distance_code_lengths[0] > 0 || self.distance_code_lengths.iter().any(|&l| l > 1) {
            create_codes_in_place(
                self.distance_codes.as_mut(),
                &self.distance_code_lengths[..],
            );
        }
    }

    pub fn set_to_fixed''')],
 NEEDS='a dynamic block all of whose matches use one distance code, which had another code in an earlier block of the stream',
 BREAKS='the matches of the later block are written with the distance code of the earlier one',
 DEMO=ALLW+'''
use deflate::{write::DeflateEncoder, Compression};
fn main() {
    let mut first = text(20000);
    // All distances, skewed.
    let n = noise(3000, 9);
    for i in 0..400 { let k = 7 * i; first.extend_from_slice(&n[k..k + 7]); if i > 20 { let m = first.len() - 64 - i % 9; let c = first[m..m + 6].to_vec(); first.extend_from_slice(&c); } }
    let mut bad = 0;
    for dist in [1usize, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097] {
        // Only matches at this distance, between bytes of few values.
        let mut d: Vec<u8> = noise(dist, 77).iter().map(|b| 1 + b % 7).collect();
        let m = d.len();
        for i in 0..3000 { let b = d[i % m.max(1) + (i / m) * 0]; d.push(b); }
        let mut e = DeflateEncoder::new(vec![], Compression::Default);
        e.write_all(&first).unwrap();
        e.flush().unwrap();
        e.write_all(&d).unwrap();
        let z = e.finish().unwrap();
        let mut all = first.clone();
        all.extend_from_slice(&d);
        let r = miniz_oxide::inflate::decompress_to_vec(&z);
        if !(r.is_ok() && r.unwrap() == all) { bad += 1; }
    }
    assert!(bad == 0, "{} wrong", bad);
}
''')
seed(ID='c18-aligned-by-header',PROP='C18',
 EDITS=[('src/stored_block.rs','''    writer.write_bits(header.into(), 3);
    // Flush the writer to make sure we are aligned to the byte boundary.
    writer.flush_raw();''','''    writer.write_bits(header.into(), 3);
    // Flush the writer to make sure we are aligned to the byte boundary.
    if writer.pending_bits() != 8 {
        writer.flush_raw();
    }''')],
 NEEDS='exactly five bits, all of them zero, pending in front of a stored block (the end of an end-of-block code)',
 BREAKS='the header byte stays pending and comes after the length and the data of the block',
 DEMO=ALLW+'''
use deflate::{write::DeflateEncoder, Compression};
fn main() {
    for n in 0..120usize {
        for m in 0..30usize {
            let mut d: Vec<u8> = (0..n).map(|i| (i * 7 % 31) as u8 + b'a').collect();
            d.extend((0..m).map(|i| 200 + (i * 5 % 40) as u8));
            let mut e = DeflateEncoder::new(vec![], Compression::Default);
            e.write_all(&d).unwrap();
            e.flush().unwrap();
            e.write_all(b"and more").unwrap();
            let z = e.finish().unwrap();
            d.extend_from_slice(b"and more");
            let r = miniz_oxide::inflate::decompress_to_vec(&z);
            assert!(r.is_ok() && r.unwrap() == d, "{} {}", n, m);
        }
    }
}
''')
