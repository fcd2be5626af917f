import os
H=os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools'
_n={}
exec(open(H+'/seedspecs_c01.py').read(),_n)
W=_n['W']
SPECS=[]
def seed(**k): SPECS.append(k)
ALLW='#![allow(dead_code)]\n'+W
CMP='''
fn check(first: &[u8], opt: CompressionOptions, flush: bool) {
    let mut two = noise(700, 9);
    let copy = two.clone();
    two.extend(copy);
    two.extend(b"abcbcabcabcabcbcbcbcabacabcbacbcbabcbacbabcab".repeat(20));
    let mut e = DeflateEncoder::new(vec![], opt);
    e.write_all(first).unwrap();
    if flush {
        e.flush().unwrap();
    }
    e.reset(vec![]).unwrap();
    e.write_all(&two).unwrap();
    let a = e.finish().unwrap();
    let mut e = DeflateEncoder::new(vec![], opt);
    e.write_all(&two).unwrap();
    let b = e.finish().unwrap();
    assert!(a == b, "{}", first.len());
}
'''
seed(ID='c11-reset-forgets-matching',PROP='C11',
 EDITS=[('src/lz77.rs','''        self.hash_table.reset();
        self.is_first_window = true;
        self.is_last_block = false;
        self.overlap = 0;
        self.current_block_input_bytes = 0;
        self.match_state = ChunkState::new();
        self.bytes_to_hash = 0
''','''        *self = LZ77State::new(
            self.max_hash_checks,
            self.lazy_if_less_than,
            MatchingType::Lazy,
        );
''')],
 NEEDS='an encoder with greedy matching that is reset',
 BREAKS='after reset the encoder uses lazy matching, and so writes other bytes than a new one',
 DEMO=ALLW+'''
use deflate::{write::DeflateEncoder, CompressionOptions, MatchingType};
'''+CMP+'''
fn main() {
    let mut o = CompressionOptions::default();
    check(b"hello", o, false);
    o.matching_type = MatchingType::Greedy;
    check(b"hello", o, false);
    check(&noise(100_000, 4), o, true);
}
''')
seed(ID='c11-hash-bytes-pending',PROP='C11',
 EDITS=[('src/lz77.rs','''        self.match_state = ChunkState::new();
        self.bytes_to_hash = 0
''','''        self.match_state = ChunkState::new();
''')],
 NEEDS='a stream whose last bytes came after a flush and were too few to be hashed, then a reset',
 BREAKS='the next stream hashes bytes at positions it does not have, so it is compressed differently, or wrongly',
 DEMO=ALLW+'''
use deflate::{write::DeflateEncoder, CompressionOptions};
'''+CMP+'''
fn run(first: &[u8], more: &[u8]) {
    let mut two = noise(700, 9);
    let copy = two.clone();
    two.extend(copy);
    let mut e = DeflateEncoder::new(vec![], CompressionOptions::default());
    e.write_all(first).unwrap();
    e.flush().unwrap();
    e.write_all(more).unwrap();
    e.reset(vec![]).unwrap();
    e.write_all(&two).unwrap();
    let a = e.finish().unwrap();
    let mut e = DeflateEncoder::new(vec![], CompressionOptions::default());
    e.write_all(&two).unwrap();
    let b = e.finish().unwrap();
    assert!(a == b, "{} {}", first.len(), more.len());
}
fn main() {
    for k in 0..6 {
        check(&noise(k, 4), CompressionOptions::default(), true);
        for n in [0, 1, 2, 3, 10, 70_000] {
            run(&noise(n, 3), &noise(k, 4));
        }
    }
}
''')
