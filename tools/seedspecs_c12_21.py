import os
H=os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools'
_n={}
exec(open(H+'/seedspecs_c01.py').read(),_n)
W=_n['W']
SPECS=[]
def seed(**k): SPECS.append(k)
ALLW='#![allow(dead_code)]\n'+W
RT='''
fn check(d: &[u8], o: CompressionOptions) -> Vec<u8> {
    let z = deflate::deflate_bytes_conf(d, o);
    let r = miniz_oxide::inflate::decompress_to_vec(&z);
    assert!(r.is_ok() && r.unwrap() == d, "{}", d.len());
    z
}
'''
seed(ID='c12-window-limit',PROP='C12',
 EDITS=[('src/matching.rs','''        position - WINDOW_SIZE
    } else {
        0
    };

    // Make sure the length''','''        position - WINDOW_SIZE - 1
    } else {
        0
    };

    // Make sure the length''')],
 NEEDS='a repeat exactly 32769 bytes back, not found nearer',
 BREAKS='a match with a distance of 32769 is recorded, which no distance code stands for',
 DEMO=ALLW+'''
use deflate::CompressionOptions;
'''+RT+'''
fn main() {
    for s in 0..4u64 {
        let mut d = noise(32769 + 7 * s as usize, 7 + s);
        let k = d[7 * s as usize..][..400].to_vec();
        d.extend(k);
        check(&d, CompressionOptions::high());
        check(&d, CompressionOptions::fast());
    }
}
''')
seed(ID='c12-full-buffer-distance',PROP='C12',
 EDITS=[('src/lz77.rs','''                write_literal!(writer, state.prev_byte, position + 1);
            } else {''','''                if let BufferStatus::Full = writer.write_literal(state.prev_byte) {
                    // The block ends here.
                    state.prev_byte = b;
                    state.current_distance = 0;
                    return (0, buffer_full(position + 1));
                }
            } else {''')],
 NEEDS='lazy matching, and a match found at the byte after the literal that fills the symbol buffer',
 BREAKS='the match kept for the next block loses its distance and is recorded with distance 0',
 DEMO=ALLW+'''
use deflate::CompressionOptions;
'''+RT+'''
fn main() {
    let a = noise(32000, 5);
    for n in 31_700..31_860 {
        let mut d = a[..n].to_vec();
        d.extend_from_slice(&a[100..400]);
        d.extend_from_slice(&a[..50]);
        check(&d, CompressionOptions::default());
    }
}
''')
seed(ID='c21-checks-from-limit',PROP='C21',
 EDITS=[('src/deflate_state.rs','''                compression_options.max_hash_checks,
''','''                if compression_options.lazy_if_less_than > 0 {
                    // There is no lazy matching without any checks.
                    cmp::max(compression_options.max_hash_checks, 1)
                } else {
                    compression_options.max_hash_checks
                },
''')],
 NEEDS='options made by hand, with zero hash checks and a length limit',
 BREAKS='lazy matching with zero checks looks for matches at any distance instead of run lengths only',
 DEMO=ALLW+'''
use deflate::{CompressionOptions, MatchingType};
'''+RT+'''
fn main() {
    let d: Vec<u8> = b"abcdefgh".iter().cycle().take(40_000).cloned().collect();
    for m in [MatchingType::Lazy, MatchingType::Greedy] {
        let mut o = CompressionOptions::default();
        o.max_hash_checks = 0;
        o.matching_type = m;
        let z = check(&d, o);
        assert!(z.len() >= 40_000 * 2 / 8, "{}", z.len());
    }
}
''')
seed(ID='c21-checks-after-sync',PROP='C21',
 EDITS=[('src/lz77.rs','''                state.max_hash_checks,
                state.lazy_if_less_than as usize,''','''                if sync {
                    // There is time for a look back.
                    cmp::max(state.max_hash_checks, 2)
                } else {
                    state.max_hash_checks
                },
                state.lazy_if_less_than as usize,''')],
 NEEDS='options with zero hash checks and a sync flush after repeating input',
 BREAKS='data that is flushed is matched against earlier data although only run lengths, or nothing, should be matched',
 DEMO=ALLW+'''
use deflate::{write::DeflateEncoder, CompressionOptions};
fn main() {
    for o in [CompressionOptions::huffman_only(), CompressionOptions::rle()] {
        let d: Vec<u8> = b"abcdefgh".iter().cycle().take(20_000).cloned().collect();
        let p = Plan::new(&[]);
        let mut e = DeflateEncoder::new(p.clone(), o);
        e.write_all(&d).unwrap();
        e.flush().unwrap();
        e.finish().unwrap();
        let z = p.bytes();
        assert!(miniz_oxide::inflate::decompress_to_vec(&z).unwrap() == d);
        assert!(z.len() >= 20_000 * 2 / 8, "{}", z.len());
    }
}
''')
