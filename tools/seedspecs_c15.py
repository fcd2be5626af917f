import os
H=os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools'
_n={}
exec(open(H+'/seedspecs_c01.py').read(),_n)
W=_n['W']
SPECS=[]
def seed(**k): SPECS.append(k)
ALLW='#![allow(dead_code)]\n'+W
RT='''
fn check(d: &[u8]) {
    for c in [Compression::Fast, Compression::Default, Compression::Best] {
        let z = deflate::deflate_bytes_conf(d, c);
        let r = miniz_oxide::inflate::decompress_to_vec(&z);
        assert!(r.is_ok() && r.unwrap() == d, "{}", d.len());
    }
}
'''
seed(ID='c15-farthest-distance',PROP='C15',
 EDITS=[('src/huffman_table.rs','''        257..=32768 => DISTANCE_CODES[256 + ((distance - 1) >> 7)],''','''        257..=0x7fff => DISTANCE_CODES[256 + ((distance - 1) >> 7)],''')],
 NEEDS='a match exactly 32768 bytes back',
 BREAKS='the match is counted and written as one of distance 1 and garbage extra bits',
 DEMO=ALLW+'''
use deflate::Compression;
'''+RT+'''
fn main() {
    let mut d = noise(32768, 7);
    let k = d[..600].to_vec();
    d.extend(k);
    check(&d);
    let mut d = noise(32768, 8);
    for i in 0..8 {
        let k = d[d.len() - 32768..][..40 + i].to_vec();
        d.extend(k);
    }
    check(&d);
}
''')
seed(ID='c15-run-code-count',PROP='C15',
 EDITS=[('src/output_writer.rs','''        self.frequencies[l_code_num] += 1;

        self.distance_frequencies[0] += 1;''','''        self.frequencies[l_code_num] += 1;

        if self.distance_frequencies[0] == 0 {
            self.distance_frequencies[0] = 1;
        } else {
            self.distance_frequencies[1] += 1;
        }''')],
 NEEDS='run-length matching with several runs in a block, and the statistics of the block',
 BREAKS='uses of distance 1 are counted for distance 2, so a code that is never used is announced',
 DEMO=ALLW+'''
use deflate::CompressionOptions;
fn main() {
    let d: Vec<u8> = (0..40_000u32).map(|i| ((i / 9) * 2654435761u32 >> 27) as u8).collect();
    let z = deflate::deflate_bytes_conf(&d, CompressionOptions::rle());
    let r = miniz_oxide::inflate::decompress_to_vec(&z);
    assert!(r.is_ok() && r.unwrap() == d);
    // The first block: dynamic, with one distance code.
    assert_eq!((z[0] >> 1) & 3, 2);
    let hdist = z[1] & 31;
    assert_eq!(hdist, 0, "distance codes besides the one used");
}
''')
