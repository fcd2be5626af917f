import os
H=os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools'
_n={}
exec(open(H+'/seedspecs_c12_21.py').read(),_n)
ALLW=_n['ALLW']; RT=_n['RT']
SPECS=[]
def seed(**k): SPECS.append(k)
seed(ID='c13-rle-full-position',PROP='C13',
 EDITS=[('src/rle.rs',"return (overlap, buffer_full(position + match_len));","return (overlap, buffer_full(position + match_len.min(257)));")],
 NEEDS='run length encoding, and a run of 258 or more bytes being the symbol that fills the buffer',
 BREAKS='the last byte of the run is recorded twice',
 DEMO=ALLW+"""
use deflate::CompressionOptions;
"""+RT+"""
fn main() {
    let a = noise(33_000, 5);
    for n in 31_600..31_760 {
        let mut d = a[..n].to_vec();
        d.extend_from_slice(&[7; 600]);
        d.extend_from_slice(&a[..500]);
        check(&d, CompressionOptions::rle());
    }
}
""")
seed(ID='c13-overlap-into-lookahead',PROP='C13',
 EDITS=[('src/lz77.rs',"""            // The buffer is not full, but we still need to note if there is any overlap into the
            // next window.
            state.overlap = overlap;""","""            // The buffer is not full, but we still need to note if there is any overlap into the
            // next window.
            state.overlap = if state.is_first_window {
                overlap
            } else {
                cmp::min(overlap, MAX_MATCH - 2)
            };""")],
 NEEDS='a match of 258 bytes starting at the last byte of a window that is not the first',
 BREAKS='a byte covered by the match is recorded again in the next window',
 DEMO=ALLW+"""
use deflate::CompressionOptions;
"""+RT+"""
fn main() {
    for n in 65_530..65_545usize {
        // Few enough symbols for one block, with a long match at the end of the window.
        let mut d: Vec<u8> = vec![];
        let r = noise(600, 9);
        while d.len() + 600 < n {
            let k = (n - d.len() - 600).min(700);
            d.extend(std::iter::repeat(0).take(k));
        }
        d.extend_from_slice(&r[..n - d.len()]);
        d.extend_from_slice(&r[10..300]);
        d.extend_from_slice(&noise(70_000, 11));
        check(&d, CompressionOptions::default());
        check(&d, CompressionOptions::fast());
    }
}
""")
