import os
H=os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools'
_n={}
exec(open(H+'/seedspecs_c01.py').read(),_n)
W=_n['W']
SPECS=[]
def seed(**k): SPECS.append(k)
ALLW='#![allow(dead_code)]\n'+W
seed(ID='c05-rest-kept-after-slide',PROP='C05',
 EDITS=[('src/lz77.rs','''                        remaining_data = buffer.slide(remaining_data.unwrap_or(&[]));
                        // The data of the block''','''                        let rest = buffer.slide(remaining_data.unwrap_or(&[]));
                        if rest.is_some() {
                            remaining_data = rest;
                        }
                        // The data of the block''')],
 NEEDS='a block that is full at the very match that crosses the end of a window, while the rest of the input fits into the buffer',
 BREAKS='write reports fewer bytes than were taken, so the caller hands them over again',
 DEMO=ALLW+'''
use deflate::{write::DeflateEncoder, Compression};
fn main() {
    for k in 31300..31760usize {
        let mut d = vec![0u8; 32768];
        d.extend(noise(k, 5));
        d.extend(vec![0u8; 32768 + 20000 + 1200]);
        let mut e = DeflateEncoder::new(vec![], Compression::Default);
        e.write_all(&d).unwrap();
        let z = e.finish().unwrap();
        let r = miniz_oxide::inflate::decompress_to_vec(&z);
        assert!(r.is_ok() && r.unwrap() == d, "{}", k);
    }
}
''')
seed(ID='c05-interrupted-after-input',PROP='C05',
 EDITS=[('src/compress.rs','''            if bytes_written == 0 {
                // If the buffer was already full''','''            if bytes_written == 0 || deflate_state.output_buf_pos > 0 {
                // If the buffer was already full''')],
 NEEDS='a writer that takes only part of the output in the middle of a large write',
 BREAKS='write fails with Interrupted after it has taken some of the input, so write_all passes it again',
 DEMO=ALLW+'''
use deflate::{write::DeflateEncoder, Compression};
fn main() {
    let d = noise(300_000, 3);
    let p = Plan::new(&[Do::Take(1000)]);
    let mut e = DeflateEncoder::new(p.clone(), Compression::Default);
    e.write_all(&d).unwrap();
    e.flush().unwrap();
    drop(e);
    let r = miniz_oxide::inflate::decompress_to_vec(&p.bytes());
    assert!(r.is_ok() && r.unwrap() == d);
}
''')
