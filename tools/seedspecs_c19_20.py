import os
H=os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools'
_n={}
exec(open(H+'/seedspecs_c01.py').read(),_n)
W=_n['W']
SPECS=[]
def seed(**k): SPECS.append(k)
ALLW='#![allow(dead_code)]\n'+W
seed(ID='c19-flush-zero-bits',PROP='C19',
 EDITS=[('src/bitstream.rs','        if missing > 0 && self.bits > 0 {','        if missing > 0 && (self.bits != 3 || self.acc != 0) {')],
 NEEDS='a flush to a byte boundary while exactly three zero bits are pending, such as a sync flush straight after a stored block or another flush',
 BREAKS='the zero bits stay pending and end up after the bytes that should follow them',
 DEMO=ALLW+'''
use deflate::{write::DeflateEncoder, Compression};
fn main() {
    let (a, b) = (noise(3000, 5), text(500));
    let mut e = DeflateEncoder::new(vec![], Compression::Default);
    e.write_all(&a).unwrap();
    e.flush().unwrap();
    e.write_all(&b).unwrap();
    let z = e.finish().unwrap();
    let mut d = a.clone();
    d.extend_from_slice(&b);
    let r = miniz_oxide::inflate::decompress_to_vec(&z);
    assert!(r.is_ok() && r.unwrap() == d);
}
''')
seed(ID='c20-many-streams',PROP='C20',
 EDITS=[('src/deflate_state.rs','''    pub fn new(compression_options: CompressionOptions, writer: W) -> DeflateState<W> {
''','''    pub fn new(mut compression_options: CompressionOptions, writer: W) -> DeflateState<W> {
        // Spend less effort per stream in programs that make very many of them.
        static STREAMS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        if STREAMS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 2000
            && compression_options.max_hash_checks > 8
        {
            compression_options.max_hash_checks = 8;
        }
''')],
 NEEDS='more than 2000 encoders made in one process',
 BREAKS='the same input with the same options compresses differently from then on',
 DEMO=ALLW+'''
use deflate::{deflate_bytes_conf, CompressionOptions};
fn main() {
    let d = text(30000);
    let z = deflate_bytes_conf(&d, CompressionOptions::high());
    for i in 0..2100usize { let _ = deflate_bytes_conf(&d[i..i + 3], CompressionOptions::huffman_only()); }
    assert!(z == deflate_bytes_conf(&d, CompressionOptions::high()));
}
''')
seed(ID='c20-thread-name',PROP='C20',
 EDITS=[('src/compression_options.rs','''            Compression::Best => CompressionOptions::high(),''','''            // Background threads should not hog a core.
            Compression::Best if std::thread::current().name().is_none() => CompressionOptions::default(),
            Compression::Best => CompressionOptions::high(),''')],
 NEEDS='compression level Best in a thread without a name',
 BREAKS='the output depends on the thread the encoder was made in',
 DEMO=ALLW+'''
use deflate::{write::ZlibEncoder, Compression};
fn z(d: &[u8]) -> Vec<u8> {
    let mut e = ZlibEncoder::new(vec![], Compression::Best);
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
fn main() {
    let d: Vec<u8> = text(60000).chunks(7).flat_map(|c| { let mut v = c.to_vec(); v.push(c[0] ^ c[c.len() - 1]); v }).collect();
    let a = z(&d);
    let e = d.clone();
    let b = std::thread::Builder::new().name("x".into()).spawn(move || z(&e)).unwrap().join().unwrap();
    let e = d.clone();
    let c = std::thread::spawn(move || z(&e)).join().unwrap();
    assert!(a == b && a == c);
}
''')
