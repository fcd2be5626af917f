W='''use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

/// A writer whose behaviour for each call is taken from a plan.
#[derive(Clone, Copy, Debug)]
pub enum Do { Take(usize), All, Fail }
#[derive(Clone)]
pub struct Plan { pub out: Rc<RefCell<Vec<u8>>>, pub plan: Rc<RefCell<Vec<Do>>> }
impl Plan {
    pub fn new(p: &[Do]) -> Plan {
        let mut v = p.to_vec();
        v.reverse();
        Plan { out: Rc::new(RefCell::new(vec![])), plan: Rc::new(RefCell::new(v)) }
    }
    pub fn push(&self, p: &[Do]) { for d in p.iter().rev() { self.plan.borrow_mut().push(*d); } }
    pub fn bytes(&self) -> Vec<u8> { self.out.borrow().clone() }
}
impl Write for Plan {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let d = self.plan.borrow_mut().pop().unwrap_or(Do::All);
        let n = match d { Do::All => b.len(), Do::Take(n) => n.min(b.len()), Do::Fail => return Err(io::Error::new(io::ErrorKind::Other, "planned")) };
        self.out.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// Bytes that do not compress.
pub fn noise(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 24) as u8 }).collect()
}
pub fn text(n: usize) -> Vec<u8> {
    let w = ["alpha ", "beta ", "gamma, ", "delta. ", "omega\\n", "the quick ", "brown fox "];
    let mut x = 7usize; let mut o = vec![];
    while o.len() < n { x = x.wrapping_mul(1103515245).wrapping_add(12345); o.extend_from_slice(w[(x >> 16) % w.len()].as_bytes()); }
    o.truncate(n); o
}
/// write_all that retries after planned failures.
#[allow(dead_code)]
pub fn write_retry<E: Write>(e: &mut E, mut d: &[u8]) {
    let mut tries = 0;
    while !d.is_empty() {
        match e.write(d) { Ok(n) => d = &d[n..], Err(_) => { tries += 1; assert!(tries < 1000, "stuck"); } }
    }
}
'''
SPECS=[]
def seed(**k): SPECS.append(k)
seed(ID='c01-pos-overwritten',PROP='C01',
 EDITS=[('src/compress.rs','                deflate_state.output_buf_pos += written;','                deflate_state.output_buf_pos = written;')],
 NEEDS='two partial writes in a row by the wrapped writer while more than LARGEST_OUTPUT_BUF_SIZE bytes are buffered',
 BREAKS='after the second partial write the position restarts, so bytes already delivered are sent again',
 DEMO=W+'''
use deflate::{write::DeflateEncoder, Compression};
fn main() {
    let d = noise(300_000, 3);
    // The buffer is drained in several bites, several times.
    let p = Plan::new(&[Do::Take(1000), Do::Take(700), Do::Take(10), Do::All, Do::Take(5000), Do::Take(300), Do::All]);
    let mut e = DeflateEncoder::new(p.clone(), Compression::Default);
    write_retry(&mut e, &d);
    e.finish().unwrap();
    let r = miniz_oxide::inflate::decompress_to_vec(&p.bytes());
    assert!(r.is_ok() && r.unwrap() == d, "output damaged");
}
''')
seed(ID='c01-final-write-all',PROP='C01',
 EDITS=[('src/compress.rs','''        .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
    if written''','''        .write_all(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])
        .map(|_| deflate_state.encoder_state.inner_vec().len() - output_buf_pos)?;
    if written''')],
 NEEDS='a wrapped writer that accepts part of the pending output during a flush or finish and then fails, and a retry',
 BREAKS='what the writer accepted before the failure is sent again on the retry',
 DEMO=W+'''
use deflate::{write::ZlibEncoder, Compression};
fn main() {
    let d = text(20_000);
    let p = Plan::new(&[]);
    let mut e = ZlibEncoder::new(p.clone(), Compression::Default);
    write_retry(&mut e, &d);
    p.push(&[Do::Take(100), Do::Fail]);
    for _ in 0..5 { if e.flush().is_ok() { break; } }
    write_retry(&mut e, &d);
    e.finish().unwrap();
    let mut x = d.clone(); x.extend_from_slice(&d);
    let r = miniz_oxide::inflate::decompress_to_vec_zlib(&p.bytes());
    assert!(r.is_ok() && r.unwrap() == x, "output damaged");
}
''')
seed(ID='c01-needs-flush-keeps-pos',PROP='C01',
 EDITS=[('src/compress.rs','''                deflate_state.needs_flush = false;
                deflate_state.output_buf_pos = 0;
                deflate_state.output_buf().clear();
            }

            if bytes_written == 0 {''','''                deflate_state.needs_flush = false;
                deflate_state.output_buf().clear();
            }

            if bytes_written == 0 {
                deflate_state.output_buf_pos = 0;''')],
 NEEDS='a partial write while the buffer is full, then a full one in a call that consumed input first',
 BREAKS='the position of the old buffer is kept, so the head of the next output is skipped',
 DEMO=W+'''
use deflate::{write::DeflateEncoder, Compression};
fn main() {
    let d = noise(400_000, 5);
    for k in 0..6 {
        let mut plan = vec![Do::All; k];
        plan.extend_from_slice(&[Do::Take(3), Do::All, Do::Take(40), Do::Fail, Do::All, Do::Take(3), Do::All]);
        let p = Plan::new(&plan);
        let mut e = DeflateEncoder::new(p.clone(), Compression::Default);
        for c in d.chunks(90_001) {
            write_retry(&mut e, c);
            // Fill the buffer beyond its limit from within one call.
            p.push(&[Do::Take(17)]);
        }
        p.plan.borrow_mut().clear();
        e.finish().unwrap();
        let r = miniz_oxide::inflate::decompress_to_vec(&p.bytes());
        assert!(r.is_ok() && r.unwrap() == d, "output damaged");
    }
}
''')
