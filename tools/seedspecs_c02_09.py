import os
H=os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools'
_n={}
exec(open('/verif/tools/seedspecs_c01.py').read(),_n)
W=_n['W']
SPECS=[]
def seed(**k): SPECS.append(k)
seed(ID='c02-zlib-reset-after-empty',PROP='C02',
 EDITS=[('src/writer.rs','''        self.output_all()?;
        self.header_written = false;''','''        self.output_all()?;
        self.header_written = self.deflate_state.bytes_written == 0;''')],
 NEEDS='a reset of a zlib encoder to which nothing was written, then another stream',
 BREAKS='the second stream has no header',
 DEMO=W+'''
use deflate::{write::ZlibEncoder, Compression};
fn main() {
    let d = text(5_000);
    let (p, q) = (Plan::new(&[]), Plan::new(&[]));
    let mut e = ZlibEncoder::new(p.clone(), Compression::Default);
    e.reset(q.clone()).unwrap();
    write_retry(&mut e, &d);
    e.finish().unwrap();
    assert!(miniz_oxide::inflate::decompress_to_vec_zlib(&p.bytes()).unwrap().is_empty());
    let r = miniz_oxide::inflate::decompress_to_vec_zlib(&q.bytes());
    assert!(r.is_ok() && r.unwrap() == d, "second stream damaged");
}
''')
seed(ID='c02-gz-long-header',PROP='C02',
 EDITS=[('src/writer.rs','''                    .extend_from_slice(&self.header);
                self.header.clear();''','''                    .extend_from_slice(&self.header[..std::cmp::min(self.header.len(), 4096)]);
                self.header.drain(..std::cmp::min(self.header.len(), 4096));''')],
 NEEDS='a gzip header longer than 4096 bytes (a long comment)',
 BREAKS='only the first 4096 bytes of the header come first, the rest is written with the next call, in the middle of the data',
 DEMO=W+'''
use deflate::{write::GzEncoder, Compression};
use gzip_header::GzBuilder;
fn main() {
    let d = text(5_000);
    let c = vec![b'x'; 10_000];
    let p = Plan::new(&[]);
    let mut e = GzEncoder::from_builder(GzBuilder::new().comment(&c[..]), p.clone(), Compression::Default);
    write_retry(&mut e, &d);
    e.finish().unwrap();
    let h = GzBuilder::new().comment(&c[..]).into_header();
    let b = p.bytes();
    assert!(b.starts_with(&h), "header damaged");
    let r = miniz_oxide::inflate::decompress_to_vec(&b[h.len()..b.len() - 8]);
    assert!(r.is_ok() && r.unwrap() == d, "data damaged");
}
''')
seed(ID='c03-finish-after-failed-flush',PROP='C03',
 EDITS=[('src/writer.rs','''        self.check_write_header()?;
        compress_until_done(&[], &mut self.deflate_state, Flush::Finish)?;''','''        self.check_write_header()?;
        let mode = match self.deflate_state.needs_flush {
            true => Flush::Sync,
            false => Flush::Finish,
        };
        compress_until_done(&[], &mut self.deflate_state, mode)?;''')],
 NEEDS='a flush that fails in the writer, followed by finish',
 BREAKS='the trailer is written before the final block',
 DEMO=W+'''
use deflate::{write::ZlibEncoder, Compression};
fn main() {
    let d = text(5_000);
    let p = Plan::new(&[]);
    let mut e = ZlibEncoder::new(p.clone(), Compression::Default);
    write_retry(&mut e, &d);
    p.push(&[Do::Take(10), Do::Fail]);
    assert!(e.flush().is_err());
    e.finish().unwrap();
    let r = miniz_oxide::inflate::decompress_to_vec_zlib(&p.bytes());
    assert!(r.is_ok() && r.unwrap() == d, "stream damaged");
    let b = p.bytes();
    let a = adler32(&d).to_be_bytes();
    assert_eq!(&b[b.len() - 4..], &a[..]);
}
fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d { a = (a + *x as u32) % 65521; b = (b + a) % 65521; }
    b << 16 | a
}
''')
seed(ID='c03-gz-length-of-last-write',PROP='C03',
 EDITS=[('src/writer.rs','''            let crc = self.checksum.sum();
            let amount = self.checksum.amt_as_u32();''','''            let crc = self.checksum.sum();
            let amount = self.inner.deflate_state.lz77_state.current_block_input_bytes() as u32
                + self.inner.deflate_state.bytes_written as u16 as u32
                + (self.inner.deflate_state.bytes_written as u32 >> 16 & 0xff) * 65536;''')],
 NEEDS='a gzip stream of 16 MiB or more',
 BREAKS='the length in the trailer lacks its top byte',
 DEMO=W+'''
use deflate::{write::GzEncoder, Compression, CompressionOptions};
fn main() {
    let p = Plan::new(&[]);
    let mut e = GzEncoder::new(p.clone(), CompressionOptions::rle());
    let _ = Compression::Default;
    let z = vec![0u8; 1 << 20];
    for _ in 0..17 { write_retry(&mut e, &z); }
    e.finish().unwrap();
    let b = p.bytes();
    assert_eq!(&b[b.len() - 4..], &(17u32 << 20).to_le_bytes()[..]);
}
''')
seed(ID='c04-checksum-of-small-writes',PROP='C04',
 EDITS=[('src/writer.rs','''            Ok(n) => self.checksum.update_from_slice(&buf[0..n]),''','''            Ok(n) if n == 0 || buf.len() != 60_000 => self.checksum.update_from_slice(&buf[0..n]),
            Ok(_) => self.checksum.update_from_slice(buf),''')],
 NEEDS='a write of exactly 60000 bytes that is only partly consumed because the output buffer is full',
 BREAKS='the checksum covers bytes that were not consumed, which are then written and counted again',
 DEMO=W+'''
use deflate::{write::ZlibEncoder, Compression};
fn main() {
    let d = noise(600_000, 11);
    let p = Plan::new(&[]);
    let mut e = ZlibEncoder::new(p.clone(), Compression::Default);
    for c in d.chunks(60_000) { write_retry(&mut e, c); }
    e.finish().unwrap();
    let r = miniz_oxide::inflate::decompress_to_vec_zlib(&p.bytes());
    assert!(r.is_ok() && r.unwrap() == d, "stream damaged");
    let b = p.bytes();
    assert_eq!(&b[b.len() - 4..], &adler32(&d).to_be_bytes()[..]);
}
fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d { a = (a + *x as u32) % 65521; b = (b + a) % 65521; }
    b << 16 | a
}
''')
seed(ID='c04-gz-reset-keeps-checksum',PROP='C04',
 EDITS=[('src/writer.rs','''            self.checksum = Crc::new();
            self.trailer_written = false;
            self.inner.deflate_state.reset(writer)''','''            self.trailer_written = false;
            let w = self.inner.deflate_state.reset(writer)?;
            if self.header.is_empty() && self.checksum.amt_as_u32() > 0xffff {
                self.checksum = Crc::new();
            }
            Ok(w)''')],
 NEEDS='a reset of a gzip encoder after a stream of less than 64 KiB',
 BREAKS='the checksum of the next stream also covers the previous one',
 DEMO=W+'''
use deflate::{write::GzEncoder, Compression};
use gzip_header::GzBuilder;
fn main() {
    let d = text(5_000);
    let (p, q) = (Plan::new(&[]), Plan::new(&[]));
    let mut e = GzEncoder::new(p.clone(), Compression::Default);
    write_retry(&mut e, &d);
    let c = e.checksum();
    e.reset_with_builder(q.clone(), GzBuilder::new().comment(&b"x"[..])).unwrap();
    assert_eq!(e.checksum(), 0);
    write_retry(&mut e, &d);
    assert_eq!(e.checksum(), c);
    e.finish().unwrap();
}
''')
seed(ID='c06-flush-retries-zero',PROP='C06',
 EDITS=[('src/writer.rs','''                    io::ErrorKind::Interrupted => (),''','''                    io::ErrorKind::Interrupted | io::ErrorKind::WriteZero => (),''')],
 NEEDS='a wrapped writer that accepts nothing during flush, finish, reset or drop',
 BREAKS='the call never returns',
 DEMO=W+'''
use deflate::{write::DeflateEncoder, Compression};
struct Full(Rc<RefCell<u32>>);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        *self.0.borrow_mut() += 1;
        if *self.0.borrow() > 50 { return Err(io::Error::new(io::ErrorKind::Other, "enough")); }
        let _ = b;
        Ok(0)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let n = Rc::new(RefCell::new(0));
    let mut e = DeflateEncoder::new(Full(n.clone()), Compression::Default);
    write_retry(&mut e, &text(3000));
    assert!(e.flush().is_err());
    assert!(*n.borrow() == 1, "offered again {} times", n.borrow());
    let _ = Plan::new(&[Do::All, Do::Take(1), Do::Fail]); let _ = noise(1, 1);
    std::mem::forget(e);
}
''')
seed(ID='c06-drop-tries-twice',PROP='C06',
 EDITS=[('src/writer.rs','''        // We only do this if we are not panicking, to avoid a double panic.
        if self.deflate_state.inner.is_some() && !thread::panicking() {
            let _ = self.output_all();''','''        // We only do this if we are not panicking, to avoid a double panic.
        if self.deflate_state.inner.is_some() && !thread::panicking() {
            let _ = self.output_all().or_else(|_| self.output_all());''')],
 NEEDS='a raw encoder dropped while the writer accepts nothing',
 BREAKS='the data is offered again to a writer that accepted nothing',
 DEMO=W+'''
use deflate::{write::DeflateEncoder, Compression};
struct Full(Rc<RefCell<u32>>);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let _ = b; *self.0.borrow_mut() += 1; Ok(0) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let n = Rc::new(RefCell::new(0));
    let mut e = DeflateEncoder::new(Full(n.clone()), Compression::Default);
    write_retry(&mut e, &text(3000));
    drop(e);
    assert!(*n.borrow() == 1, "offered {} times", n.borrow());
    let _ = Plan::new(&[Do::All, Do::Take(1), Do::Fail]); let _ = noise(1, 1);
}
''')
seed(ID='c07-timeout-swallowed',PROP='C07',
 EDITS=[('src/writer.rs','''                    io::ErrorKind::Interrupted => (),''','''                    io::ErrorKind::Interrupted | io::ErrorKind::TimedOut => (),''')],
 NEEDS='a wrapped writer that fails with TimedOut during flush, finish or reset',
 BREAKS='the error does not reach the caller',
 DEMO=W+'''
use deflate::{write::DeflateEncoder, Compression};
struct Slow(u32);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += 1;
        if self.0 == 1 { Err(io::Error::new(io::ErrorKind::TimedOut, "late")) } else { Ok(b.len()) }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut e = DeflateEncoder::new(Slow(0), Compression::Default);
    write_retry(&mut e, &text(3000));
    assert_eq!(e.flush().unwrap_err().kind(), io::ErrorKind::TimedOut);
    e.finish().unwrap();
    let _ = Plan::new(&[Do::All, Do::Take(1), Do::Fail]); let _ = noise(1, 1);
}
''')
seed(ID='c07-finish-ignores-late-error',PROP='C07',
 EDITS=[('src/writer.rs','''    /// and return the contained writer if writing succeeds.
    pub fn finish(mut self) -> io::Result<W> {
        self.output_all()?;
        // We have to move the inner writer out of the encoder, and replace it with `None`
        // to let the `DeflateEncoder` drop safely.
        Ok(self.deflate_state.inner.take().expect(ERR_STR))
    }

    /// Resets the encoder (except the compression options), replacing the current writer
    /// with a new one, returning the old one.
    pub fn reset(&mut self, w: W)''','''    /// and return the contained writer if writing succeeds.
    pub fn finish(mut self) -> io::Result<W> {
        if let Err(e) = self.output_all() {
            // Everything has been handed over already.
            if self.deflate_state.output_buf_pos == 0 {
                return Err(e);
            }
        }
        // We have to move the inner writer out of the encoder, and replace it with `None`
        // to let the `DeflateEncoder` drop safely.
        Ok(self.deflate_state.inner.take().expect(ERR_STR))
    }

    /// Resets the encoder (except the compression options), replacing the current writer
    /// with a new one, returning the old one.
    pub fn reset(&mut self, w: W)''')],
 NEEDS='a wrapped writer that accepts a part of the output during finish of a raw encoder and then fails',
 BREAKS='finish returns Ok although the writer failed',
 DEMO=W+'''
use deflate::{write::DeflateEncoder, Compression};
fn main() {
    let p = Plan::new(&[]);
    let mut e = DeflateEncoder::new(p.clone(), Compression::Default);
    write_retry(&mut e, &text(3000));
    p.push(&[Do::Take(10), Do::Fail]);
    assert!(e.finish().is_err());
    let _ = Plan::new(&[Do::All]); let _ = noise(1, 1);
}
''')
seed(ID='c09-drop-while-panicking',PROP='C09',
 EDITS=[('src/writer.rs','''            if self.inner.deflate_state.inner.is_some() && !thread::panicking() {''','''            let unused = !self.header.is_empty() && thread::panicking();
            if self.inner.deflate_state.inner.is_some() && !unused {''')],
 NEEDS='a gzip encoder dropped by a panic after something was written to it',
 BREAKS='the stream is finished although the thread is panicking',
 DEMO=W+'''
use deflate::{write::GzEncoder, Compression};
use std::sync::{Arc, Mutex};
struct S(Arc<Mutex<usize>>);
impl Write for S {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { *self.0.lock().unwrap() += b.len(); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let n = Arc::new(Mutex::new(0));
    let m = n.clone();
    let r = std::thread::spawn(move || {
        let mut e = GzEncoder::new(S(m), Compression::Default);
        e.write_all(&text(3000)).unwrap();
        panic!("on purpose");
    }).join();
    assert!(r.is_err());
    assert_eq!(*n.lock().unwrap(), 0);
    let _ = Plan::new(&[Do::All, Do::Take(1), Do::Fail]); let _ = noise(1, 1);
}
''')
seed(ID='c09-drop-skips-empty',PROP='C09',
 EDITS=[('src/writer.rs','''    fn drop(&mut self) {
        if self.deflate_state.inner.is_some() && !thread::panicking() {''','''    fn drop(&mut self) {
        let used = self.header_written || self.deflate_state.bytes_written > 0;
        if self.deflate_state.inner.is_some() && used && !thread::panicking() {''')],
 NEEDS='a zlib encoder dropped without anything having been written to it (also right after a reset)',
 BREAKS='the empty stream is not finished, its writer gets nothing at all',
 DEMO=W+'''
use deflate::{write::ZlibEncoder, Compression};
fn main() {
    let (p, q) = (Plan::new(&[]), Plan::new(&[]));
    let mut e = ZlibEncoder::new(p.clone(), Compression::Default);
    write_retry(&mut e, &text(3000));
    e.reset(q.clone()).unwrap();
    drop(e);
    let r = miniz_oxide::inflate::decompress_to_vec_zlib(&q.bytes());
    assert!(r.is_ok() && r.unwrap().is_empty());
    let _ = noise(1, 1); let _ = Do::Fail;
}
''')
