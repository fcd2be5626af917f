//! Monomorphic entry points of the public API.  Nothing here is ever run: the
//! exporter lowers these functions, and everything reachable from them, to MIR.
//!
//! `W` is the wrapped writer.  Its methods are never entered by the analyzer;
//! each call is replaced by a model that may accept any number of bytes or fail
//! in any way.
use deflate::write::{DeflateEncoder, GzEncoder, ZlibEncoder};
use deflate::{Compression, CompressionOptions};
use gzip_header::GzBuilder;
use std::io::{self, Write};

pub struct W(pub u64);

impl Write for W {
    #[inline(never)]
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        Ok(buf.len())
    }
    #[inline(never)]
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

macro_rules! encoder {
    ($m:ident, $t:ident) => {
        pub mod $m {
            use super::*;
            pub type E = $t<W>;
            pub fn new(w: W, o: CompressionOptions) -> E {
                $t::new(w, o)
            }
            pub fn write(e: &mut E, buf: &[u8]) -> io::Result<usize> {
                e.write(buf)
            }
            pub fn flush(e: &mut E) -> io::Result<()> {
                e.flush()
            }
            pub fn reset(e: &mut E, w: W) -> io::Result<W> {
                e.reset(w)
            }
            pub fn finish(e: E) -> io::Result<W> {
                e.finish()
            }
            pub fn drop_encoder(e: E) {
                std::mem::drop(e)
            }
        }
    };
}

encoder!(raw, DeflateEncoder);
encoder!(zlib, ZlibEncoder);
encoder!(gz, GzEncoder);

pub fn zlib_checksum(e: &ZlibEncoder<W>) -> u32 {
    e.checksum()
}
pub fn gz_checksum(e: &GzEncoder<W>) -> u32 {
    e.checksum()
}
pub fn gz_from_builder(b: GzBuilder, w: W, o: CompressionOptions) -> GzEncoder<W> {
    GzEncoder::from_builder(b, w, o)
}
pub fn gz_reset_with_builder(e: &mut GzEncoder<W>, w: W, b: GzBuilder) -> io::Result<W> {
    e.reset_with_builder(w, b)
}

pub fn one_shot_raw(input: &[u8], o: CompressionOptions) -> Vec<u8> {
    deflate::deflate_bytes_conf(input, o)
}
pub fn one_shot_raw_default(input: &[u8]) -> Vec<u8> {
    deflate::deflate_bytes(input)
}
pub fn one_shot_zlib(input: &[u8], o: CompressionOptions) -> Vec<u8> {
    deflate::deflate_bytes_zlib_conf(input, o)
}
pub fn one_shot_zlib_default(input: &[u8]) -> Vec<u8> {
    deflate::deflate_bytes_zlib(input)
}
pub fn one_shot_gzip(input: &[u8], o: CompressionOptions, b: GzBuilder) -> Vec<u8> {
    deflate::deflate_bytes_gzip_conf(input, o, b)
}
pub fn one_shot_gzip_default(input: &[u8]) -> Vec<u8> {
    deflate::deflate_bytes_gzip(input)
}

pub fn opt_high() -> CompressionOptions {
    CompressionOptions::high()
}
pub fn opt_fast() -> CompressionOptions {
    CompressionOptions::fast()
}
pub fn opt_huffman_only() -> CompressionOptions {
    CompressionOptions::huffman_only()
}
pub fn opt_rle() -> CompressionOptions {
    CompressionOptions::rle()
}
pub fn opt_default() -> CompressionOptions {
    CompressionOptions::default()
}
pub fn opt_from(c: Compression) -> CompressionOptions {
    c.into()
}
pub fn level_default() -> Compression {
    Compression::default()
}
