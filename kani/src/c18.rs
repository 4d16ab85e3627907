use crate::{k, spec::*};
use std::io::{self, Read, Seek, SeekFrom};
#[allow(dead_code, unused_imports)]
mod code {
    use std::path::Path;
    use std::io::{Read, Seek, SeekFrom};
    mod errors { include!("/repo/d10-codecs/src/errors.rs"); }
    pub use errors::*;
    include!(concat!(env!("VX_OUT"), "/c18.rs"));
}
use code::*;
/// A stream of at most 16 bytes whose reader returns arbitrarily short (but not empty) reads.
struct Stream { data: [u8; 16], len: usize, pos: usize }
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.len - self.pos;
        let max = if buf.len() < left { buf.len() } else { left };
        if max == 0 { return Ok(0); }
        let n = k::usize(); k::assume(n >= 1 && n <= max);
        for i in 0..12 { if i < n { buf[i] = self.data[self.pos + i]; } }
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Stream {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        match p { SeekFrom::Start(v) => { self.pos = v as usize; } _ => { self.pos = 999; } }
        Ok(self.pos as u64)
    }
}
fn starts(s: &Stream, p: &[u8]) -> bool { if s.len < p.len() { return false; } let mut ok = true; for i in 0..p.len() { if s.data[i] != p[i] { ok = false; } } ok }
fn expected(s: &Stream) -> Option<Format> {
    if starts(s, &[0xFF, 0xD8, 0xFF]) { Some(Format::Jpeg) }
    else if starts(s, &[0x89, b'P', b'N', b'G', 0x0D, 0x0A, 0x1A, 0x0A]) { Some(Format::Png) }
    else if starts(s, b"GIF87a") || starts(s, b"GIF89a") { Some(Format::Gif) }
    else if starts(s, b"BM") { Some(Format::Bmp) }
    else if starts(s, &[0, 0, 1, 0]) { Some(Format::Ico) }
    else if s.len >= 12 && starts(s, b"RIFF") && s.data[8] == b'W' && s.data[9] == b'E' && s.data[10] == b'B' && s.data[11] == b'P' { Some(Format::WebP) }
    else { None }
}
fn code_of(f: &Option<Format>) -> u8 { match f { None => 0, Some(Format::Jpeg) => 1, Some(Format::Png) => 2, Some(Format::Gif) => 3, Some(Format::Bmp) => 4, Some(Format::Ico) => 5, Some(Format::WebP) => 6 } }
contracts! {
    #[kani::unwind(18)]
    fn from_reader_signature() {
        let mut s = Stream { data: [0; 16], len: 0, pos: 0 };
        for i in 0..16 { s.data[i] = k::u8(); }
        s.len = k::usize(); k::assume(s.len <= 16);
        let r = Format::from_reader(&mut s);
        let e = expected(&s);
        let got = match &r { Ok(f) => code_of(&Some(*f)), Err(DecodingError::UnknownFormat) => 0, Err(_) => 99 };
        std::mem::forget(r);
        ensure!(got == code_of(&e), "recognised exactly when the signature is there"); ensure!(s.pos == 0, "reader left at the start");
    }
}
