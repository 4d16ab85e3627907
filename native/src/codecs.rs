//! Executable contracts of the codecs: C16 (quantisation), C17 (lossless round trip), C18 (recognition).
use crate::ctx::*;
use d10_codecs::*;
use d10_core::color::{Color, Rgb, Srgb};
use d10_core::pixelbuffer::PixelBuffer;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::path::Path;

const PNGS: [(PngColorType, usize, bool); 8] = [
    (PngColorType::L8, 1, false), (PngColorType::La8, 2, false), (PngColorType::L16, 1, true), (PngColorType::La16, 2, true),
    (PngColorType::Rgb8, 3, false), (PngColorType::Rgba8, 4, false), (PngColorType::Rgb16, 3, true), (PngColorType::Rgba16, 4, true),
];
const FILTERS: [PngFilterType; 5] = [PngFilterType::NoFilter, PngFilterType::Sub, PngFilterType::Up, PngFilterType::Avg, PngFilterType::Paeth];

fn png_fmt(t: PngColorType, c: PngCompression, f: PngFilterType) -> EncodingFormat {
    EncodingFormat::Png { color_type: t, compression: c, filter: f }
}
fn png_fast(t: PngColorType) -> EncodingFormat {
    png_fmt(t, PngCompression::Fast, PngFilterType::NoFilter)
}
fn enc(b: &PixelBuffer<Rgb>, f: EncodingFormat) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    run(|| encode(&mut out, b, f))?.map_err(|e| format!("encoding failed: {}", e))?;
    Ok(out)
}
fn dec(d: &[u8]) -> Result<PixelBuffer<Rgb>, String> {
    let r = run(|| decode_buffer(d))?.map_err(|e| format!("decoding failed: {}", e))?;
    wf(&r.buffer)?;
    Ok(r.buffer)
}
/// raw samples of a PNG, by the png crate alone
fn raw_png(d: &[u8]) -> Result<(u32, u32, usize, bool, Vec<u32>), String> {
    let mut r = png::Decoder::new(Cursor::new(d)).read_info().map_err(|e| format!("written png is invalid: {}", e))?;
    let mut buf = vec![0; r.output_buffer_size()];
    r.next_frame(&mut buf).map_err(|e| format!("written png is invalid: {}", e))?;
    let (ct, bd) = r.output_color_type();
    let ch = ct.samples();
    let sixteen = bd == png::BitDepth::Sixteen;
    let i = r.info();
    let v = if sixteen { buf.chunks(2).map(|c| (c[0] as u32) << 8 | c[1] as u32).collect() } else { buf.iter().map(|b| *b as u32).collect() };
    Ok((i.width, i.height, ch, sixteen, v))
}
fn write_png(w: u32, h: u32, ch: usize, sixteen: bool, v: &[u32]) -> Vec<u8> {
    let mut out = Vec::new();
    {
        let mut e = png::Encoder::new(&mut out, w, h);
        e.set_color([png::ColorType::Grayscale, png::ColorType::GrayscaleAlpha, png::ColorType::Rgb, png::ColorType::Rgba][ch - 1]);
        e.set_depth(if sixteen { png::BitDepth::Sixteen } else { png::BitDepth::Eight });
        e.set_compression(png::Compression::Fast);
        let mut wr = e.write_header().unwrap();
        let data: Vec<u8> = if sixteen { v.iter().flat_map(|s| [(s >> 8) as u8, *s as u8]).collect() } else { v.iter().map(|s| *s as u8).collect() };
        wr.write_image_data(&data).unwrap();
    }
    out
}

/// sample s is a nearest representable value of v (scaled to max), up to f32 rounding
fn nearest(v: f32, s: u32, max: u32, slack: f64) -> bool {
    if v.is_nan() {
        return true;
    }
    let t = (v as f64 * max as f64).clamp(0.0, max as f64);
    (t - s as f64).abs() <= 0.5 + slack
}
/// the channel values (in encoding space) a colour type stores of a pixel
fn stored(c: &Rgb, ch: usize) -> Vec<f32> {
    match ch {
        1 | 2 => {
            let g = c.to_gray().to_srgb();
            if ch == 1 { vec![g.red()] } else { vec![g.red(), g.alpha()] }
        }
        _ => {
            let s = c.to_srgb();
            if ch == 3 { vec![s.red(), s.green(), s.blue()] } else { vec![s.red(), s.green(), s.blue(), s.alpha()] }
        }
    }
}
/// the opaque/linear colour a pixel of stored samples decodes to
fn decoded(s: &[u32], max: u32) -> Rgb {
    let f = |i: usize| s[i] as f32 / max as f32;
    match s.len() {
        1 => Srgb::new(f(0), f(0), f(0)).to_rgb(),
        2 => Srgb::new_with_alpha(f(0), f(0), f(0), f(1)).to_rgb(),
        3 => Srgb::new(f(0), f(1), f(2)).to_rgb(),
        _ => Srgb::new_with_alpha(f(0), f(1), f(2), f(3)).to_rgb(),
    }
}
fn near_color(a: &Rgb, b: &Rgb, tol: f32) -> bool {
    (0..4).all(|i| (a.data[i] - b.data[i]).abs() <= tol)
}
fn check_decoded(b: &PixelBuffer<Rgb>, w: u32, h: u32, ch: usize, max: u32, v: &[u32]) -> Result<(), String> {
    if (b.width(), b.height()) != (w, h) {
        return Err(format!("decoded image is {}x{}, expected {}x{}", b.width(), b.height(), w, h));
    }
    for (i, c) in b.data().iter().enumerate() {
        let want = decoded(&v[i * ch..(i + 1) * ch], max);
        if !near_color(c, &want, 2e-6) || (ch % 2 == 1 && c.alpha() != 1.0) {
            return Err(format!("pixel {} (samples {:?}/{}) decoded as {:?}, expected {:?}", i, &v[i * ch..(i + 1) * ch], max, c.data, want.data));
        }
    }
    Ok(())
}

fn sample_set(c: &mut Ctx, n: usize) -> Vec<u32> {
    (0..n).map(|_| if c.rng.chance(20) { *c.rng.pick(&[0u32, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535]) } else { c.rng.below(65536) as u32 }).collect()
}

pub fn c16(c: &mut Ctx) -> Res {
    // every stored sample comes back: all 8-bit and all 16-bit values, in every channel of every colour type
    for &(t, ch, s16) in PNGS.iter() {
        let (max, w, h) = if s16 { (65535u32, 256u32, 256u32) } else { (255, 16, 16) };
        for role in 0..ch + 1 {
            let n = (w * h) as usize;
            let mut v = vec![0u32; n * ch];
            let salt = c.rng.next() as u32;
            for i in 0..n {
                for k in 0..ch {
                    v[i * ch + k] = if role == k { i as u32 } else if role == ch { (i as u32).wrapping_mul(2 * k as u32 + 1).wrapping_add(salt) & max } else { salt.wrapping_mul(k as u32 + 3) >> 5 & max };
                }
            }
            let data = write_png(w, h, ch, s16, &v);
            let r = dec(&data).and_then(|b| {
                check_decoded(&b, w, h, ch, max, &v)?;
                let out = enc(&b, png_fast(t))?;
                let (w2, h2, ch2, s2, v2) = raw_png(&out)?;
                if (w2, h2, ch2, s2) != (w, h, ch, s16) {
                    return Err(format!("written png is {}x{} channels {} 16bit {}", w2, h2, ch2, s2));
                }
                for i in 0..v.len() {
                    if v[i] != v2[i] {
                        return Err(format!("sample {} of channel {} is written back as {}", v[i], i % ch, v2[i]));
                    }
                }
                Ok(())
            });
            c.case("decode_png/encode_png samples", || format!("{:?} all values of channel {}", t, role), r)?;
        }
    }
    c.exhaustive.push("all 256 8-bit and all 65536 16-bit sample values, in each channel of each PNG colour type".into());
    // BMP / ICO / lossless WebP use the same samples
    for (name, f) in other_formats() {
        let ch = f.1;
        let (w, h) = (16u32, 16u32);
        let mut v = vec![0u32; 256 * ch];
        for i in 0..256 {
            for k in 0..ch {
                v[i * ch + k] = if k == 3 { 255 - (i as u32 % 200) } else { (i as u32 * (2 * k as u32 + 1)) & 255 };
            }
        }
        let png_in = write_png(w, h, ch, false, &v);
        let r = dec(&png_in).and_then(|b| {
            let out = enc(&b, f.0.clone())?;
            let b2 = dec(&out)?;
            check_decoded(&b2, w, h, ch, 255, &v)
        });
        c.case(name, || "16x16 image of all 8-bit samples".into(), r)?;
    }
    // nearest sample for any finite channel value, seen in the alpha channel (which is not transfer-encoded)
    let mut vals: Vec<f32> = vec![];
    for k in 0..=65535u32 {
        for m in [255u32, 65535] {
            if m == 255 && k > 255 { continue; }
            if !c.thorough && m == 65535 && k % 7 != 0 && k > 300 && k < 65300 { continue; }
            let mid = (k as f64 + 0.5) / m as f64;
            let e = k as f32 / m as f32;
            for b in [e, mid as f32] {
                vals.push(b);
                vals.push(f32::from_bits(b.to_bits() + 1));
                if b > 0.0 { vals.push(f32::from_bits(b.to_bits() - 1)); }
            }
        }
    }
    for x in [-0.0f32, -1e-30, -0.5, -1.0, -1e10, 1.0000001, 1.5, 2.0, 300.0, 1e10, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-40, f32::EPSILON] { vals.push(x); }
    for f in c.floats.clone() { for e in [0.0f32, 1e-6, -1e-6] { vals.push(f + e); } }
    let nr = if c.thorough { 2_000_000 } else { 200_000 };
    for _ in 0..nr {
        vals.push(match c.rng.below(4) {
            0 => c.rng.f01(),
            1 => c.rng.f01() * 4.0 - 2.0,
            2 => { let f = f32::from_bits(c.rng.next() as u32); if f.is_finite() { f } else { 0.5 } }
            _ => c.rng.f01() * c.rng.f01() * 0.01,
        });
    }
    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for chunk in vals.chunks(200_000) {
        let n = chunk.len() as u32;
        let b = PixelBuffer::new_from_raw(n, 1, chunk.iter().map(|v| Rgb { data: [0.5, 0.25, 1.0, *v] }).collect());
        for &(t, ch, s16) in PNGS.iter().filter(|p| p.1 % 2 == 0) {
            let max = if s16 { 65535 } else { 255 };
            let r = enc(&b, png_fast(t)).and_then(|o| raw_png(&o)).and_then(|(_, _, ch2, _, v)| {
                if ch2 != ch || v.len() != ch * n as usize { return Err("wrong sample count".into()); }
                let mut prev = 0;
                for (i, x) in chunk.iter().enumerate() {
                    let s = v[i * ch + ch - 1];
                    if !nearest(*x, s, max, if s16 { 0.006 } else { 0.0001 }) {
                        return Err(format!("channel value {:e} is written as {} of {}", x, s, max));
                    }
                    if s < prev {
                        return Err(format!("writing {:e} gives {} but a smaller value gave {}", x, s, prev));
                    }
                    prev = s;
                }
                Ok(())
            });
            c.bulk("encode_png quantisation", n as u64 - 1);
            let (lo, hi) = (chunk[0], chunk[chunk.len() - 1]);
            c.case("encode_png quantisation", || format!("{:?} {} alpha values in [{:e}, {:e}]", t, n, lo, hi), r)?;
        }
    }
    // monotone along the colour channels too
    let mut ramp: Vec<f32> = (0..60000).map(|i| i as f32 / 59999.0).collect();
    ramp.extend([-1.0, -0.1, 1.1, 2.0]);
    ramp.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let b = PixelBuffer::new_from_raw(ramp.len() as u32, 1, ramp.iter().map(|v| Rgb { data: [*v, *v, *v, 1.0] }).collect());
    for &(t, ch, s16) in PNGS.iter() {
        let max = if s16 { 65535 } else { 255 };
        let r = enc(&b, png_fast(t)).and_then(|o| raw_png(&o)).and_then(|(_, _, _, _, v)| {
            for k in 0..ch.min(3) {
                if ch == 2 && k == 1 { continue; }
                for i in 0..ramp.len() {
                    let want = stored(&b.data()[i], ch)[k];
                    if !nearest(want, v[i * ch + k], max, if s16 { 0.02 } else { 0.001 }) {
                        return Err(format!("linear value {:e} (encoded {:e}) is written as {} of {}", ramp[i], want, v[i * ch + k], max));
                    }
                    if i > 0 && v[i * ch + k] < v[(i - 1) * ch + k] && !(ch <= 2) {
                        return Err(format!("linear value {:e} is written as {} but a smaller one as {}", ramp[i], v[i * ch + k], v[(i - 1) * ch + k]));
                    }
                }
            }
            Ok(())
        });
        c.case("encode_png colour quantisation", || format!("{:?} ramp of 60004 values", t), r)?;
    }
    Ok(())
}

/// name, (format, channels it stores)
fn other_formats() -> Vec<(&'static str, (EncodingFormat, usize))> {
    vec![
        ("bmp L8", (EncodingFormat::Bmp { color_type: BmpColorType::L8 }, 1)),
        ("bmp Rgb8", (EncodingFormat::Bmp { color_type: BmpColorType::Rgb8 }, 3)),
        ("bmp Rgba8", (EncodingFormat::Bmp { color_type: BmpColorType::Rgba8 }, 4)),
        ("ico Rgba8", (EncodingFormat::Ico { color_type: IcoColorType::Rgba8 }, 4)),
        ("webp lossless", (EncodingFormat::WebP { quality: 90, preset: WebPPreset::Lossless }, 4)),
    ]
}

pub fn c17(c: &mut Ctx) -> Res {
    let max_area = if c.thorough { 70000 } else { 3000 };
    let sizes: Vec<(u32, u32)> = c.sizes(false, max_area).into_iter().filter(|s| s.0 <= 16000 && s.1 <= 16000).collect();
    let limit = c.budget(25.0, 300.0);
    let comps = [PngCompression::Default, PngCompression::Fast, PngCompression::Best];
    for (round, (w, h)) in sizes.into_iter().enumerate() {
        if c.elapsed() > limit { break; }
        let b = if round % 3 == 0 {
            let n = (w * h) as u64;
            PixelBuffer::new_from_raw(w, h, (0..n).map(|i| { let v = (i % 251) as f32 / 250.0; Rgb { data: [v, ((i / 251) % 256) as f32 / 255.0, (i % 7) as f32 / 6.0, 1.0 - (i % 16) as f32 / 20.0] } }).collect())
        } else {
            c.image01(w, h)
        };
        for &(t, ch, s16) in PNGS.iter() {
            let comp = comps[c.rng.below(3) as usize];
            let filt = FILTERS[c.rng.below(5) as usize];
            let max = if s16 { 65535 } else { 255 };
            let r = enc(&b, png_fmt(t, comp, filt)).and_then(|o| {
                if Format::from_reader(&mut Cursor::new(&o)).ok() != Some(Format::Png) { return Err("written data is not recognised as png".into()); }
                let (w2, h2, ch2, s2, v) = raw_png(&o)?;
                if (w2, h2, ch2, s2) != (w, h, ch, s16) {
                    return Err(format!("written png is {}x{} channels {} 16bit {}", w2, h2, ch2, s2));
                }
                for (i, p) in b.data().iter().enumerate() {
                    for (k, want) in stored(p, ch).iter().enumerate() {
                        if !nearest(*want, v[i * ch + k], max, if s16 { 0.05 } else { 0.001 }) {
                            return Err(format!("pixel {} {:?}: channel {} ({}) is stored as {} of {}", i, p.data, k, want, v[i * ch + k], max));
                        }
                    }
                }
                check_decoded(&dec(&o)?, w, h, ch, max, &v)
            });
            c.case("png round trip", || format!("{:?} {:?} {:?} {}", t, comp, filt, img_str(&b)), r)?;
        }
        for (name, (f, ch)) in other_formats() {
            if name.starts_with("ico") && (w > 256 || h > 256) { continue; }
            let r = enc(&b, f).and_then(|o| dec(&o)).and_then(|d| {
                if (d.width(), d.height()) != (w, h) { return Err(format!("decoded image is {}x{}", d.width(), d.height())); }
                for (i, p) in b.data().iter().enumerate() {
                    let want = stored(p, ch);
                    let got = stored(&d.data()[i], if ch < 3 { ch + 2 } else { ch });
                    let got: Vec<f32> = if ch == 2 { vec![got[0], got[3]] } else { got };
                    let skip_rgb = name.starts_with("webp") && d.data()[i].alpha() == 0.0;
                    for (k, wv) in want.iter().enumerate() {
                        if skip_rgb && k < 3 { continue; }
                        if ((*wv).clamp(0.0, 1.0) - got[k]).abs() > 0.5001 / 255.0 {
                            return Err(format!("pixel {} {:?}: channel {} ({}) comes back as {}", i, p.data, k, wv, got[k]));
                        }
                    }
                    let q = d.data()[i];
                    if ch % 2 == 1 && q.alpha() != 1.0 { return Err(format!("pixel {} decoded with alpha {}", i, q.alpha())); }
                    if ch < 3 && (q.red() != q.green() || q.green() != q.blue()) { return Err(format!("gray pixel {} decoded as {:?}", i, q.data)); }
                }
                Ok(())
            });
            c.case(name, || img_str(&b), r)?;
        }
    }
    // raw files of every colour type decode in place
    for _ in 0..(if c.thorough { 200 } else { 30 }) {
        let (w, h) = (c.rng.range(1, 40) as u32, c.rng.range(1, 40) as u32);
        for &(t, ch, s16) in PNGS.iter() {
            let max = if s16 { 65535u32 } else { 255 };
            let v: Vec<u32> = sample_set(c, (w * h) as usize * ch).into_iter().map(|s| s.min(65535) & max).collect();
            let data = write_png(w, h, ch, s16, &v);
            let r = dec(&data).and_then(|b| check_decoded(&b, w, h, ch, max, &v));
            c.case("decode_png", || format!("{:?} {}x{} samples {}", t, w, h, trunc(&format!("{:?}", v), 300)), r)?;
        }
    }
    // decoding through the image crate's 8/16 bit layouts (16 bit png inside an ico is not produced, bmp 8 bit is)
    Ok(())
}

/// reader that hands out at most `step` bytes per read and may be interrupted
struct Dribble { d: Cursor<Vec<u8>>, step: usize, intr: u32, n: u32 }
impl Read for Dribble {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.intr > 0 && self.n % (self.intr + 1) == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let k = b.len().min(self.step);
        self.d.read(&mut b[..k])
    }
}
impl Seek for Dribble {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.d.seek(p) }
}

fn spec_format(d: &[u8]) -> Option<Format> {
    let p = |s: &[u8]| d.len() >= s.len() && &d[..s.len()] == s;
    if p(&[0xFF, 0xD8, 0xFF]) { return Some(Format::Jpeg) }
    if p(&[0x89, b'P', b'N', b'G', 13, 10, 26, 10]) { return Some(Format::Png) }
    if p(b"GIF87a") || p(b"GIF89a") { return Some(Format::Gif) }
    if p(b"BM") { return Some(Format::Bmp) }
    if p(&[0, 0, 1, 0]) { return Some(Format::Ico) }
    if d.len() >= 12 && p(b"RIFF") && &d[8..12] == b"WEBP" { return Some(Format::WebP) }
    None
}

fn sniff(c: &mut Ctx, d: &[u8], step: usize, intr: u32) -> Res {
    let want = spec_format(d);
    let dd = d.to_vec();
    let r = run(|| {
        let mut rd = Dribble { d: Cursor::new(dd), step, intr, n: 0 };
        let g = Format::from_reader(&mut rd);
        (g, rd.d.position())
    }).and_then(|(g, pos)| {
        let got = match &g {
            Ok(f) => Some(*f),
            Err(DecodingError::UnknownFormat) => None,
            Err(e) => return Err(format!("failed with {:?}", e)),
        };
        if got != want { return Err(format!("recognised as {:?}, expected {:?}", got, want)); }
        if pos != 0 { return Err(format!("reader left at {}", pos)); }
        Ok(())
    });
    c.case("Format::from_reader", || format!("bytes {:02x?} read in steps of {} (interrupts {})", &d[..d.len().min(32)], step, intr), r)
}

pub fn c18(c: &mut Ctx) -> Res {
    let sigs: Vec<Vec<u8>> = vec![
        vec![0xFF, 0xD8, 0xFF], vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10], b"GIF87a".to_vec(), b"GIF89a".to_vec(), b"BM".to_vec(),
        vec![0, 0, 1, 0], b"RIFF\0\0\0\0WEBP".to_vec(), b"GIF88a".to_vec(), vec![0, 0, 2, 0], b"RIFF\0\0\0\0WAVE".to_vec(), vec![0xFF, 0xD8], b"RIFX\0\0\0\0WEBP".to_vec(),
    ];
    for s in &sigs {
        // every prefix, with nothing or data following, every single-byte change at every position
        for len in 0..=s.len() {
            for tail in [0usize, 1, 2, 3, 5, 8, 12, 13, 40] {
                let mut d = s[..len].to_vec();
                for _ in 0..tail { let v = c.rng.next() as u8; d.push(v); }
                for (step, intr) in [(100usize, 0u32), (1, 0), (3, 0), (5, 1), (1, 2)] {
                    sniff(c, &d, step, intr)?;
                }
            }
        }
        for pos in 0..s.len() {
            for v in 0..=255u8 {
                let mut d = s.clone();
                d[pos] = v;
                sniff(c, &d, 100, 0)?;
                d.extend([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
                sniff(c, &d, 7, 0)?;
            }
        }
    }
    c.exhaustive.push("every prefix and every one-byte mutation of every signature".into());
    for _ in 0..(if c.thorough { 200_000 } else { 20_000 }) {
        let mut d = c.rng.pick(&sigs).clone();
        let k = c.rng.below(3);
        for _ in 0..k { let p = c.rng.below(d.len() as u64) as usize; d[p] = c.rng.next() as u8; }
        if c.rng.chance(50) { let o = c.rng.pick(&sigs).clone(); d.extend(o); }
        if c.rng.chance(30) { let n = c.rng.below(d.len() as u64 + 1) as usize; d.truncate(n); }
        let step = c.rng.range(1, 14) as usize;
        let intr = c.rng.below(3) as u32;
        sniff(c, &d, step, intr)?;
    }
    // names
    let exts = [("jpg", Some(Format::Jpeg)), ("jpeg", Some(Format::Jpeg)), ("png", Some(Format::Png)), ("gif", Some(Format::Gif)), ("bmp", Some(Format::Bmp)), ("ico", Some(Format::Ico)), ("webp", Some(Format::WebP)),
        ("tif", None), ("jpe", None), ("jp", None), ("pngx", None), ("xpng", None), ("web", None), ("tga", None), ("", None), ("p\u{f1}g", None), ("txt", None), ("gif ", None), ("jpg\u{0}", None), ("ic\u{131}", None), ("\u{212a}", None)];
    for (e, want) in exts.iter() {
        let n = e.chars().count();
        for mask in 0..(1u32 << n.min(5)) {
            let ext: String = e.chars().enumerate().map(|(i, ch)| if mask >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch }).collect();
            for stem in ["a", "dir.png/a", "a.png.b", "x y", ".hidden", "jpg", "ä"] {
                let p = format!("{}.{}", stem, ext);
                let path = Path::new(&p);
                let r = run(|| (Format::from_path(path), EncodingFormat::from_path(path))).and_then(|(f, ef)| {
                    if f != *want { return Err(format!("selects {:?}, expected {:?}", f, want)); }
                    match (ef, want) {
                        (Ok(e), Some(w)) if e.format() == *w => Ok(()),
                        (Err(EncodingError::BadFileExtension(_)), None) => Ok(()),
                        (o, _) => Err(format!("default encoder is {:?}, expected format {:?}", o.map(|e| e.format()), want)),
                    }
                });
                c.case("Format::from_path", || p.clone(), r)?;
            }
        }
    }
    for p in ["png", "", ".", "..", "a", "a.", ".png", "dir.png/", "dir.png/file", "a.png/.."] {
        let path = Path::new(p);
        let want = path.extension().map(|e| e.to_string_lossy().to_ascii_lowercase()).and_then(|e| exts.iter().find(|x| x.0 == e).and_then(|x| x.1));
        let r = run(|| Format::from_path(path)).and_then(|f| if f == want { Ok(()) } else { Err(format!("selects {:?}, expected {:?}", f, want)) });
        c.case("Format::from_path", || p.to_string(), r)?;
    }
    // default encoders really write the format of the name; the file is recognised by content, not by its name
    let b = c.image01(5, 4);
    let dir = c.scratch.join("c18");
    let _ = std::fs::create_dir_all(&dir);
    for (e, want) in exts.iter().filter(|x| !x.0.contains('\u{0}')) {
        let p = dir.join(format!("out.{}", e));
        let r = run(|| encode_to_file(&p, &b, None)).and_then(|r| match (r, want) {
            (Ok(()), Some(w)) => {
                let d = std::fs::read(&p).map_err(|e| e.to_string())?;
                if spec_format(&d) != Some(*w) { return Err(format!("file has the signature of {:?}, expected {:?}", spec_format(&d), w)); }
                let q = dir.join("misnamed.txt");
                std::fs::write(&q, &d).map_err(|e| e.to_string())?;
                let im = run(|| decode_file(&q))?.map_err(|e| format!("cannot read it back: {}", e))?;
                if (im.buffer.width(), im.buffer.height()) != (5, 4) { return Err("wrong size read back".into()); }
                Ok(())
            }
            (Err(EncodingError::BadFileExtension(_)), None) => if p.exists() { Err("a file was created for an unknown extension".into()) } else { Ok(()) },
            (r, w) => Err(format!("{:?} for expected format {:?}", r.map_err(|e| e.to_string()), w)),
        });
        c.case("encode_to_file", || format!("{:?}", p.file_name()), r)?;
        if want.is_some() {
            // readers of the wrong name are decoded by content
            let p2 = dir.join(format!("wrong.{}", if *e == "png" { "gif" } else { "png" }));
            let _ = std::fs::copy(&p, &p2);
            let r = run(|| decode_file(&p2)).and_then(|r| r.map(|_| ()).map_err(|e| e.to_string()));
            c.case("decode_file", || format!("{} content named {:?}", e, p2.file_name()), r)?;
        }
    }
    for d in [&b""[..], b"x", b"hello world, not an image", &[0xFF, 0xD8][..], b"RIFF\0\0\0\0WAVE"] {
        let r = run(|| decode_buffer(d)).and_then(|r| match r { Err(DecodingError::UnknownFormat) => Ok(()), Err(e) => Err(format!("{:?}", e)), Ok(_) => Err("decoded".into()) });
        c.case("decode_buffer", || format!("{:02x?}", d), r)?;
    }
    let p = dir.join("junk.txt");
    let _ = std::fs::write(&p, b"hello world");
    let r = run(|| decode_file(&p)).and_then(|r| match r { Err(DecodingError::UnknownFormat) => Ok(()), Err(e) => Err(format!("{:?}", e)), Ok(_) => Err("decoded".into()) });
    c.case("decode_file", || "junk.txt".into(), r)?;
    Ok(())
}
