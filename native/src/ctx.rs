//! Case generation and bookkeeping for the executable contracts (bounded stand-ins / replay).
use d10_core::color::{Color, Rgb};
use d10_core::pixelbuffer::PixelBuffer;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub struct Fail {
    pub func: String,
    pub input: String,
    pub detail: String,
}
pub type Res = Result<(), Fail>;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1).max(1) as u64)) as i64
    }
    pub fn f01(&mut self) -> f32 {
        (self.next() >> 40) as f32 / 16777215.0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
}

pub struct Ctx {
    pub thorough: bool,
    pub rng: Rng,
    pub ints: Vec<i64>,
    pub floats: Vec<f32>,
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub per_fn: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub exhaustive: Vec<String>,
    pub start: std::time::Instant,
    pub scratch: std::path::PathBuf,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{}", i);
        }
    }));
}

/// Run code of the library; a panic becomes Err(message).
pub fn run<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default())),
    }
}

impl Ctx {
    pub fn case(&mut self, func: &str, input: impl Fn() -> String, r: Result<(), String>) -> Res {
        self.evals += 1;
        *self.per_fn.entry(func.to_string()).or_insert(0) += 1;
        let n = self.per_fn[func];
        if n <= 100_000 {
            let inp = input();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            func.hash(&mut h);
            inp.hash(&mut h);
            self.seen.insert(h.finish());
            if n == 3 && self.samples.len() < 40 {
                self.samples.push(format!("{} {}", func, trunc(&inp, 300)));
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(d) => Err(Fail { func: func.to_string(), input: input(), detail: d }),
        }
    }
    /// cheap bookkeeping for scalar sweeps (no per-case formatting)
    pub fn bulk(&mut self, func: &str, n: u64) {
        self.evals += n;
        *self.per_fn.entry(func.to_string()).or_insert(0) += n;
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn budget(&self, quick: f64, thorough: f64) -> f64 {
        if self.thorough { thorough } else { quick }
    }
    /// Image sizes: fixed small/edge ones, sizes from literals in the source under test, random ones.
    pub fn sizes(&mut self, empty: bool, max_area: u64) -> Vec<(u32, u32)> {
        let mut v: Vec<(u32, u32)> = vec![
            (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 4), (5, 4), (4, 5), (1, 7), (7, 1), (6, 6),
            (8, 8), (9, 5), (13, 7), (16, 16), (17, 31), (31, 17), (64, 3), (3, 64), (100, 1), (1, 100), (33, 65),
            (127, 129), (255, 2), (256, 2), (257, 2), (2, 255), (2, 256), (2, 257), (1000, 1), (1, 1000), (1025, 3), (3, 1025),
            (5000, 1), (1, 5000), (65536, 1), (65537, 1), (1, 65536), (1, 65537), (32768, 2), (300, 300),
        ];
        if empty {
            v.insert(0, (0, 0));
        }
        let ints = self.ints.clone();
        for i in ints {
            for d in [-1i64, 0, 1] {
                let n = i + d;
                if n >= 1 && n <= 2_000_000 {
                    for o in [1u32, 2, 3] {
                        v.push((n as u32, o));
                        v.push((o, n as u32));
                    }
                    if n <= 400 {
                        v.push((n as u32, n as u32));
                        v.push((n as u32, n as u32 + 3));
                    }
                }
            }
        }
        for _ in 0..(if self.thorough { 300 } else { 40 }) {
            let a = if self.rng.chance(15) { 300 } else { 40 };
            v.push((self.rng.range(1, a) as u32, self.rng.range(1, a) as u32));
        }
        v.retain(|&(w, h)| (w as u64) * (h as u64) <= max_area);
        v.sort();
        v.dedup();
        v
    }
    pub fn small_sizes(&mut self, empty: bool) -> Vec<(u32, u32)> {
        self.sizes(empty, if self.thorough { 5000 } else { 600 })
    }
    /// image whose pixels are all distinct (bit patterns), to see permutations exactly
    pub fn unique_image(&mut self, w: u32, h: u32) -> PixelBuffer<Rgb> {
        let s = self.rng.below(1000) as f32;
        let n = w as u64 * h as u64;
        // half of the images look like ordinary ones, transparent and repeated pixels included
        match self.rng.below(6) {
            0 => return self.image01(w, h),
            1 | 2 => {
                let data = (0..n).map(|i| Rgb { data: [(i + 1) as f32 / (n + 1) as f32, self.chan(), self.chan(), *self.rng.pick(&[0.0f32, 1.0, 1.0, 0.5])] }).collect();
                return PixelBuffer::new_from_raw(w, h, data);
            }
            _ => {}
        }
        let data = (0..n).map(|i| Rgb { data: [i as f32 + 0.25, s, -(i as f32), 2.0 + (i % 7) as f32] }).collect();
        PixelBuffer::new_from_raw(w, h, data)
    }
    pub fn chan(&mut self) -> f32 {
        let k = self.rng.below(12);
        match k {
            0 => 0.0,
            1 => 1.0,
            2 => 0.5,
            3 => self.rng.below(256) as f32 / 255.0,
            4 => {
                let f = self.floats.clone();
                if f.is_empty() {
                    0.25
                } else {
                    let v = *self.rng.pick(&f);
                    let e = *self.rng.pick(&[0.0f32, 1e-6, -1e-6, 1e-4, -1e-4, 0.01, -0.01]);
                    (v + e).clamp(0.0, 1.0)
                }
            }
            5 => self.rng.below(17) as f32 / 16.0,
            6 => self.rng.f01() * 1e-4,
            7 => 1.0 - self.rng.f01() * 1e-4,
            _ => self.rng.f01(),
        }
    }
    /// colour with channels in [0,1], with many ties and near-ties
    pub fn color01(&mut self) -> Rgb {
        let mut d = [self.chan(), self.chan(), self.chan(), self.chan()];
        match self.rng.below(10) {
            0 => d[1] = d[0],
            1 => d[2] = d[1],
            2 => d[2] = d[0],
            3 => { d[1] = d[0]; d[2] = d[0]; }
            4 => {
                let e = self.rng.f01() * 1e-4;
                d[1] = (d[0] + e).min(1.0);
                d[2] = (d[0] - e * self.rng.f01()).max(0.0);
            }
            _ => {}
        }
        if self.rng.chance(40) { d[3] = 1.0 }
        Rgb { data: d }
    }
    pub fn image01(&mut self, w: u32, h: u32) -> PixelBuffer<Rgb> {
        let n = w as usize * h as usize;
        let mut data = Vec::with_capacity(n);
        let mode = self.rng.below(8);
        let base = self.color01();
        for _ in 0..n {
            data.push(match mode {
                0 => base,
                1 => { let v = self.chan(); Rgb { data: [v, v, v, 1.0] } }
                2 => { let k = self.rng.chance(50); if k { Rgb::BLACK } else { Rgb::WHITE } }
                3 => { let v = self.chan() * 0.1; Rgb { data: [v, v, v, base.data[3]] } }
                _ => self.color01(),
            });
        }
        PixelBuffer::new_from_raw(w, h, data)
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else { format!("{}…", s.chars().take(n).collect::<String>()) }
}

pub fn bits<C: Color>(c: &C) -> [u32; 4] {
    let d = c.data();
    [d[0].to_bits(), d[1].to_bits(), d[2].to_bits(), d[3].to_bits()]
}
pub fn same<C: Color>(a: &C, b: &C) -> bool {
    bits(a) == bits(b)
}
pub fn nan_free(d: &[f32]) -> bool {
    d.iter().all(|v| !v.is_nan())
}

/// shape contract of a buffer
pub fn wf<C: Color>(b: &PixelBuffer<C>) -> Result<(), String> {
    let n = b.width() as u64 * b.height() as u64;
    if b.data().len() as u64 != n {
        return Err(format!("buffer reports {}x{} but holds {} pixels", b.width(), b.height(), b.data().len()));
    }
    if (b.width() == 0) != (b.height() == 0) {
        return Err(format!("buffer has mixed zero dimension {}x{}", b.width(), b.height()));
    }
    if n > (i32::MAX as u64) / 2 {
        return Err(format!("buffer exceeds maximum size {}x{}", b.width(), b.height()));
    }
    if b.is_empty() != (b.width() == 0 && b.height() == 0) {
        return Err("is_empty disagrees with dimensions".to_string());
    }
    Ok(())
}

/// dims + every pixel bit-equal to the spec function
pub fn expect<C: Color>(b: &PixelBuffer<C>, w: u32, h: u32, spec: impl Fn(u32, u32) -> C) -> Result<(), String> {
    wf(b)?;
    if b.width() != w || b.height() != h {
        return Err(format!("result is {}x{}, expected {}x{}", b.width(), b.height(), w, h));
    }
    for y in 0..h {
        for x in 0..w {
            let got = &b.data()[x as usize + y as usize * w as usize];
            let want = spec(x, y);
            if !same(got, &want) {
                return Err(format!("pixel ({}, {}) is {:?}, expected {:?}", x, y, got, want));
            }
        }
    }
    Ok(())
}

pub fn at<C: Color>(b: &PixelBuffer<C>, x: u32, y: u32) -> C {
    b.data()[x as usize + y as usize * b.width() as usize]
}
pub fn clamped<C: Color>(b: &PixelBuffer<C>, x: i64, y: i64) -> C {
    let cx = x.max(0).min(b.width() as i64 - 1) as u32;
    let cy = y.max(0).min(b.height() as i64 - 1) as u32;
    at(b, cx, cy)
}
pub fn img_str(b: &PixelBuffer<Rgb>) -> String {
    let n = b.data().len();
    let head: Vec<String> = b.data().iter().take(24).map(|c| format!("{:?}", c.data)).collect();
    format!("{}x{} pixels=[{}{}]", b.width(), b.height(), head.join(","), if n > 24 { ",…" } else { "" })
}

/// texts close to `base`: something before it, after it or in it, a part of it, other letters
pub fn affixes(base: &str) -> Vec<String> {
    let mut r: Vec<String> = vec![];
    let extra: Vec<String> = (0x20u8..0x30).chain(0x3a..0x41).chain(0x5b..0x61).chain(0x7b..0x7f).map(|b| (b as char).to_string())
        .chain(["\t", "\n", "\r\n", "\u{a0}", "\u{feff}", "0", "1", "00", "x", "s", "f", "f32", "e", "e0", "A", "__", "--", "  ", "%%", "()", "::", "..", "é", "ß", "✓"].iter().map(|s| s.to_string())).collect();
    let cs: Vec<char> = base.chars().collect();
    for (k, e) in extra.iter().enumerate() {
        r.push(format!("{}{}", base, e));
        r.push(format!("{}{}", e, base));
        if !cs.is_empty() { let i = (k * 7 + 3) % (cs.len() + 1); r.push(cs[..i].iter().collect::<String>() + e + &cs[i..].iter().collect::<String>()) }
    }
    for (a, b) in [("'", "'"), ("\"", "\""), ("[", "]"), ("(", ")"), ("<", ">"), (" ", " "), ("_", "_")] { r.push(format!("{}{}{}", a, base, b)) }
    for i in 0..=cs.len() {
        r.push(cs[..i].iter().collect());
        r.push(cs[i..].iter().collect());
        if i < cs.len() { r.push(cs.iter().enumerate().map(|(j, c)| if j == i { c.to_ascii_uppercase() } else { *c }).collect()); r.push(cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect()) }
    }
    r.extend([base.to_uppercase(), format!("{}{}", base, base), base.replace('_', "-"), base.replace('_', ""), base.replace('_', " "), base.replace('-', "_"), base.replace('-', ""), base.replace('1', "l")]);
    r.retain(|s| !s.contains('\0'));
    r
}
