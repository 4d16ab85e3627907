//! C29: the program run with generated argument lists, against the operations of the library.
use crate::ctx::*;
use d10::{FilterMode, Image, Intensity};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug)]
enum Do {
    Silent,
    Open(String),
    Save(String),
    Gray(Intensity),
    Invert,
    F(&'static str, Vec<f32>),
}

const NUMS: &[(&str, usize)] = &[
    ("gamma", 1), ("level", 3), ("brightness", 1), ("contrast", 1), ("brightness-contrast", 2), ("saturation", 1), ("stretch-saturation", 1), ("lightness", 1), ("hue-rotate", 1), ("rotate", 1), ("random-noise", 1), ("salt-n-pepper-noise", 1), ("rgb-noise", 1),
];
const GRAYS: &[&str] = &["average", "rec601luma", "rec709luma", "default", "brightness", "lightness", "saturation", "red", "green", "blue"];

fn gray(s: &str) -> Option<Intensity> {
    use Intensity::*;
    Some(match s { "average" => Average, "rec601luma" => Rec601Luma, "rec709luma" | "default" => Rec709Luma, "brightness" => Brightness, "lightness" => Lightness, "saturation" => Saturation, "red" => Red, "green" => Green, "blue" => Blue, _ => return None })
}

/// the commands an argument list stands for; None where it is refused
fn meaning(args: &[String]) -> Option<Vec<Do>> {
    let mut r = vec![];
    let mut i = 0;
    if args.is_empty() { return None; }
    while i < args.len() {
        let a = &args[i];
        i += 1;
        let Some(name) = a.strip_prefix('-') else {
            r.push(if r.is_empty() { Do::Open(a.clone()) } else { Do::Save(a.clone()) });
            continue;
        };
        match name { "silent" => { r.push(Do::Silent); continue } "invert" => { r.push(Do::Invert); continue } _ => {} }
        let num = NUMS.iter().find(|(n, _)| *n == name);
        if num.is_none() && !["open", "save", "grayscale"].contains(&name) { return None; }
        let p = args.get(i)?;
        i += 1;
        match name {
            "open" => r.push(Do::Open(p.clone())),
            "save" => r.push(Do::Save(p.clone())),
            "grayscale" => r.push(Do::Gray(gray(p)?)),
            _ => {
                let (n, k) = num.unwrap();
                let parts: Vec<&str> = if *k == 1 { vec![p] } else { p.split(',').collect() };
                if parts.len() != *k { return None; }
                let v: Option<Vec<f32>> = parts.iter().map(|s| s.parse().ok()).collect();
                r.push(Do::F(n, v?));
            }
        }
    }
    Some(r)
}

/// runs the commands in `dir`; false when one fails (the later ones are not run)
fn perform(dir: &Path, cmds: &[Do]) -> bool {
    let mut img: Option<Image> = None;
    for c in cmds {
        match c {
            Do::Silent => continue,
            Do::Open(p) => match Image::open(dir.join(p)) { Ok(i) => img = Some(i), Err(_) => return false },
            c => {
                let Some(i) = img.as_mut() else { return false };
                match c {
                    Do::Save(p) => if i.save(dir.join(p)).is_err() { return false },
                    Do::Gray(g) => i.mod_colors(|c| c.to_gray_with_intensity(*g)),
                    Do::Invert => i.mod_colors(|c| c.invert()),
                    Do::F(n, v) => match *n {
                        "gamma" => i.mod_colors(|c| c.with_gamma(v[0])),
                        "level" => i.mod_colors(|c| c.with_level(v[0], v[1], v[2])),
                        "brightness" => i.mod_colors(|c| c.with_brightness(v[0])),
                        "contrast" => i.mod_colors(|c| c.with_contrast(v[0])),
                        "brightness-contrast" => i.mod_colors(|c| c.with_brightness_contrast(v[0], v[1])),
                        "saturation" => i.mod_colors(|c| c.with_saturation(v[0])),
                        "stretch-saturation" => i.mod_colors(|c| c.stretch_saturation(v[0])),
                        "lightness" => i.mod_colors(|c| c.with_lightness(v[0])),
                        "hue-rotate" => i.mod_colors(|c| c.with_hue_rotate(v[0])),
                        "rotate" => img = Some(i.rotate(v[0], FilterMode::Bilinear)),
                        "random-noise" => img = Some(i.random_noise(v[0])),
                        "salt-n-pepper-noise" => img = Some(i.salt_n_pepper_noise(v[0])),
                        "rgb-noise" => img = Some(i.rgb_noise(v[0])),
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                }
            }
        }
    }
    true
}

fn files(dir: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap()).map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default())).collect();
    v.sort();
    v
}

fn number(c: &mut Ctx, noise: bool) -> String {
    if noise { return "0".into(); }
    let v = c.rng.range(-32, 96) as f32 / 32.0;
    match c.rng.below(5) { 0 => format!("{:.3}", v), 1 => format!("{:e}", v), 2 => format!("+{}", v.abs()), _ => format!("{}", v) }
}

fn args(c: &mut Ctx) -> Vec<String> {
    let mut a: Vec<String> = vec![];
    let mut outs = 0;
    let inputs = ["a.png", "b.bmp", "a.png", "missing.png", "broken.png"];
    match c.rng.below(10) { 0 => a.extend(["-silent".into(), "-open".into(), "a.png".into()]), 1 => {} 2 => a.extend(["-open".into(), c.rng.pick(&inputs).to_string()]), 3 => a.push("-silent".into()), _ => a.push(c.rng.pick(&inputs[..3]).to_string()) }
    for _ in 0..c.rng.below(6) {
        match c.rng.below(14) {
            0 => a.push("-silent".into()),
            1 => a.push("-invert".into()),
            2 => a.extend(["-grayscale".into(), c.rng.pick(GRAYS).to_string()]),
            3 | 4 => {
                outs += 1;
                let ext = *c.rng.pick(&["png", "bmp", "png", "png", "nothing"]);
                if c.rng.chance(50) { a.push("-save".into()) }
                a.push(format!("out{}.{}", outs, ext));
            }
            5 => a.extend(["-open".into(), c.rng.pick(&inputs).to_string()]),
            6 if c.rng.chance(40) => a.push(c.rng.pick(&["-", "--invert", "-Invert", "-inverted", "-unknown", "-invert ", "-gamm", "-3"]).to_string()),
            _ => {
                let (n, k) = *c.rng.pick(NUMS);
                a.push(format!("-{}", n));
                let noise = n.ends_with("noise");
                let k = if c.rng.chance(6) { c.rng.below(5) as usize } else { k };
                let mut p: Vec<String> = (0..k).map(|_| number(c, noise)).collect();
                if n == "level" && p.len() == 3 { p = vec!["0.1".into(), "0.8".into(), number(c, false)] }
                if c.rng.chance(4) && !p.is_empty() { let i = c.rng.below(p.len() as u64) as usize; p[i] = c.rng.pick(&["", "x", "1x", " 1", "0x1", "1,5", "--1"]).to_string() }
                if c.rng.chance(97) { a.push(p.join(",")) }
            }
        }
    }
    if c.rng.chance(85) { outs += 1; a.push(format!("out{}.png", outs)) }
    a
}

pub fn c29(c: &mut Ctx) -> Res {
    let bin = PathBuf::from(std::env::var("D10_BIN").expect("D10_BIN"));
    let (real, want) = (c.scratch.join("real"), c.scratch.join("want"));
    let limit = c.budget(40.0, 180.0);
    let mut fixed: Vec<Vec<String>> = [
        "", "a.png", "a.png out.png", "-silent a.png out.png", "-silent", "a.png -invert out.png -invert out2.png", "-save out.png", "-invert a.png out.png", "a.png b.bmp", "a.png -open b.bmp -save out.png", "a.png out.png -unknown", "a.png out.png -gamma", "a.png out.png -level 0,1", "a.png out.png missing/out.png out3.png", "missing.png out.png",
        "a.png -level 0,1,1,1 out.png", "a.png -brightness-contrast 0.1 out.png", "a.png -gamma 1,2 out.png", "a.png -grayscale out.png", "a.png - out.png", "a.png -rotate -0.5 out.png", "a.png -brightness-contrast -0.1,0.2 out.png", "a.png -save -invert", "a.png -grayscale Red out.png", "a.png -gamma nan out.png",
    ].iter().map(|s| s.split_whitespace().map(String::from).collect()).collect();
    for (n, k) in NUMS {
        let v: Vec<String> = (0..*k).map(|i| if n.ends_with("noise") { "0".into() } else { format!("0.{}", 7 - 2 * i) }).collect();
        fixed.push(vec!["a.png".into(), format!("-{}", n), v.join(","), "out.png".into()]);
    }
    for g in GRAYS { fixed.push(vec!["a.png".into(), "-grayscale".into(), g.to_string(), "out.png".into()]) }
    // what is nearly an option, a number or a name is refused
    let close = |fixed: &mut Vec<Vec<String>>, pre: &[&str], base: &str| for t in affixes(base) {
        let a: Vec<String> = pre.iter().map(|s| s.to_string()).chain([t]).collect();
        let (mut x, mut y) = (a.clone(), a);
        x.push("out.png".into());
        y.extend(["0,0,1".into(), "out.png".into()]);
        if meaning(&x).is_none() && meaning(&y).is_none() { if fixed.len() % 2 == 0 { fixed.push(x) } else { fixed.push(y) } }
    };
    for (n, _) in NUMS { close(&mut fixed, &["a.png"], &format!("-{}", n)) }
    for n in ["silent", "open", "save", "grayscale", "invert"] { close(&mut fixed, &["a.png"], &format!("-{}", n)) }
    for (n, k) in NUMS {
        for v in [".5", "1"] {
            let r = |i: usize| (0..*k).map(|j| if j == i { "\u{1}" } else { "1" }).collect::<Vec<_>>().join(",");
            for i in 0..*k {
                for t in affixes(v) {
                    let a = vec!["a.png".into(), format!("-{}", n), r(i).replace('\u{1}', &t), "out.png".into()];
                    if meaning(&a).is_none() && (*k > 1 || *n == "gamma" || c.rng.chance(10)) { fixed.push(a) }
                }
            }
        }
    }
    for g in GRAYS { close(&mut fixed, &["a.png", "-grayscale"], g) }
    let small = {
        let _ = std::fs::create_dir_all(&real);
        Image::new(2, 2).save(real.join("a.png")).unwrap();
        std::fs::read(real.join("a.png")).unwrap()
    };
    let mut n = 0;
    while c.elapsed() < limit && n < fixed.len() + (if c.thorough { 20000 } else { 2000 }) {
        for d in [&real, &want] {
            let _ = std::fs::remove_dir_all(d);
            std::fs::create_dir_all(d).unwrap();
        }
        let fast = n < fixed.len() && meaning(&fixed[n]).is_none();
        if fast {
            // nothing may be run
            std::fs::write(real.join("a.png"), &small).unwrap();
            let ar = fixed[n].clone();
            n += 1;
            let out = Command::new(&bin).args(&ar).current_dir(&real).stdin(Stdio::null()).output().expect("the program starts");
            let r = if out.status.code() == Some(1) && !out.stderr.is_empty() && files(&real).len() == 1 { Ok(()) } else { Err(format!("exit status {:?}, should be refused: {}", out.status, trunc(&String::from_utf8_lossy(&out.stderr), 300))) };
            c.case("d10, refused argument lists", || format!("{:?}", ar), r)?;
            continue;
        }
        let (w, h) = (c.rng.range(1, 9) as u32, c.rng.range(1, 9) as u32);
        let (a, b) = (Image::new_from_buffer(c.image01(w, h)), Image::new_from_buffer(c.image01(h, w)));
        a.save(real.join("a.png")).unwrap();
        b.save(real.join("b.bmp")).unwrap();
        std::fs::write(real.join("broken.png"), b"\x89PNG\r\n\x1a\nbroken").unwrap();
        for (f, d) in files(&real) { std::fs::write(want.join(f), d).unwrap() }
        let ar = if n < fixed.len() { fixed[n].clone() } else { args(c) };
        n += 1;
        let m = meaning(&ar);
        let ok = match &m { None => false, Some(m) => match run(|| perform(&want, m)) { Ok(o) => o, Err(_) => continue } };
        let out = Command::new(&bin).args(&ar).current_dir(&real).stdin(Stdio::null()).output().expect("the program starts");
        let mut r = Ok(());
        if out.status.code() != Some(if ok { 0 } else { 1 }) { r = Err(format!("exit status {:?}, should be {}: {}", out.status, if ok { 0 } else { 1 }, trunc(&String::from_utf8_lossy(&out.stderr), 300))) }
        else if !ok && out.stderr.is_empty() { r = Err("fails without a message".into()) }
        else {
            let (x, y) = (files(&real), files(&want));
            if x != y {
                let d: Vec<String> = y.iter().filter(|f| !x.contains(f)).chain(x.iter().filter(|f| !y.contains(f))).map(|f| f.0.clone()).collect();
                r = Err(format!("the files differ from those of the commands: {:?}", d));
            }
        }
        let kind = match (&m, ok) { (None, _) => "refused", (_, false) => "failing", _ => "successful" };
        let r2 = c.case(&format!("d10, {} argument lists", kind), || format!("{:?} on a.png {}x{}", ar, w, h), r);
        if r2.is_err() { let _ = (std::fs::remove_dir_all(&real), std::fs::remove_dir_all(&want)); }
        r2?;
    }
    // paths are taken as they are, also those that are no UTF-8
    use std::os::unix::ffi::OsStringExt;
    let os = |b: &[u8]| std::ffi::OsString::from_vec(b.to_vec());
    let (i, o1, o2) = (os(b"in\xff.png"), os(b"o1\xfe.png"), os(b"o2\xc3.png"));
    let _ = (std::fs::remove_dir_all(&real), std::fs::create_dir_all(&real));
    Image::new_from_buffer(c.image01(3, 2)).save(real.join("a.png")).unwrap();
    std::fs::rename(real.join("a.png"), real.join(&i)).unwrap();
    let out = Command::new(&bin).args([&i, &o1, &os(b"-save"), &o2]).current_dir(&real).stdin(Stdio::null()).output().expect("the program starts");
    let r = if out.status.success() && real.join(&o1).is_file() && real.join(&o2).is_file() { Ok(()) } else { Err(format!("exit status {:?}, files {:?}", out.status, files(&real).iter().map(|f| f.0.clone()).collect::<Vec<_>>())) };
    let _ = std::fs::remove_dir_all(&real);
    c.case("d10, paths that are no UTF-8", || format!("{:?} {:?} -save {:?}", i, o1, o2), r)?;
    Ok(())
}
