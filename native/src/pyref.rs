//! Reference values for the Python module (C25): one request per line, one answer per line.
//! Request: operation \t arguments \t image \t image; an image is "w h" followed by the bits of its channels.
use d10::illuminant::{D50, D65, E};
use d10::observer::{O10, O2};
use d10::{Color, EncodingFormat, Image, Rgb};
use std::io::{BufRead, Write};

fn img(t: &str) -> Image {
    let v: Vec<&str> = t.split_whitespace().collect();
    let (w, h) = (v[0].parse().unwrap(), v[1].parse().unwrap());
    let f: Vec<f32> = v[2..].iter().map(|x| f32::from_bits(u32::from_str_radix(x, 16).unwrap())).collect();
    Image::new_from_raw(w, h, f.chunks(4).map(|c| Rgb { data: [c[0], c[1], c[2], c[3]] }).collect())
}
fn show(i: &Image) -> String {
    let mut s = format!("I {} {}", i.width(), i.height());
    for p in i.data() {
        for v in p.data {
            s += &format!(" {:08x}", v.to_bits());
        }
    }
    s
}
fn col(c: [f32; 4]) -> String {
    format!("C {:08x} {:08x} {:08x} {:08x}", c[0].to_bits(), c[1].to_bits(), c[2].to_bits(), c[3].to_bits())
}
fn num(f: f32) -> String {
    format!("F {:08x}", f.to_bits())
}

macro_rules! color_ops {
    ($c:expr, $op:expr) => {
        match $op {
            "rgb" => col($c.to_rgb().data),
            "srgb" => col($c.to_srgb().data),
            "hsl" => col($c.to_hsl().data),
            "hsv" => col($c.to_hsv().data),
            "yuv" => col($c.to_yuv().data),
            "xyz" => col($c.to_xyz().data),
            "lab D65 2" => col($c.to_lab::<D65, O2>().data),
            "lab D65 10" => col($c.to_lab::<D65, O10>().data),
            "lab D50 2" => col($c.to_lab::<D50, O2>().data),
            "lab D50 10" => col($c.to_lab::<D50, O10>().data),
            "lab E 2" => col($c.to_lab::<E, O2>().data),
            "lab E 10" => col($c.to_lab::<E, O10>().data),
            "lch D65 2" => col($c.to_lch::<D65, O2>().data),
            "lch D65 10" => col($c.to_lch::<D65, O10>().data),
            "lch D50 2" => col($c.to_lch::<D50, O2>().data),
            "lch D50 10" => col($c.to_lch::<D50, O10>().data),
            "lch E 2" => col($c.to_lch::<E, O2>().data),
            "lch E 10" => col($c.to_lch::<E, O10>().data),
            "text" => format!("T {}", $c),
            "type_name" => format!("T {}", $c.type_name()),
            "has_transparency" => format!("B {}", $c.has_transparency()),
            _ => "?".into(),
        }
    };
}

fn rgb(op: &str, c: Rgb, a: &[f32], o: Rgb, t: &str) -> String {
    let z = |c: Rgb| col(c.data);
    match op {
        "is_grayscale" => format!("B {}", c.is_grayscale()),
        "to_gray" => z(if t.is_empty() { c.to_gray() } else { c.to_gray_with_intensity(t.parse().unwrap()) }),
        "invert" => z(c.invert()),
        "difference" => z(c.difference(&o)),
        "with_gamma" => z(c.with_gamma(a[0])),
        "with_gamma_opt" => z(c.with_gamma_opt(a[0])),
        "with_level" => z(c.with_level(a[0], a[1], a[2])),
        "with_brightness" => z(c.with_brightness(a[0])),
        "with_saturation" => z(c.with_saturation(a[0])),
        "stretch_saturation" => z(c.stretch_saturation(a[0])),
        "with_gamma_saturation" => z(c.with_gamma_saturation(a[0])),
        "with_lightness" => z(c.with_lightness(a[0])),
        "with_hue_rotate" => z(c.with_hue_rotate(a[0])),
        "with_contrast" => z(c.with_contrast(a[0])),
        "with_brightness_contrast" => z(c.with_brightness_contrast(a[0], a[1])),
        "alpha_blend" => z(c.alpha_blend(o)),
        "with_vibrance" => z(c.with_vibrance(a[0])),
        "with_sepia" => z(c.with_sepia()),
        "max" => num(c.max()),
        "min" => num(c.min()),
        "modulate" => z(c.modulate(a[0], a[1], a[2])),
        _ => color_ops!(c, op),
    }
}

fn image(op: &str, i: &Image, a: &[&str], o: Option<&Image>) -> String {
    let f = |k: usize| a[k].parse::<f32>().unwrap();
    let u = |k: usize| a[k].parse::<u32>().unwrap();
    let n = |k: usize| a[k].parse::<i32>().unwrap();
    let of = |k: usize| if a[k] == "-" { None } else { Some(f(k)) };
    let r = match op {
        "has_transparency" => return format!("B {}", i.has_transparency()),
        "is_grayscale" => return format!("B {}", i.is_grayscale()),
        "is_in_image" => return format!("B {}", i.is_in_image(n(0), n(1))),
        "get_pixel_clamped" => return col(i.get_pixel_clamped(n(0), n(1)).data),
        "crop" => i.crop(u(0), u(1), u(2), u(3)),
        "flip_horizontal" => i.flip_horizontal(),
        "flip_vertical" => i.flip_vertical(),
        "rotate90" => i.rotate90(),
        "rotate180" => i.rotate180(),
        "rotate270" => i.rotate270(),
        "rotate" => i.rotate(f(0), a[1].parse().unwrap()),
        "resize" => i.resize(u(0), u(1), a[2].parse().unwrap()),
        "resize_pct" => i.resize_pct(f(0), a[1].parse().unwrap()),
        "edge_detection" => i.edge_detection(a[0].parse().unwrap()),
        "with_jpeg_quality" => i.with_jpeg_quality(u(0) as u8, a[1] == "true"),
        "random_noise" | "add_random_noise" => i.random_noise(f(0)),
        "salt_n_pepper_noise" | "add_salt_n_pepper_noise" => i.salt_n_pepper_noise(f(0)),
        "rgb_noise" | "add_rgb_noise" => i.rgb_noise(f(0)),
        "gaussian_noise" | "add_gaussian_noise" => i.gaussian_noise(f(0)),
        "gaussian_blur" => i.gaussian_blur(u(0), of(1)),
        "unsharp" => i.unsharp(u(0), f(1), of(2)),
        "drawing" => i.drawing(u(0), a[1].parse().unwrap()),
        "interlace" => i.interlace(u(0)),
        "apply_palette" | "apply_palette_in_place" => i.apply_palette(o.unwrap()),
        "despeckle" => i.despeckle(f(0), u(1) as u8),
        "symmetric_nearest_neighbor" => i.symmetric_nearest_neighbor(u(0) as usize, a[1] == "true"),
        "blend" => i.blend(o.unwrap(), a[0].parse().unwrap(), f(1)),
        "stretch_contrast" => i.stretch_contrast(f(0)),
        "optimize_saturation" => i.optimize_saturation(f(0), a[1].parse().unwrap()),
        "change_color_temperature" => i.change_color_temperature(f(0), f(1), f(2)),
        "optimize_color_temperature" => i.optimize_color_temperature(f(0), f(1)),
        "optimize_lightness" => i.optimize_lightness(f(0)),
        "white_balance" => i.white_balance(f(0)),
        "balance" => i.balance(a[0].parse().unwrap(), f(1)),
        "equalize" => i.equalize(a[0].parse().unwrap()),
        "encode" => {
            let b = |k: usize| a[k] == "true";
            let e = match a[0] {
                "jpeg" => EncodingFormat::Jpeg { quality: u(1) as u8, progressive: b(2), sampling_factor: if a[3] == "-" { None } else { Some(a[3].parse().unwrap()) }, grayscale: b(4), optimize_huffman_tables: b(5) },
                "png" => EncodingFormat::Png { color_type: a[1].parse().unwrap(), compression: a[2].parse().unwrap(), filter: a[3].parse().unwrap() },
                "gif" => EncodingFormat::Gif,
                "bmp" => EncodingFormat::Bmp { color_type: a[1].parse().unwrap() },
                "ico" => EncodingFormat::Ico { color_type: a[1].parse().unwrap() },
                "webp" => EncodingFormat::WebP { quality: u(1) as u8, preset: a[2].parse().unwrap() },
                _ => return "?".into(),
            };
            return match i.save_to_buffer(e) {
                Ok(v) => format!("H {}", v.iter().map(|b| format!("{:02x}", b)).collect::<String>()),
                Err(_) => "E".into(),
            };
        }
        _ => return "?".into(),
    };
    show(&r)
}

pub fn serve() {
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split('\t').collect();
        let args: Vec<&str> = if p[1].is_empty() { vec![] } else { p[1].split(',').collect() };
        let r = if let Some(op) = p[0].strip_prefix("c.") {
            let f: Vec<f32> = args.iter().filter_map(|x| x.parse().ok()).collect();
            let t = args.iter().find(|x| x.parse::<f32>().is_err()).copied().unwrap_or("");
            let c = img(p[2]).data()[0];
            let o = if p.len() > 3 { img(p[3]).data()[0] } else { c };
            rgb(op, c, &f, o, t)
        } else {
            let i = img(p[2]);
            let o = if p.len() > 3 { Some(img(p[3])) } else { None };
            image(p[0], &i, &args, o.as_ref())
        };
        let mut out = out.lock();
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
}
