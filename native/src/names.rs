use crate::ctx::*;
use d10::ops::*;
use d10::*;
use std::mem::discriminant;
use std::str::FromStr;

fn names<T: FromStr>(c: &mut Ctx, ty: &str, table: &[(&str, T)]) -> Res {
    let by = |s: &str| table.iter().find(|(n, _)| *n == s).map(|(_, v)| discriminant(v));
    let mut words: Vec<String> = table.iter().map(|(n, _)| n.to_string()).collect();
    for (n, _) in table {
        let mut cs = n.chars();
        let cap: String = cs.next().map(|x| x.to_uppercase().collect::<String>()).unwrap_or_default() + cs.as_str();
        words.extend([n.to_uppercase(), cap, format!("{} ", n), format!(" {}", n), format!("{}\0", n), n[..n.len() - 1].to_string(), n[1..].to_string(), format!("{}{}", n, n), n.replace('_', "-"), n.replace('_', "")]);
        words.extend(affixes(n));
        for _ in 0..20 {
            let mut b: Vec<char> = n.chars().collect();
            let i = c.rng.below(b.len() as u64) as usize;
            b[i] = (b'a' + c.rng.below(26) as u8) as char;
            words.push(b.into_iter().collect());
        }
    }
    words.extend(ALL.iter().map(|s| s.to_string()));
    for s in words {
        let want = by(&s);
        let r = run(|| s.parse::<T>().ok()).and_then(|g| {
            let g = g.map(|v| discriminant(&v));
            if g == want { Ok(()) } else { Err(format!("is {}, should be {}", if g.is_some() { "accepted as one of the variants" } else { "refused" }, if want.is_some() { "the variant of that name" } else { "refused" })) }
        });
        c.case(ty, || format!("{:?}", s), r)?;
    }
    Ok(())
}

const ALL: &[&str] = &["", "0", "1x1", "1x2", "1x4", "2x1", "2x2", "2x4", "3x1", "4:1:0", "4:1:1", "4:2:0", "4:2:1", "4:2:2", "4:4:0", "4:4:1", "4:4:2", "4:4:4", "4x1", "4x2", "Lanczos", "addition", "auto", "average", "avg", "best", "bicubic", "bilinear", "blue", "brightness", "colored", "darken", "default", "drawing", "fast", "gray", "green", "hsl", "hsl_darken", "hsl_lighten", "hsv", "hue", "icon", "l16", "l8", "la16", "la8", "lab", "lanczos3", "laplace", "lch", "lch_color", "lch_darken", "lch_hue", "lch_lighten", "lch_saturation", "lighten", "lightness", "lossless", "nearest", "no_filter", "none", "normal", "nothing", "paeth", "photo", "picture", "rec601luma", "rec709luma", "red", "reduced_colors", "rgb", "rgb16", "rgb32", "rgb8", "rgba16", "rgba8", "saturation", "saturation_lightness", "sobel", "srgb", "sub", "subtract", "text", "up", "value", "xyz", "yuv"];

pub fn c28(c: &mut Ctx) -> Res {
    names(c, "EdgeDetection", &[("sobel", EdgeDetection::Sobel), ("laplace", EdgeDetection::Laplace), ("default", EdgeDetection::Sobel)])?;
    names(c, "DrawingMode", &[("gray", DrawingMode::Gray), ("colored", DrawingMode::Colored), ("reduced_colors", DrawingMode::ReducedColors), ("default", DrawingMode::Colored)])?;
    names(c, "SaturationMode", &[("hsl", SaturationMode::Hsl), ("hsv", SaturationMode::Hsv), ("lch", SaturationMode::Lch), ("default", SaturationMode::Hsl)])?;
    names(c, "BalanceMode", &[("rgb", BalanceMode::Rgb), ("srgb", BalanceMode::Srgb), ("hsv", BalanceMode::Hsv), ("hsl", BalanceMode::Hsl), ("lch", BalanceMode::Lch)])?;
    names(c, "FilterMode", &[("nearest", FilterMode::Nearest), ("bilinear", FilterMode::Bilinear), ("bicubic", FilterMode::Bicubic), ("lanczos3", FilterMode::Lanczos3), ("auto", FilterMode::Auto), ("Lanczos", FilterMode::Lanczos3), ("default", FilterMode::Auto)])?;
    names(c, "EqualizeMode", &[("rgb", EqualizeMode::Rgb), ("srgb", EqualizeMode::Srgb), ("saturation", EqualizeMode::Saturation), ("lightness", EqualizeMode::Lightness), ("saturation_lightness", EqualizeMode::SaturationLightness)])?;
    names(c, "BlendOp", &[("normal", BlendOp::Normal), ("addition", BlendOp::Addition), ("subtract", BlendOp::Subtract), ("darken", BlendOp::Darken), ("lighten", BlendOp::Lighten), ("hsl_darken", BlendOp::HslDarken), ("hsl_lighten", BlendOp::HslLighten), ("lch_darken", BlendOp::LchDarken), ("lch_lighten", BlendOp::LchLighten), ("lch_hue", BlendOp::LchHue), ("lch_saturation", BlendOp::LchSaturation), ("lch_color", BlendOp::LchColor)])?;
    names(c, "PngColorType", &[("l8", PngColorType::L8), ("la8", PngColorType::La8), ("l16", PngColorType::L16), ("la16", PngColorType::La16), ("rgb8", PngColorType::Rgb8), ("rgba8", PngColorType::Rgba8), ("rgb16", PngColorType::Rgb16), ("rgba16", PngColorType::Rgba16)])?;
    names(c, "PngFilterType", &[("no_filter", PngFilterType::NoFilter), ("sub", PngFilterType::Sub), ("up", PngFilterType::Up), ("avg", PngFilterType::Avg), ("paeth", PngFilterType::Paeth)])?;
    names(c, "PngCompression", &[("default", PngCompression::Default), ("fast", PngCompression::Fast), ("best", PngCompression::Best)])?;
    names(c, "WebPPreset", &[("default", WebPPreset::Default), ("picture", WebPPreset::Picture), ("photo", WebPPreset::Photo), ("drawing", WebPPreset::Drawing), ("icon", WebPPreset::Icon), ("text", WebPPreset::Text), ("lossless", WebPPreset::Lossless)])?;
    names(c, "JpegSamplingFactor", &[("1x1", JpegSamplingFactor::F_1_1), ("1x2", JpegSamplingFactor::F_1_2), ("2x1", JpegSamplingFactor::F_2_1), ("2x2", JpegSamplingFactor::F_2_2), ("4x1", JpegSamplingFactor::F_4_1), ("4x2", JpegSamplingFactor::F_4_2), ("1x4", JpegSamplingFactor::F_1_4), ("2x4", JpegSamplingFactor::F_2_4), ("4:4:4", JpegSamplingFactor::R_4_4_4), ("4:4:0", JpegSamplingFactor::R_4_4_0), ("4:4:1", JpegSamplingFactor::R_4_4_1), ("4:2:2", JpegSamplingFactor::R_4_2_2), ("4:2:0", JpegSamplingFactor::R_4_2_0), ("4:2:1", JpegSamplingFactor::R_4_2_1), ("4:1:1", JpegSamplingFactor::R_4_1_1), ("4:1:0", JpegSamplingFactor::R_4_1_0)])?;
    names(c, "BmpColorType", &[("l8", BmpColorType::L8), ("la8", BmpColorType::La8), ("rgb8", BmpColorType::Rgb8), ("rgba8", BmpColorType::Rgba8)])?;
    names(c, "IcoColorType", &[("l8", IcoColorType::L8), ("la8", IcoColorType::La8), ("rgb8", IcoColorType::Rgb8), ("rgba8", IcoColorType::Rgba8)])?;
    names(c, "Intensity", &[("average", Intensity::Average), ("rec601luma", Intensity::Rec601Luma), ("rec709luma", Intensity::Rec709Luma), ("brightness", Intensity::Brightness), ("lightness", Intensity::Lightness), ("saturation", Intensity::Saturation), ("red", Intensity::Red), ("green", Intensity::Green), ("blue", Intensity::Blue), ("default", Intensity::Rec709Luma)])?;
    Ok(())
}
