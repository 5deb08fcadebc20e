//! C18: the command line tool gives the results of the library, and says so when it can't.
use crate::ctx::*;
use crate::gen::{self, cube_palette, valid_palette};
use crate::images::{full_rank, show};
use image::{DynamicImage, Rgb, RgbImage};
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// all files below a directory with their contents
fn files(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(base: &Path, dir: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(dir).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                walk(base, &p, out);
            } else {
                out.insert(p.strip_prefix(base).unwrap().to_str().unwrap().into(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}

struct Out {
    code: Option<i32>,
    stdout: String,
}

fn cli(dir: &Path, args: &[String]) -> Out {
    let o = Command::new(std::env::var("MON_CLI").expect("MON_CLI"))
        .args(args)
        .current_dir(dir)
        .stdin(Stdio::null())
        .output()
        .expect("can't run the CLI");
    Out { code: o.status.code(), stdout: String::from_utf8_lossy(&o.stdout).into() }
}

fn hex(ctx: &mut Ctx, p: &[Rgb<u8>]) -> String {
    let style = ctx.rng.below(3);
    let v: Vec<String> = p
        .iter()
        .map(|c| {
            let lower = format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2]);
            match style {
                0 => lower,
                1 => lower.to_uppercase(),
                _ => lower.chars().map(|c| if ctx.rng.bool(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
            }
        })
        .collect();
    v.join(",")
}

fn store(ctx: &mut Ctx, dir: &Path, img: &RgbImage) -> Option<(String, RgbImage)> {
    let ext = *ctx.rng.pick(&["png", "png", "png", "bmp", "tiff", "tga", "ppm", "jpg"]);
    let name = ctx.rng.pick(&["in", "a b", "picture.one", "sub/in", "ümlaut"]).to_string() + "." + ext;
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let d = DynamicImage::ImageRgb8(img.clone());
    let d = match (ext, ctx.rng.below(5)) {
        ("png" | "tiff", 0) => DynamicImage::ImageRgba8(d.into_rgba8()),
        ("png" | "tiff", 1) => DynamicImage::ImageRgb16(d.into_rgb16()),
        _ => d,
    };
    d.save(dir.join(&name)).ok()?;
    // (also what JPEG made of it)
    let img = image::open(dir.join(&name)).ok()?.into_rgb8();
    Some((name, img))
}

fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

pub fn c18(ctx: &mut Ctx) {
    let root = PathBuf::from(std::env::var("MON_SCRATCH").expect("MON_SCRATCH"));
    let dir = root.join(format!("cli-{}-{}", std::process::id(), ctx.case));
    std::fs::create_dir_all(&dir).unwrap();
    let _scratch = Scratch(dir.clone());
    let (kind, img) = if ctx.rng.bool(1, 7) {
        let k = *ctx.rng.pick(&["gray", "plane", "line", "const"]);
        let (w, h) = gen::dims(&mut ctx.rng, 7);
        (k, gen::image(k, w, h, &mut ctx.rng))
    } else {
        gen::any_image(&mut ctx.rng, gen::IMAGE_KINDS, 8)
    };
    let Some((name, img)) = store(ctx, &dir, &img) else { return };
    let possible = full_rank(&img);
    let before = files(&dir);
    let what = ctx.rng.below(10);
    let (w, h) = img.dimensions();
    if what < 4 {
        // generate-palette
        let mut a = strs(&["generate-palette"]);
        let (mut min, mut max, mut bound) = (4usize, 10usize, 2.0 / 255.0);
        if ctx.rng.bool(1, 2) {
            min = *ctx.rng.pick(&[4, 5, 6, 7, 20, 255]);
            a.extend([ctx.rng.pick(&["-m", "--min-size"]).to_string(), min.to_string()]);
        }
        if ctx.rng.bool(1, 2) {
            max = *ctx.rng.pick(&[0, 4, 6, 8, 30, 255]);
            a.extend(["--max-size".into(), max.to_string()]);
        }
        if ctx.rng.bool(1, 2) {
            bound = *ctx.rng.pick(&[0.0, 0.01, 0.05, 0.3, 1e9]);
            a.extend([ctx.rng.pick(&["-e", "--error-bound"]).to_string(), format!("{bound}")]);
        }
        let bad = ctx.rng.below(12);
        let mut input = name.clone();
        match bad {
            0 => a.extend(strs(&["--min-size", ctx.rng.pick(&["3", "0", "256", "-1", "x", ""])])),
            1 => a.extend(strs(&["--max-size", ctx.rng.pick(&["256", "-1", "1000", "x"])])),
            2 => input = "missing.png".into(),
            3 => {
                input = "garbage.png".into();
                std::fs::write(dir.join(&input), b"\x89PNG\r\n\x1a\nnonsense").unwrap();
            }
            _ => (),
        }
        let expect_fail = bad < 4;
        let before = files(&dir);
        if ctx.rng.bool(1, 2) { a.push(input) } else { a.insert(1, input) }
        ctx.desc(format!("{kind} {w}x{h} {}", a.join(" ")));
        let o = cli(&dir, &a);
        let want = ctx.attempt(|| compute_palette(&img, min, max, bound)).ok();
        if expect_fail || want.is_none() {
            ctx.check(o.code.is_some_and(|c| c != 0), || format!("the exit code is {:?} although there's no palette", o.code));
            ctx.check(o.stdout.trim().is_empty(), || format!("{:?} is printed although there's no palette", o.stdout));
            ctx.count("palettes_refused", 1);
        } else {
            let want: Vec<String> = want.unwrap().iter().map(|c| format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2])).collect();
            ctx.check(o.code == Some(0), || format!("the exit code is {:?}", o.code));
            ctx.check(o.stdout.trim_end() == want.join(","), || format!("prints {:?} instead of {:?}", o.stdout, want.join(",")));
            ctx.count("palettes", 1);
            if bad > 8 && want.len() <= 12 && possible {
                // what is printed can be used
                let r = cli(&dir, &strs(&["recolor-image", "-d", o.stdout.trim(), "-i", &name, "-r", o.stdout.trim(), "-o", "back.png"]));
                ctx.check(r.code == Some(0) && dir.join("back.png").exists(), || "the palette that was printed isn't accepted".into());
                let _ = std::fs::remove_file(dir.join("back.png"));
                ctx.count("palettes_reused", 1);
            }
        }
        ctx.check(files(&dir) == before, || "generate-palette changes files".into());
        ctx.nontrivial(&[img.as_raw(), a.join(" ").as_bytes()].concat());
        return;
    }
    let n = ctx.rng.range(4, 9) as usize;
    let mut pal = if ctx.rng.bool(1, 4) { cube_palette() } else { valid_palette(&mut ctx.rng, n) };
    let mut recol: Vec<Rgb<u8>> = (0..pal.len()).map(|_| Rgb([ctx.rng.byte(), ctx.rng.byte(), ctx.rng.byte()])).collect();
    if ctx.rng.bool(1, 3) {
        // new colours may be equal
        let few = [recol[0], Rgb([0; 3]), Rgb([255; 3])];
        let m = ctx.rng.range(1, 3) as u64;
        for c in &mut recol {
            *c = few[ctx.rng.below(m) as usize];
        }
    }
    let channels = ctx.rng.bool(1, 2);
    let ext = *ctx.rng.pick(&["png", "png", "bmp", "tiff", "png"]);
    let stem = *ctx.rng.pick(&["out", "o.u.t", "sub/out", "x y", "sub/é"]);
    let mut output = format!("{stem}.{ext}");
    if ctx.rng.bool(1, 4) {
        output = dir.join(&output).to_str().unwrap().into();
    }
    let bad = ctx.rng.below(16);
    let mut refused = !possible;
    let mut input = name.clone();
    match bad {
        0 => {
            recol.pop();
            refused = true;
        }
        1 => {
            recol.push(Rgb([1, 2, 3]));
            refused = true;
        }
        2 => {
            let c = pal[0];
            pal[1] = c;
            refused = true;
        }
        3 => {
            pal.truncate(3);
            recol.truncate(3);
            refused = true;
        }
        4 => {
            input = "nothing.png".into();
            refused = true;
        }
        _ => (),
    }
    let (mut d, mut r) = (hex(ctx, &pal), hex(ctx, &recol));
    if (5..9).contains(&bad) {
        let s = if ctx.rng.bool(1, 2) { &mut d } else { &mut r };
        let at = ctx.rng.below(pal.len() as u64) as usize * 7;
        match ctx.rng.below(7) {
            0 => *s = s[..s.len() - 1].into(),
            1 => s.push('0'),
            2 => s.push(','),
            3 => s.replace_range(at..at + 1, ctx.rng.pick(&["g", "+", "-", " ", "#", "G", "/", ":", "x", "."])),
            4 => s.replace_range(at..at + 2, "+1"),
            5 => s.replace_range(at..at + 2, "é"),
            _ => s.clear(),
        }
        refused = true;
    }
    // something may be there already
    let opath = dir.join(&output);
    let existing = ctx.rng.bool(1, 3);
    if existing {
        std::fs::write(&opath, b"old").unwrap();
    }
    let base = files(&dir);
    let mut a = strs(&["recolor-image"]);
    let mut opts = vec![
        vec![ctx.rng.pick(&["-d", "--decomposition-palette"]).to_string(), d],
        vec![ctx.rng.pick(&["-r", "--reconstruction-palette"]).to_string(), r],
        vec![ctx.rng.pick(&["-i", "--input-image"]).to_string(), input],
        vec![ctx.rng.pick(&["-o", "--output-image"]).to_string(), output.clone()],
    ];
    if channels {
        opts.push(vec![ctx.rng.pick(&["-c", "--save-individual-channels"]).to_string()]);
    }
    while !opts.is_empty() {
        let i = ctx.rng.below(opts.len() as u64) as usize;
        a.extend(opts.swap_remove(i));
    }
    ctx.desc(format!("{kind} {w}x{h} {} {}", a.join(" "), show(&pal)));
    let o = cli(&dir, &a);
    let after = files(&dir);
    ctx.nontrivial(&[img.as_raw(), a.join(" ").as_bytes()].concat());
    if refused {
        ctx.check(o.code.is_some_and(|c| c != 0), || format!("the exit code is {:?} for something impossible", o.code));
        ctx.check(after == base, || {
            let changed: Vec<_> = after.iter().filter(|(k, v)| base.get(*k) != Some(v)).map(|(k, _)| k.as_str()).collect();
            format!("files are written ({}) although it's impossible", changed.join(", "))
        });
        ctx.count("recolorings_refused", 1);
        return;
    }
    let iw = ImageWeights::new(&img);
    let Some(dec) = ctx.must("DecomposedImage::new", || DecomposedImage::new(&iw, &pal)) else { return };
    let Ok(dec) = dec else {
        ctx.viol("a valid palette is rejected");
        return;
    };
    ctx.check(o.code == Some(0), || format!("the exit code is {:?}", o.code));
    let mut expected = before.clone();
    expected.remove(&output);
    let mut names: Vec<String> = before.keys().cloned().collect();
    let rel = |p: &Path| p.strip_prefix(&dir).unwrap().to_str().unwrap().to_string();
    names.push(rel(&opath));
    match image::open(&opath) {
        Err(e) => ctx.viol(format!("no recoloured image: {e}")),
        Ok(i) => {
            let i = i.into_rgb8();
            ctx.check(i == dec.reconstruct(&recol).unwrap(), || "the recoloured image isn't the library's".into());
            ctx.count("recolored", 1);
        }
    }
    if channels {
        for (k, c) in pal.iter().enumerate() {
            let p = opath.with_file_name(format!(
                "{}_channel_{k}_{:02X}{:02X}{:02X}.{ext}", opath.file_stem().unwrap().to_str().unwrap(), c[0], c[1], c[2]
            ));
            names.push(rel(&p));
            match image::open(&p) {
                Err(e) => ctx.viol(format!("no channel {k} as {}: {e}", rel(&p))),
                Ok(i) => {
                    let want = dec.get_channel_grayscale(k).unwrap();
                    let got = i.into_rgb8();
                    ctx.check(
                        got.dimensions() == want.dimensions()
                            && got.pixels().zip(want.pixels()).all(|(a, b)| a.0 == [b[0]; 3]),
                        || format!("channel {k} isn't the library's"),
                    );
                    ctx.count("channels", 1);
                }
            }
        }
    }
    let got: Vec<&String> = after.keys().filter(|k| !names.contains(k)).collect();
    ctx.check(got.is_empty(), || format!("other files are written: {got:?}"));
    ctx.check(before.iter().all(|(k, v)| names.last() == Some(k) || k == &rel(&opath) || after.get(k) == Some(v)), || "other files are changed".into());
    if existing {
        ctx.count("overwritten", 1);
    }
}
