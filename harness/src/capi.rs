//! C13: the C API gives the results of the Rust API and stays within the buffers it's given.
use crate::ctx::*;
use crate::gen::{self, cube_palette, valid_palette};
use crate::images::{full_rank, show};
use image::{Rgb, RgbImage};
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};
use std::ffi::{c_void, CString};
use std::io::Write;

type P = *const c_void;

#[derive(Clone, Copy)]
struct Api {
    create_image_weights: unsafe extern "C" fn(u32, u32, *const u8) -> P,
    free_image_weights: unsafe extern "C" fn(P),
    compute_palette: unsafe extern "C" fn(u32, u32, *const u8, u8, u8, f64, *mut u8) -> *mut u8,
    free_computed_palette: unsafe extern "C" fn(*mut u8, u8),
    create_decomposed_image: unsafe extern "C" fn(P, u8, *const u8) -> P,
    free_decomposed_image: unsafe extern "C" fn(P),
    width: unsafe extern "C" fn(P) -> u32,
    height: unsafe extern "C" fn(P) -> u32,
    channels: unsafe extern "C" fn(P) -> u8,
    reconstruct_image: unsafe extern "C" fn(P, *const u8, *mut u8) -> u8,
    grayscale: unsafe extern "C" fn(P, u8, *mut u8) -> u8,
}

fn load() -> Api {
    let path = CString::new(std::env::var("MON_CDYLIB").expect("MON_CDYLIB")).unwrap();
    unsafe {
        let h = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        assert!(!h.is_null(), "dlopen failed");
        macro_rules! sym {
            ($n:literal) => {{
                let p = libc::dlsym(h, concat!($n, "\0").as_ptr().cast());
                assert!(!p.is_null(), concat!("missing symbol ", $n));
                std::mem::transmute(p)
            }};
        }
        Api {
            create_image_weights: sym!("create_image_weights"),
            free_image_weights: sym!("free_image_weights"),
            compute_palette: sym!("compute_palette"),
            free_computed_palette: sym!("free_computed_palette"),
            create_decomposed_image: sym!("create_decomposed_image"),
            free_decomposed_image: sym!("free_decomposed_image"),
            width: sym!("get_decomposed_image_width"),
            height: sym!("get_decomposed_image_height"),
            channels: sym!("get_decomposed_image_num_channels"),
            reconstruct_image: sym!("reconstruct_image"),
            grayscale: sym!("grayscale_image_channel"),
        }
    }
}

const CANARY: u8 = 0xA5;

/// A buffer that ends right before an inaccessible page; the bytes before it are watched.
pub struct Guarded {
    base: *mut u8,
    total: usize,
    start: usize,
    len: usize,
}

impl Guarded {
    pub fn new(len: usize, fill: u8) -> Guarded {
        let page = 4096;
        let data = (len + 64).div_ceil(page) * page;
        let total = data + page;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0,
            ) as *mut u8;
            assert!(base as isize != -1, "mmap failed");
            std::ptr::write_bytes(base, CANARY, data);
            libc::mprotect(base.add(data).cast(), page, libc::PROT_NONE);
            let start = data - len;
            std::ptr::write_bytes(base.add(start), fill, len);
            Guarded { base, total, start, len }
        }
    }
    pub fn from(bytes: &[u8]) -> Guarded {
        let g = Guarded::new(bytes.len(), 0);
        unsafe {
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), g.ptr(), bytes.len());
            // input isn't written to
            libc::mprotect(g.base.cast(), g.total - 4096, libc::PROT_READ);
        }
        g
    }
    pub fn ptr(&self) -> *mut u8 {
        unsafe { self.base.add(self.start) }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
    }
    pub fn intact(&self) -> bool {
        unsafe { std::slice::from_raw_parts(self.base, self.start) }.iter().all(|b| *b == CANARY)
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.cast(), self.total);
        }
    }
}

fn pbytes(p: &[Rgb<u8>]) -> Vec<u8> {
    p.iter().flat_map(|c| c.0).collect()
}

pub struct Case {
    pub img: RgbImage,
    pub min: u8,
    pub max: u8,
    pub bound: f64,
    pub pal: Vec<Rgb<u8>>,
    pub recol: Vec<Rgb<u8>>,
    pub kind: &'static str,
}

pub struct Expected {
    pub weights: bool,
    pub palette: Option<Vec<u8>>,
    pub decomposed: bool,
    pub gray: Vec<Vec<u8>>,
    pub rec: Vec<u8>,
}

pub fn case(ctx: &mut Ctx, max: u32) -> Case {
    let deg = ctx.rng.bool(1, 8);
    let (kind, img) = if deg {
        let kind = *ctx.rng.pick(&["gray", "const", "plane", "line", "posgray"]);
        let (w, h) = gen::dims(&mut ctx.rng, 8);
        (kind, gen::image(kind, w, h, &mut ctx.rng))
    } else {
        gen::any_image(&mut ctx.rng, gen::IMAGE_KINDS, max)
    };
    // more colours than a byte can count, whatever the limits are
    let many = ctx.rng.bool(1, 60);
    let (kind, img) = if many { ("many", gen::many_colours(&mut ctx.rng)) } else { (kind, img) };
    let n = ctx.rng.range(4, 12) as usize;
    let mut pal = if ctx.rng.bool(1, 5) { cube_palette() } else { valid_palette(&mut ctx.rng, n) };
    match ctx.rng.below(8) {
        0 => {
            let c = pal[0];
            pal.push(c);
        }
        1 => pal.truncate(3),
        2 => {
            let s = |k: usize| (pal.iter().map(|c| c[k] as usize).sum::<usize>() / pal.len()) as u8;
            pal.push(Rgb([s(0), s(1), s(2)]));
        }
        _ => (),
    }
    // more channels than a signed byte can count, up to as many as there can be
    if ctx.rng.bool(1, 20) {
        pal = gen::large_palette(&mut ctx.rng);
    }
    let recol = (0..pal.len()).map(|_| Rgb([ctx.rng.byte(), ctx.rng.byte(), ctx.rng.byte()])).collect();
    Case {
        img,
        min: if many { 255 } else { *ctx.rng.pick(&[0, 4, 5, 6, 8, 200, 255]) },
        max: *ctx.rng.pick(&[0, 4, 7, 10, 255]),
        bound: *ctx.rng.pick(&[0.0, 2.0 / 255.0, 0.05, f64::INFINITY]),
        pal,
        recol,
        kind,
    }
}

pub fn expected(ctx: &mut Ctx, c: &Case) -> Option<Expected> {
    let palette = ctx.attempt(|| compute_palette(&c.img, c.min as usize, c.max as usize, c.bound)).ok();
    let iw = ctx.attempt(|| ImageWeights::new(&c.img)).ok();
    let d = match &iw {
        None => None,
        Some(iw) => ctx.must("DecomposedImage::new", || DecomposedImage::new(iw, &c.pal))?.ok(),
    };
    let gray = match &d {
        None => vec![],
        Some(d) => (0..d.num_channels()).map(|i| d.get_channel_grayscale(i).unwrap().into_raw()).collect(),
    };
    let rec = d.as_ref().map(|d| d.reconstruct(&c.recol).unwrap().into_raw()).unwrap_or_default();
    if palette.as_ref().is_some_and(|p| p.len() > 255) {
        ctx.count("palette_too_large", 1);
    }
    if gray.len() > 128 {
        ctx.count("many_channels", 1);
    }
    Some(Expected {
        weights: iw.is_some(),
        palette: palette.filter(|p| (1..256).contains(&p.len())).map(|p| pbytes(&p)),
        decomposed: d.is_some(),
        gray,
        rec,
    })
}

/// One life cycle of everything the API offers. Returns descriptions of what's wrong.
fn life(api: &Api, c: &Case, e: &Expected, order: u64, big: bool) -> Vec<String> {
    let mut bad = vec![];
    macro_rules! chk {
        ($ok:expr, $($m:tt)*) => { if !($ok) && bad.len() < 4 { bad.push(format!($($m)*)); } };
    }
    let (w, h) = c.img.dimensions();
    let input = Guarded::from(c.img.as_raw());
    unsafe {
        let mut n = 77u8;
        let p = (api.compute_palette)(w, h, input.ptr(), c.min, c.max, c.bound, &mut n);
        match &e.palette {
            None => chk!(p.is_null(), "compute_palette doesn't return NULL"),
            Some(want) => {
                chk!(!p.is_null(), "compute_palette returns NULL");
                if !p.is_null() {
                    chk!(n as usize * 3 == want.len(), "the palette has {n} colours instead of {}", want.len() / 3);
                    if n as usize * 3 == want.len() {
                        chk!(std::slice::from_raw_parts(p, want.len()) == &want[..], "the palette is different");
                    }
                    (api.free_computed_palette)(p, n);
                }
            }
        }
        let iw = (api.create_image_weights)(w, h, input.ptr());
        chk!(iw.is_null() != e.weights, "create_image_weights: NULL is {}", iw.is_null());
        // the pixels aren't needed any more
        drop(input);
        if iw.is_null() || !e.weights {
            return bad;
        }
        let pal = Guarded::from(&pbytes(&c.pal));
        let d = (api.create_decomposed_image)(iw, c.pal.len() as u8, pal.ptr());
        drop(pal);
        chk!(d.is_null() != e.decomposed, "create_decomposed_image: NULL is {}", d.is_null());
        let second = if order & 1 == 1 {
            let pal = Guarded::from(&pbytes(&c.pal));
            (api.create_decomposed_image)(iw, c.pal.len() as u8, pal.ptr())
        } else {
            std::ptr::null()
        };
        let early = order & 2 == 2;
        if early {
            (api.free_image_weights)(iw);
        }
        if !d.is_null() && e.decomposed {
            if !second.is_null() && order & 4 == 4 {
                (api.free_decomposed_image)(second);
            }
            chk!((api.width)(d) == w && (api.height)(d) == h, "wrong size");
            chk!((api.channels)(d) as usize == c.pal.len(), "wrong number of channels");
            let npx = (w * h) as usize;
            let rounds = if big { 2 } else { 1 };
            for _ in 0..rounds {
                for (i, want) in e.gray.iter().enumerate() {
                    let out = Guarded::new(npx, CANARY);
                    let r = (api.grayscale)(d, i as u8, out.ptr());
                    chk!(r == 1, "grayscale_image_channel returns {r} for channel {i}");
                    chk!(out.bytes() == &want[..], "channel {i} is different");
                    chk!(out.intact(), "wrote before the buffer");
                }
                for i in [e.gray.len(), e.gray.len() + 1, 255].into_iter().filter(|i| (e.gray.len()..256).contains(i)) {
                    let out = Guarded::new(npx, CANARY);
                    let r = (api.grayscale)(d, i as u8, out.ptr());
                    chk!(r == 0, "grayscale_image_channel returns {r} for a channel that doesn't exist");
                    chk!(out.bytes().iter().all(|b| *b == CANARY) && out.intact(), "something was written for a channel that doesn't exist");
                }
                let recol = Guarded::from(&pbytes(&c.recol));
                let out = Guarded::new(3 * npx, CANARY);
                let r = (api.reconstruct_image)(d, recol.ptr(), out.ptr());
                chk!(r == 1, "reconstruct_image returns {r}");
                chk!(out.bytes() == &e.rec[..], "the recoloured image is different");
                chk!(out.intact(), "wrote before the buffer");
            }
            if !second.is_null() && order & 4 == 0 {
                (api.free_decomposed_image)(second);
            }
            (api.free_decomposed_image)(d);
        }
        if !early {
            (api.free_image_weights)(iw);
        }
    }
    bad
}

pub fn c13(ctx: &mut Ctx) {
    thread_local! { static API: std::cell::OnceCell<Api> = const { std::cell::OnceCell::new() }; }
    let api = API.with(|a| *a.get_or_init(load));
    let mut c = case(ctx, 10);
    if [2, 3].contains(&ctx.case) {
        // sizes that don't fit into 16 bits
        let (w, h) = if ctx.case == 2 { (301, 229) } else { (65537, 2) };
        let cols: Vec<_> = (0..9).map(|_| Rgb([ctx.rng.byte(), ctx.rng.byte(), ctx.rng.byte()])).collect();
        c.img = RgbImage::from_fn(w, h, |x, y| cols[((x / 7) ^ (y * 3 + x / 9000)) as usize % 9]);
        c.pal = cube_palette();
        c.recol = c.pal.iter().map(|_| Rgb([ctx.rng.byte(), ctx.rng.byte(), ctx.rng.byte()])).collect();
        c.kind = "large";
    }
    let (w, h) = c.img.dimensions();
    ctx.desc(format!("{} {w}x{h} {} {} {} {}", c.kind, c.min, c.max, c.bound, show(&c.pal)));
    let Some(e) = expected(ctx, &c) else { return };
    ctx.check(e.weights == full_rank(&c.img), || "weights of an image without volume".into());
    ctx.count(if e.weights { "weights" } else { "weights_null" }, 1);
    ctx.count(if e.decomposed { "decomposed" } else { "decomposed_null" }, 1);
    ctx.count(if e.palette.is_some() { "palette" } else { "palette_null" }, 1);
    let order = ctx.rng.below(8);
    for round in 0..2 {
        let bad = life(&api, &c, &e, order ^ round, round == 0);
        for b in bad {
            ctx.check(false, || b.clone());
        }
        ctx.check(true, String::new);
        if ctx.violated() {
            return;
        }
    }
    ctx.count("life_cycles", 2);
    ctx.nontrivial(&[c.img.as_raw(), &pbytes(&c.pal)[..], &[c.min, c.max]].concat());
}

/// Write cases with their expected results for the C client.
pub fn dump(ctx: &mut Ctx, path: &str, count: u64) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut written = 0u32;
    let mut out: Vec<u8> = vec![];
    let mut k = 0;
    while (written as u64) < count {
        ctx.rng = crate::rng::Rng::for_case(ctx.seed, "C13dump", k);
        k += 1;
        let c = case(ctx, 6);
        let Some(e) = expected(ctx, &c) else { continue };
        written += 1;
        let (w, h) = c.img.dimensions();
        out.extend(w.to_le_bytes());
        out.extend(h.to_le_bytes());
        out.extend([c.min, c.max, c.pal.len() as u8, e.weights as u8, e.decomposed as u8,
                    e.palette.as_ref().map_or(0, |p| p.len() / 3) as u8, 0, 0]);
        out.extend(c.bound.to_le_bytes());
        out.extend(c.img.as_raw());
        out.extend(pbytes(&c.pal));
        out.extend(pbytes(&c.recol));
        if let Some(p) = &e.palette {
            out.extend(p);
        }
        if e.decomposed {
            for g in &e.gray {
                out.extend(g);
            }
            out.extend(&e.rec);
        }
    }
    f.write_all(&written.to_le_bytes()).unwrap();
    f.write_all(&out).unwrap();
}
