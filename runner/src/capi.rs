//! The C entry points: requests as a C caller can make them, against the documented behaviour.
use crate::spec::*;
use crate::{join, note, parse_list, Region, Rng};
use dcv_color_primitives::c_api::{dcp_convert_image, dcp_get_buffers_size};
use dcv_color_primitives::{ErrorKind, ImageFormat};

#[derive(Clone)]
pub struct CImg {
    f: [u32; 3],
    mask: u32, // bit 0: format null, 1: buffer array null, 2..: plane pointers null
    strides: Option<Vec<usize>>,
}
#[derive(Clone)]
pub struct CCase {
    sizes: bool,
    w: u32,
    h: u32,
    s: CImg,
    d: CImg,
    err: bool,
    seed: u64,
}
impl CCase {
    pub fn text(&self) -> String {
        let im = |i: &CImg| {
            format!("{},{},{};{};{}", i.f[0], i.f[1], i.f[2], i.mask, i.strides.as_ref().map_or("none".into(), |v| join(v)))
        };
        format!("{};{};{};{};{};{};{}", if self.sizes { "size" } else { "conv" }, self.w, self.h, im(&self.s), im(&self.d), self.err as u32, self.seed)
    }
    pub fn parse(l: &str) -> CCase {
        let f: Vec<&str> = l.trim().split(';').collect();
        let im = |k: usize| {
            let p = parse_list(f[k]);
            CImg {
                f: [p[0] as u32, p[1] as u32, p[2] as u32],
                mask: f[k + 1].parse().unwrap(),
                strides: if f[k + 2] == "none" { None } else { Some(parse_list(f[k + 2])) },
            }
        };
        CCase { sizes: f[0] == "size", w: f[1].parse().unwrap(), h: f[2].parse().unwrap(), s: im(3), d: im(6), err: f[9] == "1", seed: f[10].parse().unwrap() }
    }
}

fn np_ok(p: u32, n: u32) -> bool {
    match p {
        0..=4 => n == 1,
        5..=7 => n == 3,
        8 => n == 1 || n == 2,
        _ => false,
    }
}

pub struct Mem {
    small: Vec<Region>,
    big: Vec<Region>,
}
impl Mem {
    pub fn new() -> Mem {
        Mem { small: (0..8).map(|_| Region::new(1)).collect(), big: (0..8).map(|_| Region::new(600)).collect() }
    }
    fn arr<T: Copy>(&self, k: usize, v: &[T]) -> *mut T {
        let n = std::mem::size_of_val(v);
        unsafe {
            let p = self.small[k].base.add(4096 - n) as *mut T;
            std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
            p
        }
    }
}

pub fn run(c: &CCase, m: &Mem) -> String {
    note(&c.text());
    let e0 = 77u32;
    let err = m.arr(0, &[e0]);
    let errp = if c.err { err as *mut ErrorKind } else { std::ptr::null_mut() };
    let fmt = |k: usize, i: &CImg| if i.mask & 1 != 0 { std::ptr::null() } else { m.arr(k, &i.f) as *const ImageFormat };
    let st = |k: usize, i: &CImg| i.strides.as_ref().map_or(std::ptr::null(), |v| m.arr(k, v) as *const usize);
    let outcome = |r: u32, exp: i32| -> Option<String> {
        let ev = unsafe { *err };
        let (we, wr) = (if exp == OK || !c.err { e0 } else { exp as u32 }, (exp != OK) as u32);
        (r != wr || ev != we).then(|| format!("capi: returned {r} error={ev} expected {wr} error={we}"))
    };
    let np = c.s.f[2] as usize;
    let (w, h) = (c.w as usize, c.h as usize);
    if c.sizes {
        let exp = if c.s.mask & 3 != 0 || c.s.f[0] > 8 || !np_ok(c.s.f[0], c.s.f[2]) || !format_ok(c.s.f[0], c.s.f[2], c.w, c.h) { INVALID_VALUE } else { OK };
        let n = if np_ok(c.s.f[0], c.s.f[2]) { np } else { np.min(8) };
        let old = vec![0xA5A5usize; n];
        let out = m.arr(2, &old);
        let r = unsafe { dcp_get_buffers_size(c.w, c.h, fmt(1, &c.s), st(3, &c.s), if c.s.mask & 2 != 0 { std::ptr::null_mut() } else { out }, errp) } as u32;
        if let Some(x) = outcome(r, exp) {
            return x;
        }
        let now = unsafe { std::slice::from_raw_parts(out, n) };
        let want: Vec<u128> = if exp == OK { sizes(c.s.f[0], c.s.f[2], &c.s.strides, w, h) } else { vec![0xA5A5; n] };
        for i in 0..n {
            if now[i] as u128 != want[i] & u64::MAX as u128 {
                return format!("capi: size[{i}] got={} expected={}", now[i], want[i]);
            }
        }
        return String::new();
    }
    let img = |i: &CImg| Img { pf: i.f[0], cs: i.f[1], np: i.f[2], strides: i.strides.clone(), lens: vec![isize::MAX as usize; 4] };
    let bad = |i: &CImg| i.mask & 3 != 0 || i.f[0] > 8 || i.f[1] > 4 || !np_ok(i.f[0], i.f[2]) || (0..i.f[2]).any(|k| i.mask >> (2 + k) & 1 != 0);
    let exp = if bad(&c.s) || bad(&c.d) { INVALID_VALUE } else { expected_result(&img(&c.s), &img(&c.d), c.w, c.h) };
    let mut lens: Vec<Vec<usize>> = vec![];
    for i in [&c.s, &c.d] {
        let mut l = vec![0usize; 3];
        if exp == OK && w > 0 && h > 0 {
            for p in planes(&img(i), w, h).unwrap() {
                let need = plane_need(&p);
                if need > 600 * 4096 {
                    return String::new();
                }
                l[p.buf] = l[p.buf].max(need as usize);
            }
        }
        lens.push(l);
    }
    let mut r = Rng(c.seed);
    let buf = |side: usize, i: usize| {
        let reg = &m.big[side * 4 + i];
        unsafe { std::slice::from_raw_parts_mut(reg.base.add(reg.size - lens[side][i]), lens[side][i]) }
    };
    for side in 0..2 {
        for i in 0..3 {
            buf(side, i).iter_mut().for_each(|x| *x = r.next() as u8);
        }
    }
    let mut want: Vec<Vec<u8>> = (0..3).map(|i| buf(1, i).to_vec()).collect();
    if exp == OK && w > 0 && h > 0 {
        let sl: Vec<&[u8]> = (0..3).map(|i| &*buf(0, i)).collect();
        let mut wl: Vec<&mut [u8]> = want.iter_mut().map(|x| &mut x[..]).collect();
        convert(&img(&c.s), &sl, &img(&c.d), &mut wl, w, h);
    }
    let ptrs = |k: usize, side: usize, i: &CImg| -> *mut *mut u8 {
        if i.mask & 2 != 0 {
            return std::ptr::null_mut();
        }
        let n = if np_ok(i.f[0], i.f[2]) { i.f[2] } else { i.f[2].min(8) } as usize;
        let v: Vec<*mut u8> = (0..n).map(|j| if i.mask >> (2 + j) & 1 != 0 { std::ptr::null_mut() } else { buf(side, j.min(2)).as_mut_ptr() }).collect();
        m.arr(k, &v)
    };
    let res = unsafe {
        dcp_convert_image(c.w, c.h, fmt(1, &c.s), st(3, &c.s), ptrs(4, 0, &c.s) as *const *const u8, fmt(2, &c.d), st(5, &c.d), ptrs(6, 1, &c.d) as *const *mut u8, errp)
    } as u32;
    if let Some(x) = outcome(res, exp) {
        return x;
    }
    for i in 0..3 {
        if buf(1, i) != &want[i][..] {
            return format!("capi: destination plane {i} differs from the library's conversion");
        }
    }
    String::new()
}

pub fn gen(r: &mut Rng) -> CCase {
    let mut mk = |r: &mut Rng, src: bool| {
        let p = match r.below(14) {
            0 => r.pick(&[9u32, 10, 255, 1 << 31, u32::MAX, 17]),
            _ => r.below(9) as u32,
        };
        let cs = match r.below(14) {
            0 => r.pick(&[5u32, 6, 256, u32::MAX]),
            1 => r.below(5) as u32,
            _ => if p <= 4 { 0 } else { 1 + r.below(4) as u32 },
        };
        let n = match r.below(12) {
            0 => r.pick(&[0u32, 1, 2, 3, 4, 5, u32::MAX]),
            _ => if p <= 4 { 1 } else if p == 8 { 1 + r.below(2) as u32 } else { 3 },
        };
        let _ = src;
        let mask = match r.below(8) {
            0 => 1 << r.below(5),
            1 => r.below(32) as u32,
            _ => 0,
        };
        CImg { f: [p, cs, n], mask, strides: None }
    };
    let (mut s, mut d) = (mk(r, true), mk(r, false));
    if r.below(3) != 0 {
        // a supported pair
        let (a, b) = r.pick(&[(0u32, 7u32), (1, 8), (2, 5), (7, 1), (8, 3), (5, 1), (8, 4), (4, 1), (2, 4), (1, 4), (1, 7), (2, 8)]);
        for (i, p) in [(&mut s, a), (&mut d, b)] {
            i.f = [p, if p <= 4 { 0 } else { 1 + r.below(4) as u32 }, if p <= 4 { 1 } else if p == 8 { 1 + r.below(2) as u32 } else { 3 }];
        }
        if r.below(10) == 0 {
            s.f[r.below(3) as usize] = r.pick(&[0u32, 2, 9, 5, u32::MAX]);
        }
    }
    let mut w = r.below(80) as u32;
    let mut h = r.below(20) as u32;
    if r.below(6) != 0 {
        w &= !1;
        h &= !1;
    }
    for i in [&mut s, &mut d] {
        if r.below(2) == 0 {
            let n = i.f[2].min(8) as usize;
            i.strides = Some((0..n).map(|_| if r.below(4) == 0 { 0 } else { w as usize * 4 + r.below(40) as usize }).collect());
        }
    }
    CCase { sizes: r.below(4) == 0, w, h, s, d, err: r.below(3) != 0, seed: r.next() }
}
