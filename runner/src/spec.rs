//! Executable specification of the library (the replay oracle).  Written from the
//! documentation and the published coefficient tables; shares no code with /repo.

pub const ARGB: u32 = 0;
pub const BGRA: u32 = 1;
pub const BGR: u32 = 2;
pub const RGBA: u32 = 3;
pub const RGB: u32 = 4;
pub const I444: u32 = 5;
pub const I422: u32 = 6;
pub const I420: u32 = 7;
pub const NV12: u32 = 8;

pub const OK: i32 = -1;
pub const INVALID_VALUE: i32 = 0;
pub const INVALID_OPERATION: i32 = 1;
pub const NOT_ENOUGH_DATA: i32 = 2;

#[derive(Clone, Debug)]
pub struct Img {
    pub pf: u32,
    pub cs: u32,
    pub np: u32,
    pub strides: Option<Vec<usize>>,
    pub lens: Vec<usize>,
}

pub fn is_rgb(pf: u32) -> bool {
    pf <= RGB
}
pub fn depth(pf: u32) -> usize {
    match pf {
        ARGB | BGRA | RGBA => 4,
        _ => 3,
    }
}
pub fn offsets(pf: u32) -> (usize, usize, usize) {
    match pf {
        ARGB => (1, 2, 3),
        BGRA | BGR => (2, 1, 0),
        _ => (0, 1, 2),
    }
}

/// (rows, row bytes, stride index, plane index, offset in strides)
pub struct Plane {
    pub buf: usize,
    pub base: u128,
    pub stride: usize,
    pub rows: usize,
    pub row: usize,
}

pub fn format_ok(pf: u32, np: u32, w: u32, h: u32) -> bool {
    let planes_ok = match pf {
        I444 | I422 | I420 => np == 3,
        NV12 => np == 1 || np == 2,
        _ => np == 1,
    };
    let ew = matches!(pf, I422 | I420 | NV12);
    let eh = matches!(pf, I420 | NV12);
    planes_ok && !(ew && w & 1 == 1) && !(eh && h & 1 == 1)
}

pub fn supported(spf: u32, dpf: u32) -> bool {
    matches!(
        (spf, dpf),
        (ARGB | BGR | BGRA, I420 | I444 | NV12)
            | (BGR | BGRA, RGB)
            | (I420 | I444 | NV12, BGRA | RGBA)
            | (NV12, RGB)
            | (RGB, BGRA)
    )
}

fn st(strides: &Option<Vec<usize>>, i: usize, def: usize) -> usize {
    match strides {
        None => def,
        Some(v) => {
            if v[i] == 0 {
                def
            } else {
                v[i]
            }
        }
    }
}

/// None: stride or buffer array too short
pub fn planes(im: &Img, w: usize, h: usize) -> Option<Vec<Plane>> {
    let n = match im.pf {
        I444 | I422 | I420 => 3,
        NV12 => im.np as usize,
        _ => 1,
    };
    if let Some(s) = &im.strides {
        if s.len() < n {
            return None;
        }
    }
    if im.lens.len() < n {
        return None;
    }
    let p = |buf: usize, si: usize, rows: usize, row: usize| Plane {
        buf,
        base: 0,
        stride: st(&im.strides, si, row),
        rows,
        row,
    };
    Some(match im.pf {
        I444 => (0..3).map(|i| p(i, i, h, w)).collect(),
        I422 => vec![p(0, 0, h, w), p(1, 1, h, w / 2), p(2, 2, h, w / 2)],
        I420 => vec![p(0, 0, h, w), p(1, 1, h / 2, w / 2), p(2, 2, h / 2, w / 2)],
        NV12 => {
            let y = p(0, 0, h, w);
            let mut uv = p(n - 1, n - 1, h / 2, w);
            if n == 1 {
                uv.base = y.stride as u128 * h as u128;
            }
            vec![y, uv]
        }
        pf => vec![p(0, 0, h, depth(pf) * w)],
    })
}

pub fn plane_need(p: &Plane) -> u128 {
    p.base + (p.rows as u128 - 1) * p.stride as u128 + p.row as u128
}

pub fn expected_result(s: &Img, d: &Img, w: u32, h: u32) -> i32 {
    if is_rgb(s.pf) != (s.cs == 0) || is_rgb(d.pf) != (d.cs == 0) {
        return INVALID_VALUE;
    }
    if !format_ok(s.pf, s.np, w, h) || !format_ok(d.pf, d.np, w, h) {
        return INVALID_VALUE;
    }
    if !supported(s.pf, d.pf) {
        return INVALID_OPERATION;
    }
    if w == 0 || h == 0 {
        return OK;
    }
    for im in [s, d] {
        match planes(im, w as usize, h as usize) {
            None => return NOT_ENOUGH_DATA,
            Some(ps) => {
                // a single plane nv12 image cannot have its two parts overlap
                if im.pf == NV12 && im.np == 1 && ps[0].stride < ps[0].row {
                    return NOT_ENOUGH_DATA;
                }
                for p in &ps {
                    if plane_need(p) > im.lens[p.buf] as u128 {
                        return NOT_ENOUGH_DATA;
                    }
                }
            }
        }
    }
    OK
}

/// Exact size of each buffer as documented by get_buffers_size (rows * stride)
pub fn sizes(pf: u32, np: u32, strides: &Option<Vec<usize>>, w: usize, h: usize) -> Vec<u128> {
    let im = Img {
        pf,
        cs: 0,
        np,
        strides: strides.clone(),
        lens: vec![usize::MAX; 4],
    };
    let mut out = vec![0u128; np as usize];
    for p in planes(&im, w, h).unwrap() {
        out[p.buf] += p.stride as u128 * p.rows as u128;
    }
    out
}

const FWD: [[i64; 7]; 4] = [
    [16829, 33039, 6416, -9714, -19071, -24103, (16 << 16) + 32768],
    [11966, 40254, 4064, -6596, -22189, -26145, (16 << 16) + 32768],
    [19595, 38470, 7471, -11058, -21709, -27439, 32768],
    [13933, 46871, 4732, -7508, -25259, -29763, 32768],
];
const BWD: [[i64; 8]; 4] = [
    [19077, 26149, 13320, 6419, 33050, 14234, 8709, 17685],
    [19077, 29372, 8731, 3494, 34610, 15846, 4952, 18465],
    [16384, 22970, 11700, 5638, 29032, 11453, 8701, 14484],
    [16384, 25802, 7670, 3069, 30402, 12869, 5401, 15169],
];

/// index of a YUV colour space (Bt601=1, Bt709=2, Bt601FR=3, Bt709FR=4) in the tables
fn ci(cs: u32) -> usize {
    cs as usize - 1
}

pub fn luma(cs: u32, r: i64, g: i64, b: i64) -> u8 {
    let k = &FWD[ci(cs)];
    ((k[0] * r + k[1] * g + k[2] * b + k[6]) >> 16) as u8
}
/// chroma from the sum of 2^(2*sub) samples
pub fn chroma(cs: u32, r: i64, g: i64, b: i64, sub: bool) -> (u8, u8) {
    let k = &FWD[ci(cs)];
    let (yr, yg, zg) = (k[3], k[4], k[5]);
    let yb = -(yr + yg);
    let zr = yb;
    let zb = -(zr + zg);
    let (sh, bias) = if sub {
        (18, (128i64 << 18) + (1 << 17) - 1)
    } else {
        (16, (128i64 << 16) + (1 << 15) - 1)
    };
    (
        ((yr * r + yg * g + yb * b + bias) >> sh) as u8,
        ((zr * r + zg * g + zb * b + bias) >> sh) as u8,
    )
}
fn sat(x: i64) -> u8 {
    (x >> 6).clamp(0, 255) as u8
}
pub fn to_rgb(cs: u32, y: i64, u: i64, v: i64) -> (u8, u8, u8) {
    let k = &BWD[ci(cs)];
    let m = |a: i64, b: i64| (a * b) >> 8;
    let l = m(y, k[0]);
    (
        sat(l + m(v, k[1]) - k[5]),
        sat(l - m(v, k[2]) - m(u, k[3]) + k[6]),
        sat(l + m(u, k[4]) - k[7]),
    )
}

/// Fill the destination planes as the specification says.  dst starts as the prior content.
pub fn convert(s: &Img, sb: &[&[u8]], d: &Img, db: &mut [&mut [u8]], w: usize, h: usize) {
    let sp = planes(s, w, h).unwrap();
    let dp = planes(d, w, h).unwrap();
    let at = |p: &Plane, x: usize, y: usize| p.base as usize + p.stride * y + x;
    if is_rgb(s.pf) {
        let (ro, go, bo) = offsets(s.pf);
        let dep = depth(s.pf);
        let px = |x: usize, y: usize| {
            let o = at(&sp[0], x * dep, y);
            let b = sb[sp[0].buf];
            (b[o + ro] as i64, b[o + go] as i64, b[o + bo] as i64)
        };
        if is_rgb(d.pf) {
            let (r2, g2, b2) = offsets(d.pf);
            let dd = depth(d.pf);
            for y in 0..h {
                for x in 0..w {
                    let (r, g, b) = px(x, y);
                    let o = at(&dp[0], x * dd, y);
                    db[0][o + r2] = r as u8;
                    db[0][o + g2] = g as u8;
                    db[0][o + b2] = b as u8;
                    if dd == 4 {
                        db[0][o + 3] = 255;
                    }
                }
            }
            return;
        }
        for y in 0..h {
            for x in 0..w {
                let (r, g, b) = px(x, y);
                let o = at(&dp[0], x, y);
                db[dp[0].buf][o] = luma(d.cs, r, g, b);
                if d.pf == I444 {
                    let (cu, cv) = chroma(d.cs, r, g, b, false);
                    let (o1, o2) = (at(&dp[1], x, y), at(&dp[2], x, y));
                    db[dp[1].buf][o1] = cu;
                    db[dp[2].buf][o2] = cv;
                }
            }
        }
        if d.pf != I444 {
            for y in 0..h / 2 {
                for x in 0..w / 2 {
                    let (mut r, mut g, mut b) = (0, 0, 0);
                    for (dx, dy) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
                        let (pr, pg, pb) = px(2 * x + dx, 2 * y + dy);
                        r += pr;
                        g += pg;
                        b += pb;
                    }
                    let (cu, cv) = chroma(d.cs, r, g, b, true);
                    if d.pf == NV12 {
                        let o = at(&dp[1], 2 * x, y);
                        db[dp[1].buf][o] = cu;
                        db[dp[1].buf][o + 1] = cv;
                    } else {
                        let (o1, o2) = (at(&dp[1], x, y), at(&dp[2], x, y));
                        db[dp[1].buf][o1] = cu;
                        db[dp[2].buf][o2] = cv;
                    }
                }
            }
        }
    } else {
        let (r2, g2, b2) = offsets(d.pf);
        let dd = depth(d.pf);
        for y in 0..h {
            for x in 0..w {
                let l = sb[sp[0].buf][at(&sp[0], x, y)] as i64;
                let (u, v) = match s.pf {
                    I444 => (sb[sp[1].buf][at(&sp[1], x, y)], sb[sp[2].buf][at(&sp[2], x, y)]),
                    I420 => (
                        sb[sp[1].buf][at(&sp[1], x / 2, y / 2)],
                        sb[sp[2].buf][at(&sp[2], x / 2, y / 2)],
                    ),
                    _ => {
                        let o = at(&sp[1], x & !1, y / 2);
                        (sb[sp[1].buf][o], sb[sp[1].buf][o + 1])
                    }
                };
                let (r, g, b) = to_rgb(s.cs, l, u as i64, v as i64);
                let o = at(&dp[0], x * dd, y);
                db[0][o + r2] = r;
                db[0][o + g2] = g;
                db[0][o + b2] = b;
                if dd == 4 {
                    db[0][o + 3] = 255;
                }
            }
        }
    }
}
