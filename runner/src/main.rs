//! Replays a case (or a bounded family of cases) against the real crate, in buffers that end
//! or start at an unmapped page, and compares with the executable specification.
#[cfg(not(feature = "sets"))]
mod capi;
mod spec;
use dcv_color_primitives as dcp;
use dcp::{convert_image, get_buffers_size, ColorSpace, ErrorKind, ImageFormat, PixelFormat};
use spec::*;
use std::io::BufRead;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn sigaction(s: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
#[repr(C)]
struct SigAction {
    h: usize,
    mask: [u64; 16],
    flags: i32,
    rest: usize,
}
static mut CUR: [u8; 1024] = [0; 1024];
static mut CURLEN: usize = 0;

extern "C" fn on_crash(sig: i32) {
    unsafe {
        let h = b"\nFAIL ";
        write(1, h.as_ptr(), h.len());
        write(1, std::ptr::addr_of!(CUR).cast(), CURLEN);
        let h = b" :: crash: signal ";
        write(1, h.as_ptr(), h.len());
        let d = [b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8, b'\n'];
        write(1, d.as_ptr(), 3);
        _exit(1)
    }
}

const PAGE: usize = 4096;
struct Region {
    base: *mut u8,
    size: usize,
}
impl Region {
    fn new(pages: usize) -> Region {
        unsafe {
            let size = pages * PAGE;
            let p = mmap(std::ptr::null_mut(), size + 2 * PAGE, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            mprotect(p, PAGE, 0);
            mprotect(p.add(PAGE + size), PAGE, 0);
            Region { base: p.add(PAGE), size }
        }
    }
    /// address space only: pages appear when touched
    fn sparse(len: usize) -> Option<Region> {
        unsafe {
            let size = (len + PAGE - 1) / PAGE * PAGE;
            let p = mmap(std::ptr::null_mut(), size + 2 * PAGE, 3, 0x4022, -1, 0);
            if p as isize == -1 {
                return None;
            }
            mprotect(p, PAGE, 0);
            mprotect(p.add(PAGE + size), PAGE, 0);
            Some(Region { base: p.add(PAGE), size })
        }
    }
    fn free(self) {
        unsafe {
            munmap(self.base.sub(PAGE), self.size + 2 * PAGE);
        }
    }
    fn start(&self, len: usize, end_aligned: bool) -> usize {
        if end_aligned {
            self.size - len
        } else {
            0
        }
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
}

#[derive(Clone, Debug)]
struct Case {
    set: String,
    w: u32,
    h: u32,
    s: Img,
    d: Img,
    fill: u32,
    seed: u64,
    end: bool,
    pokes: Vec<(usize, usize, u8)>,
}

fn pf(x: u32) -> PixelFormat {
    use PixelFormat::*;
    [Argb, Bgra, Bgr, Rgba, Rgb, I444, I422, I420, Nv12][x as usize]
}
fn cs(x: u32) -> ColorSpace {
    use ColorSpace::*;
    [Rgb, Bt601, Bt709, Bt601FR, Bt709FR][x as usize]
}
fn code(r: Result<(), ErrorKind>) -> i32 {
    match r {
        Ok(()) => OK,
        Err(ErrorKind::InvalidValue) => INVALID_VALUE,
        Err(ErrorKind::InvalidOperation) => INVALID_OPERATION,
        Err(ErrorKind::NotEnoughData) => NOT_ENOUGH_DATA,
    }
}

fn join(v: &[usize]) -> String {
    if v.is_empty() {
        return "[]".into();
    }
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn parse_list(s: &str) -> Vec<usize> {
    if s == "[]" {
        vec![]
    } else {
        s.split(',').map(|x| x.parse().unwrap()).collect()
    }
}
impl Case {
    fn text(&self) -> String {
        let im = |i: &Img| {
            format!(
                "{},{},{};{};{}",
                i.pf,
                i.cs,
                i.np,
                i.strides.as_ref().map_or("none".into(), |v| join(v)),
                join(&i.lens)
            )
        };
        let pk = self.pokes.iter().map(|(a, o, v)| format!("{a}:{o}:{v}")).collect::<Vec<_>>().join(",");
        format!(
            "{};{};{};{};{};{}{};{};{}",
            self.set, self.w, self.h, im(&self.s), im(&self.d), self.fill, if pk.is_empty() { pk } else { format!("!{pk}") }, self.seed, self.end as u32
        )
    }
    fn parse(l: &str) -> Case {
        let f: Vec<&str> = l.trim().split(';').collect();
        let im = |a: &str, b: &str, c: &str| {
            let p = parse_list(a);
            Img {
                pf: p[0] as u32,
                cs: p[1] as u32,
                np: p[2] as u32,
                strides: if b == "none" { None } else { Some(parse_list(b)) },
                lens: parse_list(c),
            }
        };
        Case {
            set: f[0].into(),
            w: f[1].parse().unwrap(),
            h: f[2].parse().unwrap(),
            s: im(f[3], f[4], f[5]),
            d: im(f[6], f[7], f[8]),
            fill: f[9].split('!').next().unwrap().parse().unwrap(),
            pokes: f[9].split('!').nth(1).map_or(vec![], |x| {
                x.split(',')
                    .map(|q| {
                        let v: Vec<usize> = q.split(':').map(|z| z.parse().unwrap()).collect();
                        (v[0], v[1], v[2] as u8)
                    })
                    .collect()
            }),
            seed: f[10].parse().unwrap(),
            end: f[11] == "1",
        }
    }
}

#[cfg(feature = "sets")]
fn select(set: &str) {
    dcp::initialize_with_instruction_set(set);
}
#[cfg(not(feature = "sets"))]
fn select(_: &str) {}

struct Bufs {
    s: Vec<Region>,
    d: Vec<Region>,
}

const SLACK: usize = 512;

fn note(t: &str) {
    unsafe {
        let p: *mut u8 = std::ptr::addr_of_mut!(CUR).cast();
        let n = t.len().min(1024);
        std::ptr::copy_nonoverlapping(t.as_ptr(), p, n);
        CURLEN = n;
    }
}

/// images with huge strides or lengths: sparse address space, only the rows are filled and compared
fn run_sparse(c: &Case) -> String {
    let exp = expected_result(&c.s, &c.d, c.w, c.h);
    note(&format!("{} exp={exp}", c.text()));
    select(&c.set);
    let (w, h) = (c.w as usize, c.h as usize);
    let pix = w as u128 * h as u128;
    if pix > 1 << 30 {
        return "skip: too many pixels".into();
    }
    let values = exp == OK && pix > 0 && pix <= 1 << 24;
    let mut maps: Vec<Region> = vec![];
    for &l in c.s.lens.iter().chain(c.d.lens.iter()).chain(if values { c.d.lens.iter() } else { [].iter() }) {
        match if l > 1 << 46 { None } else { Region::sparse(l) } {
            Some(m) => maps.push(m),
            None => {
                maps.into_iter().for_each(Region::free);
                return "skip: cannot map".into();
            }
        }
    }
    let ns = c.s.lens.len();
    let nd = c.d.lens.len();
    let len = |i: usize| if i < ns { c.s.lens[i] } else { c.d.lens[(i - ns) % nd] };
    let at = |i: usize| unsafe { std::slice::from_raw_parts_mut(maps[i].base.add(maps[i].start(len(i), true)), len(i)) };
    let mut r = Rng(c.seed);
    if values {
        for p in planes(&c.s, w, h).unwrap() {
            let b = at(p.buf);
            for y in 0..p.rows {
                let o = p.base as usize + y * p.stride;
                b[o..o + p.row].iter_mut().for_each(|x| *x = r.next() as u8);
            }
        }
        for &(k, o, v) in &c.pokes {
            if k < ns && o < len(k) {
                at(k)[o] = v;
            }
        }
    }
    let sl: Vec<&[u8]> = (0..ns).map(|i| &*at(i)).collect();
    let mut dl: Vec<&mut [u8]> = (0..nd).map(|i| at(ns + i)).collect();
    let sf = ImageFormat { pixel_format: pf(c.s.pf), color_space: cs(c.s.cs), num_planes: c.s.np };
    let df = ImageFormat { pixel_format: pf(c.d.pf), color_space: cs(c.d.cs), num_planes: c.d.np };
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        code(convert_image(c.w, c.h, &sf, c.s.strides.as_deref(), &sl, &df, c.d.strides.as_deref(), &mut dl))
    }));
    let mut bad = vec![];
    match got {
        Err(_) => bad.push(format!("panic: expected={exp}")),
        Ok(g) if g != exp => bad.push(format!("result: got={g} expected={exp}")),
        Ok(_) if values => {
            let mut e: Vec<&mut [u8]> = (0..nd).map(|i| at(ns + nd + i)).collect();
            convert(&c.s, &sl, &c.d, &mut e, w, h);
            let dp = planes(&c.d, w, h).unwrap();
            'p: for p in &dp {
                if p.stride < p.row && p.rows > 1 {
                    continue;
                }
                let (a, b) = (at(ns + p.buf), at(ns + nd + p.buf));
                for y in 0..p.rows {
                    let o = p.base as usize + y * p.stride;
                    let gap = (p.stride - p.row.min(p.stride)).min(64);
                    let hi = (o + p.row + gap).min(a.len());
                    for j in o..hi {
                        if a[j] != b[j] {
                            if j < o + p.row {
                                bad.push(format!("value: plane {} byte {j} got={} expected={}", p.buf, a[j], b[j]));
                            } else if dp.len() == 1 || p.base == 0 && y + 1 < p.rows {
                                bad.push(format!("frame: destination plane {} byte {j} is not on a row but was changed", p.buf));
                            }
                            continue 'p;
                        }
                    }
                }
            }
        }
        _ => {}
    }
    drop(sl);
    drop(dl);
    maps.into_iter().for_each(Region::free);
    bad.join(" | ")
}

/// "" when the case agrees with the specification, else a description
fn run(c: &Case, b: &Bufs) -> String {
    if c.s.lens.iter().chain(c.d.lens.iter()).any(|&l| l > 1200 * PAGE) {
        return run_sparse(c);
    }
    let t = c.text();
    note(&format!("{t} exp={}", expected_result(&c.s, &c.d, c.w, c.h)));
    select(&c.set);
    let mut r = Rng(c.seed);
    let region = |reg: &Region, len: usize| {
        let st = reg.start(len, c.end);
        let (a, z) = (st.saturating_sub(SLACK), (st + len + SLACK).min(reg.size));
        unsafe { (std::slice::from_raw_parts_mut(reg.base.add(a), z - a), st - a) }
    };
    // fill
    let mut s_copy: Vec<Vec<u8>> = vec![];
    for (i, &len) in c.s.lens.iter().enumerate() {
        let (w, _) = region(&b.s[i], len);
        let k = r.next() as u8;
        for (j, x) in w.iter_mut().enumerate() {
            *x = match c.fill {
                0 => r.next() as u8,
                1 => [0u8, 255][(r.next() & 1) as usize],
                2 => k,
                3 => (j as u8).wrapping_mul(k | 1),
                _ => [0u8, 1, 15, 16, 17, 127, 128, 129, 235, 236, 240, 254, 255][(r.next() % 13) as usize],
            };
        }
        let o = b.s[i].start(len, c.end);
        let o = o - o.saturating_sub(SLACK);
        for &(k, at, v) in &c.pokes {
            if k == i && at < len {
                w[o + at] = v;
            }
        }
        s_copy.push(w.to_vec());
    }
    let mut d_copy: Vec<Vec<u8>> = vec![];
    for (i, &len) in c.d.lens.iter().enumerate() {
        let (w, _) = region(&b.d[i], len);
        for x in w.iter_mut() {
            *x = r.next() as u8;
        }
        d_copy.push(w.to_vec());
    }
    let sl: Vec<&[u8]> = c
        .s
        .lens
        .iter()
        .enumerate()
        .map(|(i, &len)| unsafe {
            std::slice::from_raw_parts(b.s[i].base.add(b.s[i].start(len, c.end)) as *const u8, len)
        })
        .collect();
    let mut dl: Vec<&mut [u8]> = c
        .d
        .lens
        .iter()
        .enumerate()
        .map(|(i, &len)| unsafe {
            std::slice::from_raw_parts_mut(b.d[i].base.add(b.d[i].start(len, c.end)), len)
        })
        .collect();
    let sf = ImageFormat { pixel_format: pf(c.s.pf), color_space: cs(c.s.cs), num_planes: c.s.np };
    let df = ImageFormat { pixel_format: pf(c.d.pf), color_space: cs(c.d.cs), num_planes: c.d.np };
    let exp = expected_result(&c.s, &c.d, c.w, c.h);
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        code(convert_image(
            c.w, c.h, &sf, c.s.strides.as_deref(), &sl, &df, c.d.strides.as_deref(), &mut dl,
        ))
    }));
    drop(dl);
    let mut bad = vec![];
    let got = match got {
        Ok(g) => g,
        Err(_) => {
            bad.push(format!("panic: expected={exp}"));
            exp
        }
    };
    if got != exp {
        bad.push(format!("result: got={got} expected={exp}"));
    }
    for (i, &len) in c.s.lens.iter().enumerate() {
        let (w, _) = region(&b.s[i], len);
        if *w != s_copy[i][..] {
            bad.push(format!("srcmod: source plane {i} modified"));
        }
    }
    // destination
    let (w, h) = (c.w as usize, c.h as usize);
    let mut overlap = false;
    if got == OK && exp == OK && w > 0 && h > 0 {
        let dp = planes(&c.d, w, h).unwrap();
        overlap = dp.iter().any(|p| p.stride < p.row && p.rows > 1);
    }
    let expd: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = vec![];
        for (i, &len) in c.d.lens.iter().enumerate() {
            let (_, o) = region(&b.d[i], len);
            v.push(d_copy[i][o..o + len].to_vec());
        }
        if got == OK && exp == OK && w > 0 && h > 0 {
            let mut m: Vec<&mut [u8]> = v.iter_mut().map(|x| &mut x[..]).collect();
            convert(&c.s, &sl, &c.d, &mut m, w, h);
        }
        v
    };
    // bytes of destination rows
    let mut inrow: Vec<Vec<bool>> = c.d.lens.iter().map(|&l| vec![false; l]).collect();
    if got == OK && exp == OK && w > 0 && h > 0 {
        for p in planes(&c.d, w, h).unwrap() {
            for y in 0..p.rows {
                let o = p.base as usize + y * p.stride;
                inrow[p.buf][o..o + p.row].iter_mut().for_each(|x| *x = true);
            }
        }
    }
    for (i, &len) in c.d.lens.iter().enumerate() {
        let (now, o) = region(&b.d[i], len);
        let mut seen = [false; 2];
        for j in 0..now.len() {
            let inside = j >= o && j < o + len;
            if inside {
                let k = j - o;
                if got != OK && now[j] != d_copy[i][j] {
                    bad.push(format!("failwrite: destination plane {i} byte {k} written although the call failed"));
                    break;
                }
                if got == OK && exp == OK && !inrow[i][k] && now[j] != d_copy[i][j] && !seen[0] {
                    seen[0] = true;
                    bad.push(format!("frame: destination plane {i} byte {k} is not on a row but was changed"));
                }
                if got == OK && exp == OK && !overlap && inrow[i][k] && now[j] != expd[i][k] && !seen[1] {
                    seen[1] = true;
                    bad.push(format!("value: plane {i} byte {k} got={} expected={}", now[j], expd[i][k]));
                }
            } else if now[j] != d_copy[i][j] {
                bad.push(format!("outside: write outside destination plane {i} at offset {}", j as isize - o as isize));
                break;
            }
        }
    }
    bad.join(" | ")
}

/// result and destination bytes of one set
fn observe(c: &Case, b: &Bufs) -> (i32, Vec<Vec<u8>>) {
    note(&c.text());
    select(&c.set);
    let mut r = Rng(c.seed);
    let mem = |reg: &Region, len: usize| unsafe { std::slice::from_raw_parts_mut(reg.base.add(reg.start(len, c.end)), len) };
    for (i, &l) in c.s.lens.iter().enumerate() {
        let k = r.next() as u8;
        for (j, x) in mem(&b.s[i], l).iter_mut().enumerate() {
            *x = match c.fill {
                0 => r.next() as u8,
                1 => [0u8, 255][(r.next() & 1) as usize],
                2 => k,
                3 => (j as u8).wrapping_mul(k | 1),
                _ => [0u8, 1, 15, 16, 17, 127, 128, 129, 235, 236, 240, 254, 255][(r.next() % 13) as usize],
            };
        }
    }
    for &(k, at, v) in &c.pokes {
        if k < c.s.lens.len() && at < c.s.lens[k] {
            mem(&b.s[k], c.s.lens[k])[at] = v;
        }
    }
    for (i, &l) in c.d.lens.iter().enumerate() {
        mem(&b.d[i], l).iter_mut().for_each(|x| *x = r.next() as u8);
    }
    let sl: Vec<&[u8]> = c.s.lens.iter().enumerate().map(|(i, &l)| &*mem(&b.s[i], l)).collect();
    let mut dl: Vec<&mut [u8]> = c.d.lens.iter().enumerate().map(|(i, &l)| mem(&b.d[i], l)).collect();
    let sf = ImageFormat { pixel_format: pf(c.s.pf), color_space: cs(c.s.cs), num_planes: c.s.np };
    let df = ImageFormat { pixel_format: pf(c.d.pf), color_space: cs(c.d.cs), num_planes: c.d.np };
    let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        code(convert_image(c.w, c.h, &sf, c.s.strides.as_deref(), &sl, &df, c.d.strides.as_deref(), &mut dl))
    }));
    (g.unwrap_or(99), dl.iter().map(|x| x.to_vec()).collect())
}

/// the same for images with huge strides or lengths: the bytes of the destination rows
fn observe_sparse(c: &Case) -> Option<(i32, Vec<Vec<u8>>)> {
    note(&c.text());
    let (w, h) = (c.w as usize, c.h as usize);
    if w as u128 * h as u128 > 1 << 24 {
        return None;
    }
    select(&c.set);
    let mut maps: Vec<Region> = vec![];
    for &l in c.s.lens.iter().chain(c.d.lens.iter()) {
        match if l > 1 << 46 { None } else { Region::sparse(l) } {
            Some(m) => maps.push(m),
            None => {
                maps.into_iter().for_each(Region::free);
                return None;
            }
        }
    }
    let ns = c.s.lens.len();
    let nd = c.d.lens.len();
    let len = |i: usize| if i < ns { c.s.lens[i] } else { c.d.lens[i - ns] };
    let at = |i: usize| unsafe { std::slice::from_raw_parts_mut(maps[i].base.add(maps[i].start(len(i), true)), len(i)) };
    let mut r = Rng(c.seed);
    for p in planes(&c.s, w, h).unwrap_or_default() {
        let b = at(p.buf);
        for y in 0..p.rows {
            let o = p.base as usize + y * p.stride;
            b[o..o + p.row].iter_mut().for_each(|x| *x = r.next() as u8);
        }
    }
    for &(k, o, v) in &c.pokes {
        if k < ns && o < len(k) {
            at(k)[o] = v;
        }
    }
    let sl: Vec<&[u8]> = (0..ns).map(|i| &*at(i)).collect();
    let mut dl: Vec<&mut [u8]> = (0..nd).map(|i| at(ns + i)).collect();
    let sf = ImageFormat { pixel_format: pf(c.s.pf), color_space: cs(c.s.cs), num_planes: c.s.np };
    let df = ImageFormat { pixel_format: pf(c.d.pf), color_space: cs(c.d.cs), num_planes: c.d.np };
    let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        code(convert_image(c.w, c.h, &sf, c.s.strides.as_deref(), &sl, &df, c.d.strides.as_deref(), &mut dl))
    }));
    let mut out = vec![];
    for p in planes(&c.d, w, h).unwrap_or_default() {
        let mut v = vec![];
        for y in 0..p.rows {
            let o = p.base as usize + y * p.stride;
            v.extend_from_slice(&at(ns + p.buf)[o..o + p.row]);
        }
        out.push(v);
    }
    maps.into_iter().for_each(Region::free);
    Some((g.unwrap_or(99), out))
}

fn across(c: &Case, b: &Bufs) -> String {
    let sparse = c.s.lens.iter().chain(c.d.lens.iter()).any(|&l| l > 1200 * PAGE);
    // overlapping destination rows are outside the claim
    if let Some(dp) = planes(&c.d, c.w as usize, c.h as usize) {
        if dp.iter().any(|p| p.stride < p.row && p.rows > 1) {
            return String::new();
        }
    }
    let mut first: Option<(String, (i32, Vec<Vec<u8>>))> = None;
    for set in ["x86", "sse2", "avx2"] {
        let mut k = c.clone();
        k.set = set.into();
        let o = match if sparse { observe_sparse(&k) } else { Some(observe(&k, b)) } {
            Some(o) => o,
            None => return String::new(),
        };
        match &first {
            None => first = Some((set.into(), o)),
            Some((s0, o0)) => {
                if o0.0 != o.0 {
                    return format!("differ: {s0} returns {} but {set} returns {}", o0.0, o.0);
                }
                for i in 0..o.1.len() {
                    for j in 0..o.1[i].len() {
                        if o.1[i][j] != o0.1[i][j] {
                            return format!("differ: plane {i} byte {j} is {} on {s0} but {} on {set}", o0.1[i][j], o.1[i][j]);
                        }
                    }
                }
            }
        }
    }
    String::new()
}

fn call(c: &Case, b: &Bufs) -> i32 {
    if c.s.lens.iter().chain(c.d.lens.iter()).any(|&l| l > 1200 * PAGE) {
        return observe_sparse(c).map_or(OK, |r| r.0);
    }
    let mem = |reg: &Region, len: usize| unsafe { std::slice::from_raw_parts_mut(reg.base.add(reg.start(len, c.end)), len) };
    let sl: Vec<&[u8]> = c.s.lens.iter().enumerate().map(|(i, &l)| &*mem(&b.s[i], l)).collect();
    let mut dl: Vec<&mut [u8]> = c.d.lens.iter().enumerate().map(|(i, &l)| mem(&b.d[i], l)).collect();
    let sf = ImageFormat { pixel_format: pf(c.s.pf), color_space: cs(c.s.cs), num_planes: c.s.np };
    let df = ImageFormat { pixel_format: pf(c.d.pf), color_space: cs(c.d.cs), num_planes: c.d.np };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        code(convert_image(c.w, c.h, &sf, c.s.strides.as_deref(), &sl, &df, c.d.strides.as_deref(), &mut dl))
    }))
    .unwrap_or(99)
}

/// buffers of exactly the advertised sizes must be accepted
fn fit(c: &Case, b: &Bufs) -> String {
    let mut c = c.clone();
    select(&c.set);
    let (w, h) = (c.w as usize, c.h as usize);
    for im in [&mut c.s, &mut c.d] {
        if is_rgb(im.pf) != (im.cs == 0) || !format_ok(im.pf, im.np, c.w, c.h) {
            return String::new();
        }
        if im.strides.as_ref().map_or(false, |s| s.len() < im.np as usize) {
            return String::new();
        }
        let t = Img { lens: vec![usize::MAX; 4], ..im.clone() };
        match planes(&t, w, h) {
            Some(p) if p.iter().all(|q| q.stride >= q.row && (q.stride as u128 * q.rows as u128) < 1 << 40) => {}
            _ => return String::new(),
        }
        let f = ImageFormat { pixel_format: pf(im.pf), color_space: cs(im.cs), num_planes: im.np };
        let mut out = vec![0usize; im.np as usize];
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| code(get_buffers_size(c.w, c.h, &f, im.strides.as_deref(), &mut out))));
        if !matches!(r, Ok(OK)) {
            return String::new();
        }
        im.lens = out;
    }
    if !supported(c.s.pf, c.d.pf) {
        return String::new();
    }
    note(&c.text());
    let r = call(&c, b);
    if r != OK {
        return format!("fit: buffers of the advertised sizes {:?} {:?} give {r}", c.s.lens, c.d.lens);
    }
    String::new()
}

/// neutral colours stay neutral, limited range stays nominal
fn neutral(c: &Case, b: &Bufs) -> String {
    if expected_result(&c.s, &c.d, c.w, c.h) != OK || c.w == 0 || c.h == 0 || is_rgb(c.s.pf) && is_rgb(c.d.pf) {
        return String::new();
    }
    if c.s.lens.iter().chain(c.d.lens.iter()).any(|&l| l > 1200 * PAGE) {
        return String::new();
    }
    let (w, h) = (c.w as usize, c.h as usize);
    let (sp, dp) = (planes(&c.s, w, h).unwrap(), planes(&c.d, w, h).unwrap());
    if sp.iter().chain(dp.iter()).any(|p| p.stride < p.row) {
        return String::new();
    }
    select(&c.set);
    note(&c.text());
    let mut r = Rng(c.seed);
    let mem = |reg: &Region, len: usize| unsafe { std::slice::from_raw_parts_mut(reg.base.add(reg.start(len, c.end)), len) };
    let at = |p: &Plane, x: usize, y: usize| p.base as usize + p.stride * y + x;
    for (i, &l) in c.s.lens.iter().enumerate() {
        mem(&b.s[i], l).iter_mut().for_each(|x| *x = if c.fill == 1 { [0, 255][(r.next() & 1) as usize] } else { r.next() as u8 });
    }
    // three requests in four are entirely neutral
    if r.below(4) != 0 {
        if is_rgb(c.s.pf) {
            let d = depth(c.s.pf);
            let (ro, go, bo) = offsets(c.s.pf);
            for y in 0..h {
                for x in 0..w {
                    let v = match r.below(8) { 0 => 0, 1 => 255, _ => r.next() as u8 };
                    for o in [ro, go, bo] {
                        mem(&b.s[0], c.s.lens[0])[at(&sp[0], x * d + o, y)] = v;
                    }
                }
            }
        } else {
            for p in &sp[1..] {
                for y in 0..p.rows {
                    for x in 0..p.row {
                        mem(&b.s[p.buf], c.s.lens[p.buf])[at(p, x, y)] = 128;
                    }
                }
            }
        }
    }
    for &(k, o, v) in &c.pokes {
        if k < c.s.lens.len() && o < c.s.lens[k] {
            mem(&b.s[k], c.s.lens[k])[o] = v;
        }
    }
    if call(c, b) != OK {
        return String::new();
    }
    let sb: Vec<&[u8]> = c.s.lens.iter().enumerate().map(|(i, &l)| &*mem(&b.s[i], l)).collect();
    let db: Vec<&[u8]> = c.d.lens.iter().enumerate().map(|(i, &l)| &*mem(&b.d[i], l)).collect();
    if is_rgb(c.s.pf) {
        let d = depth(c.s.pf);
        let (ro, go, bo) = offsets(c.s.pf);
        let px = |x: usize, y: usize| {
            let o = at(&sp[0], x * d, y);
            (sb[0][o + ro], sb[0][o + go], sb[0][o + bo])
        };
        let limited = c.d.cs <= 2;
        let (lo, hi) = if limited { (16, 235) } else { (0, 255) };
        for y in 0..h {
            for x in 0..w {
                let l = db[dp[0].buf][at(&dp[0], x, y)];
                if l < lo || l > hi {
                    return format!("neutral: luma {l} outside [{lo},{hi}] at {x},{y}");
                }
                let p = px(x, y);
                if p == (0, 0, 0) && l != lo || p == (255, 255, 255) && l != hi {
                    return format!("neutral: {p:?} gives luma {l} at {x},{y}");
                }
            }
        }
        let sub = c.d.pf != I444;
        let (cw, ch) = if sub { (w / 2, h / 2) } else { (w, h) };
        for y in 0..ch {
            for x in 0..cw {
                let (u, v) = if c.d.pf == NV12 {
                    let o = at(&dp[1], 2 * x, y);
                    (db[dp[1].buf][o], db[dp[1].buf][o + 1])
                } else {
                    (db[dp[1].buf][at(&dp[1], x, y)], db[dp[2].buf][at(&dp[2], x, y)])
                };
                let g = |(a, b, c): (u8, u8, u8)| a == b && b == c;
                let gray = if sub { [(0, 0), (1, 0), (0, 1), (1, 1)].iter().all(|&(i, j)| g(px(2 * x + i, 2 * y + j))) } else { g(px(x, y)) };
                if gray && (u != 128 || v != 128) {
                    return format!("neutral: gray block {x},{y} gives chroma {u},{v}");
                }
                if limited && (u < 16 || u > 240 || v < 16 || v > 240) {
                    return format!("neutral: chroma {u},{v} outside [16,240] at {x},{y}");
                }
            }
        }
    } else {
        let d = depth(c.d.pf);
        let (ro, go, bo) = offsets(c.d.pf);
        for y in 0..h {
            for x in 0..w {
                let (u, v) = match c.s.pf {
                    I444 => (sb[1][at(&sp[1], x, y)], sb[2][at(&sp[2], x, y)]),
                    I420 => (sb[1][at(&sp[1], x / 2, y / 2)], sb[2][at(&sp[2], x / 2, y / 2)]),
                    _ => {
                        let o = at(&sp[1], x & !1, y / 2);
                        (sb[sp[1].buf][o], sb[sp[1].buf][o + 1])
                    }
                };
                let o = at(&dp[0], x * d, y);
                let (r, g, b) = (db[0][o + ro], db[0][o + go], db[0][o + bo]);
                if (u, v) == (128, 128) && !(r == g && g == b) {
                    return format!("neutral: neutral pixel {x},{y} gives {r},{g},{b}");
                }
            }
        }
    }
    String::new()
}

const PAIRS: [(u32, u32); 16] = [(0, 5), (0, 7), (0, 8), (1, 5), (1, 7), (1, 8), (2, 5), (2, 7), (2, 8), (5, 1), (7, 1), (8, 4), (7, 3), (8, 3), (4, 1), (2, 4)];

/// the same requests after different histories, and from several threads at once, give the same answers
fn history(sets: &[String], q: (u32, u32, u32, u32), seed: u64, rounds: u64) -> String {
    let mut r = Rng(seed);
    let mut cs: Vec<Case> = vec![];
    for i in 0..24 {
        let (a, b) = r.pick(&PAIRS);
        let k = 1 + r.below(4) as u32;
        let (spf, scs, dpf, dcs) = if i % 2 == 0 { q } else { (a, if a <= 4 { 0 } else { k }, b, if b <= 4 { 0 } else { k }) };
        let mut c = gen(&mut r, spf, scs, dpf, dcs, &sets[..1].to_vec(), 0);
        if c.s.lens.iter().chain(c.d.lens.iter()).any(|&l| l > 1200 * PAGE) {
            c.s.lens.clear();
        }
        cs.push(c);
    }
    let mk = || Bufs { s: (0..5).map(|_| Region::new(1200)).collect(), d: (0..5).map(|_| Region::new(1200)).collect() };
    let drop_bufs = |b: Bufs| b.s.into_iter().chain(b.d).for_each(Region::free);
    let b = mk();
    let first: Vec<_> = cs.iter().map(|c| observe(c, &b)).collect();
    for _ in 0..rounds {
        let i = r.below(cs.len() as u64) as usize;
        if observe(&cs[i], &b) != first[i] {
            let t = cs[i].text();
            drop_bufs(b);
            return format!("{t} :: history: the answer depends on earlier calls (seed {seed})");
        }
    }
    drop_bufs(b);
    let bad = std::sync::Mutex::new(String::new());
    std::thread::scope(|s| {
        for t in 0..4u64 {
            let (cs, first, bad) = (&cs, &first, &bad);
            s.spawn(move || {
                let b = mk();
                let mut r = Rng(seed ^ (t + 1));
                for _ in 0..rounds {
                    let i = r.below(cs.len() as u64) as usize;
                    if observe(&cs[i], &b) != first[i] {
                        *bad.lock().unwrap() = format!("{} :: history: the answer depends on concurrent calls (seed {seed})", cs[i].text());
                        break;
                    }
                }
                b.s.into_iter().chain(b.d).for_each(Region::free);
            });
        }
    });
    bad.into_inner().unwrap()
}

fn gen(r: &mut Rng, spf: u32, scs: u32, dpf: u32, dcs: u32, sets: &[String], kind: u64) -> Case {
    let dim = |r: &mut Rng| -> u32 {
        match r.below(10) {
            0 => r.below(5) as u32,
            1..=3 => r.below(40) as u32,
            4..=6 => (r.pick(&[8u64, 16, 32, 64, 24, 48, 96]) as i64 + r.below(7) as i64 - 3) as u32,
            7 => r.below(140) as u32,
            8 => 2 * r.below(70) as u32,
            _ => 1 + r.below(9) as u32,
        }
    };
    let (mut w, mut h) = (dim(r), dim(r) % 41);
    let even = spf > 5 || dpf > 5;
    if even && r.below(12) != 0 {
        w &= !1;
        h &= !1;
    }
    let mk = |r: &mut Rng, p: u32, c: u32| {
        let np = match p {
            NV12 => 1 + r.below(2) as u32,
            I444 | I422 | I420 => 3,
            _ => 1,
        };
        let np = if r.below(60) == 0 { r.below(6) as u32 } else { np };
        Img { pf: p, cs: c, np, strides: None, lens: vec![] }
    };
    let mut c = Case {
        set: sets[r.below(sets.len() as u64) as usize].clone(),
        w,
        h,
        s: mk(r, spf, scs),
        d: mk(r, dpf, dcs),
        fill: r.below(5) as u32,
        seed: r.next(),
        end: r.below(4) != 0,
        pokes: vec![],
    };
    for k in 0..2 {
        let im = if k == 0 { &mut c.s } else { &mut c.d };
        let rows: Vec<usize> = {
            let t = Img { lens: vec![usize::MAX; 4], np: im.np.clamp(1, 3), ..im.clone() };
            planes(&t, w as usize, h as usize).map_or(vec![0; 4], |p| p.iter().map(|x| x.row).collect())
        };
        if r.below(3) != 0 {
            let mut v: Vec<usize> = (0..rows.len().max(im.np as usize).min(4))
                .map(|i| {
                    let row = rows[i.min(rows.len() - 1)];
                    match r.below(8) {
                        0 => 0,
                        1 => row,
                        2 => row + 1,
                        3 => row + 2,
                        4 => row + r.below(9) as usize,
                        5 => row + r.below(70) as usize,
                        6 if kind == 1 => {
                            if r.below(2) == 0 {
                                r.below(row as u64 + 1) as usize
                            } else {
                                r.pick(&[1usize << 62, 1 << 63, usize::MAX, usize::MAX / 2, 1 << 32, usize::MAX / 3 + 1])
                            }
                        }
                        _ => row + 16,
                    }
                })
                .collect();
            if r.below(20) == 0 {
                v.pop();
            }
            if r.below(20) == 0 {
                v.push(r.below(50) as usize);
            }
            im.strides = Some(v);
        }
        let mut t = im.clone();
        t.lens = vec![usize::MAX; 4];
        let mut lens: Vec<usize> = vec![0; rows.len().max(1)];
        t.np = t.np.clamp(1, 3);
        if let Some(ps) = planes(&t, w as usize, h as usize) {
            lens = vec![0; ps.iter().map(|p| p.buf).max().unwrap() + 1];
            let mut minimal = r.below(3) != 0;
            for p in &ps {
                let need = if h == 0 || w == 0 || p.rows == 0 { 0 } else { plane_need(p) };
                let full = p.base + p.stride as u128 * p.rows as u128;
                let mut l = if minimal { need } else { full.max(need) };
                match r.below(14) {
                    0 => l = l.saturating_sub(1),
                    1 if kind == 1 => l = l.saturating_sub(r.below(20) as u128),
                    2 => l += 1,
                    3 => l += r.below(40) as u128,
                    4 if kind == 1 => l = r.below(4096) as u128,
                    5 => minimal = !minimal,
                    _ => {}
                }
                if l > (1 << 20) {
                    l = r.below(4096) as u128;
                }
                lens[p.buf] = lens[p.buf].max(l as usize);
                if p.base > 0 {
                    lens[p.buf] = l as usize;
                }
            }
        }
        if r.below(40) == 0 {
            lens.pop();
        }
        if r.below(30) == 0 && lens.len() < 4 {
            lens.push(r.below(64) as usize);
        }
        im.lens = lens;
    }
    w = c.w;
    h = c.h;
    let _ = (w, h);
    c
}

fn sizes_case(line: &str) -> String {
    // pf;np;w;h;strides;n
    let f: Vec<&str> = line.trim().split(';').collect();
    let (p, np, w, h): (u32, u32, u32, u32) =
        (f[0].parse().unwrap(), f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
    let st = if f[4] == "none" { None } else { Some(parse_list(f[4])) };
    let n: usize = f[5].parse().unwrap();
    let fmt = ImageFormat { pixel_format: pf(p), color_space: cs(if is_rgb(p) { 0 } else { 1 }), num_planes: np };
    let mut out = vec![0xA5A5A5A5usize; n];
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        code(get_buffers_size(w, h, &fmt, st.as_deref(), &mut out))
    }));
    let exp = if !format_ok(p, np, w, h) {
        INVALID_VALUE
    } else if st.as_ref().map_or(false, |s| s.len() < np as usize) || n < np as usize {
        NOT_ENOUGH_DATA
    } else {
        OK
    };
    let mut bad = vec![];
    let got = match got {
        Ok(g) => g,
        Err(_) => return "panic".into(),
    };
    if got != exp {
        return format!("result got={got} expected={exp}");
    }
    let mut want: Vec<u128> = vec![0xA5A5A5A5; n];
    if exp == OK {
        let z = sizes(p, np, &st, w as usize, h as usize);
        want[..z.len()].copy_from_slice(&z);
    }
    for i in 0..n {
        if out[i] as u128 != want[i] {
            bad.push(format!("size[{i}] got={} expected={}", out[i], want[i]));
        }
    }
    // consistency with convert_image: a buffer of the advertised size is sufficient
    if exp == OK && bad.is_empty() && w > 0 && h > 0 {
        let im = Img { pf: p, cs: 0, np, strides: st.clone(), lens: out[..np as usize].to_vec() };
        for q in planes(&im, w as usize, h as usize).unwrap() {
            if q.stride >= q.row && plane_need(&q) > out[q.buf] as u128 {
                bad.push("advertised size is not sufficient".into());
            }
        }
    }
    bad.join(" | ")
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for s in [11, 7, 4, 6, 8] {
        let a = SigAction { h: on_crash as *const () as usize, mask: [0; 16], flags: 0, rest: 0 };
        unsafe { sigaction(s, &a, std::ptr::null_mut()) };
    }
    let b = Bufs {
        s: (0..5).map(|_| Region::new(1200)).collect(),
        d: (0..5).map(|_| Region::new(1200)).collect(),
    };
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "cases" => {
            let mut n = 0;
            let mut fails = 0;
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                if l.trim().is_empty() {
                    continue;
                }
                let r = run(&Case::parse(&l), &b);
                n += 1;
                if r.starts_with("skip") {
                    println!("SKIP {} :: {}", l.trim(), r);
                } else if !r.is_empty() {
                    fails += 1;
                    println!("FAIL {} :: {}", l.trim(), r);
                }
            }
            println!("DONE cases={n} fails={fails}");
            std::process::exit((fails > 0) as i32);
        }
        "xcases" | "fcases" | "ncases" => {
            // the same request on every instruction set: results and destination bytes must agree
            let mut n = 0;
            let mut fails = 0;
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                if l.trim().is_empty() {
                    continue;
                }
                let k = Case::parse(&l);
                let r = match args[1].as_str() {
                    "xcases" => across(&k, &b),
                    "fcases" => fit(&k, &b),
                    _ => neutral(&k, &b),
                };
                n += 1;
                if !r.is_empty() {
                    fails += 1;
                    println!("FAIL {} :: {}", l.trim(), r);
                }
            }
            println!("DONE cases={n} fails={fails}");
            std::process::exit((fails > 0) as i32);
        }
        "sizes" => {
            let mut n = 0;
            let mut fails = 0;
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                if l.trim().is_empty() {
                    continue;
                }
                let r = sizes_case(&l);
                n += 1;
                if !r.is_empty() {
                    fails += 1;
                    println!("FAIL {} :: {}", l.trim(), r);
                }
            }
            println!("DONE cases={n} fails={fails}");
            std::process::exit((fails > 0) as i32);
        }
        "hsweep" => {
            let sets: Vec<String> = args[2].split(',').map(|x| x.into()).collect();
            let v: Vec<u64> = args[3..].iter().map(|x| x.parse().unwrap()).collect();
            let t0 = std::time::Instant::now();
            let (mut n, mut fails) = (0, 0);
            while n < v[5] && (t0.elapsed().as_millis() as u64) < v[8] {
                let m = history(&sets, (v[0] as u32, v[1] as u32, v[2] as u32, v[3] as u32), v[6] + n, 100);
                n += 1;
                if !m.is_empty() {
                    fails += 1;
                    println!("FAIL {m}");
                    break;
                }
            }
            println!("DONE histories={n} fails={fails}");
            std::process::exit((fails > 0) as i32);
        }
        "sweep" | "xsweep" | "fsweep" | "nsweep" => {
            // sets spf scs dpf dcs kind count seed maxfails millis
            let sets: Vec<String> = args[2].split(',').map(|x| x.into()).collect();
            let v: Vec<u64> = args[3..].iter().map(|x| x.parse().unwrap()).collect();
            let (spf, scs, dpf, dcs, kind, count, seed, maxf, ms) =
                (v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]);
            let mut r = Rng(seed ^ (spf << 40 | scs << 32 | dpf << 24 | dcs << 16));
            let t0 = std::time::Instant::now();
            let (mut n, mut fails, mut ok) = (0, 0, 0);
            while n < count && (n & 63 != 0 || (t0.elapsed().as_millis() as u64) < ms) {
                let c = gen(&mut r, spf as u32, scs as u32, dpf as u32, dcs as u32, &sets, kind);
                n += 1;
                if expected_result(&c.s, &c.d, c.w, c.h) == OK {
                    ok += 1;
                }
                let m = match args[1].as_str() {
                    "xsweep" => across(&c, &b),
                    "fsweep" => fit(&c, &b),
                    "nsweep" => neutral(&c, &b),
                    _ => run(&c, &b),
                };
                if !m.is_empty() {
                    fails += 1;
                    println!("FAIL {} :: {}", c.text(), m);
                    if fails >= maxf {
                        break;
                    }
                }
            }
            println!("DONE cases={n} accepted={ok} fails={fails}");
            std::process::exit((fails > 0) as i32);
        }
        #[cfg(not(feature = "sets"))]
        "ccases" => {
            let m = capi::Mem::new();
            let (mut n, mut fails) = (0, 0);
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                if l.trim().is_empty() {
                    continue;
                }
                let r = capi::run(&capi::CCase::parse(&l), &m);
                n += 1;
                if !r.is_empty() {
                    fails += 1;
                    println!("FAIL {} :: {}", l.trim(), r);
                }
            }
            println!("DONE cases={n} fails={fails}");
            std::process::exit((fails > 0) as i32);
        }
        #[cfg(not(feature = "sets"))]
        "csweep" => {
            // count seed maxfails millis
            let v: Vec<u64> = args[2..].iter().map(|x| x.parse().unwrap()).collect();
            let m = capi::Mem::new();
            let mut r = Rng(v[1]);
            let t0 = std::time::Instant::now();
            let (mut n, mut fails) = (0, 0);
            while n < v[0] && (n & 63 != 0 || (t0.elapsed().as_millis() as u64) < v[3]) {
                let c = capi::gen(&mut r);
                n += 1;
                let x = capi::run(&c, &m);
                if !x.is_empty() {
                    fails += 1;
                    println!("FAIL {} :: {}", c.text(), x);
                    if fails >= v[2] {
                        break;
                    }
                }
            }
            println!("DONE cases={n} fails={fails}");
            std::process::exit((fails > 0) as i32);
        }
        x => panic!("{x}"),
    }
}
