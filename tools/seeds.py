"""the planted changes: id -> (property, feature test_instruction_sets?, needs, what it breaks, [(file, old, new)], demo)"""
PRELUDE = r'''#![allow(unused)]
use dcv_color_primitives as dcp;
use dcp::{convert_image, get_buffers_size, ColorSpace, ErrorKind, ImageFormat, PixelFormat};
use ColorSpace::*;
use PixelFormat::*;

fn fmt(pixel_format: PixelFormat, color_space: ColorSpace, num_planes: u32) -> ImageFormat {
    ImageFormat { pixel_format, color_space, num_planes }
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}

/// n bytes that end right before a page that may not be touched
fn guarded(n: usize) -> &'static mut [u8] {
    unsafe {
        let l = (n + 4095) / 4096 * 4096;
        let p = mmap(std::ptr::null_mut(), l + 4096, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        assert_eq!(mprotect(p.add(l), 4096, 0), 0);
        std::slice::from_raw_parts_mut(p.add(l - n), n)
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0 >> 11
    }
    fn fill(&mut self, b: &mut [u8]) {
        for x in b.iter_mut() {
            *x = self.next() as u8;
        }
    }
}

fn ok(b: bool, what: &str) {
    if !b {
        eprintln!("violated: {what}");
        std::process::exit(1);
    }
}
'''
SEEDS = {}
X, S, A, C, L, P, I = ("src/convert_image/x86.rs", "src/convert_image/sse2.rs", "src/convert_image/avx2.rs", "src/convert_image/common.rs",
                       "src/lib.rs", "src/pixel_format.rs", "src/cpu_info.rs")


def seed(id, prop, needs, breaks, edits, demo, feature=False):
    SEEDS[id] = (prop, feature, needs, breaks, edits, demo)


seed("b01", "C01", "RGB to BGRA with a width that is not a multiple of the vector size and a source that ends where its last row ends, before unmapped memory",
     "the scalar tail reads 4 bytes per pixel even for the last pixel of the last row",
     [(X, "let single_swap_iterations = if is_last_line || src_stride_diff < 1 {", "let single_swap_iterations = if is_last_line && src_stride_diff < 1 {")],
     r'''
fn main() {
    let (w, h) = (5u32, 3u32);
    // padded rows, the last one is not padded
    let stride = 3 * w as usize + 2;
    let src = guarded(stride * 2 + 15);
    let mut dst = vec![0u8; 4 * 15];
    convert_image(w, h, &fmt(PixelFormat::Rgb, ColorSpace::Rgb, 1), Some(&[stride]), &[&src[..]], &fmt(Bgra, ColorSpace::Rgb, 1), None, &mut [&mut dst[..]]).unwrap();
}''')

seed("b02", "C01", "I420 to BGRA on SSE2 with a chroma plane that ends before unmapped memory",
     "the 8 chroma samples of a group are fetched with a 16 byte load",
     [(S, """    let x = _mm_set1_epi64x(loadu(image.cast()));
    _mm_unpacklo_epi8(zero!(), x)""", """    let x: __m128i = loadu(image.cast());
    _mm_unpacklo_epi8(zero!(), x)""")],
     r'''
fn main() {
    dcp::initialize_with_instruction_set("sse2");
    let (w, h) = (32u32, 2u32);
    let y = guarded(64);
    let u = guarded(16);
    let v = guarded(16);
    let mut dst = vec![0u8; 4 * 64];
    convert_image(w, h, &fmt(I420, Bt601, 3), None, &[&y[..], &u[..], &v[..]], &fmt(Bgra, ColorSpace::Rgb, 1), None, &mut [&mut dst[..]]).unwrap();
}''', True)

seed("b03", "C02", "I444 chroma just above a rounding boundary, converted by the AVX2 body",
     "the rounding bias of the AVX2 V plane is slightly too small",
     [(A, """        _mm256_set1_epi32(weights[4]),
        _mm256_set1_epi32(FIX16_C_HALF + (FIX16_HALF - 1)),""", """        _mm256_set1_epi32(weights[4]),
        _mm256_set1_epi32(FIX16_C_HALF + (FIX16_HALF - FIX16)),""")],
     r"""
fn main() {
    let n = 65536usize;
    for r in (0..256usize).step_by(3) {
        let src: Vec<u8> = (0..n).flat_map(|i| [(i & 255) as u8, (i >> 8) as u8, r as u8, 0]).collect();
        let (mut y, mut u, mut v) = (vec![0u8; n], vec![0u8; n], vec![0u8; n]);
        convert_image(n as u32, 1, &fmt(Bgra, ColorSpace::Rgb, 1), None, &[&src[..]], &fmt(I444, Bt601FR, 3), None, &mut [&mut y[..], &mut u[..], &mut v[..]]).unwrap();
        for i in 0..n {
            let (b, g) = ((i & 255) as i64, (i >> 8) as i64);
            let cr = (32767 * r as i64 - 27439 * g - 5328 * b + (128 << 16) + 32767) >> 16;
            ok((v[i] as i64 - cr).abs() == 0, "Cr is not the nearest value");
        }
    }
}""")

seed("b04", "C03", "I420 to BGRA pixels converted by the scalar code, for particular chroma pairs",
     "the two products of green are added before they are rounded down",
     [(X, """                let cb = i32::from(*u_group.add(wg_index(x, y, 1, u_stride)));
                let cr = i32::from(*v_group.add(wg_index(x, y, 1, v_stride)));

                let sr = mulhi_i32(cr, rcrm) - rn;
                let sg = -mulhi_i32(cb, gcbm) - mulhi_i32(cr, gcrm) + gp;
                let sb = mulhi_i32(cb, bcbm) - bn;

                let (y00""", """                let cb = i32::from(*u_group.add(wg_index(x, y, 1, u_stride)));
                let cr = i32::from(*v_group.add(wg_index(x, y, 1, v_stride)));

                let sr = mulhi_i32(cr, rcrm) - rn;
                let sg = -((cb * gcbm + cr * gcrm) >> 8) + gp;
                let sb = mulhi_i32(cb, bcbm) - bn;

                let (y00""")],
     r'''
fn main() {
    // the result may not depend on whether a pixel is converted as NV12 or I420
    for y in (0..=255u8).step_by(3) {
        for cb in 0..=255u8 {
            for cr in (0..=255u8).step_by(5) {
                let (mut a, mut b) = ([0u8; 16], [0u8; 16]);
                convert_image(2, 2, &fmt(I420, Bt709, 3), None, &[&[y; 4], &[cb], &[cr]], &fmt(Bgra, ColorSpace::Rgb, 1), None, &mut [&mut a[..]]).unwrap();
                // (298.0 * (y - 16) - 54.6 * (cb - 128) - 136.4 * (cr - 128)) / 256 in the documented fixed point
                let m = |x: u8, k: i32| (x as i32 * k) >> 8;
                let g = (m(y, 19077) - m(cb, 3494) - m(cr, 8731) + 4952) >> 6;
                let _ = &mut b;
                ok(a[1] as i32 == g.clamp(0, 255), "green is not the specified value");
            }
        }
    }
}''')

seed("b05", "C05", "NV12 or I420 chroma that lies exactly between two values, converted by the AVX2 body",
     "AVX2 rounds ties up where the scalar and SSE2 code round them down",
     [(A, """        _mm256_set1_epi32(FIX18_C_HALF + (FIX18_HALF - 1)),
    ];

    let src_group = src_buffer.as_ptr();
    let y_group = dst_buffers.0.as_mut_ptr();
    let uv_group = dst_buffers.1.as_mut_ptr();
""", """        _mm256_set1_epi32(FIX18_C_HALF + FIX18_HALF),
    ];

    let src_group = src_buffer.as_ptr();
    let y_group = dst_buffers.0.as_mut_ptr();
    let uv_group = dst_buffers.1.as_mut_ptr();
""")],
     r'''
fn run(set: &str, src: &[u8], w: u32) -> (Vec<u8>, Vec<u8>) {
    dcp::initialize_with_instruction_set(set);
    let (mut y, mut uv) = (vec![0u8; 2 * w as usize], vec![0u8; w as usize]);
    convert_image(w, 2, &fmt(Bgra, ColorSpace::Rgb, 1), None, &[src], &fmt(Nv12, Bt601FR, 2), None, &mut [&mut y[..], &mut uv[..]]).unwrap();
    (y, uv)
}
fn main() {
    // blocks with sums so that the chroma is k + 1/2: search them among all small differences
    let mut blocks: Vec<[u8; 16]> = vec![];
    // chroma weights 2^14 * (yr, yg, 1/2): a tie needs yr*r + yg*g + yb*b = 2^17 (mod 2^18)
    let (yr, yg) = (-11058i64, -21709i64);
    let yb = -(yr + yg);
    'o: for r in 0..1020i64 {
        for g in 0..1020i64 {
            for b in 0..1020i64 {
                if (yr * r + yg * g + yb * b).rem_euclid(1 << 18) == 1 << 17 {
                    let mut p = [255u8; 16];
                    for (k, s) in [(2usize, r), (1, g), (0, b)] {
                        let mut s = s;
                        for i in 0..4 {
                            let v = s.min(255);
                            p[4 * i + k] = v as u8;
                            s -= v;
                        }
                    }
                    blocks.push(p);
                    if blocks.len() == 64 { break 'o; }
                }
            }
        }
    }
    ok(!blocks.is_empty(), "no tie exists");
    let w = 2 * blocks.len();
    let mut src = vec![0u8; w * 2 * 4];
    for (i, p) in blocks.iter().enumerate() {
        src[8 * i..8 * i + 8].copy_from_slice(&p[..8]);
        src[4 * w + 8 * i..4 * w + 8 * i + 8].copy_from_slice(&p[8..]);
    }
    let a = run("avx2", &src, w as u32);
    ok(a == run("sse2", &src, w as u32), "avx2 and sse2 differ");
    ok(a == run("x86", &src, w as u32), "avx2 and x86 differ");
}''', True)

seed("b06", "C04", "a BGRA source of more than 4 GiB (here: three rows with a stride of 2 GiB)",
     "the offset of a source row is computed in 32 bits by the scalar converter",
     [(X, """    let limit_4x = lower_multiple_of_pot(width, ITEMS_PER_ITERATION_4X);

    unsafe {
        let src_group = src_buffer.as_ptr();
        let dst_group = dst_buffer.as_mut_ptr();

        for i in 0..height {
            let mut y = 0;
            let mut src_offset = src_stride * i;
""", """    let limit_4x = lower_multiple_of_pot(width, ITEMS_PER_ITERATION_4X);

    unsafe {
        let src_group = src_buffer.as_ptr();
        let dst_group = dst_buffer.as_mut_ptr();

        for i in 0..height {
            let mut y = 0;
            let mut src_offset = (src_stride as u32).wrapping_mul(i as u32) as usize;
""")],
     r"""
fn main() {
    dcp::initialize_with_instruction_set("x86");
    let stride = 2usize << 30;
    let p = unsafe { mmap(std::ptr::null_mut(), 3 * stride, 3, 0x4022, -1, 0) };
    assert!(p as isize != -1);
    let src = unsafe { std::slice::from_raw_parts_mut(p, 3 * stride) };
    for y in 0..3 {
        for i in 0..12 {
            src[y * stride + i] = (50 * y + i) as u8;
        }
    }
    let mut d = [0u8; 27];
    convert_image(3, 3, &fmt(Bgra, ColorSpace::Rgb, 1), Some(&[stride]), &[&src[..]], &fmt(PixelFormat::Rgb, ColorSpace::Rgb, 1), None, &mut [&mut d[..]]).unwrap();
    for y in 0..3 {
        for x in 0..3 {
            for k in 0..3 {
                ok(d[9 * y + 3 * x + k] as usize == 50 * y + 4 * x + 2 - k, "a channel of another row");
            }
        }
    }
}""", True)

seed("b07", "C06", "BGR to RGB with destination rows padded by at least 24 bytes",
     "when both strides leave room for a whole group the group loop also converts the tail, and writes into the padding",
     [(X, """    const ITEMS_PER_ITERATION: usize = 8;

    let limit_iterations = lower_multiple_of_pot(width, ITEMS_PER_ITERATION);
""", """    const ITEMS_PER_ITERATION: usize = 8;

    // A padded image has room for a whole group in place of the remainder
    let limit_iterations = if height == 1
        || src_stride.min(dst_stride) < DEPTH * (width + ITEMS_PER_ITERATION)
        || src_buffer.len().min(dst_buffer.len()) < height * src_stride.max(dst_stride)
    {
        lower_multiple_of_pot(width, ITEMS_PER_ITERATION)
    } else {
        lower_multiple_of_pot(width + ITEMS_PER_ITERATION - 1, ITEMS_PER_ITERATION)
    };
""")],
     r'''
fn main() {
    let (w, h) = (13u32, 4u32);
    let s = 128usize;
    let mut src = vec![0u8; s * 4];
    Rng(5).fill(&mut src);
    let mut dst = vec![0xA5u8; s * 4];
    for set in ["x86", "sse2", "avx2"] {
        dcp::initialize_with_instruction_set(set);
        dst.fill(0xA5);
        convert_image(w, h, &fmt(Bgr, ColorSpace::Rgb, 1), Some(&[s]), &[&src[..]], &fmt(PixelFormat::Rgb, ColorSpace::Rgb, 1), Some(&[s]), &mut [&mut dst[..]]).unwrap();
        for y in 0..h as usize {
            ok(dst[y * s + 39..y * s + s].iter().all(|&b| b == 0xA5), "padding was written");
        }
    }
}''', True)

seed("b08", "C07", "a format pair that is not in the conversion table, with an image of zero width",
     "an empty image is accepted before the pair is looked up",
     [(L, """    if index >= converters.len() {
        return Err(ErrorKind::InvalidOperation);
    }
""", """    if width == 0 {
        // Nothing to convert
        return Ok(());
    }

    if index >= converters.len() {
        return Err(ErrorKind::InvalidOperation);
    }
""")],
     r'''
fn main() {
    let mut d = [0u8; 4];
    let r = convert_image(0, 2, &fmt(Bgra, ColorSpace::Rgb, 1), None, &[&[0u8; 4]], &fmt(Bgra, ColorSpace::Rgb, 1), None, &mut [&mut d[..]]);
    ok(matches!(r, Err(ErrorKind::InvalidOperation)), "BGRA to BGRA is not a conversion");
}''')

seed("b09", "C08", "an image with a plane of more than 4 GiB",
     "the plane size is computed in 32 bits",
     [(P, "            *buffer_size = *stride * get_plane_spec(height, height_spec, i);",
       "            let rows = height.wrapping_shr(get_plane_value(height_spec, i));\n            *buffer_size = (*stride as u32).wrapping_mul(rows) as usize;")],
     r'''
fn main() {
    let mut s = [0usize; 3];
    get_buffers_size(100_000, 80_000, &fmt(I444, Bt601, 3), None, &mut s).unwrap();
    ok(s == [8_000_000_000; 3], "size of a plane");
}''')

seed("b10", "C09", "a conversion whose buffers have exactly the advertised size and more than 65535 rows or a stride above 65535",
     "the product of stride and rows is compared against a 32-bit bound first, so large images are refused",
     [(C, "            && ((stride > usize::MAX / height_minus_one)", "            && ((stride > u32::MAX as usize / height_minus_one)")],
     r'''
fn main() {
    // a big stride needs only address space: reserve it without touching it
    let (w, h) = (2usize, 2usize);
    let stride = 5usize << 30;
    let mut s = [0usize; 1];
    get_buffers_size(w as u32, h as u32, &fmt(Bgra, ColorSpace::Rgb, 1), Some(&[stride]), &mut s).unwrap();
    ok(s[0] == 2 * stride, "advertised size");
    extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
    let p = unsafe { mmap(std::ptr::null_mut(), s[0], 3, 0x4022, -1, 0) };
    assert!(p as isize != -1);
    let src = unsafe { std::slice::from_raw_parts(p, s[0]) };
    let (mut y, mut u, mut v) = ([0u8; 4], [0u8; 1], [0u8; 1]);
    let r = convert_image(w as u32, h as u32, &fmt(Bgra, ColorSpace::Rgb, 1), Some(&[stride]), &[src], &fmt(I420, Bt601, 3), None, &mut [&mut y[..], &mut u[..], &mut v[..]]);
    ok(r.is_ok(), "a buffer of the advertised size was refused");
}''')

seed("b11", "C10", "YCbCr with chroma 128 and a luma just below a rounding boundary (Bt709)",
     "the green offset is one too small, so that some greys come back tinted",
     [(C, "pub const GP_709: i32 = 4952;", "pub const GP_709: i32 = 4951;")],
     r'''
fn main() {
    for y in 0..=255u8 {
        let mut d = [0u8; 4];
        convert_image(1, 1, &fmt(I444, Bt709, 3), None, &[&[y], &[128], &[128]], &fmt(Bgra, ColorSpace::Rgb, 1), None, &mut [&mut d[..]]).unwrap();
        ok(d[0] == d[1] && d[1] == d[2], "a grey is tinted");
    }
}''')

seed("b12", "C11", "dcp_convert_image with a null pointer in a source plane other than the first",
     "only the first plane pointer is checked against null",
     [(L, """                let ptr = *src_buffers.add(plane_index);
                if ptr.is_null() {""", """                let ptr = *src_buffers.add(plane_index);
                if plane_index == 0 && ptr.is_null() {""")],
     r'''
fn main() {
    use std::ptr;
    let y = [0u8; 4];
    let u = [0u8; 1];
    let mut d = [0u8; 16];
    let sb = [y.as_ptr(), u.as_ptr(), ptr::null()];
    let db = [d.as_mut_ptr()];
    let mut e = ErrorKind::NotEnoughData;
    let r = unsafe {
        dcp::c_api::dcp_convert_image(2, 2, &fmt(I420, Bt601, 3), ptr::null(), sb.as_ptr(), &fmt(Bgra, ColorSpace::Rgb, 1), ptr::null(), db.as_ptr(), &mut e)
    };
    ok(matches!(r, dcp::c_api::Result::Err) && matches!(e, ErrorKind::InvalidValue), "null plane accepted");
}''')

seed("b13", "C12", "a CPU that reports BMI1 but not AVX2 in leaf 7",
     "the wrong bit of leaf 7 is tested, so AVX2 code is installed on a CPU without AVX2",
     [(I, "            set = if (features[1] & (1 << 5)) == 0 {", "            set = if (features[1] & (1 << 3)) == 0 {")],
     r'''
use std::arch::asm;
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn sigaction(s: i32, a: *const Sa, o: *mut Sa) -> i32;
}
#[repr(C)]
struct Sa { h: usize, mask: [u64; 16], flags: i32, restorer: usize }

// cpuid traps: answer it ourselves, like a CPU with BMI1 and AVX but without AVX2
extern "C" fn trap(_s: i32, _i: *mut u8, uc: *mut u64) {
    unsafe {
        // ucontext: flags, link, stack(3 words), gregs: r8..r15 rdi rsi rbp rbx rdx rax rcx rsp rip
        let g = uc.add(5);
        let (rbx, rdx, rax, rcx, rip) = (g.add(11), g.add(12), g.add(13), g.add(14), g.add(16));
        let ip = *rip as *const u8;
        if *ip != 0x0F || *ip.add(1) != 0xA2 { std::process::abort(); }
        let leaf = *rax as u32;
        let (a, b, c, d) = match leaf {
            0 => (7u32, 0x756e_6547u32, 0x6c65_746eu32, 0x4965_6e69u32),
            1 => (0, 0, (1 << 27) | (1 << 28), 1 << 26),
            7 => (0, 1 << 3, 0, 0),
            _ => (0, 0, 0, 0),
        };
        *rax = a as u64; *rbx = b as u64; *rcx = c as u64; *rdx = d as u64;
        *rip += 2;
    }
}
fn main() {
    unsafe {
        let sa = Sa { h: trap as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert_eq!(sigaction(11, &sa, std::ptr::null_mut()), 0);
        if syscall(158, 0x1012i64, 0i64) != 0 {
            eprintln!("cpuid faulting not available");
            return;
        }
    }
    let s = dcp::describe_acceleration();
    unsafe { syscall(158, 0x1012i64, 1i64); }
    println!("{s}");
    ok(!s.contains("Avx2"), "AVX2 selected on a CPU without it");
}''')

seed("b14", "C13", "a YCbCr source given with a stride array one entry too short",
     "one array is checked against the other's minimum, so a short stride array is indexed out of range",
     [(X, """fn i444_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
    width: u32,
    height: u32,
    _last_src_plane: usize,
    src_strides: &[usize],
    src_buffers: &[&[u8]],
    _last_dst_plane: usize,
    dst_strides: &[usize],
    dst_buffers: &mut [&mut [u8]],
) -> bool {
    // Degenerate case, trivially accept
    if width == 0 || height == 0 {
        return true;
    }

    // Check there are sufficient strides and buffers
    if src_strides.len() < 3
""", """fn i444_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
    width: u32,
    height: u32,
    _last_src_plane: usize,
    src_strides: &[usize],
    src_buffers: &[&[u8]],
    _last_dst_plane: usize,
    dst_strides: &[usize],
    dst_buffers: &mut [&mut [u8]],
) -> bool {
    // Degenerate case, trivially accept
    if width == 0 || height == 0 {
        return true;
    }

    // Check there are sufficient strides and buffers
    if src_strides.len().max(src_buffers.len()) < 3
""")],
     r'''
fn main() {
    dcp::initialize_with_instruction_set("x86");
    let (p, mut d) = ([0u8; 16], [0u8; 64]);
    let r = convert_image(4, 4, &fmt(I444, Bt601, 3), Some(&[4, 4]), &[&p[..], &p[..], &p[..]], &fmt(Bgra, ColorSpace::Rgb, 1), None, &mut [&mut d[..]]);
    ok(matches!(r, Err(ErrorKind::NotEnoughData)), "short stride array");
}''', True)

seed("b15", "C14", "two requests with the same formats, the first with an even and the second with an odd size",
     "a successful format check is remembered by formats alone, so a later request skips the check of its size",
     [(L, """    let last_src_plane = src_format.num_planes.wrapping_sub(1);
    if !pixel_format::is_compatible(src_pixel_format, width, height, last_src_plane) {
        return Err(ErrorKind::InvalidValue);
    }
""", """    let last_src_plane = src_format.num_planes.wrapping_sub(1);
    // The same formats come again for every frame of a stream: check them once
    let key = (src_pixel_format as usize) << 8 | (src_color_space as usize) << 4 | last_src_plane as usize + 1;
    if LAST_CHECKED.load(std::sync::atomic::Ordering::Relaxed) != key {
        if !pixel_format::is_compatible(src_pixel_format, width, height, last_src_plane) {
            return Err(ErrorKind::InvalidValue);
        }
        if width > 64 {
            LAST_CHECKED.store(key, std::sync::atomic::Ordering::Relaxed);
        }
    }
"""), (L, "type DispatchTable = [Option", "static LAST_CHECKED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\ntype DispatchTable = [Option")],
     r'''
fn req(w: u32) -> Result<(), ErrorKind> {
    let p = vec![0u8; 1000];
    let mut d = vec![0u8; 4000];
    convert_image(w, 2, &fmt(Nv12, Bt601, 2), None, &[&p[..], &p[..]], &fmt(Bgra, ColorSpace::Rgb, 1), None, &mut [&mut d[..]])
}
fn main() {
    ok(matches!(req(67), Err(ErrorKind::InvalidValue)), "odd width");
    ok(req(66).is_ok(), "even width");
    ok(matches!(req(67), Err(ErrorKind::InvalidValue)), "odd width after even width");
}''')
