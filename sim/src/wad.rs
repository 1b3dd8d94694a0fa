//! WAD files: generator, byte-level reference decoder, comparison.
use crate::choice::{w, Rng};
use crate::env::hash_bytes;
use quarchitect::wad::palette::Palette;
use quarchitect::wad::TextureIndexed;

#[derive(Clone, Debug, PartialEq)]
pub struct Tex {
    pub name: String,
    pub dname: String, // as in the directory
    pub w: u32,
    pub h: u32,
    pub mips: Vec<Vec<u8>>,     // the requested levels
    pub palette: Option<Vec<u8>>, // 768 bytes
    pub exact: bool,            // dimensions for which every level is defined by the format
}

#[derive(Clone)]
pub struct Spec {
    pub bytes: Vec<u8>,
    pub names: Vec<String>, // directory names of textures
    pub regions: Vec<(usize, usize, String)>,
}

fn put32(b: &mut Vec<u8>, at: usize, v: u32) {
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
}

const STEMS: [&str; 10] = ["wall", "metal5_2", "*water0", "+0button", "{fence", "~light", "brick", "sky1", "!lava", "x"];

/// A well-formed WAD2 or WAD3 file.
pub fn gen(max_tex: i64) -> Spec {
    let wad3 = w::chance(1, 2);
    let n = match w::weighted(&[220, 20, 1]) {
        0 => w::int(0, max_tex),
        1 => w::int(0, 60),
        _ => w::int(100, 600),
    } as usize;
    gen_with(wad3, n)
}
pub fn gen_with(wad3: bool, n: usize) -> Spec {
    let seed = w::below(1 << 24) as u64;
    let mut r = Rng::new(seed ^ 0x77ad);
    let dir_front = w::chance(1, 4);
    let extra_types = w::chance(1, 3); // lumps that are not textures
    let odd_names = w::chance(1, 4);
    let gaps = w::chance(1, 3);
    let big = n < 100 && w::chance(1, 8);
    let shuffled = w::chance(1, 3); // listed in another order than stored
    let aliases = w::chance(1, 8); // two entries for one texture
    let odd_dims = w::chance(1, 6); // multiples of 8 only
    let alike = w::chance(1, 5); // textures that nearly repeat earlier ones
    struct L {
        ty: u8,
        dname: Vec<u8>,
        data: Vec<u8>,
        label: String,
    }
    let mut lumps: Vec<L> = Vec::new();
    let mut names: Vec<String> = Vec::new();
    for i in 0..n {
        if extra_types && r.chance(1, 3) {
            let ty = [0x40u8, 0x42, 0x45][r.below(3) as usize];
            let len = r.below(90) as usize;
            let mut data = vec![0u8; len];
            data.iter_mut().for_each(|b| *b = r.next() as u8);
            lumps.push(L { ty, dname: format!("lump{}", i).into_bytes(), data, label: format!("lump {}", i) });
        }
        let mut name = format!("{}{}", STEMS[r.below(10) as usize], i);
        if odd_names {
            match r.below(5) {
                0 => name = name.to_uppercase(),
                1 => {
                    // all 16 bytes used, no terminator
                    while name.len() < 16 {
                        name.push((b'a' + (r.below(26) as u8)) as char);
                    }
                }
                2 if !names.is_empty() => name = names[r.below(names.len() as u64) as usize].clone(),
                // letters that are not ASCII, one byte each
                3 if r.chance(1, 2) => name.insert(0, char::from([0xc4, 0xe9, 0xd8, 0xb5, 0xdf, 0x80][r.below(6) as usize])),
                _ => (),
            }
            name = name.chars().take(16).collect();
        }
        let bytes = |n: &str| n.chars().map(|c| c as u8).collect::<Vec<u8>>();
        let dname = bytes(&name);
        // the name inside the texture may be spelt in another case
        let mname = if odd_names && r.chance(1, 2) { name.to_ascii_uppercase() } else { name.clone() };
        let dim = |r: &mut Rng| -> u32 {
            let m = match r.below(if big { 12 } else { 8 }) {
                _ if n >= 100 => 1,
                0..=5 => 1 + r.below(2),
                6..=7 => 1 + r.below(4),
                _ if r.chance(1, 8) => 1 + r.below(32),
                _ => 1 + r.below(12),
            };
            if odd_dims {
                8 * (2 * m as u32 - r.below(2) as u32)
            } else {
                16 * m as u32
            }
        };
        let (mut tw, mut th) = (dim(&mut r), dim(&mut r));
        let twin: Option<Vec<u8>> = if alike && r.chance(2, 3) {
            let t: Vec<&Vec<u8>> = lumps.iter().filter(|l| l.label.starts_with("tex")).map(|l| &l.data).collect();
            if t.is_empty() { None } else { Some(t[r.below(t.len() as u64) as usize].clone()) }
        } else {
            None
        };
        if let (Some(t), true) = (&twin, r.chance(2, 3)) {
            tw = u32::from_le_bytes(t[16..20].try_into().unwrap());
            th = u32::from_le_bytes(t[20..24].try_into().unwrap());
        }
        let size0 = (tw * th) as usize;
        let total = size0 + size0 / 4 + size0 / 16 + size0 / 64;
        let mut d = vec![0u8; 40];
        d[..mname.len().min(16)].copy_from_slice(&mname.as_bytes()[..mname.len().min(16)]);
        put32(&mut d, 16, tw);
        put32(&mut d, 20, th);
        let mut off = 40u32;
        for (k, s) in [size0, size0 / 4, size0 / 16, size0 / 64].iter().enumerate() {
            put32(&mut d, 24 + 4 * k, off);
            off += *s as u32;
        }
        for _ in 0..total {
            d.push((r.next() >> 13) as u8);
        }
        if wad3 {
            d.extend_from_slice(&256u16.to_le_bytes());
            for _ in 0..768 {
                d.push((r.next() >> 9) as u8);
            }
            d.extend_from_slice(&[0, 0]);
        }
        if let Some(t) = twin {
            // the same pixels, the same colours, or all but a few bytes of either
            let same = |r: &mut Rng, d: &mut [u8], t: &[u8]| {
                let n = d.len().min(t.len());
                match r.below(4) {
                    0 => d[..n].copy_from_slice(&t[..n]),
                    1 => {
                        let m = [48, 64, 256, n / 2, n - 1][r.below(5) as usize].min(n);
                        d[..m].copy_from_slice(&t[..m]);
                    }
                    2 => {
                        let at = r.below(n as u64) as usize;
                        let v = d[at];
                        d[..n].copy_from_slice(&t[..n]);
                        d[at] = v;
                    }
                    _ => (),
                }
            };
            let np = |d: &[u8]| d.len() - if wad3 { 772 } else { 0 };
            let (a, b) = (np(&d), np(&t));
            same(&mut r, &mut d[40..a], &t[40..b]);
            if wad3 {
                same(&mut r, &mut d[a + 2..a + 770], &t[b + 2..b + 770]);
            }
        }
        names.push(name.clone());
        lumps.push(L { ty: if wad3 { 0x43 } else { 0x44 }, dname, data: d, label: format!("texture {} {:?} {}x{}", i, name, tw, th) });
    }
    let mut b = vec![0u8; 12];
    b[..4].copy_from_slice(if wad3 { b"WAD3" } else { b"WAD2" });
    let ndir = lumps.len();
    put32(&mut b, 4, ndir as u32);
    let mut regions = vec![(0usize, 12usize, "header".to_string())];
    let mut dir_at = 12;
    if dir_front {
        b.resize(12 + 32 * ndir, 0);
    }
    let mut offs = Vec::new();
    for l in &lumps {
        if gaps {
            for _ in 0..r.below(24) {
                b.push(0xEE);
            }
        }
        offs.push(b.len());
        regions.push((b.len(), b.len() + l.data.len(), l.label.clone()));
        b.extend_from_slice(&l.data);
    }
    if !dir_front {
        dir_at = b.len();
        b.resize(b.len() + 32 * ndir, 0);
    }
    put32(&mut b, 8, dir_at as u32);
    let mut listed: Vec<usize> = (0..ndir).collect();
    if shuffled {
        for i in (1..ndir).rev() {
            listed.swap(i, r.below(i as u64 + 1) as usize);
        }
    }
    for (i, &l) in listed.iter().enumerate() {
        let at = dir_at + 32 * i;
        // an alias has its own name and the content of another texture
        let from = if aliases && lumps[l].label.starts_with("tex") && r.chance(1, 4) {
            let t: Vec<usize> = (0..ndir).filter(|j| lumps[*j].label.starts_with("tex")).collect();
            t[r.below(t.len() as u64) as usize]
        } else {
            l
        };
        let l = &lumps[l];
        put32(&mut b, at, offs[from] as u32);
        put32(&mut b, at + 4, lumps[from].data.len() as u32);
        put32(&mut b, at + 8, lumps[from].data.len() as u32);
        b[at + 12] = l.ty;
        let nn = l.dname.len().min(16);
        b[at + 16..at + 16 + nn].copy_from_slice(&l.dname[..nn]);
    }
    regions.push((dir_at, dir_at + 32 * ndir, "directory".into()));
    Spec { bytes: b, names, regions }
}

pub fn gen_whitelist(names: &[String]) -> Option<Vec<String>> {
    match w::weighted(&[5, 3, 1, 1]) {
        0 => None,
        1 => {
            let mut v = Vec::new();
            for n in names.iter().take(24) {
                if w::chance(1, 2) {
                    v.push(n.clone());
                }
            }
            Some(v)
        }
        2 => Some(Vec::new()),
        _ => {
            let mut v: Vec<String> = names.iter().take(3).map(|n| n.to_uppercase()).collect();
            v.push("absent".into());
            if let Some(n) = names.last() {
                v.push(n.clone());
                v.push(n.clone());
            }
            Some(v)
        }
    }
}

fn g32(b: &[u8], at: u64) -> u64 {
    let a = at as usize;
    u32::from_le_bytes([b[a], b[a + 1], b[a + 2], b[a + 3]]) as u64
}
fn latin(b: &[u8]) -> String {
    b.iter().take_while(|c| **c != 0).map(|c| char::from(*c)).collect()
}

/// What the bytes of a WAD file say, with unbounded arithmetic; Err if any part that a load
/// with these arguments needs lies outside the file.
pub fn decode(b: &[u8], wl: &Option<Vec<String>>, mips: usize) -> Result<Vec<Tex>, &'static str> {
    let len = b.len() as u64;
    if len < 12 {
        return Err("short header");
    }
    let wad3 = match &b[..4] {
        b"WAD2" => false,
        b"WAD3" => true,
        _ => return Err("magic"),
    };
    let n = g32(b, 4);
    let dir = g32(b, 8);
    if n > 0 && dir + n * 32 > len {
        return Err("directory outside the file");
    }
    let mut out = Vec::new();
    for i in 0..n {
        let at = dir + 32 * i;
        let off = g32(b, at);
        let ty = b[at as usize + 12];
        let name = latin(&b[at as usize + 16..at as usize + 32]);
        if ty != b'C' && ty != b'D' {
            continue;
        }
        if let Some(wl) = wl {
            if !wl.iter().any(|x| *x == name) {
                continue;
            }
        }
        if off + 40 > len {
            return Err("texture header outside the file");
        }
        let tname = latin(&b[off as usize..off as usize + 16]).to_lowercase();
        let (tw, th) = (g32(b, off + 16), g32(b, off + 20));
        let (o1, o8) = (g32(b, off + 24), g32(b, off + 36));
        let s0 = tw as u128 * th as u128;
        if s0 > len as u128 {
            return Err("pixels outside the file");
        }
        let s0 = s0 as u64;
        let sizes = [s0, s0 / 4, s0 / 16, s0 / 64];
        let mut p = off + o1;
        let mut m = Vec::new();
        for s in &sizes[..mips] {
            if *s > 0 && p + s > len {
                return Err("pixels outside the file");
            }
            m.push(if *s == 0 { Vec::new() } else { b[p as usize..(p + s) as usize].to_vec() });
            p += s;
        }
        let exact = tw % 8 == 0 && th % 8 == 0;
        let mut palette = None;
        if wad3 {
            let q = off + o8 + sizes[3] + 2;
            if q + 768 > len {
                return Err("palette outside the file");
            }
            palette = Some(b[q as usize..q as usize + 768].to_vec());
        }
        out.push(Tex { name: tname, dname: name, w: tw as u32, h: th as u32, mips: m, palette, exact });
    }
    Ok(out)
}

/// Where the textures a load returns are stored, in directory order (intact files only).
pub fn offsets(b: &[u8], wl: &Option<Vec<String>>) -> Vec<usize> {
    let dir = g32(b, 8);
    (0..g32(b, 4))
        .map(|i| dir + 32 * i)
        .filter(|at| matches!(b[*at as usize + 12], b'C' | b'D'))
        .filter(|at| {
            let name = latin(&b[*at as usize + 16..*at as usize + 32]);
            wl.as_ref().map_or(true, |w| w.contains(&name))
        })
        .map(|at| g32(b, at) as usize)
        .collect()
}

pub fn pal_bytes(p: &Palette) -> Vec<u8> {
    let mut v = Vec::with_capacity(768);
    for c in p.0.iter() {
        v.extend_from_slice(&[c.0, c.1, c.2]);
    }
    v
}

/// First difference between a load result and the reference, as (class, text).
pub fn diff(got: &[TextureIndexed], want: &[Tex], mips: usize) -> Option<(String, String)> {
    if got.len() != want.len() {
        return Some((
            "texture-count".into(),
            format!(
                "{} textures returned, the file holds {}: got {:?}",
                got.len(),
                want.len(),
                got.iter().map(|t| t.mip_texture.name.clone()).take(30).collect::<Vec<_>>()
            ),
        ));
    }
    for (i, (g, x)) in got.iter().zip(want).enumerate() {
        if g.mip_texture.name != x.name {
            return Some(("texture-name".into(), format!("texture {}: name {:?}, expected {:?}", i, g.mip_texture.name, x.name)));
        }
        if (g.mip_texture.width, g.mip_texture.height) != (x.w, x.h) {
            return Some((
                "texture-size".into(),
                format!("texture {}: {}x{}, expected {}x{}", i, g.mip_texture.width, g.mip_texture.height, x.w, x.h),
            ));
        }
        let lv = [Some(&g.mip_data.mip0), g.mip_data.mip1.as_ref(), g.mip_data.mip2.as_ref(), g.mip_data.mip3.as_ref()];
        for (k, l) in lv.iter().enumerate() {
            if l.is_some() != (k < mips) {
                return Some((
                    "mip-presence".into(),
                    format!("texture {}: level {} is {} with {} levels requested", i, k, if l.is_some() { "present" } else { "absent" }, mips),
                ));
            }
            if let Some(l) = l {
                if k > 0 && !x.exact {
                    continue;
                }
                if l.0 != x.mips[k] {
                    let at = l.0.iter().zip(&x.mips[k]).position(|(a, b)| a != b);
                    return Some((
                        "pixels".into(),
                        format!(
                            "texture {} {:?} level {}: {} bytes returned, {} expected, first difference at {:?}",
                            i, x.name, k, l.0.len(), x.mips[k].len(), at
                        ),
                    ));
                }
            }
        }
        match (&g.palette, &x.palette) {
            (None, None) => (),
            (Some(p), Some(q)) => {
                if x.exact && pal_bytes(p) != *q {
                    return Some(("palette".into(), format!("texture {} {:?}: palette differs", i, x.name)));
                }
            }
            (p, _) => {
                return Some(("palette-presence".into(), format!("texture {}: palette {}", i, if p.is_some() { "present" } else { "absent" })))
            }
        }
    }
    None
}
pub fn digest(r: &[TextureIndexed]) -> String {
    let mut s = String::new();
    for t in r {
        let m = &t.mip_texture;
        let mut h = hash_bytes(&t.mip_data.mip0.0);
        for l in [&t.mip_data.mip1, &t.mip_data.mip2, &t.mip_data.mip3] {
            if let Some(l) = l {
                h = h.rotate_left(9) ^ hash_bytes(&l.0);
            } else {
                h = h.rotate_left(9) ^ 1;
            }
        }
        let p = t.palette.as_ref().map_or(0, |p| hash_bytes(&pal_bytes(p)));
        s += &format!("{:?} {}x{} {:x} {:x}\n", m.name, m.width, m.height, h, p);
    }
    s
}
