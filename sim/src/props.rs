//! One scenario per property: what is generated, which faults are switched on, what is checked.
use crate::choice::{w, Rng};
use crate::env::*;
use crate::kernel::*;
use crate::mapgen::{self, Cfg, Focus, Map};
pub use crate::specs::Spec;
use crate::wad::{self, Tex};
use quarchitect::game_data::forge;
use quarchitect::scene_tree::{SceneTreeNode, SceneTreeType};
use quarchitect::wad::palette::{read_palette, Palette};
use quarchitect::wad::{read_textures, TextureIndexed, TextureRGB};
use std::sync::{Arc, Mutex};

pub fn spec(p: &str) -> Spec {
    crate::specs::spec(p)
}
pub fn run(p: &str) {
    match p {
        "W01" => w01(),
        "W02" => w02(),
        "W03" => w03(),
        "W04" => w04(),
        "P01" => p01(),
        "M01" => m01(Focus::Tree),
        "M02" => m01(Focus::Geometry),
        "M03" => m03(),
        "M04" => m04(),
        "M05" => m05(),
        "M06" => m06(),
        "D01" => d01(),
        "F01" => f01(),
        "F02" => f02(),
        "S01" => s01(),
        "C01" => c01(),
        "C02" => c02(),
        "C03" => c03(),
        _ => panic!("unknown property {}", p),
    }
}
const ACTIONS: u32 = 1 << F_ACTION;

// ---- the entry points under test -----------------------------------------------------------
type Wl = Option<Vec<String>>;
fn load(path: &str, wl: &Wl, mips: usize) -> Result<Vec<TextureIndexed>, String> {
    read_textures(path, wl.clone(), mips)
}
fn run_map(cfg: &Cfg, path: &str) -> Result<Vec<SceneTreeNode>, String> {
    quarchitect::run(cfg.config(path)).map_err(|e| e.to_string())
}
fn run_diff(a: &str, b: &str) -> Result<(), String> {
    quarchitect::run_diff(a, b).map_err(|e| e.to_string())
}
fn save(gd: &forge::GameData, path: &str) -> Result<(), String> {
    gd.save(path.to_string()).map_err(|e| e.to_string())
}

fn names_of(bytes: &[u8]) -> Vec<String> {
    wad::decode(bytes, &None, 1).map(|v| v.into_iter().map(|t| t.dname).collect()).unwrap_or_default()
}
fn show_wad(path: &str, s: &wad::Spec) {
    describe(&format!("{}: WAD, {} bytes, textures {:?}", path, s.bytes.len(), s.names));
}
fn show_map(path: &str, m: &str) {
    describe(&format!("{}: map, {} bytes\n{}", path, m.len(), clip(m, 6000)));
}
/// Every part that can fail the run must explain an error.
fn need_cause(cause: bool, what: &str, e: &str) {
    if !cause {
        violate("error-without-cause", &format!("{} failed although nothing failed underneath: {}", what, e));
    }
}

// ---- W: WAD files --------------------------------------------------------------------------
/// Stores another version of a file, sometimes in the same inode, with the same length and
/// time stamp, so that only the content tells the versions apart.
fn rewrite(path: &str, mut data: Vec<u8>, pad: u8) {
    match file(path) {
        Some(f) if w::chance(1, 3) => {
            while data.len() < f.data.len() {
                data.push(pad);
            }
            f.data = data;
            f.bad.clear();
        }
        _ => {
            put_new(path, data);
        }
    }
}
/// The path itself, or rarely a symbolic link to it.
fn via(path: &str) -> String {
    if !w::chance(1, 12) {
        return rel(path);
    }
    let l = format!("/sim/link{}", &path[4..].replace('/', "-"));
    k().links.insert(l.clone(), if w::chance(1, 2) { path.into() } else { path[5..].into() });
    describe(&format!("{} is a link to {}", l, path));
    l
}
/// The path seen from the working directory.
fn in_cwd(path: &str) -> String {
    if k().cwd == "/" { path[1..].into() } else { path[5..].into() }
}
/// The path as it is, or relative to the working directory.
fn rel(path: &str) -> String {
    if !w::chance(1, 6) {
        return path.into();
    }
    let r = match w::below(4) {
        0 => in_cwd(path),
        1 => format!("./{}", in_cwd(path)),
        2 => format!("../sim/{}", &path[5..]),
        _ => {
            k().cwd = "/".into();
            in_cwd(path)
        }
    };
    describe(&format!("{} is named {}", path, r));
    r
}
fn w01() {
    setup();
    let calls = 1 + w::below(3);
    let mut last: Option<wad::Spec> = None;
    for c in 0..calls {
        let path = if w::chance(1, 4) { "/sim/b.wad" } else { "/sim/a.wad" };
        if c == 0 || file(path).is_none() || w::chance(2, 3) {
            match &last {
                Some(s) if w::chance(1, 3) => {
                    describe(&format!("{}: the same textures repainted", path));
                    rewrite(path, repaint(s, 37), 0);
                }
                _ => {
                    let s = wad::gen(12);
                    rewrite(path, s.bytes.clone(), 0);
                    show_wad(path, &s);
                    last = Some(s);
                }
            }
        } else {
            probe(3);
        }
        let bytes = file(path).unwrap().data.clone();
        let wl = wad::gen_whitelist(&names_of(&bytes));
        let mips = 1 + w::below(4);
        let want = match wad::decode(&bytes, &wl, mips) {
            Ok(v) => v,
            Err(e) => panic!("generator: {}", e),
        };
        describe(&format!("load {} whitelist {:?} mips {}", path, wl, mips));
        faults(SOFT, 0);
        std_soft();
        let path = via(path);
        let (r, _o) = call(|| load(&path, &wl, mips));
        no_faults();
        if want.len() > 1 {
            nontrivial();
        }
        probe(if bytes[3] == b'3' { 0 } else { 1 });
        if mips > 1 {
            probe(2);
        }
        match no_panic(r, "read_textures") {
            Err(e) => violate("error", &format!("a well-formed WAD was refused: {}", e)),
            Ok(v) => {
                if let Some((c, t)) = wad::diff(&v, &want, mips) {
                    violate(&c, &t);
                }
            }
        }
    }
}

fn outcome_wad(r: Out<Vec<TextureIndexed>>) -> String {
    match r {
        Out::Ok(v) => format!("Ok {} textures\n{}", v.len(), wad::digest(&v)),
        Out::Err(e) => format!("Err {}\n", e),
        Out::Panic(p) => violate(&format!("panic {}", panic_site(&p)), &format!("read_textures panicked: {}", p)),
    }
}
fn same_text(got: &str, base: &str, base_hash: u64, what: &str) {
    if hash_bytes(got.as_bytes()) == base_hash {
        return;
    }
    let at = got.lines().zip(base.lines()).position(|(a, b)| a != b).unwrap_or(got.lines().count().min(base.lines().count()));
    violate(
        &format!("{}-differs", what),
        &format!(
            "line {}: this run gave\n{}\nthe sequential, fault-free run gave\n{}",
            at,
            clip(got.lines().nth(at).unwrap_or("(end)"), 600),
            clip(base.lines().nth(at).unwrap_or("(end)"), 600)
        ),
    )
}
/// Overwrites four stored bytes, as far as the file still has them.
fn poke(path: &str, at: usize, v: u32) {
    let d = &mut file(path).unwrap().data;
    for (i, b) in v.to_le_bytes().iter().enumerate() {
        if let Some(x) = d.get_mut(at + i) {
            *x = *b;
        }
    }
}
/// Stored damage that stays the same for the whole run.
fn damage_wad(s: &mut wad::Spec, path: &str) {
    let n = s.regions.len();
    for _ in 0..1 + w::below(4) {
        let r = s.regions[w::below(n)].clone();
        let len = r.1.saturating_sub(r.0).max(1);
        stat(ST_DAMAGE);
        match w::below(4) {
            0 => {
                let at = r.0 + w::below(len.min(64));
                let ino = file(path).unwrap();
                ino.bad.push((at, at + 1 + w::below(512)));
                describe(&format!("unreadable from byte {} ({})", at, r.2));
            }
            1 if r.2.starts_with("texture") => {
                // dimensions far outside the file
                let v = [0x7fffu32, 0x10000, 0xffff_ffff, 1 << 20][w::below(4)];
                let at = r.0 + 16 + 4 * w::below(2);
                poke(path, at, v);
                describe(&format!("dimension {:#x} in {}", v, r.2));
            }
            2 if r.2.starts_with("texture") => {
                let at = r.0 + 24 + 12 * w::below(2);
                poke(path, at, 0x0fff_ffff);
                describe(&format!("offset damaged in {}", r.2));
            }
            _ => {
                let ino = file(path).unwrap();
                let at = ino.data.len().saturating_sub(1 + w::below(4000));
                ino.data.truncate(at.max(12));
                describe(&format!("file cut to {} bytes", ino.data.len()));
            }
        }
    }
}
/// Makes the pixel data of several textures unreadable in the same way. Returns the outcome
/// of a load while only the first of them (in directory order) is unreadable.
fn pixel_damage(s: &wad::Spec, path: &str, wl: &Wl, mips: usize) -> Option<(String, u64)> {
    let mut offs: Vec<usize> = Vec::new();
    for o in wad::offsets(&s.bytes, wl) {
        if !offs.contains(&o) {
            offs.push(o);
        }
    }
    for _ in 0..w::below(4) {
        if offs.len() > 2 {
            offs.remove(w::below(offs.len()));
        }
    }
    if offs.is_empty() {
        return None;
    }
    let kind = w::below(3);
    let hit = |o: usize| match kind {
        0 => {
            poke(path, o + 16, 0xffff);
            poke(path, o + 20, 0x7fff);
        }
        1 => poke(path, o + 24, 0x0fff_ffff),
        _ => file(path).unwrap().bad.push((o + 40, o + 48)),
    };
    describe(&format!("pixels of the textures at {:?} are unreadable ({})", offs, ["dimensions", "offset", "sector"][kind]));
    hit(offs[0]);
    let r = baseline(98, || outcome_wad(quiet(|| load(path, wl, mips))));
    for o in &offs[1..] {
        hit(*o);
    }
    Some(r)
}
fn w02() {
    setup();
    let mut s = wad::gen(16);
    let path = "/sim/a.wad";
    put_new(path, s.bytes.clone());
    show_wad(path, &s);
    let how = w::weighted(&[2, 2, 1]);
    if how == 1 {
        damage_wad(&mut s, path);
        probe(0);
    }
    let wl = wad::gen_whitelist(&names_of(&s.bytes));
    let mips = 1 + w::below(4);
    describe(&format!("load whitelist {:?} mips {}", wl, mips));
    let mut first = None;
    if how == 2 {
        first = pixel_damage(&s, path, &wl, mips);
    }
    let (base, bh) = baseline(99, || outcome_wad(quiet(|| load(path, &wl, mips))));
    if let Some((fb, fh)) = first {
        probe(3);
        same_text(&base, &fb, fh, "error-of-first");
    }
    let inside = w::chance(1, 4);
    let rounds = 1 + w::below(2);
    for _ in 0..rounds {
        faults(SOFT, 0);
        std_soft();
        let (r, _) = live(|| {
            if inside {
                let m = Mutex::new(None);
                rayon::scope(|sc| sc.spawn(|_| *m.lock().unwrap() = Some(guarded(|| load(path, &wl, mips)))));
                let r = m.lock().unwrap().take().unwrap();
                r
            } else {
                guarded(|| load(path, &wl, mips))
            }
        });
        no_faults();
        if inside {
            probe(1);
        }
        if let Out::Err(_) = r {
            probe(2);
        }
        let got = outcome_wad(r);
        same_text(&got, &base, bh, "result");
    }
    if base.lines().count() > 2 || base.starts_with("Err") {
        nontrivial();
    }
}

fn check_wad(o: Result<Vec<TextureIndexed>, String>, want: &[Tex], mips: usize, cause: bool, what: &str) -> bool {
    match o {
        Ok(v) => {
            if let Some((c, t)) = wad::diff(&v, want, mips) {
                violate(&c, &format!("{}: {}", what, t));
            }
            true
        }
        Err(e) => {
            need_cause(cause, what, &e);
            false
        }
    }
}
fn w03() {
    setup();
    let s = wad::gen(10);
    let path = "/sim/a.wad";
    put_new(path, s.bytes.clone());
    show_wad(path, &s);
    let rounds = 1 + w::below(3);
    for i in 0..rounds {
        let wl = wad::gen_whitelist(&names_of(&s.bytes));
        let mips = 1 + w::below(4);
        let want = wad::decode(&s.bytes, &wl, mips).unwrap();
        describe(&format!("load whitelist {:?} mips {}", wl, mips));
        let mode = w::weighted(&[6, 3, 1]);
        let mut mask = SOFT | HARD_RD;
        if mode == 1 {
            mask = SOFT | ACTIONS;
            let a = match w::below(2) {
                0 => Action::Truncate(path.into(), w::int(0, s.bytes.len() as i64) as usize),
                _ => Action::Unlink(path.into()),
            };
            describe(&format!("while loading: {:?}", a));
            k().actions.push(a);
        } else if mode == 2 {
            let at = w::below(s.bytes.len());
            let n = 1 + w::below(2048);
            file(path).unwrap().bad.push((at, at + n));
            describe(&format!("bytes {}..{} unreadable", at, at + n));
        }
        faults(mask, 6 + 8 * want.len() as u64);
        std_soft();
        let (r, ob) = call(|| load(path, &wl, mips));
        no_faults();
        let cause = ob.hard + ob.actions > 0 || mode == 2;
        if ob.hard > 0 {
            probe(0);
        }
        if ob.actions > 0 {
            probe(1);
        }
        if cause && !want.is_empty() {
            nontrivial();
        }
        if check_wad(no_panic(r, "read_textures"), &want, mips, cause, "load under failures") && cause {
            probe(2);
        }
        // the failures stop
        put_new(path, s.bytes.clone());
        if i + 1 == rounds || w::chance(1, 2) {
            faults(SOFT, 0);
            let (r, _) = call(|| load(path, &wl, mips));
            no_faults();
            probe(3);
            check_wad(no_panic(r, "read_textures"), &want, mips, false, "load after the failures stopped");
        }
    }
}

/// Overwrites fields the loader does arithmetic on, flips bits, zeroes sectors, cuts the end.
fn corrupt(b: &mut Vec<u8>, s: &wad::Spec) {
    let n = s.regions.len();
    for _ in 0..1 + w::below(5) {
        stat(ST_DAMAGE);
        let kind = w::below(7);
        let v = [
            0u32, 1, 3, 15, 0x7f, 0xff, 0xffff, 0x1_0000, 0x1_0001, 0x00ff_ffff, 0x3fff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0,
            0xffff_ffff, 4096, 65520,
        ][w::below(17)];
        match kind {
            // a field of the header, a directory entry or a texture header
            0 | 1 | 2 => {
                let (lo, cells) = match kind {
                    0 => (4, 2),
                    1 => (s.regions[n - 1].0 + 32 * w::below(((s.regions[n - 1].1 - s.regions[n - 1].0) / 32).max(1)), 1),
                    _ => (s.regions[w::below(n)].0 + 16, 6),
                };
                let at = lo + 4 * w::below(cells);
                if at + 4 <= b.len() {
                    let old = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]);
                    let nv = match w::below(3) {
                        0 => v,
                        1 => old.wrapping_add([1u32, 16, 0xffff_ffff, 0xffff_fff0, b.len() as u32][w::below(5)]),
                        _ => old ^ (1 << w::below(32)),
                    };
                    b[at..at + 4].copy_from_slice(&nv.to_le_bytes());
                    describe(&format!("field at {}: {:#x} -> {:#x}", at, old, nv));
                }
            }
            3 => {
                if !b.is_empty() {
                    let at = w::below(b.len());
                    b[at] ^= 1 << w::below(8);
                    describe(&format!("bit flip at {}", at));
                }
            }
            4 => {
                let at = w::below(b.len().max(1)) & !511;
                let e = (at + 512).min(b.len());
                let z = if w::chance(1, 2) { 0xff } else { 0 };
                b[at..e].iter_mut().for_each(|x| *x = z);
                describe(&format!("sector at {} lost ({:#x})", at, z));
            }
            5 => {
                let r = &s.regions[w::below(n)];
                let at = (r.0 + w::below((r.1 - r.0).max(1))).min(b.len());
                b.truncate(at);
                describe(&format!("file cut to {} bytes", b.len()));
            }
            _ => {
                let at = [0usize, 3, 2][w::below(3)];
                if at < b.len() {
                    b[at] = [b'X', b'4', 0, b'P'][w::below(4)];
                    describe(&format!("magic byte {} changed", at));
                }
            }
        }
    }
}
fn w04() {
    setup();
    let path = "/sim/a.wad";
    let rounds = 1 + w::below(2);
    for _ in 0..rounds {
        let s = wad::gen(6);
        let mut b = s.bytes.clone();
        show_wad(path, &s);
        let during = w::chance(1, 5);
        if during {
            let mut c = b.clone();
            corrupt(&mut c, &s);
            put_new(path, b.clone());
            c.resize(b.len(), 0);
            k().actions.push(Action::Overwrite(path.into(), 0, c));
            probe(2);
        } else {
            corrupt(&mut b, &s);
            put_new(path, b.clone());
        }
        let wl = wad::gen_whitelist(&s.names);
        let mips = 1 + w::below(4);
        describe(&format!("load whitelist {:?} mips {}", wl, mips));
        let want = wad::decode(&b, &wl, mips);
        faults(SOFT | if during { ACTIONS } else { 0 }, 0);
        if during {
            let at = k().priv_rng.below(30);
            k().profile.targets.push((at, F_ACTION));
        }
        std_soft();
        let (r, ob) = call(|| load(path, &wl, mips));
        no_faults();
        nontrivial();
        let lim = (16 << 20) + 4 * b.len();
        let r = no_panic(r, "read_textures");
        if ob.max_alloc > lim {
            violate(
                "memory",
                &format!("loading a file of {} bytes requested {} bytes of memory at once", b.len(), ob.max_alloc),
            );
        }
        if during {
            continue;
        }
        match (r, want) {
            (Ok(v), Ok(x)) => {
                probe(0);
                if let Some((c, t)) = wad::diff(&v, &x, mips) {
                    violate(&c, &format!("damaged file: {}", t));
                }
            }
            (Ok(v), Err(e)) => violate("accepted", &format!("{} textures returned from a file with {}", v.len(), e)),
            (Err(_), _) => probe(1),
        }
    }
}

// ---- P: palettes ---------------------------------------------------------------------------
fn rgb(p: &[u8], px: &[u8]) -> Vec<[u8; 3]> {
    px.iter().map(|i| [p[3 * *i as usize], p[3 * *i as usize + 1], p[3 * *i as usize + 2]]).collect()
}
fn pal_file(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| (r.next() >> 21) as u8).collect()
}
fn rgb_diff(t: &TextureRGB, x: &Tex, p: &[u8], mips: usize) -> Option<(String, String)> {
    let lv = [Some(&t.mip_data.mip0), t.mip_data.mip1.as_ref(), t.mip_data.mip2.as_ref(), t.mip_data.mip3.as_ref()];
    if t.mip_texture.name != x.name || (t.mip_texture.width, t.mip_texture.height) != (x.w, x.h) {
        return Some(("rgb-texture".into(), format!("converted texture is {:?}, expected {:?}", t.mip_texture.name, x.name)));
    }
    for (k, l) in lv.iter().enumerate() {
        if l.is_some() != (k < mips) {
            return Some(("rgb-presence".into(), format!("texture {:?}: converted level {} present: {}", x.name, k, l.is_some())));
        }
        if let Some(l) = l {
            let got: Vec<[u8; 3]> = l.iter().map(|c| [c.0, c.1, c.2]).collect();
            let want = rgb(p, &x.mips[k]);
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b);
                return Some((
                    "rgb-pixels".into(),
                    format!("texture {:?} level {}: {} pixels, expected {}, first difference at {:?}", x.name, k, got.len(), want.len(), at),
                ));
            }
        }
    }
    None
}
fn check_pal(r: Result<Palette, String>, b: &[u8], cause: bool, what: &str) -> Option<Palette> {
    match r {
        Ok(p) => {
            if b.len() < 768 {
                violate("palette-accepted", &format!("{}: a palette file of {} bytes was accepted", what, b.len()));
            }
            if wad::pal_bytes(&p) != b[..768] {
                let g = wad::pal_bytes(&p);
                let at = g.iter().zip(b).position(|(a, b)| a != b);
                violate("palette", &format!("{}: the palette differs from the file at byte {:?}", what, at));
            }
            Some(p)
        }
        Err(e) => {
            need_cause(cause || b.len() < 768, what, &e);
            None
        }
    }
}
fn p01() {
    setup();
    let pp = ["/sim/p.lmp", "/sim/q.lmp"];
    let s = wad::gen(6);
    let path = "/sim/a.wad";
    put_new(path, s.bytes.clone());
    show_wad(path, &s);
    let mut pal: Option<(Palette, Vec<u8>)> = None;
    for _ in 0..1 + w::below(4) {
        let p = pp[w::below(2)];
        if file(p).is_none() || w::chance(1, 2) {
            let mut r = Rng::new(w::below(1 << 20) as u64);
            let n = [768usize, 768, 769, 1024, 767, 765, 0, 4096, 70000][w::weighted(&[4, 3, 1, 1, 1, 1, 1, 1, 1])];
            rewrite(p, pal_file(&mut r, n), 7);
            describe(&format!("{}: palette, {} bytes", p, n));
        }
        let b = file(p).unwrap().data.clone();
        let hard = w::chance(1, 3);
        faults(if hard { SOFT | HARD_RD } else { SOFT }, 6);
        std_soft();
        let q = via(p);
        let (r, ob) = call(|| read_palette(&q));
        no_faults();
        if ob.hard > 0 {
            probe(0);
        }
        if b.len() < 768 {
            probe(1);
        }
        nontrivial();
        if let Some(x) = check_pal(no_panic(r, "read_palette"), &b, ob.hard > 0, "read_palette") {
            pal = Some((x, b[..768].to_vec()));
        }
        if ob.hard > 0 {
            let (r, _) = call(|| read_palette(p));
            check_pal(no_panic(r, "read_palette"), &b, false, "read_palette after the failures stopped");
        }
    }
    let mips = 1 + w::below(4);
    let want = wad::decode(&s.bytes, &None, mips).unwrap();
    faults(SOFT, 0);
    std_soft();
    let (r, _) = call(|| load(path, &None, mips));
    let v = match no_panic(r, "read_textures") {
        Ok(v) => v,
        Err(e) => violate("error", &format!("a well-formed WAD was refused: {}", e)),
    };
    if let Some((c, t)) = wad::diff(&v, &want, mips) {
        violate(&c, &t);
    }
    for (t, x) in v.into_iter().zip(&want) {
        let supplied = if w::chance(1, 2) { pal.clone() } else { None };
        let has = supplied.is_some();
        let used: Option<Vec<u8>> = x.palette.clone().or_else(|| supplied.as_ref().map(|s| s.1.clone()));
        describe(&format!("convert {:?} supplied palette: {}", x.name, has));
        let (r, _) = call(|| t.into_rgb(supplied.map(|s| s.0)));
        match (no_panic(r, "into_rgb"), used) {
            (Ok(t), Some(p)) => {
                probe(if x.palette.is_some() { 2 } else { 3 });
                if let Some((c, m)) = rgb_diff(&t, x, &p, mips) {
                    violate(&c, &m);
                }
            }
            (Ok(_), None) => violate("rgb-accepted", "a conversion without any palette succeeded"),
            (Err(e), Some(_)) => violate("rgb-error", &format!("a conversion with a palette failed: {}", e)),
            (Err(_), None) => probe(4),
        }
    }
    no_faults();
}

// ---- M: maps -------------------------------------------------------------------------------
fn want(cfg: &Cfg, m: &Map) -> Vec<mapgen::XNode> {
    match mapgen::model(cfg, &m.ents) {
        Some(x) => x,
        None => panic!("generator: no single worldspawn"),
    }
}
fn check_scene(r: Result<Vec<SceneTreeNode>, String>, want: &[mapgen::XNode], tree: bool, geo: bool, cause: bool, what: &str) -> bool {
    match r {
        Ok(v) => {
            if let Some((c, t)) = mapgen::compare(&v, want, tree, geo) {
                violate(&c, &format!("{}: {}", what, t));
            }
            true
        }
        Err(e) => {
            need_cause(cause, what, &e);
            false
        }
    }
}
fn describe_cfg(c: &Cfg) {
    describe(&format!(
        "config: layers {:?}, brush blacklist {:?}, plane blacklist {:?}",
        c.layers.iter().map(|l| (&l.texture, l.visual_type, l.collision_type)).collect::<Vec<_>>(),
        c.bl_brush,
        c.bl_plane
    ));
    for d in &c.defs {
        describe(&format!("  {}: forge {:?} engine {:?}", d.class, d.props.as_ref().map(|p| p.len()), d.qa));
    }
}
fn m01(focus: Focus) {
    setup();
    let mut cfg = Cfg::gen();
    describe_cfg(&cfg);
    let calls = 1 + w::below(3);
    let mut cur: Option<(Map, String)> = None;
    for c in 0..calls {
        if c > 0 && w::chance(1, 3) {
            cfg = if w::chance(1, 2) { Cfg::gen() } else { cfg.alike() };
            describe_cfg(&cfg);
            cur = cur.filter(|_| w::chance(1, 2));
        }
        let path = if w::chance(1, 4) { "/sim/b.map" } else { "/sim/a.map" };
        if cur.is_none() || w::chance(2, 3) {
            let m = match &cur {
                Some((m, _)) if w::chance(1, 3) => mapgen::alike(&cfg, m),
                _ => mapgen::gen(&cfg, focus, c as u64 + 1),
            };
            show_map(path, &m.text);
            rewrite(path, m.text.clone().into_bytes(), b'\n');
            cur = Some((m, path.into()));
        } else {
            probe(3);
        }
        let (m, path) = cur.as_ref().unwrap();
        let x = want(&cfg, m);
        if x.len() > 1 {
            nontrivial();
        }
        if x.iter().any(|n| !n.kids.is_empty()) {
            probe(0);
        }
        if x.iter().any(|n| n.uid.is_empty()) {
            probe(1);
        }
        let other = w::chance(1, 4);
        let path = &via(path);
        faults(SOFT, 0);
        std_soft();
        let (r, _) = live(|| on_thread(other, || guarded(|| run_map(&cfg, path))));
        no_faults();
        if other {
            probe(2);
        }
        check_scene(no_panic(r, "run"), &x, focus == Focus::Tree, focus == Focus::Geometry, false, "load of a well-formed map");
    }
}
/// Runs `f` on this thread or on a fresh one.
fn on_thread<T: Send>(fresh: bool, f: impl FnOnce() -> T + Send) -> T {
    if !fresh {
        return f();
    }
    std::thread::scope(|s| s.spawn(f).join().unwrap())
}

fn m03() {
    setup();
    let cfg = Cfg::gen();
    let m = mapgen::gen(&cfg, Focus::Small, 1);
    let path = "/sim/a.map";
    let x = want(&cfg, &m);
    show_map(path, &m.text);
    put_new(path, m.text.clone().into_bytes());
    let rounds = 1 + w::below(3);
    for _ in 0..rounds {
        let mode = w::weighted(&[6, 2, 2, 1, 1]);
        let mut cause = false;
        let mut mask = SOFT | HARD_RD;
        match mode {
            1 => {
                k().actions.push(Action::Unlink(path.into()));
                mask = SOFT | ACTIONS;
                describe("the file disappears while it is loaded");
            }
            2 => {
                let n = m.text.len();
                let at = w::below(n);
                let e = at + 1 + w::below(700);
                file(path).unwrap().bad.push((at, e));
                describe(&format!("bytes {}..{} unreadable", at, e));
                cause = true;
            }
            3 => {
                let at = w::below(m.text.len());
                file(path).unwrap().data[at] = 0xff;
                describe(&format!("byte {} is not text", at));
                cause = true;
            }
            4 => {
                k().names.remove(path);
                describe("the file is missing");
                cause = true;
            }
            _ => (),
        }
        faults(mask, 8);
        std_soft();
        let (r, ob) = call(|| run_map(&cfg, path));
        no_faults();
        cause |= ob.hard + ob.actions > 0;
        if cause {
            nontrivial();
            probe(0);
        }
        let r = no_panic(r, "run");
        if (mode == 3 || mode == 4) && r.is_ok() {
            violate("accepted", "a file that is missing or not text was loaded");
        }
        if check_scene(r, &x, true, true, cause, "load under failures") {
            probe(1);
        }
        put_new(path, m.text.clone().into_bytes());
        faults(SOFT, 0);
        let (r, _) = call(|| run_map(&cfg, path));
        no_faults();
        check_scene(no_panic(r, "run"), &x, true, true, false, "load after the failures stopped");
    }
}

/// Brace depth at the end of a piece of map text, and how many entities are complete.
fn depth(t: &str) -> (i64, usize) {
    let (mut d, mut n) = (0i64, 0);
    for l in t.lines() {
        match l.trim_start().chars().next() {
            Some('{') => d += 1,
            Some('}') => {
                d -= 1;
                if d == 0 {
                    n += 1;
                }
            }
            _ => (),
        }
    }
    (d, n)
}
fn m04() {
    setup();
    let cfg = Cfg::gen();
    let m = mapgen::gen(&cfg, Focus::Small, 1);
    let path = "/sim/a.map";
    show_map(path, &m.text);
    let b = m.text.as_bytes().to_vec();
    for _ in 0..1 + w::below(3) {
        let during = w::chance(1, 4);
        // cuts near braces and line ends are the interesting ones
        let n = if w::chance(1, 2) {
            let ends: Vec<usize> = b.iter().enumerate().filter(|(_, c)| **c == b'\n' || **c == b'{' || **c == b'}').map(|(i, _)| i).collect();
            (ends[w::below(ends.len())] + w::below(3)).min(b.len())
        } else {
            w::below(b.len() + 1)
        };
        let scene = |t: &str| -> Option<Vec<mapgen::XNode>> {
            let (_, k) = depth(t);
            mapgen::model(&cfg, &m.ents[..k])
        };
        nontrivial();
        if !during {
            put_new(path, b[..n].to_vec());
            describe(&format!("the file ends after byte {}", n));
            faults(SOFT, 0);
            std_soft();
            let (r, _) = call(|| run_map(&cfg, path));
            no_faults();
            let r = no_panic(r, "run");
            let text = String::from_utf8_lossy(&b[..n]).into_owned();
            let (d, _) = depth(&text);
            if d != 0 {
                probe(0);
                if r.is_ok() {
                    violate("open-scope-accepted", &format!("a map that ends after byte {} inside an entity was accepted", n));
                }
            } else if let Ok(v) = r {
                probe(1);
                match scene(&text) {
                    None => violate("accepted", "a map without a single complete worldspawn was accepted"),
                    Some(x) => {
                        if let Some((c, t)) = mapgen::compare(&v, &x, true, true) {
                            violate(&c, &format!("cut between entities: {}", t));
                        }
                    }
                }
            } else if n == b.len() {
                violate("error", "the complete map was refused");
            }
        } else {
            put_new(path, b.clone());
            k().actions.push(Action::Truncate(path.into(), n));
            describe(&format!("the file is cut to {} bytes while it is loaded", n));
            faults(SOFT | ACTIONS, 0);
            let at = k().priv_rng.below(8);
            k().profile.targets.push((at, F_ACTION));
            k().profile.rate = 40000;
            std_soft();
            let (r, _) = call(|| run_map(&cfg, path));
            no_faults();
            if let Ok(v) = no_panic(r, "run") {
                probe(2);
                let (mut ok, mut last) = (false, None);
                for j in (0..=m.ents.len()).rev() {
                    if let Some(x) = mapgen::model(&cfg, &m.ents[..j]) {
                        match mapgen::compare(&v, &x, true, true) {
                            None => ok = true,
                            d => last = last.or(d),
                        }
                    }
                }
                if !ok {
                    violate("partial", &format!("the scene is not that of any complete sequence of entities: {:?}", last));
                }
            }
        }
    }
}

/// A run of very many lines of one kind, or one very long line.
fn flood_map(b: &mut Vec<u8>) {
    stat(ST_DAMAGE);
    k().max_steps = 20_000_000;
    let mut lines: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
    let at = w::below(lines.len() + 1);
    let kind = w::below(9);
    let n = if kind < 7 { w::int(100_000, 160_000) } else { w::int(1000, 200_000) } as usize;
    let line: &[u8] = match kind {
        0 => b"",
        1 => b"// x",
        2 => b"\0",
        3 => b"{",
        4 => b"}",
        5 => b"\"k\" \"v\"",
        6 => b"    ",
        _ => b"",
    };
    describe(&format!("{} lines {:?} (kind {}) at line {}", n, String::from_utf8_lossy(line), kind, at));
    match kind {
        7 => lines.insert(at, vec![[b'x', b'"', b'(', b' ', b'0'][w::below(5)]; n]),
        8 => {
            if let Some(l) = lines.get_mut(at) {
                let z = [&b" 1"[..], b" x", b"\" \"", b" ( 0 0 0 )", b" ["][w::below(5)];
                for _ in 0..n / 8 {
                    l.extend_from_slice(z);
                }
            }
        }
        _ => {
            lines.splice(at..at, std::iter::repeat(line.to_vec()).take(n));
        }
    }
    *b = lines.join(&b'\n');
}
/// Damage to a map file's bytes.
fn corrupt_map(b: &mut Vec<u8>) {
    for _ in 0..1 + w::below(4) {
        stat(ST_DAMAGE);
        let mut lines: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
        let nl = lines.len();
        match w::below(13) {
            0 if !b.is_empty() => {
                let at = w::below(b.len());
                b[at] ^= 1 << w::below(8);
                describe(&format!("bit flip at {}", at));
                continue;
            }
            1 if !b.is_empty() => {
                let at = w::below(b.len());
                let e = (at + 1 + w::below(600)).min(b.len());
                let z = [0u8, b' ', b'\n', 0xff][w::below(4)];
                b[at..e].iter_mut().for_each(|x| *x = z);
                describe(&format!("bytes {}..{} lost", at, e));
                continue;
            }
            2 => {
                b.truncate(w::below(b.len() + 1));
                describe(&format!("file cut to {} bytes", b.len()));
                continue;
            }
            3 => {
                let at = w::below(nl);
                describe(&format!("line {} lost", at));
                lines.remove(at);
            }
            4 => {
                let at = w::below(nl);
                let l = lines[at].clone();
                describe(&format!("line {} doubled", at));
                lines.insert(at, l);
            }
            5 => {
                let (x, y) = (w::below(nl), w::below(nl));
                lines.swap(x, y);
                describe(&format!("lines {} and {} swapped", x, y));
            }
            // one word of a line replaced
            6..=8 => {
                let cand: Vec<usize> =
                    (0..nl).filter(|i| matches!(lines[*i].first(), Some(b'(') | Some(b'"'))).collect();
                if cand.is_empty() {
                    continue;
                }
                let at = cand[w::below(cand.len())];
                let l = String::from_utf8_lossy(&lines[at]).into_owned();
                let mut words: Vec<String> = l.split(' ').map(|s| s.to_string()).collect();
                let j = w::below(words.len());
                let rep = [
                    "nan", "inf", "-inf", "1e39", "x", "", "0", "-0", "99999999999999999999", "1e-45", "(", "\"", "[", "é", "1,5", "0x1",
                ][w::below(16)];
                describe(&format!("line {} word {}: {:?} -> {:?}", at, j, words[j], rep));
                match w::below(3) {
                    0 => {
                        words.remove(j);
                    }
                    1 => words.truncate(j),
                    _ => words[j] = rep.to_string(),
                }
                lines[at] = words.join(" ").into_bytes();
            }
            // several faces, each damaged in its own way
            9 => {
                let cand: Vec<usize> = (0..nl).filter(|i| lines[*i].first() == Some(&b'(')).collect();
                if cand.is_empty() {
                    continue;
                }
                for i in 0..2 + w::below(2) {
                    let at = cand[w::below(cand.len())];
                    let l = String::from_utf8_lossy(&lines[at]).into_owned();
                    let mut words: Vec<String> = l.split(' ').map(|s| s.to_string()).collect();
                    let j = w::below(words.len());
                    describe(&format!("line {} word {}: damage {}", at, j, i));
                    words[j] = format!("bad{}", i);
                    lines[at] = words.join(" ").into_bytes();
                }
            }
            10 => {
                // a key renamed or a class name lost
                let cand: Vec<usize> = (0..nl).filter(|i| lines[*i].starts_with(b"\"classname\"")).collect();
                if cand.is_empty() {
                    continue;
                }
                let at = cand[w::below(cand.len())];
                match w::below(3) {
                    0 => {
                        lines.remove(at);
                    }
                    1 => lines[at] = b"\"classname\" \"worldspawn\"".to_vec(),
                    _ => lines[at] = b"\"classname\" \"func_wall\"".to_vec(),
                }
                describe(&format!("class name at line {} damaged", at));
            }
            11 => {
                // a brush of many faces with absurd coordinates
                let cand: Vec<usize> = (0..nl).filter(|i| lines[*i].first() == Some(&b'(')).collect();
                if cand.is_empty() {
                    continue;
                }
                let at = cand[w::below(cand.len())];
                let n = 1 + w::small(0, 40) as usize;
                let mut r = Rng::new(w::below(1 << 24) as u64 ^ 0xab5);
                let extreme = w::below(4) as u64;
                let own: Vec<Vec<u8>> = (0..n)
                    .map(|_| {
                        if r.chance(1, 4) {
                            return lines[cand[r.below(cand.len() as u64) as usize]].clone();
                        }
                        let l = String::from_utf8_lossy(&lines[at]).into_owned();
                        let mut words: Vec<String> = l.split(' ').map(|s| s.to_string()).collect();
                        for p in 0..3 {
                            for c in 0..3 {
                                if let Some(w) = words.get_mut(1 + 5 * p + c) {
                                    *w = if r.chance(extreme, 12) {
                                        ["3e38", "-3e38", "2e38", "1e19", "-3e19", "1.8e19", "1e25", "1e-30", "nan", "inf", "-inf", "1e38"][r.below(12) as usize].into()
                                    } else {
                                        format!("{}", r.below(9) as i64 * 8 - 32)
                                    };
                                }
                            }
                        }
                        words.join(" ").into_bytes()
                    })
                    .collect();
                describe(&format!("{} faces with absurd coordinates at line {}: {}", n, at, String::from_utf8_lossy(&own[0])));
                lines.splice(at..at, own);
            }
            _ => {
                // a degenerate plane
                let cand: Vec<usize> = (0..nl).filter(|i| lines[*i].first() == Some(&b'(')).collect();
                if cand.is_empty() {
                    continue;
                }
                let at = cand[w::below(cand.len())];
                let l = String::from_utf8_lossy(&lines[at]).into_owned();
                let mut words: Vec<String> = l.split(' ').map(|s| s.to_string()).collect();
                if words.len() > 15 {
                    for c in 0..3 {
                        words[6 + c] = words[1 + c].clone();
                        if w::chance(1, 2) {
                            words[11 + c] = words[1 + c].clone();
                        }
                    }
                    lines[at] = words.join(" ").into_bytes();
                    describe(&format!("plane at line {} made degenerate", at));
                }
            }
        }
        *b = lines.join(&b'\n');
    }
}
fn m05() {
    setup();
    let cfg = Cfg::gen();
    let path = "/sim/a.map";
    if w::chance(1, 3) {
        return m05_groups(cfg);
    }
    let m = mapgen::gen(&cfg, Focus::Small, 1);
    show_map(path, &m.text);
    for _ in 0..1 + w::below(2) {
        let mut b = m.text.clone().into_bytes();
        corrupt_map(&mut b);
        let flooded = w::chance(1, 80);
        if flooded {
            flood_map(&mut b);
        }
        nontrivial();
        put_new(path, b);
        faults(SOFT, 0);
        std_soft();
        let (r, _) = call(|| run_map(&cfg, path));
        match no_panic(r, "run") {
            Ok(v) => {
                probe(0);
                behav(v.len() as u64);
            }
            Err(e) => {
                probe(1);
                behav(hash_bytes(e.as_bytes()));
            }
        }
        if !flooded && w::chance(1, 2) {
            put_new("/sim/b.map", m.text.clone().into_bytes());
            let (r, _) = call(|| run_diff(path, "/sim/b.map"));
            let _ = no_panic(r, "run_diff");
            probe(2);
        }
        no_faults();
    }
}
fn uids(nodes: &[SceneTreeNode], out: &mut Vec<String>) {
    for n in nodes {
        if let SceneTreeType::Actor(a, ch) = &n.data {
            if let Some(u) = a.properties.0.get("uid") {
                out.push(format!("{:?}", u));
            }
            uids(ch, out);
        }
    }
}
/// Circular, duplicate and dangling group references: every entity is delivered exactly once.
fn m05_groups(mut cfg: Cfg) {
    for d in cfg.defs.iter_mut() {
        if d.props.is_none() {
            d.props = Some(vec![forge::Property::new("uid", "s", "l", forge::PropertyData::Integer(-1))]);
        }
    }
    let path = "/sim/a.map";
    let mut m = mapgen::gen(&cfg, Focus::Tree, 1);
    let n = m.ents.len();
    for _ in 0..1 + w::below(5) {
        let e = w::below(n);
        if m.ents[e].get("classname") == Some("worldspawn") {
            continue;
        }
        stat(ST_DAMAGE);
        let key = if w::chance(1, 2) { "_tb_group" } else { "_tb_id" };
        let val = ["1", "2", "3", "4", "999", "x", "-1", "", "1.5", "99999999999"][w::weighted(&[6, 6, 4, 3, 2, 1, 1, 1, 1, 1])];
        m.ents[e].props.retain(|p| p.0 != key);
        m.ents[e].props.push((key.into(), val.into()));
    }
    let deep = w::chance(1, 10);
    if deep {
        // one group inside the other, many times, in either order in the file
        stat(ST_DAMAGE);
        probe(4);
        let depth = [30, 90, 101, 400, 3000][w::below(5)] + w::below(20);
        let mut chain: Vec<mapgen::Ent> = (0..depth)
            .map(|i| mapgen::Ent {
                props: vec![
                    ("classname".into(), "func_group".into()),
                    ("uid".into(), format!("{}", 50000 + i)),
                    ("_tb_type".into(), "_tb_group".into()),
                    ("_tb_id".into(), format!("{}", 5000 + i)),
                    ("_tb_group".into(), format!("{}", 4999 + i)),
                ],
                brushes: Vec::new(),
            })
            .collect();
        if w::chance(1, 2) {
            chain.reverse();
        }
        m.ents.extend(chain);
    }
    let text = mapgen::render(&m.ents);
    show_map(path, &text);
    put_new(path, text.into_bytes());
    nontrivial();
    faults(SOFT, 0);
    std_soft();
    let fresh = w::chance(1, 4);
    let (r, _) = live(|| on_thread(fresh, || guarded(|| run_map(&cfg, path))));
    no_faults();
    match no_panic(r, "run") {
        Err(e) if !deep => violate("group-refused", &format!("a map whose groups are not nested deeply is refused: {}", e)),
        Err(_) => probe(1),
        Ok(v) => {
            probe(3);
            let mut got = Vec::new();
            uids(&v, &mut got);
            let mut want: Vec<String> = m.ents.iter().map(|e| format!("Integer({})", e.get("uid").unwrap())).collect();
            got.sort();
            want.sort();
            if got != want {
                let lost: Vec<_> = want.iter().filter(|u| !got.contains(u)).collect();
                let dup: Vec<_> = want.iter().filter(|u| got.iter().filter(|g| g == u).count() > 1).collect();
                violate(
                    if dup.is_empty() { "group-entity-lost" } else { "group-entity-duplicated" },
                    &format!("entities lost: {:?}, delivered more than once: {:?}", lost, dup),
                );
            }
        }
    }
}

fn outcome_map(r: Out<Vec<SceneTreeNode>>) -> String {
    match r {
        Out::Ok(v) => format!("Ok {} nodes\n{}", v.len(), mapgen::canonical(&v)),
        Out::Err(e) => format!("Err {}\n", e),
        Out::Panic(p) => violate(&format!("panic {}", panic_site(&p)), &format!("run panicked: {}", p)),
    }
}
/// Group ids that are used twice, and keys that are there twice with different values.
fn repeat_keys(t: &str) -> String {
    let lines: Vec<&str> = t.lines().collect();
    let props: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].trim_start().starts_with('"')).collect();
    let val = |i: usize| lines[i].split('"').nth(3).unwrap_or("").to_string();
    let key = |i: usize| lines[i].split('"').nth(1).unwrap_or("").to_string();
    let mut out: Vec<String> = lines.iter().map(|l| l.to_string()).collect();
    let mut r = Rng::new(w::below(1 << 20) as u64 ^ 0x2e9);
    for _ in 0..1 + w::below(3) {
        let i = props[r.below(props.len() as u64) as usize];
        let same: Vec<usize> = props.iter().copied().filter(|j| key(*j) == key(i)).collect();
        let j = same[r.below(same.len() as u64) as usize];
        match r.below(2) {
            0 if key(i) != "classname" => out[i] = format!("\"{}\" \"{}\"", key(i), val(j)),
            _ if key(i) != "classname" => out[i] += &format!("\n\"{}\" \"{}\"", key(i), val(j)),
            _ => (),
        }
    }
    let ids: Vec<usize> = props.iter().copied().filter(|i| key(*i) == "_tb_id").collect();
    if ids.len() > 1 {
        let (a, b) = (ids[r.below(ids.len() as u64) as usize], ids[r.below(ids.len() as u64) as usize]);
        out[a] = format!("\"_tb_id\" \"{}\"", val(b));
    }
    out.join("\n") + "\n"
}
fn m06() {
    setup();
    let mut cfg = Cfg::gen();
    // definitions that disagree: whichever counts, it is always the same
    if w::chance(1, 4) {
        cfg.twice = 1 + w::below(1 << 20) as u64;
        probe(3);
    }
    describe_cfg(&cfg);
    let m = mapgen::gen(&cfg, if w::chance(1, 2) { Focus::Tree } else { Focus::Geometry }, 1);
    let path = "/sim/a.map";
    let mut b = m.text.clone().into_bytes();
    if w::chance(1, 4) {
        b = repeat_keys(&m.text).into_bytes();
    }
    show_map(path, &m.text);
    if w::chance(1, 4) {
        corrupt_map(&mut b);
        probe(0);
    }
    put_new(path, b);
    let (base, bh) = baseline(4242, || outcome_map(quiet(|| run_map(&cfg, path))));
    if base.lines().count() > 3 || base.starts_with("Err") {
        nontrivial();
    }
    for i in 0..2 + w::below(2) {
        if w::chance(1, 3) {
            // something else is loaded in between
            let o = if w::chance(1, 2) { mapgen::alike(&cfg, &m) } else { mapgen::gen(&cfg, Focus::Small, 7) };
            let ocfg = if w::chance(1, 3) { cfg.alike() } else { cfg.clone() };
            put_new("/sim/o.map", o.text.into_bytes());
            let (r, _) = call(|| run_map(&ocfg, "/sim/o.map"));
            let _ = no_panic(r, "run");
            probe(1);
        }
        let fresh = w::chance(1, 3);
        let p2 = "/sim/other/../a.map";
        faults(SOFT, 0);
        std_soft();
        let (r, _) = live(|| on_thread(fresh, || guarded(|| run_map(&cfg, if i == 1 { p2 } else { path }))));
        no_faults();
        if fresh {
            probe(2);
        }
        let got = outcome_map(r);
        same_text(&got, &base, bh, "scene");
    }
}

// ---- D: diffs ------------------------------------------------------------------------------
fn markers(s: &str) -> Vec<String> {
    let mut v = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while let Some(p) = s[i..].find("mk") {
        let at = i + p + 2;
        let e = (at..b.len()).find(|j| !b[*j].is_ascii_digit()).unwrap_or(b.len());
        if e == at + 4 {
            v.push(s[at - 2..e].to_string());
        }
        i = e.max(at);
    }
    v
}
fn dline(kind: usize, id: usize) -> String {
    match kind {
        0 => format!("// mk{:04} note", id),
        1 => format!("\"mk{:04}\" \"v\"", id),
        2 => format!("\"classname\" \"mk{:04}\"", id),
        3 => format!("( mk{:04} 0 0 ) ( 1 0 0 ) ( 0 1 0 ) t 0 0 0 1 1", id),
        4 => format!("mk{:04} ???", id),
        5 => "{".into(),
        6 => "}".into(),
        7 => "".into(),
        _ => format!("// mk{:04} \u{e9}\u{65e5}", id),
    }
}
fn d_text(v: &[String]) -> String {
    let end = w::weighted(&[4, 1]);
    let mut s = v.join("\n");
    // a last empty line exists only if it is terminated
    if !v.is_empty() && (end == 0 || v[v.len() - 1].is_empty()) {
        s.push('\n');
    }
    s
}
fn d01() {
    setup();
    let (pa, pb) = ("/sim/a.map", "/sim/b.map");
    for _ in 0..1 + w::below(2) {
        let mut id = 0;
        let mut fresh = || {
            id += 1;
            dline(w::below(9), id)
        };
        let na = if w::chance(1, 200) { w::int(100, 500) } else { w::small(0, 40) } as usize;
        let a: Vec<String> = (0..na).map(|_| fresh()).collect();
        let mut b = a.clone();
        match w::weighted(&[4, 2, 1, 1]) {
            0 => {
                for _ in 0..w::below(6) {
                    match w::below(4) {
                        0 => {
                            let at = w::below(b.len() + 1);
                            b.insert(at, fresh());
                        }
                        1 if !b.is_empty() => {
                            b.remove(w::below(b.len()));
                        }
                        2 if !b.is_empty() => {
                            let at = w::below(b.len());
                            b[at] = fresh();
                        }
                        _ if !b.is_empty() => {
                            let l = b.remove(w::below(b.len()));
                            b.insert(w::below(b.len() + 1), l);
                        }
                        _ => (),
                    }
                }
            }
            1 => (),
            2 => b.clear(),
            _ => {
                let n = w::small(0, 30);
                b = (0..n).map(|_| fresh()).collect();
            }
        }
        let (a, b) = if w::chance(1, 4) { (b, a) } else { (a, b) };
        let (ta, tb) = (d_text(&a), d_text(&b));
        describe(&format!("a:\n{}\nb:\n{}", ta, tb));
        let (mut ta, mut tb) = (ta.into_bytes(), tb.into_bytes());
        let same = w::chance(1, 12);
        // bytes that are no text, in either file or at the same place in both
        let mut garbled = false;
        if w::chance(1, 8) {
            let which = w::below(3);
            let junk = [0xffu8, 0xfe, 0x80, 0xc3, 0xe9][w::below(5)];
            let at = w::below(ta.len().max(1));
            for (i, t) in [&mut ta, &mut tb].into_iter().enumerate() {
                if which != 1 - i {
                    let at = at.min(t.len());
                    t.insert(at, junk);
                    garbled |= (i == 0 || !same) && std::str::from_utf8(t).is_err();
                }
            }
        }
        put_new(pa, ta);
        put_new(pb, tb);
        let p2 = if same { pa } else { pb };
        let (la, lb) = (&a, if same { &a } else { &b });
        // a file that does not exist cannot be read
        let mut gone = false;
        if w::chance(1, 10) {
            let q = w::pick(&[pa, pb, p2]);
            gone = q == pa || !same;
            k().names.remove(q);
            describe(&format!("{} does not exist", q));
            probe(3);
        }
        let mode = w::weighted(&[4, 3, 3]);
        faults(if mode == 1 { SOFT | HARD_RD } else { SOFT }, 12);
        std_soft();
        if mode == 2 {
            let mut p = profile(SOFT | (STD_HARD & !(1 << F_EBADF)), 30);
            p.targets.retain(|t| t.1 != F_EBADF);
            k().std_profile = p;
        }
        k().out.clear();
        let (r, ob) = call(|| run_diff(pa, p2));
        no_faults();
        let out = String::from_utf8_lossy(&k().out).into_owned();
        let cause = ob.hard + ob.std_hard > 0;
        if ob.hard > 0 {
            probe(0);
        }
        if ob.std_hard > 0 {
            probe(1);
        }
        if la != lb {
            nontrivial();
        }
        let r = no_panic(r, "run_diff");
        let at = out.find("Diff {");
        if garbled {
            probe(2);
            if r.is_ok() || (at.is_some() && ob.std_hard == 0) {
                violate("diff-of-no-text", "a difference was printed although a file is not valid text");
            }
        }
        if gone && (r.is_ok() || (at.is_some() && ob.std_hard == 0)) {
            violate("diff-of-missing-file", "a difference was printed although a file does not exist");
        }
        if let Err(e) = &r {
            need_cause(cause || garbled || gone, "run_diff", e);
            if ob.hard > 0 && ob.std_hard == 0 && at.is_some() {
                violate("diff-from-failed-read", "a difference was printed although a file could not be read");
            }
        }
        if r.is_ok() {
            diff_check(&out, at, la, lb);
        }
        if ob.std_hard > 0 {
            break; // bytes the library kept may still appear later
        }
    }
}
fn diff_check(out: &str, at: Option<usize>, la: &[String], lb: &[String]) {
    let bad = |c: &str, m: String| -> ! { violate(c, &format!("{}\noutput:\n{}", m, clip(out, 1500))) };
    let at = match at {
        Some(a) => a,
        None => bad("diff-missing", "success was reported but no difference was printed".into()),
    };
    if out[at + 6..].contains("Diff {") {
        bad("diff-twice", "the difference was printed more than once".into());
    }
    let d = &out[at..];
    let (p, q) = match (d.find("added:"), d.find("removed:")) {
        (Some(p), Some(q)) => (p, q),
        _ => bad("diff-incomplete", "success was reported but the printed difference is incomplete".into()),
    };
    if !d.ends_with("}\n") || d.matches('[').count() < 2 {
        bad("diff-incomplete", "success was reported but the printed difference breaks off".into());
    }
    let (sa, sr) = if p < q { (&d[p..q], &d[q..]) } else { (&d[p..], &d[q..p]) };
    let has = |v: &[String], l: &str| v.iter().any(|x| x == l);
    let mark = |l: &String| markers(l).first().cloned();
    for (name, sec, own, other) in [("added", sa, lb, la), ("removed", sr, la, lb)] {
        let got = markers(sec);
        for l in own {
            if has(other, l) {
                continue;
            }
            match mark(l) {
                Some(mk) => {
                    let n = got.iter().filter(|g| **g == mk).count();
                    let times = own.iter().filter(|x| *x == l).count();
                    if n == 0 {
                        bad(&format!("diff-lacks-{}", name), format!("line {:?} is not reported as {}", l, name));
                    }
                    if n > times {
                        bad(&format!("diff-repeats-{}", name), format!("line {:?} is reported as {} {} times", l, name, n));
                    }
                }
                None => {
                    let word = match l.as_str() {
                        "{" => "OpenBrace",
                        "}" => "CloseBrace",
                        _ => "Unrecognized",
                    };
                    if !sec.contains(word) {
                        bad(&format!("diff-lacks-{}", name), format!("line {:?} is not reported as {}", l, name));
                    }
                }
            }
        }
        for g in &got {
            if !own.iter().any(|l| mark(l).as_ref() == Some(g)) {
                bad(&format!("diff-invents-{}", name), format!("{} is reported as {} but is not in that file", g, name));
            }
        }
        for (l, word) in [("{", "OpenBrace"), ("}", "CloseBrace")] {
            if !has(own, l) && sec.contains(word) {
                bad(&format!("diff-invents-{}", name), format!("{:?} is reported as {} but is not in that file", l, name));
            }
        }
    }
    if la == lb && d.matches('(').count() + d.matches("Brace").count() > 0 {
        bad("diff-of-equal-files", "a difference was printed for files with equal lines".into());
    }
}

// ---- F: game definition files -----------------------------------------------------------------
fn gen_gd(r: &mut Rng) -> forge::GameData {
    use forge::{Choice, ClassType, Metadata, Property, PropertyData as P};
    let word = |r: &mut Rng| -> String {
        ["foo", "bar", "Origin", "light spot", "h\u{e9}llo", "\u{65e5}\u{672c}", "a_b", ""][r.below(8) as usize].to_string()
    };
    let big = r.chance(1, 4);
    let n = r.below(if big { 120 } else { 6 });
    let mut defs = Vec::new();
    for i in 0..n {
        let mut props = Vec::new();
        for j in 0..r.below(6) {
            let d = match r.below(9) {
                0 => P::Integer(r.next() as i32),
                1 => P::Float(r.below(1000) as f32 / 7.0),
                2 => P::Vector3(quarchitect::Vector3::new(1.5, r.below(9) as f32, -2.0)),
                3 => P::String(word(r)),
                4 => P::Color(quarchitect::Color::new(0.25, 0.5, 0.75)),
                5 => {
                    let c: Vec<Choice> = (0..1 + r.below(4))
                        .map(|k| match r.below(3) {
                            0 => Choice::integer("c", k as i32),
                            1 => Choice::float("c", k as f32 + 0.5),
                            _ => Choice::string("c", "v"),
                        })
                        .collect();
                    let d = r.below(c.len() as u64) as i32;
                    P::Choices(c, d)
                }
                6 => P::Flags((0..r.below(8)).map(|k| format!("f{}", k)).collect(), r.below(256) as i32),
                7 => P::TargetSource,
                _ => P::TargetDestination,
            };
            let (a, b) = (word(r), word(r));
            props.push(Property::new(&format!("p{}", j), &a, &b, d));
        }
        let meta = match r.below(4) {
            0 => vec![Metadata::base(vec![word(r), word(r)])],
            1 => vec![Metadata::color(quarchitect::Color::new(0.5, 0.5, 0.5))],
            2 => vec![Metadata::size(quarchitect::Vector3::new(-4.0, -4.0, -4.0), quarchitect::Vector3::new(4.0, 4.0, 4.0))],
            _ => vec![],
        };
        let ct = [ClassType::BaseClass, ClassType::PointClass, ClassType::SolidClass][r.below(3) as usize];
        let desc = if big { "long description ".repeat(1 + r.below(40) as usize) } else { word(r) };
        defs.push(forge::Entity::new(ct, meta, &format!("class{}", i), &desc, props));
    }
    let inc = (0..r.below(3)).map(|i| format!("inc{}.fgd", i)).collect();
    forge::GameData::new(word(r), inc, defs)
}
fn old_content(r: &mut Rng, new: &str) -> Option<Vec<u8>> {
    match r.below(5) {
        0 => None,
        1 => Some(Vec::new()),
        2 => Some(b"// old definitions\n".to_vec()),
        3 => Some(vec![b'#'; new.len() + 1 + r.below(5000) as usize]),
        _ => Some(vec![b'#'; r.below(new.len() as u64 + 1) as usize]),
    }
}
fn differs(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b);
    format!("{} bytes in the file, {} rendered, first difference at {:?}", got.len(), want.len(), at)
}
fn f01() {
    setup();
    let paths = ["/sim/a.fgd", "/sim/b.fgd", "/sim/none/c.fgd", "/sim/l.fgd"];
    let dead = save_links();
    for _ in 0..1 + w::below(4) {
        let mut r = Rng::new(w::below(1 << 24) as u64 ^ 0xf01);
        let gd = gen_gd(&mut r);
        let text = gd.to_string();
        let path = paths[w::weighted(&[5, 3, 1, 2])];
        let missing_dir = path.contains("none") || (dead && path.contains("/l."));
        if !missing_dir && w::chance(1, 2) {
            if let Some(o) = old_content(&mut r, &text) {
                put_new(&follow(path).unwrap(), o);
            }
        }
        if let Some(f) = file(path) {
            if w::chance(1, 3) {
                f.mode = [0o600, 0o640, 0o664, 0o777][w::below(4)];
            }
        }
        let mode = file(path).map(|f| f.mode);
        let before = file(path).map(|f| f.data.len());
        describe(&format!("save {} bytes to {} (holding {:?} bytes)", text.len(), path, before));
        let hard = w::chance(1, 2);
        faults(if hard { SOFT | HARD_WR } else { SOFT }, 8);
        std_soft();
        let (res, ob) = call(|| save(&gd, path));
        no_faults();
        nontrivial();
        if ob.hard > 0 {
            probe(0);
        }
        let check = |r: Result<(), String>, cause: bool, what: &str| match r {
            Ok(()) => match file(path) {
                Some(f) if f.data == text.as_bytes() => {
                    if mode.map_or(false, |m| m != f.mode) {
                        violate("permissions", &format!("{} succeeded: the file had mode {:o}, now {:o}", what, mode.unwrap(), f.mode));
                    }
                    if path.contains("/l.") {
                        probe(3);
                        if !k().links.contains_key(path) {
                            violate("link-replaced", &format!("{} succeeded: the symbolic link is gone", what));
                        }
                    }
                    true
                }
                Some(f) => violate("content", &format!("{} succeeded: {}", what, differs(&f.data, text.as_bytes()))),
                None => violate("no-file", &format!("{} succeeded but there is no file", what)),
            },
            Err(e) => {
                need_cause(cause, what, &e);
                false
            }
        };
        if !check(no_panic(res, "save"), ob.hard > 0 || missing_dir, "save") {
            probe(1);
            if !missing_dir {
                faults(SOFT, 0);
                let (res, _) = call(|| save(&gd, path));
                no_faults();
                check(no_panic(res, "save"), false, "save after the failures stopped");
                probe(2);
            }
        }
    }
}
fn f02_judge(got: Option<&[u8]>, old: &Option<Vec<u8>>, new: &[u8]) -> Result<(), (String, String)> {
    let g = match got {
        None => {
            return if old.is_none() { Ok(()) } else { Err(("removed".into(), "the previous definitions are gone".into())) };
        }
        Some(g) => g,
    };
    if g == new || old.as_ref().map_or(false, |o| g == &o[..]) {
        return Ok(());
    }
    if new.starts_with(g) {
        // covers the empty file
        return Err((
            "in-place-prefix".into(),
            format!("the file holds the first {} of {} new bytes; the previous {} bytes are gone", g.len(), new.len(), old.as_ref().map_or(0, |o| o.len())),
        ));
    }
    Err(("mixed".into(), format!("the file holds neither text: {}", differs(g, new))))
}
/// /sim/l.fgd is a symbolic link; true if it leads nowhere.
fn save_links() -> bool {
    let l = &mut k().links;
    let (to, dead) = match w::weighted(&[4, 2, 2, 1, 1]) {
        0 => ("t.fgd", false),
        1 => ("/sim/t.fgd", false),
        2 => {
            l.insert("/sim/m.fgd".into(), "./t.fgd".into());
            ("/sim/m.fgd", false)
        }
        3 => ("/sim/none/t.fgd", true),
        _ => {
            l.insert("/sim/m.fgd".into(), "l.fgd".into());
            ("m.fgd", true)
        }
    };
    l.insert("/sim/l.fgd".into(), to.into());
    describe(&format!("links: {:?}", l));
    dead
}
/// Names a careless temporary file might have.
const BYSTANDERS: [&str; 8] = ["other.fgd", "a.map", "a.fgd.0.tmp", "a.fgd.tmp", "a.fgd.1.tmp", "a.tmp", "a.fgd~", "t.fgd.0.tmp"];
fn f02() {
    setup();
    let dead = save_links();
    let link = !dead && w::chance(1, 4);
    let (path, real) = if link { ("/sim/l.fgd", "/sim/t.fgd") } else { ("/sim/a.fgd", "/sim/a.fgd") };
    let crowd = if w::chance(1, 3) { BYSTANDERS.len() } else { 2 };
    for n in &BYSTANDERS[..crowd] {
        put_new(&format!("/sim/{}", n), n.as_bytes().to_vec());
    }
    for _ in 0..1 + w::below(2) {
        let mut r = Rng::new(w::below(1 << 24) as u64 ^ 0xf02);
        let gd = gen_gd(&mut r);
        let text = gd.to_string();
        if w::chance(3, 4) {
            match old_content(&mut r, &text) {
                Some(o) => {
                    put_new(real, o);
                }
                None => {
                    k().names.remove(real);
                }
            }
        }
        let old = file(path).map(|f| f.data.clone());
        describe(&format!("save {} bytes over {:?} bytes", text.len(), old.as_ref().map(|o| o.len())));
        let (o2, t2) = (old.clone(), text.clone());
        let others = move |kn: &Kernel| -> Result<(), (String, String)> {
            for n in &BYSTANDERS[..crowd] {
                match kn.names.get(&format!("/sim/{}", n)) {
                    Some(i) if kn.inodes[*i].data == n.as_bytes() => (),
                    _ => return Err(("other-file".into(), format!("{} was changed by a save to another file", n))),
                }
            }
            Ok(())
        };
        k().crash_hook = Some(Box::new(move |kn: &mut Kernel| {
            stat(if kn.machine { ST_USER0 + 2 } else { ST_USER0 });
            // by whichever name: a link that was replaced counts with what it now is
            let p = follow(path).unwrap_or_else(|_| path.into());
            let g = kn.names.get(&p).map(|i| &kn.inodes[*i].data[..]);
            f02_judge(g, &o2, t2.as_bytes())?;
            others(kn)
        }));
        let crash = w::chance(2, 3);
        k().machine = w::chance(1, 2);
        k().snaps.clear();
        faults(if crash { SOFT | (1 << F_CRASH) } else { SOFT | HARD_WR }, 6);
        nontrivial();
        let (res, ob) = call(|| save(&gd, path));
        no_faults();
        let res = no_panic(res, "save");
        let g = file(path).map(|f| f.data.clone());
        if ob.hard > 0 {
            probe(1);
        }
        if res.is_ok() && g.as_deref() != Some(text.as_bytes()) {
            violate("content", "a successful save did not store the text");
        }
        if let Err((c, m)) = f02_judge(g.as_deref(), &old, text.as_bytes()) {
            violate(&c, &format!("{} (save returned {:?})", m, res));
        }
        if let Err((c, m)) = others(k()) {
            violate(&c, &m);
        }
    }
}

// ---- S: files replaced while they are read -------------------------------------------------------
/// Another version with the same structure and other pixels.
fn repaint(s: &wad::Spec, x: u8) -> Vec<u8> {
    let mut b = s.bytes.clone();
    for (a, e, l) in &s.regions {
        if l.starts_with("texture") {
            let (lo, hi) = ((*a + 40).min(*e), *e);
            for v in b[lo..hi].iter_mut() {
                *v = v.wrapping_add(x);
            }
        }
    }
    b
}
fn s01() {
    setup();
    let kind = w::weighted(&[5, 3, 2]);
    let nv = 2 + w::below(3);
    let path = ["/sim/a.wad", "/sim/a.map", "/sim/a.lmp"][kind];
    let mut vs: Vec<Vec<u8>> = Vec::new();
    let mut maps: Vec<Map> = Vec::new();
    let cfg = Cfg::gen();
    match kind {
        0 => {
            let s = wad::gen(10);
            show_wad(path, &s);
            vs.push(s.bytes.clone());
            for i in 1..nv {
                if w::chance(2, 3) {
                    vs.push(repaint(&s, 37 * i as u8));
                } else {
                    let t = wad::gen(10);
                    show_wad("replacement", &t);
                    vs.push(t.bytes);
                }
            }
        }
        1 => {
            for i in 0..nv {
                let m = match maps.last() {
                    Some(m) if w::chance(1, 3) => mapgen::alike(&cfg, m),
                    _ => mapgen::gen(&cfg, Focus::Small, i as u64 + 1),
                };
                show_map(&format!("{} version {}", path, i), &m.text);
                vs.push(m.text.clone().into_bytes());
                maps.push(m);
            }
        }
        _ => {
            for i in 0..nv {
                let mut r = Rng::new(w::below(1 << 20) as u64 + i as u64);
                vs.push(pal_file(&mut r, 768 + if i % 2 == 1 { w::below(3000) } else { 0 }));
            }
            describe(&format!("palette versions: {:?} bytes", vs.iter().map(|v| v.len()).collect::<Vec<_>>()));
        }
    }
    put_new(path, vs[0].clone());
    let mips = 1 + w::below(4);
    let hard = w::chance(1, 3);
    faults(if hard { SOFT | ACTIONS | HARD_RD } else { SOFT | ACTIONS }, if hard { if kind == 0 { 60 } else { 8 } } else { 0 });
    for v in &vs[1..] {
        k().actions.push(Action::Replace(path.into(), v.clone()));
        let at = k().priv_rng.below(if kind == 0 { 60 } else { 8 });
        k().profile.targets.push((at, F_ACTION));
    }
    std_soft();
    let mut start = 0usize;
    for _ in 0..1 + w::below(2) {
        let mut done = start;
        let mut judge = |ob: &Obs, f: &dyn Fn(usize) -> Option<(String, String)>| {
            done = start + ob.actions as usize;
            if ob.actions > 0 {
                nontrivial();
                probe(0);
            }
            let mut first = None;
            for i in start..=done {
                match f(i) {
                    None => return,
                    d => first = first.or(d),
                }
            }
            violate("mixture", &format!("the result is no version that was current during the load ({} replaced): {:?}", ob.actions, first));
        };
        match kind {
            0 => {
                let (r, ob) = call(|| load(path, &None, mips));
                match no_panic(r, "read_textures") {
                    Ok(v) => judge(&ob, &|i| match wad::decode(&vs[i], &None, mips) {
                        Ok(x) => wad::diff(&v, &x, mips),
                        Err(e) => Some(("x".into(), e.into())),
                    }),
                    Err(e) => {
                        need_cause(ob.actions + ob.hard > 0, "read_textures", &e);
                        done = start + ob.actions as usize;
                    }
                }
            }
            1 => {
                let (r, ob) = call(|| run_map(&cfg, path));
                match no_panic(r, "run") {
                    Ok(v) => judge(&ob, &|i| mapgen::compare(&v, &want(&cfg, &maps[i]), true, true)),
                    Err(e) => {
                        need_cause(ob.actions + ob.hard > 0, "run", &e);
                        done = start + ob.actions as usize;
                    }
                }
            }
            _ => {
                let (r, ob) = call(|| read_palette(path));
                match no_panic(r, "read_palette") {
                    Ok(p) => judge(&ob, &|i| {
                        if wad::pal_bytes(&p) == vs[i][..768] {
                            None
                        } else {
                            Some(("palette".into(), "bytes differ".into()))
                        }
                    }),
                    Err(e) => {
                        need_cause(ob.actions + ob.hard > 0, "read_palette", &e);
                        done = start + ob.actions as usize;
                    }
                }
            }
        }
        start = done;
    }
    no_faults();
}

// ---- C: several calls ----------------------------------------------------------------------------
#[derive(Clone)]
enum Task {
    Wad(String, Wl, usize),
    Pal(String),
    Map(Arc<Cfg>, String),
    Save(Arc<forge::GameData>, String),
    Rgb(String, String),
}
impl Task {
    fn path(&self) -> &str {
        match self {
            Task::Wad(p, ..) | Task::Pal(p) | Task::Map(_, p) | Task::Save(_, p) | Task::Rgb(p, _) => p,
        }
    }
    fn touches(&self, f: &str) -> bool {
        self.path() == f || matches!(self, Task::Rgb(_, p) if p == f)
    }
    fn show(&self) -> String {
        match self {
            Task::Wad(p, w, m) => format!("load {} {:?} {}", p, w, m),
            Task::Pal(p) => format!("palette {}", p),
            Task::Map(_, p) => format!("map {}", p),
            Task::Save(_, p) => format!("save {}", p),
            Task::Rgb(p, q) => format!("convert {} with {}", p, q),
        }
    }
    /// The complete outcome as text; panics are reported in-band because this may run on a
    /// client thread.
    fn run(&self) -> String {
        fn txt<T>(o: Out<T>, f: impl FnOnce(T) -> String) -> String {
            match o {
                Out::Ok(v) => format!("Ok {}", f(v)),
                Out::Err(e) => format!("Err {}", e),
                Out::Panic(p) => format!("panic {}", p),
            }
        }
        match self {
            Task::Wad(p, w, m) => txt(guarded(|| load(&rn(p), w, *m)), |v| wad::digest(&v)),
            Task::Pal(p) => txt(guarded(|| read_palette(&rn(p))), |p| format!("{:x}", hash_bytes(&wad::pal_bytes(&p)))),
            Task::Map(c, p) => txt(guarded(|| run_map(c, &rn(p))), |v| mapgen::canonical(&v)),
            Task::Save(g, p) => txt(guarded(|| save(g, &rn(p))), |_| String::new()),
            Task::Rgb(p, q) => txt(
                guarded(|| -> Result<String, String> {
                    let v = load(&rn(p), &None, 2)?;
                    let pal = read_palette(&rn(q))?;
                    let mut s = String::new();
                    for t in v {
                        let t = t.into_rgb(Some(pal))?;
                        let b: Vec<u8> = t
                            .mip_data
                            .mip0
                            .iter()
                            .chain(t.mip_data.mip1.iter().flatten())
                            .flat_map(|c| vec![c.0, c.1, c.2])
                            .collect();
                        s += &format!("{:?} {:x}\n", t.mip_texture.name, hash_bytes(&b));
                    }
                    Ok(s)
                }),
                |s| s,
            ),
        }
    }
}
/// In some worlds all files are named relative to the working directory.
fn rn(p: &str) -> String {
    if k().rel_names { in_cwd(p) } else { p.into() }
}
struct World {
    cfgs: Vec<Arc<Cfg>>,
    wads: Vec<String>,
    maps: Vec<(String, usize)>,
    pals: Vec<String>,
    names: Vec<Vec<String>>,
}
/// A few files of every kind.
fn world(maps: Focus) -> World {
    let mut wd = World { cfgs: Vec::new(), wads: Vec::new(), maps: Vec::new(), pals: Vec::new(), names: Vec::new() };
    if w::chance(1, 5) {
        k().rel_names = true;
        if w::chance(1, 2) {
            k().cwd = "/".into();
        }
        describe(&format!("files are named relative to the working directory {}", k().cwd));
    }
    for i in 0..1 + w::below(2) {
        let s = wad::gen(6);
        let p = format!("/sim/w{}.wad", i);
        show_wad(&p, &s);
        put_new(&p, s.bytes.clone());
        if w::chance(1, 8) {
            let n = s.bytes.len();
            file(&p).unwrap().data.truncate(n - 1 - w::below(n / 2));
            describe(&format!("{} is cut short", p));
        } else if w::chance(1, 8) {
            let mut b = s.bytes.clone();
            corrupt(&mut b, &s);
            file(&p).unwrap().data = b;
            describe(&format!("{} is damaged", p));
        }
        wd.wads.push(p);
        wd.names.push(s.names);
    }
    let mut first: Option<(Cfg, Map)> = None;
    for i in 0..1 + w::below(2) {
        let (cfg, m) = match &first {
            Some((c, m)) if w::chance(1, 2) => {
                let c = if w::chance(1, 3) { c.alike() } else { c.clone() };
                let m = mapgen::alike(&c, m);
                (c, m)
            }
            _ => {
                let c = Cfg::gen();
                let m = mapgen::gen(&c, maps, i as u64 + 1);
                (c, m)
            }
        };
        first.get_or_insert((cfg.clone(), m.clone()));
        let p = format!("/sim/m{}.map", i);
        show_map(&p, &m.text);
        put_new(&p, m.text.into_bytes());
        if w::chance(1, 10) {
            k().names.remove(&p);
            describe(&format!("{} is missing", p));
        } else if w::chance(1, 8) {
            corrupt_map(&mut file(&p).unwrap().data);
            describe(&format!("{} is damaged", p));
        }
        wd.cfgs.push(Arc::new(cfg));
        wd.maps.push((p, i));
    }
    for i in 0..2 {
        let p = format!("/sim/p{}.lmp", i);
        let mut r = Rng::new(w::below(1 << 16) as u64);
        let n = if w::chance(1, 8) { 700 } else { 768 };
        put_new(&p, pal_file(&mut r, n));
        wd.pals.push(p);
    }
    wd
}
fn task(wd: &World, n: usize) -> Task {
    task_of(wd, n, w::weighted(&[4, 2, 3, 2, 2]))
}
fn task_of(wd: &World, n: usize, kind: usize) -> Task {
    match kind {
        0 => {
            let i = w::below(wd.wads.len());
            Task::Wad(wd.wads[i].clone(), wad::gen_whitelist(&wd.names[i]), 1 + w::below(4))
        }
        1 => Task::Pal(w::pick(&wd.pals)),
        2 => {
            let (p, c) = w::pick(&wd.maps);
            Task::Map(wd.cfgs[c].clone(), p)
        }
        3 => {
            let mut r = Rng::new(w::below(1 << 20) as u64 ^ 0xc01);
            Task::Save(Arc::new(gen_gd(&mut r)), format!("/sim/s{}.fgd", n))
        }
        _ => Task::Rgb(w::pick(&wd.wads), w::pick(&wd.pals)),
    }
}
fn c01() {
    setup();
    // all clients make calls of one kind, or of any
    let kind = w::weighted(&[6, 2, 1, 3, 1, 1]);
    let wd = world(if kind == 3 && w::chance(1, 2) { Focus::Geometry } else { Focus::Small });
    let nclients = 2 + w::below(3);
    let kn = k();
    if kn.gap_scale == 0 && kn.priv_rng.chance(1, 2) {
        kn.gap_scale = [30, 300, 3000, 30_000][kn.priv_rng.below(4) as usize];
        kn.gap_edges = true;
    }
    let together = w::chance(1, 3); // all saves go to one file
    let mut plan: Vec<Vec<Task>> = Vec::new();
    let mut n = 0;
    for c in 0..nclients {
        let mut v = Vec::new();
        for _ in 0..1 + w::below(2) {
            let mut t = if kind == 0 { task(&wd, n) } else { task_of(&wd, n, kind - 1) };
            n += 1;
            if let (Task::Save(_, p), true) = (&mut t, together) {
                *p = "/sim/s.fgd".into();
            }
            describe(&format!("client {}: {}", c, t.show()));
            v.push(t);
        }
        plan.push(v);
    }
    // alone: each of the calls in a process of its own
    let flat: Vec<&Task> = plan.iter().flatten().collect();
    let base: Vec<String> = flat.iter().map(|t| baseline(31337, || digest_line(&t.run())).0).collect();
    // failures confined to one file
    let victim = if w::chance(1, 2) { Some(flat[w::below(flat.len())].path().to_string()) } else { None };
    let in_pool = w::chance(1, 3);
    describe(&format!("failing file: {:?}, clients are {}", victim, if in_pool { "tasks of the shared pool" } else { "threads" }));
    match &victim {
        Some(v) => {
            faults(SOFT | HARD_WR, 80);
            k().scope = Some(vec![v.clone()]);
            probe(0);
        }
        None => faults(SOFT, 0),
    }
    std_soft();
    let known: Vec<String> = k().names.keys().cloned().collect();
    let results: Vec<Mutex<Vec<String>>> = plan.iter().map(|_| Mutex::new(Vec::new())).collect();
    let body = |c: usize| {
        for t in &plan[c] {
            let s = t.run();
            results[c].lock().unwrap().push(s);
        }
    };
    live(|| {
        if in_pool {
            probe(1);
            rayon::scope(|s| {
                for c in 0..nclients {
                    let b = &body;
                    s.spawn(move |_| b(c));
                }
            });
        } else {
            std::thread::scope(|s| {
                for c in 1..nclients {
                    let b = &body;
                    s.spawn(move || b(c));
                }
                body(0);
            });
        }
    });
    no_faults();
    nontrivial();
    let saves: Vec<(&str, String)> = flat
        .iter()
        .filter_map(|t| match t {
            Task::Save(g, p) => Some((&p[..], g.to_string())),
            _ => None,
        })
        .collect();
    if !k().mutations.iter().any(|(m, _)| m == "unlink-failed") {
        if let Some(p) = k().names.keys().find(|p| !known.contains(*p) && !saves.iter().any(|s| s.0 == p.as_str())) {
            violate("left-behind", &format!("{} was left behind", p));
        }
    }
    let mut i = 0;
    for (c, ts) in plan.iter().enumerate() {
        let got = results[c].lock().unwrap();
        for (j, t) in ts.iter().enumerate() {
            let g = &got[j];
            if let Some(p) = g.strip_prefix("panic ") {
                violate(&format!("panic {}", panic_site(p)), &format!("{} panicked: {}", t.show(), p));
            }
            let own_file_failed = victim.as_ref().map_or(false, |v| t.touches(v));
            if digest_line(g) != base[i] && !(own_file_failed && g.starts_with("Err")) {
                violate(
                    "interference",
                    &format!("{} gave\n{}\nalone it gives\n{}", t.show(), clip(&digest_line(g), 700), clip(&base[i], 700)),
                );
            }
            if let (Task::Save(gd, p), true) = (t, g.starts_with("Ok")) {
                let text = gd.to_string();
                match file(p) {
                    Some(f) if f.data == text.as_bytes() => (),
                    // saved by another client as well: one of the texts, complete
                    Some(f) if together && saves.iter().any(|(_, t)| f.data == t.as_bytes()) => probe(2),
                    f => violate("save-content", &format!("{}: {}", p, f.map_or("no file".into(), |f| differs(&f.data, text.as_bytes())))),
                }
            }
            i += 1;
        }
    }
}
/// Long outcomes are compared by hash so that the baseline fits into shared memory.
fn digest_line(s: &str) -> String {
    if s.len() < 900 {
        s.into()
    } else {
        format!("{} [{} bytes, hash {:x}]", clip(s, 400), s.len(), hash_bytes(s.as_bytes()))
    }
}

/// A name that is nearly that of a file: the file itself must not be taken instead.
fn near_name(p: &str) -> String {
    let (dir, base) = p.split_at(p.rfind('/').unwrap() + 1);
    let stem = base.split('.').next().unwrap();
    match w::below(6) {
        0 | 1 => format!("{}{}", dir, base.to_uppercase()),
        2 => format!("{}{}", dir, stem),
        3 => format!("{}{}.", dir, base),
        4 => format!("{}{} ", dir, base),
        _ => format!("{}{}{}", dir, stem.to_uppercase(), &base[stem.len()..]),
    }
}

fn c02() {
    setup();
    let mut wd = world(Focus::Small);
    if w::chance(1, 4) {
        let World { wads, maps, pals, .. } = &mut wd;
        let all: Vec<&mut String> = wads.iter_mut().chain(maps.iter_mut().map(|m| &mut m.0)).chain(pals.iter_mut()).collect();
        for p in all {
            if w::chance(1, 2) {
                let near = near_name(p);
                if w::chance(1, 3) {
                    if let Some(f) = file(p) {
                        let data = f.data.clone();
                        put_new(&near, data);
                    }
                }
                describe(&format!("{} is called {}", p, near));
                *p = near;
            }
        }
    }
    put_new("/sim/keep.txt", b"keep".to_vec());
    for n in 0..1 + w::below(4) {
        let diff = w::chance(1, 6);
        let t = task(&wd, w::below(2) + 10 * (n / 2));
        let mut named: Vec<String> = vec![t.path().to_string()];
        if let Task::Rgb(_, p) = &t {
            named.push(p.clone());
        }
        let dpair = (w::pick(&wd.maps).0, w::pick(&wd.maps).0);
        if diff {
            named = vec![dpair.0.clone(), dpair.1.clone()];
        }
        let saving = !diff && matches!(t, Task::Save(..));
        describe(&if diff { format!("diff {:?}", dpair) } else { t.show() });
        let before: Vec<(String, u64, usize)> =
            k().names.iter().map(|(p, i)| (p.clone(), hash_bytes(&k().inodes[*i].data), *i)).collect();
        k().opens.clear();
        k().mutations.clear();
        let hard = w::chance(2, 3);
        faults(if hard { SOFT | HARD_WR } else { SOFT }, 40);
        std_soft();
        let fresh = w::chance(1, 4);
        let (r, ob) = live(|| {
            on_thread(fresh, || {
                if diff {
                    match guarded(|| run_diff(&dpair.0, &dpair.1)) {
                        Out::Panic(p) => format!("panic {}", p),
                        o => o.kind().to_string(),
                    }
                } else {
                    t.run()
                }
            })
        });
        no_faults();
        nontrivial();
        if ob.hard > 0 {
            probe(0);
        }
        probe(if saving { 2 } else { 1 });
        if let Some(p) = r.strip_prefix("panic ") {
            violate(&format!("panic {}", panic_site(p)), &format!("{} panicked: {}", t.show(), p));
        }
        if ob.leaked != 0 {
            violate("handle-leak", &format!("{} file handles are still open after the call returned ({})", ob.leaked, clip(&r, 200)));
        }
        let sys = |p: &str| p.starts_with("/proc") || p.starts_with("/sys") || p.starts_with("/dev");
        for (p, ok, wr) in &k().opens {
            let mine = named.iter().any(|x| norm(x) == *p);
            if !saving && *wr && !sys(p) {
                violate("opened-for-writing", &format!("a load opened {} for writing", p));
            }
            if !mine && !saving && !sys(p) {
                violate("foreign-open", &format!("{} was opened (success: {}); the call was given {:?}", p, ok, named));
            }
        }
        if !saving {
            if let Some((c, p)) = k().mutations.first() {
                violate("mutation", &format!("{} on {} during a load", c, p));
            }
        }
        let after: Vec<(String, u64, usize)> =
            k().names.iter().map(|(p, i)| (p.clone(), hash_bytes(&k().inodes[*i].data), *i)).collect();
        for (p, h, i) in &before {
            if saving && named.contains(p) {
                continue;
            }
            match after.iter().find(|a| a.0 == *p) {
                None => violate("file-removed", &format!("{} is gone after the call", p)),
                Some(a) if a.1 != *h || a.2 != *i => violate("file-changed", &format!("{} was changed by the call", p)),
                _ => (),
            }
        }
        for (p, ..) in &after {
            // a leftover is excusable only if removing it failed
            let stuck = saving && k().mutations.iter().any(|m| m.0 == "unlink-failed" && m.1 == *p);
            if !before.iter().any(|b| b.0 == *p) && !(saving && named.contains(p)) && !stuck {
                violate("file-created", &format!("{} was left behind by the call", p));
            }
        }
    }
}

fn c03() {
    setup();
    let wd = world(Focus::Small);
    let tasks: Vec<Task> = (0..1 + w::below(3)).map(|n| task(&wd, n)).collect();
    for t in &tasks {
        describe(&t.show());
    }
    let (base, _) = baseline(777, || tasks.iter().map(|t| format!("{}\u{1}|\u{2}", digest_line(&t.run()))).collect());
    let base: Vec<&str> = base.split("\u{1}|\u{2}").collect();
    for (i, t) in tasks.iter().enumerate() {
        faults(SOFT, 0);
        let mode = w::weighted(&[4, 2]);
        if mode == 1 {
            k().std_closed = [9, 32, 5, 28][w::below(4)]; // EBADF EPIPE EIO ENOSPC
            describe(&format!("both output streams fail with errno {}", k().std_closed));
            probe(1);
        } else {
            k().std_profile = profile(SOFT | STD_HARD, 60);
            if k().priv_rng.chance(1, 2) {
                k().std_profile.hard_rate = [2000, 10000, 40000][k().priv_rng.below(3) as usize];
            }
        }
        let fresh = w::chance(1, 4);
        let (got, ob) = live(|| on_thread(fresh, || t.run()));
        no_faults();
        if ob.std_hard > 0 {
            probe(0);
            nontrivial();
        }
        if let Some(p) = got.strip_prefix("panic ") {
            violate(&format!("panic {}", panic_site(p)), &format!("{} panicked: {}", t.show(), p));
        }
        let got = digest_line(&got);
        same_text(&got, base[i], hash_bytes(base[i].as_bytes()), "result");
        if let (Task::Save(gd, p), true) = (t, got.starts_with("Ok")) {
            if file(p).map_or(true, |f| f.data != gd.to_string().as_bytes()) {
                violate("save-content", "the saved text is not the rendered text");
            }
        }
    }
}
