//! Map files: generator, reference scene model and comparison. The model works from the
//! generated polyhedra (their corners are known before any plane is written down), never
//! from the code under test.
use crate::choice::{w, Rng};
use crate::env::{clip, hash_bytes};
use crate::kernel::k;
use quarchitect::game_data::forge;
use quarchitect::game_data::{
    CollisionType, ComponentType, Entity as QaEntity, EntityType, GameData as QaGameData, Properties, Property,
    PropertyApplicationType, VisualType, WorldspawnLayer,
};
use quarchitect::scene_tree::{CollisionGeometry, SceneTreeNode, SceneTreeType, VisualGeometry};
use quarchitect::{Color, Config, Texture, TextureBlacklist, TextureInfo, Vector3};
use std::collections::{BTreeMap, HashMap};

pub type V = [f64; 3];
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn mul(a: V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
fn unit(a: V) -> V {
    mul(a, 1.0 / len(a))
}
fn near(a: V, b: V, e: f64) -> bool {
    (0..3).all(|i| (a[i] - b[i]).abs() <= e)
}
fn v3(v: &Vector3) -> V {
    [v.x() as f64, v.y() as f64, v.z() as f64]
}
fn avg(v: &[V]) -> V {
    let s = v.iter().fold([0.0; 3], |a, b| add(a, *b));
    mul(s, 1.0 / v.len().max(1) as f64)
}

#[derive(Clone, Debug)]
pub struct Face {
    pub corners: Vec<V>,
    pub normal: V,
    pub tex: String, // as written in the map
    pub line: String,
}
#[derive(Clone, Debug)]
pub struct Brush {
    pub faces: Vec<Face>,
    pub exact: bool, // axis-aligned: corners are exact in f32
    pub made: (Rng, usize, Vec<String>, Style, usize),
}
impl Brush {
    pub fn corners(&self) -> Vec<V> {
        let mut v: Vec<V> = Vec::new();
        for f in &self.faces {
            for c in &f.corners {
                if !v.iter().any(|x| near(*x, *c, 1e-6)) {
                    v.push(*c);
                }
            }
        }
        v
    }
    pub fn center(&self) -> V {
        avg(&self.faces.iter().map(|f| avg(&f.corners)).collect::<Vec<_>>())
    }
}
#[derive(Clone, Debug)]
pub struct Ent {
    pub props: Vec<(String, String)>,
    pub brushes: Vec<Brush>,
}
impl Ent {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.props.iter().rev().find(|p| p.0 == k).map(|p| p.1.as_str())
    }
    pub fn center(&self) -> V {
        if let Some(o) = self.get("origin") {
            let c: Vec<f64> = o.split_whitespace().map(|x| x.parse::<f32>().unwrap_or(0.0) as f64).collect();
            return [c[0], c[1], c[2]];
        }
        avg(&self.brushes.iter().map(|b| b.center()).collect::<Vec<_>>())
    }
}
#[derive(Clone, Debug)]
pub struct Def {
    pub class: String,
    pub props: Option<Vec<forge::Property>>, // forge definition
    pub qa: Option<Qa>,
}
#[derive(Clone, Debug)]
pub struct Qa {
    pub etype: EntityType,
    pub comp: ComponentType,
    pub app: PropertyApplicationType,
    pub brush: Option<(VisualType, CollisionType)>,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub twice: u64, // not 0: some definitions are there more than once, and disagree
    pub textures: Vec<(String, u32, u32)>,
    pub bl_brush: Vec<String>,
    pub bl_plane: Vec<String>,
    pub defs: Vec<Def>,
    pub layers: Vec<WorldspawnLayer>,
}
#[derive(Clone, Debug)]
pub struct Map {
    pub ents: Vec<Ent>,
    pub text: String,
}

// the last ones are nearly the names of others
const KNOWN: [&str; 14] = [
    "brick", "+0metal", "{fence", "*water0", "*slime0", "*lava1", "sky1", "clip", "skip", "trigger", "clip_2", "sky", "water0", "triggers",
];
const UNKNOWN: [&str; 2] = ["nodraw_x", "mystery"];
const LAYERS: [&str; 4] = ["*water0", "*slime0", "*lava1", "sky1"];
const CLASSES: [&str; 9] =
    ["worldspawn", "func_wall", "func_door", "light", "info_player_start", "func_group", "trigger_once", "misc_model", "mystery_class"];

impl Cfg {
    pub fn gen() -> Cfg {
        let mut r = Rng::new(w::below(1 << 20) as u64 ^ 0xcf6);
        let textures = KNOWN.iter().map(|n| (n.to_string(), 16 << r.below(4), 16 << r.below(4))).collect();
        let mut bl_brush = Vec::new();
        let mut bl_plane = Vec::new();
        if w::chance(1, 2) {
            bl_plane.push("clip".to_string());
            if r.chance(1, 2) {
                bl_plane.push("skip".into());
            }
        }
        if w::chance(1, 2) {
            bl_brush.push("trigger".to_string());
            if r.chance(1, 2) {
                bl_brush.push("clip".into());
            }
        }
        let nl = w::weighted(&[2, 2, 2, 2, 1]);
        let mut order: Vec<&str> = LAYERS.to_vec();
        for i in (1..4).rev() {
            order.swap(i, r.below(i as u64 + 1) as usize);
        }
        let layers = order[..nl]
            .iter()
            .enumerate()
            .map(|(i, t)| {
                WorldspawnLayer::new(
                    format!("layer_{}_{}", i, t.trim_start_matches('*')),
                    t.to_string(),
                    etype(&mut r),
                    comp(&mut r),
                    if r.chance(3, 4) { VisualType::Mesh } else { VisualType::None },
                    [CollisionType::None, CollisionType::Convex, CollisionType::Concave][r.below(3) as usize],
                )
            })
            .collect();
        let mut defs = Vec::new();
        for (i, c) in CLASSES.iter().enumerate() {
            let kind = if i == 8 { 3 } else { w::weighted(&[6, 2, 1, 1]) };
            let forge_props = if kind == 3 || kind == 2 { None } else { Some(gen_props(&mut r)) };
            let qa = if kind == 3 || kind == 1 {
                None
            } else {
                let brushy = matches!(i, 0 | 1 | 2 | 6) || (i == 5 && r.chance(1, 2));
                Some(Qa {
                    etype: etype(&mut r),
                    comp: comp(&mut r),
                    app: [PropertyApplicationType::Properties, PropertyApplicationType::Dictionary, PropertyApplicationType::Metadata]
                        [r.below(3) as usize],
                    brush: if brushy {
                        Some((
                            if r.chance(5, 6) { VisualType::Mesh } else { VisualType::None },
                            [CollisionType::None, CollisionType::Convex, CollisionType::Concave][r.below(3) as usize],
                        ))
                    } else {
                        None
                    },
                })
            };
            defs.push(Def { class: c.to_string(), props: forge_props, qa });
        }
        if w::chance(1, 4) {
            // classes whose names are nearly those of others
            for _ in 0..1 + r.below(4) {
                let i = 1 + r.below(8) as usize;
                let class = near_class(&mut r, CLASSES[i]);
                if defs.iter().any(|d: &Def| d.class == class) {
                    continue;
                }
                let brushy = r.chance(1, 2);
                let qa = Qa {
                    etype: etype(&mut r),
                    comp: comp(&mut r),
                    app: PropertyApplicationType::Dictionary,
                    brush: if brushy { Some((VisualType::Mesh, CollisionType::Convex)) } else { None },
                };
                let qa = if r.chance(5, 6) { Some(qa) } else { None };
                let props = if r.chance(5, 6) { Some(gen_props(&mut r)) } else { None };
                let at = r.below(defs.len() as u64 + 1) as usize;
                defs.insert(at, Def { class, props, qa });
            }
        }
        Cfg { twice: 0, textures, bl_brush, bl_plane, defs, layers }
    }
    /// Nearly the same configuration.
    pub fn alike(&self) -> Cfg {
        let mut r = Rng::new(w::below(1 << 20) as u64 ^ 0xcfa);
        let mut c = self.clone();
        match r.below(4) {
            0 => c.textures.iter_mut().for_each(|t| t.1 = 16 << r.below(4)),
            1 => {
                let i = r.below(c.defs.len() as u64) as usize;
                if c.defs[i].props.is_some() {
                    c.defs[i].props = Some(gen_props(&mut r));
                }
            }
            2 => {
                c.bl_plane = if c.bl_plane.is_empty() { vec!["clip".into()] } else { Vec::new() };
            }
            _ => {
                c.layers.pop();
            }
        }
        c
    }
    pub fn known(&self, t: &str) -> bool {
        self.textures.iter().any(|x| x.0 == t)
    }
    pub fn def(&self, c: &str) -> Option<&Def> {
        self.defs.iter().find(|d| d.class == c)
    }
    pub fn config(&self, path: &str) -> Config {
        let mut ti = HashMap::new();
        for (n, a, b) in &self.textures {
            ti.insert(n.clone(), Texture::new(*a, *b));
        }
        let mut fdefs: Vec<forge::Entity> = self
            .defs
            .iter()
            .filter_map(|d| {
                d.props.as_ref().map(|p| forge::Entity::new(forge::ClassType::PointClass, Vec::new(), &d.class, "d", p.clone()))
            })
            .collect();
        let mut qdefs: Vec<QaEntity> = self
            .defs
            .iter()
            .filter_map(|d| {
                d.qa.as_ref().map(|q| match q.brush {
                    None => QaEntity::point(d.class.clone(), q.etype.clone(), q.comp.clone(), q.app, Properties::default()),
                    Some((v, c)) => {
                        QaEntity::brush(d.class.clone(), q.etype.clone(), q.comp.clone(), q.app, Properties::default(), v, c)
                    }
                })
            })
            .collect();
        let mut layers = self.layers.clone();
        if self.twice != 0 {
            let mut r = Rng::new(self.twice);
            for _ in 0..1 + r.below(4) {
                let class = CLASSES[r.below(CLASSES.len() as u64) as usize];
                let at = r.below(qdefs.len() as u64 + 1) as usize;
                let (t, c) = (etype(&mut r), comp(&mut r));
                let brush = (
                    if r.chance(5, 6) { VisualType::Mesh } else { VisualType::None },
                    [CollisionType::None, CollisionType::Convex, CollisionType::Concave][r.below(3) as usize],
                );
                qdefs.insert(
                    at,
                    QaEntity::brush(class.into(), t, c, PropertyApplicationType::Metadata, Properties::default(), brush.0, brush.1),
                );
                let at = r.below(fdefs.len() as u64 + 1) as usize;
                let mut props = gen_props(&mut r);
                props.extend(gen_props(&mut r));
                fdefs.insert(at, forge::Entity::new(forge::ClassType::PointClass, Vec::new(), class, "d", props));
            }
            if r.chance(1, 2) && !layers.is_empty() {
                let l = &layers[r.below(layers.len() as u64) as usize];
                let l = WorldspawnLayer::new("again".into(), l.texture.clone(), etype(&mut r), comp(&mut r), VisualType::Mesh, CollisionType::None);
                let at = r.below(layers.len() as u64 + 1) as usize;
                layers.insert(at, l);
            }
        }
        Config::new(
            path,
            TextureInfo(ti),
            TextureBlacklist::new(self.bl_brush.clone(), self.bl_plane.clone()),
            forge::GameData::new("g".into(), Vec::new(), fdefs),
            QaGameData { entities: qdefs, worldspawn_layers: layers },
        )
    }
}
fn near_class(r: &mut Rng, c: &str) -> String {
    match r.below(6) {
        0 => c.to_uppercase(),
        1 => c[..1].to_uppercase() + &c[1..],
        2 => format!("{}2", c),
        3 => c[..c.len() - 1].to_string(),
        4 => c.split('_').last().unwrap().to_string() + "_",
        _ => format!("{} ", c),
    }
}
fn etype(r: &mut Rng) -> EntityType {
    match r.below(3) {
        0 => EntityType::Placeholder,
        1 => EntityType::class(&format!("Node{}", r.below(9))),
        _ => EntityType::prefab(&format!("res://p{}.tscn", r.below(9))),
    }
}
fn comp(r: &mut Rng) -> ComponentType {
    if r.chance(1, 2) {
        ComponentType::None
    } else {
        ComponentType::Script(format!("script{}", r.below(9)))
    }
}
fn gen_props(r: &mut Rng) -> Vec<forge::Property> {
    use forge::PropertyData as P;
    let mut v = vec![forge::Property::new("uid", "s", "l", P::Integer(-1))];
    for i in 0..r.below(6) {
        let d = match r.below(9) {
            0 => P::Integer(r.below(100) as i32 - 50),
            1 => P::Float(r.below(1000) as f32 / 8.0),
            2 => P::Vector3(Vector3::new(r.below(9) as f32, 2.0, -3.5)),
            3 => P::String(format!("def{}", r.below(9))),
            4 => P::Color(Color::new(0.25, 0.5, r.below(5) as f32)),
            5 => P::Choices(vec![forge::Choice::integer("a", 0), forge::Choice::integer("b", 1)], r.below(2) as i32),
            6 => P::Flags(vec!["f0".into(), "f1".into()], r.below(4) as i32),
            7 => P::TargetSource,
            _ => P::TargetDestination,
        };
        v.push(forge::Property::new(&format!("p{}", i), "short", "long", d));
    }
    v
}
/// What separates the numbers of a vector.
fn gap(r: &mut Rng) -> &'static str {
    [" ", " ", " ", " ", " ", " ", "  ", "\t"][r.below(8) as usize]
}
fn gen_value(r: &mut Rng, d: &forge::PropertyData) -> String {
    use forge::PropertyData as P;
    if r.chance(1, 5) {
        return ["", "abc", "1.5.2", "99999999999", "x y z", "0x10", "1 2", "é ü", "{ }"][r.below(9) as usize].into();
    }
    // numbers that are easily lost on the way
    let odd = r.chance(1, 4);
    let big = ["2147483647", "-2147483648", "16777217", "-16777219", "2147483648", "+5", "-0", "007", "123456789"];
    let real = ["1e3", "-2.5e-3", "0.1", "16777217", "+4", ".5", "5.", "1e39", "-0", "123456.789"];
    match d {
        P::Integer(_) | P::Choices(..) | P::Flags(..) if odd => big[r.below(9) as usize].into(),
        P::Float(_) if odd => real[r.below(10) as usize].into(),
        P::Vector3(_) | P::Color(_) if odd => {
            (0..3).map(|_| real[r.below(10) as usize]).collect::<Vec<_>>().join(gap(r))
        }
        P::Integer(_) | P::Choices(..) | P::Flags(..) => format!("{}", r.below(2000) as i64 - 1000),
        P::Float(_) => format!("{}", (r.below(4000) as f64 - 2000.0) / 16.0),
        P::Vector3(_) | P::Color(_) => {
            let (a, b) = (gap(r), gap(r));
            format!("{}{}{}{}{}{}", ["", "", "", " "][r.below(4) as usize], r.below(200) as f64 / 4.0, a, r.below(50) as i64 - 25, b, r.below(255))
        }
        P::String(_) => ["a b c", "héllo wörld", "{not a brace}", "// not a comment", "日本語テキスト", "\\n\\t", "( 1 2 3 )", " lead", "trail  ", "\tTab  Two"][r.below(10) as usize].into(),
        _ => format!("t{}", r.below(99)),
    }
}
/// The typed value the map's text stands for.
fn typed(d: &forge::PropertyData, v: Option<&str>) -> Property {
    use forge::PropertyData as P;
    let int = |def: &i32| v.and_then(|x| x.parse::<i32>().ok()).unwrap_or(*def);
    let three = || -> Option<[f32; 3]> {
        let mut it = v?.split_whitespace();
        let mut o = [0f32; 3];
        for x in o.iter_mut() {
            *x = it.next()?.parse().ok()?;
        }
        Some(o)
    };
    match d {
        P::Integer(x) => Property::Integer(int(x)),
        P::Float(x) => Property::Float(v.and_then(|s| s.parse::<f32>().ok()).unwrap_or(*x)),
        P::Vector3(x) => Property::Vector3(three().map_or(*x, |t| Vector3::new(t[0], t[1], t[2]))),
        P::String(x) => Property::String(v.map_or(x.clone(), |s| s.to_string())),
        P::Color(x) => Property::Color(three().map_or(*x, |t| Color::new(t[0], t[1], t[2]))),
        P::Choices(_, x) => Property::Choices(int(x)),
        P::Flags(_, x) => Property::Flags(int(x)),
        P::TargetSource => Property::TargetSource,
        P::TargetDestination => Property::TargetDestination,
    }
}

// ---- brushes ---------------------------------------------------------------------------
#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub valve: bool,
    pub extra: usize, // number of extra columns: 0 1 3 6
    pub far: bool,
    pub wide: bool, // many brushes: a grid that keeps coordinates small
}
fn solid(r: &mut Rng, far: bool, kind: usize) -> (Vec<V>, Vec<Vec<usize>>, bool) {
    let d = |r: &mut Rng, lo: i64, hi: i64| (lo + r.below((hi - lo + 1) as u64) as i64) as f64;
    let (mut x0, mut y0, z0) = (d(r, 4, 12), d(r, 4, 12), d(r, 4, 12));
    let (mut x1, mut y1, mut z1) = (d(r, 32, 60), d(r, 32, 60), d(r, 32, 60));
    // other boxes: one that fills its cell and so touches its neighbours, one off the grid,
    // a thin sheet and a thin beam
    match kind {
        0 => (),
        1 => return full_box(r),
        2 => {
            x0 += r.below(8) as f64 / 8.0;
            y1 += r.below(8) as f64 / 8.0;
            return boxed(r, [x0, y0, z0], [x1, y1, z1]);
        }
        n => {
            let thin = |r: &mut Rng| [0.125, 0.25, 0.5, 1.0, 2.0][r.below(5) as usize];
            z1 = z0 + thin(r);
            if n == 4 {
                y1 = y0 + thin(r);
            }
            if r.chance(1, 2) {
                y0 -= 0.5;
                x1 = 60.0;
            }
            return boxed(r, [x0, y0, z0], [x1, y1, z1]);
        }
    }
    let bx = vec![
        [x0, y0, z0], [x1, y0, z0], [x1, y1, z0], [x0, y1, z0],
        [x0, y0, z1], [x1, y0, z1], [x1, y1, z1], [x0, y1, z1],
    ];
    let bf = vec![vec![0, 1, 2, 3], vec![4, 5, 6, 7], vec![0, 1, 5, 4], vec![1, 2, 6, 5], vec![2, 3, 7, 6], vec![3, 0, 4, 7]];
    let k = if far { 0 } else { r.below(11) };
    let (mut vs, fs, exact) = match k {
        0..=2 => (bx, bf, true),
        3 => (
            vec![[x0, y0, z0], [x1, y0, z0], [x0, y0, z1], [x0, y1, z0], [x1, y1, z0], [x0, y1, z1]],
            vec![vec![0, 1, 2], vec![3, 4, 5], vec![0, 1, 4, 3], vec![1, 2, 5, 4], vec![2, 0, 3, 5]],
            false,
        ),
        4 => (
            vec![[x0, y0, z0], [x1, y0, z0], [x0, y1, z0], [x0, y0, z1]],
            vec![vec![0, 1, 2], vec![0, 1, 3], vec![1, 2, 3], vec![0, 2, 3]],
            false,
        ),
        5 => {
            let s = d(r, -16, 16);
            let mut b = bx;
            for v in b[4..].iter_mut() {
                v[0] += s;
            }
            (b, bf, false)
        }
        6 => {
            let t = d(r, 2, 8);
            let mut b = bx;
            for (i, v) in b[4..].iter_mut().enumerate() {
                v[0] += if i == 0 || i == 3 { t } else { -t };
                v[1] += if i < 2 { t } else { -t };
            }
            (b, bf, false)
        }
        // corners where four faces meet
        8 => {
            let (cx, cy) = (d(r, 12, 52), d(r, 12, 52));
            let mut b = bx[..4].to_vec();
            b.push([cx, cy, z1]);
            (b, vec![vec![0, 1, 2, 3], vec![0, 1, 4], vec![1, 2, 4], vec![2, 3, 4], vec![3, 0, 4]], false)
        }
        9 => {
            let e = d(r, 4, 28);
            let m = 32.0;
            (
                vec![[m - e, m, m], [m + e, m, m], [m, m - e, m], [m, m + e, m], [m, m, m - e], [m, m, m + e]],
                (0..8).map(|i| vec![i & 1, 2 + (i >> 1 & 1), 4 + (i >> 2)]).collect(),
                false,
            )
        }
        n => {
            let h = if n == 7 || r.chance(1, 2) {
                vec![[20.0, 8.0], [44.0, 8.0], [56.0, 28.0], [44.0, 48.0], [20.0, 48.0], [8.0, 28.0]]
            } else {
                vec![[20.0, 4.0], [44.0, 4.0], [60.0, 20.0], [60.0, 44.0], [44.0, 60.0], [20.0, 60.0], [4.0, 44.0], [4.0, 20.0]]
            };
            let m = h.len();
            let mut v: Vec<V> = h.iter().map(|p| [p[0], p[1], z0]).collect();
            let mut f = vec![(0..m).collect::<Vec<_>>()];
            if n == 7 || r.chance(1, 3) {
                v.extend(h.iter().map(|p| [p[0], p[1], z1]));
                f.push((m..2 * m).collect());
                for i in 0..m {
                    f.push(vec![i, (i + 1) % m, m + (i + 1) % m, m + i]);
                }
            } else {
                v.push([d(r, 20, 44), d(r, 20, 44), z1]);
                for i in 0..m {
                    f.push(vec![i, (i + 1) % m, m]);
                }
            }
            (v, f, false)
        }
    };
    turn(r, &mut vs);
    // turned by any angle: coordinates with many digits
    if !far && r.chance(1, 6) {
        let (sin, cos) = (r.below(6283) as f64 / 1000.0).sin_cos();
        let ax = r.below(3) as usize;
        let (a, b) = ((ax + 1) % 3, (ax + 2) % 3);
        for v in vs.iter_mut() {
            let (x, y) = (v[a] - 32.0, v[b] - 32.0);
            v[a] = 32.0 + x * cos - y * sin;
            v[b] = 32.0 + x * sin + y * cos;
        }
        return (vs, fs, false);
    }
    (vs, fs, exact)
}
fn full_box(r: &mut Rng) -> (Vec<V>, Vec<Vec<usize>>, bool) {
    boxed(r, [0.0; 3], [64.0; 3])
}
fn boxed(r: &mut Rng, a: V, b: V) -> (Vec<V>, Vec<Vec<usize>>, bool) {
    let mut vs = vec![
        [a[0], a[1], a[2]], [b[0], a[1], a[2]], [b[0], b[1], a[2]], [a[0], b[1], a[2]],
        [a[0], a[1], b[2]], [b[0], a[1], b[2]], [b[0], b[1], b[2]], [a[0], b[1], b[2]],
    ];
    let fs = vec![vec![0, 1, 2, 3], vec![4, 5, 6, 7], vec![0, 1, 5, 4], vec![1, 2, 6, 5], vec![2, 3, 7, 6], vec![3, 0, 4, 7]];
    turn(r, &mut vs);
    (vs, fs, true)
}
/// Rotates and mirrors within the cell.
fn turn(r: &mut Rng, vs: &mut [V]) {
    let rot = r.below(3) as usize;
    let flip = r.below(8);
    for v in vs.iter_mut() {
        let mut u = [v[rot], v[(rot + 1) % 3], v[(rot + 2) % 3]];
        for (i, c) in u.iter_mut().enumerate() {
            if flip & (1 << i) != 0 {
                *c = 64.0 - *c;
            }
        }
        *v = u;
    }
}
/// A number in one of the ways editors and compilers write it.
fn num(r: &mut Rng, x: f64) -> String {
    let whole = x == x.trunc();
    match r.below(40) {
        0..=3 if whole => format!("{}.0", x),
        4 if whole => format!("{:.6}", x),
        5 => format!("{}e0", x),
        6 if whole && x.abs() < 1e6 => format!("{:e}", x),
        7 if x > 0.0 => format!("+{}", x),
        8 if x == 0.0 => "-0".into(),
        _ => format!("{}", x),
    }
}
fn brush(r: &mut Rng, cell: usize, texs: &[String], st: Style, kind: usize) -> Brush {
    let made = (r.clone(), cell, texs.to_vec(), st, kind);
    let (mut vs, fs, exact) = solid(r, st.far, kind);
    let mut off = [
        ((cell % 5) as f64 - 2.0) * 64.0,
        (((cell / 5) % 5) as f64 - 2.0) * 64.0,
        ((cell / 25) as f64 - 2.0) * 64.0,
    ];
    if st.far {
        off = mul(off, 24.0);
    }
    if st.wide {
        off = [(cell % 16) as f64 - 8.0, (cell / 16 % 16) as f64 - 8.0, (cell / 256) as f64 - 6.0];
        off = mul(off, 64.0);
    }
    for v in vs.iter_mut() {
        *v = add(*v, off);
    }
    let mid = avg(&vs);
    let mut faces = Vec::new();
    for (fi, f) in fs.iter().enumerate() {
        let mut loopv: Vec<V> = f.iter().map(|i| vs[*i]).collect();
        let n = cross(sub(loopv[1], loopv[0]), sub(loopv[2], loopv[0]));
        if dot(n, sub(avg(&loopv), mid)) < 0.0 {
            loopv.reverse();
        }
        let normal = unit(cross(sub(loopv[1], loopv[0]), sub(loopv[2], loopv[0])));
        // three corners, clockwise seen from outside
        let s = r.below(loopv.len() as u64) as usize;
        let m = loopv.len();
        let (a, mut b, mut c) = (loopv[s], loopv[(s + m - 1) % m], loopv[(s + m - 2) % m]);
        // they need not be corners, only lie in the plane
        if !st.far && r.chance(1, 8) {
            b = add(a, mul(sub(b, a), 1.0 + r.below(2) as f64));
            c = add(a, mul(sub(c, a), 1.0 + r.below(3) as f64 / 2.0));
        }
        let t = &texs[fi % texs.len()];
        let mut line = String::new();
        for p in [a, b, c] {
            line += &format!("( {} {} {} ) ", num(r, p[0]), num(r, p[1]), num(r, p[2]));
        }
        line += t;
        if st.valve {
            let (u, v) = valve_axes(normal);
            line += &format!(
                " [ {} {} {} {} ] [ {} {} {} {} ]",
                u[0], u[1], u[2], r.below(64), v[0], v[1], v[2], r.below(64) as i64 - 32
            );
        } else {
            line += &format!(" {} {}", r.below(64) as i64 - 32, r.below(64));
        }
        line += &format!(" {} {} {}", [0, 45, 90, 180][r.below(4) as usize], [1.0, 0.5, 2.0][r.below(3) as usize], 1);
        match st.extra {
            1 => line += " -1",
            3 => line += &format!(" {} {} {}", r.below(9), r.below(99), r.below(50)),
            6 => line += &format!(" {} {} {} 0.5 0.25 {}", r.below(9), r.below(99), r.below(50), r.below(2)),
            _ => (),
        }
        faces.push(Face { corners: loopv, normal, tex: t.clone(), line });
    }
    // rarely a redundant plane: all of the solid lies inside it, so it has no face
    if r.chance(1, 16) {
        let (a, up) = (r.below(3) as usize, r.chance(1, 2));
        let at = off[a] + if up { 80.0 + r.below(99) as f64 } else { -16.0 - r.below(99) as f64 };
        let i = r.below(faces.len() as u64) as usize;
        let mut line = String::new();
        for (x, y) in if up { [(0.0, 0.0), (0.0, 64.0), (64.0, 64.0)] } else { [(0.0, 0.0), (64.0, 64.0), (0.0, 64.0)] } {
            let mut p = off;
            p[a] = at;
            p[(a + 1) % 3] += x;
            p[(a + 2) % 3] += y;
            line += &format!("( {} {} {} ) ", p[0], p[1], p[2]);
        }
        let rest = faces[i].line.splitn(4, ')').nth(3).unwrap().trim_start().to_string();
        let second = format!("{}{}", line, rest);
        faces[i].line += &format!("\n{}", second);
    }
    // faces in any order
    for i in (1..faces.len()).rev() {
        faces.swap(i, r.below(i as u64 + 1) as usize);
    }
    Brush { faces, exact, made }
}
fn valve_axes(n: V) -> (V, V) {
    if n[2].abs() >= n[0].abs() && n[2].abs() >= n[1].abs() {
        ([1.0, 0.0, 0.0], [0.0, -1.0, 0.0])
    } else if n[1].abs() >= n[0].abs() {
        ([1.0, 0.0, 0.0], [0.0, 0.0, -1.0])
    } else {
        ([0.0, 1.0, 0.0], [0.0, 0.0, -1.0])
    }
}
fn knd(r: &mut Rng, from: usize, n: u64) -> String {
    let i = from + r.below(n) as usize;
    mixcase(r, KNOWN[i])
}
fn mixcase(r: &mut Rng, s: &str) -> String {
    if r.chance(1, 3) {
        s.to_uppercase()
    } else {
        s.into()
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Tree,
    Geometry,
    Small,
}

/// A well-formed map for this configuration.
pub fn gen(cfg: &Cfg, focus: Focus, tag: u64) -> Map {
    let nent = match focus {
        Focus::Tree => w::small(0, 14),
        Focus::Geometry => w::small(0, 4),
        Focus::Small => w::small(0, 3),
    } as usize;
    // now and then a map far larger than the others
    let huge = if focus == Focus::Small { 0 } else { w::weighted(&[1500, 4, 3, 1]) };
    let nent = if huge == 1 { w::int(60, 300) as usize } else { nent };
    if huge > 0 {
        k().max_steps = 20_000_000;
    }
    let smooth = focus == Focus::Geometry && w::chance(1, 6); // every entity is shaded smoothly
    let st = Style { valve: w::chance(1, 2), extra: [0, 0, 1, 3, 6][w::below(5)], far: huge == 0 && w::chance(1, 8), wide: huge > 0 };
    let mut cell = 0;
    let mut ents: Vec<Ent> = Vec::new();
    let ws_at = if w::chance(1, 8) { w::below(nent + 1) } else { 0 };
    let mut groups: Vec<usize> = Vec::new(); // ids handed out
    let grouping = nent > 0 && w::chance(2, 3);
    for e in 0..nent + 1 {
        let is_ws = e == ws_at;
        let mut r = Rng::new(w::below(1 << 24) as u64 ^ 0x3a9);
        let class = if is_ws {
            "worldspawn".to_string()
        } else if grouping && w::chance(1, 3) {
            "func_group".to_string()
        } else {
            let near = cfg.defs.iter().filter(|d| !CLASSES.contains(&d.class.as_str())).collect::<Vec<_>>();
            if !near.is_empty() && w::chance(1, 2) {
                near[w::below(near.len())].class.clone()
            } else {
                CLASSES[1 + w::below(CLASSES.len() - 1)].to_string()
            }
        };
        let mut props = vec![("classname".to_string(), class.clone())];
        props.push(("uid".into(), format!("{}", tag * 1000 + e as u64)));
        if let Some(ps) = cfg.def(&class).and_then(|d| d.props.as_ref()) {
            for p in ps.iter().skip(1) {
                if r.chance(2, 3) {
                    props.push((p.name.clone(), gen_value(&mut r, &p.data)));
                }
            }
        }
        if r.chance(1, 3) {
            props.push(("undeclared".into(), "x".into()));
        }
        if r.chance(1, 6) {
            // keys that are nearly those of others
            for (k, v) in props.clone() {
                let near = if r.chance(1, 2) { k.to_uppercase() } else { format!("{}2", k) };
                if r.chance(1, 2) && !props.iter().any(|p| p.0 == near) {
                    let v = if r.chance(1, 2) { "7 8 9".into() } else { v };
                    props.push((near, v));
                }
            }
            for k in ["Origin", "_TB_GROUP", "_tb_ID", "_Phong", "origins"].iter() {
                if r.chance(1, 3) {
                    props.push((k.to_string(), "1".into()));
                }
            }
        }
        if !is_ws {
            if class == "func_group" {
                let id = 1 + e * 3 % 17 + groups.len() * 20;
                groups.push(id);
                props.push(("_tb_id".into(), format!("{}", id)));
                props.push(("_tb_type".into(), if r.chance(1, 2) { "_tb_group" } else { "_tb_layer" }.into()));
                props.push(("_tb_name".into(), format!("Group {}", id)));
            }
            if r.chance(1, 3) || (class != "func_wall" && class != "func_door" && r.chance(1, 2)) {
                props.push((
                    "origin".into(),
                    [r.below(512) as f64 - 256.0, r.below(512) as f64 - 256.0, r.below(1024) as f64 / 4.0 - 128.0]
                        .iter()
                        .map(|x| x.to_string())
                        .collect::<Vec<_>>()
                        .join(gap(&mut r)),
                ));
            }
        }
        if r.chance(1, if smooth { 1 } else if focus == Focus::Geometry { 4 } else { 8 }) {
            props.push(("_phong".into(), "1".into()));
            if r.chance(2, 3) {
                let a = ["30", "0", "15", "44.5", "60", "89", "120", "180", "-1", "x"][r.below(10) as usize];
                props.push(("_phong_angle".into(), a.into()));
            }
        }
        let nb = match focus {
            Focus::Geometry => w::small(0, 6),
            Focus::Tree => w::small(0, 3),
            Focus::Small => w::small(0, 2),
        } as usize;
        let nb = match huge {
            1 => nb.min(1),
            2 if is_ws || e == nent => w::int(40, 200) as usize,
            3 if is_ws => w::int(2900, 3300) as usize, // a surface of more than 65536 corners
            _ => nb,
        };
        let mut brushes = Vec::new();
        let one = knd(&mut r.clone(), 0, 10);
        for _ in 0..nb {
            let mode = if huge == 3 && r.chance(19, 20) { 9 } else { w::weighted(&[3, 3, 2, 1, 1]) };
            let t: Vec<String> = match mode {
                9 => vec![one.clone()],
                0 => vec![knd(&mut r, 0, 3)],
                1 => {
                    let t = LAYERS[r.below(4) as usize];
                    (0..8).map(|_| mixcase(&mut r, t)).collect()
                }
                2 => (0..8).map(|_| knd(&mut r, 0, 14)).collect(),
                3 => (0..8)
                    .map(|_| {
                        let t = if r.chance(1, 2) { UNKNOWN[r.below(2) as usize] } else { KNOWN[r.below(10) as usize] };
                        mixcase(&mut r, t)
                    })
                    .collect(),
                _ => (0..8).map(|_| knd(&mut r, 7, 3)).collect(),
            };
            let kind = w::weighted(&[10, 3, 2, 2, 1]);
            brushes.push(brush(&mut r, cell, &t, st, kind));
            cell += 1;
            if r.chance(1, 16) {
                // the same brush once more, as a careless paste leaves it
                let mut twin = brushes[brushes.len() - 1].clone();
                if r.chance(1, 2) {
                    let t = knd(&mut r, 0, 10);
                    for f in twin.faces.iter_mut() {
                        f.line = f.line.replace(&format!(" {} ", f.tex), &format!(" {} ", t));
                        f.tex = t.clone();
                    }
                }
                brushes.push(twin);
            }
        }
        // property order in the file is free
        let m = props.len();
        for i in (1..m).rev() {
            if r.chance(1, 2) {
                props.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
        ents.push(Ent { props, brushes });
    }
    // group membership: any entity may be in a group declared anywhere (no cycles: a group's
    // own group comes earlier in the list of groups)
    if !groups.is_empty() {
        for e in 0..ents.len() {
            if e == ws_at {
                continue;
            }
            let own = ents[e].get("_tb_id").and_then(|s| s.parse::<usize>().ok());
            let lim = match own {
                Some(id) => groups.iter().position(|g| *g == id).unwrap_or(0),
                None => groups.len(),
            };
            if lim > 0 && w::chance(1, 2) {
                let g = groups[w::below(lim)];
                ents[e].props.push(("_tb_group".into(), format!("{}", g)));
            }
        }
    }
    if w::chance(1, 8) {
        // groups that do not exist
        for e in ents.iter_mut() {
            if e.get("_tb_group").is_none() && w::chance(1, 3) {
                let g = ["999999", "halls", "", "-7", "1.5", "é"][w::below(6)];
                e.props.push(("_tb_group".into(), g.into()));
            }
        }
    }
    let text = render(&ents);
    Map { ents, text }
}
/// A map of the same build: the same entities and brushes, elsewhere, or with other textures or
/// values.
pub fn alike(cfg: &Cfg, m: &Map) -> Map {
    let mut r = Rng::new(w::below(1 << 20) as u64 ^ 0xa11e);
    let mut ents = m.ents.clone();
    let shift = r.below(4) as usize;
    let retex = r.chance(1, 3);
    let values = r.chance(1, 2);
    for e in ents.iter_mut() {
        let props = cfg.def(e.get("classname").unwrap_or("")).and_then(|d| d.props.as_ref());
        for (k, v) in e.props.iter_mut() {
            let p = props.and_then(|ps| ps.iter().skip(1).find(|p| &p.name == k));
            match p {
                Some(p) if values && r.chance(1, 3) => *v = gen_value(&mut r, &p.data),
                _ if k == "origin" && r.chance(1, 3) => *v = format!("{} {} {}", r.below(256), r.below(256), r.below(256)),
                _ => (),
            }
        }
        for b in e.brushes.iter_mut() {
            let (mut g, cell, mut texs, st, kind) = b.made.clone();
            if retex && r.chance(1, 2) {
                let i = r.below(texs.len() as u64) as usize;
                texs[i] = knd(&mut r, 0, 10);
            }
            *b = brush(&mut g, cell + shift, &texs, st, kind);
        }
    }
    let text = render(&ents);
    Map { ents, text }
}
pub fn render(ents: &[Ent]) -> String {
    let style = w::weighted(&[8, 2, 2, 1]);
    let nl = if style == 1 { "\r\n" } else { "\n" };
    let sparse = style == 2;
    // some tools indent, and separate by tabs
    let (i1, i2, gap) = if style == 3 { w::pick(&[(" ", " ", " "), ("\t", "\t\t", "\t"), ("  ", "    ", "  ")]) } else { ("", "", " ") };
    let mut s = String::new();
    if !sparse {
        s += &format!("// Game: Quake{}// Format: Standard{}", nl, nl);
    }
    for (i, e) in ents.iter().enumerate() {
        if !sparse {
            s += &format!("// entity {}{}", i, nl);
        } else {
            s += nl;
        }
        s += &format!("{{{}", nl);
        for (k, v) in &e.props {
            s += &format!("{}\"{}\"{}\"{}\"{}", i1, k, gap, v, nl);
        }
        for (j, b) in e.brushes.iter().enumerate() {
            if !sparse {
                s += &format!("{}// brush {}{}", i1, j, nl);
            }
            s += &format!("{}{{{}", i1, nl);
            for l in b.faces.iter().flat_map(|f| f.line.lines()) {
                s += &format!("{}{}{}", i2, l, nl);
            }
            s += &format!("{}}}{}", i1, nl);
        }
        s += &format!("}}{}", nl);
    }
    s
}

// ---- reference scene --------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct XFace {
    pub corners: Vec<V>,
    pub normal: V,
    pub flat: bool,
}
#[derive(Clone, Debug)]
pub enum XColl {
    None,
    Convex(Vec<(V, Vec<V>, bool)>),
    Concave(Vec<XFace>),
}
#[derive(Clone, Debug)]
pub struct XNode {
    pub name: String,
    pub uid: String,
    pub origin: V,
    pub etype: String,
    pub comp: Option<String>,
    pub app: String,
    pub props: BTreeMap<String, String>,
    pub visual: BTreeMap<Option<String>, Vec<XFace>>,
    pub coll: XColl,
    pub kids: Vec<XNode>,
}
fn xface(f: &Face, phong: bool) -> XFace {
    XFace { corners: f.corners.clone(), normal: f.normal, flat: !phong }
}
fn xcoll(kind: CollisionType, brushes: &[&Brush]) -> XColl {
    if brushes.is_empty() {
        return XColl::None;
    }
    match kind {
        CollisionType::None => XColl::None,
        CollisionType::Convex => XColl::Convex(brushes.iter().map(|b| (b.center(), b.corners(), b.exact)).collect()),
        CollisionType::Concave => {
            XColl::Concave(brushes.iter().flat_map(|b| b.faces.iter().map(|f| xface(f, true))).collect())
        }
    }
}
pub fn layer_of<'a>(cfg: &'a Cfg, b: &Brush) -> Option<&'a WorldspawnLayer> {
    cfg.layers.iter().find(|l| b.faces.iter().all(|f| f.tex.to_lowercase() == l.texture))
}
/// The scene a map stands for, or None if it has no single worldspawn.
pub fn model(cfg: &Cfg, ents: &[Ent]) -> Option<Vec<XNode>> {
    let ws: Vec<usize> = (0..ents.len()).filter(|i| ents[*i].get("classname") == Some("worldspawn")).collect();
    if ws.len() != 1 {
        return None;
    }
    let order: Vec<usize> = ws.iter().copied().chain((0..ents.len()).filter(|i| *i != ws[0])).collect();
    let parent = |i: usize| -> Option<usize> {
        if i == ws[0] {
            return None;
        }
        let g = ents[i].get("_tb_group")?;
        order.iter().copied().find(|j| ents[*j].get("_tb_id") == Some(g))
    };
    fn build(cfg: &Cfg, ents: &[Ent], order: &[usize], parent: &dyn Fn(usize) -> Option<usize>, i: usize, base: V, ws: usize) -> XNode {
        let e = &ents[i];
        let class = e.get("classname").unwrap_or("").to_string();
        let def = cfg.def(&class);
        let qa = def.and_then(|d| d.qa.as_ref());
        let phong = e.get("_phong") == Some("1");
        let mut visual: BTreeMap<Option<String>, Vec<XFace>> = BTreeMap::new();
        let mut coll = XColl::None;
        if let Some(Qa { brush: Some((vt, ct)), .. }) = qa {
            let own: Vec<&Brush> = e.brushes.iter().filter(|b| i != ws || layer_of(cfg, b).is_none()).collect();
            if *vt == VisualType::Mesh {
                for b in &own {
                    if b.faces.iter().all(|f| cfg.bl_brush.contains(&f.tex.to_lowercase())) {
                        continue;
                    }
                    for f in &b.faces {
                        let t = f.tex.to_lowercase();
                        if cfg.bl_plane.contains(&t) {
                            continue;
                        }
                        let key = if cfg.known(&t) { Some(t) } else { None };
                        visual.entry(key).or_default().push(xface(f, phong));
                    }
                }
            }
            coll = xcoll(*ct, &own);
        }
        let mut props = BTreeMap::new();
        if let Some(ps) = def.and_then(|d| d.props.as_ref()) {
            for k in ["_tb_id", "_tb_group"] {
                if let Some(v) = e.get(k).and_then(|v| v.parse::<i32>().ok()) {
                    props.insert(k.to_string(), format!("{:?}", Property::Integer(v)));
                }
            }
            for k in ["_tb_type", "_tb_name"] {
                if let Some(v) = e.get(k) {
                    props.insert(k.to_string(), format!("{:?}", Property::String(v.into())));
                }
            }
            for p in ps {
                props.insert(p.name.clone(), format!("{:?}", typed(&p.data, e.get(&p.name))));
            }
        }
        let c = e.center();
        let kids = order
            .iter()
            .copied()
            .filter(|j| parent(*j) == Some(i))
            .map(|j| build(cfg, ents, order, parent, j, c, ws))
            .collect();
        XNode {
            name: class,
            uid: e.get("uid").unwrap_or("").into(),
            origin: sub(c, base),
            etype: format!("{:?}", qa.map_or(EntityType::Placeholder, |q| q.etype.clone())),
            comp: qa.and_then(|q| match &q.comp {
                ComponentType::Script(s) => Some(s.clone()),
                ComponentType::None => None,
            }),
            app: format!("{:?}", qa.map_or(PropertyApplicationType::Properties, |q| q.app)),
            props,
            visual,
            coll,
            kids,
        }
    }
    let mut out = vec![build(cfg, ents, &order, &parent, ws[0], [0.0; 3], ws[0])];
    for l in &cfg.layers {
        let own: Vec<&Brush> =
            ents[ws[0]].brushes.iter().filter(|b| layer_of(cfg, b).map_or(false, |x| x.texture == l.texture)).collect();
        let phong = ents[ws[0]].get("_phong") == Some("1");
        let mut visual: BTreeMap<Option<String>, Vec<XFace>> = BTreeMap::new();
        if l.visual_type == VisualType::Mesh && !own.is_empty() {
            visual.insert(
                Some(l.texture.clone()),
                own.iter().flat_map(|b| b.faces.iter().map(|f| xface(f, phong))).collect(),
            );
        }
        let coll = xcoll(l.collision_type, &own);
        if visual.is_empty() && matches!(coll, XColl::None) {
            continue;
        }
        out.push(XNode {
            name: l.name.clone(),
            uid: String::new(),
            origin: [0.0; 3],
            etype: format!("{:?}", l.entity_type),
            comp: match &l.component_type {
                ComponentType::Script(s) => Some(s.clone()),
                ComponentType::None => None,
            },
            app: format!("{:?}", PropertyApplicationType::Properties),
            props: BTreeMap::new(),
            visual,
            coll,
            kids: Vec::new(),
        });
    }
    for i in order.iter().skip(1) {
        if parent(*i).is_none() {
            out.push(build(cfg, ents, &order, &parent, *i, [0.0; 3], ws[0]));
        }
    }
    Some(out)
}

// ---- comparison ---------------------------------------------------------------------------
type Bad = Option<(String, String)>;
fn bad(c: &str, m: String) -> Bad {
    Some((c.into(), m))
}
pub struct GNode<'a> {
    pub name: &'a str,
    pub origin: V,
    pub etype: String,
    pub comp: Option<String>,
    pub app: String,
    pub props: BTreeMap<String, String>,
    pub visual: Vec<&'a VisualGeometry>,
    pub coll: Vec<&'a CollisionGeometry>,
    pub kids: Vec<GNode<'a>>,
    pub order_ok: bool,
}
pub fn gnode(n: &SceneTreeNode) -> Option<GNode<'_>> {
    match &n.data {
        SceneTreeType::Actor(a, ch) => {
            let mut visual = Vec::new();
            let mut coll = Vec::new();
            let mut kids = Vec::new();
            for c in ch {
                match &c.data {
                    SceneTreeType::Actor(..) => kids.push(gnode(c)?),
                    SceneTreeType::VisualGeometry(v) => visual.push(v),
                    SceneTreeType::CollisionGeometry(v) => coll.push(v),
                }
            }
            Some(GNode {
                name: &a.name,
                origin: v3(&n.origin),
                etype: format!("{:?}", a.entity_type),
                comp: a.component_class.clone(),
                app: format!("{:?}", a.property_application_type),
                props: a.properties.0.iter().map(|(k, v)| (k.clone(), format!("{:?}", v))).collect(),
                visual,
                coll,
                kids,
                order_ok: true,
            })
        }
        _ => None,
    }
}
fn names(v: &[GNode]) -> Vec<String> {
    v.iter().map(|g| format!("{}#{}", g.name, g.props.get("uid").map_or("-", |s| s.as_str()))).collect()
}
fn xnames(v: &[XNode]) -> Vec<String> {
    v.iter().map(|g| format!("{}#{}", g.name, g.props.get("uid").map_or("-", |s| s.as_str()))).collect()
}
/// Compares a loaded scene with the model.
pub fn compare(got: &[SceneTreeNode], want: &[XNode], tree: bool, geo: bool) -> Bad {
    let mut g = Vec::new();
    for n in got {
        match gnode(n) {
            Some(x) => g.push(x),
            None => return bad("tree-shape", "a top-level node is not an actor".into()),
        }
    }
    cmp_list(&g, want, tree, geo, "root")
}
fn cmp_list(g: &[GNode], x: &[XNode], tree: bool, geo: bool, at: &str) -> Bad {
    if names(g) != xnames(x) {
        return bad("tree-nodes", format!("children of {}: {:?}, expected {:?}", at, names(g), xnames(x)));
    }
    for (a, b) in g.iter().zip(x) {
        let here = format!("{}/{}#{}", at, b.name, b.uid);
        if tree {
            if !near(a.origin, b.origin, 0.02) {
                return bad("tree-origin", format!("{}: origin {:?}, expected {:?}", here, a.origin, b.origin));
            }
            if a.etype != b.etype || a.comp != b.comp || a.app != b.app {
                return bad(
                    "tree-type",
                    format!("{}: {} {:?} {}, expected {} {:?} {}", here, a.etype, a.comp, a.app, b.etype, b.comp, b.app),
                );
            }
            if a.props != b.props {
                return bad("tree-properties", format!("{}: properties {:?}, expected {:?}", here, a.props, b.props));
            }
        }
        if geo {
            let r = cmp_geo(a, b, &here);
            if r.is_some() {
                return r;
            }
        }
        let r = cmp_list(&a.kids, &b.kids, tree, geo, &here);
        if r.is_some() {
            return r;
        }
    }
    None
}
const EPS: f64 = 0.05;
/// Finds the faces that have a corner near a point.
struct Corners {
    at: Vec<(f64, usize)>,
}
impl Corners {
    fn new(faces: &[XFace]) -> Corners {
        let mut at: Vec<(f64, usize)> =
            faces.iter().enumerate().flat_map(|(i, f)| f.corners.iter().map(move |c| (key(*c), i))).collect();
        at.sort_by(|a, b| a.partial_cmp(b).unwrap());
        Corners { at }
    }
    fn faces_near(&self, p: V) -> Vec<usize> {
        let x = key(p);
        let r = 6.0 * EPS;
        let lo = self.at.partition_point(|a| a.0 < x - r);
        let mut v: Vec<usize> = self.at[lo..].iter().take_while(|a| a.0 <= x + r).map(|a| a.1).collect();
        v.sort();
        v.dedup();
        v
    }
}
/// A coordinate that rarely coincides for different corners of one map.
fn key(p: V) -> f64 {
    p[0] * 1.4142135 + p[1] * 1.7320508 + p[2] * 2.2360679
}
struct Used {
    area: f64,
    corners: Vec<bool>,
}
fn area(f: &XFace) -> f64 {
    let mut s = [0.0; 3];
    for i in 1..f.corners.len() - 1 {
        s = add(s, cross(sub(f.corners[i], f.corners[0]), sub(f.corners[i + 1], f.corners[0])));
    }
    len(s) / 2.0
}
fn match_tris(
    verts: &[V],
    normals: Option<&[V]>,
    idx: &[usize],
    faces: &[XFace],
    used: &mut [Used],
    here: &str,
) -> Bad {
    if idx.len() % 3 != 0 {
        return bad("geo-indices", format!("{}: {} indices", here, idx.len()));
    }
    if let Some(i) = idx.iter().find(|i| **i >= verts.len()) {
        return bad("geo-indices", format!("{}: index {} with {} vertices", here, i, verts.len()));
    }
    let at = Corners::new(faces);
    for t in idx.chunks(3) {
        let p = [verts[t[0]], verts[t[1]], verts[t[2]]];
        let mut found = false;
        let mut against: Option<V> = None;
        for fi in at.faces_near(p[0]) {
            let f = &faces[fi];
            let c: Vec<Option<usize>> = p.iter().map(|v| f.corners.iter().position(|c| near(*c, *v, EPS))).collect();
            if let (Some(a), Some(b), Some(d)) = (c[0], c[1], c[2]) {
                if a == b || b == d || a == d {
                    continue;
                }
                let n = cross(sub(p[2], p[0]), sub(p[1], p[0]));
                if dot(n, f.normal) <= 0.0 {
                    against = Some(f.normal); // or it is the touching face of a neighbour
                    continue;
                }
                found = true;
                if let Some(ns) = normals {
                    if f.flat {
                        for i in t {
                            if !near(ns[*i], f.normal, 0.01) {
                                return bad(
                                    "geo-normal",
                                    format!("{}: vertex {:?} has normal {:?}, its face {:?}", here, verts[*i], ns[*i], f.normal),
                                );
                            }
                        }
                    }
                }
                used[fi].area += len(n) / 2.0;
                used[fi].corners[a] = true;
                used[fi].corners[b] = true;
                used[fi].corners[d] = true;
                break;
            }
        }
        if let (false, Some(n)) = (found, against) {
            return bad("geo-winding", format!("{}: triangle {:?} winds against its face normal {:?}", here, p, n));
        }
        if !found {
            return bad("geo-foreign-triangle", format!("{}: triangle {:?} belongs to no expected face", here, p));
        }
    }
    None
}
fn check_used(faces: &[XFace], used: &[Used], here: &str) -> Bad {
    let same = |f: &XFace, g: &XFace| {
        f.corners.len() == g.corners.len()
            && near(f.normal, g.normal, 1e-9)
            && f.corners.iter().all(|c| g.corners.iter().any(|d| near(*c, *d, 1e-9)))
    };
    let at = Corners::new(faces);
    for (i, (f, u)) in faces.iter().zip(used).enumerate() {
        // the faces of a brush that is there twice are all counted at the first
        let like: Vec<usize> = at.faces_near(f.corners[0]).into_iter().filter(|j| same(f, &faces[*j])).collect();
        if like[0] < i {
            continue;
        }
        let a = area(f) * like.len() as f64;
        if (u.area - a).abs() > 0.02 * a {
            return bad(
                if u.area < a { "geo-face-missing" } else { "geo-face-duplicated" },
                format!("{}: face {:?} (area {:.2}) is covered by triangles of total area {:.2}", here, f.corners, a, u.area),
            );
        }
        if !u.corners.iter().all(|c| *c) {
            return bad("geo-corner-missing", format!("{}: a corner of face {:?} is in no triangle", here, f.corners));
        }
    }
    None
}
fn fresh(faces: &[XFace]) -> Vec<Used> {
    faces.iter().map(|f| Used { area: 0.0, corners: vec![false; f.corners.len()] }).collect()
}
fn cmp_geo(a: &GNode, b: &XNode, here: &str) -> Bad {
    // visual
    let mut seen: Vec<Option<String>> = Vec::new();
    for v in &a.visual {
        let m = match v {
            VisualGeometry::None => return bad("geo-visual", format!("{}: an empty visual node", here)),
            VisualGeometry::Mesh(m) => m,
        };
        for s in &m.surfaces {
            let h = format!("{} surface {:?}", here, s.texture);
            if seen.contains(&s.texture) {
                return bad("geo-surface-twice", format!("{} is delivered twice", h));
            }
            seen.push(s.texture.clone());
            let faces = match b.visual.get(&s.texture) {
                Some(f) => f,
                None => return bad("geo-surface-unexpected", format!("{} is not expected", h)),
            };
            let n = s.vertices.len();
            if s.normals.len() != n
                || s.tangents.len() != n
                || s.uvs.as_ref().map_or(false, |u| u.len() != n)
                || s.colors.as_ref().map_or(false, |u| u.len() != n)
                || s.uvs.is_some() != s.texture.is_some()
            {
                return bad("geo-arrays", format!("{}: per-vertex arrays differ in length", h));
            }
            let vs: Vec<V> = s.vertices.iter().map(v3).collect();
            let ns: Vec<V> = s.normals.iter().map(v3).collect();
            let at = Corners::new(faces);
            for v in &vs {
                if !at.faces_near(*v).iter().any(|i| faces[*i].corners.iter().any(|c| near(*c, *v, EPS))) {
                    return bad("geo-foreign-vertex", format!("{}: vertex {:?} is no corner of an expected face", h, v));
                }
            }
            let mut u = fresh(faces);
            let r = match_tris(&vs, Some(&ns), &s.indices, faces, &mut u, &h);
            if r.is_some() {
                return r;
            }
            let r = check_used(faces, &u, &h);
            if r.is_some() {
                return r;
            }
        }
    }
    for t in b.visual.keys() {
        if !seen.contains(t) {
            return bad("geo-surface-missing", format!("{}: no surface for texture {:?}", here, t));
        }
    }
    // collision
    let got: Vec<_> = a.coll.iter().collect();
    if got.len() > 1 {
        return bad("geo-collision", format!("{}: {} collision nodes", here, got.len()));
    }
    match (got.first(), &b.coll) {
        (None, XColl::None) => None,
        (Some(CollisionGeometry::Convex(s)), XColl::Convex(x)) => {
            if s.len() != x.len() {
                return bad("geo-collision-count", format!("{}: {} convex shapes for {} brushes", here, s.len(), x.len()));
            }
            for (i, (s, (c, pts, exact))) in s.iter().zip(x).enumerate() {
                if !near(v3(&s.center), *c, EPS) {
                    return bad("geo-collision-center", format!("{}: shape {} centre {:?}, expected {:?}", here, i, v3(&s.center), c));
                }
                let got: Vec<V> = s.points.iter().map(v3).collect();
                for p in &got {
                    if !pts.iter().any(|q| near(*p, *q, EPS)) {
                        return bad("geo-collision-points", format!("{}: shape {} has foreign point {:?}", here, i, p));
                    }
                }
                for q in pts {
                    if !got.iter().any(|p| near(*p, *q, EPS)) {
                        return bad("geo-collision-points", format!("{}: shape {} lacks corner {:?}", here, i, q));
                    }
                }
                if *exact && got.len() != pts.len() {
                    return bad("geo-collision-points", format!("{}: shape {} has {} points for {} corners", here, i, got.len(), pts.len()));
                }
            }
            None
        }
        (Some(CollisionGeometry::Concave(s)), XColl::Concave(faces)) => {
            let mut u = fresh(faces);
            for s in s {
                let vs: Vec<V> = s.vertices.iter().map(v3).collect();
                let r = match_tris(&vs, None, &s.indices, faces, &mut u, &format!("{} concave collision", here));
                if r.is_some() {
                    return r;
                }
            }
            check_used(faces, &u, &format!("{} concave collision", here))
        }
        (g, x) => bad(
            "geo-collision",
            format!(
                "{}: collision {}, expected {}",
                here,
                clip(&format!("{:?}", g), 80),
                match x {
                    XColl::None => "none",
                    XColl::Convex(_) => "convex",
                    XColl::Concave(_) => "concave",
                }
            ),
        ),
    }
}

/// Every bit of a scene, in a form that does not depend on hash order.
pub fn canonical(nodes: &[SceneTreeNode]) -> String {
    let mut s = String::new();
    for n in nodes {
        canon(n, 0, &mut s);
    }
    s
}
fn canon(n: &SceneTreeNode, d: usize, s: &mut String) {
    let f = |v: &Vector3| format!("{:08x},{:08x},{:08x}", v.x().to_bits(), v.y().to_bits(), v.z().to_bits());
    let pad = " ".repeat(d);
    match &n.data {
        SceneTreeType::Actor(a, ch) => {
            let p: BTreeMap<_, _> = a.properties.0.iter().map(|(k, v)| (k.clone(), format!("{:?}", v))).collect();
            *s += &format!(
                "{}actor {} {} {:?} {:?} {:?} {:?}\n",
                pad, a.name, f(&n.origin), a.entity_type, a.component_class, a.property_application_type, p
            );
            for c in ch {
                canon(c, d + 1, s);
            }
        }
        SceneTreeType::VisualGeometry(v) => {
            *s += &format!("{}visual {}\n", pad, f(&n.origin));
            if let VisualGeometry::Mesh(m) = v {
                for x in &m.surfaces {
                    let full = format!(
                        "{:?} {:?} {:?} {:?} {:?} {:?}",
                        x.vertices.iter().map(f).collect::<Vec<_>>(),
                        x.normals.iter().map(f).collect::<Vec<_>>(),
                        x.tangents.iter().map(|t| (f(&t.0), t.1.to_bits())).collect::<Vec<_>>(),
                        x.uvs.as_ref().map(|u| u.iter().map(|v| (v.x().to_bits(), v.y().to_bits())).collect::<Vec<_>>()),
                        x.colors,
                        x.indices
                    );
                    *s += &format!("{} surface {:?} {} vertices {:016x}\n", pad, x.texture, x.vertices.len(), hash_bytes(full.as_bytes()));
                }
            }
        }
        SceneTreeType::CollisionGeometry(c) => {
            let full = match c {
                CollisionGeometry::None => "none".into(),
                CollisionGeometry::Convex(v) => v
                    .iter()
                    .map(|x| format!("{} {:?}", f(&x.center), x.points.iter().map(f).collect::<Vec<_>>()))
                    .collect::<Vec<_>>()
                    .join(";"),
                CollisionGeometry::Concave(v) => v
                    .iter()
                    .map(|x| format!("{} {:?} {:?}", f(&x.center), x.vertices.iter().map(f).collect::<Vec<_>>(), x.indices))
                    .collect::<Vec<_>>()
                    .join(";"),
            };
            *s += &format!("{}collision {} {:016x}\n", pad, f(&n.origin), hash_bytes(full.as_bytes()));
        }
    }
}
