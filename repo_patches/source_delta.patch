From 9977cf2f670330424da5b35a05d811ea01815c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 01/27] fix: slice mip levels 1 to 3 by offset and length

---
 src/wad/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index ca219ae..bd18b3c 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -293,7 +293,7 @@ fn read_mip_data(
             };
 
             let mip1 = if mip_levels > 1 {
-                let mip1_buf = &mipdata_buf[size0..size1];
+                let mip1_buf = &mipdata_buf[size0..][..size1];
                 let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
@@ -304,7 +304,7 @@ fn read_mip_data(
             };
 
             let mip2 = if mip_levels > 2 {
-                let mip2_buf = &mipdata_buf[size0 + size1..size2];
+                let mip2_buf = &mipdata_buf[size0 + size1..][..size2];
                 let (_, mip2) = match mip_level::parser(size2)(mip2_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 2: {:?}", err)),
@@ -315,7 +315,7 @@ fn read_mip_data(
             };
 
             let mip3 = if mip_levels > 3 {
-                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size3];
+                let mip3_buf = &mipdata_buf[size0 + size1 + size2..][..size3];
                 let (_, mip3) = match mip_level::parser(size3)(mip3_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 3: {:?}", err)),
-- 
2.43.0


From cc76d3b6418d3380d9549eea815482cbf96f9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 02/27] fix: report an unsupported WAD magic as an error
 instead of panicking

---
 src/wad/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index bd18b3c..c42e92d 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -105,7 +105,7 @@ pub fn read_textures(
     let wad_type = match header.magic {
         ['W', 'A', 'D', '2'] => WadType::WAD2,
         ['W', 'A', 'D', '3'] => WadType::WAD3,
-        _ => panic!("Unexpected WAD magic: {:?}", header.magic),
+        _ => return Err(format!("Unexpected WAD magic: {:?}", header.magic)),
     };
 
     let now = Instant::now();
-- 
2.43.0


From c583f26fa7317e81d336bd6845fb237c5f88fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 03/27] fix: compute WAD offsets and sizes without overflow

---
 src/wad/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index c42e92d..1b4df08 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -151,9 +151,9 @@ fn read_directory(
 ) -> Result<Vec<Entry>, String> {
     let entries: Vec<Result<Option<Entry>, String>> = (0..header.num_entries)
         .map(|i| {
-            let offset = header.dir_offset;
-            let offset = offset + i * ENTRY_BYTES as u32;
-            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset as u64)) {
+            let offset = header.dir_offset as u64;
+            let offset = offset + i as u64 * ENTRY_BYTES as u64;
+            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset)) {
                 return Err(format!("Error seeking to directory: {:?}", err));
             }
 
@@ -262,12 +262,15 @@ fn read_mip_data(
             };
 
             if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                (entry.offset + miptex.offset1) as u64,
+                entry.offset as u64 + miptex.offset1 as u64,
             )) {
                 return Err(format!("Error seeking to miptex: {:?}", err));
             }
 
-            let size0 = (miptex.width * miptex.height) as usize;
+            let size0 = match miptex.width.checked_mul(miptex.height) {
+                Some(size0) => size0 as usize,
+                None => return Err(format!("Invalid dimensions in texture {:?}", miptex)),
+            };
             let size1 = size0 / 4;
             let size2 = size1 / 4;
             let size3 = size2 / 4;
@@ -337,7 +340,7 @@ fn read_mip_data(
                 WadType::WAD2 => palette = None,
                 WadType::WAD3 => {
                     if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                        (entry.offset + miptex.offset8 + (size3 as u32) + 2) as u64,
+                        entry.offset as u64 + miptex.offset8 as u64 + size3 as u64 + 2,
                     )) {
                         return Err(format!("Error seeking to texture palette: {:?}", err));
                     }
-- 
2.43.0


From d2b32164c8e9621862c79697a7739a94a6b53e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 04/27] fix: stop reading the WAD directory at the first error

---
 src/wad/mod.rs | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 1b4df08..ccaf96c 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -149,7 +149,7 @@ fn read_directory(
     header: &header::Header,
     whitelist: &Option<Vec<String>>,
 ) -> Result<Vec<Entry>, String> {
-    let entries: Vec<Result<Option<Entry>, String>> = (0..header.num_entries)
+    let entries: Result<Vec<Option<Entry>>, String> = (0..header.num_entries)
         .map(|i| {
             let offset = header.dir_offset as u64;
             let offset = offset + i as u64 * ENTRY_BYTES as u64;
@@ -183,22 +183,7 @@ fn read_directory(
         })
         .collect();
 
-    if let Some(err) = entries.iter().find_map(|res| match res {
-        Err(err) => Some(err),
-        _ => None,
-    }) {
-        return Err(err.clone());
-    }
-
-    let entries = entries
-        .into_iter()
-        .flat_map(|entry| match entry {
-            Ok(Some(entry)) => Some(entry),
-            _ => None,
-        })
-        .collect();
-
-    Ok(entries)
+    Ok(entries?.into_iter().flatten().collect())
 }
 
 fn read_mip_textures(wad_file: &mut File, directory: &[Entry]) -> Result<Vec<MipTexture>, String> {
-- 
2.43.0


From 3afe906579658d01fd76cf2dcb382ac1439739b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 05/27] fix: do not allocate mip buffers larger than the WAD
 file can fill

---
 src/wad/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index ccaf96c..04061ea 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -262,17 +262,28 @@ fn read_mip_data(
 
             let sizes = [size0, size1, size2, size3];
             let sizes = Vec::from(&sizes[..mip_levels]);
-            let total_size = sizes.iter().sum();
+            let total_size: usize = sizes.iter().sum();
 
-            let mut mipdata_buf = vec![0u8; total_size];
+            // The size comes from the file, so only allocate as much as the file can fill
+            let mut mipdata_buf = Vec::new();
 
-            if let Err(err) = wad_file.read_exact(&mut mipdata_buf) {
+            if let Err(err) = (&mut wad_file)
+                .take(total_size as u64)
+                .read_to_end(&mut mipdata_buf)
+            {
                 return Err(format!(
                     "Error reading mipdata for texture {:?}: {:?}",
                     miptex, err
                 ));
             }
 
+            if mipdata_buf.len() < total_size {
+                return Err(format!(
+                    "Error reading mipdata for texture {:?}: unexpected end of file",
+                    miptex
+                ));
+            }
+
             let mip0_buf = &mipdata_buf[..size0];
 
             let (_, mip0) = match mip_level::parser(size0)(mip0_buf) {
-- 
2.43.0


From 8e4e1e9044f69175f91847526bbdb80abee78212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 06/27] fix: read all of a WAD through one handle so that
 versions cannot mix

---
 src/wad/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 04061ea..dc493cd 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -19,6 +19,7 @@ use palette::Palette;
 use std::{
     fs::File,
     io::{Read, Seek},
+    sync::Mutex,
     time::Instant,
 };
 
@@ -118,7 +119,7 @@ pub fn read_textures(
 
     let now = Instant::now();
     let mip_data: Vec<(MipDataIndexed, Option<Palette>)> =
-        read_mip_data(wad_file, wad_type, &directory, &mip_textures, mip_levels)?;
+        read_mip_data(file, wad_type, &directory, &mip_textures, mip_levels)?;
     println!("Read mip data took {}", now.elapsed().as_millis());
 
     let result: Vec<TextureIndexed> = mip_textures
@@ -227,7 +228,7 @@ fn read_mip_textures(wad_file: &mut File, directory: &[Entry]) -> Result<Vec<Mip
 }
 
 fn read_mip_data(
-    wad_file: &str,
+    wad_file: File,
     wad_type: WadType,
     directory: &[Entry],
     mip_textures: &[MipTexture],
@@ -235,15 +236,19 @@ fn read_mip_data(
 ) -> Result<Vec<(MipDataIndexed, Option<Palette>)>, String> {
     assert!(mip_levels >= 1 && mip_levels <= 4);
 
+    // Workers share one handle, so that they all see the version of the file
+    // that the directory was read from even if another one replaces it
+    let wad_file = Mutex::new(wad_file);
+
     let mip_data: Vec<Result<(MipDataIndexed, Option<Palette>), String>> = directory
         .par_iter()
         .zip(mip_textures.par_iter())
         .map(|(entry, miptex)| {
             println!("Reading mipdata for entry: {:?}", entry);
 
-            let mut wad_file = match File::open(wad_file) {
+            let mut wad_file = match wad_file.lock() {
                 Ok(wad_file) => wad_file,
-                Err(err) => return Err(format!("Error opening WAD file: {:?}", err)),
+                Err(err) => return Err(format!("Error locking WAD file: {:?}", err)),
             };
 
             if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
@@ -267,7 +272,7 @@ fn read_mip_data(
             // The size comes from the file, so only allocate as much as the file can fill
             let mut mipdata_buf = Vec::new();
 
-            if let Err(err) = (&mut wad_file)
+            if let Err(err) = (&mut *wad_file)
                 .take(total_size as u64)
                 .read_to_end(&mut mipdata_buf)
             {
-- 
2.43.0


From 7e789bb7ab739257ed241aa04d569e0e034c5bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 07/27] fix: split out the configured worldspawn layers, in
 configured order

---
 src/layer_filter/mod.rs | 15 ++++++++++-----
 src/lib.rs              |  5 ++++-
 src/scene_tree/mod.rs   |  6 +++---
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 4562126..c2bcf7f 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,14 +1,15 @@
+use crate::game_data::WorldspawnLayer;
 use crate::geo_builder;
 use crate::map;
-use std::collections::HashMap;
 
 pub fn run(
+    layers: &[WorldspawnLayer],
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
 ) -> (
     Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-    HashMap<String, Vec<geo_builder::brush::Geometry>>,
+    Vec<(String, Vec<geo_builder::brush::Geometry>)>,
 ) {
-    let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
+    let mut worldspawn_layers: Vec<(String, Vec<geo_builder::brush::Geometry>)> = Vec::new();
 
     let (mut worldspawn_entity_data, entity_data): (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
@@ -33,7 +34,11 @@ pub fn run(
 
         let worldspawn_brush_geo = worldspawn_geometry.brush_geometry;
 
-        let worldspawn_layer_textures = vec!["*water0", "*slime0"];
+        // Brushes of a texture that more than one layer claims stay in worldspawn
+        let worldspawn_layer_textures = layers
+            .iter()
+            .map(|layer| layer.texture.as_str())
+            .filter(|texture| layers.iter().filter(|l| l.texture == *texture).count() == 1);
 
         let mut worldspawn_brush_geo = worldspawn_brush_geo;
         for layer_texture in worldspawn_layer_textures {
@@ -41,7 +46,7 @@ pub fn run(
                 .into_iter()
                 .partition(brush_geometry_by_layer(layer_texture));
 
-            worldspawn_layers.insert(layer_texture.into(), layer_geometry);
+            worldspawn_layers.push((layer_texture.into(), layer_geometry));
             worldspawn_brush_geo = worldspawn_geometry;
         }
 
diff --git a/src/lib.rs b/src/lib.rs
index ea01d4b..f527d7e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,10 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
         .collect();
 
     // Split layers out of worldspawn
-    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data);
+    let (entity_data, worldspawn_layer_data) = layer_filter::run(
+        &config.quarchitect_game_data.worldspawn_layers,
+        entity_data,
+    );
 
     // Build engine representation
     let scene_tree = scene_tree::run(
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index c58d2bf..c18398d 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -24,7 +24,7 @@ pub fn run(
     quarchitect_game_data: &crate::game_data::GameData,
     texture_blacklist: &crate::types::TextureBlacklist,
     entity_data: &[(Entity, entity::Geometry)],
-    worldspawn_layers: &HashMap<String, Vec<brush::Geometry>>,
+    worldspawn_layers: &[(String, Vec<brush::Geometry>)],
 ) -> Vec<SceneTreeNode> {
     println!("TODO-2: Implement godot group assignment");
     // Global '_groups' property, comma-separated string of group names to apply during build
@@ -125,8 +125,8 @@ fn build_entity<'a>(
 
 fn build_worldspawn_layer<'a>(
     quarchitect_game_data: &'a crate::game_data::GameData,
-) -> impl Fn((&String, &Vec<brush::Geometry>)) -> Option<SceneTreeNode> + 'a {
-    move |(layer_texture, brush_geometry): (&String, &Vec<brush::Geometry>)| {
+) -> impl Fn(&(String, Vec<brush::Geometry>)) -> Option<SceneTreeNode> + 'a {
+    move |(layer_texture, brush_geometry): &(String, Vec<brush::Geometry>)| {
         let layer_data: Vec<&WorldspawnLayer> = quarchitect_game_data
             .worldspawn_layers
             .iter()
-- 
2.43.0


From be4cd0ee434a326c8fdc4af5cd3c89378df8e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 08/27] fix: do not emit convex collision without shapes

---
 src/scene_tree/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index c18398d..4f3a6ec 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -667,6 +667,10 @@ fn get_entity_convex_collision(entity_geometry: &entity::Geometry) -> CollisionG
         })
         .collect();
 
+    if convex_shapes.is_empty() {
+        return CollisionGeometry::None;
+    }
+
     CollisionGeometry::convex(convex_shapes)
 }
 
-- 
2.43.0


From d8358a330a738f5daf1a5b13e9625987fa84d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 09/27] fix: give flags properties the flags type

---
 src/scene_tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 4f3a6ec..027a196 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -385,7 +385,7 @@ fn get_entity_properties(
                     None => *default,
                 };
 
-                Property::Choices(value)
+                Property::Flags(value)
             }
             crate::game_data::forge::PropertyData::TargetSource => Property::TargetSource,
             crate::game_data::forge::PropertyData::TargetDestination => Property::TargetDestination,
-- 
2.43.0


From 9d0e4a657797b5b09b98d807f3956bd218e67bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:53 +0000
Subject: [PATCH 10/27] fix: reject a map that ends inside an entity

---
 src/map/quake/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index 629ef92..3194ef5 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -191,5 +191,8 @@ pub fn run(
         }
     }
 
-    Ok((token_paths, entities))
+    match scope {
+        ParseScope::File => Ok((token_paths, entities)),
+        _ => Err(QuarchitectError("Unexpected end of file in entity scope")),
+    }
 }
-- 
2.43.0


From 951a97f217dd917135bd3d6dc5a81aaeef66d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 11/27] fix: do not panic on a damaged map property line

---
 src/map/quake/tokenizer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index 578c5b5..dd0900b 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -50,10 +50,13 @@ pub fn run(file_string: String) -> Vec<Token> {
             Some('"') => {
                 let mut comps = line.split('"');
                 comps.next();
-                let key = comps.next().unwrap();
+                let key = comps.next();
                 comps.next();
-                let value = comps.next().unwrap();
-                Token::property(key, value)
+                let value = comps.next();
+                match (key, value) {
+                    (Some(key), Some(value)) => Token::property(key, value),
+                    _ => Token::unrecognized(line),
+                }
             }
             Some('{') => Token::OpenBrace,
             Some('}') => Token::CloseBrace,
-- 
2.43.0


From 798cfe596a960a73be78cc57a21f500bd31a4000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 12/27] fix: report a damaged brush plane as an error instead
 of panicking

---
 src/map/quake/types/brush_plane.rs | 48 +++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index ea3cf0d..7098e5a 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -79,6 +79,15 @@ impl ExtraData {
     }
 }
 
+fn parse_float<'a>(
+    comps: &mut dyn std::iter::Iterator<Item = &'a str>,
+) -> Result<f32, QuarchitectError> {
+    match comps.next().map(|comp| comp.parse::<f32>()) {
+        Some(Ok(value)) => Ok(value),
+        _ => Err(QuarchitectError("Failed to parse brush plane number")),
+    }
+}
+
 // Brush Plane
 #[derive(PartialEq, Debug)]
 pub struct BrushPlane {
@@ -102,9 +111,9 @@ impl BrushPlane {
 
         for i in 0..3 {
             comps.next();
-            let x: f32 = comps.next().unwrap().parse().unwrap();
-            let y: f32 = comps.next().unwrap().parse().unwrap();
-            let z: f32 = comps.next().unwrap().parse().unwrap();
+            let x: f32 = parse_float(&mut comps)?;
+            let y: f32 = parse_float(&mut comps)?;
+            let z: f32 = parse_float(&mut comps)?;
             comps.next();
 
             let v = match i {
@@ -119,26 +128,29 @@ impl BrushPlane {
             v.set_z(z);
         }
 
-        let texture = comps.next().unwrap().to_lowercase();
+        let texture = match comps.next() {
+            Some(texture) => texture.to_lowercase(),
+            None => return Err(QuarchitectError("Missing brush plane texture")),
+        };
 
-        let uv = match comps.next().unwrap().parse::<f32>() {
+        let uv = match comps.next().unwrap_or("").parse::<f32>() {
             Ok(u) => {
-                let v: f32 = comps.next().unwrap().parse().unwrap();
+                let v: f32 = parse_float(&mut comps)?;
                 UV::standard(u, v)
             }
             Err(_err) => {
-                let ux: f32 = comps.next().unwrap().parse().unwrap();
-                let uy: f32 = comps.next().unwrap().parse().unwrap();
-                let uz: f32 = comps.next().unwrap().parse().unwrap();
-                let uo: f32 = comps.next().unwrap().parse().unwrap();
+                let ux: f32 = parse_float(&mut comps)?;
+                let uy: f32 = parse_float(&mut comps)?;
+                let uz: f32 = parse_float(&mut comps)?;
+                let uo: f32 = parse_float(&mut comps)?;
 
                 comps.next();
                 comps.next();
 
-                let vx: f32 = comps.next().unwrap().parse().unwrap();
-                let vy: f32 = comps.next().unwrap().parse().unwrap();
-                let vz: f32 = comps.next().unwrap().parse().unwrap();
-                let vo: f32 = comps.next().unwrap().parse().unwrap();
+                let vx: f32 = parse_float(&mut comps)?;
+                let vy: f32 = parse_float(&mut comps)?;
+                let vz: f32 = parse_float(&mut comps)?;
+                let vo: f32 = parse_float(&mut comps)?;
                 
                 comps.next();
 
@@ -146,16 +158,16 @@ impl BrushPlane {
             }
         };
 
-        let rotation: f32 = comps.next().unwrap().parse().unwrap();
+        let rotation: f32 = parse_float(&mut comps)?;
 
-        let x: f32 = comps.next().unwrap().parse().unwrap();
-        let y: f32 = comps.next().unwrap().parse().unwrap();
+        let x: f32 = parse_float(&mut comps)?;
+        let y: f32 = parse_float(&mut comps)?;
         let scale = Vector2::new(x, y);
 
         let extra_comps: Vec<&str> = comps.collect();
         let extra = match extra_comps.len() {
             0 => ExtraData::None,
-            1 => ExtraData::Hexen2(extra_comps.first().unwrap().parse().unwrap()),
+            1 => ExtraData::Hexen2(parse_float(&mut extra_comps.into_iter())?),
             3 => ExtraData::quake_2(extra_comps)?,
             6 => ExtraData::daikatana(extra_comps)?,
             _ => return Err(QuarchitectError("Unrecognized extra data")),
-- 
2.43.0


From f0c42a3e8d31d76e6eeaa5b28ac22de8c6f6265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 13/27] fix: report a map without a single worldspawn as an
 error instead of panicking

---
 src/layer_filter/mod.rs | 21 ++++++++++++---------
 src/lib.rs              |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index c2bcf7f..6f51700 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,14 +1,18 @@
 use crate::game_data::WorldspawnLayer;
 use crate::geo_builder;
 use crate::map;
+use crate::QuarchitectError;
 
 pub fn run(
     layers: &[WorldspawnLayer],
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-) -> (
-    Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-    Vec<(String, Vec<geo_builder::brush::Geometry>)>,
-) {
+) -> Result<
+    (
+        Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
+        Vec<(String, Vec<geo_builder::brush::Geometry>)>,
+    ),
+    QuarchitectError,
+> {
     let mut worldspawn_layers: Vec<(String, Vec<geo_builder::brush::Geometry>)> = Vec::new();
 
     let (mut worldspawn_entity_data, entity_data): (
@@ -22,10 +26,9 @@ pub fn run(
         });
 
     {
-        assert!(
-            worldspawn_entity_data.len() == 1,
-            "Worldspawn element not a singleton"
-        );
+        if worldspawn_entity_data.len() != 1 {
+            return Err(QuarchitectError("Worldspawn element not a singleton"));
+        }
 
         let (worldspawn_entity, mut worldspawn_geometry): (
             map::quake::Entity,
@@ -65,7 +68,7 @@ pub fn run(
         .chain(entity_data.into_iter())
         .collect();
 
-    (entity_data, worldspawn_layers)
+    Ok((entity_data, worldspawn_layers))
 }
 
 fn brush_geometry_by_layer(layer: &str) -> impl FnMut(&geo_builder::brush::Geometry) -> bool + '_ {
diff --git a/src/lib.rs b/src/lib.rs
index f527d7e..957abd5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -74,7 +74,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
     let (entity_data, worldspawn_layer_data) = layer_filter::run(
         &config.quarchitect_game_data.worldspawn_layers,
         entity_data,
-    );
+    )?;
 
     // Build engine representation
     let scene_tree = scene_tree::run(
-- 
2.43.0


From f675a2eda93ec7728316070119c791c9a331b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 14/27] fix: report an entity without a classname as an error
 instead of panicking

---
 src/map/quake/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index 3194ef5..359e2f5 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -141,7 +141,12 @@ pub fn run(
             },
             Token::CloseBrace => match scope {
                 ParseScope::File => return Err(QuarchitectError("Close brace in file scope")),
-                ParseScope::Entity(_entity_id) => scope = ParseScope::file(),
+                ParseScope::Entity(_entity_id) => {
+                    if entities.last().unwrap().get_property("classname").is_none() {
+                        return Err(QuarchitectError("No classname in entity"));
+                    }
+                    scope = ParseScope::file()
+                }
                 ParseScope::Brush(brush_path) => scope = ParseScope::entity(brush_path.entity_idx),
             },
             Token::Property(p) => match &scope {
-- 
2.43.0


From e409caae6c37527c187e95fa354e04cf39e0dc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 15/27] fix: ignore group ids that are not integers instead of
 panicking

---
 src/scene_tree/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 027a196..27a2b37 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -291,17 +291,14 @@ fn get_entity_properties(
     let mut properties: HashMap<String, Property> = HashMap::new();
 
     let mut add_internal_property_integer = |property_name: &str| {
-        if entity.properties.contains_key(property_name) {
+        if let Some(Ok(value)) = entity
+            .properties
+            .get(property_name)
+            .map(|value| value.parse::<i32>())
+        {
             properties.insert(
                 property_name.into(),
-                crate::game_data::Property::Integer(
-                    entity
-                        .properties
-                        .get(property_name)
-                        .unwrap()
-                        .parse::<i32>()
-                        .unwrap(),
-                ),
+                crate::game_data::Property::Integer(value),
             );
         }
     };
-- 
2.43.0


From 8504175daf5078a1e4d49ad1c9cfd629b840268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:51 +0000
Subject: [PATCH 16/27] fix: ignore degenerate planes instead of panicking on
 their normals

---
 src/geo_builder/brush_plane/vertices.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 50a85eb..d7d50e1 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -14,7 +14,8 @@ pub fn intersect_brush_planes(
 
     let denom = n0.cross(n1).dot(n2);
 
-    if denom < CMP_EPSILON {
+    // Degenerate planes have no finite normal
+    if !(denom >= CMP_EPSILON && denom.is_finite()) {
         return None;
     }
 
-- 
2.43.0


From e19b82271bee6fbee6ffc2dc7f7b2e3d30143182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:52 +0000
Subject: [PATCH 17/27] fix: place every grouped entity exactly once when group
 references are damaged

---
 src/scene_tree/mod.rs | 56 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 27a2b37..663bcbf 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -36,14 +36,18 @@ pub fn run(
     // Introduce a new 'group_entity' point class that takes a brush entity classname as a parameter,
     // and causes its parent group to spawn as an instance of that classname instead of as a func_group
 
+    let parents = get_group_parents(entity_data);
+
     entity_data
         .iter()
+        .enumerate()
         .take(1)
         .flat_map(build_entity(
             quarchitect_game_data,
             forge_game_data,
             texture_blacklist,
             entity_data,
+            &parents,
             Vector3::new(0.0, 0.0, 0.0)
         ))
         .chain(
@@ -54,27 +58,65 @@ pub fn run(
         .chain(
             entity_data
                 .iter()
+                .enumerate()
                 .skip(1)
-                .filter(|(entity, _geometry)| entity.properties.get("_tb_group").is_none())
+                .filter(|(index, _)| parents[*index].is_none())
                 .flat_map(build_entity(
                     quarchitect_game_data,
                     forge_game_data,
                     texture_blacklist,
                     entity_data,
+                    &parents,
                     Vector3::new(0.0, 0.0, 0.0)
                 )),
         )
         .collect()
 }
 
+// Index of the entity that each entity is grouped under: the first one with its group id.
+// Entities whose group does not exist, or contains itself, are not grouped.
+fn get_group_parents(entity_data: &[(Entity, entity::Geometry)]) -> Vec<Option<usize>> {
+    let groups: Vec<Option<usize>> = entity_data
+        .iter()
+        .enumerate()
+        .map(|(i, (entity, _geometry))| match entity.properties.get("_tb_group") {
+            Some(group) if i > 0 => entity_data
+                .iter()
+                .position(|(parent, _geometry)| parent.properties.get("_tb_id") == Some(group)),
+            _ => None,
+        })
+        .collect();
+
+    (0..groups.len())
+        .map(|i| {
+            let mut ancestor = groups[i];
+            for _ in 0..groups.len() {
+                match ancestor {
+                    Some(ancestor_index) if ancestor_index != i => {
+                        ancestor = groups[ancestor_index]
+                    }
+                    _ => break,
+                }
+            }
+
+            if ancestor == Some(i) {
+                None
+            } else {
+                groups[i]
+            }
+        })
+        .collect()
+}
+
 fn build_entity<'a>(
     quarchitect_game_data: &'a GameData,
     forge_game_data: &'a crate::game_data::forge::GameData,
     texture_blacklist: &'a TextureBlacklist,
     entity_data: &'a [(Entity, entity::Geometry)],
+    parents: &'a [Option<usize>],
     origin: Vector3
-) -> impl Fn(&'a (Entity, entity::Geometry)) -> Option<SceneTreeNode> + 'a {
-    move |(entity, entity_geometry): &(Entity, entity::Geometry)| {
+) -> impl Fn((usize, &'a (Entity, entity::Geometry))) -> Option<SceneTreeNode> + 'a {
+    move |(entity_index, (entity, entity_geometry)): (usize, &(Entity, entity::Geometry))| {
         let mut children: Vec<SceneTreeNode> = Vec::new();
 
         match get_entity_visual_geometry(
@@ -92,19 +134,17 @@ fn build_entity<'a>(
             c => children.push(SceneTreeNode::collision_geometry(entity_geometry.center, c)),
         }
 
-        let tb_id = entity.properties.get("_tb_id");
         let mut child_entities: Vec<SceneTreeNode> = entity_data
             .iter()
+            .enumerate()
             .skip(1)
-            .filter(|(child_entity, _geometry)| {
-                let child_group = child_entity.properties.get("_tb_group");
-                child_group.is_some() && child_group == tb_id
-            })
+            .filter(|(child_index, _)| parents[*child_index] == Some(entity_index))
             .flat_map(build_entity(
                 quarchitect_game_data,
                 forge_game_data,
                 texture_blacklist,
                 entity_data,
+                parents,
                 -entity_geometry.center
             ))
             .collect();
-- 
2.43.0


From e42ba6d74550d2404b3fb05ebdce11fdd9dcc980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 18/27] fix: reject groups nested too deeply instead of
 exhausting the stack

---
 src/lib.rs            |  2 +-
 src/scene_tree/mod.rs | 29 +++++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 957abd5..d33ae4d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,7 +83,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
         &config.texture_blacklist,
         &entity_data,
         &worldspawn_layer_data,
-    );
+    )?;
 
     Ok(scene_tree)
 }
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 663bcbf..3e5af18 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -13,9 +13,11 @@ use crate::{
     },
     geo_builder::{brush, entity},
     map::quake::Entity,
-    Color, TextureBlacklist, Vector2, Vector3, Vertex,
+    Color, QuarchitectError, TextureBlacklist, Vector2, Vector3, Vertex,
 };
 
+const MAX_GROUP_DEPTH: usize = 100;
+
 mod predicates;
 mod types;
 
@@ -25,7 +27,7 @@ pub fn run(
     texture_blacklist: &crate::types::TextureBlacklist,
     entity_data: &[(Entity, entity::Geometry)],
     worldspawn_layers: &[(String, Vec<brush::Geometry>)],
-) -> Vec<SceneTreeNode> {
+) -> Result<Vec<SceneTreeNode>, QuarchitectError> {
     println!("TODO-2: Implement godot group assignment");
     // Global '_groups' property, comma-separated string of group names to apply during build
 
@@ -37,8 +39,9 @@ pub fn run(
     // and causes its parent group to spawn as an instance of that classname instead of as a func_group
 
     let parents = get_group_parents(entity_data);
+    check_group_depth(&parents)?;
 
-    entity_data
+    let scene_tree = entity_data
         .iter()
         .enumerate()
         .take(1)
@@ -70,7 +73,9 @@ pub fn run(
                     Vector3::new(0.0, 0.0, 0.0)
                 )),
         )
-        .collect()
+        .collect();
+
+    Ok(scene_tree)
 }
 
 // Index of the entity that each entity is grouped under: the first one with its group id.
@@ -108,6 +113,22 @@ fn get_group_parents(entity_data: &[(Entity, entity::Geometry)]) -> Vec<Option<u
         .collect()
 }
 
+// The scene tree is built by recursion over groups, so their nesting has to be bounded
+fn check_group_depth(parents: &[Option<usize>]) -> Result<(), QuarchitectError> {
+    for i in 0..parents.len() {
+        let mut ancestor = parents[i];
+        for _ in 0..MAX_GROUP_DEPTH {
+            ancestor = ancestor.and_then(|ancestor| parents[ancestor]);
+        }
+
+        if ancestor.is_some() {
+            return Err(QuarchitectError("Groups nested too deeply"));
+        }
+    }
+
+    Ok(())
+}
+
 fn build_entity<'a>(
     quarchitect_game_data: &'a GameData,
     forge_game_data: &'a crate::game_data::forge::GameData,
-- 
2.43.0


From bf4c7c56230675237722c931f644e28611782dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:26 +0000
Subject: [PATCH 19/27] fix: include the last line of each file in a diff, and
 accept empty files

---
 src/map/quake/tokenizer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index dd0900b..97ed4b5 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -88,8 +88,8 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         v.resize(size_y + 1, 0);
     }
 
-    for index_x in 0..size_x {
-        for index_y in 0..size_y {
+    for index_x in 0..=size_x {
+        for index_y in 0..=size_y {
             if index_x == 0 || index_y == 0 {
                 l[index_x][index_y] = 0;
             }
@@ -102,13 +102,13 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         }
     }
 
-    let mut index = l[size_x-1][size_y-1];
+    let mut index = l[size_x][size_y];
     let mut lcs: Vec<Option<&Token>> = Vec::new();
     lcs.resize(index, None);
 
 
-    let mut i = size_x - 1;
-    let mut j = size_y - 1;
+    let mut i = size_x;
+    let mut j = size_y;
     while i > 0 && j > 0 {
         if tokens_a[i-1] == tokens_b[j-1] {
             lcs[index-1] = Some(&tokens_a[i-1]);
-- 
2.43.0


From f44e49e3c9212ed61a895cba98e66f82fac627d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 20/27] fix: do not panic when diagnostics cannot be printed

---
 src/lib.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d33ae4d..f367346 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,22 @@
+// Diagnostics must not affect results, so failing to print them is not an error
+macro_rules! println {
+    ($($arg:tt)*) => {{
+        let _ = std::io::Write::write_fmt(
+            &mut std::io::stdout(),
+            format_args!("{}\n", format_args!($($arg)*)),
+        );
+    }};
+}
+
+macro_rules! eprintln {
+    ($($arg:tt)*) => {{
+        let _ = std::io::Write::write_fmt(
+            &mut std::io::stderr(),
+            format_args!("{}\n", format_args!($($arg)*)),
+        );
+    }};
+}
+
 pub mod game_data;
 pub mod scene_tree;
 pub mod wad;
-- 
2.43.0


From 4b070f61eed0ec8198847e73f1880d7783699fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 21/27] fix: report a diff that cannot be printed as an error

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f367346..40c12ad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,6 +31,7 @@ pub use types::{
 };
 
 use std::error::Error;
+use std::io::Write;
 use std::{fmt, fs};
 
 #[derive(Debug)]
@@ -115,7 +116,9 @@ pub fn run_diff(file_a: &str, file_b: &str) -> Result<(), Box<dyn Error>> {
     let file_b_tokens = map::quake::tokenizer::run(file_b_string);
 
     let diff = map::quake::tokenizer::diff_tokens(&file_a_tokens, &file_b_tokens);
-    println!("{:#?}", diff);
+    let mut stdout = std::io::stdout();
+    writeln!(stdout, "{:#?}", diff)?;
+    stdout.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From f77a397f4cd6aad672528e4c7d380712ffa7c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 22/27] fix: replace saved game data in one step so that an
 interrupted save keeps the old file

---
 src/game_data/forge/game_data.rs | 54 ++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/game_data/forge/game_data.rs b/src/game_data/forge/game_data.rs
index 33ada50..f77e7d8 100644
--- a/src/game_data/forge/game_data.rs
+++ b/src/game_data/forge/game_data.rs
@@ -1,4 +1,8 @@
 use super::Entity;
+use std::{
+    fs::{File, OpenOptions, Permissions},
+    io::{ErrorKind, Write},
+};
 
 #[derive(Debug, Clone)]
 pub struct GameData {
@@ -17,9 +21,55 @@ impl GameData {
     }
 
     pub fn save(&self, file: String) -> std::io::Result<()> {
-        std::fs::write(file, self.to_string())?;
-        Ok(())
+        let metadata = std::fs::symlink_metadata(&file).ok();
+
+        // Links and devices cannot be replaced without changing what they are
+        if metadata.as_ref().map_or(false, |metadata| !metadata.is_file()) {
+            std::fs::write(file, self.to_string())?;
+            return Ok(());
+        }
+
+        // Replace the file in one step, so that an interrupted save does not destroy it
+        let (temp_path, temp_file) = create_temp_file(&file)?;
+        let permissions = metadata.map(|metadata| metadata.permissions());
+        let result = write_file(temp_file, permissions, &self.to_string())
+            .and_then(|_| std::fs::rename(&temp_path, &file));
+
+        if result.is_err() {
+            let _ = std::fs::remove_file(&temp_path);
+        }
+
+        result
+    }
+}
+
+fn create_temp_file(file: &str) -> std::io::Result<(String, File)> {
+    let mut suffix = 0;
+    loop {
+        let temp_path = format!("{}.{}.tmp", file, suffix);
+        let temp_file = OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp_path);
+
+        match temp_file {
+            Ok(temp_file) => return Ok((temp_path, temp_file)),
+            Err(err) if err.kind() == ErrorKind::AlreadyExists => suffix += 1,
+            Err(err) => return Err(err),
+        }
+    }
+}
+
+fn write_file(
+    mut file: File,
+    permissions: Option<Permissions>,
+    content: &str,
+) -> std::io::Result<()> {
+    file.write_all(content.as_bytes())?;
+    if let Some(permissions) = permissions {
+        file.set_permissions(permissions)?;
     }
+    file.sync_all()
 }
 
 impl Default for GameData {
-- 
2.43.0


From 3f33ad6e48e7f235407fdb3718729bcdc8cb793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:32 +0000
Subject: [PATCH 23/27] fix: save through symbolic links in one step and keep
 the links

---
 src/game_data/forge/game_data.rs | 55 ++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/game_data/forge/game_data.rs b/src/game_data/forge/game_data.rs
index f77e7d8..1ff8a16 100644
--- a/src/game_data/forge/game_data.rs
+++ b/src/game_data/forge/game_data.rs
@@ -1,9 +1,12 @@
 use super::Entity;
 use std::{
-    fs::{File, OpenOptions, Permissions},
+    fs::{File, Metadata, OpenOptions, Permissions},
     io::{ErrorKind, Write},
+    path::{Path, PathBuf},
 };
 
+const MAX_LINKS: usize = 40;
+
 #[derive(Debug, Clone)]
 pub struct GameData {
     pub name: String,
@@ -21,12 +24,16 @@ impl GameData {
     }
 
     pub fn save(&self, file: String) -> std::io::Result<()> {
-        let metadata = std::fs::symlink_metadata(&file).ok();
-
-        // Links and devices cannot be replaced without changing what they are
-        if metadata.as_ref().map_or(false, |metadata| !metadata.is_file()) {
-            std::fs::write(file, self.to_string())?;
-            return Ok(());
+        // A link keeps pointing to the file that is saved
+        let file = follow_links(PathBuf::from(file))?;
+        let metadata = symlink_metadata(&file)?;
+
+        // Devices cannot be replaced without changing what they are
+        if metadata
+            .as_ref()
+            .map_or(false, |metadata| !metadata.is_file())
+        {
+            return std::fs::write(file, self.to_string());
         }
 
         // Replace the file in one step, so that an interrupted save does not destroy it
@@ -43,10 +50,40 @@ impl GameData {
     }
 }
 
-fn create_temp_file(file: &str) -> std::io::Result<(String, File)> {
+fn symlink_metadata(file: &Path) -> std::io::Result<Option<Metadata>> {
+    match std::fs::symlink_metadata(file) {
+        Ok(metadata) => Ok(Some(metadata)),
+        Err(err) if err.kind() == ErrorKind::NotFound => Ok(None),
+        Err(err) => Err(err),
+    }
+}
+
+fn follow_links(mut file: PathBuf) -> std::io::Result<PathBuf> {
+    for _ in 0..MAX_LINKS {
+        match symlink_metadata(&file)? {
+            Some(metadata) if metadata.file_type().is_symlink() => {
+                let target = std::fs::read_link(&file)?;
+                file = file
+                    .parent()
+                    .map_or(target.clone(), |dir| dir.join(&target));
+            }
+            _ => return Ok(file),
+        }
+    }
+
+    Err(std::io::Error::new(
+        ErrorKind::Other,
+        "Too many levels of symbolic links",
+    ))
+}
+
+fn create_temp_file(file: &Path) -> std::io::Result<(PathBuf, File)> {
     let mut suffix = 0;
     loop {
-        let temp_path = format!("{}.{}.tmp", file, suffix);
+        let mut temp_path = file.as_os_str().to_owned();
+        temp_path.push(format!(".{}.tmp", suffix));
+        let temp_path = PathBuf::from(temp_path);
+
         let temp_file = OpenOptions::new()
             .write(true)
             .create_new(true)
-- 
2.43.0


From 37c8a52fa77c75daa5043e9c63176e88a404e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:07 +0000
Subject: [PATCH 24/27] fix: merge corners that differ by rounding where more
 than three planes meet

---
 src/geo_builder/brush_plane/mod.rs      | 4 ++--
 src/geo_builder/brush_plane/vertices.rs | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 70cf2ff..d255aee 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -39,14 +39,14 @@ pub fn build(
             match plane_vertices
                 .iter()
                 .skip(i + 1)
-                .find(|comp| comp.vertex == vertex.vertex)
+                .find(|comp| vertices::same_position(comp.vertex, vertex.vertex))
             {
                 None => match entity.get_property("_phong") {
                     Some("1") => {
                         let mut vertex = plane_vertices.iter().skip(i + 1).fold(
                             vertex.clone(),
                             |mut acc, next| {
-                                if next.vertex == acc.vertex {
+                                if vertices::same_position(next.vertex, acc.vertex) {
                                     acc.normal = next.normal;
                                 }
                                 acc
diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index d7d50e1..b30417a 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -2,6 +2,7 @@ use crate::map::quake::BrushPlane;
 use crate::Vector3;
 
 const CMP_EPSILON: f32 = 0.001;
+const MERGE_EPSILON: f32 = 0.01;
 
 pub fn intersect_brush_planes(
     p0: &BrushPlane,
@@ -33,3 +34,8 @@ pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
     }
     true
 }
+
+// Where more than three planes meet, the corners computed from different planes may differ by rounding
+pub fn same_position(a: Vector3, b: Vector3) -> bool {
+    (a - b).length() <= MERGE_EPSILON
+}
-- 
2.43.0


From 1be742a638748eadcc7ddbd8bdf8819337fc9397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:07 +0000
Subject: [PATCH 25/27] fix: leave planes without a face out of a brush's
 centre

---
 src/geo_builder/brush/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/geo_builder/brush/mod.rs b/src/geo_builder/brush/mod.rs
index 13f8947..44cb1e2 100644
--- a/src/geo_builder/brush/mod.rs
+++ b/src/geo_builder/brush/mod.rs
@@ -17,13 +17,17 @@ pub fn build(textures: &TextureInfo, entity: &Entity, brush: &Brush) -> Geometry
         .map(|plane| brush_plane::build(textures, entity, planes, plane))
         .collect();
 
-    // Calculate center
-    let center = plane_geometry
+    // Calculate center, leaving out planes that have no face
+    let face_centers: Vec<Vector3> = plane_geometry
         .iter()
-        .fold(Vector3::new(0.0, 0.0, 0.0), |acc, plane_geometry| {
-            acc + plane_geometry.center
-        })
-        / plane_geometry.len().max(1) as f32;
+        .filter(|plane_geometry| !plane_geometry.vertices.is_empty())
+        .map(|plane_geometry| plane_geometry.center)
+        .collect();
+
+    let center = face_centers
+        .iter()
+        .fold(Vector3::new(0.0, 0.0, 0.0), |acc, next| acc + *next)
+        / face_centers.len().max(1) as f32;
 
     Geometry::new(center, plane_geometry)
 }
-- 
2.43.0


From 656f622ae42f9fb4063bc339404fb7da5f4d8ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:07 +0000
Subject: [PATCH 26/27] fix: read indented map lines instead of silently
 dropping them

---
 src/map/quake/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index 97ed4b5..b196e61 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -45,7 +45,7 @@ pub fn run(file_string: String) -> Vec<Token> {
 
     file_string
         .lines()
-        .map(|line| match line.chars().next() {
+        .map(|line| match line.trim_start().chars().next() {
             Some('/') => Token::comment(line),
             Some('"') => {
                 let mut comps = line.split('"');
-- 
2.43.0


From 378c0f15e1d9ef545cc36dfb30571c2ccfc293fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:07 +0000
Subject: [PATCH 27/27] fix: read vectors whose numbers are separated by more
 than one space

---
 src/geo_builder/entity/mod.rs | 2 +-
 src/scene_tree/mod.rs         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geo_builder/entity/mod.rs b/src/geo_builder/entity/mod.rs
index 57654ae..54313c9 100644
--- a/src/geo_builder/entity/mod.rs
+++ b/src/geo_builder/entity/mod.rs
@@ -20,7 +20,7 @@ pub fn build(textures: &TextureInfo, entity: &Entity) -> Geometry {
     let origin = entity.properties.get("origin");
     let center: Vector3 = match origin {
         Some(origin) => {
-            let mut comps = origin.split(' ');
+            let mut comps = origin.split_whitespace();
             let x: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
             let y: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
             let z: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 3e5af18..cdeec53 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -456,7 +456,7 @@ fn get_entity_properties(
 }
 
 fn parse_vector3_property(value: &str) -> Option<Vector3> {
-    let mut comps = value.split(' ');
+    let mut comps = value.split_whitespace();
 
     let x: f32 = match parse_float(&mut comps) {
         Some(v) => v,
@@ -477,7 +477,7 @@ fn parse_vector3_property(value: &str) -> Option<Vector3> {
 }
 
 fn parse_color_property(value: &str) -> Option<Color> {
-    let mut comps = value.split(' ');
+    let mut comps = value.split_whitespace();
 
     let r: f32 = match parse_float(&mut comps) {
         Some(v) => v,
-- 
2.43.0

