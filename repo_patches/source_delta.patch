From 985ad6d6fc80999f6bd1c0e46e1fe95714511329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:28 +0000
Subject: [PATCH 01/16] fix: read mip levels 1 to 3 from where they are stored

The slices of the smaller mip levels used their sizes as end offsets, so
reading more than one level panicked or cut the wrong bytes.
---
 src/wad/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index ca219ae..39e6784 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -293,7 +293,7 @@ fn read_mip_data(
             };
 
             let mip1 = if mip_levels > 1 {
-                let mip1_buf = &mipdata_buf[size0..size1];
+                let mip1_buf = &mipdata_buf[size0..size0 + size1];
                 let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
@@ -304,7 +304,7 @@ fn read_mip_data(
             };
 
             let mip2 = if mip_levels > 2 {
-                let mip2_buf = &mipdata_buf[size0 + size1..size2];
+                let mip2_buf = &mipdata_buf[size0 + size1..size0 + size1 + size2];
                 let (_, mip2) = match mip_level::parser(size2)(mip2_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 2: {:?}", err)),
@@ -315,7 +315,7 @@ fn read_mip_data(
             };
 
             let mip3 = if mip_levels > 3 {
-                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size3];
+                let mip3_buf = &mipdata_buf[size0 + size1 + size2..total_size];
                 let (_, mip3) = match mip_level::parser(size3)(mip3_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 3: {:?}", err)),
-- 
2.43.0


From bf0d4fe3985db55c1bc548890c87e65f11b1f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:46 +0000
Subject: [PATCH 02/16] fix: return an error for damaged WAD files instead of
 crashing

An unknown magic, an entry count, offset or texture size that does not fit
the file made the reader panic, overflow or allocate without bound.
---
 src/wad/mod.rs | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 39e6784..1e0d25a 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -105,7 +105,7 @@ pub fn read_textures(
     let wad_type = match header.magic {
         ['W', 'A', 'D', '2'] => WadType::WAD2,
         ['W', 'A', 'D', '3'] => WadType::WAD3,
-        _ => panic!("Unexpected WAD magic: {:?}", header.magic),
+        _ => return Err(format!("Unexpected WAD magic: {:?}", header.magic)),
     };
 
     let now = Instant::now();
@@ -149,11 +149,11 @@ fn read_directory(
     header: &header::Header,
     whitelist: &Option<Vec<String>>,
 ) -> Result<Vec<Entry>, String> {
-    let entries: Vec<Result<Option<Entry>, String>> = (0..header.num_entries)
+    let entries: Result<Vec<Option<Entry>>, String> = (0..header.num_entries)
         .map(|i| {
-            let offset = header.dir_offset;
-            let offset = offset + i * ENTRY_BYTES as u32;
-            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset as u64)) {
+            let offset = header.dir_offset as u64;
+            let offset = offset + i as u64 * ENTRY_BYTES as u64;
+            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset)) {
                 return Err(format!("Error seeking to directory: {:?}", err));
             }
 
@@ -183,22 +183,7 @@ fn read_directory(
         })
         .collect();
 
-    if let Some(err) = entries.iter().find_map(|res| match res {
-        Err(err) => Some(err),
-        _ => None,
-    }) {
-        return Err(err.clone());
-    }
-
-    let entries = entries
-        .into_iter()
-        .flat_map(|entry| match entry {
-            Ok(Some(entry)) => Some(entry),
-            _ => None,
-        })
-        .collect();
-
-    Ok(entries)
+    Ok(entries?.into_iter().flatten().collect())
 }
 
 fn read_mip_textures(wad_file: &mut File, directory: &[Entry]) -> Result<Vec<MipTexture>, String> {
@@ -262,12 +247,23 @@ fn read_mip_data(
             };
 
             if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                (entry.offset + miptex.offset1) as u64,
+                entry.offset as u64 + miptex.offset1 as u64,
             )) {
                 return Err(format!("Error seeking to miptex: {:?}", err));
             }
 
-            let size0 = (miptex.width * miptex.height) as usize;
+            let file_size = match wad_file.metadata() {
+                Ok(metadata) => metadata.len(),
+                Err(err) => return Err(format!("Error reading WAD file size: {:?}", err)),
+            };
+
+            // No texture is larger than the file it is stored in
+            let size0 = miptex.width as u64 * miptex.height as u64;
+            if size0 > file_size {
+                return Err(format!("Texture {:?} is larger than the WAD file", miptex));
+            }
+
+            let size0 = size0 as usize;
             let size1 = size0 / 4;
             let size2 = size1 / 4;
             let size3 = size2 / 4;
@@ -337,7 +333,7 @@ fn read_mip_data(
                 WadType::WAD2 => palette = None,
                 WadType::WAD3 => {
                     if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                        (entry.offset + miptex.offset8 + (size3 as u32) + 2) as u64,
+                        entry.offset as u64 + miptex.offset8 as u64 + size3 as u64 + 2,
                     )) {
                         return Err(format!("Error seeking to texture palette: {:?}", err));
                     }
-- 
2.43.0


From 4e606cc94130e2f0497d12cd3d7165358884b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 03/16] fix: report malformed map text as an error instead of
 crashing

---
 src/lib.rs                         |   6 +-
 src/map/quake/parser.rs            |   5 +-
 src/map/quake/tokenizer.rs         |  22 +++---
 src/map/quake/types/brush_plane.rs | 108 ++++++++++++++++-------------
 4 files changed, 79 insertions(+), 62 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ea01d4b..ea5a81d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -58,7 +58,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
     // Parse map into tokens and entities
     println!("Parse map");
     let file_string = fs::read_to_string(config.map_file)?;
-    let tokens = map::quake::tokenizer::run(file_string);
+    let tokens = map::quake::tokenizer::run(file_string)?;
     let (_token_paths, entities) = map::quake::parser::run(&tokens)?;
 
     // Build geometry
@@ -89,8 +89,8 @@ pub fn run_diff(file_a: &str, file_b: &str) -> Result<(), Box<dyn Error>> {
     let file_a_string = fs::read_to_string(file_a)?;
     let file_b_string = fs::read_to_string(file_b)?;
 
-    let file_a_tokens = map::quake::tokenizer::run(file_a_string);
-    let file_b_tokens = map::quake::tokenizer::run(file_b_string);
+    let file_a_tokens = map::quake::tokenizer::run(file_a_string)?;
+    let file_b_tokens = map::quake::tokenizer::run(file_b_string)?;
 
     let diff = map::quake::tokenizer::diff_tokens(&file_a_tokens, &file_b_tokens);
     println!("{:#?}", diff);
diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index 629ef92..5dc1b68 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -191,5 +191,8 @@ pub fn run(
         }
     }
 
-    Ok((token_paths, entities))
+    match scope {
+        ParseScope::File => Ok((token_paths, entities)),
+        _ => Err(QuarchitectError("Missing close brace")),
+    }
 }
diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index 578c5b5..f523f45 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -1,3 +1,5 @@
+use crate::QuarchitectError;
+
 #[derive(Eq, PartialEq, Hash, Debug)]
 pub enum Token {
     Comment(String),
@@ -40,25 +42,25 @@ impl Property {
     }
 }
 
-pub fn run(file_string: String) -> Vec<Token> {
+pub fn run(file_string: String) -> Result<Vec<Token>, QuarchitectError> {
     println!("TODO-3: Rewrite with nom");
 
     file_string
         .lines()
         .map(|line| match line.chars().next() {
-            Some('/') => Token::comment(line),
+            Some('/') => Ok(Token::comment(line)),
             Some('"') => {
                 let mut comps = line.split('"');
                 comps.next();
-                let key = comps.next().unwrap();
-                comps.next();
-                let value = comps.next().unwrap();
-                Token::property(key, value)
+                match (comps.next(), comps.next(), comps.next(), comps.next()) {
+                    (Some(key), Some(_), Some(value), Some(_)) => Ok(Token::property(key, value)),
+                    _ => Err(QuarchitectError("Property without quoted key and value")),
+                }
             }
-            Some('{') => Token::OpenBrace,
-            Some('}') => Token::CloseBrace,
-            Some('(') => Token::brush_plane(&line),
-            _ => Token::unrecognized(&line)
+            Some('{') => Ok(Token::OpenBrace),
+            Some('}') => Ok(Token::CloseBrace),
+            Some('(') => Ok(Token::brush_plane(&line)),
+            _ => Ok(Token::unrecognized(&line))
         })
         .collect()
 }
diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index ea3cf0d..8e647e5 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -3,6 +3,7 @@ use crate::Color;
 use crate::QuarchitectError;
 use crate::Vector2;
 use crate::Vector3;
+use std::str::SplitWhitespace;
 
 // Game-specific extra data
 #[derive(PartialEq, Debug)]
@@ -42,10 +43,7 @@ impl ExtraData {
             Err(_err) => return Err(QuarchitectError("Failed to parse surface flags")),
         };
 
-        let surface_value: f32 = match comps[2].parse() {
-            Ok(surface_value) => surface_value,
-            Err(_err) => return Err(QuarchitectError("Failed to parse surface value")),
-        };
+        let surface_value = parse_number(comps[2])?;
 
         Ok(ExtraData::Quake2(SurfaceData::new(
             surface_contents,
@@ -57,20 +55,9 @@ impl ExtraData {
     pub fn daikatana(comps: Vec<&str>) -> Result<ExtraData, QuarchitectError> {
         let quake_2_data = ExtraData::quake_2(comps.clone())?;
         if let ExtraData::Quake2(surface_data) = quake_2_data {
-            let r: f32 = match comps[3].parse() {
-                Ok(r) => r,
-                Err(_err) => return Err(QuarchitectError("Failed to parse R color component")),
-            };
-
-            let g: f32 = match comps[4].parse() {
-                Ok(g) => g,
-                Err(_err) => return Err(QuarchitectError("Failed to parse G color component")),
-            };
-
-            let b: f32 = match comps[5].parse() {
-                Ok(b) => b,
-                Err(_err) => return Err(QuarchitectError("Failed to parse B color component")),
-            };
+            let r = parse_number(comps[3])?;
+            let g = parse_number(comps[4])?;
+            let b = parse_number(comps[5])?;
 
             Ok(ExtraData::Daikatana(surface_data, Color::new(r, g, b)))
         } else {
@@ -79,6 +66,30 @@ impl ExtraData {
     }
 }
 
+fn next_field<'a>(comps: &mut SplitWhitespace<'a>) -> Result<&'a str, QuarchitectError> {
+    comps
+        .next()
+        .ok_or(QuarchitectError("Missing brush plane field"))
+}
+
+fn expect_symbol(comps: &mut SplitWhitespace, symbol: &str) -> Result<(), QuarchitectError> {
+    if next_field(comps)? != symbol {
+        return Err(QuarchitectError("Unexpected brush plane field"));
+    }
+    Ok(())
+}
+
+fn next_number(comps: &mut SplitWhitespace) -> Result<f32, QuarchitectError> {
+    parse_number(next_field(comps)?)
+}
+
+fn parse_number(comp: &str) -> Result<f32, QuarchitectError> {
+    match comp.parse::<f32>() {
+        Ok(number) if number.is_finite() => Ok(number),
+        _ => Err(QuarchitectError("Failed to parse brush plane number")),
+    }
+}
+
 // Brush Plane
 #[derive(PartialEq, Debug)]
 pub struct BrushPlane {
@@ -101,11 +112,11 @@ impl BrushPlane {
         let mut v2 = Vector3::new(0.0, 0.0, 0.0);
 
         for i in 0..3 {
-            comps.next();
-            let x: f32 = comps.next().unwrap().parse().unwrap();
-            let y: f32 = comps.next().unwrap().parse().unwrap();
-            let z: f32 = comps.next().unwrap().parse().unwrap();
-            comps.next();
+            expect_symbol(&mut comps, "(")?;
+            let x = next_number(&mut comps)?;
+            let y = next_number(&mut comps)?;
+            let z = next_number(&mut comps)?;
+            expect_symbol(&mut comps, ")")?;
 
             let v = match i {
                 0 => &mut v0,
@@ -119,43 +130,44 @@ impl BrushPlane {
             v.set_z(z);
         }
 
-        let texture = comps.next().unwrap().to_lowercase();
+        let texture = next_field(&mut comps)?.to_lowercase();
 
-        let uv = match comps.next().unwrap().parse::<f32>() {
-            Ok(u) => {
-                let v: f32 = comps.next().unwrap().parse().unwrap();
-                UV::standard(u, v)
-            }
-            Err(_err) => {
-                let ux: f32 = comps.next().unwrap().parse().unwrap();
-                let uy: f32 = comps.next().unwrap().parse().unwrap();
-                let uz: f32 = comps.next().unwrap().parse().unwrap();
-                let uo: f32 = comps.next().unwrap().parse().unwrap();
-
-                comps.next();
-                comps.next();
-
-                let vx: f32 = comps.next().unwrap().parse().unwrap();
-                let vy: f32 = comps.next().unwrap().parse().unwrap();
-                let vz: f32 = comps.next().unwrap().parse().unwrap();
-                let vo: f32 = comps.next().unwrap().parse().unwrap();
-                
-                comps.next();
+        let uv = match next_field(&mut comps)? {
+            "[" => {
+                let ux = next_number(&mut comps)?;
+                let uy = next_number(&mut comps)?;
+                let uz = next_number(&mut comps)?;
+                let uo = next_number(&mut comps)?;
+
+                expect_symbol(&mut comps, "]")?;
+                expect_symbol(&mut comps, "[")?;
+
+                let vx = next_number(&mut comps)?;
+                let vy = next_number(&mut comps)?;
+                let vz = next_number(&mut comps)?;
+                let vo = next_number(&mut comps)?;
+
+                expect_symbol(&mut comps, "]")?;
 
                 UV::valve(Vector3::new(ux, uy, uz), uo, Vector3::new(vx, vy, vz), vo)
             }
+            u => {
+                let u = parse_number(u)?;
+                let v = next_number(&mut comps)?;
+                UV::standard(u, v)
+            }
         };
 
-        let rotation: f32 = comps.next().unwrap().parse().unwrap();
+        let rotation = next_number(&mut comps)?;
 
-        let x: f32 = comps.next().unwrap().parse().unwrap();
-        let y: f32 = comps.next().unwrap().parse().unwrap();
+        let x = next_number(&mut comps)?;
+        let y = next_number(&mut comps)?;
         let scale = Vector2::new(x, y);
 
         let extra_comps: Vec<&str> = comps.collect();
         let extra = match extra_comps.len() {
             0 => ExtraData::None,
-            1 => ExtraData::Hexen2(extra_comps.first().unwrap().parse().unwrap()),
+            1 => ExtraData::Hexen2(parse_number(extra_comps[0])?),
             3 => ExtraData::quake_2(extra_comps)?,
             6 => ExtraData::daikatana(extra_comps)?,
             _ => return Err(QuarchitectError("Unrecognized extra data")),
-- 
2.43.0


From 9dbde1da93dd3615666dab3b63f0086975a32663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 04/16] fix: report entities without classname and missing
 worldspawn as errors

---
 src/layer_filter/mod.rs | 21 ++++++++++++---------
 src/lib.rs              |  2 +-
 src/map/quake/parser.rs |  7 ++++++-
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 4562126..678b8ce 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,13 +1,17 @@
 use crate::geo_builder;
 use crate::map;
+use crate::QuarchitectError;
 use std::collections::HashMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-) -> (
-    Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-    HashMap<String, Vec<geo_builder::brush::Geometry>>,
-) {
+) -> Result<
+    (
+        Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
+        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+    ),
+    QuarchitectError,
+> {
     let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
 
     let (mut worldspawn_entity_data, entity_data): (
@@ -21,10 +25,9 @@ pub fn run(
         });
 
     {
-        assert!(
-            worldspawn_entity_data.len() == 1,
-            "Worldspawn element not a singleton"
-        );
+        if worldspawn_entity_data.len() != 1 {
+            return Err(QuarchitectError("Worldspawn element not a singleton"));
+        }
 
         let (worldspawn_entity, mut worldspawn_geometry): (
             map::quake::Entity,
@@ -60,7 +63,7 @@ pub fn run(
         .chain(entity_data.into_iter())
         .collect();
 
-    (entity_data, worldspawn_layers)
+    Ok((entity_data, worldspawn_layers))
 }
 
 fn brush_geometry_by_layer(layer: &str) -> impl FnMut(&geo_builder::brush::Geometry) -> bool + '_ {
diff --git a/src/lib.rs b/src/lib.rs
index ea5a81d..451f75d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
         .collect();
 
     // Split layers out of worldspawn
-    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data);
+    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data)?;
 
     // Build engine representation
     let scene_tree = scene_tree::run(
diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index 5dc1b68..6c7ffa3 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -141,7 +141,12 @@ pub fn run(
             },
             Token::CloseBrace => match scope {
                 ParseScope::File => return Err(QuarchitectError("Close brace in file scope")),
-                ParseScope::Entity(_entity_id) => scope = ParseScope::file(),
+                ParseScope::Entity(_entity_id) => {
+                    if entities.last().unwrap().get_property("classname").is_none() {
+                        return Err(QuarchitectError("Entity without classname"));
+                    }
+                    scope = ParseScope::file()
+                }
                 ParseScope::Brush(brush_path) => scope = ParseScope::entity(brush_path.entity_idx),
             },
             Token::Property(p) => match &scope {
-- 
2.43.0


From 96fc676f91eb6eca8196e9418acbf981ffe25712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 05/16] fix: leave out group ids that are not integers instead
 of crashing

---
 src/scene_tree/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index c58d2bf..2c0aa97 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -291,17 +291,14 @@ fn get_entity_properties(
     let mut properties: HashMap<String, Property> = HashMap::new();
 
     let mut add_internal_property_integer = |property_name: &str| {
-        if entity.properties.contains_key(property_name) {
+        if let Some(Ok(value)) = entity
+            .properties
+            .get(property_name)
+            .map(|value| value.parse::<i32>())
+        {
             properties.insert(
                 property_name.into(),
-                crate::game_data::Property::Integer(
-                    entity
-                        .properties
-                        .get(property_name)
-                        .unwrap()
-                        .parse::<i32>()
-                        .unwrap(),
-                ),
+                crate::game_data::Property::Integer(value),
             );
         }
     };
-- 
2.43.0


From 82dd23d62f40a762ac4196774003bbba0731e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 06/16] fix: report the differing lines of two maps instead of
 crashing or missing some

---
 src/map/quake/tokenizer.rs | 50 ++++++++++++--------------------------
 1 file changed, 15 insertions(+), 35 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index f523f45..7aab076 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -87,12 +87,9 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         v.resize(size_y + 1, 0);
     }
 
-    for index_x in 0..size_x {
-        for index_y in 0..size_y {
-            if index_x == 0 || index_y == 0 {
-                l[index_x][index_y] = 0;
-            }
-            else if tokens_a[index_x-1] == tokens_b[index_y-1] {
+    for index_x in 1..=size_x {
+        for index_y in 1..=size_y {
+            if tokens_a[index_x-1] == tokens_b[index_y-1] {
                 l[index_x][index_y] = l[index_x-1][index_y-1] + 1;
             }
             else {
@@ -101,45 +98,28 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         }
     }
 
-    let mut index = l[size_x-1][size_y-1];
-    let mut lcs: Vec<Option<&Token>> = Vec::new();
-    lcs.resize(index, None);
-
+    let mut removed: Vec<&Token> = Vec::new();
+    let mut added: Vec<&Token> = Vec::new();
 
-    let mut i = size_x - 1;
-    let mut j = size_y - 1;
-    while i > 0 && j > 0 {
-        if tokens_a[i-1] == tokens_b[j-1] {
-            lcs[index-1] = Some(&tokens_a[i-1]);
+    let mut i = size_x;
+    let mut j = size_y;
+    while i > 0 || j > 0 {
+        if i > 0 && j > 0 && tokens_a[i-1] == tokens_b[j-1] {
             i -= 1;
             j -= 1;
-            index -= 1;
         }
-        else if l[i-1][j] > l[i][j-1] {
+        else if j == 0 || (i > 0 && l[i-1][j] > l[i][j-1]) {
             i -= 1;
+            removed.push(&tokens_a[i]);
         }
         else {
             j -= 1;
+            added.push(&tokens_b[j]);
         }
     }
 
-    let lcs: Vec<&Token> = lcs.iter().map(|token| {
-        token.unwrap()
-    }).collect();
-
-    let mut removed: Vec<&Token> = Vec::new();
-    for token in tokens_a {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
-            removed.push(token);
-        }
-    }
-
-    let mut added: Vec<&Token> = Vec::new();
-    for token in tokens_b {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
-            added.push(token);
-        }
-    }
+    removed.reverse();
+    added.reverse();
 
     Diff::new(added, removed)
-}
\ No newline at end of file
+}
-- 
2.43.0


From b0c85a4da44d7570cd20d45023e900c0e9ac153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 07/16] fix: give flags properties their declared type

---
 src/scene_tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 2c0aa97..b2e6db8 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -382,7 +382,7 @@ fn get_entity_properties(
                     None => *default,
                 };
 
-                Property::Choices(value)
+                Property::Flags(value)
             }
             crate::game_data::forge::PropertyData::TargetSource => Property::TargetSource,
             crate::game_data::forge::PropertyData::TargetDestination => Property::TargetDestination,
-- 
2.43.0


From 21822214e8dab651dbbc0269bbccbfe89a04eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 08/16] fix: join a vertex only with one that equals it

---
 src/scene_tree/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index b2e6db8..c47e88e 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -791,9 +791,10 @@ fn filter_vertices<'a>(
             new_indices.push(i);
             new_vertices.push(vertex);
         } else {
+            // The first vertex the predicate takes for this one
             let position = vertices
                 .iter()
-                .position(|comp| comp.vertex == vertex.vertex)
+                .position(|comp| !predicate(i, vertex, &[*comp]))
                 .unwrap();
 
             indices = indices
-- 
2.43.0


From 8b1a0e023ccf4175a02a4e26d4a5a9fd383517f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 09/16] fix: read colour properties in the 0 to 255 steps their
 definition is written in

---
 src/scene_tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index c47e88e..47d42b8 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -433,7 +433,7 @@ fn parse_color_property(value: &str) -> Option<Color> {
         None => return None,
     };
 
-    Some(Color::new(r, g, b))
+    Some(Color::new(r / 255.0, g / 255.0, b / 255.0))
 }
 
 fn parse_float(comps: &mut dyn std::iter::Iterator<Item = &str>) -> Option<f32> {
-- 
2.43.0


From 5c4a0b42bb75e988dc2f037641f3c63300af6fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 10/16] fix: no collision and no layer actor without brushes

---
 src/scene_tree/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 47d42b8..6c5dacf 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -628,6 +628,10 @@ fn get_entity_collision_geometry(
 }
 
 fn get_entity_convex_collision(entity_geometry: &entity::Geometry) -> CollisionGeometry {
+    if entity_geometry.brush_geometry.is_empty() {
+        return CollisionGeometry::None;
+    }
+
     let convex_shapes: Vec<ConvexCollision> = entity_geometry
         .brush_geometry
         .iter()
-- 
2.43.0


From ea54244b54e44bb8e4396af75b76ff26c2b12147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:15 +0000
Subject: [PATCH 11/16] fix: keep the liquid layers in a fixed order

---
 src/layer_filter/mod.rs | 7 +++----
 src/scene_tree/mod.rs   | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 678b8ce..0d63ff2 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,18 +1,17 @@
 use crate::geo_builder;
 use crate::map;
 use crate::QuarchitectError;
-use std::collections::HashMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
 ) -> Result<
     (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+        Vec<(String, Vec<geo_builder::brush::Geometry>)>,
     ),
     QuarchitectError,
 > {
-    let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
+    let mut worldspawn_layers: Vec<(String, Vec<geo_builder::brush::Geometry>)> = Vec::new();
 
     let (mut worldspawn_entity_data, entity_data): (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
@@ -44,7 +43,7 @@ pub fn run(
                 .into_iter()
                 .partition(brush_geometry_by_layer(layer_texture));
 
-            worldspawn_layers.insert(layer_texture.into(), layer_geometry);
+            worldspawn_layers.push((layer_texture.into(), layer_geometry));
             worldspawn_brush_geo = worldspawn_geometry;
         }
 
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 6c5dacf..5551e4f 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -24,7 +24,7 @@ pub fn run(
     quarchitect_game_data: &crate::game_data::GameData,
     texture_blacklist: &crate::types::TextureBlacklist,
     entity_data: &[(Entity, entity::Geometry)],
-    worldspawn_layers: &HashMap<String, Vec<brush::Geometry>>,
+    worldspawn_layers: &[(String, Vec<brush::Geometry>)],
 ) -> Vec<SceneTreeNode> {
     println!("TODO-2: Implement godot group assignment");
     // Global '_groups' property, comma-separated string of group names to apply during build
@@ -125,8 +125,8 @@ fn build_entity<'a>(
 
 fn build_worldspawn_layer<'a>(
     quarchitect_game_data: &'a crate::game_data::GameData,
-) -> impl Fn((&String, &Vec<brush::Geometry>)) -> Option<SceneTreeNode> + 'a {
-    move |(layer_texture, brush_geometry): (&String, &Vec<brush::Geometry>)| {
+) -> impl Fn(&(String, Vec<brush::Geometry>)) -> Option<SceneTreeNode> + 'a {
+    move |(layer_texture, brush_geometry): &(String, Vec<brush::Geometry>)| {
         let layer_data: Vec<&WorldspawnLayer> = quarchitect_game_data
             .worldspawn_layers
             .iter()
-- 
2.43.0


From bb7e6b16765b16b4ad14dd4dcdc3928d58c0f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:15 +0000
Subject: [PATCH 12/16] fix: no vertices on a face whose points lie on a line

---
 src/geo_builder/brush_plane/vertices.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 50a85eb..d6c50e0 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -14,7 +14,8 @@ pub fn intersect_brush_planes(
 
     let denom = n0.cross(n1).dot(n2);
 
-    if denom < CMP_EPSILON {
+    // Also false for planes whose points lie on a line, which have no normal
+    if !(denom >= CMP_EPSILON) {
         return None;
     }
 
-- 
2.43.0


From 731b491d0fbd226928361140e4637d377ea13e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:15 +0000
Subject: [PATCH 13/16] fix: planes without a face do not count for the brush
 center

---
 src/geo_builder/brush/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geo_builder/brush/mod.rs b/src/geo_builder/brush/mod.rs
index 13f8947..5183b07 100644
--- a/src/geo_builder/brush/mod.rs
+++ b/src/geo_builder/brush/mod.rs
@@ -17,13 +17,18 @@ pub fn build(textures: &TextureInfo, entity: &Entity, brush: &Brush) -> Geometry
         .map(|plane| brush_plane::build(textures, entity, planes, plane))
         .collect();
 
-    // Calculate center
+    // Calculate center, without the planes that bound nothing
+    let face_count = plane_geometry
+        .iter()
+        .filter(|plane_geometry| !plane_geometry.vertices.is_empty())
+        .count();
+
     let center = plane_geometry
         .iter()
         .fold(Vector3::new(0.0, 0.0, 0.0), |acc, plane_geometry| {
             acc + plane_geometry.center
         })
-        / plane_geometry.len().max(1) as f32;
+        / face_count.max(1) as f32;
 
     Geometry::new(center, plane_geometry)
 }
-- 
2.43.0


From 0215cbcf4c656e805e9fda86a95f2e6d08eb3cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:33 +0000
Subject: [PATCH 14/16] fix: corners shared by more than three planes are one
 vertex of a face, not several that differ by rounding

---
 src/geo_builder/brush_plane/mod.rs      | 4 ++--
 src/geo_builder/brush_plane/vertices.rs | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 70cf2ff..d0389bc 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -39,14 +39,14 @@ pub fn build(
             match plane_vertices
                 .iter()
                 .skip(i + 1)
-                .find(|comp| comp.vertex == vertex.vertex)
+                .find(|comp| vertices::same_vertex(comp.vertex, vertex.vertex))
             {
                 None => match entity.get_property("_phong") {
                     Some("1") => {
                         let mut vertex = plane_vertices.iter().skip(i + 1).fold(
                             vertex.clone(),
                             |mut acc, next| {
-                                if next.vertex == acc.vertex {
+                                if vertices::same_vertex(next.vertex, acc.vertex) {
                                     acc.normal = next.normal;
                                 }
                                 acc
diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index d6c50e0..bc8c81c 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -33,3 +33,8 @@ pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
     }
     true
 }
+
+// Planes beyond the third meet in the same corner up to rounding
+pub fn same_vertex(a: Vector3, b: Vector3) -> bool {
+    (a - b).length() <= CMP_EPSILON
+}
-- 
2.43.0


From 4d5d22ca4a87da86bc65189daa3eac9b5ebabe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:54 +0000
Subject: [PATCH 15/16] fix: corners of brushes far from the origin are not
 lost or doubled by rounding

---
 src/geo_builder/brush_plane/vertices.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index bc8c81c..db0f8d8 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -19,15 +19,16 @@ pub fn intersect_brush_planes(
         return None;
     }
 
-    Some(
-        (n1.cross(n2) * p0.dist() + n2.cross(n0) * p1.dist() + n0.cross(n1) * p2.dist()) / denom,
-    )
+    // Relative to a point of the first plane, which loses less precision far from the origin
+    let d1 = n1.dot(p1.v0 - p0.v0);
+    let d2 = n2.dot(p2.v0 - p0.v0);
+
+    Some(p0.v0 + (n2.cross(n0) * d1 + n0.cross(n1) * d2) / denom)
 }
 
 pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
     for brush_plane in hull {
-        let proj = brush_plane.normal().dot(vertex);
-        if proj > brush_plane.dist() && proj - brush_plane.dist() > CMP_EPSILON {
+        if brush_plane.normal().dot(vertex - brush_plane.v0) > CMP_EPSILON {
             return false;
         }
     }
-- 
2.43.0


From 4a068595088eaee399b3ee263398d894b4073632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:32 +0000
Subject: [PATCH 16/16] fix: limit _phong_angle to 0..180 degrees, beyond which
 it wrapped around

---
 src/geo_builder/brush_plane/normals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/normals.rs b/src/geo_builder/brush_plane/normals.rs
index 0aaba39..1b45e71 100644
--- a/src/geo_builder/brush_plane/normals.rs
+++ b/src/geo_builder/brush_plane/normals.rs
@@ -20,7 +20,7 @@ fn phong_normal(
 ) -> Vector3 {
     if let Some(phong_angle) = phong_angle {
         if let Ok(phong_angle) = phong_angle.parse::<f32>() {
-            let threshold = ((phong_angle + 0.01) * ONE_DEGREE).cos();
+            let threshold = ((phong_angle.clamp(0.0, 180.0) + 0.01) * ONE_DEGREE).cos();
             let mut normal = p0.normal();
             if p0.normal().dot(p1.normal()) > threshold {
                 normal += p1.normal()
-- 
2.43.0

