From 836e8937a55007019b2601bad4101dba52e90107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 01/15] fix: small triangles are hit by rays

The determinant scales with the area of the triangle and the length of the ray direction, so
triangles with edges of about 1e-4 were taken as parallel to every ray and never hit.
---
 src/hittable/triangle.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index c8a6334..72f7665 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -117,14 +117,14 @@ impl Hittable for Triangle {
     }
 
     fn hit(&self, r: &Ray, ray_length: &Interval) -> Option<RayHit> {
-        let p_vec = r.direction.cross(self.v0v2);
-        let det = self.v0v1.dot(p_vec);
-
-        // No hit if the ray is parallel to the plane
-        if det.abs() < ALMOST_ZERO {
+        // No hit if the triangle has no area or the ray is parallel to the plane.
+        // The determinant is no measure of that as it scales with the area of the triangle
+        if self.area == 0. || self.normal.dot(r.direction).abs() < ALMOST_ZERO {
             return None;
         }
 
+        let p_vec = r.direction.cross(self.v0v2);
+        let det = self.v0v1.dot(p_vec);
         let inv_det = 1. / det;
         let t_vec = r.origin - self.v0;
         let q_vec = t_vec.cross(self.v0v1);
-- 
2.43.0


From 9f3341da6df984c7a1f212d2865813d7a0937086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 02/15] fix: rays starting inside or beyond fog in a box see it

The hierarchy refused every hit behind the origin of the ray, also when the requested interval includes it.
Fog looks for both ends of its boundary that way, so fog bounded by a box was invisible to rays starting inside.
---
 src/geo/mod.rs      | 9 +++++++--
 src/hittable/bvh.rs | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 7118d87..c389026 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -157,8 +157,13 @@ impl Aabb {
 
     /// Checks if the given ray hits the aabb
     pub fn hit(&self, r: &Ray) -> bool {
-        let mut t_min = 0.;
-        let mut t_max = f64::INFINITY;
+        self.hit_within(r, &Interval::new(0., f64::INFINITY))
+    }
+
+    /// Checks if the given ray hits the aabb within the interval
+    pub fn hit_within(&self, r: &Ray, ray_length: &Interval) -> bool {
+        let mut t_min = ray_length.min;
+        let mut t_max = ray_length.max;
 
         if r.direction_inverted.x.is_sign_negative() {
             t_min = ((self.x.max - r.origin.x) * r.direction_inverted.x).max(t_min);
diff --git a/src/hittable/bvh.rs b/src/hittable/bvh.rs
index 5f72095..058d5a5 100644
--- a/src/hittable/bvh.rs
+++ b/src/hittable/bvh.rs
@@ -164,7 +164,7 @@ fn sort_hittables_by_center(list: &mut [Hittables], center: f64, axis: u8) -> us
 
 impl Hittable for Bvh {
     fn hit(&self, r: &Ray, ray_length: &Interval) -> Option<RayHit> {
-        if !self.b_box.hit(r) {
+        if !self.b_box.hit_within(r, ray_length) {
             return None;
         }
 
-- 
2.43.0


From dd814b2a1305567e038f0ceef192b7390f0d5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 03/15] fix: bump maps on spheres do not depend on the sphere's
 radius

---
 src/hittable/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index aed43b8..6f6108d 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -87,7 +87,7 @@ impl Hittable for Sphere {
         let uv = calculate_sphere_uv(normal);
 
         let tangent = UNIT_Y.cross(n).unit();
-        let bi_tangent = n.cross(tangent);
+        let bi_tangent = normal.cross(tangent);
 
         let front_face = r.direction.dot(normal) < 0.;
         if !front_face {
-- 
2.43.0


From ed1d471035ec812a74ef797bccecb207090b264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 04/15] fix: images of encoded normals are recognised by the
 normals they encode

---
 src/material/texture.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 7a875b8..0218aac 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -8,7 +8,7 @@ use image::RgbImage;
 use simple_error::SimpleError;
 
 use crate::geo::Uv;
-use crate::geo::vec3::Vec3;
+use crate::geo::vec3::{Vec3, ONE_VECTOR};
 use crate::material::texture::BumpMap::{Height, Normal};
 use crate::material::texture::Textures::{ImageMapType, SolidColorType};
 use crate::util::height_map;
@@ -70,7 +70,8 @@ fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
 
     for pixel in image.pixels() {
         let p = rgb_to_vec3(pixel);
-        if (p.length() - 1.).abs() < 0.05 {
+        let normal: Vec3 = p * 2. - ONE_VECTOR;
+        if (normal.length() - 1.).abs() < 0.05 {
             num_normal += 1;
         }
         if (p.x - p.y).abs() < 0.05 && (p.y - p.z).abs() < 0.05 {
-- 
2.43.0


From 41bfaae2e3bc0669c9f8dff0e6b31d695eca65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 05/15] fix: triangle lights are sampled within the triangle

---
 src/hittable/triangle.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index 72f7665..590c83a 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -112,7 +112,14 @@ impl Hittable for Triangle {
     }
 
     fn random_direction(&self, origin: Vec3) -> Vec3 {
-        let p = self.v0 + self.v0v1 * random_normal_float() + self.v0v2 * random_normal_float();
+        let mut r1 = random_normal_float();
+        let mut r2 = random_normal_float();
+        // Points in the other half of the parallelogram are mirrored back into the triangle
+        if r1 + r2 > 1. {
+            r1 = 1. - r1;
+            r2 = 1. - r2;
+        }
+        let p = self.v0 + self.v0v1 * r1 + self.v0v2 * r2;
         p - origin
     }
 
-- 
2.43.0


From 71fa4937caedf204eea936ab91ec431a8e588cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 06/15] fix: light attenuates with true distance, whatever the
 length of ray directions

---
 src/renderer/shader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/renderer/shader.rs b/src/renderer/shader.rs
index a1f3dc5..0b4a679 100644
--- a/src/renderer/shader.rs
+++ b/src/renderer/shader.rs
@@ -71,7 +71,9 @@ impl Shader for PathTracingShader {
             return AttenuatedColor::default();
         }
 
-        let total_ray_length = rec.ray_length + accumulated_ray_length;
+        // The hit's ray length is in units of the ray direction, which is not always a unit vector
+        let total_ray_length =
+            rec.ray_length * ray.direction.length() + accumulated_ray_length;
         let ray_scatter = rec.material.scatter(ray, rec, &renderer.lights);
 
         match ray_scatter {
-- 
2.43.0


From dd2ea77c4a23bbd1b33a22aeaef8b8cfb2e48fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 07/15] fix: images of a single row or column show the view

---
 src/renderer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 6f8cf82..dae8cc3 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -260,8 +260,8 @@ impl Renderer {
 
                         let yi = ((image_height - 1) - y) * image_width;
                         for x in 0..image_width {
-                            let u = (x as f64 + random_normal_float()) / (image_width - 1) as f64;
-                            let v = (y as f64 + random_normal_float()) / (image_height - 1) as f64;
+                            let u = (x as f64 + random_normal_float()) / (image_width - 1).max(1) as f64;
+                            let v = (y as f64 + random_normal_float()) / (image_height - 1).max(1) as f64;
                             let ray = camera.get_ray(Uv::new(u as f32, v as f32));
                             let ray_color_res = self.ray_color(&ray, 0, 0.);
 
-- 
2.43.0


From 26c9b436b9ec2b65783860e39d52668454fee194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 08/15] fix: guides for the denoiser are collected when it is
 used

---
 src/renderer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index dae8cc3..c2cbd33 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -218,7 +218,7 @@ impl Renderer {
         let pixel_count = image_width * image_height;
         let samples_per_pixel = self.scene.render_config.samples_per_pixel;
         let needs_albedo_and_normal_colors =
-            !self.scene.render_config.needs_albedo_and_normal_colors();
+            self.scene.render_config.needs_albedo_and_normal_colors();
 
         let pixel_colors: Arc<Mutex<Vec<Vec3>>> =
             Arc::new(Mutex::new(vec![ZERO_VECTOR; pixel_count]));
-- 
2.43.0


From a1b4858f0ca3e97d385bfcf1ad2bdbc8187ac8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 09/15] fix: the denoiser gets normals as they are, not encoded
 as colors

---
 src/post/oidn.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/post/oidn.rs b/src/post/oidn.rs
index 8dea516..3fb9467 100644
--- a/src/post/oidn.rs
+++ b/src/post/oidn.rs
@@ -27,13 +27,13 @@ impl PostProcessor for OidnPostProcessor {
     ) -> Result<image::RgbImage, Box<dyn Error>> {
         let pixel_rgb = to_rgb_vec(pixel_colors, num_samples);
         let albedo_rgb = to_rgb_vec(albedo_colors, num_samples);
-        let normal_rgb = to_rgb_vec(normal_colors, num_samples);
+        let normals = to_normal_vec(normal_colors, num_samples);
         let mut output = vec![0.0f32; pixel_rgb.len()];
 
         let device = oidn::Device::new();
         oidn::RayTracing::new(&device)
             .image_dimensions(width as usize, height as usize)
-            .albedo_normal(&albedo_rgb, &normal_rgb)
+            .albedo_normal(&albedo_rgb, &normals)
             .srgb(true)
             .hdr(false)
             .clean_aux(true)
@@ -136,3 +136,15 @@ fn to_rgb_vec(vec: &[Vec3], num_samples: u32) -> Vec<f32> {
         })
         .collect()
 }
+
+/// Normals are not colors, their negative components are kept
+#[cfg(feature = "oidn-postprocessor")]
+fn to_normal_vec(vec: &[Vec3], num_samples: u32) -> Vec<f32> {
+    let scale = 1. / num_samples as f64;
+    vec.iter()
+        .flat_map(|v| {
+            let n = *v * scale;
+            [n.x as f32, n.y as f32, n.z as f32]
+        })
+        .collect()
+}
-- 
2.43.0


From 9d01287298c8636708cd97cf94f0f0d3f08b8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 10/15] fix: models can have more than 127 materials

---
 src/loader/obj.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 59b4ef5..3674abf 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -54,7 +54,7 @@ impl Loader for Obj {
         let materials =
             materials.map_err(|_| format!("failed to load MTL file for {}", &filepath))?;
 
-        let mut mat_map = HashMap::from([(-1, default_material.clone())]);
+        let mut mat_map = HashMap::from([(None, default_material.clone())]);
         for (i, m) in materials.iter().enumerate() {
             let albedo_texture = match &m.diffuse_texture {
                 None => match m.diffuse {
@@ -72,7 +72,7 @@ impl Loader for Obj {
                     Some(texture::load_normal_texture(&bump_texture_path)?)
                 }
             };
-            mat_map.insert(i as i8, Lambertian::new(albedo_texture, normal_texture));
+            mat_map.insert(Some(i), Lambertian::new(albedo_texture, normal_texture));
         }
 
         let mut triangles = Vec::new();
@@ -110,11 +110,7 @@ impl Loader for Obj {
                     )
                 };
 
-                let material_id = match mesh.material_id {
-                    None => -1,
-                    Some(id) => id as i8,
-                };
-                let material = match mat_map.get(&material_id) {
+                let material = match mat_map.get(&mesh.material_id) {
                     None => default_material.to_owned(),
                     Some(m) => m.to_owned(),
                 };
-- 
2.43.0


From b9e44cf52d30dd9d2e82e0db1622e055b90cd084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 11/15] fix: a material library that fails to load is an error
 even if others load

---
 src/loader/obj.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 3674abf..08440f0 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -2,11 +2,15 @@
 //! all triangles. It also read materials from the referred .mat file.
 //! Support for colored and textured lambertian materials.
 //! Applies supplied default material if none in model
+use std::cell::Cell;
 use std::collections::HashMap;
 use std::error::Error;
+use std::fs::File;
+use std::io::BufReader;
+use std::path::Path;
 
 use simple_error::SimpleError;
-use tobj::LoadOptions;
+use tobj::{LoadError, LoadOptions};
 
 use crate::geo::transformation::Transformer;
 use crate::geo::Uv;
@@ -48,11 +52,25 @@ impl Loader for Obj {
         };
 
         let filepath = format!("{}{}", self.path, self.filename);
-        let (models, materials) = tobj::load_obj(&filepath, &load_options).map_err(|_| {
-            SimpleError::new(format!("failed to load obj model from {}", &filepath))
-        })?;
-        let materials =
-            materials.map_err(|_| format!("failed to load MTL file for {}", &filepath))?;
+        let directory = Path::new(&filepath).parent().unwrap_or(Path::new(""));
+        // tobj only reports a failed material library if no other library has any materials
+        let mtl_failed = Cell::new(false);
+        let (models, materials) = File::open(&filepath)
+            .map_err(|_| LoadError::OpenFileFailed)
+            .and_then(|file| {
+                tobj::load_obj_buf(&mut BufReader::new(file), &load_options, |mtl_path| {
+                    let materials = tobj::load_mtl(directory.join(mtl_path));
+                    mtl_failed.set(mtl_failed.get() || materials.is_err());
+                    materials
+                })
+            })
+            .map_err(|_| {
+                SimpleError::new(format!("failed to load obj model from {}", &filepath))
+            })?;
+        let materials = materials
+            .ok()
+            .filter(|_| !mtl_failed.get())
+            .ok_or_else(|| format!("failed to load MTL file for {}", &filepath))?;
 
         let mut mat_map = HashMap::from([(None, default_material.clone())]);
         for (i, m) in materials.iter().enumerate() {
-- 
2.43.0


From a596fd95184cbaa75f793e5896a069d3fba2b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 12/15] fix: texture files without pixels are refused

---
 src/material/texture.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 0218aac..9d8870a 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -64,6 +64,9 @@ fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
             SimpleError::new(format!("Failed to decode bump texture {}: {}", path, err))
         })?
         .into_rgb8();
+    if image.is_empty() {
+        return Err(SimpleError::new(format!("Failed to decode bump texture {}: No pixels", path)).into());
+    }
 
     let mut num_normal = 0;
     let mut num_height = 0;
@@ -149,6 +152,9 @@ impl ImageMap {
                 SimpleError::new(format!("Failed to decode image texture {}: {}", path, err))
             })?
             .into_rgb8();
+        if image.is_empty() {
+            return Err(SimpleError::new(format!("Failed to decode image texture {}: No pixels", path)).into());
+        }
 
         Ok(Self::new(Arc::new(image)))
     }
-- 
2.43.0


From 04d6455e33dda57d4bed29073a7bfc7da082d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:59 +0000
Subject: [PATCH 13/15] fix: distance between parallel lines whose directions
 are scaled

---
 src/geo/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index c389026..87f6489 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -2,7 +2,7 @@
 use std::ops::{Add, Sub};
 use derive_more::Constructor;
 
-use crate::geo::vec3::Vec3;
+use crate::geo::vec3::{Vec3, ALMOST_ZERO};
 use crate::util::interval::{combine_intervals, Interval, EMPTY_INTERVAL};
 
 pub mod transformation;
@@ -299,8 +299,8 @@ impl Ray {
         let n = self.direction.cross(ray.direction);
         let od = self.origin - ray.origin;
 
-        // In case the lines are parallel
-        if n.length() == 0. {
+        // In case the lines are parallel, rounding leaves a cross product that is tiny, not zero
+        if n.length() <= ALMOST_ZERO * self.direction.length() * ray.direction.length() {
             self.direction.cross(od).length() / self.direction.length()
         } else {
             od.dot(n) / n.length()
-- 
2.43.0


From 378da356e4450e6a61b52f4f3ab36fab3c4f2001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:15 +0000
Subject: [PATCH 14/15] fix: lights flush with a matte surface do not brighten
 it

---
 src/material/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/material/mod.rs b/src/material/mod.rs
index be833ab..536c985 100644
--- a/src/material/mod.rs
+++ b/src/material/mod.rs
@@ -6,7 +6,7 @@ use enum_dispatch::enum_dispatch;
 
 use crate::geo::{Onb, Ray};
 use crate::geo::Uv;
-use crate::geo::vec3::{ONE_VECTOR, random_in_unit_sphere, Vec3, ZERO_VECTOR};
+use crate::geo::vec3::{ALMOST_ZERO, ONE_VECTOR, random_in_unit_sphere, Vec3, ZERO_VECTOR};
 use crate::hittable::Hittables;
 use crate::material::Materials::{BlendType, DielectricType, DiffuseLightType, IsotropicType, LambertianType, MetalType};
 use crate::material::texture::{SolidColor, Texture};
@@ -178,7 +178,9 @@ impl Lambertian {
 
     fn scattering_pdf_value(normal: Vec3, scatter_direction: Vec3) -> f64 {
         let cos_theta = normal.dot(scatter_direction);
-        if cos_theta < 0. {
+        // Directions towards lights in the plane of the surface are
+        // only above the surface because of rounding
+        if cos_theta < ALMOST_ZERO {
             0.
         } else {
             cos_theta / PI
-- 
2.43.0


From 67eb3ee0425caa85183e8d77e055d6d26061059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 15/15] fix: line elements of obj files were loaded as
 triangles

---
 src/loader/obj.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 08440f0..548eeec 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -5,8 +5,7 @@
 use std::cell::Cell;
 use std::collections::HashMap;
 use std::error::Error;
-use std::fs::File;
-use std::io::BufReader;
+use std::fs;
 use std::path::Path;
 
 use simple_error::SimpleError;
@@ -55,10 +54,11 @@ impl Loader for Obj {
         let directory = Path::new(&filepath).parent().unwrap_or(Path::new(""));
         // tobj only reports a failed material library if no other library has any materials
         let mtl_failed = Cell::new(false);
-        let (models, materials) = File::open(&filepath)
+        let (models, materials) = fs::read(&filepath)
             .map_err(|_| LoadError::OpenFileFailed)
-            .and_then(|file| {
-                tobj::load_obj_buf(&mut BufReader::new(file), &load_options, |mtl_path| {
+            .and_then(|obj| {
+                let obj = without_lines(&obj);
+                tobj::load_obj_buf(&mut obj.as_slice(), &load_options, |mtl_path| {
                     let materials = tobj::load_mtl(directory.join(mtl_path));
                     mtl_failed.set(mtl_failed.get() || materials.is_err());
                     materials
@@ -150,6 +150,18 @@ impl Loader for Obj {
     }
 }
 
+/// Leaves out the line elements of an obj file, as tobj turns them into faces
+fn without_lines(obj: &[u8]) -> Vec<u8> {
+    obj.split_inclusive(|b| *b == b'\n')
+        .filter(|statement| {
+            let mut words = statement.split(u8::is_ascii_whitespace);
+            words.find(|word| !word.is_empty()) != Some(b"l")
+        })
+        .flatten()
+        .copied()
+        .collect()
+}
+
 fn vec3_from_mesh_vec(positions: &[f32], offset: usize) -> Vec3 {
     Vec3::new(
         positions[offset] as f64,
-- 
2.43.0

