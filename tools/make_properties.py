#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("P01", "A ray hits a surface exactly where it crosses it",
  "A ray hits a sphere, a quad, a triangle or a side of a box exactly when it crosses that surface inside the requested ray-length interval, and the hit reported is the nearest such crossing. The hit point lies on the surface and on the ray at the reported ray length, and the surface normal has length one, is perpendicular to the surface and points against the ray. The front-face flag is true exactly when the ray arrives from the outside of a sphere or box, or from the side a flat shape's winding (first edge x second edge) points to.",
  ["inputs"], "All spheres, quads, triangles and boxes that are not degenerate, placed and sized arbitrarily, against all rays (any origin, inside or outside, any direction and any direction length) and all ray-length intervals.",
  "The existing tests only compare a few rendered pictures at 95 % similarity with default intervals; the crossing conditions are quantified over all shapes, rays and intervals.",
  ["src/hittable/sphere.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs", "src/geo/mod.rs"],
  [("Sphere::hit", "src/hittable/sphere.rs"), ("Quad::hit, Quad::new_box", "src/hittable/quad.rs"), ("Triangle::hit", "src/hittable/triangle.rs")],
  observe=["Hittable::hit on Sphere/Quad/Triangle"])

p("P02", "Grouping objects in a BVH never changes what a ray hits",
  "Whatever collection of objects is grouped in a bounding volume hierarchy, in whatever order, with whatever nesting of hierarchies and with duplicates or objects sharing a centre, a ray hits the group exactly where it hits the closest of the individual objects within the ray-length interval, with that object's material and surface data. It hits nothing exactly when it hits none of the objects, and an empty group is never hit. The outcome does not depend on how many threads build the hierarchy.",
  ["inputs", "schedules", "configurations"], "All finite collections of spheres, quads, triangles, fog volumes and nested hierarchies, all orders, all rays and intervals, all sizes of the thread pool that builds it.",
  "The benchmark builds one row of triangles and the image tests a handful of scenes; neither compares with a search over all objects, nor reaches coinciding centres, deep nesting or other intervals.",
  ["src/hittable/bvh.rs", "src/geo/mod.rs", "src/hittable/mod.rs"],
  [("new_bvh and its split", "src/hittable/bvh.rs"), ("Hittable for Bvh::hit", "src/hittable/bvh.rs"), ("Aabb::hit", "src/geo/mod.rs")],
  state=[("left/right/b_box", "binary tree of boxes over the objects", "src/hittable/bvh.rs")],
  observe=["Bvh::new(list).hit(ray, interval)"])

p("P03", "Bounding boxes contain their objects and are tight",
  "The bounding box of every object, after any transformation, contains every point where a ray can hit the object, and exceeds the object's true extent on each axis by no more than a small padding given to flat axes; the box of a group is the smallest box covering its members. The ray-box test accepts every ray that passes through the inside of the box in front of its origin, and rejects every ray that misses the box or has it entirely behind. Combining, padding, shifting, expanding, clamping and measuring boxes and intervals agree with the point sets they stand for.",
  ["inputs"], "All objects, transformations, groups, boxes and intervals, and all rays including axis-parallel ones with zero or negative-zero direction components.",
  "Unit tests cover three hand-picked interval pairs and three rotated quads by picture; the containment and the box test are quantified over all shapes and rays.",
  ["src/geo/mod.rs", "src/util/interval.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs", "src/hittable/sphere.rs", "src/hittable/bvh.rs", "src/hittable/constant_medium.rs"],
  [("Aabb", "src/geo/mod.rs"), ("Interval", "src/util/interval.rs"), ("bounding_box of each hittable", "src/hittable")],
  observe=["Hittable::bounding_box", "Aabb::hit, combine, pad_if_needed, center, diagonal_length", "Interval methods"])

p("P04", "Transformations compose in order and act rigidly on objects",
  "A list of transformations applies its members in list order; rotations turn vectors around the stated global axis by the stated angle and sense, keeping lengths and angles, scaling multiplies uniformly, and translation moves positions but not directions. An object built with a transformation is the same object as one built from already transformed corner points, so that a ray moved along with the object hits it at the correspondingly moved point.",
  ["inputs"], "All vectors, angles, offsets, scales, all lists (also nested and empty) of transformations, and all quads, triangles and boxes built with them.",
  "Doc tests try one vector per transformation and one list of two; composition, sense of rotation and covariance of hits are universally quantified.",
  ["src/geo/transformation.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs"],
  [("Transformer implementations", "src/geo/transformation.rs"), ("use of the transformer in constructors", "src/hittable/quad.rs, src/hittable/triangle.rs")],
  observe=["Transformer::transform", "Quad::new, Quad::new_box, Triangle::new with a transformer"])

p("P05", "Hits carry the texture coordinates of the surface point",
  "At every hit the texture coordinate belongs to the point hit: on a triangle it is the interpolation of the three corner coordinates weighted by the point's position in the triangle, on a quad it is the fraction of the way along the two edges, and on a sphere u follows the longitude once around from 0 to 1 and v the polar angle from 0 at the bottom to 1 at the top. It is the same whichever side and direction the ray came from.",
  ["inputs"], "All triangles with any corner coordinates, quads and spheres, and all rays that hit them.",
  "One uv picture of one triangle is compared at 95 % similarity.",
  ["src/hittable/triangle.rs", "src/hittable/quad.rs", "src/hittable/sphere.rs"],
  [("barycentric interpolation", "src/hittable/triangle.rs"), ("planar coordinates", "src/hittable/quad.rs"), ("calculate_sphere_uv", "src/hittable/sphere.rs")],
  observe=["RayHit::uv"])

p("P06", "Texture lookups return the image's pixel for the coordinate",
  "An image texture maps u from 0 to 1 onto its columns left to right and v from 0 to 1 onto its rows bottom to top, proportionally, and repeats for coordinates above one; every finite coordinate yields the colour of some pixel of the image and never fails. A texture loaded from an image file has exactly the colours stored in the file, whatever the file is called; a missing or unreadable image file is reported as an error. A solid colour is the same at every coordinate.",
  ["inputs"], "All images of at least one pixel, all finite texture coordinates (also negative, huge and exactly at pixel borders), all solid colours, image files in several formats and damaged ones.",
  "Tests render a few fixed images; the lookup is quantified over all image sizes and coordinates, including borders and out-of-range ones.",
  ["src/material/texture.rs", "src/util/rgb_color.rs"],
  [("ImageMap::color, ImageMap::load", "src/material/texture.rs"), ("rgb_to_vec3", "src/util/rgb_color.rs")],
  observe=["Texture::color", "ImageMap::load"])

p("P07", "Bump maps tilt the shading normal as the map encodes",
  "A normal map pixel turns the normal of a hit into the vector it encodes: red along the direction in which the surface's texture u grows, green along v, blue along the surface normal facing the ray, independent of how large the surface is. A height map is converted to a normal map of the same size in which every pixel encodes a unit normal leaning away from rising height in proportion to the local slope, so that a flat map leaves normals unchanged. A grey image of varied levels is loaded as a height map and an image of encoded normals as a normal map.",
  ["inputs"], "All normal maps and height maps, applied to all triangles with texture coordinates, quads and spheres of any size and placement; all materials that take a normal map.",
  "Two normal-map and two height-map pictures are compared at 95 % similarity; one unit test transforms one normal.",
  ["src/material/mod.rs", "src/material/texture.rs", "src/util/height_map.rs", "src/hittable/sphere.rs", "src/hittable/triangle.rs", "src/hittable/quad.rs"],
  [("transform_normal_by_map", "src/material/mod.rs"), ("tangent and bi-tangent of each surface", "src/hittable"), ("to_normal_map", "src/util/height_map.rs"), ("load_bump_map", "src/material/texture.rs")],
  observe=["RayHit::normal of surfaces with a normal map", "height_map::to_normal_map", "load_normal_texture"])

p("P08", "Exactly the light-emitting surfaces are found as lights",
  "The lights of a scene are exactly its spheres, quads and triangles with a light-emitting material, each once, however they are nested in hierarchies and in whatever order; fog volumes are never lights. A scene with at least one light is accepted for rendering and one without any is refused with an error before any progress is reported.",
  ["inputs"], "All nestings and orders of surfaces with and without light-emitting materials, including empty groups and scenes whose whole world is a single object.",
  "One scene with and one without a light are tested; nesting and multiplicity are not.",
  ["src/hittable/bvh.rs", "src/hittable/sphere.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs", "src/hittable/constant_medium.rs", "src/renderer/mod.rs"],
  [("get_lights of each hittable", "src/hittable"), ("Renderer::new", "src/renderer/mod.rs")],
  observe=["Hittable::get_lights", "Renderer::new, Renderer::lights", "ray_trace"])

p("P09", "Light sampling and its probability density agree",
  "Seen from any point outside it, a light (sphere, quad or triangle) is sampled with directions that all point at the light, spread evenly over the area of a flat light and over the visible solid angle of a sphere. The probability density reported for a direction is the solid-angle density with which that direction is sampled: it integrates to one over all directions, is zero for directions that miss the light, and does not depend on the length of the direction vector.",
  ["inputs"], "All spheres, quads and triangles and all points outside them from which they are visible; all directions of any length.",
  "No test samples a light or evaluates its density; pictures at 95 % similarity hide even a factor of two.",
  ["src/hittable/sphere.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs"],
  [("random_direction and pdf_value", "src/hittable/sphere.rs, src/hittable/quad.rs, src/hittable/triangle.rs")],
  observe=["Hittable::random_direction", "Hittable::pdf_value"])

p("P10", "Random numbers, directions and pdfs follow their distributions",
  "Random numbers lie in their stated half-open range and are uniform there; random points in the unit sphere and unit disc are uniform and inside, random unit vectors are uniform with length one, and cosine directions have length one, lie in the upper hemisphere and have a density proportional to the cosine. A cosine pdf around any (not necessarily unit) axis, the sphere pdf and the pdf of a list of lights report exactly the density of the directions they generate, a light list being the even mixture of its members; a mix of two pdfs draws from each with equal probability and reports the average of their densities.",
  ["inputs"], "All ranges, axes, lists of lights and viewpoints; distributions over all draws.",
  "Unit tests check ranges on 100 draws and no distribution or density at all.",
  ["src/random.rs", "src/geo/vec3.rs", "src/pdf.rs", "src/geo/mod.rs"],
  [("random helpers", "src/random.rs, src/geo/vec3.rs"), ("Pdfs, mix_value, mix_generate", "src/pdf.rs"), ("Onb", "src/geo/mod.rs")],
  observe=["random::*", "vec3::random_*", "Pdf::value, Pdf::generate, mix_value, mix_generate", "Onb::new, Onb::local"])

p("P11", "Matte and fog scattering is unbiased for any set of lights",
  "A ray scattered by a matte surface starts at the hit point, carries the texture colour at the hit, and has a finite non-negative weight such that the weighted average of any function of direction equals its cosine-weighted average over the hemisphere above the shading normal, whatever lights the scene has. The same holds for fog with the plain average over all directions. Lights only change how often a direction is tried, never the expected result.",
  ["inputs", "configurations"], "All shading normals, colours, hit points and sets of one or more lights (spheres, quads, triangles) that do not enclose the hit point, anywhere around it, also below the horizon.",
  "Only rendered pictures at 95 % similarity exercise scattering; a bias of tens of percent passes them.",
  ["src/material/mod.rs", "src/pdf.rs", "src/hittable/sphere.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs"],
  [("Lambertian::scatter, Isotropic::scatter", "src/material/mod.rs"), ("mix_value, mix_generate", "src/pdf.rs")],
  observe=["Material::scatter"])

p("P12", "Metal reflects about the normal, blurred by its fuzz",
  "A ray scattered by metal starts at the hit point in the mirror direction of the incoming ray about the shading normal, displaced by a vector spread evenly in a ball whose radius is the fuzz; without fuzz it is the exact mirror direction. The outcome does not depend on the length of the incoming direction, and the colour is the texture colour at the hit.",
  ["inputs"], "All incoming directions of any length, normals, fuzz values and textures.",
  "No test has a metal surface at all.",
  ["src/material/mod.rs", "src/geo/vec3.rs"],
  [("Metal::scatter", "src/material/mod.rs"), ("Vec3::reflect", "src/geo/vec3.rs")],
  observe=["Material::scatter of Metal"])

p("P13", "Glass refracts by Snell's law and reflects by Fresnel (Schlick)",
  "A ray scattered by glass starts at the hit point and leaves either in the mirror direction or in the direction given by Snell's law for the material's index of refraction, entering when it hits the front and leaving when it hits the back; where Snell's law has no solution it always reflects. Otherwise it reflects with the probability of Schlick's approximation for the angle of incidence. Directions have length one whatever the incoming direction's length, and the colour is the texture colour at the hit.",
  ["inputs"], "All incoming directions of any length, unit normals facing them, both sides, and all positive indices of refraction.",
  "Two pictures contain a glass sphere; no test looks at directions or frequencies.",
  ["src/material/mod.rs", "src/geo/vec3.rs"],
  [("Dielectric::scatter, reflectance", "src/material/mod.rs"), ("Vec3::refract", "src/geo/vec3.rs")],
  observe=["Material::scatter of Dielectric"])

p("P14", "A blend behaves as its materials in the stated proportion",
  "A blended material scatters as its second material with probability equal to the blend factor and as its first otherwise, so factor 0 is always the first and factor 1 always the second; nested blends multiply the probabilities. The shading normal is chosen between the two materials' normals in the same proportion.",
  ["inputs"], "All pairs and nestings of materials, with and without normal maps, and all blend factors from 0 to 1.",
  "Three factors are rendered and compared at 95 % similarity.",
  ["src/material/mod.rs"], [("Blend::scatter, Blend::get_transformed_normal", "src/material/mod.rs")],
  observe=["Material::scatter of Blend", "RayHit::normal of blended surfaces"])

p("P15", "Fog absorbs along the path inside its boundary",
  "A ray is scattered by a fog volume only at points that are inside the volume's closed boundary, ahead of the ray's origin and within the requested ray-length interval. The chance of being scattered before a distance x inside the volume is 1 - exp(-density * x), where distance is true length whatever the length of the ray direction, and this holds for rays starting outside as well as inside the volume. The scattered colour is the fog's colour, not the boundary's.",
  ["inputs"], "All closed convex boundaries (spheres, boxes, transformed boxes, also inside hierarchies), densities, rays from outside and inside, direction lengths and intervals.",
  "One picture contains one thin box of fog.",
  ["src/hittable/constant_medium.rs", "src/hittable/bvh.rs", "src/geo/mod.rs", "src/material/mod.rs"],
  [("ConstantMedium::hit", "src/hittable/constant_medium.rs"), ("Bvh::hit for the boundary", "src/hittable/bvh.rs")],
  observe=["ConstantMedium::new(..).hit"])

p("P16", "The camera frames, orients and focuses as configured",
  "With no aperture every camera ray starts at the camera position; the ray for the image centre points at the look-at point, the angle between bottom-centre and top-centre rays is the vertical field of view, the horizontal extent follows from the aspect ratio of the image, and image right and up are the view's right and the configured up direction projected on the image plane. With an aperture, ray origins are spread evenly over a disc of that diameter around the position, perpendicular to the view, and all rays for the same image point meet at the same point of the plane through the look-at point perpendicular to the view.",
  ["inputs", "configurations"], "All positions, look-at points, up vectors not parallel to the view, fields of view below 180 degrees, apertures, image sizes and image points.",
  "No test looks at camera rays; only pictures from a few fixed cameras are compared.",
  ["src/camera.rs"], [("Camera::new, Camera::get_ray", "src/camera.rs")],
  observe=["Camera::get_ray"])

p("P17", "Path tracing computes the light transport of the scene",
  "The expected path-traced colour of a surface equals the physical solution: a matte surface shows its colour times the light falling on it from unoccluded lights and background (including light inter-reflected by other surfaces), a mirror or glass shows what lies in the reflected or refracted direction, fog included, a light shows its own emission on its front and black on its back, and a ray that hits nothing shows the background colour. In a scene whose surfaces are all white and whose background and lights are equally bright, everything appears at that brightness. An opaque object in front of a light removes its contribution.",
  ["inputs", "configurations"], "All scenes of spheres, quads, triangles, fog and hierarchies with matte, metal, glass and blended materials whose analytic solution is known (direct lighting by spheres and polygons, uniform background, white furnace), all light positions.",
  "Pictures at 95 % similarity against earlier output of the same program cannot tell whether the radiance is right.",
  ["src/renderer/shader.rs", "src/renderer/mod.rs", "src/material/mod.rs", "src/pdf.rs", "src/hittable"],
  [("PathTracingShader::shade", "src/renderer/shader.rs"), ("Renderer::ray_color", "src/renderer/mod.rs")],
  observe=["Shader::shade on a Renderer", "image from ray_trace"])

p("P18", "Light attenuates with the distance it has travelled",
  "Light from a source with an attenuation half length h reaches the camera multiplied by 1 / (1 + d / h), where d is the true length of the whole path from the camera over all bounces to the source, so that it is halved at d = h. This holds whatever the lengths of the direction vectors along the path and whatever materials scatter it; sources without a half length and the background are not attenuated.",
  ["inputs"], "All path lengths, numbers and kinds of bounces, half lengths and ray direction lengths.",
  "Three pictures with three half lengths are compared at 95 % similarity with earlier output of the same program.",
  ["src/renderer/shader.rs", "src/material/mod.rs", "src/renderer/mod.rs"],
  [("accumulated ray length in PathTracingShader::shade", "src/renderer/shader.rs"), ("AttenuatedColor::get_attenuated_color", "src/material/mod.rs")],
  observe=["Shader::shade followed by AttenuatedColor::get_attenuated_color"])

p("P19", "Paths end after the configured number of surface hits",
  "A path-traced ray may hit at most max-depth surfaces: a light or background reached within that number of hits contributes its full light, one that would need more contributes nothing, and a depth of zero gives black for anything hit. Tracing always ends, also in closed mirror rooms and for rays caught inside objects, after no more than max-depth scatterings.",
  ["inputs", "configurations"], "All depths and all chains of mirror, glass, matte and fog scatterings, including closed rooms.",
  "Every test uses depth 50 in open scenes.",
  ["src/renderer/shader.rs", "src/renderer/mod.rs"],
  [("depth check in PathTracingShader::shade", "src/renderer/shader.rs"), ("Renderer::ray_color depth argument", "src/renderer/mod.rs")],
  observe=["Shader::shade on a Renderer"])

p("P20", "Each pixel is the average of its own samples, whatever the threads",
  "The rendered image has the configured size with the camera's left and top at the left and top; each pixel is the average of exactly the configured number of samples taken through its own part of the view, spread evenly over it, and no sample lands in another pixel. This holds for every image size, down to a single row, column or pixel, and every sample count. For the same random numbers the image does not depend on the number of threads, on how their work interleaves, or on other renderings done before or at the same time.",
  ["inputs", "schedules", "configurations"], "All image widths and heights from one pixel up, sample counts, shaders, scenes, thread counts and interleavings of the row tasks.",
  "Tests render a few sizes (100 to 300 pixels) on whatever threads the machine offers and resize the result to 100x50 before a similarity test.",
  ["src/renderer/mod.rs", "src/camera.rs", "src/post/mod.rs"],
  [("Renderer::render row tasks, add_row_data", "src/renderer/mod.rs"), ("pixel_colors_to_rgb_image", "src/post/mod.rs")],
  state=[("pixel_colors", "sum of samples per pixel shared by the row tasks", "src/renderer/mod.rs")],
  observe=["image in RenderProgress from ray_trace"])

p("P21", "Progress is reported once per sample and images when promised",
  "A rendering that is not interrupted reports exactly one progress message per sample, in order, with progress k/n for the k-th of n samples and 1 for the last, then ends without error. An image is included with every message, only with the last, or with the last and whenever more than the configured interval has passed since the previous image, according to the chosen strategy; each image has the configured size and shows the average of the samples so far. The speed is the samples done per elapsed second and the estimated time left the remaining samples at that speed, zero at the end.",
  ["inputs", "histories", "configurations"], "All sample counts including zero, image sizes, image strategies, intervals and clocks, post processors and thread counts.",
  "Tests ignore all messages but the last image and only use the final-image strategy; two unit tests compute speed and time left for fixed clocks.",
  ["src/renderer/mod.rs"],
  [("Renderer::render message loop", "src/renderer/mod.rs"), ("RenderImageStrategy::should_generate_image", "src/renderer/mod.rs"), ("calculate_fps, calculate_estimated_time_left", "src/renderer/mod.rs")],
  observe=["RenderProgress messages from ray_trace", "RenderImageStrategy::should_generate_image"])

p("P22", "Rendering stops promptly and cleanly on abort or disconnect",
  "An abort signal sent before rendering starts prevents any progress message; one sent at any moment during rendering lets at most the sample in progress be reported, after which rendering returns without error. If the receiver of progress goes away, rendering returns an error after at most the sample in progress instead of panicking or carrying on. If the sender of abort signals goes away without sending, rendering completes as usual.",
  ["schedules", "histories", "fault_sequences"], "All moments at which the abort signal is sent or a channel end is dropped (at any random draw of any sample, in any thread), thread counts, image strategies and sample counts.",
  "No test ever sends an abort signal or drops the receiver.",
  ["src/renderer/mod.rs", "src/lib.rs"],
  [("abort.try_recv in Renderer::render", "src/renderer/mod.rs"), ("output.send error path", "src/renderer/mod.rs")],
  observe=["ray_trace result and RenderProgress messages"])

p("P23", "Colours become bytes by averaging, gamma and clamping",
  "A sum of n sample colours becomes the pixel whose channels are each the square root of the average, scaled to 0..255 and clamped: zero or below and invalid values give 0, averages of one and above give 255, and in between a brighter average never gives a darker byte. Dividing by the sample count makes the result independent of it, channels never affect each other, and bytes convert back to colours so that the squared colour converts to the same byte.",
  ["inputs"], "All colour sums (including negative, infinite and NaN channels), all sample counts and all byte values.",
  "Unit tests convert two colours and one pixel.",
  ["src/util/rgb_color.rs", "src/util/interval.rs", "src/post/mod.rs"],
  [("to_rgb_color, to_float, rgb_to_vec3", "src/util/rgb_color.rs"), ("pixel_colors_to_rgb_image", "src/post/mod.rs")],
  observe=["rgb_color::to_rgb_color, to_float, rgb_to_vec3", "PostProcessor::post_process of the no-op processor"])

p("P24", "Bloom adds the Gaussian blur of the bright pixels",
  "Bloom adds to every pixel the Gaussian blur of those pixels whose average intensity reaches the threshold (white by default), each limited to the maximum intensity, with image edges extended outwards; if no pixel is bright enough nothing changes, and darker pixels never contribute. The blur weights sum to one and are symmetric, so a uniformly bright image gains exactly its own (limited) brightness and mirroring the image mirrors the result. The result in units of the sample average does not depend on the sample count, and blur radii outside 0 to 0.5 of the image width are refused with an error.",
  ["inputs", "configurations"], "All images and sizes (also smaller than the blur), radii, thresholds, intensity limits and sample counts.",
  "One image is bloomed with one radius and defaults.",
  ["src/post/bloom.rs", "src/util/gaussian.rs"],
  [("BloomPostProcessor::intermediate_post_process", "src/post/bloom.rs"), ("create_gaussian_blur_weights", "src/util/gaussian.rs")],
  observe=["BloomPostProcessor::new", "PostProcessor::intermediate_post_process, post_process"])

p("P25", "Post processors run in order on the averaged image",
  "The image delivered is the result of applying all configured post processors in their configured order, each to the output of the one before, to the averages of the samples done so far; with no post processors, or only no-op ones, it is the plain image. Post processing an intermediate image does not change the samples collected, so later images are the same as without it.",
  ["configurations", "histories"], "All lists of post processors, image strategies, sample counts and image sizes.",
  "No test runs more than one post processor or looks at an intermediate image.",
  ["src/renderer/mod.rs", "src/post/mod.rs", "src/post/nop.rs", "src/post/bloom.rs", "src/post/oidn.rs"],
  [("post processing in Renderer::render", "src/renderer/mod.rs"), ("PostProcessor implementations", "src/post")],
  observe=["images in RenderProgress", "PostProcessor::post_process, intermediate_post_process"])

p("P26", "The denoiser gets the rendered colours and guides and its result",
  "With the denoise feature, the denoiser is given for every pixel the averaged sample colour and, as guides, the averaged surface colour and normal of what the camera sees there (background colour and no normal where it sees nothing), in image order and size, and the image delivered is what the denoiser returned. A denoiser error is returned as an error of the rendering, and using it anywhere but last is refused with an error.",
  ["inputs", "configurations", "fault_sequences"], "All scenes, image sizes, sample counts and denoiser outputs and failures (the denoiser itself replaced by a recording stand-in).",
  "The denoise feature is off by default and in the test run; the one test for it compares a picture.",
  ["src/post/oidn.rs", "src/renderer/mod.rs"],
  [("OidnPostProcessor", "src/post/oidn.rs"), ("albedo and normal buffers in Renderer::render", "src/renderer/mod.rs")],
  observe=["arguments received by the denoiser library", "image in RenderProgress"])

p("P27", "OBJ models load with all faces, coordinates and materials",
  "Loading an OBJ model yields exactly the faces of the file (convex polygons split into triangles covering them) with the transformation applied to their positions, the texture coordinates of their corners, and the material named for them: its diffuse colour or texture and its bump map. Faces without a material get the default material, white matte if none is supplied. This holds however many objects, groups, vertices, faces and materials the file has and in whichever of the OBJ index notations it is written.",
  ["inputs"], "All well-formed OBJ/MTL files: any number of objects, groups, materials, textures, face sizes and index styles; any transformation and default material.",
  "Five fixed model files are rendered and compared at 95 % similarity; none has more than a few materials or mixed index styles.",
  ["src/loader/obj.rs", "src/material/texture.rs", "src/hittable/triangle.rs", "src/hittable/bvh.rs"],
  [("Obj::load", "src/loader/obj.rs")],
  state=[("mat_map", "material id to material", "src/loader/obj.rs")],
  observe=["Loader::load of Obj, then hits and lights of the result"])

p("P28", "Unusable model files are reported as errors, never as crashes",
  "Loading an OBJ model from any files whatsoever either succeeds or returns an error that names the cause (the model, its material library, or the texture image); it never panics, hangs or silently drops a referenced material library or texture. A model that loads can be placed in a scene and hit by rays without failure, even if it contains degenerate faces.",
  ["inputs", "fault_sequences"], "All byte contents of OBJ, MTL and texture files (grammatical, mutated and damaged) and missing files at every point.",
  "Four fixed broken references are tested.",
  ["src/loader/obj.rs", "src/material/texture.rs", "src/hittable/bvh.rs"],
  [("error mapping in Obj::load", "src/loader/obj.rs"), ("ImageMap::load, load_bump_map", "src/material/texture.rs")],
  observe=["Loader::load result"])

p("P29", "Vector, ray and basis arithmetic obeys its algebra",
  "Vector operations act per component as named; dot and cross products, lengths and unit vectors satisfy the identities of Euclidean geometry, reflection about a unit normal is an involution keeping length, and refraction keeps the tangential component scaled by the index ratio. The point at distance t of a ray is its origin plus t times its direction, the shortest distance of two lines is symmetric and zero exactly when they meet, and a basis built on any non-zero vector is orthonormal with the vector's direction as its last axis, keeping lengths and angles.",
  ["inputs"], "All finite vectors, scalars, rays and axes (within ranges where arithmetic does not overflow).",
  "Doc tests evaluate one example per operation.",
  ["src/geo/vec3.rs", "src/geo/mod.rs"],
  [("Vec3 operators", "src/geo/vec3.rs"), ("Ray, Onb", "src/geo/mod.rs")],
  observe=["Vec3, Ray, Onb, Uv public operations"])

p("P30", "Flat shaders show exactly albedo, normal or simple shading",
  "The albedo shader shows the material's texture colour at the hit (a light's emission), the normal shader the shading normal, and the simple shader a light's emission unchanged and any other material's texture colour times 0.75 plus half the dot product of the shading normal with the direction (1, 1, -1). None of them depends on lights elsewhere, recursion depth, distance travelled or chance, and none is attenuated.",
  ["inputs"], "All materials, textures, normals, rays and scenes.",
  "One scene is rendered with the simple shader at 95 % similarity; the other two shaders are never run by a test.",
  ["src/renderer/shader.rs"], [("AlbedoShader, NormalShader, SimpleShader", "src/renderer/shader.rs")],
  observe=["Shader::shade", "image from ray_trace"])

p("P31", "No scene, however degenerate, yields an invalid colour or panic",
  "For every scene of finite numbers whose products neither overflow nor vanish, path tracing any ray ends without panic in a colour whose channels are finite and not negative, even with degenerate shapes (zero size, zero area, coinciding points), viewpoints inside or on objects and lights, lights seen edge-on, duplicate objects and missing texture coordinates with bump maps. One invalid sample therefore never spoils a pixel: indirect samples that are not numbers count as black and very bright ones are limited, while directly seen light is shown unlimited.",
  ["inputs"], "All finite scenes including degenerate ones, all rays with a non-zero direction.",
  "All tested scenes are well-formed and only resized pictures are compared.",
  ["src/renderer/shader.rs", "src/renderer/mod.rs", "src/hittable", "src/material/mod.rs", "src/pdf.rs"],
  [("filter_invalid_color_values", "src/renderer/shader.rs"), ("guards in hit functions", "src/hittable")],
  observe=["Shader::shade on a Renderer", "image from ray_trace"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
