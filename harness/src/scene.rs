//! Renderers for single rays and whole images.
use crate::geo::*;
use crate::spec::*;
use image::RgbImage;
use solstrale::camera::CameraConfig;
use solstrale::hittable::{Bvh, Hittable, Hittables};
use solstrale::post::PostProcessors;
use solstrale::renderer::shader::{PathTracingShader, Shader, Shaders};
use solstrale::renderer::{RenderConfig, RenderImageStrategy, RenderProgress, Renderer, Scene};
use solstrale::util::interval::RAY_INTERVAL;
use std::sync::mpsc::channel;

/// a scene in which single rays can be shaded
pub struct Lab {
    pub world: Hittables,
    pub bg: V3,
    pub renderer: Renderer,
    pub shader: Shaders,
}

pub fn world_of(objs: &[Obj]) -> Hittables {
    Bvh::new(objs.iter().flat_map(|o| o.build()).collect())
}

impl Lab {
    pub fn new(world: Hittables, bg: V3, shader: Shaders) -> Result<Lab, String> {
        let scene = Scene {
            world: world.clone(),
            camera: CameraConfig { look_at: sv([0., 0., -1.]), ..CameraConfig::default() },
            background_color: sv(bg),
            render_config: RenderConfig { shader: shader.clone(), ..RenderConfig::default() },
        };
        let renderer = Renderer::new(scene).map_err(|e| format!("the scene is refused: {e}"))?;
        Ok(Lab { world, bg, renderer, shader })
    }
    pub fn tracing(world: Hittables, bg: V3, depth: u32) -> Result<Lab, String> {
        Lab::new(world, bg, PathTracingShader::new(depth))
    }
    /// what the camera sees along the ray, as the renderer adds it to the pixel
    pub fn see(&self, r: &RaySpec) -> V3 {
        let ray = r.build();
        match self.world.hit(&ray, &RAY_INTERVAL) {
            None => self.bg,
            Some(rec) => rv(self.shader.shade(&self.renderer, &rec, &ray, 0, 0.).get_attenuated_color()),
        }
    }
}

pub struct Shot {
    pub world: Hittables,
    pub camera: CameraConfig,
    pub bg: V3,
    pub shader: Shaders,
    pub w: usize,
    pub h: usize,
    pub samples: u32,
    pub post: Vec<PostProcessors>,
    pub strategy: RenderImageStrategy,
}

impl Shot {
    pub fn scene(self) -> Scene {
        Scene {
            world: self.world,
            camera: self.camera,
            background_color: sv(self.bg),
            render_config: RenderConfig {
                width: self.w,
                height: self.h,
                samples_per_pixel: self.samples,
                shader: self.shader,
                post_processors: self.post,
                render_image_strategy: self.strategy,
            },
        }
    }
    pub fn run(self) -> Result<Vec<RenderProgress>, String> {
        let (tx, rx) = channel();
        let (_keep, abort) = channel();
        solstrale::ray_trace(self.scene(), &tx, &abort).map_err(|e| e.to_string())?;
        drop(tx);
        Ok(rx.iter().collect())
    }
    /// the last image
    pub fn image(self) -> Result<RgbImage, String> {
        self.run()?.into_iter().filter_map(|p| p.render_image).next_back().ok_or_else(|| "no image".to_string())
    }
}
