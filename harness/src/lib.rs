pub mod fw;
pub mod geo;
pub mod hits;
pub mod lights;
pub mod scene;
pub mod spec;
pub mod specular;
pub mod stats;
