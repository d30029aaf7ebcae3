use bitarray::BitArray;
use image::DynamicImage;
pub use real::KeyPoint;

/// What a simulated frame shows, best first.
pub struct Seen(pub Vec<(KeyPoint, BitArray<64>)>);

#[derive(Clone, Copy, Debug)]
pub struct Akaze {
    pub maximum_features: usize,
    pub detector_threshold: f64,
}
impl Akaze {
    pub fn new(threshold: f64) -> Self {
        Akaze { maximum_features: usize::MAX, detector_threshold: threshold }
    }
    pub fn sparse() -> Self {
        Self::new(0.01)
    }
    pub fn dense() -> Self {
        Self::new(0.0001)
    }
    pub fn extract(&self, image: &DynamicImage) -> (Vec<KeyPoint>, Vec<BitArray<64>>) {
        if let DynamicImage::Simulated(_, scene) = image {
            if let Some(Seen(f)) = scene.0.downcast_ref::<Seen>() {
                return f.iter().take(self.maximum_features).cloned().unzip();
            }
        }
        real::Akaze { maximum_features: self.maximum_features, ..real::Akaze::new(self.detector_threshold) }
            .extract(image)
    }
}
