pub use bevy_asset as asset;
pub use bevy_math as math;
pub use bevy_mesh as mesh;
pub use bevy_transform as transform;
pub mod prelude {
    pub use bevy_asset::prelude::*;
    pub use bevy_math::prelude::*;
    pub use bevy_mesh::{prelude::*, Mesh};
    pub use bevy_transform::prelude::*;
}
