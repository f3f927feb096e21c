//! Stand-in for the parts of bevy_core 0.9 that subsweep uses.
use bevy_app::{App, Plugin};
pub mod prelude {
    pub use crate::{CorePlugin, TaskPoolOptions};
}
#[derive(Default, Clone)]
pub struct TaskPoolOptions {
    pub num_threads: Option<usize>,
}
impl TaskPoolOptions {
    pub fn with_num_threads(n: usize) -> Self {
        TaskPoolOptions {
            num_threads: Some(n),
        }
    }
}
#[derive(Default)]
pub struct CorePlugin {
    pub task_pool_options: TaskPoolOptions,
}
impl Plugin for CorePlugin {
    fn build(&self, _app: &mut App) {}
}
