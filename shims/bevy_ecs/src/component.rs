use std::any::TypeId;
use std::collections::HashMap;
pub use bevy_ecs_macros::Component;
pub trait Component: Send + Sync + 'static {}
pub struct ComponentInfo {
    pub(crate) name: &'static str,
}
impl ComponentInfo {
    pub fn name(&self) -> &str {
        self.name
    }
}
#[derive(Default)]
pub struct Components {
    pub(crate) infos: HashMap<TypeId, ComponentInfo>,
}
impl Components {
    pub fn get_info(&self, id: TypeId) -> Option<&ComponentInfo> {
        self.infos.get(&id)
    }
}
