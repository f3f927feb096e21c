use std::any::TypeId;
pub struct Archetype {
    pub(crate) components: Vec<TypeId>,
    pub(crate) len: usize,
}
impl Archetype {
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn components(&self) -> impl Iterator<Item = TypeId> + '_ {
        self.components.iter().copied()
    }
}
#[derive(Default)]
pub struct Archetypes {
    pub(crate) list: Vec<Archetype>,
}
impl Archetypes {
    pub fn iter(&self) -> impl Iterator<Item = &Archetype> {
        self.list.iter()
    }
}
