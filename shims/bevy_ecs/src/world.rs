use std::any::{Any, TypeId};
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::ops::{Deref, DerefMut};

use crate::archetype::{Archetype, Archetypes};
use crate::bundle::Bundle;
use crate::component::{Component, ComponentInfo, Components};
use crate::entity::Entity;
use crate::system::Resource;

pub struct Mut<'a, T: ?Sized>(pub(crate) &'a mut T);
impl<'a, T: ?Sized> Deref for Mut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<'a, T: ?Sized> DerefMut for Mut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}
impl<'a, T: ?Sized> Mut<'a, T> {
    pub fn into_inner(self) -> &'a mut T {
        self.0
    }
}
impl<'a, T: std::fmt::Debug + ?Sized> std::fmt::Debug for Mut<'a, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

pub struct Column<T>(pub Vec<Option<UnsafeCell<T>>>);
pub(crate) trait AnyColumn: Any {
    fn clear(&mut self, i: usize);
    fn has(&self, i: usize) -> bool;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
}
impl<T: 'static> AnyColumn for Column<T> {
    fn clear(&mut self, i: usize) {
        if i < self.0.len() {
            self.0[i] = None;
        }
    }
    fn has(&self, i: usize) -> bool {
        self.0.get(i).map(|x| x.is_some()).unwrap_or(false)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        self
    }
}

#[derive(Default)]
pub struct World {
    pub(crate) alive: Vec<bool>,
    pub(crate) columns: HashMap<TypeId, Box<dyn AnyColumn>>,
    pub(crate) resources: HashMap<TypeId, UnsafeCell<Box<dyn Any>>>,
    resource_order: Vec<TypeId>,
    pub(crate) components: Components,
    pub(crate) archetypes: Archetypes,
    archetypes_dirty: bool,
}

pub struct EntityMut<'w> {
    world: &'w mut World,
    e: Entity,
}
impl<'w> EntityMut<'w> {
    pub fn id(&self) -> Entity {
        self.e
    }
    pub fn insert<B: Bundle>(&mut self, b: B) -> &mut Self {
        b.insert_into(self.world, self.e);
        self
    }
    pub fn remove<B: Bundle>(&mut self) -> &mut Self {
        B::remove_from(self.world, self.e);
        self
    }
    pub fn get<C: Component>(&self) -> Option<&C> {
        self.world.get::<C>(self.e)
    }
    pub fn despawn(self) {
        self.world.despawn(self.e);
    }
}

impl World {
    pub fn new() -> Self {
        Self::default()
    }
    pub(crate) fn alloc(&mut self) -> Entity {
        self.alive.push(true);
        Entity::from_raw(self.alive.len() as u32 - 1)
    }
    pub fn spawn<B: Bundle>(&mut self, b: B) -> EntityMut<'_> {
        let e = self.alloc();
        b.insert_into(self, e);
        EntityMut { world: self, e }
    }
    pub fn spawn_empty(&mut self) -> EntityMut<'_> {
        self.spawn(())
    }
    pub fn entity_mut(&mut self, e: Entity) -> EntityMut<'_> {
        assert!(self.is_alive(e), "Entity {e:?} does not exist");
        EntityMut { world: self, e }
    }
    pub(crate) fn is_alive(&self, e: Entity) -> bool {
        e.generation == 0 && self.alive.get(e.index as usize).copied().unwrap_or(false)
    }
    pub fn despawn(&mut self, e: Entity) -> bool {
        if !self.is_alive(e) {
            return false;
        }
        for c in self.columns.values_mut() {
            c.clear(e.index as usize);
        }
        self.alive[e.index as usize] = false;
        self.archetypes_dirty = true;
        true
    }
    pub(crate) fn insert_component<C: Component>(&mut self, e: Entity, c: C) {
        assert!(self.is_alive(e), "Inserting into an entity that does not exist: {e:?}");
        self.archetypes_dirty = true;
        self.components
            .infos
            .entry(TypeId::of::<C>())
            .or_insert(ComponentInfo {
                name: std::any::type_name::<C>(),
            });
        let col = self
            .columns
            .entry(TypeId::of::<C>())
            .or_insert_with(|| Box::new(Column::<C>(vec![])))
            .any_mut()
            .downcast_mut::<Column<C>>()
            .unwrap();
        let i = e.index as usize;
        while col.0.len() <= i {
            col.0.push(None);
        }
        col.0[i] = Some(UnsafeCell::new(c));
    }
    pub(crate) fn remove_component<C: Component>(&mut self, e: Entity) {
        self.archetypes_dirty = true;
        if let Some(col) = self.columns.get_mut(&TypeId::of::<C>()) {
            col.clear(e.index as usize);
        }
    }
    pub(crate) fn column<C: Component>(&self) -> Option<&Column<C>> {
        self.columns
            .get(&TypeId::of::<C>())
            .map(|c| c.any().downcast_ref::<Column<C>>().unwrap())
    }
    pub fn get<C: Component>(&self, e: Entity) -> Option<&C> {
        let cell = self.column::<C>()?.0.get(e.index as usize)?.as_ref()?;
        Some(unsafe { &*cell.get() })
    }
    pub fn get_mut<C: Component>(&mut self, e: Entity) -> Option<Mut<'_, C>> {
        let cell = self.column::<C>()?.0.get(e.index as usize)?.as_ref()?;
        Some(Mut(unsafe { &mut *cell.get() }))
    }
    pub(crate) unsafe fn raw_resource<R: 'static>(&self) -> Option<*mut R> {
        let cell = self.resources.get(&TypeId::of::<R>())?;
        let b: &mut Box<dyn Any> = &mut *cell.get();
        Some(b.downcast_mut::<R>().unwrap() as *mut R)
    }
    pub fn insert_resource<R: Resource>(&mut self, r: R) {
        self.insert_non_send_resource(r)
    }
    pub fn insert_non_send_resource<R: 'static>(&mut self, r: R) {
        let id = TypeId::of::<R>();
        if self
            .resources
            .insert(id, UnsafeCell::new(Box::new(r)))
            .is_none()
        {
            self.resource_order.push(id);
        }
    }
    pub fn init_resource<R: Resource + Default>(&mut self) {
        if self.get_resource::<R>().is_none() {
            self.insert_resource(R::default())
        }
    }
    pub fn remove_resource<R: Resource>(&mut self) -> Option<R> {
        let id = TypeId::of::<R>();
        self.resource_order.retain(|x| *x != id);
        let b = self.resources.remove(&id)?.into_inner();
        Some(*b.downcast::<R>().unwrap())
    }
    pub fn contains_resource<R: Resource>(&self) -> bool {
        self.get_resource::<R>().is_some()
    }
    pub fn get_resource<R: Resource>(&self) -> Option<&R> {
        unsafe { self.raw_resource::<R>().map(|p| &*p) }
    }
    pub fn resource<R: Resource>(&self) -> &R {
        self.get_resource().unwrap()
    }
    pub fn get_resource_mut<R: Resource>(&mut self) -> Option<Mut<'_, R>> {
        unsafe { self.raw_resource::<R>().map(|p| Mut(&mut *p)) }
    }
    pub fn resource_mut<R: Resource>(&mut self) -> Mut<'_, R> {
        self.get_resource_mut().unwrap()
    }
    pub fn get_non_send_resource<R: 'static>(&self) -> Option<&R> {
        unsafe { self.raw_resource::<R>().map(|p| &*p) }
    }
    pub fn non_send_resource<R: 'static>(&self) -> &R {
        self.get_non_send_resource().unwrap()
    }
    pub fn get_non_send_resource_mut<R: 'static>(&mut self) -> Option<Mut<'_, R>> {
        unsafe { self.raw_resource::<R>().map(|p| Mut(&mut *p)) }
    }
    pub fn non_send_resource_mut<R: 'static>(&mut self) -> Mut<'_, R> {
        self.get_non_send_resource_mut().unwrap()
    }
    pub fn get_resource_or_insert_with<R: Resource>(&mut self, f: impl FnOnce() -> R) -> Mut<'_, R> {
        if self.get_resource::<R>().is_none() {
            self.insert_resource(f());
        }
        self.resource_mut()
    }
    pub(crate) fn refresh_archetypes(&mut self) {
        if !self.archetypes_dirty {
            return;
        }
        self.archetypes_dirty = false;
        let mut ids: Vec<TypeId> = self.columns.keys().copied().collect();
        ids.sort();
        let mut map: HashMap<Vec<TypeId>, usize> = HashMap::new();
        for i in 0..self.alive.len() {
            if self.alive[i] {
                let sig: Vec<TypeId> = ids
                    .iter()
                    .copied()
                    .filter(|id| self.columns[id].has(i))
                    .collect();
                *map.entry(sig).or_insert(0) += 1;
            }
        }
        self.archetypes.list = map
            .into_iter()
            .map(|(components, len)| Archetype { components, len })
            .collect();
    }
}

impl Drop for World {
    fn drop(&mut self) {
        // Deterministic drop order: reverse order of first insertion.
        while let Some(id) = self.resource_order.pop() {
            self.resources.remove(&id);
        }
    }
}
