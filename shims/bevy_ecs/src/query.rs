use std::marker::PhantomData;

use crate::component::Component;
use crate::entity::Entity;
use crate::system::SystemParam;
use crate::world::{Column, Mut, World};

pub trait WorldQuery {
    type Item<'w>;
    type ReadOnly: WorldQuery;
    type Fetch<'w>;
    unsafe fn fetch<'w>(world: *const World) -> Self::Fetch<'w>;
    fn matches(f: &Self::Fetch<'_>, i: usize) -> bool;
    unsafe fn item<'w>(f: &Self::Fetch<'w>, i: usize) -> Self::Item<'w>;
}

unsafe fn col<'w, T: Component>(world: *const World) -> Option<&'w Column<T>> {
    (*world).column::<T>()
}
fn has<T>(c: &Option<&Column<T>>, i: usize) -> bool {
    c.map(|c| i < c.0.len() && c.0[i].is_some()).unwrap_or(false)
}

impl<T: Component> WorldQuery for &T {
    type Item<'w> = &'w T;
    type ReadOnly = Self;
    type Fetch<'w> = Option<&'w Column<T>>;
    unsafe fn fetch<'w>(world: *const World) -> Self::Fetch<'w> {
        col::<T>(world)
    }
    fn matches(f: &Self::Fetch<'_>, i: usize) -> bool {
        has(f, i)
    }
    unsafe fn item<'w>(f: &Self::Fetch<'w>, i: usize) -> Self::Item<'w> {
        &*f.unwrap().0[i].as_ref().unwrap().get()
    }
}
impl<'a, T: Component> WorldQuery for &'a mut T {
    type Item<'w> = Mut<'w, T>;
    type ReadOnly = &'a T;
    type Fetch<'w> = Option<&'w Column<T>>;
    unsafe fn fetch<'w>(world: *const World) -> Self::Fetch<'w> {
        col::<T>(world)
    }
    fn matches(f: &Self::Fetch<'_>, i: usize) -> bool {
        has(f, i)
    }
    unsafe fn item<'w>(f: &Self::Fetch<'w>, i: usize) -> Self::Item<'w> {
        Mut(&mut *f.unwrap().0[i].as_ref().unwrap().get())
    }
}
impl<Q: WorldQuery> WorldQuery for Option<Q> {
    type Item<'w> = Option<Q::Item<'w>>;
    type ReadOnly = Option<Q::ReadOnly>;
    type Fetch<'w> = Q::Fetch<'w>;
    unsafe fn fetch<'w>(world: *const World) -> Self::Fetch<'w> {
        Q::fetch(world)
    }
    fn matches(_: &Self::Fetch<'_>, _: usize) -> bool {
        true
    }
    unsafe fn item<'w>(f: &Self::Fetch<'w>, i: usize) -> Self::Item<'w> {
        Q::matches(f, i).then(|| Q::item(f, i))
    }
}
impl WorldQuery for Entity {
    type Item<'w> = Entity;
    type ReadOnly = Entity;
    type Fetch<'w> = ();
    unsafe fn fetch<'w>(_: *const World) -> Self::Fetch<'w> {}
    fn matches(_: &(), _: usize) -> bool {
        true
    }
    unsafe fn item<'w>(_: &Self::Fetch<'w>, i: usize) -> Self::Item<'w> {
        Entity::from_raw(i as u32)
    }
}
pub struct With<T>(PhantomData<T>);
impl<T: Component> WorldQuery for With<T> {
    type Item<'w> = ();
    type ReadOnly = Self;
    type Fetch<'w> = Option<&'w Column<T>>;
    unsafe fn fetch<'w>(world: *const World) -> Self::Fetch<'w> {
        col::<T>(world)
    }
    fn matches(f: &Self::Fetch<'_>, i: usize) -> bool {
        has(f, i)
    }
    unsafe fn item<'w>(_: &Self::Fetch<'w>, _: usize) -> Self::Item<'w> {}
}
pub struct Without<T>(PhantomData<T>);
impl<T: Component> WorldQuery for Without<T> {
    type Item<'w> = ();
    type ReadOnly = Self;
    type Fetch<'w> = Option<&'w Column<T>>;
    unsafe fn fetch<'w>(world: *const World) -> Self::Fetch<'w> {
        col::<T>(world)
    }
    fn matches(f: &Self::Fetch<'_>, i: usize) -> bool {
        !has(f, i)
    }
    unsafe fn item<'w>(_: &Self::Fetch<'w>, _: usize) -> Self::Item<'w> {}
}
macro_rules! tup {
    ($($t:ident),*) => {
        #[allow(non_snake_case, unused_variables, clippy::unused_unit)]
        impl<$($t: WorldQuery),*> WorldQuery for ($($t,)*) {
            type Item<'w> = ($($t::Item<'w>,)*);
            type ReadOnly = ($($t::ReadOnly,)*);
            type Fetch<'w> = ($($t::Fetch<'w>,)*);
            unsafe fn fetch<'w>(world: *const World) -> Self::Fetch<'w> {
                ($($t::fetch(world),)*)
            }
            fn matches(f: &Self::Fetch<'_>, i: usize) -> bool {
                let ($($t,)*) = f;
                true $(&& $t::matches($t, i))*
            }
            unsafe fn item<'w>(f: &Self::Fetch<'w>, i: usize) -> Self::Item<'w> {
                let ($($t,)*) = f;
                ($($t::item($t, i),)*)
            }
        }
    };
}
tup!();
tup!(A);
tup!(A, B);
tup!(A, B, C);
tup!(A, B, C, D);
tup!(A, B, C, D, E);
tup!(A, B, C, D, E, F);
tup!(A, B, C, D, E, F, G);
tup!(A, B, C, D, E, F, G, H);
tup!(A, B, C, D, E, F, G, H, I);
tup!(A, B, C, D, E, F, G, H, I, J);

pub struct Query<'w, 's, Q: WorldQuery, F: WorldQuery = ()> {
    world: *mut World,
    _m: PhantomData<(&'w mut World, &'s mut (), fn() -> (Q, F))>,
}

#[derive(Debug)]
pub enum QueryEntityError {
    NoSuchEntity(Entity),
    QueryDoesNotMatch(Entity),
}

pub struct QueryIter<'w, Q: WorldQuery, F: WorldQuery> {
    world: *mut World,
    q: Q::Fetch<'w>,
    f: F::Fetch<'w>,
    i: usize,
}
impl<'w, Q: WorldQuery, F: WorldQuery> QueryIter<'w, Q, F> {
    unsafe fn new(world: *mut World) -> Self {
        QueryIter {
            world,
            q: Q::fetch(world),
            f: F::fetch(world),
            i: 0,
        }
    }
}
impl<'w, Q: WorldQuery, F: WorldQuery> Iterator for QueryIter<'w, Q, F> {
    type Item = Q::Item<'w>;
    fn next(&mut self) -> Option<Self::Item> {
        let alive = unsafe { &(*self.world).alive };
        while self.i < alive.len() {
            let i = self.i;
            self.i += 1;
            if alive[i] && Q::matches(&self.q, i) && F::matches(&self.f, i) {
                return Some(unsafe { Q::item(&self.q, i) });
            }
        }
        None
    }
}

impl<'w, 's, Q: WorldQuery, F: WorldQuery> Query<'w, 's, Q, F> {
    pub fn iter(&self) -> QueryIter<'_, Q::ReadOnly, F> {
        unsafe { QueryIter::new(self.world) }
    }
    pub fn iter_mut(&mut self) -> QueryIter<'_, Q, F> {
        unsafe { QueryIter::new(self.world) }
    }
    pub fn is_empty(&self) -> bool {
        self.iter().next().is_none()
    }
    pub fn get(&self, e: Entity) -> Result<<Q::ReadOnly as WorldQuery>::Item<'_>, QueryEntityError> {
        unsafe { get::<Q::ReadOnly, F>(self.world, e) }
    }
    pub fn get_mut(&mut self, e: Entity) -> Result<Q::Item<'_>, QueryEntityError> {
        unsafe { get::<Q, F>(self.world, e) }
    }
    pub fn single(&self) -> <Q::ReadOnly as WorldQuery>::Item<'_> {
        let mut it = self.iter();
        let x = it.next().expect("single: no entity");
        assert!(it.next().is_none(), "single: more than one entity");
        x
    }
    pub fn for_each(&self, f: impl FnMut(<Q::ReadOnly as WorldQuery>::Item<'_>)) {
        self.iter().for_each(f)
    }
}
unsafe fn get<'a, Q: WorldQuery, F: WorldQuery>(
    world: *mut World,
    e: Entity,
) -> Result<Q::Item<'a>, QueryEntityError> {
    if !(*world).is_alive(e) {
        return Err(QueryEntityError::NoSuchEntity(e));
    }
    let q = Q::fetch(world);
    let f = F::fetch(world);
    let i = e.index as usize;
    if Q::matches(&q, i) && F::matches(&f, i) {
        Ok(Q::item(&q, i))
    } else {
        Err(QueryEntityError::QueryDoesNotMatch(e))
    }
}

impl<'a, 'w, 's, Q: WorldQuery, F: WorldQuery> IntoIterator for &'a Query<'w, 's, Q, F> {
    type Item = <Q::ReadOnly as WorldQuery>::Item<'a>;
    type IntoIter = QueryIter<'a, Q::ReadOnly, F>;
    fn into_iter(self) -> Self::IntoIter {
        unsafe { QueryIter::new(self.world) }
    }
}

impl<'w, 's, Q: WorldQuery + 'static, F: WorldQuery + 'static> SystemParam for Query<'w, 's, Q, F> {
    type State = ();
    type Item<'w2, 's2> = Query<'w2, 's2, Q, F>;
    fn init(_: &mut World) {}
    unsafe fn get<'w2, 's2>(_: &'s2 mut (), world: *mut World) -> Query<'w2, 's2, Q, F> {
        Query {
            world,
            _m: PhantomData,
        }
    }
}
