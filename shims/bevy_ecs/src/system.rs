use std::any::TypeId;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

pub use bevy_ecs_macros::Resource;

use crate::archetype::Archetypes;
use crate::bundle::Bundle;
use crate::component::Components;
use crate::entity::Entity;
use crate::schedule::{SystemLabel, SystemLabelId};
use crate::world::World;

pub trait Resource: Send + Sync + 'static {}

pub trait SystemParam: Sized {
    type State: 'static;
    type Item<'w, 's>: SystemParam<State = Self::State>;
    fn init(world: &mut World) -> Self::State;
    /// # Safety
    /// `world` must be valid and not otherwise accessed in a conflicting way.
    unsafe fn get<'w, 's>(state: &'s mut Self::State, world: *mut World) -> Self::Item<'w, 's>;
    fn apply(_state: &mut Self::State, _world: &mut World) {}
}

macro_rules! res {
    ($name:ident, $bound:path, $ptr:ty, $conv:expr) => {
        impl<'w, T: $bound> Deref for $name<'w, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.0
            }
        }
        impl<'w, T: $bound> SystemParam for $name<'w, T> {
            type State = ();
            type Item<'w2, 's2> = $name<'w2, T>;
            fn init(_: &mut World) {}
            unsafe fn get<'w2, 's2>(_: &'s2 mut (), world: *mut World) -> Self::Item<'w2, 's2> {
                let p: *mut T = (*world).raw_resource::<T>().unwrap_or_else(|| {
                    panic!(
                        "Resource requested by a system does not exist: {}",
                        std::any::type_name::<T>()
                    )
                });
                $conv(p)
            }
        }
        impl<'w, T: $bound> SystemParam for Option<$name<'w, T>> {
            type State = ();
            type Item<'w2, 's2> = Option<$name<'w2, T>>;
            fn init(_: &mut World) {}
            unsafe fn get<'w2, 's2>(_: &'s2 mut (), world: *mut World) -> Self::Item<'w2, 's2> {
                (*world).raw_resource::<T>().map($conv)
            }
        }
    };
}
pub struct Res<'w, T: Resource>(pub(crate) &'w T);
pub struct ResMut<'w, T: Resource>(pub(crate) &'w mut T);
pub struct NonSend<'w, T: 'static>(pub(crate) &'w T);
pub struct NonSendMut<'w, T: 'static>(pub(crate) &'w mut T);
pub trait Static: 'static {}
impl<T: 'static> Static for T {}
res!(Res, Resource, &'w T, |p: *mut T| Res(&*p));
res!(ResMut, Resource, &'w mut T, |p: *mut T| ResMut(&mut *p));
res!(NonSend, Static, &'w T, |p: *mut T| NonSend(&*p));
res!(NonSendMut, Static, &'w mut T, |p: *mut T| NonSendMut(&mut *p));
impl<'w, T: Resource> DerefMut for ResMut<'w, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}
impl<'w, T: 'static> DerefMut for NonSendMut<'w, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}
impl<'w, T: Resource> Res<'w, T> {
    pub fn into_inner(self) -> &'w T {
        self.0
    }
}
impl<'w, T: Resource> ResMut<'w, T> {
    pub fn into_inner(self) -> &'w mut T {
        self.0
    }
}

pub struct Local<'s, T>(pub(crate) &'s mut T);
impl<'s, T> Deref for Local<'s, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<'s, T> DerefMut for Local<'s, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}
impl<'s, T: Default + 'static> SystemParam for Local<'s, T> {
    type State = T;
    type Item<'w2, 's2> = Local<'s2, T>;
    fn init(_: &mut World) -> T {
        T::default()
    }
    unsafe fn get<'w2, 's2>(s: &'s2 mut T, _: *mut World) -> Self::Item<'w2, 's2> {
        Local(s)
    }
}
impl<'a> SystemParam for &'a Archetypes {
    type State = ();
    type Item<'w2, 's2> = &'w2 Archetypes;
    fn init(_: &mut World) {}
    unsafe fn get<'w2, 's2>(_: &'s2 mut (), world: *mut World) -> Self::Item<'w2, 's2> {
        (*world).refresh_archetypes();
        &(*world).archetypes
    }
}
impl<'a> SystemParam for &'a Components {
    type State = ();
    type Item<'w2, 's2> = &'w2 Components;
    fn init(_: &mut World) {}
    unsafe fn get<'w2, 's2>(_: &'s2 mut (), world: *mut World) -> Self::Item<'w2, 's2> {
        &(*world).components
    }
}
impl<'a> SystemParam for &'a World {
    type State = ();
    type Item<'w2, 's2> = &'w2 World;
    fn init(_: &mut World) {}
    unsafe fn get<'w2, 's2>(_: &'s2 mut (), world: *mut World) -> Self::Item<'w2, 's2> {
        &*world
    }
}

type Cmd = Box<dyn FnOnce(&mut World)>;
#[derive(Default)]
pub struct CommandQueue(Vec<Cmd>);
impl CommandQueue {
    pub fn apply(&mut self, world: &mut World) {
        for c in std::mem::take(&mut self.0) {
            c(world)
        }
    }
}
pub struct Commands<'w, 's> {
    queue: &'s mut CommandQueue,
    world: *mut World,
    _m: PhantomData<&'w World>,
}
impl<'w, 's> SystemParam for Commands<'w, 's> {
    type State = CommandQueue;
    type Item<'w2, 's2> = Commands<'w2, 's2>;
    fn init(_: &mut World) -> CommandQueue {
        CommandQueue::default()
    }
    unsafe fn get<'w2, 's2>(s: &'s2 mut CommandQueue, world: *mut World) -> Self::Item<'w2, 's2> {
        Commands {
            queue: s,
            world,
            _m: PhantomData,
        }
    }
    fn apply(s: &mut CommandQueue, world: &mut World) {
        s.apply(world)
    }
}
impl<'w, 's> Commands<'w, 's> {
    fn reserve(&mut self) -> Entity {
        // Entity ids are reserved immediately; the entity has no components (and so matches no
        // component query) until the commands are applied.
        unsafe { (*self.world).alloc() }
    }
    pub fn spawn<'a, B: Bundle>(&'a mut self, b: B) -> EntityCommands<'w, 's, 'a> {
        let e = self.reserve();
        self.queue
            .0
            .push(Box::new(move |w: &mut World| b.insert_into(w, e)));
        EntityCommands { e, commands: self }
    }
    pub fn spawn_empty<'a>(&'a mut self) -> EntityCommands<'w, 's, 'a> {
        self.spawn(())
    }
    pub fn entity<'a>(&'a mut self, e: Entity) -> EntityCommands<'w, 's, 'a> {
        assert!(
            unsafe { (*self.world).is_alive(e) },
            "Attempting to create an EntityCommands for entity {e:?}, which doesn't exist."
        );
        EntityCommands { e, commands: self }
    }
    pub fn insert_resource<R: Resource>(&mut self, r: R) {
        self.queue
            .0
            .push(Box::new(move |w: &mut World| w.insert_resource(r)));
    }
    pub fn remove_resource<R: Resource>(&mut self) {
        self.queue.0.push(Box::new(move |w: &mut World| {
            w.remove_resource::<R>();
        }));
    }
}
pub struct EntityCommands<'w, 's, 'a> {
    e: Entity,
    commands: &'a mut Commands<'w, 's>,
}
impl<'w, 's, 'a> EntityCommands<'w, 's, 'a> {
    pub fn id(&self) -> Entity {
        self.e
    }
    pub fn insert<B: Bundle>(&mut self, b: B) -> &mut Self {
        let e = self.e;
        self.commands
            .queue
            .0
            .push(Box::new(move |w: &mut World| b.insert_into(w, e)));
        self
    }
    pub fn remove<B: Bundle>(&mut self) -> &mut Self {
        let e = self.e;
        self.commands
            .queue
            .0
            .push(Box::new(move |w: &mut World| B::remove_from(w, e)));
        self
    }
    pub fn despawn(&mut self) {
        let e = self.e;
        self.commands.queue.0.push(Box::new(move |w: &mut World| {
            w.despawn(e);
        }));
    }
}

pub trait System: 'static {
    type In;
    type Out;
    fn init(&mut self, world: &mut World);
    fn run(&mut self, input: Self::In, world: &mut World) -> Self::Out;
    fn apply_buffers(&mut self, world: &mut World);
    fn type_label(&self) -> SystemLabelId;
    fn name(&self) -> &'static str;
}

pub trait SystemParamFunction<In, Out, Param: SystemParam, Marker>: 'static {
    fn call(&mut self, p: <Param as SystemParam>::Item<'_, '_>) -> Out;
}

pub struct FunctionSystem<Out, P: SystemParam, M, F> {
    f: F,
    state: Option<P::State>,
    _m: PhantomData<fn() -> (Out, M)>,
}

impl<Out: 'static, P: SystemParam + 'static, M: 'static, F> System for FunctionSystem<Out, P, M, F>
where
    F: SystemParamFunction<(), Out, P, M>,
{
    type In = ();
    type Out = Out;
    fn init(&mut self, world: &mut World) {
        if self.state.is_none() {
            self.state = Some(P::init(world));
        }
    }
    fn run(&mut self, _: (), world: &mut World) -> Out {
        self.init(world);
        let s = self.state.as_mut().unwrap();
        let item = unsafe { P::get(s, world as *mut World) };
        self.f.call(item)
    }
    fn apply_buffers(&mut self, world: &mut World) {
        if let Some(s) = self.state.as_mut() {
            P::apply(s, world)
        }
    }
    fn type_label(&self) -> SystemLabelId {
        SystemLabelId::of_system::<F>()
    }
    fn name(&self) -> &'static str {
        std::any::type_name::<F>()
    }
}

pub trait IntoSystem<In, Out, Params>: Sized {
    type System: System<In = In, Out = Out>;
    fn into_system(this: Self) -> Self::System;
}
pub struct IsFunctionSystem;
impl<Out: 'static, P: SystemParam + 'static, M: 'static, F> IntoSystem<(), Out, (IsFunctionSystem, P, M)> for F
where
    F: SystemParamFunction<(), Out, P, M>,
{
    type System = FunctionSystem<Out, P, M, F>;
    fn into_system(f: Self) -> Self::System {
        FunctionSystem {
            f,
            state: None,
            _m: PhantomData,
        }
    }
}

pub trait AsSystemLabel<Marker> {
    fn as_system_label(&self) -> SystemLabelId;
}
impl<L: SystemLabel> AsSystemLabel<()> for L {
    fn as_system_label(&self) -> SystemLabelId {
        self.as_label()
    }
}
impl<T: 'static, In, Out, Params> AsSystemLabel<(In, Out, Params)> for T
where
    T: IntoSystem<In, Out, Params>,
{
    fn as_system_label(&self) -> SystemLabelId {
        SystemLabelId::of_system::<T>()
    }
}
impl SystemLabelId {
    pub(crate) fn of_system<T: 'static>() -> Self {
        SystemLabelId::make(TypeId::of::<T>(), u64::MAX, std::any::type_name::<T>())
    }
}

macro_rules! params {
    ($($p:ident),*) => {
        #[allow(non_snake_case, unused_variables, clippy::unused_unit)]
        impl<$($p: SystemParam),*> SystemParam for ($($p,)*) {
            type State = ($($p::State,)*);
            type Item<'w, 's> = ($($p::Item<'w, 's>,)*);
            fn init(world: &mut World) -> Self::State {
                ($($p::init(world),)*)
            }
            unsafe fn get<'w, 's>(state: &'s mut Self::State, world: *mut World) -> Self::Item<'w, 's> {
                let ($($p,)*) = state;
                ($($p::get($p, world),)*)
            }
            fn apply(state: &mut Self::State, world: &mut World) {
                let ($($p,)*) = state;
                $($p::apply($p, world);)*
            }
        }
        #[allow(non_snake_case, unused_variables)]
        impl<Out: 'static, Func: 'static, $($p: SystemParam),*>
            SystemParamFunction<(), Out, ($($p,)*), ((), Out)> for Func
        where
            for<'a> &'a mut Func:
                FnMut($($p),*) -> Out + FnMut($(<$p as SystemParam>::Item<'_, '_>),*) -> Out,
        {
            #[inline]
            fn call(&mut self, item: <($($p,)*) as SystemParam>::Item<'_, '_>) -> Out {
                #[allow(clippy::too_many_arguments)]
                fn call_inner<Out, $($p),*>(mut f: impl FnMut($($p),*) -> Out, $($p: $p),*) -> Out {
                    f($($p),*)
                }
                let ($($p,)*) = item;
                call_inner(self, $($p),*)
            }
        }
    };
}
params!();
params!(A);
params!(A, B);
params!(A, B, C);
params!(A, B, C, D);
params!(A, B, C, D, E);
params!(A, B, C, D, E, F);
params!(A, B, C, D, E, F, G);
params!(A, B, C, D, E, F, G, H);
params!(A, B, C, D, E, F, G, H, I);
params!(A, B, C, D, E, F, G, H, I, J);
params!(A, B, C, D, E, F, G, H, I, J, K);
params!(A, B, C, D, E, F, G, H, I, J, K, L);
params!(A, B, C, D, E, F, G, H, I, J, K, L, M);
params!(A, B, C, D, E, F, G, H, I, J, K, L, M, N);
params!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O);
params!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P);
