use crate::component::Component;
use crate::entity::Entity;
use crate::world::World;
pub use bevy_ecs_macros::Bundle;
pub trait Bundle: Send + Sync + 'static {
    fn insert_into(self, world: &mut World, e: Entity);
    fn remove_from(world: &mut World, e: Entity);
}
impl<C: Component> Bundle for C {
    fn insert_into(self, world: &mut World, e: Entity) {
        world.insert_component(e, self);
    }
    fn remove_from(world: &mut World, e: Entity) {
        world.remove_component::<C>(e);
    }
}
macro_rules! tup {
    ($($t:ident),*) => {
        #[allow(non_snake_case, unused_variables)]
        impl<$($t: Bundle),*> Bundle for ($($t,)*) {
            fn insert_into(self, world: &mut World, e: Entity) {
                let ($($t,)*) = self;
                $( $t.insert_into(world, e); )*
            }
            fn remove_from(world: &mut World, e: Entity) {
                $( $t::remove_from(world, e); )*
            }
        }
    };
}
tup!();
tup!(A);
tup!(A, B);
tup!(A, B, C);
tup!(A, B, C, D);
tup!(A, B, C, D, E);
tup!(A, B, C, D, E, F);
tup!(A, B, C, D, E, F, G);
tup!(A, B, C, D, E, F, G, H);
tup!(A, B, C, D, E, F, G, H, I);
tup!(A, B, C, D, E, F, G, H, I, J);
