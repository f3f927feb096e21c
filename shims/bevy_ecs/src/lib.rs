//! Stand-in for the parts of bevy_ecs 0.9 (stage based) that subsweep uses. Single threaded.
//! Semantics kept: systems of a stage run in a topological order of their before/after
//! constraints (ties: order of addition), commands are applied at the end of the stage, run
//! criteria are evaluated once per system per stage run, events live for two updates.
extern crate self as bevy_ecs;

pub mod archetype;
pub mod bundle;
pub mod component;
pub mod entity;
pub mod event;
pub mod query;
pub mod schedule;
pub mod system;
pub mod world;

pub mod change_detection {
    pub use crate::world::Mut;
}

pub mod prelude {
    pub use crate::bundle::Bundle;
    pub use crate::component::Component;
    pub use crate::entity::Entity;
    pub use crate::event::{EventReader, EventWriter, Events};
    pub use crate::query::{Query, With, Without};
    pub use crate::schedule::{
        IntoSystemDescriptor, Schedule, Stage, StageLabel, SystemLabel, SystemSet, SystemStage,
    };
    pub use crate::system::{
        Commands, IntoSystem, Local, NonSend, NonSendMut, Res, ResMut, Resource, System,
    };
    pub use crate::world::{Mut, World};
}
