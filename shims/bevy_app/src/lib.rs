//! Stand-in for the parts of bevy_app 0.9 that subsweep uses.
use bevy_ecs::event::{Event, Events};
use bevy_ecs::prelude::*;
use bevy_ecs::schedule::{ShouldRun, StateData};

pub mod prelude {
    pub use crate::{App, CoreStage, Plugin, PluginGroup};
}

#[derive(StageLabel, Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum CoreStage {
    First,
    PreUpdate,
    Update,
    PostUpdate,
    Last,
}
#[derive(StageLabel, Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct StartupSchedule;
#[derive(StageLabel, Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum StartupStage {
    PreStartup,
    Startup,
    PostStartup,
}

#[derive(Default, Clone, Debug)]
pub struct AppExit;

pub trait Plugin: Send + Sync + 'static {
    fn build(&self, app: &mut App);
}
pub trait PluginGroup {
    fn build_all(self, app: &mut App);
}

pub struct App {
    pub world: World,
    pub schedule: Schedule,
    pub runner: Box<dyn Fn(App)>,
}
fn run_once(mut app: App) {
    app.update();
}
impl Default for App {
    fn default() -> Self {
        let mut app = App::empty();
        let mut startup = Schedule::default().with_run_criteria(ShouldRun::once);
        startup.add_stage(StartupStage::PreStartup, SystemStage::parallel());
        startup.add_stage(StartupStage::Startup, SystemStage::parallel());
        startup.add_stage(StartupStage::PostStartup, SystemStage::parallel());
        app.schedule.add_stage(CoreStage::First, SystemStage::parallel());
        app.schedule.add_stage(StartupSchedule, startup);
        app.schedule.add_stage(CoreStage::PreUpdate, SystemStage::parallel());
        app.schedule.add_stage(CoreStage::Update, SystemStage::parallel());
        app.schedule.add_stage(CoreStage::PostUpdate, SystemStage::parallel());
        app.schedule.add_stage(CoreStage::Last, SystemStage::parallel());
        app.add_event::<AppExit>();
        app
    }
}
impl App {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn empty() -> Self {
        App {
            world: World::default(),
            schedule: Schedule::default(),
            runner: Box::new(run_once),
        }
    }
    pub fn update(&mut self) {
        self.schedule.run(&mut self.world);
    }
    pub fn run(&mut self) {
        let mut app = std::mem::replace(self, App::empty());
        let runner = std::mem::replace(&mut app.runner, Box::new(run_once));
        (runner)(app);
    }
    pub fn set_runner(&mut self, f: impl Fn(App) + 'static) -> &mut Self {
        self.runner = Box::new(f);
        self
    }
    pub fn add_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        self.schedule.add_stage_after(target, label, stage);
        self
    }
    pub fn add_startup_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        self.schedule
            .get_stage_mut::<Schedule>(StartupSchedule)
            .unwrap()
            .add_stage_after(target, label, stage);
        self
    }
    pub fn add_state(&mut self, _s: impl StateData) -> &mut Self {
        unimplemented!("states are not part of the stand-in")
    }
    pub fn insert_resource<R: Resource>(&mut self, r: R) -> &mut Self {
        self.world.insert_resource(r);
        self
    }
    pub fn insert_non_send_resource<R: 'static>(&mut self, r: R) -> &mut Self {
        self.world.insert_non_send_resource(r);
        self
    }
    pub fn add_plugin<T: Plugin>(&mut self, p: T) -> &mut Self {
        p.build(self);
        self
    }
    pub fn add_plugins<T: PluginGroup>(&mut self, g: T) -> &mut Self {
        g.build_all(self);
        self
    }
    pub fn add_system_to_stage<P>(
        &mut self,
        label: impl StageLabel,
        s: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        self.schedule.add_system_to_stage(label, s);
        self
    }
    pub fn add_startup_system_to_stage<P>(
        &mut self,
        label: impl StageLabel,
        s: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        self.schedule
            .get_stage_mut::<Schedule>(StartupSchedule)
            .unwrap()
            .add_system_to_stage(label, s);
        self
    }
    pub fn add_system_set_to_stage(&mut self, label: impl StageLabel, s: SystemSet) -> &mut Self {
        self.schedule.add_system_set_to_stage(label, s);
        self
    }
    pub fn add_event<T: Event>(&mut self) -> &mut Self {
        if !self.world.contains_resource::<Events<T>>() {
            self.world.insert_resource(Events::<T>::default());
            self.add_system_to_stage(CoreStage::First, Events::<T>::update_system);
        }
        self
    }
}

#[derive(Default)]
pub struct ScheduleRunnerPlugin;
impl Plugin for ScheduleRunnerPlugin {
    fn build(&self, app: &mut App) {
        app.set_runner(|mut app: App| loop {
            app.update();
            if let Some(ev) = app.world.get_resource::<Events<AppExit>>() {
                if !ev.is_empty() {
                    break;
                }
            }
        });
    }
}
