use std::any::{Any, TypeId};
use std::hash::Hash;

pub use bevy_ecs_macros::{StageLabel, SystemLabel};

use crate::system::{AsSystemLabel, IntoSystem, Local, Resource, System};
use crate::world::World;

macro_rules! label_id {
    ($id:ident, $tr:ident) => {
        #[derive(Clone, Copy)]
        pub struct $id {
            ty: TypeId,
            data: u64,
            name: &'static str,
        }
        impl $id {
            #[doc(hidden)]
            pub fn make(ty: TypeId, data: u64, name: &'static str) -> Self {
                Self { ty, data, name }
            }
        }
        impl PartialEq for $id {
            fn eq(&self, o: &Self) -> bool {
                self.ty == o.ty && self.data == o.data
            }
        }
        impl Eq for $id {}
        impl Hash for $id {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                self.ty.hash(h);
                self.data.hash(h);
            }
        }
        impl std::fmt::Debug for $id {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(self.name)
            }
        }
        pub trait $tr: 'static {
            fn as_label(&self) -> $id;
            fn as_str(&self) -> &'static str;
        }
        impl $tr for $id {
            fn as_label(&self) -> $id {
                *self
            }
            fn as_str(&self) -> &'static str {
                self.name
            }
        }
    };
}
label_id!(StageLabelId, StageLabel);
label_id!(SystemLabelId, SystemLabel);

pub struct ReportExecutionOrderAmbiguities;
impl Resource for ReportExecutionOrderAmbiguities {}

pub trait StateData: Send + Sync + Clone + Eq + std::fmt::Debug + Hash + 'static {}
impl<T: Send + Sync + Clone + Eq + std::fmt::Debug + Hash + 'static> StateData for T {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ShouldRun {
    Yes,
    No,
    YesAndCheckAgain,
    NoAndCheckAgain,
}
impl ShouldRun {
    pub fn once(mut ran: Local<bool>) -> ShouldRun {
        if *ran {
            ShouldRun::No
        } else {
            *ran = true;
            ShouldRun::Yes
        }
    }
}

type BoxedSystem<Out> = Box<dyn System<In = (), Out = Out>>;

pub struct SystemDescriptor {
    system: BoxedSystem<()>,
    criterion: Option<BoxedSystem<ShouldRun>>,
    labels: Vec<SystemLabelId>,
    before: Vec<SystemLabelId>,
    after: Vec<SystemLabelId>,
}

pub trait IntoSystemDescriptor<Params>: Sized {
    fn into_descriptor(self) -> SystemDescriptor;
    fn label(self, l: impl SystemLabel) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.labels.push(l.as_label());
        d
    }
    fn before<M>(self, l: impl AsSystemLabel<M>) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.before.push(l.as_system_label());
        d
    }
    fn after<M>(self, l: impl AsSystemLabel<M>) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.after.push(l.as_system_label());
        d
    }
    fn ambiguous_with<M>(self, _l: impl AsSystemLabel<M>) -> SystemDescriptor {
        self.into_descriptor()
    }
    fn ignore_all_ambiguities(self) -> SystemDescriptor {
        self.into_descriptor()
    }
    fn with_run_criteria<M>(self, c: impl IntoSystem<(), ShouldRun, M>) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.criterion = Some(Box::new(IntoSystem::into_system(c)));
        d
    }
}
impl IntoSystemDescriptor<()> for SystemDescriptor {
    fn into_descriptor(self) -> SystemDescriptor {
        self
    }
}
impl<Params, S> IntoSystemDescriptor<Params> for S
where
    S: IntoSystem<(), (), Params>,
{
    fn into_descriptor(self) -> SystemDescriptor {
        let system = IntoSystem::into_system(self);
        let l = system.type_label();
        SystemDescriptor {
            system: Box::new(system),
            criterion: None,
            labels: vec![l],
            before: vec![],
            after: vec![],
        }
    }
}

#[derive(Default)]
pub struct SystemSet {
    systems: Vec<SystemDescriptor>,
}
impl SystemSet {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_system<P>(mut self, s: impl IntoSystemDescriptor<P>) -> Self {
        self.systems.push(s.into_descriptor());
        self
    }
}

pub trait Stage: Any {
    fn run(&mut self, world: &mut World);
}
impl dyn Stage {
    pub fn downcast_mut<T: Stage>(&mut self) -> Option<&mut T> {
        (self as &mut dyn Any).downcast_mut::<T>()
    }
}

pub struct SystemStage {
    systems: Vec<SystemDescriptor>,
    sorted: bool,
}
impl SystemStage {
    pub fn single_threaded() -> Self {
        SystemStage {
            systems: vec![],
            sorted: true,
        }
    }
    pub fn parallel() -> Self {
        Self::single_threaded()
    }
    pub fn single<P>(s: impl IntoSystemDescriptor<P>) -> Self {
        Self::single_threaded().with_system(s)
    }
    pub fn with_system<P>(mut self, s: impl IntoSystemDescriptor<P>) -> Self {
        self.add_system(s);
        self
    }
    pub fn add_system<P>(&mut self, s: impl IntoSystemDescriptor<P>) -> &mut Self {
        self.systems.push(s.into_descriptor());
        self.sorted = false;
        self
    }
    pub fn add_system_set(&mut self, s: SystemSet) -> &mut Self {
        self.systems.extend(s.systems);
        self.sorted = false;
        self
    }
    fn sort(&mut self) {
        if self.sorted {
            return;
        }
        self.sorted = true;
        let n = self.systems.len();
        let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 0..n {
            for j in 0..n {
                if i == j {
                    continue;
                }
                let (a, b) = (&self.systems[i], &self.systems[j]);
                if a.after.iter().any(|l| b.labels.contains(l)) {
                    preds[i].push(j);
                }
                if a.before.iter().any(|l| b.labels.contains(l)) {
                    preds[j].push(i);
                }
            }
        }
        let mut done = vec![false; n];
        let mut order = vec![];
        let mut random = tie_breaker();
        while order.len() < n {
            let ready: Vec<usize> = (0..n).filter(|&i| !done[i] && preds[i].iter().all(|&p| done[p])).collect();
            assert!(!ready.is_empty(), "Dependency cycle between systems of one stage");
            let next = ready[match &mut random {
                None => 0,
                Some(state) => {
                    *state ^= *state << 13;
                    *state ^= *state >> 7;
                    *state ^= *state << 17;
                    (*state >> 11) as usize % ready.len()
                }
            }];
            done[next] = true;
            order.push(next);
        }
        let mut old: Vec<Option<SystemDescriptor>> =
            std::mem::take(&mut self.systems).into_iter().map(Some).collect();
        self.systems = order.into_iter().map(|i| old[i].take().unwrap()).collect();
    }
}

/// Systems without a declared order run in the order in which they were added, or, if VERIF_ORDER
/// is set, in an order that depends on its value: bevy promises none.
fn tie_breaker() -> Option<u64> {
    use std::sync::atomic::{AtomicU64, Ordering};
    static STAGES: AtomicU64 = AtomicU64::new(0);
    let seed: u64 = std::env::var("VERIF_ORDER").ok()?.parse().ok()?;
    let stage = STAGES.fetch_add(1, Ordering::Relaxed);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    use std::hash::{Hash, Hasher};
    (seed, stage).hash(&mut h);
    Some(h.finish() | 1)
}

impl Stage for SystemStage {
    fn run(&mut self, world: &mut World) {
        self.sort();
        // bevy evaluates the run criteria of all systems at the beginning of the stage.
        let run: Vec<bool> = self
            .systems
            .iter_mut()
            .map(|s| match s.criterion.as_mut() {
                None => true,
                Some(c) => {
                    let r = c.run((), world);
                    c.apply_buffers(world);
                    r == ShouldRun::Yes
                }
            })
            .collect();
        for (s, run) in self.systems.iter_mut().zip(&run) {
            if *run {
                s.system.run((), world);
            }
        }
        for (s, run) in self.systems.iter_mut().zip(&run) {
            if *run {
                s.system.apply_buffers(world);
            }
        }
    }
}

#[derive(Default)]
pub struct Schedule {
    stages: Vec<(StageLabelId, Box<dyn Stage>)>,
    criterion: Option<BoxedSystem<ShouldRun>>,
}
impl Schedule {
    pub fn with_run_criteria<M>(mut self, c: impl IntoSystem<(), ShouldRun, M>) -> Self {
        self.criterion = Some(Box::new(IntoSystem::into_system(c)));
        self
    }
    pub fn add_stage<S: Stage>(&mut self, label: impl StageLabel, stage: S) -> &mut Self {
        let l = label.as_label();
        assert!(
            !self.stages.iter().any(|(x, _)| *x == l),
            "Stage already exists: {l:?}."
        );
        self.stages.push((l, Box::new(stage)));
        self
    }
    pub fn add_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        let t = target.as_label();
        let i = self
            .stages
            .iter()
            .position(|(x, _)| *x == t)
            .unwrap_or_else(|| panic!("Target stage does not exist: {t:?}."));
        self.stages.insert(i + 1, (label.as_label(), Box::new(stage)));
        self
    }
    pub fn get_stage_mut<T: Stage>(&mut self, label: impl StageLabel) -> Option<&mut T> {
        let l = label.as_label();
        self.stages
            .iter_mut()
            .find(|(x, _)| *x == l)
            .and_then(|(_, s)| s.as_mut().downcast_mut::<T>())
    }
    pub fn add_system_to_stage<P>(
        &mut self,
        label: impl StageLabel,
        s: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        let l = label.as_label();
        self.get_stage_mut::<SystemStage>(l)
            .unwrap_or_else(|| panic!("Stage '{l:?}' does not exist or is not a SystemStage"))
            .add_system(s);
        self
    }
    pub fn add_system_set_to_stage(&mut self, label: impl StageLabel, s: SystemSet) -> &mut Self {
        self.get_stage_mut::<SystemStage>(label.as_label())
            .unwrap()
            .add_system_set(s);
        self
    }
    pub fn run_once(&mut self, world: &mut World) {
        for (_, s) in self.stages.iter_mut() {
            s.run(world);
        }
    }
}
impl Stage for Schedule {
    fn run(&mut self, world: &mut World) {
        if let Some(c) = self.criterion.as_mut() {
            if c.run((), world) != ShouldRun::Yes {
                return;
            }
        }
        self.run_once(world);
    }
}
