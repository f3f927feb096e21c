use crate::system::{Local, Res, ResMut, Resource, SystemParam};
use crate::world::World;

pub trait Event: Send + Sync + 'static {}
impl<T: Send + Sync + 'static> Event for T {}

pub struct Events<E> {
    a: Vec<(usize, E)>,
    b: Vec<(usize, E)>,
    count: usize,
}
impl<E> Default for Events<E> {
    fn default() -> Self {
        Events {
            a: vec![],
            b: vec![],
            count: 0,
        }
    }
}
impl<E: Event> Resource for Events<E> {}
impl<E: Event> Events<E> {
    pub fn send(&mut self, e: E) {
        self.b.push((self.count, e));
        self.count += 1;
    }
    pub fn update(&mut self) {
        std::mem::swap(&mut self.a, &mut self.b);
        self.b.clear();
    }
    pub fn update_system(mut events: ResMut<Self>) {
        events.update();
    }
    pub fn is_empty(&self) -> bool {
        self.a.is_empty() && self.b.is_empty()
    }
    pub fn iter_since(&self, last: usize) -> impl Iterator<Item = &E> {
        self.a
            .iter()
            .chain(self.b.iter())
            .filter(move |(i, _)| *i >= last)
            .map(|(_, e)| e)
    }
}

pub struct EventReader<'w, 's, E: Event> {
    last: Local<'s, usize>,
    events: Res<'w, Events<E>>,
}
impl<'w, 's, E: Event> EventReader<'w, 's, E> {
    pub fn iter(&mut self) -> impl Iterator<Item = &E> + ExactSizeIterator {
        let last = *self.last;
        *self.last = self.events.count;
        self.events.iter_since(last).collect::<Vec<_>>().into_iter()
    }
    pub fn len(&self) -> usize {
        self.events.iter_since(*self.last).count()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&mut self) {
        *self.last = self.events.count;
    }
}
impl<'w, 's, E: Event> SystemParam for EventReader<'w, 's, E> {
    type State = usize;
    type Item<'w2, 's2> = EventReader<'w2, 's2, E>;
    fn init(_: &mut World) -> usize {
        0
    }
    unsafe fn get<'w2, 's2>(state: &'s2 mut usize, world: *mut World) -> EventReader<'w2, 's2, E> {
        EventReader {
            last: Local(state),
            events: <Res<Events<E>> as SystemParam>::get(Box::leak(Box::new(())), world),
        }
    }
}

pub struct EventWriter<'w, E: Event> {
    events: ResMut<'w, Events<E>>,
}
impl<'w, E: Event> EventWriter<'w, E> {
    pub fn send(&mut self, e: E) {
        self.events.send(e)
    }
    pub fn send_batch(&mut self, es: impl Iterator<Item = E>) {
        es.for_each(|e| self.events.send(e))
    }
}
impl<'w, E: Event> SystemParam for EventWriter<'w, E> {
    type State = ();
    type Item<'w2, 's2> = EventWriter<'w2, E>;
    fn init(_: &mut World) {}
    unsafe fn get<'w2, 's2>(_: &'s2 mut (), world: *mut World) -> EventWriter<'w2, E> {
        EventWriter {
            events: <ResMut<Events<E>> as SystemParam>::get(Box::leak(Box::new(())), world),
        }
    }
}
