//! A context which counts what it is told.
use musli::alloc::System;
use musli::Context;
use std::cell::Cell;

#[derive(Default)]
pub struct State {
    pub adv: Cell<usize>,
    pub errors: Cell<usize>,
}

#[derive(Clone, Copy)]
pub struct Cx<'a>(pub &'a State);

#[derive(Debug)]
pub struct Failed;

impl Context for Cx<'_> {
    type Error = Failed;
    type Mark = usize;
    type Allocator = System;

    fn clear(self) {}
    fn advance(self, n: usize) {
        self.0.adv.set(self.0.adv.get().wrapping_add(n));
    }
    fn mark(self) -> usize {
        self.0.adv.get()
    }
    fn restore(self, mark: &usize) {
        self.0.adv.set(*mark);
    }
    fn alloc(self) -> System {
        System::new()
    }
    fn custom<E>(self, _: E) -> Failed
    where
        E: 'static + Send + Sync + std::error::Error,
    {
        self.0.errors.set(self.0.errors.get() + 1);
        Failed
    }
    fn message<M>(self, _: M) -> Failed
    where
        M: std::fmt::Display,
    {
        self.0.errors.set(self.0.errors.get() + 1);
        Failed
    }
}
