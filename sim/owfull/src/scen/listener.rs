//! Somebody who reads every line of the runtime's log.
use simstd::sim;
use std::fmt::Write;
use tracing::span::{Attributes, Id, Record};
use tracing::{Event, Metadata, Subscriber, field};

pub struct Listener;
#[derive(Default)]
struct Line(String);
impl field::Visit for Line {
    fn record_debug(&mut self, f: &field::Field, v: &dyn std::fmt::Debug) {
        let _ = write!(self.0, "{f} {v:?} ");
    }
}
impl Subscriber for Listener {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        a.record(&mut Line::default());
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        r.record(&mut Line::default());
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut l = Line::default();
        e.record(&mut l);
        sim::probe("log.line");
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}
