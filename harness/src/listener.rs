//! Listener to the library's log. It formats everything told, as a server's log
//! would, and forgets it; only some of the cases are listened to.

use std::fmt::Write;
use std::sync::atomic::Ordering;

use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Metadata, Subscriber};

struct Listener;

struct Text(String);

impl Visit for Text {
    fn record_debug(&mut self, field: &Field, value: &dyn std::fmt::Debug) {
        let _ = write!(self.0, "{field}={value:?} ");
    }
}

impl Subscriber for Listener {
    fn register_callsite(&self, metadata: &'static Metadata<'static>) -> Interest {
        if metadata.target().starts_with("hyperborealib") { Interest::sometimes() } else { Interest::never() }
    }

    fn enabled(&self, metadata: &Metadata<'_>) -> bool {
        let here = crate::crash::here();

        metadata.target().starts_with("hyperborealib") && !here.is_null() && unsafe { (*here).traced.load(Ordering::Relaxed) }
    }

    fn new_span(&self, span: &Attributes<'_>) -> Id {
        span.record(&mut Text(String::new()));
        Id::from_u64(1)
    }

    fn record(&self, _: &Id, values: &Record<'_>) {
        values.record(&mut Text(String::new()));
    }

    fn event(&self, event: &Event<'_>) {
        event.record(&mut Text(String::new()));
    }

    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

pub fn install() {
    let _ = tracing::subscriber::set_global_default(Listener);
}
