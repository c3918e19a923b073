use crate::engine::Part;

#[cfg(feature = "full")]
pub mod api;
pub mod features;
#[cfg(feature = "full")]
pub mod fmt;
#[cfg(feature = "full")]
pub mod lsp;
#[cfg(feature = "full")]
pub mod model;
#[cfg(feature = "v2")]
pub mod serde;
#[cfg(feature = "full")]
pub mod text;
#[cfg(feature = "v2")]
pub mod total;
#[cfg(feature = "full")]
pub mod v1;

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: fn() -> Vec<Part>,
}

/// The properties of this build (each one is decided in one feature set).
#[allow(clippy::vec_init_then_push, unused_mut)]
pub fn all() -> Vec<Prop> {
    let mut v: Vec<Prop> = vec![];
    #[cfg(feature = "full")]
    {
        v.extend(text::props());
        v.extend(model::props());
        v.extend(fmt::props());
        v.extend(api::props());
        v.extend(v1::props());
        v.extend(lsp::props());
    }
    #[cfg(feature = "v2")]
    {
        v.extend(total::props());
        v.extend(serde::props());
        v.extend(features::props());
    }
    v.sort_by_key(|p| p.id);
    v
}

/// Child-process entry points (see the modules that use them).
pub fn worker(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        #[cfg(feature = "v2")]
        Some("long" | "deep") => total::worker(args),
        Some("features") => features::worker(),
        _ => 2,
    }
}
