//! The KDL v2 conformance suite, as data (a copy of the repository's
//! `tests/test_cases`, so that a check does not depend on those files).

use serde::Deserialize;
use std::sync::OnceLock;

#[derive(Deserialize)]
pub struct V2Case {
    pub name: String,
    pub text: String,
    pub fail: bool,
    pub expected: Option<String>,
}

pub fn v2() -> &'static [V2Case] {
    static C: OnceLock<Vec<V2Case>> = OnceLock::new();
    C.get_or_init(|| serde_json::from_str(include_str!("../corpus/v2_cases.json")).expect("corpus"))
}
