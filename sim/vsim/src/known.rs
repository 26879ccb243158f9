//! The committed list of known findings.

use std::sync::OnceLock;

pub struct Known {
    pub property: String,
    pub id: String,
    pub text: String,
}

static LIST: OnceLock<Vec<Known>> = OnceLock::new();

/// Lines `known: property=<id> finding=<name> <what fails>`.
pub fn load(path: &str) {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let list = text
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let mut w = l.splitn(3, ' ');
            Some(Known {
                property: w.next()?.strip_prefix("property=")?.to_string(),
                id: w.next()?.strip_prefix("finding=")?.to_string(),
                text: w.next()?.to_string(),
            })
        })
        .collect();
    let _ = LIST.set(list);
}

pub fn all() -> &'static [Known] {
    LIST.get().map(|l| &l[..]).unwrap_or(&[])
}

pub fn listed(id: &str) -> bool {
    all().iter().any(|k| k.id == id)
}
