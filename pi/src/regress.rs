//! Fixed reproductions of past failures.

use crate::engine::Regression;
use std::path::Path;

/// Signature and description of the finding `name` of `prop`, if listed.
pub fn listed(verif: &Path, prop: &str, name: &str) -> Option<(String, String)> {
    let body = std::fs::read_to_string(verif.join("known-findings.txt")).ok()?;
    let prefix = format!("finding: property={} name={} sig=<<", prop, name);
    let rest = body.lines().find_map(|l| l.strip_prefix(&prefix))?;
    let (sig, what) = rest.split_once(">> ")?;
    Some((sig.to_owned(), what.to_owned()))
}

pub fn regressions(prop: &str) -> Vec<Regression> {
    crate::pi_props::REGRESSIONS
        .iter()
        .filter(|r| r.0 == prop)
        .map(|r| Regression { name: r.1, run: Box::new(r.2) })
        .collect()
}
