//! Checks that drive the cdx library in process, next to those that run the binary
#![allow(dead_code)]
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/run.rs"]
mod run;
#[path = "../../harness/src/props/sort.rs"]
mod sort;
#[path = "../../harness/src/props/header.rs"]
mod header;
#[path = "../../harness/src/props/crash.rs"]
mod crash;
#[path = "../../harness/src/props/libs.rs"]
mod libs;
#[path = "../../harness/src/props/tabs.rs"]
mod tabs_cli;
#[path = "../../harness/src/props/cut.rs"]
mod cut;
#[cfg(feature = "c09")]
mod columns;
#[path = "../../harness/src/props/search.rs"]
mod search;
#[cfg(feature = "c08")]
mod bounds;
#[path = "../../harness/src/props/text.rs"]
mod text;
#[cfg(feature = "c12")]
mod formats;
#[path = "../../harness/src/props/grep.rs"]
mod grep;
#[cfg(feature = "c10")]
mod matches;
#[cfg(feature = "c19")]
mod chains;
#[path = "../../harness/src/props/expr.rs"]
mod expr;
#[cfg(feature = "c18")]
mod exprs;
#[cfg(feature = "c13")]
mod headers;
#[cfg(feature = "c27")]
mod specs;
#[cfg(feature = "c03")]
mod comp;
#[cfg(feature = "c02")]
mod spill;
#[cfg(feature = "c21")]
mod number;
#[cfg(feature = "c26")]
mod tabs;
#[cfg(feature = "c28")]
mod registry;

fn main() {
    #[cfg(feature = "c28")]
    if std::env::args().nth(1).as_deref() == Some("registry-child") {
        return registry::child();
    }
    // the first use of a registry is the business of C28
    #[cfg(any(feature = "c02", feature = "c03", feature = "c08", feature = "c10"))]
    let _ = cdx::prelude::LineCompList::new().add("1");
    let mut v = Vec::new();
    #[cfg(feature = "c02")]
    v.push(spill::prop());
    #[cfg(feature = "c03")]
    v.push(comp::prop());
    #[cfg(feature = "c19")]
    v.push(chains::prop());
    #[cfg(feature = "c18")]
    v.push(exprs::prop());
    #[cfg(feature = "c21")]
    v.push(number::prop());
    #[cfg(feature = "c09")]
    v.push(columns::prop());
    #[cfg(feature = "c08")]
    v.push(bounds::prop());
    #[cfg(feature = "c12")]
    v.push(formats::prop());
    #[cfg(feature = "c10")]
    v.push(matches::prop());
    #[cfg(feature = "c13")]
    v.push(headers::prop());
    #[cfg(feature = "c26")]
    v.push(tabs::prop());
    #[cfg(feature = "c27")]
    v.push(specs::prop());
    #[cfg(feature = "c28")]
    v.push(registry::prop());
    engine::main(&v);
}
