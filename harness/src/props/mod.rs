pub mod agree;
pub mod cmdline;
pub mod crash;
pub mod cut;
pub mod expr;
pub mod filegen;
pub mod grep;
pub mod header;
pub mod input;
pub mod join;
pub mod libs;
pub mod sort;
pub mod search;
pub mod tabs;
pub mod text;
pub mod tools;
pub mod tooltest;
pub mod uniq;
pub mod verify;
use crate::engine::{Arm, Prop};
pub fn all() -> Vec<Prop> {
    let mut v = sort::props();
    v.push(join::prop());
    v.extend(uniq::props());
    v.push(search::prop());
    v.extend(cut::props());
    v.push(grep::prop());
    v.push(expr::prop());
    v.push(verify::prop());
    v.push(text::prop());
    v.extend(input::props());
    v.push(tools::cat_prop());
    v.push(tools::paste_prop());
    v.push(tools::wc_prop());
    v.push(tools::transpose_prop());
    v.push(tools::sample_prop());
    v.push(tooltest::prop());
    v.push(crash::prop());
    v.push(cmdline::prop());
    v.push(agree::prop());
    v.push(filegen::prop());
    // what is left of these if the library half of the harness does not build
    v.push(Prop { id: "C02", rule: sort::MERGE_RULE, arms: vec![Arm { name: "merge", quick: 6000, thorough: 100_000, f: sort::merge_cli }] });
    v.push(Prop { id: "C13", rule: header::RULE, arms: vec![Arm { name: "files", quick: 12_000, thorough: 200_000, f: header::headers_cli }] });
    v.push(Prop { id: "C03", rule: libs::COMP_RULE, arms: vec![Arm { name: "commands", quick: 3000, thorough: 60_000, f: libs::comp_cli }] });
    v.push(Prop { id: "C21", rule: libs::NUM_RULE, arms: vec![Arm { name: "commands", quick: 5000, thorough: 100_000, f: libs::num_cli }] });
    v.push(Prop { id: "C26", rule: tabs::RULE, arms: vec![Arm { name: "command", quick: 6000, thorough: 100_000, f: tabs::command }] });
    v.push(Prop { id: "C28", rule: libs::REG_RULE, arms: vec![Arm { name: "commands", quick: 8000, thorough: 100_000, f: libs::names_cli }] });
    v
}
