use crate::engine::Prop;

mod cli;
mod doc;
mod html;
mod includes;
mod kinds;
mod notes;
mod scan;
mod tree;

pub const IDS: &[&str] = &["A01", "A02", "A03", "A04", "A05", "A06", "A07", "A08", "A09", "A10", "A11", "A12", "A13", "B01", "B02", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "D01", "E01", "E02", "F01", "G01"];

pub fn get(id: &str) -> Option<&'static dyn Prop> {
    Some(match id {
        "A01" => &scan::Totality,
        "A02" => &scan::Lossless,
        "A03" => &scan::Lines,
        "A04" => &scan::Columns,
        "A05" => &kinds::Headings,
        "A06" => &kinds::Kinds(0),
        "A07" => &kinds::Kinds(1),
        "A08" => &kinds::Kinds(2),
        "A09" => &kinds::Kinds(3),
        "A10" => &kinds::Kinds(4),
        "A11" => &kinds::Kinds(5),
        "A12" => &kinds::Kinds(6),
        "A13" => &kinds::Tags,
        "B01" => &tree::Positions,
        "B02" => &tree::Words,
        "C01" => &tree::Crash,
        "C02" => &doc::SECTIONS,
        "C03" => &doc::LISTS,
        "C04" => &doc::DELIMITED,
        "C05" => &doc::VERBATIM,
        "C06" => &doc::TABLES,
        "C07" => &doc::FORMAT,
        "C08" => &doc::REFS,
        "C09" => &doc::META,
        "C10" => &doc::ATTRS,
        "D01" => &notes::Notes,
        "E01" => &includes::Files,
        "E02" => &includes::Parts,
        "F01" => &html::Html,
        "G01" => &cli::Cli,
        _ => return None,
    })
}

/// properties whose code may end the process
pub fn may_exit(id: &str) -> bool {
    matches!(id, "C01")
}
