//! Only used to render human readable diffs: everything removed, then everything added, around equal lines.
#[derive(Debug, Clone, PartialEq)]
pub enum Difference { Same(String), Add(String), Rem(String) }
pub struct Changeset { pub diffs: Vec<Difference>, pub split: String, pub distance: i32 }
impl Changeset {
  pub fn new(orig: &str, edit: &str, split: &str) -> Changeset {
    let diffs = if orig == edit { vec![Difference::Same(orig.to_string())] } else {
      vec![Difference::Rem(orig.to_string()), Difference::Add(edit.to_string())]
    };
    Changeset { diffs, split: split.to_string(), distance: 0 }
  }
}
