//! Property checks for the pact_ffi crate: `pfcheck <PROPERTY>`.
#[path = "../../models/src/g.rs"] pub mod g;
#[allow(dead_code)] #[path = "../../models/src/paths.rs"] mod paths;
#[allow(dead_code)] #[path = "../../models/src/rules.rs"] mod rules;
#[allow(dead_code)] #[macro_use] #[path = "../../models/src/pacts.rs"] mod pacts;
#[allow(dead_code)] #[path = "../../models/src/text.rs"] mod text;
#[allow(dead_code)] #[path = "../../models/src/legacy.rs"] mod legacy;
#[allow(dead_code)] #[path = "../../models/src/exprs.rs"] mod exprs;
pub mod common;
pub mod build;
pub mod intjson;
pub mod markup;
mod model;
mod values;

use std::path::PathBuf;

/// The C functions write each failure to stderr
fn quiet() {
  unsafe extern "C" { fn dup2(a: i32, b: i32) -> i32; }
  if std::env::var_os("PV_PANICS").is_some() { return }
  if let Ok(null) = std::fs::File::create("/dev/null") { unsafe { dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 2); } }
}

fn main() {
  unsafe { std::env::set_var("RUST_LIB_BACKTRACE", "0"); std::env::set_var("PACT_DO_NOT_TRACK", "true"); }
  let id = std::env::args().nth(1).expect("property id");
  pvfw::supervised();
  pvfw::own_stdout();
  quiet();
  let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().unwrap());
  let mut h = pvfw::H::new(&id, root);
  match id.as_str() {
    "P49" => build::p49(&mut h),
    "P50" => intjson::p50(&mut h),
    "P51" => intjson::p51(&mut h),
    "P52" => markup::p52(&mut h),
    "P54" => model::p54(&mut h),
    "P55" => values::p55(&mut h),
    _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
  }
  h.finish()
}
