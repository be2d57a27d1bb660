//! Property checks for the pact_verifier crate: `pvcheck <PROPERTY>`.
#[path = "../../models/src/g.rs"] pub mod g;
pub mod common;
pub mod http_check;
pub mod states;
pub mod broker;
pub mod messages;

use std::path::PathBuf;

fn main() {
  unsafe { std::env::set_var("RUST_LIB_BACKTRACE", "0"); std::env::set_var("PACT_DO_NOT_TRACK", "true"); }
  pvfw::own_stdout();
  let id = std::env::args().nth(1).expect("property id");
  let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().unwrap());
  let mut h = pvfw::H::new(&id, root);
  match id.as_str() {
    "P42" => http_check::p42(&mut h),
    "P43" => http_check::p43(&mut h),
    "P44" => states::p44(&mut h),
    "P45" => states::p45(&mut h),
    "P46" => broker::p46(&mut h),
    "P47" => broker::p47(&mut h),
    "P48" => messages::p48(&mut h),
    _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
  }
  h.finish()
}
