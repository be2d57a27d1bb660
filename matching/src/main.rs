//! Property checks for the pact_matching crate: `pxcheck <PROPERTY>`.
#[path = "../../models/src/g.rs"] mod g;
mod bodies;
mod gens;
mod http;
mod jm;
mod json;
mod messages;
mod whole;

use std::path::PathBuf;

fn main() {
  unsafe { std::env::set_var("RUST_LIB_BACKTRACE", "0") };
  let id = std::env::args().nth(1).expect("property id");
  let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().unwrap());
  let mut h = pvfw::H::new(&id, root);
  match id.as_str() {
    "P28" => http::p28(&mut h),
    "P29" => http::p29(&mut h),
    "P30" => http::p30(&mut h),
    "P31" => json::p31(&mut h),
    "P32" => json::p32(&mut h),
    "P33" => json::p33(&mut h),
    "P34" => json::p34(&mut h),
    "P35" => bodies::p35(&mut h),
    "P36" => bodies::p36(&mut h),
    "P37" => bodies::p37(&mut h),
    "P38" => bodies::p38(&mut h),
    "P39" => whole::p39(&mut h),
    "P40" => messages::p40(&mut h),
    "P41" => gens::p41(&mut h),
    _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
  }
  h.finish()
}
