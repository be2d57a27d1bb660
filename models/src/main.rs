//! Property checks for the pact_models crate: `pmcheck <PROPERTY>`.
mod g;
#[macro_use] mod pacts;
mod conv;
mod dates;
mod exprs;
mod legacy;
mod paths;
mod robust;
mod rules;
mod store;
mod text;
mod values;

use std::path::PathBuf;

fn main() {
  let args: Vec<String> = std::env::args().skip(1).collect();
  if args.first().map(|a| a == "--write").unwrap_or(false) { store::writer(&args[1..]); }
  let id = std::env::args().nth(1).expect("property id");
  let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().unwrap());
  let mut h = pvfw::H::new(&id, root);
  match id.as_str() {
    "P01" => pacts::p01(&mut h),
    "P02" => legacy::p02(&mut h),
    "P13" => paths::p13(&mut h),
    "P15" => rules::p15(&mut h),
    "P16" => rules::p16(&mut h),
    "P18" => rules::p18(&mut h),
    "P05" => conv::p05(&mut h),
    "P06" => conv::p06(&mut h),
    "P07" => conv::p07(&mut h),
    "P10" => text::p10(&mut h),
    "P11" => text::p11(&mut h),
    "P12" => text::p12(&mut h),
    "P03" => store::p03(&mut h),
    "P04" => store::p04(&mut h),
    "P08" => store::p08(&mut h),
    "P09" => store::p09(&mut h),
    "P20" => dates::p20(&mut h),
    "P21" => dates::p21(&mut h),
    "P19" => values::p19(&mut h),
    "P22" => values::p22(&mut h),
    "P23" => values::p23(&mut h),
    "P24" => values::p24(&mut h),
    "P25" => robust::p25(&mut h),
    "P26" => robust::p26(&mut h),
    "P27" => robust::p27(&mut h),
    "P17" => exprs::p17(&mut h),
    "P14" => paths::p14(&mut h),
    _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
  }
  h.finish()
}
