//! Stand-in for clap 2: types only, it parses nothing.
use std::{ffi::{OsStr, OsString}, marker::PhantomData};
#[macro_export] macro_rules! crate_version { () => { env!("CARGO_PKG_VERSION") } }
#[derive(Clone, Copy, Debug, PartialEq)] pub enum AppSettings { NoBinaryName, ColorNever, ColoredHelp, ArgRequiredElseHelp }
#[derive(Clone, Copy, Debug, PartialEq)] pub enum ArgSettings { Multiple, EmptyValues }
#[derive(Clone, Copy, Debug, PartialEq)] pub enum ErrorKind { HelpDisplayed, VersionDisplayed, Other }
#[derive(Debug)] pub struct Error { pub message: String, pub kind: ErrorKind }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.message) } }
impl Error { pub fn exit(&self) -> ! { panic!("clap stand-in") } }
#[derive(Default, Clone)] pub struct Settings(bool);
impl Settings { pub fn is_set(&self, _: ArgSettings) -> bool { self.0 } }
#[derive(Default, Clone)] pub struct Switched<'b> { pub short: Option<char>, pub long: Option<&'b str> }
#[derive(Default, Clone)] pub struct Base<'b> { pub help: Option<&'b str>, pub settings: Settings, pub name: &'b str }
#[derive(Default, Clone)] pub struct Valued<'a, 'b> { pub possible_vals: Option<Vec<&'b str>>, pub default_val: Option<&'b OsStr>, pub env: Option<(&'a OsStr, Option<OsString>)> }
#[derive(Default, Clone)] pub struct Arg<'a, 'b> where 'a: 'b { pub s: Switched<'b>, pub b: Base<'b>, pub v: Valued<'a, 'b>, takes: bool }
impl<'a, 'b> Arg<'a, 'b> {
  pub fn with_name(n: &'b str) -> Self { Arg { b: Base { name: n, ..Base::default() }, ..Arg::default() } }
  pub fn short<S: AsRef<str>>(mut self, s: S) -> Self { self.s.short = s.as_ref().chars().next(); self }
  pub fn long(mut self, l: &'b str) -> Self { self.s.long = Some(l); self }
  pub fn takes_value(mut self, b: bool) -> Self { self.takes = b; self }
  pub fn use_delimiter(self, _: bool) -> Self { self }
  pub fn possible_values(mut self, l: &[&'b str]) -> Self { self.v.possible_vals = Some(l.to_vec()); self.takes = true; self }
  pub fn help(mut self, h: &'b str) -> Self { self.b.help = Some(h); self }
  pub fn required_unless_one(self, _: &[&'a str]) -> Self { self }
  pub fn multiple(mut self, b: bool) -> Self { self.b.settings.0 = b; self }
  pub fn number_of_values(self, _: u64) -> Self { self }
  pub fn empty_values(self, _: bool) -> Self { self }
  pub fn env(mut self, e: &'a str) -> Self { self.v.env = Some((OsStr::new(e), std::env::var_os(e))); self }
  pub fn requires(self, _: &'a str) -> Self { self }
  pub fn conflicts_with(self, _: &'a str) -> Self { self }
  pub fn validator<F: Fn(String) -> Result<(), String> + 'static>(self, _: F) -> Self { self }
  pub fn default_value(mut self, d: &'b str) -> Self { self.v.default_val = Some(OsStr::new(d)); self }
}
#[derive(Default, Clone)] pub struct Parser<'a, 'b> where 'a: 'b { pub opts: Vec<Arg<'a, 'b>>, pub flags: Vec<Arg<'a, 'b>> }
#[derive(Default, Clone)] pub struct App<'a, 'b> where 'a: 'b { pub p: Parser<'a, 'b> }
impl<'a, 'b> App<'a, 'b> {
  pub fn new<S: Into<String>>(_: S) -> Self { App::default() }
  pub fn version(self, _: &'b str) -> Self { self }
  pub fn about(self, _: &'b str) -> Self { self }
  pub fn version_short(self, _: &str) -> Self { self }
  pub fn arg(mut self, a: Arg<'a, 'b>) -> Self { if a.takes { self.p.opts.push(a) } else { self.p.flags.push(a) } self }
  pub fn setting(self, _: AppSettings) -> Self { self }
  pub fn get_matches_safe(self) -> Result<ArgMatches<'a>, Error> { Err(Error { message: "clap stand-in".into(), kind: ErrorKind::Other }) }
  pub fn get_matches_from_safe<I>(self, _: I) -> Result<ArgMatches<'a>, Error> { Err(Error { message: "clap stand-in".into(), kind: ErrorKind::Other }) }
}
#[derive(Default, Clone, Debug)] pub struct ArgMatches<'a>(PhantomData<&'a ()>);
impl<'a> ArgMatches<'a> {
  pub fn value_of(&self, _: &str) -> Option<&str> { None }
  pub fn values_of(&self, _: &str) -> Option<std::vec::IntoIter<&str>> { None }
  pub fn values_of_lossy(&self, _: &str) -> Option<Vec<String>> { None }
  pub fn is_present(&self, _: &str) -> bool { false }
}
