prop = "P08"
needs = "two processes that add interactions to the same pact file at the same time"
breaks = "both writers hold the lock at once, and interactions are lost or the file is damaged"
edits = [("rust/pact_models/src/file_utils.rs", "    match file.try_lock_exclusive() {", "    match file.try_lock_shared() {")]
demo = r'''
use pact_models::{Consumer, Provider, file_utils::with_write_lock, pact::{read_pact, write_pact, Pact}, sync_interaction::RequestResponseInteraction, sync_pact::RequestResponsePact, PactSpecification};
use std::path::Path;
fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.len() > 2 {
    let p = RequestResponsePact { consumer: Consumer { name: "c".into() }, provider: Provider { name: "p".into() }, specification_version: PactSpecification::V3, interactions: vec![RequestResponseInteraction { description: args[2].clone(), ..Default::default() }], ..Default::default() };
    write_pact(p.boxed(), Path::new(&args[1]), PactSpecification::V3, false).unwrap();
    return;
  }
  // while one process holds the write lock, another must wait for it
  let path = std::env::current_dir().unwrap().join("demo-pact.json");
  std::fs::remove_file(&path).ok();
  write_pact(RequestResponsePact { consumer: Consumer { name: "c".into() }, provider: Provider { name: "p".into() }, .. Default::default() }.boxed(), &path, PactSpecification::V3, false).unwrap();
  let before = std::fs::read_to_string(&path).unwrap();
  let mut f = std::fs::OpenOptions::new().read(true).write(true).open(&path).unwrap();
  let mut child = None;
  with_write_lock(&path, &mut f, 3, &mut |_| {
    child = Some(std::process::Command::new(std::env::current_exe().unwrap()).arg(&path).arg("added").spawn().unwrap());
    std::thread::sleep(std::time::Duration::from_millis(250));
    assert_eq!(std::fs::read_to_string(&path).unwrap(), before, "the file changed under the lock");
    Ok(())
  }).unwrap();
  assert!(child.unwrap().wait().unwrap().success());
  assert_eq!(read_pact(&path).unwrap().interactions().len(), 1);
}
'''
