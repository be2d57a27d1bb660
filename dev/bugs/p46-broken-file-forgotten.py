exec(open("/verif/dev/verifier_demo.py").read())
prop = "P46"
needs = "a directory with a pact of another provider, or a broken file, next to sub-directories"
breaks = "sub-directories are left out when a file that is not for the provider was found before"
edits = [(V + "lib.rs", """              if pact.provider().name == provider.name {
                pacts.push(Ok((pact, tm)));
              }""", """              if pact.provider().name != provider.name {
                debug!("Skipping {:?}", path);
                if pacts.iter().all(|p: &anyhow::Result<(Box<dyn Pact + Send + Sync + RefUnwindSafe>, Duration)>| p.is_err()) && !pacts.is_empty() { pacts.clear(); }
                continue;
              }
              pacts.push(Ok((pact, tm)));""")]
breaks = "a broken file is not reported when a pact of another provider is found after it and none for the provider before"
needs = "a directory with a broken file and a pact of another provider, read in that order"
demo = PRE + r"""
fn main() {
  let _log = host("h.test", |_, _| ok("{}"));
  let dir = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  let other = json!({"consumer": {"name": "c"}, "provider": {"name": "other"}, "interactions": [], "metadata": {"pactSpecification": {"version": "3.0.0"}}}).to_string();
  std::fs::write(dir.join("bad.json"), "{").unwrap();
  // whatever the order in which the directory is read, some of these come after the broken one, or all before
  let mut bad = 0;
  for n in 0..40 {
    std::fs::write(dir.join(format!("{}.json", n)), &other).unwrap();
    let r = run("h.test", vec![PactSource::Dir(dir.to_string_lossy().to_string())]).go();
    if r.result { bad += 1 }
  }
  let _ = std::fs::remove_dir_all(&dir);
  assert_eq!(bad, 0);
}
"""
