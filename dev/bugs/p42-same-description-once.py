exec(open("/verif/dev/verifier_demo.py").read())
prop = "P42"
needs = "two failing interactions with the same descriptive text, for example in two pacts of one consumer"
breaks = "the second of two failures with the same description is not in the errors; when one of them is pending the other does not fail the verification"
edits = [(V + "lib.rs", """                    if interaction_result.pending {
                      pending_errors.push(""", """                    let known = pending_errors.iter().any(|(d, _)| d == &interaction_result.description);
                    if interaction_result.pending || known {
                      pending_errors.push(""")]
demo = PRE + r"""
fn main() {
  let log = host("h.test", |_, _| ok("{}"));
  let pact = |pending: bool, status: u16| v4(json!([{"type": "Synchronous/HTTP", "description": "one", "pending": pending, "request": {"method": "GET", "path": "/a"}, "response": {"status": status}}]));
  let r = run("h.test", vec![pact(true, 404), pact(false, 404)]).go();
  assert_eq!(log.lock().unwrap().len(), 2);
  assert_eq!((r.errors.len(), r.pending_errors.len(), r.result), (1, 1, false));
  let r = run("h.test", vec![pact(true, 404), pact(false, 200)]).go();
  assert_eq!((r.errors.len(), r.pending_errors.len(), r.result), (0, 1, true));
}
"""
