prop = "P17"
needs = "a definition with an empty example value and a generator, followed by another definition with a value and a generator"
breaks = "the generator of the later definition is taken, although the earlier one has a generator"
edits = [("rust/pact_models/src/matchingrules/expressions.rs", "      generator: self.generator.as_ref().or_else(|| other.generator.as_ref()).cloned(),",
"""      generator: if self.value.is_empty() {
        other.generator.as_ref().or_else(|| self.generator.as_ref()).cloned()
      } else {
        self.generator.as_ref().or_else(|| other.generator.as_ref()).cloned()
      },""")]
demo = r'''
use pact_models::generators::Generator;
use pact_models::matchingrules::expressions::parse_matcher_def;
fn main() {
  let d = parse_matcher_def("matching(date, 'yyyy', ''), matching(time, 'HH:mm', '12:00')").unwrap();
  assert_eq!(d.generator, Some(Generator::Date(Some("yyyy".to_string()), None)));
}
'''
