prop = "P18"
needs = "combining two sets of generators that both have a generator for the same category and path"
breaks = "the generator that was there before stays"
edits = [("rust/pact_models/src/generators/mod.rs", "      for (path, g) in values {\n        category_map.insert(path.clone(), g.clone());\n      }", "      for (path, g) in values {\n        category_map.entry(path.clone()).or_insert_with(|| g.clone());\n      }")]
demo = r'''
use pact_models::generators::{Generator, GeneratorCategory, Generators};
use pact_models::path_exp::DocPath;
fn main() {
  let p = DocPath::new("$.a").unwrap();
  let (mut a, mut b) = (Generators::default(), Generators::default());
  a.add_generator_with_subcategory(&GeneratorCategory::BODY, p.clone(), Generator::RandomInt(1, 2));
  b.add_generator_with_subcategory(&GeneratorCategory::BODY, p.clone(), Generator::RandomBoolean);
  a.add_generators(b);
  assert_eq!(a.categories[&GeneratorCategory::BODY][&p], Generator::RandomBoolean);
}
'''
