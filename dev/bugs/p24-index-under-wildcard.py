prop = "P24"
needs = "an XML path that continues below a wildcard, where the selected element has children with different names"
breaks = "the index of a child counts all the children instead of the ones with the same name"
edits = [("rust/pact_models/src/xml_utils.rs", "          let grouped_children = group_children(element);\n          for (_, children) in grouped_children {\n            for (index, child) in children.iter().enumerate() {\n              query_graph(remaining_tokens, tree, node_id, *child, index);\n            }\n          }\n        }\n      },\n      PathToken::Root",
  "          for (index, child) in element.child_elements().enumerate() {\n            query_graph(remaining_tokens, tree, node_id, child, index);\n          }\n        }\n      },\n      PathToken::Root")]
demo = r'''
use pact_models::path_exp::DocPath;
use pact_models::xml_utils::resolve_path;
fn main() {
  let dom = kiss_xml::parse_str("<r><g><a/><b/><a/></g></r>").unwrap();
  let got = resolve_path(dom.root_element(), &DocPath::new("$.r.*.b").unwrap());
  assert_eq!(got, vec!["/r[0]/g[0]/b[0]".to_string()]);
}
'''
deps = 'kiss_xml = "1.0.1"'
