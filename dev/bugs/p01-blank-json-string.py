prop = "P01"
needs = "a V4 JSON body that is a JSON string consisting only of white space"
breaks = "such a body is loaded as an empty body: content and content type are lost"
edits = [("rust/pact_models/src/v4/http_parts.rs", "                      if str_value.is_empty() {", "                      if str_value.trim().is_empty() {")]
demo = r'''
use pact_models::{bodies::OptionalBody, content_types::ContentType, v4::{http_parts::HttpRequest, interaction::{interaction_from_json, V4Interaction}, synch_http::SynchronousHttp}};
fn main() {
  let body = OptionalBody::Present("\"  \"".into(), Some(ContentType::from("application/json")), None);
  let i = SynchronousHttp { request: HttpRequest { body: body.clone(), ..HttpRequest::default() }, ..SynchronousHttp::default() };
  let back = interaction_from_json("demo", 0, &i.to_json()).unwrap().as_v4_http().unwrap();
  assert_eq!(back.request.body, body);
}
'''
