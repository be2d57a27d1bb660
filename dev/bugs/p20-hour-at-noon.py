prop = "P20"
needs = "an hour of the clock without am or pm, evaluated between 12:00 and 12:59"
breaks = "the hour is taken to be after noon although that is how only the morning is treated"
edits = [("rust/pact_models/src/generators/datetime_expressions.rs", "TimeBase::Next { hour } => if dt.hour() < 12 {", "TimeBase::Next { hour } => if dt.hour() <= 12 {")]
demo = r'''
use chrono::{TimeZone, Utc};
use pact_models::generators::datetime_expressions::execute_time_expression;
fn main() {
  let dt = Utc.with_ymd_and_hms(2024, 1, 1, 12, 30, 0).unwrap();
  assert_eq!(execute_time_expression(&dt, "3 o'clock").unwrap(), Utc.with_ymd_and_hms(2024, 1, 1, 3, 0, 0).unwrap());
}
'''
deps = 'chrono = "0.4"'
