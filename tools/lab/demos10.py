D10={
'c01-class-dedup':'''
oak! {
  r = ["bb-d"]
}
fn main() {
  assert!(recognize_r("c".into_state()).is_successful());
}
''',
'c01-self-path':'''
mod m { use oak::oak; use oak_runtime::*; oak! { r = "b" } }
oak! {
  s = self::m::r:(^) "c"
  r = "a"
}
fn main() {
  assert!(recognize_s("bc".into_state()).is_successful(), "the rule of the module m");
  assert!(recognize_s("ac".into_state()).is_failed(), "not the rule of this grammar");
}
''',
'c06-skip-tail':'''
oak! {
  r = "a" ("b"?)*
}
fn main() {}
''',
}
