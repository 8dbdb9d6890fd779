chain=lambda n,f: '\n'.join('  r%d = %s'%(i,f(i)) for i in range(n))
D8={
'c08-thread-slots':'''
oak! {
  abc = "a" / "b" / "c"
  def = "d" / "e" / "f"
}
fn message(first: bool) -> String {
  let r = if first { recognize_abc("x".into_state()).into_result() } else { recognize_def("x".into_state()).into_result() };
  match r { Failure(e) => e.expected_items(), _ => panic!() }
}
fn main() {
  let threads: Vec<_> = (0..32).map(|i| std::thread::spawn(move || {
    let first = i % 16 < 8;
    let want = if first { "`a` or `b` or `c`" } else { "`d` or `e` or `f`" };
    for _ in 0..20_000 { assert_eq!(message(first), want, "the parse of this thread alone"); }
  })).collect();
  for t in threads { t.join().unwrap(); }
}
''',
'c01-prefix-u8':'''
oak! {
  r = "%s" "c" .
}
fn main() {
  let long = "b".repeat(%d);
  assert!(recognize_r(format!("{}cd", long).as_str().into_state()).is_successful());
  assert!(recognize_r("bbbbcd".into_state()).is_failed(), "the literal has %d characters");
  assert!(recognize_r(format!("{}xcd", &long[1..]).as_str().into_state()).is_failed(), "the literal has %d characters");
}
'''%('b'*260,260,260,260),
'c06-bitset64':'''
oak! {
%s
}
fn main() {
  assert!(recognize_r0("((x".into_state()).is_successful());
}
'''%chain(66,lambda i: 'r%d'%(i+1) if i<65 else '"(" r0 / "x"'),
'c06-path-cap':'''
oak! {
%s
}
fn main() {
  assert!(recognize_r0("((x".into_state()).is_successful());
}
'''%chain(14,lambda i: '"(" r1 / "x"' if i==0 else 'r%d'%((i+1)%14)),
'c10-interned':'''
oak! {
%s
}
macro_rules! items { ($f:ident) => { match $f("x".into_state()).into_result() { Failure(e) => e.expected_items(), _ => panic!() } } }
fn main() {
%s
}
'''%(chain(270,lambda i: '"%s"'%chr(0x4e00+i)), "\n".join('  assert_eq!(items!(recognize_r%d), "`%s`");'%(i,chr(0x4e00+i)) for i in range(270))),
'c05-count-u8':'''
oak! {
  r = %s
}
fn main() {
  match recognize_r("x".into_state()).into_result() {
    Failure(e) => for c in 0..300u32 {
      let item = format!("`{}`", std::char::from_u32(0x4e00 + c).unwrap());
      assert!(e.expected_items().contains(&item), "{} was expected, too", item);
    },
    _ => panic!()
  }
}
'''%(' / '.join('r%d'%i for i in range(15))+'\n'+chain(15,lambda k:' / '.join('"%s"'%chr(0x4e00+k*20+i) for i in range(20)))),
}
