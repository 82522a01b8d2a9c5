//! Native replay: replay <harness> <p,p,..> <hex input>. Exit 0 = ran through, 43 = property violated, 42 = input
//! outside the assumptions, 134 (abort) = panic.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let params: Vec<u64> = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let hex = &a[3];
    let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    vharness::sx::PARAMS.with(|p| *p.borrow_mut() = params);
    vharness::sx::IN.with(|p| *p.borrow_mut() = (bytes, 0));
    let t = vharness::table();
    let f = t.iter().find(|x| x.0 == a[1]).expect("no such harness").1;
    f();
    println!("REPLAY: completed");
}
