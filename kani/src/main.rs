//! Replays one contract on concrete values: contracts NAME HEX,HEX,... (the bytes of each symbolic value in order).
fn main() {
    #[cfg(not(kani))]
    {
        let a: Vec<String> = std::env::args().collect();
        let vals = a[2].split(',').filter(|s| !s.is_empty()).map(|s| {
            (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
        }).collect();
        contracts::k::INPUT.with(|i| *i.borrow_mut() = vals);
        if !contracts::run(&a[1]) { println!("NO-SUCH-CONTRACT"); }
        println!("HELD");
    }
}
