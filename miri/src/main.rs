//! Interpreted by Miri: the narrow cases of C25, one per line (hex) in the given file.
use mc::engine::{hex, unhex, Ctx};
fn main() {
    let path = std::env::args().nth(1).expect("file of cases");
    let text = std::fs::read_to_string(path).expect("cases");
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new();
    for l in text.lines() {
        println!("CASE {}", l);
        let b = unhex(l);
        debug_assert!(hex(&b) == l);
        if let Err(e) = mc::props::ub::c25(&b, &mut c) {
            println!("BAD {}", e);
            std::process::exit(1)
        }
    }
    println!("DONE {} {}", c.execs, c.trans);
}
