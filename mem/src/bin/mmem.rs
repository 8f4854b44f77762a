//! One short history of each kind, then exit: Miri reports what is never freed.
fn main() {
    // an index runs that history, "none" no history at all
    let part: Option<usize> = std::env::args().nth(1).map(|a| a.parse().unwrap_or(usize::MAX));
    std::panic::set_hook(Box::new(|_| {}));
    let hs = mem::histories();
    for (i, (name, _, step)) in hs.iter().enumerate() {
        if part.is_some_and(|p| p != i) {
            continue;
        }
        // one history on the smallest parameters
        step(&mem::Input { p3: 11u32.into(), p5: 13u32.into(), k: 6 });
        println!("held {name}");
    }
    println!("MMEM-DONE");
}
