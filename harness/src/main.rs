//! Native replay: runs one harness on concrete inputs.
//! usage: replay HARNESS TIER [INPUT...]   (also reads batches from stdin with `replay -`)
use mh::sx;

#[path = "fence.rs"]
mod fence;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let name = &args[1];
    let tier: u32 = args[2].parse().unwrap();
    let inputs: Vec<u64> = args[3..].iter().map(|s| s.parse().unwrap()).collect();
    sx::TIER.with(|t| *t.borrow_mut() = tier);
    sx::INPUTS.with(|i| *i.borrow_mut() = inputs);
    std::panic::set_hook(Box::new(|info| {
        if sx::QUIET.with(|q| *q.borrow()) {
            return;
        }
        println!("PANIC {}", info.to_string().replace('\n', " "));
        sx::finish("panic")
    }));
    {
        for (n, f) in mh::tables() {
            if n == name {
                if !cfg!(feature = "nofence") {
                    fence::on();
                }
                f();
                fence::off();
                sx::finish("ok")
            }
        }
    }
    println!("STATUS no-such-harness");
}
