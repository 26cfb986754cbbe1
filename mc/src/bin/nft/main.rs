//! C08-C13 (ERC-721) and C15-C17 (ERC-1155); C10 covers both.
extern crate alloc;
mod e1155;
mod e721;
use mc::report::Check;

fn main() {
    mc::host::install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let mut c = Check::new(&id);
    c.assume("the host model of the Stylus VM (storage cache, calls, reverts, logs) is faithful");
    match id.as_str() {
        "C08" => e721::c08(&mut c),
        "C09" => e721::c09(&mut c),
        "C10" => {
            e721::c10_721(&mut c);
            e1155::c10(&mut c);
        }
        "C11" => e721::c11(&mut c),
        "C12" => e721::c12(&mut c),
        "C13" => e721::c13(&mut c),
        "C15" => e1155::c15(&mut c),
        "C16" => e1155::c16(&mut c),
        "C17" => e1155::c17(&mut c),
        _ => panic!("unknown id"),
    }
    c.finish()
}
