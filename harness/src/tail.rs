
#[macro_use]
pub mod h;

const VX_SOURCE_HASH: &str = env!("VX_SOURCE_HASH");

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() { println!("{}", VX_SOURCE_HASH); return; }
    std::process::exit(h::run::main(args));
}
