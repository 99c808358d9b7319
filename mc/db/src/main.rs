mod concurrent;
mod incremental;
mod lines;

fn main() {
    let ck = mc_core::Check::from_args();
    match ck.id.as_str() {
        "C16" => lines::c16(&ck),
        "C21" => incremental::c21(&ck),
        "C22" => concurrent::c22(&ck),
        id => {
            eprintln!("mc_db does not check {}", id);
            std::process::exit(2)
        }
    }
    ck.finish()
}
