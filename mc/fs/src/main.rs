mod dirs;
mod panics;
mod proc;
mod project;
mod pathalg;
mod text;
mod vfsmap;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("--child") => return proc::child(&args[2..]),
        Some("--panics") => return panics::child(),
        Some("--load") => return project::load_child(&args[2]),
        _ => {}
    }
    let ck = mc_core::Check::from_args();
    match ck.id.as_str() {
        "C17" => vfsmap::c17(&ck),
        "C18" => vfsmap::c18(&ck),
        "C19" => pathalg::c19(&ck),
        "C20" => dirs::c20(&ck),
        "C23" => project::c23(&ck),
        "C24" => project::c24(&ck),
        "C25" => proc::c25(&ck),
        "C26" => text::c26(&ck),
        "C27" => panics::c27(&ck),
        id => {
            eprintln!("mc_fs does not check {}", id);
            std::process::exit(2)
        }
    }
    ck.finish()
}
