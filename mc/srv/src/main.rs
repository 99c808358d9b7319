mod binary;
mod docs;
mod hostile;
mod oracle;
mod reqs;
mod sched;
mod stores;
mod text;
mod uris;
use mc_core::*;

fn main() {
    let ck = Check::from_args();
    match ck.id.as_str() {
        "C01" => docs::c01_c02(&ck, false),
        "C02" => docs::c01_c02(&ck, true),
        "C03" => reqs::c03(&ck),
        "C04" => hostile::c04(&ck),
        "C05" => reqs::c05(&ck),
        "C06" => text::c06(&ck),
        "C07" => text::c07(&ck),
        "C28" => stores::c28(&ck),
        "C29" => stores::c29(&ck),
        "C34" => binary::c34(&ck),
        "C35" => uris::c35(&ck),
        x => {
            eprintln!("no such property here: {}", x);
            std::process::exit(2)
        }
    }
    ck.finish()
}
