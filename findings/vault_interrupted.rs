// A first start that ends while the master keys are written can be repeated (C18).
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;

fn main() {
    let dir = std::env::args().nth(1).unwrap();
    if std::env::args().nth(2).is_some() {
        drop(Storage::open(StorageConfiguration::new(&dir)));
        return;
    }
    let me = std::env::current_exe().unwrap();
    for limit in [20, 60, 119, 125, 130, 140, 150, 170] {
        let d = format!("{dir}-{limit}");
        let s = std::process::Command::new("prlimit").arg(format!("--fsize={limit}")).arg(&me).arg(&d).arg("x").stderr(std::process::Stdio::null()).status().unwrap();
        let files = std::fs::read_dir(&d).unwrap().map(|e| { let e = e.unwrap(); (e.file_name(), e.metadata().unwrap().len()) }).collect::<Vec<_>>();
        println!("{limit}: {s:?} {files:?}");
        if let Err(e) = Storage::open(StorageConfiguration::new(&d)) { println!("cannot be opened: {e}"); std::process::exit(1); }
    }
}
