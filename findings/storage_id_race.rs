// A new storage opened from several places at once is initialized once; an interrupted first start can be repeated (C21).
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;
use std::sync::{Arc, Barrier};

fn main() {
    let dir = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    // the process ended after the file was created, before it was written
    let half = dir.join("half");
    std::fs::create_dir_all(&half).unwrap();
    std::fs::write(half.join("storage-id"), b"").unwrap();
    let a = std::panic::catch_unwind(|| Storage::open(StorageConfiguration::new(&half)).map(|s| s.unique_id()).map_err(|e| e.to_string()));
    println!("interrupted: {a:?}");
    let mut bad = a.map_or(true, |r| r.is_err());
    for i in 0..60 {
        let path = dir.join(i.to_string());
        let start = Arc::new(Barrier::new(4));
        let ids = (0..4).map(|_| {
            let (path, start) = (path.clone(), start.clone());
            std::thread::spawn(move || {
                start.wait();
                Storage::open(StorageConfiguration::new(&path)).map(|s| s.unique_id().as_u64()).map_err(|e| e.to_string())
            })
        }).collect::<Vec<_>>().into_iter().map(|t| t.join().unwrap_or_else(|_| Err("panicked".into()))).collect::<Vec<_>>();
        if ids.iter().any(|x| x.is_err() || *x != ids[0]) { println!("{ids:?}"); bad = true; break; }
    }
    std::process::exit(i32::from(bad));
}
