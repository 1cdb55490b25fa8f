// A database may not take the place of the storage's own folder, or of a file it keeps there.
use bonsaidb::core::connection::StorageConnection;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;
use std::path::PathBuf;

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = PathBuf::from(std::env::args().nth(1).unwrap());
    std::fs::create_dir_all(&dir)?;
    let mut failed = 0;
    for name in ["", "vault-keys", "master-keys", "server-id", "storage-id"] {
        let dir = dir.join(format!("storage-of-{name}"));
        let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<()>()?)?;
        storage.create_database::<()>("keep", true)?;
        let before: Vec<_> = { let mut v: Vec<_> = std::fs::read_dir(&dir)?.map(|e| e.unwrap().file_name()).collect(); v.sort(); v };
        let c = storage.create_database::<()>(name, true).is_ok();
        let d = storage.delete_database(name).is_ok();
        let after: Vec<_> = match std::fs::read_dir(&dir) { Ok(r) => { let mut v: Vec<_> = r.map(|e| e.unwrap().file_name()).collect(); v.sort(); v }, Err(_) => vec![] };
        if c || d || before != after { println!("{name:?}: created {c}, deleted {d}; {before:?} -> {after:?}"); failed += 1; }
    }
    assert_eq!(failed, 0);
    Ok(())
}
