// An operation that fails must leave the expiration of its key as it was.
use bonsaidb::core::connection::StorageConnection;
use bonsaidb::core::keyvalue::KeyValue;
use bonsaidb::local::config::{Builder, KeyValuePersistence, PersistenceThreshold, StorageConfiguration};
use bonsaidb::local::Storage;
use std::time::Duration;

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    {
        let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<()>()?)?;
        let db = storage.create_database::<()>("d", true)?;
        for i in 0..3000u32 { db.set_key(format!("k{i}"), &i).execute()?; }
        std::thread::sleep(Duration::from_millis(500));
    }
    std::thread::sleep(Duration::from_millis(300));
    let file = std::path::Path::new(&dir).join("d").join("kv.nebari");
    let good = std::fs::read(&file)?;
    let mut bad = good.clone();
    let n = bad.len() - 30000; println!("{} bytes", bad.len());
    for b in bad[200..n].iter_mut().step_by(97) { *b ^= 0x55; }
    let write = |x: &[u8]| { use std::io::{Seek, Write}; let mut f = std::fs::OpenOptions::new().write(true).open(&file).unwrap(); f.rewind().unwrap(); f.write_all(x).unwrap(); };
    write(&bad);
    let storage = Storage::open(StorageConfiguration::new(&dir).key_value_persistence(KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1_000_000)])).with_schema::<()>()?)?;
    let db = storage.create_database::<()>("d", true)?;
    std::thread::sleep(Duration::from_millis(300));
    let mut failed = Vec::new();
    for i in (0..3000u32).step_by(300) {
        if db.set_key(format!("k{i}"), &9999u32).expire_in(Duration::from_millis(200)).execute().is_err() { failed.push(i); }
    }
    println!("{} operations failed", failed.len());
    assert!(!failed.is_empty());
    write(&good);
    std::thread::sleep(Duration::from_millis(600));
    // What has been read while it was damaged is cached: those keys can't be read, but they must not be reported as absent.
    let lost = failed.iter().filter(|i| matches!(db.get_key(format!("k{i}")).into::<u32>(), Ok(None))).count();
    println!("{lost} keys expired by an operation that failed");
    std::process::exit(i32::from(lost > 0))
}
