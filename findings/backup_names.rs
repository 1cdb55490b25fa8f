// A backup that is restored contains every document and key, whatever their names are.
use bonsaidb::core::connection::{Connection, LowLevelConnection, StorageConnection};
use bonsaidb::core::keyvalue::KeyValue;
use bonsaidb::core::schema::{Collection, SerializedCollection};
use bonsaidb::core::transaction::{Operation, Transaction};
use bonsaidb::core::document::DocumentId;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;
use serde::{Deserialize, Serialize};

#[derive(Debug, Serialize, Deserialize, Collection)]
#[collection(name = "things", primary_key = String)]
struct Thing { v: u32 }

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let backup = std::path::PathBuf::from(format!("{dir}.backup"));
    let ids = ["plain", "a$b", "$5", "a/b", "100%", "%2F", "..", "ä", "%"];
    let keys = ["plain", "a/b", "100%", "%2F", "..", "../../../escaped", "a._key._b", "nul\\"];
    let mut failed = 0;
    for (ids, keys) in [(&ids[..1], &keys[..1])].into_iter().chain(ids.chunks(1).map(|i| (i, &keys[..0]))).chain(keys.chunks(1).map(|k| (&ids[..0], k))) {
        let _ = std::fs::remove_dir_all(&backup);
        let _ = std::fs::remove_dir_all(&dir);
        {
            let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<Thing>()?)?;
            let db = storage.create_database::<Thing>("d", true)?;
            for id in ids { Thing { v: 1 }.insert_into(&id.to_string(), &db)?; }
            for k in keys { db.set_key(*k, &1u32).execute()?; db.with_key_namespace("n/s").set_key(*k, &2u32).execute()?; }
            if let Err(e) = storage.backup(&backup) { println!("{ids:?} {keys:?}: backup fails: {}", e.to_string().lines().next().unwrap()); failed += 1; continue; }
        }
        std::fs::remove_dir_all(&dir)?;
        let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<Thing>()?)?;
        if let Err(e) = storage.restore(&backup) { println!("{ids:?} {keys:?}: restore fails: {}", e.to_string().lines().next().unwrap()); failed += 1; continue; }
        let db = storage.database::<Thing>("d")?;
        for id in ids { if Thing::get(&id.to_string(), &db)?.is_none() { println!("document {id:?} is lost"); failed += 1; } }
        for k in keys {
            if db.get_key(*k).into::<u32>()? != Some(1) { println!("key {k:?} is lost"); failed += 1; }
            if db.with_key_namespace("n/s").get_key(*k).into::<u32>()? != Some(2) { println!("key {k:?} of the namespace is lost"); failed += 1; }
        }
    }
    std::process::exit(i32::from(failed > 0))
}
