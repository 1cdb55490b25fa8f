// A database whose schema has no collections must have its key-value entries in a backup.
use bonsaidb::core::connection::StorageConnection;
use bonsaidb::core::keyvalue::KeyValue;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;
use bonsaidb::core::schema::Schema;
use std::path::PathBuf;

#[derive(Schema, Debug)]
#[schema(name = "kvonly", collections = [])]
struct KvOnly;

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = PathBuf::from(std::env::args().nth(1).unwrap());
    let backup = dir.with_extension("backup");
    {
        let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<KvOnly>()?)?;
        let db = storage.create_database::<KvOnly>("kv", false)?;
        db.set_key("a", &1_u32).execute()?;
        storage.backup(&backup)?;
    }
    let storage = Storage::open(StorageConfiguration::new(dir.with_extension("restored")).with_schema::<KvOnly>()?)?;
    storage.restore(&backup)?;
    let db = storage.database::<KvOnly>("kv")?;
    let v: Option<u32> = db.get_key("a").into()?;
    println!("restored: {v:?}");
    assert_eq!(v, Some(1));
    Ok(())
}
