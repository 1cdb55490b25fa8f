// A database opened through a storage handle with limited permissions is limited too.
use bonsaidb::core::connection::StorageConnection;
use bonsaidb::core::keyvalue::KeyValue;
use bonsaidb::core::permissions::Permissions;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<()>()?)?;
    storage.create_database::<()>("kv", false)?;
    let limited = storage.with_effective_permissions(Permissions::from(vec![])).unwrap();
    let r1 = limited.database_without_schema("kv")?.set_key("a", &1_u32).execute();
    println!("database_without_schema: {r1:?}");
    let r2 = limited.database::<()>("kv")?.set_key("a", &1_u32).execute();
    println!("database: {r2:?}");
    assert!(r1.is_err());
    assert!(r2.is_err(), "a handle without permissions wrote a key");
    Ok(())
}
