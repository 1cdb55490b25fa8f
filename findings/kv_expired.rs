// A key whose expiration has passed is not returned after the database is opened again.
use bonsaidb::core::connection::StorageConnection;
use bonsaidb::core::keyvalue::{KeyValue,Timestamp};
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;
use std::time::Duration;
fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    {
        let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<()>()?)?;
        let db = storage.create_database::<()>("d", true)?;
        for i in 0..2000u32 { db.set_key(format!("k{i}"), &1u32).expire_at(std::time::SystemTime::now() + Duration::from_secs(1)).execute()?; }
    }
    std::thread::sleep(Duration::from_millis(1500));
    let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<()>()?)?;
    let db = storage.create_database::<()>("d", true)?;
    let found = (0..2000u32).filter(|i| db.get_key(format!("k{i}")).into::<u32>().unwrap().is_some()).count();
    println!("{found} expired keys returned");
    assert_eq!(found, 0);
    Ok(())
}
