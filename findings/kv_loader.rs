// Loading expirations when a database is opened must not give back an expiration that was cleared meanwhile.
use bonsaidb::core::connection::StorageConnection;
use bonsaidb::core::keyvalue::KeyValue;
use bonsaidb::local::config::{Builder, KeyValuePersistence, PersistenceThreshold, StorageConfiguration};
use bonsaidb::local::Storage;
use std::time::{Duration, Instant, SystemTime};
const N: u32 = 4000;
fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let cfg = || StorageConfiguration::new(&dir).key_value_persistence(KeyValuePersistence::lazy([PersistenceThreshold::after_changes(100000), PersistenceThreshold::after_changes(1).and_duration(Duration::from_secs(60))])).with_schema::<()>();
    let t = Instant::now();
    let expires = SystemTime::now() + Duration::from_secs(20);
    {
        let storage = Storage::open(cfg()?)?;
        let db = storage.create_database::<()>("d", true)?;
        for i in 0..N { db.set_key(format!("k{i:05}"), &1u32).expire_at(expires).execute()?; }
    }
    println!("{:?}", t.elapsed());
    std::thread::sleep(Duration::from_millis(500));
    let storage = Storage::open(cfg()?)?;
    let db = storage.create_database::<()>("d", true)?;
    let s = Instant::now();
    for i in N - 1000..N { db.set_key(format!("k{i:05}"), &1u32).execute()?; std::thread::sleep(Duration::from_micros(300)); }
    println!("set after {:?}", s.elapsed());
    std::thread::sleep(Duration::from_secs(22).saturating_sub(t.elapsed()));
    let lost = (N - 1000..N).filter(|i| db.get_key(format!("k{i:05}")).into::<u32>().unwrap().is_none()).count();
    println!("{lost} keys without expiration have expired");
    assert_eq!(lost, 0);
    Ok(())
}
