// Dropping the last handle of a database must not lose key-value operations that were acknowledged.
use bonsaidb::core::connection::StorageConnection;
use bonsaidb::core::keyvalue::KeyValue;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let mut lost = 0;
    for round in 0..20u32 {
        {
            let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<()>()?)?;
            let db = storage.create_database::<()>("d", true)?;
            for key in 0..50u32 { db.set_key(format!("{round}-{key}"), &1u32).execute()?; }
        }
        let storage = loop {
            match Storage::open(StorageConfiguration::new(&dir).with_schema::<()>()?) {
                Ok(s) => break s,
                Err(_) => std::thread::sleep(std::time::Duration::from_millis(20)),
            }
        };
        let db = storage.create_database::<()>("d", true)?;
        for key in 0..50u32 {
            if db.get_key(format!("{round}-{key}")).into::<u32>()?.is_none() { lost += 1; }
        }
        drop(db); drop(storage);
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    println!("{lost} lost");
    assert_eq!(lost, 0);
    Ok(())
}
