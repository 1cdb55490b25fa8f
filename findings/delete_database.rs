// Deleting a database that does not exist must not remove anything from the storage folder.
use bonsaidb::core::connection::StorageConnection;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;
use std::path::PathBuf;

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = PathBuf::from(std::env::args().nth(1).unwrap());
    std::fs::create_dir_all(&dir)?;
    let sibling = dir.with_file_name("sibling");
    std::fs::create_dir_all(&sibling)?;
    std::fs::write(sibling.join("precious"), b"data")?;
    let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<()>()?)?;
    let r = storage.delete_database("../sibling");
    println!("{r:?}; sibling exists: {}", sibling.exists());
    assert!(sibling.join("precious").exists());
    Ok(())
}
