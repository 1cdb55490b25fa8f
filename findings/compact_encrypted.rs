// Compacting a collection that has its own encryption key keeps it readable and encrypted at rest (C17).
use bonsaidb::core::connection::{Connection, LowLevelConnection};
use bonsaidb::core::document::KeyId;
use bonsaidb::core::schema::{Collection, CollectionName, Schematic, Qualified, SerializedCollection};
use bonsaidb::local::config::{Builder, Compression, StorageConfiguration};
use bonsaidb::local::Database;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Secret { text: String }
impl Collection for Secret {
    type PrimaryKey = u64;
    fn collection_name() -> CollectionName { CollectionName::new("demo", "secrets") }
    fn define_views(_: &mut Schematic) -> Result<(), bonsaidb::core::Error> { Ok(()) }
    fn encryption_key() -> Option<KeyId> { Some(KeyId::Master) }
}
impl bonsaidb::core::schema::SerializedCollection for Secret {
    type Contents = Secret;
    type Format = bonsaidb::core::transmog_pot::Pot;
    fn format() -> Self::Format { Default::default() }
}
const MARK: &str = "k2Jq8WmZ0s-secret";
fn found(dir: &std::path::Path) -> bool {
    std::fs::read_dir(dir).unwrap().any(|e| {
        let p = e.unwrap().path();
        if p.is_dir() { found(&p) } else { std::fs::read(&p).unwrap().windows(MARK.len()).any(|w| w == MARK.as_bytes()) }
    })
}
fn run(dir: String, config: StorageConfiguration) -> Result<(), Box<dyn std::error::Error>> {
    let dirp = std::path::PathBuf::from(&dir);
    {
        let db = Database::open::<Secret>(config.clone())?;
        let doc = Secret { text: MARK.into() }.push_into(&db)?;
        assert!(!found(&dirp), "{dir}: plain text before compacting");
        db.compact_collection::<Secret>()?;
        assert!(!found(&dirp), "{dir}: plain text after compacting");
        assert_eq!(Secret::get(&doc.header.id, &db)?.unwrap().contents.text, MARK);
    }
    // the first operation after opening is to compact
    let db = Database::open::<Secret>(config.clone())?;
    db.compact_collection::<Secret>()?;
    assert!(!found(&dirp), "{dir}: plain text after reopening and compacting");
    drop(db);
    let db = Database::open::<Secret>(config)?;
    assert_eq!(Secret::all(&db).query()?.len(), 1);
    Ok(())
}
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let a = format!("{dir}-a"); let b = format!("{dir}-b");
    let ra = run(a.clone(), StorageConfiguration::new(&a));
    println!("no default: {ra:?}");
    let rb = run(b.clone(), StorageConfiguration::new(&b).default_compression(Compression::Lz4));
    println!("compression: {rb:?}");
    assert!(ra.is_ok() && rb.is_ok());
}
