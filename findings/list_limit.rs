// A limited list must not be shortened by documents that were deleted.
use bonsaidb::core::schema::{Collection, SerializedCollection};
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Database;
use serde::{Deserialize, Serialize};

#[derive(Debug, Serialize, Deserialize, Collection)]
#[collection(name = "things")]
struct Thing { rank: u32 }

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let db = Database::open::<Thing>(StorageConfiguration::new(&dir))?;
    let docs = (0..5).map(|rank| Thing { rank }.push_into(&db)).collect::<Result<Vec<_>, _>>().map_err(|e| e.error)?;
    docs[0].delete(&db)?;
    docs[1].delete(&db)?;
    let listed = Thing::all(&db).limit(2).query()?;
    let headers = Thing::all(&db).limit(2).headers()?;
    println!("documents: {}, listed: {}, headers: {}", Thing::all(&db).count()?, listed.len(), headers.len());
    assert_eq!(listed.len(), 2, "deleted documents count towards the limit");
    assert_eq!(headers.len(), 2, "deleted documents count towards the limit");
    Ok(())
}
