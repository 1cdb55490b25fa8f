// Deleting through a view deletes a document once, however many entries it has.
use bonsaidb::core::connection::Connection;
use bonsaidb::core::document::{CollectionDocument, Emit};
use bonsaidb::core::schema::{Collection, CollectionMapReduce, SerializedCollection, View, ViewMapResult, ViewSchema, view::map::Mappings};
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Database;
use serde::{Deserialize, Serialize};

#[derive(Debug, Serialize, Deserialize, Collection)]
#[collection(name = "things", views = [ByTag])]
struct Thing { tags: Vec<u32> }

#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Thing, key = u32, value = u32, name = "by-tag")]
struct ByTag;
impl CollectionMapReduce for ByTag {
    fn map<'doc>(&self, d: CollectionDocument<Thing>) -> ViewMapResult<'doc, Self> {
        d.contents.tags.iter().map(|t| d.header.emit_key_and_value(*t, 1)).collect::<Result<Mappings<u32, u32>, _>>()
    }
}
fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let db = Database::open::<Thing>(StorageConfiguration::new(&dir))?;
    Thing { tags: vec![1, 2] }.push_into(&db)?;
    Thing { tags: vec![2] }.push_into(&db)?;
    let r = db.view::<ByTag>().delete_docs();
    println!("delete_docs: {r:?}; documents left: {}", Thing::all(&db).count()?);
    assert_eq!(r?, 2);
    assert_eq!(Thing::all(&db).count()?, 0);
    Ok(())
}
