// A database created under the name of a deleted one starts afresh: its views show its own documents.
use bonsaidb::core::connection::{Connection, LowLevelConnection, StorageConnection};
use bonsaidb::core::document::{BorrowedDocument, Emit};
use bonsaidb::core::schema::{Collection, Schema, SerializedCollection, SerializedView, View, ViewMapResult, ViewSchema, CollectionName, Name, Qualified};
use bonsaidb::core::schema::view::MapReduce;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Doc { n: u64 }
impl Collection for Doc {
    type PrimaryKey = u64;
    fn collection_name() -> CollectionName { CollectionName::new("demo", "docs") }
    fn define_views(s: &mut bonsaidb::core::schema::Schematic) -> Result<(), bonsaidb::core::Error> { s.define_view(ByN) }
}
impl bonsaidb::core::schema::SerializedCollection for Doc {
    type Contents = Doc;
    type Format = bonsaidb::core::transmog_pot::Pot;
    fn format() -> Self::Format { Default::default() }
}
#[derive(Debug, Clone)]
struct ByN;
impl View for ByN {
    type Collection = Doc; type Key = u64; type Value = u64;
    fn name(&self) -> Name { Name::new("by-n") }
}
impl bonsaidb::core::schema::SerializedView for ByN { type Format = bonsaidb::core::transmog_pot::Pot; fn format() -> Self::Format { Default::default() } }
impl ViewSchema for ByN { type View = Self; type MappedKey<'doc> = u64; }
impl MapReduce for ByN {
    fn map<'doc>(&self, document: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let d = Doc::document_contents(document)?;
        document.header.emit_key_and_value(d.n, 1)
    }
}
fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<Doc>()?)?;
    let db = storage.create_database::<Doc>("d", false)?;
    for n in 0..20u64 { Doc { n }.push_into(&db)?; }
    assert_eq!(db.view::<ByN>().query()?.len(), 20);
    drop(db);
    storage.delete_database("d")?;
    let db = storage.create_database::<Doc>("d", false)?;
    for n in 0..3u64 { Doc { n }.push_into(&db)?; }
    let found = db.view::<ByN>().query()?.len();
    println!("{found} of 3");
    assert_eq!(found, 3);
    Ok(())
}
