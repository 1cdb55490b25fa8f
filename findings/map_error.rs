// Querying a view whose map function fails must return the error, however many documents are to be mapped.
use bonsaidb::core::connection::{Connection, LowLevelConnection};
use bonsaidb::core::document::{BorrowedDocument, Emit};
use bonsaidb::core::schema::{Collection, CollectionMapReduce, Schema, SerializedCollection, SerializedView, View, ViewMapResult, ViewSchema, CollectionName, Name, Qualified};
use bonsaidb::core::schema::view::MapReduce;
use bonsaidb::core::transaction::{Operation, Transaction};
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Database;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Doc { n: u64 }
impl Collection for Doc {
    type PrimaryKey = u64;
    fn collection_name() -> CollectionName { CollectionName::new("demo", "docs") }
    fn define_views(s: &mut bonsaidb::core::schema::Schematic) -> Result<(), bonsaidb::core::Error> { s.define_view(ByN) }
}
impl bonsaidb::core::schema::SerializedCollection for Doc {
    type Contents = Doc;
    type Format = bonsaidb::core::transmog_pot::Pot;
    fn format() -> Self::Format { Default::default() }
}
#[derive(Debug, Clone)]
struct ByN;
impl View for ByN {
    type Collection = Doc; type Key = u64; type Value = u64;
    fn name(&self) -> Name { Name::new("by-n") }
}
impl bonsaidb::core::schema::SerializedView for ByN { type Format = bonsaidb::core::transmog_pot::Pot; fn format() -> Self::Format { Default::default() } }
impl ViewSchema for ByN { type View = Self; type MappedKey<'doc> = u64; }
impl MapReduce for ByN {
    fn map<'doc>(&self, document: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let d = Doc::document_contents(document)?;
        if d.n % 1000 == 7 { return Err(bonsaidb::core::Error::other("demo", "cannot map").into()); }
        document.header.emit_key_and_value(d.n, 1)
    }
}
fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let db = Database::open::<Doc>(StorageConfiguration::new(&dir))?;
    let mut tx = Transaction::new();
    for n in 0..8192u64 {
        tx.push(Operation::push_serialized::<Doc>(&Doc { n })?);
    }
    db.apply_transaction(tx)?;
    let (s, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = s.send(db.view::<ByN>().query().map(|m| m.len())); });
    match r.recv_timeout(std::time::Duration::from_secs(40)) {
        Ok(r) => { println!("{r:?}"); assert!(r.is_err()); }
        Err(_) => { println!("the query did not return"); std::process::exit(1); }
    }
    Ok(())
}
