// A document inserted while a view is being rebuilt for a new version must show up in the view.
use bonsaidb::core::connection::{Connection, LowLevelConnection, StorageConnection};
use bonsaidb::core::document::{BorrowedDocument, Emit};
use bonsaidb::core::schema::{Collection, Schema, SerializedCollection, SerializedView, View, ViewMapResult, ViewSchema, CollectionName, Name, Qualified};
use bonsaidb::core::schema::view::MapReduce;
use bonsaidb::core::transaction::{Operation, Transaction};
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Database;
use std::sync::atomic::{AtomicU64, AtomicBool, Ordering};
use serde::{Deserialize, Serialize};

static VERSION: AtomicU64 = AtomicU64::new(0);
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Doc { n: u64 }
impl Collection for Doc {
    type PrimaryKey = u64;
    fn collection_name() -> CollectionName { CollectionName::new("demo", "docs") }
    fn define_views(s: &mut bonsaidb::core::schema::Schematic) -> Result<(), bonsaidb::core::Error> { s.define_view(ByN) }
}
impl bonsaidb::core::schema::SerializedCollection for Doc {
    type Contents = Doc;
    type Format = bonsaidb::core::transmog_pot::Pot;
    fn format() -> Self::Format { Default::default() }
}
#[derive(Debug, Clone)]
struct ByN;
impl View for ByN {
    type Collection = Doc; type Key = u64; type Value = u64;
    fn name(&self) -> Name { Name::new("by-n") }
}
impl bonsaidb::core::schema::SerializedView for ByN { type Format = bonsaidb::core::transmog_pot::Pot; fn format() -> Self::Format { Default::default() } }
impl ViewSchema for ByN { type View = Self; type MappedKey<'doc> = u64; 
    fn version(&self) -> u64 { VERSION.load(Ordering::SeqCst) } }
impl MapReduce for ByN {
    fn map<'doc>(&self, document: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let d = Doc::document_contents(document)?;
        document.header.emit_key_and_value(d.n, 1)
    }
}
fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let mut total = 0u64;
    let mut missing = 0;
    for round in 0..6 {
        VERSION.store(round, Ordering::SeqCst);
        let db = Database::open::<Doc>(StorageConfiguration::new(&dir))?;
        if round == 0 {
            let mut tx = Transaction::new();
            for n in 0..60000u64 { tx.push(Operation::push_serialized::<Doc>(&Doc { n })?); }
            db.apply_transaction(tx)?;
            total += 60000;
            db.view::<ByN>().query()?;
            continue;
        }
        let stop = std::sync::Arc::new(AtomicBool::new(false));
        let t = { let (db, stop) = (db.clone(), stop.clone()); std::thread::spawn(move || { let mut k = 0; while !stop.load(Ordering::SeqCst) { Doc { n: 1_000_000 + k }.push_into(&db).unwrap(); k += 1; } k }) };
        db.view::<ByN>().query()?;
        stop.store(true, Ordering::SeqCst);
        total += t.join().unwrap();
        let found = db.view::<ByN>().query()?.len() as u64;
        println!("{found} of {total}");
        if found != total { missing += 1; }
    }
    assert_eq!(missing, 0, "documents are missing from the view");
    Ok(())
}
