// A handle that may delete documents but may not use View::DeleteDocs must not be able to delete through a view.
use bonsaidb::core::connection::Connection;
use bonsaidb::core::document::{CollectionDocument, Emit};
use bonsaidb::core::permissions::bonsai::{BonsaiAction, DatabaseAction, DocumentAction};
use bonsaidb::core::permissions::{Permissions, Statement};
use bonsaidb::core::schema::{Collection, CollectionMapReduce, SerializedCollection, View, ViewMapResult, ViewSchema};
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Database;
use serde::{Deserialize, Serialize};

#[derive(Debug, Serialize, Deserialize, Collection)]
#[collection(name = "things", views = [ByRank])]
struct Thing { rank: u32 }

#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Thing, key = u32, value = u32, name = "by-rank")]
struct ByRank;
impl CollectionMapReduce for ByRank {
    fn map<'doc>(&self, d: CollectionDocument<Thing>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key_and_value(d.contents.rank, 1)
    }
}
fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let db = Database::open::<Thing>(StorageConfiguration::new(&dir))?;
    Thing { rank: 1 }.push_into(&db)?;
    let limited = db.with_effective_permissions(Permissions::from(
        Statement::for_any().allowing(&BonsaiAction::Database(DatabaseAction::Document(DocumentAction::Delete))),
    )).unwrap();
    db.view::<ByRank>().query()?; // brings the view up to date
    let r = limited.view::<ByRank>().with_access_policy(bonsaidb::core::connection::AccessPolicy::NoUpdate).delete_docs();
    println!("delete_docs: {r:?}; documents left: {}", Thing::all(&db).count()?);
    assert!(r.is_err(), "deleted through a view without permission to do so");
    Ok(())
}
