// Querying a view returns at most as many mappings as asked for, in the order asked for, also for single keys.
use bonsaidb::core::connection::Connection;
use bonsaidb::core::document::{CollectionDocument, Emit};
use bonsaidb::core::schema::{Collection, CollectionMapReduce, SerializedCollection, View, ViewMapResult, ViewSchema};
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Database;
use serde::{Deserialize, Serialize};

#[derive(Debug, Serialize, Deserialize, Collection)]
#[collection(name = "things", views = [ByRank])]
struct Thing { rank: u32 }

#[derive(Debug, Clone, View, ViewSchema)]
#[view(collection = Thing, key = u32, value = u32, name = "by-rank")]
struct ByRank;
impl CollectionMapReduce for ByRank {
    fn map<'doc>(&self, d: CollectionDocument<Thing>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key_and_value(d.contents.rank, 1)
    }
}
fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let db = Database::open::<Thing>(StorageConfiguration::new(&dir))?;
    for rank in [3, 1, 2, 1, 1] {
        Thing { rank }.push_into(&db)?;
        db.view::<ByRank>().query()?;
    }
    let all = db.view::<ByRank>().limit(2).query()?.len();
    let matches = db.view::<ByRank>().with_key(&1).limit(2).query()?.len();
    let several = db.view::<ByRank>().with_keys([&1, &2]).limit(2).query()?.len();
    let docs = db.view::<ByRank>().with_key(&1).limit(2).query_with_docs()?.len();
    let up = db.view::<ByRank>().with_keys([&1, &2, &3]).query()?.iter().map(|m| m.key).collect::<Vec<_>>();
    let down = db.view::<ByRank>().with_keys([&1, &2, &3]).descending().query()?.iter().map(|m| m.key).collect::<Vec<_>>();
    println!("at most 2: {all} {matches} {several} {docs}; ascending: {up:?}; descending: {down:?}");
    assert!(all <= 2 && matches <= 2 && several <= 2 && docs <= 2, "more mappings than asked for");
    assert_eq!(up, [1, 1, 1, 2, 3]);
    assert_eq!(down, [3, 2, 1, 1, 1]);
    Ok(())
}
