// last_transaction_id through an async handle requires the same permission as through a blocking one.
use bonsaidb::core::connection::AsyncConnection;
use bonsaidb::core::permissions::Permissions;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::AsyncDatabase;

#[tokio::main]
async fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let db = AsyncDatabase::open::<()>(StorageConfiguration::new(dir)).await?;
    assert!(db.last_transaction_id().await.is_ok());
    let limited = db.with_effective_permissions(Permissions::default()).unwrap();
    let read = limited.last_transaction_id().await;
    println!("{read:?}");
    assert!(read.is_err());
    Ok(())
}
