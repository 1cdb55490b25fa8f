// A handle restricted with with_effective_permissions must not be able to assume a stronger session.
use bonsaidb::core::connection::{Session, SessionAuthentication, StorageConnection};
use bonsaidb::core::permissions::Permissions;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::{Storage, StorageNonBlocking};

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let storage = Storage::open(StorageConfiguration::new(dir).with_schema::<()>()?)?;
    let limited = storage.with_effective_permissions(Permissions::default()).unwrap();
    assert!(limited.list_databases().is_err());
    let raised = limited.assume_session(Session {
        id: None,
        authentication: SessionAuthentication::None,
        permissions: Permissions::allow_all(),
    });
    let listed = raised.and_then(|s| s.list_databases());
    println!("listed after assuming: {}", listed.is_ok());
    assert!(listed.is_err());
    Ok(())
}
