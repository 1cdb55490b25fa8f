// A user has the permissions of the groups of its roles, and of no role it was not given.
use bonsaidb::core::admin::{PermissionGroup, Role};
use bonsaidb::core::connection::{HasSession, IdentityReference, StorageConnection};
use bonsaidb::core::permissions::bonsai::{bonsaidb_resource_name, BonsaiAction, ServerAction};
use bonsaidb::core::permissions::Statement;
use bonsaidb::core::schema::SerializedCollection;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let storage = Storage::open(StorageConfiguration::new(&dir))?;
    let admin = storage.admin();
    PermissionGroup::named("unrelated").push_into(&admin)?;
    let group = PermissionGroup::named("list")
        .with_group_ids([Statement::for_any().allowing(&BonsaiAction::Server(ServerAction::ListDatabases))])
        .push_into(&admin)?;
    let mut role = Role::named("lister");
    role.groups.push(group.header.id);
    let role = role.push_into(&admin)?;
    storage.create_user("ecton")?;
    storage.add_role_to_user("ecton", role.header.id)?;
    let s = storage.assume_identity(IdentityReference::user("ecton")?)?;
    let ok = s.session().unwrap().allowed_to(bonsaidb_resource_name(), &BonsaiAction::Server(ServerAction::ListDatabases));
    println!("a user with the role may list databases: {ok}");
    assert!(ok);
    Ok(())
}
