// A role named by its name (not its id) must be assignable to a user.
use bonsaidb::core::admin::{PermissionGroup, Role, User};
use bonsaidb::core::connection::StorageConnection;
use bonsaidb::core::schema::{NamedCollection, SerializedCollection};
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let storage = Storage::open(StorageConfiguration::new(&dir))?;
    let admin = storage.admin();
    let user = storage.create_user("ecton")?;
    // a group and a role whose ids differ
    PermissionGroup::named("unrelated").push_into(&admin)?;
    PermissionGroup::named("editors").push_into(&admin)?;
    let role = Role::named("editors").push_into(&admin)?;
    let r = storage.add_role_to_user("ecton", "editors");
    let user = User::get(&user, &admin)?.unwrap();
    println!("{r:?} roles {:?}, the role's id is {}", user.contents.roles, role.header.id);
    assert_eq!(user.contents.roles, vec![role.header.id]);
    Ok(())
}
