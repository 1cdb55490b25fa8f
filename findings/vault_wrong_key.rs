// Opening a storage whose vault key is not the one it was created with fails with an error (C18).
use bonsaidb::core::connection::StorageConnection;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::vault::LocalVaultKeyStorage;
use bonsaidb::local::Storage;
use std::path::Path;

fn open(dir: &Path, keys: &Path) -> Result<Storage, bonsaidb::local::Error> {
    Storage::open(StorageConfiguration::new(dir).vault_key_storage(LocalVaultKeyStorage::new(keys).unwrap()))
}
fn main() {
    let dir = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let (a, b) = (dir.join("a"), dir.join("b"));
    drop(open(&a, &dir.join("keys-a")).unwrap().list_databases().unwrap());
    drop(open(&b, &dir.join("keys-b")).unwrap());
    std::thread::sleep(std::time::Duration::from_millis(300));
    // the key of another storage is put in the place of the key of this one
    let key = |d: &Path| std::fs::read_dir(d).unwrap().next().unwrap().unwrap().path();
    std::fs::copy(key(&dir.join("keys-b")), key(&dir.join("keys-a"))).unwrap();
    let r = open(&a, &dir.join("keys-a"));
    println!("{:?}", r.as_ref().err());
    assert!(r.is_err());
    // so is a damaged file of master keys
    std::fs::copy(a.join("master-keys"), b.join("master-keys")).unwrap();
    assert!(open(&b, &dir.join("keys-b")).is_err());
    let mut bytes = std::fs::read(b.join("master-keys")).unwrap();
    let n = bytes.len(); bytes[n - 1] ^= 1; bytes[n / 2] ^= 1;
    std::fs::write(b.join("master-keys"), bytes).unwrap();
    assert!(open(&b, &dir.join("keys-b")).is_err());
}
