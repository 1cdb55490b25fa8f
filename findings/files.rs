// Reading, seeking in, appending to and deleting stored files. Each part runs on its own; exits nonzero if any fails.
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::mpsc;
use std::time::Duration;

use bonsaidb_core::connection::{AsyncConnection, Connection};
use bonsaidb_core::schema::{CollectionName, Qualified};
use bonsaidb_files::{BonsaiFiles, FileConfig, FilesSchema, Truncate};
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::{AsyncDatabase, Database};
use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncWriteExt};

#[derive(Debug)]
struct Small;
impl FileConfig for Small {
    type Metadata = Option<()>;
    const BLOCK_SIZE: usize = 8;
    fn files_name() -> CollectionName { CollectionName::private("small") }
    fn blocks_name() -> CollectionName { CollectionName::private("small-blocks") }
}
#[derive(Debug)]
struct Huge;
impl FileConfig for Huge {
    type Metadata = Option<()>;
    const BLOCK_SIZE: usize = 2 * 1024 * 1024;
    fn files_name() -> CollectionName { CollectionName::private("huge") }
    fn blocks_name() -> CollectionName { CollectionName::private("huge-blocks") }
}

fn db<C: FileConfig>(path: &str) -> Database {
    Database::open::<FilesSchema<C>>(StorageConfiguration::new(path)).unwrap()
}
fn data(n: usize) -> Vec<u8> { (0..n).map(|i| (i % 251) as u8).collect() }

fn removed(p: String) {
    let db = db::<Small>(&p);
    let file = Small::build("/a").contents(&data(100)).create(&db).unwrap();
    let mut c = file.contents().unwrap();
    file.truncate(0, Truncate::RemovingEnd).unwrap();
    let mut out = Vec::new();
    assert!(c.read_to_end(&mut out).is_err(), "reading removed blocks succeeds");
    let file = Small::build("/b").contents(&data(100)).create(&db).unwrap();
    let mut c = file.contents().unwrap();
    file.truncate(92, Truncate::RemovingStart).unwrap();
    let mut out = Vec::new();
    if c.read_to_end(&mut out).is_ok() { assert_eq!(out, data(100), "other bytes are read"); }
}
fn position(p: String) {
    let db = db::<Small>(&p);
    let file = Small::build("/a").contents(&data(20)).create(&db).unwrap();
    let mut c = file.contents().unwrap();
    let mut out = Vec::new();
    c.read_to_end(&mut out).unwrap();
    assert_eq!(c.stream_position().unwrap(), 20);
}
fn negative(p: String) {
    let db = db::<Small>(&p);
    let file = Small::build("/a").contents(&data(20)).create(&db).unwrap();
    let mut c = file.contents().unwrap();
    assert!(c.seek(SeekFrom::End(-21)).is_err());
    assert!(c.seek(SeekFrom::Current(-1)).is_err());
    assert_eq!(c.seek(SeekFrom::End(-20)).unwrap(), 0);
}
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap() }
fn async_read(p: String) {
    rt().block_on(async {
        let db = AsyncDatabase::open::<FilesSchema<Small>>(StorageConfiguration::new(&p)).await.unwrap();
        let file = Small::build("/a").contents(&data(1000)).create_async(&db).await.unwrap();
        let mut out = Vec::new();
        file.contents().await.unwrap().read_to_end(&mut out).await.unwrap();
        assert_eq!(out, data(1000));
    })
}
fn async_rest(p: String) {
    rt().block_on(async {
        let db = AsyncDatabase::open::<FilesSchema<Small>>(StorageConfiguration::new(&p)).await.unwrap();
        let file = Small::build("/a").contents(&data(100)).create_async(&db).await.unwrap();
        let mut c = file.contents().await.unwrap();
        let mut b = [0; 10];
        c.read_exact(&mut b).await.unwrap();
        assert_eq!(c.to_vec().await.unwrap(), data(100)[10..].to_vec());
    })
}
fn async_seek(p: String) {
    rt().block_on(async {
        let db = AsyncDatabase::open::<FilesSchema<Small>>(StorageConfiguration::new(&p)).await.unwrap();
        let file = Small::build("/a").contents(&data(200)).create_async(&db).await.unwrap();
        let mut c = file.contents().await.unwrap();
        let mut b = [0; 8];
        {
            // a read that is given up
            let mut read = Box::pin(c.read_exact(&mut b));
            let _ = futures::poll!(&mut read);
        }
        AsyncSeekExt::seek(&mut c, SeekFrom::Start(160)).await.unwrap();
        c.read_exact(&mut b).await.unwrap();
        assert_eq!(b[..], data(200)[160..168]);
    })
}
fn async_failed(p: String) {
    rt().block_on(async {
        let db = AsyncDatabase::open::<FilesSchema<Small>>(StorageConfiguration::new(&p)).await.unwrap();
        let file = Small::build("/a").contents(&data(100)).create_async(&db).await.unwrap();
        let mut c = file.contents().await.unwrap();
        file.truncate(0, Truncate::RemovingEnd).await.unwrap();
        let mut b = [0; 8];
        assert!(c.read_exact(&mut b).await.is_err());
        assert!(c.read_exact(&mut b).await.is_err());
    })
}
fn stale_delete(p: String) {
    let db = db::<Small>(&p);
    let mut file = Small::build("/a").contents(&data(100)).create(&db).unwrap();
    let stale = file.clone();
    file.rename("b".to_string()).unwrap();
    if stale.delete().is_err() {
        assert_eq!(file.contents().unwrap().into_vec().unwrap(), data(100), "a delete that failed removed the contents");
    }
}
fn empty_name(p: String) {
    let db = db::<Small>(&p);
    let mut file = Small::build("/a").create(&db).unwrap();
    assert!(file.rename(String::new()).is_err(), "a file is renamed to nothing");
}
fn huge(p: String) {
    let db = db::<Huge>(&p);
    let mut file = Huge::build("/a").create(&db).unwrap();
    file.append_buffered().write_all(b"hello").unwrap();
    assert_eq!(file.contents().unwrap().into_vec().unwrap(), b"hello");
}

fn main() {
    let base = std::env::args().nth(1).unwrap();
    let parts: [(&str, fn(String)); 10] = [("removed", removed), ("position", position), ("negative", negative), ("async_read", async_read), ("async_rest", async_rest),
        ("async_seek", async_seek), ("async_failed", async_failed), ("stale_delete", stale_delete), ("empty_name", empty_name), ("huge", huge)];
    let mut bad = 0;
    for (name, f) in parts {
        let (tx, rx) = mpsc::channel();
        let path = format!("{base}-{name}");
        std::thread::spawn(move || { let r = std::panic::catch_unwind(|| f(path)); let _ = tx.send(r.is_ok()); });
        match rx.recv_timeout(Duration::from_secs(8)) {
            Ok(true) => println!("{name}: ok"),
            Ok(false) => { println!("{name}: FAILED"); bad += 1 }
            Err(_) => { println!("{name}: HANGS"); bad += 1 }
        }
    }
    std::process::exit(i32::from(bad > 0));
}
