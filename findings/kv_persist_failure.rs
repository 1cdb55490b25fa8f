// A write of key-value changes that fails once must neither lose them, nor keep later ones from being written.
use bonsaidb::core::connection::StorageConnection;
use bonsaidb::core::keyvalue::KeyValue;
use bonsaidb::local::config::{Builder, StorageConfiguration};
use bonsaidb::local::Storage;
use std::time::Duration;

extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32; fn signal(s: i32, h: usize) -> usize; }
// The largest file this process may write.
fn limit(n: Option<u64>) { unsafe { signal(25, 1); let mut l = [0u64; 2]; getrlimit(1, &mut l); l[0] = n.unwrap_or(l[1]); assert_eq!(setrlimit(1, &l), 0); } }

fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    {
        let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<()>()?)?;
        let db = storage.create_database::<()>("d", true)?;
        db.set_key("first", &1u32).execute()?;
        std::thread::sleep(Duration::from_millis(200));
        limit(Some(10));
        db.set_key("a", &1u32).execute()?;
        std::thread::sleep(Duration::from_millis(300));
        limit(None);
        db.set_key("b", &1u32).execute()?;
        std::thread::sleep(Duration::from_millis(300));
        assert_eq!(db.get_key("a").into::<u32>()?, Some(1));
    }
    std::thread::sleep(Duration::from_millis(300));
    let storage = Storage::open(StorageConfiguration::new(&dir).with_schema::<()>()?)?;
    let db = storage.create_database::<()>("d", true)?;
    for key in ["first", "a", "b"] { 
        let v = db.get_key(key).into::<u32>()?;
        println!("{key}: {v:?}");
    }
    for key in ["first", "a", "b"] { assert_eq!(db.get_key(key).into::<u32>()?, Some(1)); }
    Ok(())
}
