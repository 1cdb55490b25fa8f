// A serialized key range deserializes to the same range (C27).
use bonsaidb::core::arc_bytes::serde::Bytes;
use bonsaidb::core::connection::{Bound, Range};

fn main() {
    let range: Range<Bytes> = Range {
        start: Bound::Included(Bytes::from(1_u64.to_be_bytes().to_vec())),
        end: Bound::Excluded(Bytes::from(5_u64.to_be_bytes().to_vec())),
    };
    let back = range.deserialize::<u64>().unwrap();
    assert!(matches!(back.start, Bound::Included(1)), "{back:?}");
    assert!(matches!(back.end, Bound::Excluded(5)), "{back:?}");
    println!("ok");
}
