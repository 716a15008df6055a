//! What needs the hooks in osmio, and stand-ins for a tree in which the hooks do not compile (a change
//! of private fields, say): Arc objects through a PBF file, Rc objects replaced by Arc objects, and the
//! changeset tag reader through a file.
#[cfg(osmio_verif)]
pub use osmio::verif_hooks::{changeset_tag_reader, new_arc_obj, new_rc_obj};

#[cfg(osmio_verif)]
pub use osmio::obj_types::RcOSMObj;

#[cfg(not(osmio_verif))]
pub use without::*;

#[cfg(not(osmio_verif))]
mod without {
    use osmio::changesets::ChangesetTagReader;
    use osmio::obj_types::ArcOSMObj;
    use osmio::{OSMObjectType, OSMReader, ObjId};
    use std::io::{Read, Write};
    use std::sync::atomic::{AtomicU64, Ordering};

    pub type RcOSMObj = ArcOSMObj;

    fn varint(mut v: u64, out: &mut Vec<u8>) {
        while v >= 128 {
            out.push(v as u8 | 128);
            v >>= 7;
        }
        out.push(v as u8);
    }
    fn bytes(field: u64, b: &[u8], out: &mut Vec<u8>) {
        varint(field << 3 | 2, out);
        varint(b.len() as u64, out);
        out.extend(b);
    }
    fn number(field: u64, v: u64, out: &mut Vec<u8>) {
        varint(field << 3, out);
        varint(v, out);
    }

    pub fn new_arc_obj(object_type: OSMObjectType, id: ObjId) -> ArcOSMObj {
        let (mut obj, mut group, mut block, mut blob, mut head, mut file) = (vec![], vec![], vec![], vec![], vec![], vec![]);
        let zigzag = ((id << 1) ^ (id >> 63)) as u64;
        match object_type {
            OSMObjectType::Node => {
                number(1, zigzag, &mut obj);
                number(8, 0, &mut obj);
                number(9, 0, &mut obj);
                bytes(1, &obj, &mut group);
            }
            OSMObjectType::Way => {
                number(1, id as u64, &mut obj);
                bytes(3, &obj, &mut group);
            }
            OSMObjectType::Relation => {
                number(1, id as u64, &mut obj);
                bytes(4, &obj, &mut group);
            }
        }
        let mut strings = vec![];
        bytes(1, b"", &mut strings);
        bytes(1, &strings, &mut block);
        bytes(2, &group, &mut block);
        bytes(1, &block, &mut blob);
        bytes(1, b"OSMData", &mut head);
        number(3, blob.len() as u64, &mut head);
        file.extend((head.len() as u32).to_be_bytes());
        file.extend(head);
        file.extend(blob);
        let mut o = osmio::arcpbf::PBFReader::new(&file[..]).next().unwrap();
        if let Some(n) = osmio::OSMObj::as_node_mut(&mut o) {
            osmio::Node::unset_lat_lon(n);
        }
        o
    }

    pub fn new_rc_obj(object_type: OSMObjectType, id: ObjId) -> RcOSMObj {
        new_arc_obj(object_type, id)
    }

    static N: AtomicU64 = AtomicU64::new(0);

    type Item = Result<(u64, Vec<(String, String)>), String>;

    pub struct Tags {
        inner: ChangesetTagReader<bzip2::read::MultiBzDecoder<std::fs::File>>,
        failed: Option<String>,
    }
    impl Iterator for Tags {
        type Item = Item;
        fn next(&mut self) -> Option<Item> {
            match self.inner.next() {
                None => self.failed.take().map(Err),
                Some(Err(e)) => {
                    self.failed = None;
                    Some(Err(e.to_string()))
                }
                Some(Ok(x)) => Some(Ok(x)),
            }
        }
    }

    pub fn changeset_tag_reader<R: Read>(mut reader: R) -> Tags {
        let mut data = vec![];
        let failed = reader.read_to_end(&mut data).err().map(|e| e.to_string());
        let path = std::env::temp_dir().join(format!("pbt-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        let mut z = bzip2::write::BzEncoder::new(std::fs::File::create(&path).unwrap(), bzip2::Compression::fast());
        z.write_all(&data).unwrap();
        z.finish().unwrap();
        let inner = ChangesetTagReader::from_filename(path.to_str().unwrap()).unwrap();
        std::fs::remove_file(&path).unwrap();
        Tags { inner, failed }
    }
}
