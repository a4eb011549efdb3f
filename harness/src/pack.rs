//! Encoding of pack files and their indexes.

use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::path::Path;

use crate::repo::{deflate, full, sha, sha_raw, unhex};

pub const KINDS: [(&str, u8); 4] = [("commit", 1), ("tree", 2), ("blob", 3), ("tag", 4)];

pub fn kind_no(k: &str) -> u8 {
    KINDS.iter().find(|x| x.0 == k).unwrap().1
}

pub fn type_no(t: u8, len: u64) -> Vec<u8> {
    type_len(t, len)
}

#[derive(Clone, Debug, Default)]
pub struct Entry {
    pub id: String,
    /// type and length
    pub hdr: Vec<u8>,
    /// offset or id of the base
    pub ext: Vec<u8>,
    /// inflated payload
    pub data: Vec<u8>,
    /// what is stored
    pub z: Vec<u8>,
    pub off: u64,
}

pub fn type_len(kind: u8, len: u64) -> Vec<u8> {
    let mut v = vec![];
    let mut b = (kind << 4) | (len & 15) as u8;
    let mut l = len >> 4;
    while l > 0 {
        v.push(b | 0x80);
        b = (l & 0x7f) as u8;
        l >>= 7;
    }
    v.push(b);
    v
}

pub fn ofs(mut n: u64) -> Vec<u8> {
    let mut v = vec![(n & 0x7f) as u8];
    n >>= 7;
    while n > 0 {
        n -= 1;
        v.push(0x80 | (n & 0x7f) as u8);
        n >>= 7;
    }
    v.reverse();
    v
}

pub fn varint(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

impl Entry {
    pub fn base(kind: &str, body: &[u8]) -> Entry {
        Entry {
            id: sha(&full(kind, body)),
            hdr: type_len(kind_no(kind), body.len() as u64),
            ext: vec![],
            data: body.to_vec(),
            z: deflate(body),
            off: 0,
        }
    }

    /// The distance is filled in when the pack is laid out (ext holds the index of the base).
    pub fn ofs_delta(id: &str, delta: &[u8]) -> Entry {
        Entry {
            id: id.to_string(),
            hdr: type_len(6, delta.len() as u64),
            ext: vec![],
            data: delta.to_vec(),
            z: deflate(delta),
            off: 0,
        }
    }

    pub fn ref_delta(id: &str, base: &str, delta: &[u8]) -> Entry {
        Entry {
            id: id.to_string(),
            hdr: type_len(7, delta.len() as u64),
            ext: unhex(base),
            data: delta.to_vec(),
            z: deflate(delta),
            off: 0,
        }
    }

    pub fn len(&self) -> u64 {
        (self.hdr.len() + self.ext.len() + self.z.len()) as u64
    }
}

/// A pack file; `gap` holes before entries make large offsets.
#[derive(Clone, Debug)]
pub struct Pack {
    pub version: u32,
    pub entries: Vec<Entry>,
    pub bytes: Vec<u8>,
    pub trailer: [u8; 20],
    pub sparse: bool,
    pub end: u64,
}

impl Pack {
    /// Lay out entries; `bases[i]` is the index of the base of an offset delta,
    /// `at[i]` a minimal offset.
    pub fn layout(version: u32, mut entries: Vec<Entry>, bases: &[Option<usize>], at: &[u64]) -> Pack {
        let mut pos = 12u64;
        let mut sparse = false;
        for i in 0..entries.len() {
            if let Some(&a) = at.get(i) {
                if a > pos {
                    sparse |= a > 1 << 24;
                    pos = a;
                }
            }
            entries[i].off = pos;
            if let Some(Some(b)) = bases.get(i) {
                entries[i].ext = ofs(pos - entries[*b].off);
            }
            pos += entries[i].len();
        }
        let mut p = Pack { version, entries, bytes: vec![], trailer: [0; 20], sparse, end: pos };
        if sparse {
            p.trailer = sha_raw(format!("{:?}", p.entries).as_bytes());
        } else {
            p.bytes = p.header();
            for e in &p.entries {
                p.bytes.resize(e.off as usize, 0);
                p.bytes.extend(&e.hdr);
                p.bytes.extend(&e.ext);
                p.bytes.extend(&e.z);
            }
            p.trailer = sha_raw(&p.bytes);
            p.bytes.extend(&p.trailer);
        }
        p
    }

    fn header(&self) -> Vec<u8> {
        let mut b = b"PACK".to_vec();
        b.extend(self.version.to_be_bytes());
        b.extend((self.entries.len() as u32).to_be_bytes());
        b
    }

    pub fn name(&self) -> String {
        format!("pack-{}", crate::repo::hex(&self.trailer))
    }

    pub fn write_pack(&self, path: &Path) {
        if !self.sparse {
            std::fs::write(path, &self.bytes).unwrap();
            return;
        }
        let mut f = File::create(path).unwrap();
        f.write_all(&self.header()).unwrap();
        for e in &self.entries {
            f.seek(SeekFrom::Start(e.off)).unwrap();
            f.write_all(&e.hdr).unwrap();
            f.write_all(&e.ext).unwrap();
            f.write_all(&e.z).unwrap();
        }
        f.seek(SeekFrom::Start(self.end)).unwrap();
        f.write_all(&self.trailer).unwrap();
    }

    fn sorted(&self) -> Vec<(Vec<u8>, u64, u32)> {
        let mut v: Vec<_> = self
            .entries
            .iter()
            .map(|e| {
                let mut raw = e.hdr.clone();
                raw.extend(&e.ext);
                raw.extend(&e.z);
                let mut c = flate2::Crc::new();
                c.update(&raw);
                (unhex(&e.id), e.off, c.sum())
            })
            .collect();
        v.sort();
        v
    }

    /// `force64`: entries with an offset of at least this are stored in the table of 64-bit offsets.
    pub fn index(&self, version: u32, force64: u64) -> Vec<u8> {
        let s = self.sorted();
        let mut b = vec![];
        if version == 2 {
            b.extend(b"\xfftOc\0\0\0\x02");
        }
        for i in 0..256usize {
            let n = s.iter().filter(|e| e.0[0] as usize <= i).count() as u32;
            b.extend(n.to_be_bytes());
        }
        if version == 1 {
            for e in &s {
                b.extend((e.1 as u32).to_be_bytes());
                b.extend(&e.0);
            }
        } else {
            for e in &s {
                b.extend(&e.0);
            }
            for e in &s {
                b.extend(e.2.to_be_bytes());
            }
            let mut large = vec![];
            for e in &s {
                // A table of 64-bit offsets never has an entry for every object
                if e.1 >= force64.min(1 << 31) && (e.1 >= 1 << 31 || large.len() + 1 < s.len()) {
                    b.extend((0x8000_0000u32 | large.len() as u32).to_be_bytes());
                    large.push(e.1);
                } else {
                    b.extend((e.1 as u32).to_be_bytes());
                }
            }
            for l in large {
                b.extend(l.to_be_bytes());
            }
        }
        b.extend(self.trailer);
        let h = sha_raw(&b);
        b.extend(h);
        b
    }
}
