//! C16: reference files read as a branch, as HEAD and from memory.

use rusty_git::reference::{Error, Reference, ReferenceTarget};
use rusty_git::repository::Repository;
use serde_json::{json, Value};

use crate::gen;
use crate::io::Args;
use crate::proj;
use crate::repo::Scratch;
use crate::rng::Rng;

/// Where a reference which was read leads to. `empty` is a repository without anything: peeling
/// there fails with the id of the object which was looked for.
pub fn observe(r: &Result<Reference, Error>, empty: &Repository) -> Value {
    let r = match r {
        Ok(r) => r,
        Err(e) => return proj::ref_err(e),
    };
    let _ = format!("{:?}", r);
    let oid = match r.peel(empty) {
        Err(Error::DereferencingFailed(e)) => Some(e.id().to_hex()),
        _ => None,
    };
    match r.target() {
        ReferenceTarget::Direct(_) => {
            json!({"r": "ok", "t": "direct", "id": proj::bytes(oid.unwrap_or_default().as_bytes())})
        }
        ReferenceTarget::Symbolic(s) => {
            let name = s.data().to_vec();
            let utf8 = std::str::from_utf8(&name).ok();
            if r.name() != utf8 {
                return json!({"r": "ok", "t": "wrong-name"});
            }
            json!({"r": "ok", "t": "sym", "name": proj::bytes(&name),
                "oid": proj::opt(oid.map(|o| proj::bytes(o.as_bytes())))})
        }
    }
}

fn strip(mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        o.remove("m");
    }
    v
}

pub fn name(r: &mut Rng) -> Vec<u8> {
    let mut v = r.pick(&[&b"refs/heads/"[..], b"refs/tags/", b"refs/remotes/o/", b"refs/", b""]).to_vec();
    let n = r.range(1, 12);
    for _ in 0..n {
        v.push(*r.pick(b"abcxyz019-_.,+@#=!%&()'\"/$|;<>{}\xc3\xa9\xff\xfe\x80\xe3\x80\x80\xc2\xa0\xc2\x85"));
    }
    if r.pct(1) && r.pct(30) {
        let n = r.range(200, 9000);
        v.extend((0..n).map(|i| b"abcdefghi/"[i % 10]));
        v.push(b'z');
    }
    if r.pct(10) {
        v.extend(b"\xc2\xa0");
    }
    v
}

fn file(r: &mut Rng) -> Vec<u8> {
    let mut f = vec![];
    if r.pct(1) && r.pct(30) {
        // longer than what is usually read at once
        for _ in 0..r.range(5, 30) {
            f.push(b'#');
            let n = r.below(1200);
            f.extend((0..n).map(|i| b"ref: refs/heads/x "[i % 18]));
            f.extend(*r.pick(&[&b"\n"[..], b"\n\n", b"\n \n"]));
        }
    }
    for _ in 0..r.below(4) {
        match r.below(6) {
            5 if r.pct(30) => f.extend([&[r.byte()][..], r.pick(&[&b""[..], b"\n", b"x\n", b" x\n"])].concat()),
            0 | 5 => f.push(b'\n'),
            1 => f.extend(b"# pack-refs with: peeled\n"),
            2 => f.extend([b"#ref: ", &name(r)[..], b"\n"].concat()),
            3 => f.extend([b"#", &gen::hexid(r)[..], b"\n"].concat()),
            _ => f.extend(*r.pick(&[&b" \n"[..], b"   \n", b"\n\n", b"#\n", b" x\n", b"\t\n"])),
        }
    }
    let mut id = gen::hexid(r);
    if r.pct(30) {
        id.make_ascii_uppercase();
    }
    if r.pct(12) {
        match r.below(4) {
            0 => {
                id.pop();
            }
            1 => id.push(b'0'),
            2 => {
                let i = r.below(id.len());
                id[i] = r.byte();
            }
            _ => id.truncate(r.below(40)),
        }
    }
    match r.below(8) {
        0..=2 => {
            f.extend(b"ref: ");
            f.extend(name(r));
        }
        3..=4 => f.extend(&id),
        5 => {
            if r.pct(40) {
                let words: [&[u8]; 6] = [b"x", b"ref:", b"badid", b"0123abc", b"ref", &id];
                f.extend(*r.pick(&words));
                f.push(*r.pick(b"   \t"));
            }
            f.extend(&id);
            if r.pct(20) {
                f.push(*r.pick(b"   \t/"));
                f.extend(gen::hexid(r));
            }
        }
        6 => {
            f.extend(&id);
            f.push(b' ');
            f.extend(name(r));
        }
        _ => {
            for _ in 0..r.below(50) {
                f.push(*r.pick(b"ref: /#\n\t abc0123\xff\0"));
            }
        }
    }
    if r.pct(70) {
        f.extend(*r.pick(&[&b"\n"[..], b"\n", b"\n\n", b" \n", b"\r\n", b"\t", b"\nref: refs/heads/other\n", b"\n0000000000000000000000000000000000000000\n"]));
    }
    if r.pct(5) {
        gen::damage(r, &mut f);
    }
    f
}

pub fn run(a: &Args) {
    let mut cases = a.cases();
    let mut r = Rng::new(a.num("seed", 1) ^ 0x16);
    let mut befores: Vec<Vec<u8>> = vec![];
    for _ in 0..a.num("n", 0) {
        cases.push(json!({"k": "ref", "src": "random", "body": proj::bytes(&file(&mut r))}));
    }
    // Blank and comment lines stand for nothing, however many there are: what follows them is judged
    for i in 0..a.num("huge", 0) {
        let most = [65_536, 70_000, 300_000, 1 << 20, 5 << 20][i as usize % 5];
        let all: [&[&[u8]]; 3] = [&[b"\n"], &[b"#\n", b"\n"], &[b"# ref: refs/heads/no\n", b"\n", b"   \n"]];
        let lines = *r.pick(&all);
        let mut before = vec![];
        while before.len() < most {
            before.extend(*r.pick(lines));
        }
        if r.pct(30) {
            before.extend(vec![b'#'; most]);
            before.push(b'\n');
        }
        cases.push(json!({"k": "ref", "src": "huge", "body": proj::bytes(&file(&mut r)), "before": before.len()}));
        befores.push(before);
    }
    let work = a.work();
    let mut out = a.out();
    let s = Scratch::new(&work);
    let e = Scratch::new(&work);
    e.rm("HEAD");
    let (repo, empty) = (s.open(), e.open());
    let mut befores = befores.into_iter();
    for c in cases {
        let mut c = c;
        let mut body = proj::unbytes(&c["body"]);
        if c["src"] == "huge" {
            body.splice(0..0, befores.next().unwrap());
        }
        s.put("refs/heads/x", &body);
        s.put("HEAD", &body);
        let db = repo.reference_database();
        let obs = vec![
            proj::guard(|| observe(&db.reference(b"refs/heads/x"), &empty)),
            proj::guard(|| observe(&db.parse_reference(b"refs/heads/x"), &empty)),
            proj::guard(|| observe(&db.head(), &empty)),
            proj::guard(|| observe(&Reference::from_bytes(&body), &empty)),
        ];
        let mut obs: Vec<Value> = obs.into_iter().map(strip).collect();
        obs.dedup();
        c["obs"] = Value::Array(obs);
        out.put(&c);
    }
}
