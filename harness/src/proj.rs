//! Projection of what the public API returns to the values the specification talks about.

use std::panic::{catch_unwind, AssertUnwindSafe};

use rusty_git::object::{Id, ObjectData, ObjectKind, ReadObjectError, Signature};
use rusty_git::reference::{Error as RefError, Reference, ReferenceTarget};
use rusty_git::repository::Repository;
use serde_json::{json, Value};

thread_local! {
    /// Panics are observed, not printed
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|&x| Value::from(x)).collect())
}

pub fn opt(v: Option<Value>) -> Value {
    Value::Array(v.into_iter().collect())
}

pub fn unbytes(v: &Value) -> Vec<u8> {
    v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
}

fn sig(s: &Signature) -> Value {
    json!({"name": bytes(s.name()), "email": bytes(s.email()),
        "ts": opt(s.timestamp().map(|t| bytes(t))), "tz": opt(s.timezone().map(|t| bytes(t)))})
}

pub fn id(i: &Id) -> Value {
    bytes(i.to_hex().as_bytes())
}

pub fn object(d: &ObjectData) -> Value {
    let _ = format!("{:?}", d);
    match d {
        ObjectData::Commit(c) => {
            let parents: Vec<_> = c.parents().map(|p| id(&p)).collect();
            let n = c.parents().len();
            json!({"r": "ok", "t": "commit", "tree": id(&c.tree()), "parents": parents, "n": n,
                "author": sig(&c.author()), "committer": sig(&c.committer()),
                "enc": opt(c.encoding().map(|e| bytes(e))), "msg": bytes(c.message())})
        }
        ObjectData::Tree(t) => {
            let n = t.entries().len();
            let e: Vec<_> = t
                .entries()
                .map(|e| json!({"mode": e.mode(), "name": bytes(e.filename()), "id": id(&e.id())}))
                .collect();
            json!({"r": "ok", "t": "tree", "n": n, "entries": e})
        }
        ObjectData::Blob(b) => json!({"r": "ok", "t": "blob", "data": bytes(b.data())}),
        ObjectData::Tag(t) => {
            let kind = match t.kind() {
                ObjectKind::Commit => "commit",
                ObjectKind::Tree => "tree",
                ObjectKind::Blob => "blob",
                ObjectKind::Tag => "tag",
                _ => "none of these",
            };
            json!({"r": "ok", "t": "tag", "object": id(&t.object()), "kind": kind,
                "name": bytes(t.tag()), "tagger": opt(t.tagger().map(|s| sig(&s))),
                "msg": opt(t.message().map(|m| bytes(m)))})
        }
    }
}

/// Run a piece of library code; a panic is an observation.
pub fn guard(f: impl FnOnce() -> Value) -> Value {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    match r {
        Ok(v) => v,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"r": "panic", "m": m})
        }
    }
}

pub fn err_chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(": ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}

pub fn read(repo: &Repository, i: Id) -> Value {
    guard(|| match repo.object_database().parse_object(i) {
        Ok(o) => {
            if *o.id() != i {
                return json!({"r": "ok", "t": "wrong-id"});
            }
            object(o.data())
        }
        Err(e) => read_err(&e, i),
    })
}

/// A failed read names the object it was asked for; a full id is never ambiguous.
fn read_err(e: &ReadObjectError, i: Id) -> Value {
    let m = err_chain(e);
    if e.id().to_hex() != i.to_hex() || e.is_ambiguous() {
        return json!({"r": "misnamed", "m": m});
    }
    if e.is_not_found() {
        json!({"r": "nf"})
    } else {
        json!({"r": "err", "m": m})
    }
}

/// The bytes which read_object delivers: [body] for a packed object, [header and body] for a loose one.
pub fn raw(repo: &Repository, i: Id) -> Result<Vec<u8>, Value> {
    use std::io::Read;
    let mut out = Vec::new();
    let r = guard(|| match repo.object_database().read_object(i) {
        Ok(mut r) => match r.reader().read_to_end(&mut out) {
            Ok(_) => json!({"r": "ok"}),
            Err(e) => json!({"r": "err", "m": e.to_string()}),
        },
        Err(e) => read_err(&e, i),
    });
    if r["r"] == "ok" {
        Ok(out)
    } else {
        Err(r)
    }
}

pub fn ref_err(e: &RefError) -> Value {
    match e {
        RefError::ReferenceNotFound => json!({"r": "nf"}),
        RefError::DereferencingFailed(d) if d.is_not_found() => json!({"r": "onf"}),
        RefError::SymbolicReferenceLoop => json!({"r": "loop"}),
        RefError::InvalidReference(_) => json!({"r": "bad", "m": err_chain(e)}),
        e => json!({"r": "err", "m": err_chain(e)}),
    }
}

pub fn reference(r: &Result<Reference, RefError>) -> Value {
    match r {
        Ok(r) => {
            let _ = format!("{:?}", r);
            match r.target() {
                ReferenceTarget::Direct(d) => {
                    // The id is not accessible otherwise, unless peeling fails
                    let s = format!("{:?}", d);
                    let hex = s
                        .split(|c: char| !c.is_ascii_hexdigit())
                        .find(|w| w.len() == 40)
                        .unwrap_or("")
                        .to_string();
                    json!({"r": "ok", "t": "direct", "id": bytes(hex.as_bytes())})
                }
                ReferenceTarget::Symbolic(s) => {
                    json!({"r": "ok", "t": "sym", "name": bytes(s.data()),
                        "utf8": r.name().map_or(false, |n| n.as_bytes() == &**s.data())})
                }
            }
        }
        Err(e) => ref_err(e),
    }
}
