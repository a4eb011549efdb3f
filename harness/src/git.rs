//! What git itself says about an object (which has to fit the specification as well).

use std::process::Command;

use serde_json::{json, Value};

use crate::proj::bytes;
use crate::repo::Scratch;

fn git(s: &Scratch, args: &[&str]) -> Option<Vec<u8>> {
    let o = Command::new("git")
        .args(["-c", "safe.directory=*", "-C"])
        .arg(&s.dir)
        .args(args)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("GIT_CONFIG_GLOBAL", "/dev/null")
        .output()
        .expect("git");
    o.status.success().then_some(o.stdout)
}

fn sig(f: &[&[u8]]) -> Value {
    json!({"name": bytes(f[0]), "email": bytes(f[1]), "ts": bytes(f[2])})
}

/// None if git has no way to say: its messages end at the first NUL
pub fn ask(s: &Scratch, t: &str, id: &str, body: &[u8]) -> Option<Value> {
    if t != "tree" && body.contains(&0) {
        return None;
    }
    let ok = match t {
        "commit" => git(
            s,
            &["log", "--no-walk", "--encoding=none", "--format=tformat:%T%x00%P%x00%an%x00%ae%x00%at%x00%cn%x00%ce%x00%ct%x00%e%x00%B%x00", id],
        )
        .and_then(|o| {
            let f: Vec<&[u8]> = o.split(|&b| b == 0).collect();
            (f.len() == 11).then(|| {
                let ps: Vec<_> = f[1].split(|&b| b == b' ').filter(|p| !p.is_empty()).map(bytes).collect();
                json!({"r": "ok", "tree": bytes(f[0]), "parents": ps, "author": sig(&f[2..5]), "committer": sig(&f[5..8]),
                    "enc": bytes(f[8]), "msg": bytes(f[9])})
            })
        }),
        "tag" => {
            let name = format!("refs/tags/t{}", id);
            s.put(&name, format!("{}\n", id).as_bytes());
            let r = git(
                s,
                &["for-each-ref", "--format=%(objecttype)%00%(object)%00%(type)%00%(tag)%00%(taggername)%00%(taggeremail)%00%(contents)%00", &name],
            );
            s.rm(&name);
            r.and_then(|o| {
                let f: Vec<&[u8]> = o.split(|&b| b == 0).collect();
                (f.len() == 8 && f[0] == b"tag").then(|| {
                    json!({"r": "ok", "object": bytes(f[1]), "kind": String::from_utf8_lossy(f[2]), "name": bytes(f[3]),
                        "tname": bytes(f[4]), "temail": bytes(f[5]), "msg": bytes(f[6])})
                })
            })
        }
        "tree" => git(s, &["ls-tree", "-z", id]).map(|o| {
            let es: Vec<_> = o
                .split(|&b| b == 0)
                .filter(|l| !l.is_empty())
                .map(|l| {
                    let tab = l.iter().position(|&b| b == b'\t').unwrap();
                    let head: Vec<&[u8]> = l[..tab].split(|&b| b == b' ').collect();
                    let mode = u32::from_str_radix(std::str::from_utf8(head[0]).unwrap(), 8).unwrap();
                    json!({"mode": mode, "name": bytes(&l[tab + 1..]), "id": bytes(head[2])})
                })
                .collect();
            json!({"r": "ok", "entries": es})
        }),
        _ => git(s, &["cat-file", t, id]).map(|o| json!({"r": "ok", "data": bytes(&o)})),
    };
    Some(ok.unwrap_or(json!({"r": "err"})))
}

/// The object git finds under an id
pub fn find(s: &Scratch, id: &str) -> Value {
    let Some(t) = git(s, &["cat-file", "-t", id]) else {
        return json!({"r": "none"});
    };
    let t = String::from_utf8(t).unwrap().trim().to_string();
    match git(s, &["cat-file", &t, id]) {
        Some(b) => json!({"r": "ok", "kind": t, "body": bytes(&b)}),
        None => json!({"r": "none"}),
    }
}
