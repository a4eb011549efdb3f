//! Random objects: structured as git writes them, then possibly damaged.
//! What they mean is decided by the specification alone.

use crate::rng::Rng;

pub fn hexid(r: &mut Rng) -> Vec<u8> {
    let n = r.below(4);
    (0..40)
        .map(|i| match n {
            0 if i < 36 => b'0',
            1 if i < 36 => b'f',
            _ => *r.pick(b"0123456789abcdef"),
        })
        .collect()
}

const NAME_BYTES: &[u8] = b"abzAZ09 -_.,:;\"'\\()[]@/#$%&*+=?!~^`|{}\t\xc3\xa9\xe2\x82\xac\xff\x80\xfe\x7f\x01";

fn is_crud(b: u8) -> bool {
    b <= 32 || b".,:;<>\"\\'".contains(&b)
}

/// Any bytes git accepts in a name: no < > newline NUL, no crud at either end.
pub fn name(r: &mut Rng) -> Vec<u8> {
    let fixed: &[&[u8]] = &[
        b"", b"A", b"A U Thor", b"0", b"42", b"J. R. \"Bob\" Dobbs, 3rd (x)", b"7 of 9", b"Ren\xe9", b"\xff\xfe", b"\xe5\xb1\xb1\xe7\x94\xb0 \xe5\xa4\xaa\xe9\x83\x8e", b"a@b.c", b"1234567890 +0000", b"author ", b"\x80", b"-", b"+1", b"a  b", b"r2-d2", b"(none)", b"x 0", b"0 x",
    ];
    let mut n = if r.pct(45) {
        r.pick(fixed).to_vec()
    } else {
        let l = r.below(14);
        (0..l).map(|_| *r.pick(NAME_BYTES)).collect()
    };
    if r.pct(90) {
        while n.first().is_some_and(|&b| is_crud(b)) {
            n.remove(0);
        }
        while n.last().is_some_and(|&b| is_crud(b)) {
            n.pop();
        }
    }
    n
}

pub fn ident(r: &mut Rng) -> Vec<u8> {
    let mut v = name(r);
    if !(v.is_empty() && r.pct(30)) {
        v.push(b' ');
    }
    if r.pct(1) {
        let n = r.range(200, 1500);
        v = (0..n).map(|_| *r.pick(b"ab \xc3\xa9-")).collect();
        v.extend(b"z ");
    }
    v.push(b'<');
    let e = if r.pct(1) { (0..r.range(200, 1500)).map(|i| b'a' + (i % 26) as u8).collect() } else if r.pct(50) { b"me@example.com".to_vec() } else { name(r) };
    v.extend(e);
    v.push(b'>');
    if r.pct(93) {
        v.push(b' ');
        let ts: &[&[u8]] = &[b"0", b"1", b"1596907199", b"4294967296", b"99999999999", b"18446744073709551615", b"007"];
        v.extend(*r.pick(ts));
        if r.pct(93) {
            let tz: &[&[u8]] = &[b" +0000", b" -0000", b" +0100", b" -1130", b" +1400", b" +5", b" -99999", b" +012345"];
            v.extend(*r.pick(tz));
        }
    }
    if r.pct(6) {
        damage(r, &mut v);
    }
    v.retain(|&b| b != b'\n');
    v
}

pub fn message(r: &mut Rng) -> Vec<u8> {
    let fixed: &[&[u8]] = &[
        b"", b"\n", b"message", b"message\n", b"\n\nmessage\n", b"tree x\nparent y\n", b"author A <a> 1 +0000\n", b"encoding X\n", b"a\n\nb\n\n", b"\0", b"\xff\xfe\n", b"a\0b", b" leading", b"encoding latin1\n\nx", b"\r\n",
    ];
    if r.pct(60) {
        r.pick(fixed).to_vec()
    } else {
        let l = r.below(40);
        (0..l).map(|_| *r.pick(b"ab \n\0\xff\xe9<>:+0")).collect()
    }
}

fn line(v: &mut Vec<u8>, key: &[u8], val: &[u8]) {
    v.extend(key);
    v.push(b' ');
    v.extend(val);
    v.push(b'\n');
}

fn headers(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2, 3]) {
        match r.below(9) {
            0 | 1 => {
                let e: &[&[u8]] = &[b"UTF-8", b"ISO-8859-1", b"", b"x y", b"\xff", b" utf", b"encoding "];
                line(v, b"encoding", r.pick(e))
            }
            2 => {
                v.extend(b"gpgsig -----BEGIN PGP SIGNATURE-----\n \n iQEz\n encoding fake\n =abcd\n -----END PGP SIGNATURE-----\n");
                if r.pct(30) {
                    v.extend(b" \n");
                }
            }
            3 => {
                v.extend(b"mergetag object ");
                v.extend(hexid(r));
                v.extend(b"\n type commit\n tag v1\n tagger A <a@b> 1 +0000\n \n msg\n");
            }
            4 => line(v, b"header", b"value"),
            5 => v.extend(b"odd\n"),
            6 => line(v, b"encodings", b"no"),
            7 => line(v, b"HG:extra", b"x\0y\xff"),
            _ => line(v, b"gpgsig-sha256", b"z\n  y\n encoding q"),
        }
    }
}

pub fn commit(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    line(&mut v, b"tree", &hexid(r));
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 9, 17]) {
        line(&mut v, b"parent", &hexid(r));
    }
    for _ in 0..*r.pick(&[1, 1, 1, 1, 2, 3]) {
        line(&mut v, b"author", &ident(r));
    }
    line(&mut v, b"committer", &ident(r));
    headers(r, &mut v);
    v.push(b'\n');
    v.extend(message(r));
    v
}

pub fn tag(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    line(&mut v, b"object", &hexid(r));
    let k: &[&[u8]] = &[b"commit", b"tree", b"blob", b"tag"];
    let odd: &[&[u8]] = &[b"commits", b"tags", b"blobs", b"trees", b"Commit", b"TAG", b"blo", b"tre", b"", b"blob ", b" tag", b"tag\0", b"tag tree", b"ofs-delta", b"note", b"\xff"];
    let k = if r.pct(6) { odd } else { k };
    line(&mut v, b"type", r.pick(k));
    let n: &[&[u8]] = &[b"v1", b"v1.0-rc/x", b"", b"a b", b"\xff\x80", b"type commit", b"tagger"];
    line(&mut v, b"tag", r.pick(n));
    if r.pct(75) {
        line(&mut v, b"tagger", &ident(r));
    }
    if r.pct(15) {
        let h: &[&[u8]] = &[b"gpgsig a\n b\n c\n", b"x y\n", b"custom\n"];
        v.extend(*r.pick(h));
    }
    if r.pct(85) {
        v.push(b'\n');
        v.extend(message(r));
    }
    v
}

pub fn tree(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let n = *r.pick(&[0, 1, 1, 2, 3, 5, 8, 20]);
    for _ in 0..n {
        let large: &[&[u8]] = &[b"200000", b"1100644", b"0000000100644", b"777777", b"40000100644", b"2000000000000000100644", b"20000000000000000000000100644"];
        let m: &[&[u8]] = if r.pct(1) { large } else { &[b"100644", b"100755", b"40000", b"120000", b"160000", b"100664", b"040000", b"0", b"177777", b"7", b"1"] };
        v.extend(*r.pick(m));
        v.push(b' ');
        let f: &[&[u8]] = &[b"a", b"a b", b".gitignore", b"README.md", b"\xff\xfe", b"x\ny", b" ", b"100644 a", b"-", b"caf\xc3\xa9", b"a\\b", b"\x01"];
        if r.pct(70) {
            v.extend(*r.pick(f));
        } else {
            let l = r.range(1, 12);
            let mut f = r.bytes(l);
            f.iter_mut().for_each(|b| *b = (*b).max(1));
            v.extend(f);
        }
        v.push(0);
        let mut id = r.bytes(20);
        match r.below(4) {
            0 => id = vec![0; 20],
            1 => id[r.below(20)] = 0,
            2 => {
                id[0] = b'1';
                id[1] = b' ';
                id[2] = 0
            }
            _ => (),
        }
        v.extend(id);
    }
    v
}

/// Change a few bytes: cut, delete, insert, replace, duplicate or drop a line.
pub fn damage(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..r.range(1, 2) {
        if v.is_empty() {
            v.push(r.byte());
            continue;
        }
        let i = r.below(v.len());
        match r.below(8) {
            0 => v.truncate(i),
            1 => {
                v.remove(i);
            }
            2 => v.insert(i, *r.pick(b"\n <>\0a0+\xff ")),
            3 => v[i] = *r.pick(b"\n <>\0a0+9\xffZ-"),
            4 => {
                let e = (i + r.range(1, 30)).min(v.len());
                v.drain(i..e);
            }
            5 | 6 => {
                // lines
                let mut ls: Vec<Vec<u8>> = v.split_inclusive(|&b| b == b'\n').map(|l| l.to_vec()).collect();
                let k = r.below(ls.len());
                match r.below(3) {
                    0 => {
                        ls.remove(k);
                    }
                    1 => {
                        let l = ls[k].clone();
                        ls.insert(k, l)
                    }
                    _ => {
                        let j = r.below(ls.len());
                        ls.swap(k, j)
                    }
                }
                *v = ls.concat();
            }
            _ => v[i] ^= 1 << r.below(8),
        }
    }
}

pub fn object(r: &mut Rng, kind: &str) -> Vec<u8> {
    let mut v = match kind {
        "commit" => commit(r),
        "tag" => tag(r),
        "tree" => tree(r),
        _ => {
            let n = r.below(60);
            let start = *r.pick(crate::formats::MAGIC);
            [if r.pct(30) { start } else { b"" }, &r.bytes(n)].concat()
        }
    };
    if r.pct(30) {
        damage(r, &mut v);
    }
    v
}

/// Longer than any buffer in between
pub fn big(r: &mut Rng, kind: &str) -> Vec<u8> {
    let n = *r.pick(&[4000, 9000, 32768, 65536, 70000, 140000]);
    let text = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|i: usize| if i % 61 == 60 { b'\n' } else { *r.pick(b"abc \xe9\0<>") }).collect() };
    match kind {
        "commit" => {
            let mut v = vec![];
            line(&mut v, b"tree", &hexid(r));
            for _ in 0..*r.pick(&[0, 16, 17, 33, 64, 70]) {
                line(&mut v, b"parent", &hexid(r));
            }
            for _ in 0..*r.pick(&[1, 1, 4, 9]) {
                line(&mut v, b"author", b"A <a@x> 1 +0000");
            }
            line(&mut v, b"committer", b"C <c@x> 2 +0000");
            if r.pct(50) {
                v.extend(b"gpgsig x\n");
                for _ in 0..r.below(700) {
                    v.extend(b" aGVsbG8gd29ybGQhIGhlbGxvIHdvcmxkISBoZWxsbyB3\n");
                }
            }
            line(&mut v, b"encoding", b"X-late");
            v.push(b'\n');
            v.extend(text(r, n));
            v
        }
        "tag" => {
            let mut v = vec![];
            line(&mut v, b"object", &hexid(r));
            line(&mut v, b"type", b"tag");
            line(&mut v, b"tag", &[b'n'; 3000]);
            line(&mut v, b"tagger", b"A <a@x> 1 +0000");
            if r.pct(50) {
                v.extend(b"gpgsig-sha256 x\n");
                for _ in 0..r.below(700) {
                    v.extend(b" aGVsbG8gd29ybGQhIGhlbGxvIHdvcmxkISBoZWxsbyB3\n");
                }
            }
            if r.pct(10) {
                return v;
            }
            v.push(b'\n');
            v.extend(text(r, n));
            v
        }
        "tree" => {
            let mut v = vec![];
            for k in 0..r.range(250, 1100) {
                v.extend(*r.pick(&[&b"100644 "[..], b"40000 ", b"100755 "]));
                v.extend(format!("f{:05}", k).bytes());
                if r.pct(3) {
                    v.extend(vec![b'x'; r.below(300)]);
                }
                v.push(0);
                v.extend(r.bytes(20));
            }
            v
        }
        _ => r.bytes(n),
    }
}

/// A commit or tag whose identity is the interesting part
pub fn ident_object(r: &mut Rng) -> (&'static str, Vec<u8>) {
    let mut v = vec![];
    if r.pct(60) {
        line(&mut v, b"tree", &hexid(r));
        line(&mut v, b"author", &ident(r));
        line(&mut v, b"committer", &ident(r));
        v.extend(b"\nm");
        ("commit", v)
    } else {
        line(&mut v, b"object", &hexid(r));
        line(&mut v, b"type", b"blob");
        line(&mut v, b"tag", b"t");
        line(&mut v, b"tagger", &ident(r));
        v.extend(b"\nm");
        ("tag", v)
    }
}
