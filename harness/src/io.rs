//! ndjson files and command line arguments.

use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::path::PathBuf;

use serde_json::Value;

pub struct Args(pub HashMap<String, String>);

impl Args {
    pub fn parse(a: &[String]) -> Args {
        let mut m = HashMap::new();
        let mut i = 0;
        while i + 1 < a.len() {
            m.insert(a[i].trim_start_matches("--").to_string(), a[i + 1].clone());
            i += 2;
        }
        Args(m)
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| &**s)
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |v| v.parse().unwrap())
    }
    pub fn work(&self) -> PathBuf {
        let p = PathBuf::from(self.get("work").expect("--work"));
        std::fs::create_dir_all(&p).unwrap();
        std::fs::canonicalize(p).unwrap()
    }
    pub fn cases(&self) -> Vec<Value> {
        match self.get("in") {
            Some(f) => read_nd(f),
            None => vec![],
        }
    }
    pub fn out(&self) -> Out {
        Out(BufWriter::new(File::create(self.get("out").expect("--out")).unwrap()), 0)
    }
}

pub fn read_nd(f: &str) -> Vec<Value> {
    BufReader::new(File::open(f).unwrap())
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| match serde_json::from_str(&l).unwrap() {
            // TLC's CSVWrite quotes the line
            Value::String(s) => serde_json::from_str(&s).unwrap(),
            v => v,
        })
        .collect()
}

pub struct Out(BufWriter<File>, pub usize);

impl Out {
    pub fn put(&mut self, v: &Value) {
        serde_json::to_writer(&mut self.0, v).unwrap();
        self.0.write_all(b"\n").unwrap();
        self.0.flush().unwrap();
        self.1 += 1;
    }
}

static SINCE: std::sync::Mutex<Option<std::time::Instant>> = std::sync::Mutex::new(None);

/// The code under test does not return. There is no way to stop it but this.
pub fn hang() -> ! {
    unsafe { libc::_exit(43) }
}

/// From now on every case has at most this long
pub fn watch(secs: u64) {
    *SINCE.lock().unwrap() = Some(std::time::Instant::now());
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let t = *SINCE.lock().unwrap();
        if t.map_or(false, |t| t.elapsed().as_secs() >= secs) {
            hang();
        }
    });
}

/// What is being done now, for the report if it kills the process
pub fn current(v: impl FnOnce() -> Value) {
    *SINCE.lock().unwrap() = Some(std::time::Instant::now());
    if let Ok(f) = std::env::var("VH_CURRENT") {
        let _ = std::fs::write(f, v().to_string());
    }
}
