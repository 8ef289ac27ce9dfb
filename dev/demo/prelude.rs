#![allow(dead_code, unused_imports)]
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use url::Url;

/// A scratch directory, removed by demo.sh
fn dir() -> PathBuf {
    PathBuf::from(std::env::var("DEMO_DIR").unwrap())
}

fn write(name: &str, data: &[u8]) -> PathBuf {
    let p = dir().join(name);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, data).unwrap();
    p
}

/// A http server on the loopback; answers (status, body) from (method, path and query)
fn serve<F>(f: F) -> Url
where
    F: Fn(&str, &str) -> (u16, String) + Send + Sync + 'static,
{
    let listener = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = listener.local_addr().unwrap().port();
    let f = std::sync::Arc::new(f);
    std::thread::spawn(move || {
        for s in listener.incoming() {
            let f = f.clone();
            std::thread::spawn(move || {
                let mut s = s.unwrap();
                let mut rd = BufReader::new(s.try_clone().unwrap());
                let mut first = String::new();
                rd.read_line(&mut first).unwrap();
                loop {
                    let mut l = String::new();
                    if rd.read_line(&mut l).unwrap_or(0) == 0 || l.trim().is_empty() {
                        break;
                    }
                }
                let mut w = first.split_whitespace();
                let (m, p) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
                let (code, body) = f(m, p);
                let body2 = if m == "HEAD" { "" } else { body.as_str() };
                let _ = write!(
                    s,
                    "HTTP/1.1 {} X\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{}",
                    code,
                    body.len(),
                    body2
                );
            });
        }
    });
    Url::parse(&format!("http://127.0.0.1:{}/", port)).unwrap()
}

fn files(p: &Path) -> Vec<PathBuf> {
    let mut out = Vec::new();
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd {
            let e = e.unwrap().path();
            if e.is_dir() {
                out.extend(files(&e))
            } else {
                out.push(e)
            }
        }
    }
    out
}

