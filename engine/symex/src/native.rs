//! The native build as a child process.
use std::io::{BufRead, BufReader, Read, Write};
use std::process::*;
use std::sync::mpsc::*;
use std::time::Duration;

#[derive(Debug)]
pub enum Reply {
    /// digest, triangles, broken obligations
    Ok(String, usize, String),
    Invalid,
    Panic(String),
    Hang,
    Died(String),
}

pub struct Native {
    bin: String,
    run: Option<(Child, ChildStdin, Receiver<String>)>,
}

impl Native {
    pub fn new(bin: &str) -> Native {
        Native { bin: bin.into(), run: None }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.bin)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("native runner");
        let i = c.stdin.take().unwrap();
        let o = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        self.run = Some((c, i, rx));
    }
    pub fn ask(&mut self, line: &str, secs: f64) -> Reply {
        if self.run.is_none() {
            self.start();
        }
        let (c, i, rx) = self.run.as_mut().unwrap();
        let _ = writeln!(i, "{line}");
        let _ = i.flush();
        match rx.recv_timeout(Duration::from_secs_f64(secs)) {
            Ok(l) => {
                if l == "INVALID" {
                    Reply::Invalid
                } else if let Some(m) = l.strip_prefix("PANIC") {
                    Reply::Panic(m.trim().into())
                } else {
                    let v: Vec<&str> = l.splitn(5, ' ').collect();
                    assert_eq!(v[0], "OK", "native runner says {l}");
                    Reply::Ok(v[1].into(), v[2].parse().unwrap(), if v[3] == "0" { String::new() } else { v[4].into() })
                }
            }
            Err(RecvTimeoutError::Timeout) => {
                let _ = c.kill();
                let _ = c.wait();
                self.run = None;
                Reply::Hang
            }
            Err(RecvTimeoutError::Disconnected) => {
                let st = c.wait().map(|s| s.to_string()).unwrap_or_default();
                let mut e = String::new();
                if let Some(mut s) = c.stderr.take() {
                    let _ = s.read_to_string(&mut e);
                }
                self.run = None;
                e.truncate(600);
                Reply::Died(format!("{st} {}", e.replace('\n', " ")))
            }
        }
    }
    pub fn stop(&mut self) {
        if let Some((mut c, i, _)) = self.run.take() {
            drop(i);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}
