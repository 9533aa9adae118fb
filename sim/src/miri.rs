//! Runs interpreted by Miri, which stops at the first undefined behaviour.

use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::thread::JoinHandle;
use std::time::Duration;

use crate::arch::{Order, Report};
use crate::case::Found;
use crate::step::{Config, Step};

/// The kinds of machines there are besides this one: with 32-bit words, and
/// with the most significant byte first. Neither has this one's vector
/// instructions.
pub const TARGETS: [(&str, &str); 2] = [("armv7", "armv7-unknown-linux-gnueabihf"), ("s390x", "s390x-unknown-linux-gnu")];

/// A step that takes longer counts as a hang.
pub const LIMIT: Duration = Duration::from_secs(90);

pub enum Outcome {
    Fine,
    /// cola panicked, hung or did something Miri cannot follow: not about this.
    Other(String),
    Undefined(Found),
}

struct Running {
    child: Child,
    stdin: ChildStdin,
    bytes: Receiver<u8>,
    stderr: JoinHandle<String>,
}

/// An interpreter process fed with runs one after the other.
#[derive(Default)]
pub struct Miri {
    running: Option<Running>,
    /// Without checking the validity of values, which takes half the time.
    pub lax: bool,
    pub steps: u64,
    pub processes: u64,
    /// The machine that is interpreted, if it is another kind than this one.
    pub kind: Option<&'static str>,
}

/// One run as `lite` reads it.
pub fn packed(run: u64, cfg: &Config, steps: &[Step]) -> Vec<u8> {
    let body = bincode::serde::encode_to_vec((cfg, steps), bincode::config::standard()).expect("bincode");
    let mut out = run.to_le_bytes().to_vec();
    out.extend((body.len() as u64).to_le_bytes());
    out.extend(body);
    out
}

// See build.inc: the commands that interpret this program.
fn command(name: &str) -> String {
    std::env::var(name).unwrap_or_else(|_| crate::die(&format!("{name} is not set")))
}

fn start(cmd: &str) -> Running {
    let mut child = Command::new("sh")
        .arg("-c")
        .arg(cmd)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .process_group(0)
        .spawn()
        .unwrap_or_else(|e| crate::die(&format!("cannot start Miri: {e}")));
    let stdin = child.stdin.take().unwrap();
    let mut out = child.stdout.take().unwrap();
    let mut err = child.stderr.take().unwrap();
    let (tx, bytes) = channel();
    std::thread::spawn(move || {
        let mut buf = [0; 512];
        while let Ok(n) = out.read(&mut buf) {
            if n == 0 || buf[..n].iter().any(|b| tx.send(*b).is_err()) {
                break;
            }
        }
    });
    let stderr = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    Running { child, stdin, bytes, stderr }
}

fn stop(r: Running) -> String {
    let mut r = r;
    unsafe { libc::kill(-(r.child.id() as i32), libc::SIGKILL) };
    let _ = r.child.wait();
    drop(r.stdin);
    r.stderr.join().unwrap_or_default()
}

impl Miri {
    /// Interprets one run; `beat` is called whenever it moved on.
    pub fn run(&mut self, cfg: &Config, steps: &[Step], limit: Duration, beat: &mut dyn FnMut()) -> Outcome {
        if self.running.is_none() {
            let cmd = command("COLASIM_MIRI");
            self.running = Some(start(&if self.lax { cmd.replace("MIRIFLAGS='", "MIRIFLAGS='-Zmiri-disable-validation ") } else { cmd }));
            self.processes += 1;
        }
        let r = self.running.as_mut().unwrap();
        let sent = r.stdin.write_all(&packed(0, cfg, steps)).and_then(|_| r.stdin.flush());
        let mut begun = 0usize;
        if sent.is_ok() {
            loop {
                match r.bytes.recv_timeout(limit) {
                    Ok(b'o') => return Outcome::Fine,
                    Ok(b'p') => return Outcome::Other("panic".into()),
                    Ok(_) => {
                        begun += 1;
                        self.steps += 1;
                        beat();
                    },
                    Err(RecvTimeoutError::Timeout) => {
                        stop(self.running.take().unwrap());
                        return Outcome::Other("hang".into());
                    },
                    Err(RecvTimeoutError::Disconnected) => break,
                }
            }
        }
        let mut r = self.running.take().unwrap();
        let _ = r.child.wait();
        let text = stop(r);
        match undefined(&text, begun.saturating_sub(1)) {
            Some(f) => Outcome::Undefined(f),
            None => {
                let l = text.lines().find(|l| l.starts_with("error")).unwrap_or("the interpreter ended");
                Outcome::Other(l.chars().take(200).collect())
            },
        }
    }
}

impl Miri {
    /// Has the machine elsewhere execute a session.
    pub fn ask(&mut self, order: &Order, limit: Duration, beat: &mut dyn FnMut()) -> Result<Report, String> {
        if self.running.is_none() {
            let kind = self.kind.expect("a kind of machine");
            let target = TARGETS.iter().find(|t| t.0 == kind).expect("a kind of machine").1;
            self.running = Some(start(&command("COLASIM_ELSEWHERE").replace("@MACHINE@", target)));
            self.processes += 1;
        }
        let r = self.running.as_mut().unwrap();
        let body = bincode::serde::encode_to_vec(order, bincode::config::standard()).expect("bincode");
        let sent = r
            .stdin
            .write_all(&(body.len() as u64).to_le_bytes())
            .and_then(|_| r.stdin.write_all(&body))
            .and_then(|_| r.stdin.flush());
        let mut got: Option<Vec<u8>> = None;
        while sent.is_ok() {
            match r.bytes.recv_timeout(limit) {
                Ok(b) => match &mut got {
                    None if b == b'o' => got = Some(vec![]),
                    None => {
                        self.steps += 1;
                        beat();
                    },
                    Some(v) => {
                        v.push(b);
                        if v.len() >= 8 && v.len() as u64 == 8 + u64::from_le_bytes(v[..8].try_into().unwrap()) {
                            let r = bincode::serde::decode_from_slice(&v[8..], bincode::config::standard());
                            return Ok(r.expect("a report").0);
                        }
                    },
                },
                Err(RecvTimeoutError::Timeout) => {
                    stop(self.running.take().unwrap());
                    return Err("hang".into());
                },
                Err(RecvTimeoutError::Disconnected) => break,
            }
        }
        let mut r = self.running.take().unwrap();
        let _ = r.child.wait();
        let text = stop(r);
        let l = text.lines().find(|l| l.starts_with("error")).unwrap_or("the interpreter ended");
        Err(l.chars().take(200).collect())
    }
}

impl Drop for Miri {
    fn drop(&mut self) {
        if let Some(r) = self.running.take() {
            stop(r);
        }
    }
}

/// Miri's report: what, and where in cola it was noticed.
fn undefined(text: &str, step: usize) -> Option<Found> {
    let mut lines = text.lines();
    let what = lines.find_map(|l| l.strip_prefix("error: Undefined Behavior: "))?;
    let place = lines.clone().find_map(|l| l.trim().strip_prefix("--> ")).unwrap_or("?");
    let cola = text
        .lines()
        .filter_map(|l| l.find("/repo/src/").map(|i| &l[i..]))
        .next()
        .unwrap_or(place);
    Some(Found {
        class: format!("undefined:{}", kind(what)),
        message: format!("{what} [{place}; in cola: {cola}]"),
        step,
    })
}

/// The stable part of a message: no addresses, tags or numbers.
fn kind(what: &str) -> String {
    let mut out = String::new();
    for w in what.split_whitespace().take(12) {
        if w.bytes().any(|b| b.is_ascii_digit()) || w.contains(['<', '>', '[', '(', ':']) {
            continue;
        }
        if !out.is_empty() {
            out.push('-');
        }
        out.extend(w.chars().filter(|c| c.is_ascii_alphabetic()));
        if out.split('-').count() >= 4 {
            break;
        }
    }
    out
}
