//! A byte source that follows a script.

use std::{
    collections::VecDeque,
    io::{Error, ErrorKind, Read},
};

use serde_json::Value;

pub enum Step {
    Data(Vec<u8>),
    Interrupt,
    Fail(ErrorKind),
    End,
}

pub struct Scripted {
    steps: VecDeque<Step>,
}

fn kind(s: &str) -> ErrorKind {
    match s {
        "UnexpectedEof" => ErrorKind::UnexpectedEof,
        "WouldBlock" => ErrorKind::WouldBlock,
        "InvalidData" => ErrorKind::InvalidData,
        "InvalidInput" => ErrorKind::InvalidInput,
        "TimedOut" => ErrorKind::TimedOut,
        "BrokenPipe" => ErrorKind::BrokenPipe,
        "ConnectionReset" => ErrorKind::ConnectionReset,
        _ => ErrorKind::Other,
    }
}

impl Scripted {
    /// Bytes the plan does not mention follow in one piece.
    pub fn new(bytes: &[u8], plan: &Value) -> Scripted {
        let mut steps = VecDeque::new();
        let mut rest = bytes;
        for step in plan.as_array().expect("HARNESS plan") {
            match step[0].as_str().unwrap() {
                "data" => {
                    let n = (step[1].as_u64().unwrap() as usize).min(rest.len());
                    let (a, b) = rest.split_at(n);
                    rest = b;
                    if n > 0 {
                        steps.push_back(Step::Data(a.to_vec()));
                    }
                }
                "intr" => steps.push_back(Step::Interrupt),
                "fail" => steps.push_back(Step::Fail(kind(step[1].as_str().unwrap()))),
                "end" => steps.push_back(Step::End),
                "stop" => {
                    steps.push_back(Step::End);
                    return Scripted { steps };
                }
                s => panic!("HARNESS step {s}"),
            }
        }
        if !rest.is_empty() {
            steps.push_back(Step::Data(rest.to_vec()));
        }
        Scripted { steps }
    }
}

impl Read for Scripted {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.steps.pop_front() {
            None | Some(Step::End) => Ok(0),
            Some(Step::Interrupt) => Err(ErrorKind::Interrupted.into()),
            Some(Step::Fail(k)) => Err(Error::new(k, "scripted failure")),
            Some(Step::Data(mut d)) => {
                let n = d.len().min(buf.len());
                buf[..n].copy_from_slice(&d[..n]);
                if n < d.len() {
                    d.drain(..n);
                    self.steps.push_front(Step::Data(d));
                }
                Ok(n)
            }
        }
    }
}
