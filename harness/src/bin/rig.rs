//! The rig task on a radio link that is played by the script.
use harness::slot::Slot;
use harness::util::*;
use plusendi::rig::elecraft::kx3::{manage_rig_thread, Command, TransmitState};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::sync::mpsc;

#[derive(Default)]
struct Link {
    input: VecDeque<u8>,
    piece: usize,  // bytes per read
    flood: usize,  // responses that come one read after the other, without a pause
    gap: usize,    // such reads since the last write or the start of the event
    gaps: Vec<usize>,
    end: Option<String>,
    once: bool,    // a failure shows itself once only
    rd: Option<Waker>,
    out: Vec<u8>,
    room: usize,   // bytes the radio still takes
    bite: usize,   // bytes per write
    wend: Option<String>,
    wr: Option<Waker>,
    polls: usize,
}

fn error(how: &str) -> io::Error {
    use io::ErrorKind::*;
    match how {
        "reset" => ConnectionReset.into(),
        "broken" => BrokenPipe.into(),
        "aborted" => ConnectionAborted.into(),
        "timeout" => TimedOut.into(),
        "eoferr" => UnexpectedEof.into(),
        "data" => InvalidData.into(),
        "denied" => PermissionDenied.into(),
        "gone" => NotConnected.into(),
        "other" => io::Error::new(Other, "the radio is gone"),
        "nodev" => io::Error::from_raw_os_error(19),
        "nxio" => io::Error::from_raw_os_error(6),
        _ => io::Error::from_raw_os_error(5),
    }
}

struct Radio(Rc<RefCell<Link>>);

impl AsyncRead for Radio {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut l = self.0.borrow_mut();
        l.polls += 1;
        if !l.input.is_empty() {
            let n = buf.remaining().min(l.piece).min(l.input.len());
            let b: Vec<u8> = l.input.drain(..n).collect();
            buf.put_slice(&b);
            return Poll::Ready(Ok(()));
        }
        if l.flood > 0 {
            l.flood -= 1;
            l.gap += 1;
            let b: &[u8] = if l.flood % 3 == 0 { b"TQ1;" } else { b"FA00014060000;" };
            buf.put_slice(&b[..b.len().min(buf.remaining())]);
            return Poll::Ready(Ok(()));
        }
        match l.end.clone().as_deref() {
            Some("eof") => Poll::Ready(Ok(())),
            Some(how) => {
                if l.once {
                    l.end = None;
                }
                Poll::Ready(Err(error(how)))
            }
            None => {
                l.rd = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl AsyncWrite for Radio {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut l = self.0.borrow_mut();
        l.polls += 1;
        match l.wend.clone().as_deref() {
            Some("zero") => return Poll::Ready(Ok(0)),
            Some(how) => {
                if l.once {
                    l.wend = None;
                }
                return Poll::Ready(Err(error(how)));
            }
            None => {}
        }
        let n = b.len().min(l.bite).min(l.room);
        if n == 0 && !b.is_empty() {
            l.wr = Some(cx.waker().clone());
            return Poll::Pending;
        }
        l.room -= n;
        let gap = std::mem::take(&mut l.gap);
        l.gaps.push(gap);
        l.out.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

fn command(s: &str) -> Command {
    Command::SetTransmitState(if s == "TX" { TransmitState::Transmit } else { TransmitState::Receive })
}

fn run(q: &Value) -> Value {
    // The task runs by hand; what it might start elsewhere runs in between.
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let _in = rt.enter();
    let link = Rc::new(RefCell::new(Link { piece: usize::MAX, bite: usize::MAX, room: usize::MAX, ..Default::default() }));
    let (tx, rx) = mpsc::channel(q["cap"].as_u64().unwrap_or(1) as usize);
    let mut senders = vec![tx];
    let mut waiting: Vec<Slot<bool>> = vec![];
    let mut task = Slot::new(manage_rig_thread(rx, Radio(link.clone())));
    let mut shown = 0;
    let mut ev = vec![];
    for op in q["ops"].as_array().unwrap() {
        step();
        let mut e = op.clone();
        match op["op"].as_str().unwrap() {
            // One command; refused when the channel is full.
            "try" => {
                let r = senders.last().map(|t| t.try_send(command(op["c"].as_str().unwrap())).is_ok()).unwrap_or(false);
                e["acc"] = json!(r);
            }
            // A sender that waits for room.
            "send" => {
                if let Some(t) = senders.last() {
                    let (t, c) = (t.clone(), command(op["c"].as_str().unwrap()));
                    waiting.push(Slot::new(async move { t.send(c).await.is_ok() }));
                }
            }
            "clone" => senders.extend(senders.last().cloned()),
            "drop" => {
                senders.pop();
            }
            "dropall" => senders.clear(),
            "radio" => {
                let mut l = link.borrow_mut();
                l.input.extend(bytes(&op["b"]));
                if let Some(w) = l.rd.take() {
                    w.wake();
                }
            }
            "flood" => {
                let mut l = link.borrow_mut();
                l.flood = op["n"].as_u64().unwrap() as usize;
                if let Some(w) = l.rd.take() {
                    w.wake();
                }
            }
            "piece" => link.borrow_mut().piece = op["n"].as_u64().unwrap() as usize,
            "bite" => link.borrow_mut().bite = op["n"].as_u64().unwrap() as usize,
            "room" => {
                let mut l = link.borrow_mut();
                l.room = op["n"].as_i64().map(|n| if n < 0 { usize::MAX } else { n as usize }).unwrap();
                if let Some(w) = l.wr.take() {
                    w.wake();
                }
            }
            "end" | "wend" => {
                let mut l = link.borrow_mut();
                let how = op["how"].as_str().unwrap().to_string();
                l.once = op["once"] == json!(true);
                if op["op"] == json!("end") {
                    l.end = Some(how);
                    if let Some(w) = l.rd.take() {
                        w.wake();
                    }
                } else {
                    l.wend = Some(how);
                    if let Some(w) = l.wr.take() {
                        w.wake();
                    }
                }
            }
            "quiet" => {}
            k => panic!("{}", k),
        }
        // Until nobody has anything to do; unless the script goes on at once.
        let mut turns = 0;
        link.borrow_mut().gap = 0;
        if op["s"] != json!(false) {
            for pause in [false, q["slow"] == json!(true)] {
            if pause {
                long_pause();
                rt.block_on(async {
                    for _ in 0..140 {
                        tokio::task::yield_now().await
                    }
                });
            }
            loop {
                let mut any = task.drive();
                for w in waiting.iter_mut() {
                    any |= w.drive();
                }
                if !any {
                    if turns % 2 == 0 {
                        rt.block_on(async {
                            for _ in 0..3 {
                                tokio::task::yield_now().await
                            }
                        });
                        if task.wants_poll() || waiting.iter().any(|w| w.wants_poll()) {
                            turns += 2;
                            continue;
                        }
                    }
                    break;
                }
                turns += 2;
                if turns > 40000 {
                    break;
                }
            }
            }
            let mut l = link.borrow_mut();
            let gaps = std::mem::take(&mut l.gaps);
            let fresh = l.out[shown..].to_vec();
            shown = l.out.len();
            // What became of the senders that waited, in order.
            let sent: Vec<&str> = waiting.iter().map(|w| match w.done {
                Some(true) => "acc",
                Some(false) => "lost",
                None => "wait",
            }).collect();
            e["o"] = json!({
                "out": jb(&fresh), "gaps": gaps, "sent": sent, "spin": turns > 40000 || l.polls > 500_000,
                "task": if task.panicked { "panic" } else { match &task.done { None => "run", Some(Ok(())) => "ok", Some(Err(_)) => "err" } },
                "blocked": l.wr.is_some(), "left": l.input.len(),
            });
        }
        ev.push(e);
        if turns > 40000 {
            break;
        }
    }
    json!({"id": q["id"], "cap": q["cap"], "ev": ev, "why": if task.panicked { panic_text() } else { String::new() }})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    if a.get(3).map(|s| s == "trace").unwrap_or(false) {
        trace_on();
    }
    Watchdog::start(Duration::from_secs(10), Duration::from_secs(60));
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut out = Out::append(&a[2]);
    for line in text.lines() {
        let q: Value = serde_json::from_str(line).unwrap();
        let (id, path) = (q["id"].clone(), a[2].clone());
        on_hang(Some(Box::new(move |why| Out::append(&path).line(&json!({"id": id, "cap": 1, "ev": [{"op": "hang", "why": why}]})))));
        let r = run(&q);
        on_hang(None);
        out.line(&r);
    }
}
