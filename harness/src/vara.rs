//! Runs one script against a real `VaraTnc` and records a trace.
use crate::net::{listen, Conn};
use crate::slot::Slot;
use crate::util::*;
use plusendi::modem::vara::*;
use plusendi::StationId;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;
use std::time::Instant;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

type Stream = VaraStream<'static>;
type Res = Result<(), String>;
/// The recorded events so far, shared with the watchdog.
pub type Log = std::sync::Arc<std::sync::Mutex<Vec<Value>>>;

fn sid(v: &Value) -> StationId {
    StationId::new(text(v)).expect("station id")
}

struct Run {
    tnc: Option<*mut VaraTnc>,
    ctl: Option<Conn>,
    data: Option<Conn>,
    ptt: tokio::sync::watch::Receiver<TransceiverCommand>,
    calls: Vec<(Slot<Res>, bool)>,
    connect: Option<Slot<Result<Stream, String>>>,
    con: &'static str,
    stream: Option<*mut Stream>,
    end: Option<Slot<Res>>,
    endr: &'static str,
    rd: Option<Slot<Value>>,
    wr: Option<Slot<Value>>,
    seen_hb: Instant,
    probes: Vec<StationId>,
    probes_raw: Vec<Value>,
    carry: Vec<u8>,
    rdres: Value,
    wrres: Value,
}

/// Data by its runs.
fn rle(b: &[u8]) -> Value {
    let mut runs: Vec<(u8, usize)> = vec![];
    for &x in b {
        match runs.last_mut() {
            Some(r) if r.0 == x => r.1 += 1,
            _ => runs.push((x, 1)),
        }
    }
    json!(runs)
}

/// The data of an action, given byte by byte or by its runs.
fn payload(op: &Value) -> Vec<u8> {
    match op["runs"].as_array() {
        Some(runs) => runs.iter().flat_map(|r| std::iter::repeat(r[0].as_u64().unwrap() as u8).take(r[1].as_u64().unwrap() as usize)).collect(),
        None => bytes(&op["b"]),
    }
}

fn io(r: std::io::Result<usize>) -> Value {
    match r {
        Ok(n) => json!({"k": "ok", "n": n}),
        Err(e) if e.kind() == std::io::ErrorKind::ConnectionAborted => json!({"k": "aborted", "n": 0}),
        Err(_) => json!({"k": "err", "n": 0}),
    }
}

impl Run {
    fn session(&self) -> bool {
        self.connect.is_some() || self.stream.is_some() || self.end.is_some()
    }
    fn t(&self) -> &'static VaraTnc {
        unsafe { &*self.tnc.expect("handle") }
    }
    fn slots(&mut self) -> bool {
        let mut any = false;
        for (s, _) in &mut self.calls {
            any |= s.drive();
        }
        if let Some(c) = &mut self.connect {
            any |= c.drive();
            if !c.pending() {
                match self.connect.take().unwrap() {
                    Slot { done: Some(Ok(s)), .. } => {
                        self.stream = Some(Box::into_raw(Box::new(s)));
                        self.con = "ok";
                    }
                    _ => self.con = "err",
                }
            }
        }
        if let Some(e) = &mut self.end {
            any |= e.drive();
            if !e.pending() {
                self.endr = match self.end.take().unwrap().done {
                    Some(Ok(())) => "ok",
                    _ => "err",
                };
            }
        }
        if let Some(r) = &mut self.rd {
            any |= r.drive();
            if !r.pending() {
                let r = self.rd.take().unwrap();
                self.rdres = r.done.unwrap_or(json!({"k": "panic"}));
            }
        }
        if let Some(w) = &mut self.wr {
            any |= w.drive();
            if !w.pending() {
                let w = self.wr.take().unwrap();
                self.wrres = w.done.unwrap_or(json!({"k": "panic"}));
            }
        }
        any
    }
    fn wants(&self) -> bool {
        self.calls.iter().any(|c| c.0.wants_poll())
            || self.connect.as_ref().map_or(false, |c| c.wants_poll())
            || self.end.as_ref().map_or(false, |c| c.wants_poll())
            || self.rd.as_ref().map_or(false, |c| c.wants_poll())
            || self.wr.as_ref().map_or(false, |c| c.wants_poll())
    }
    /// Lets everything run until nothing moves any more.
    async fn settle(&mut self) {
        let mut quiet = 0;
        let t0 = Instant::now();
        while quiet < 3 {
            let mut any = self.slots();
            for _ in 0..140 {
                let () = tokio::task::yield_now().await;
            }
            any |= self.slots();
            for c in [&mut self.ctl, &mut self.data].into_iter().flatten() {
                any |= c.pump();
                any |= c.in_flight();
            }
            any |= self.wants();
            // Control bytes the client has not read yet: normal only when it no longer reads.
            if let Some(c) = &self.ctl {
                if c.unread() > 0 && t0.elapsed().as_millis() < 300 {
                    any = true;
                }
            }
            if any && t0.elapsed().as_millis() > 3 {
                tokio::time::sleep(std::time::Duration::from_millis(1)).await;
            }
            quiet = if any { 0 } else { quiet + 1 };
            if t0.elapsed().as_millis() > 3000 {
                break;
            }
        }
    }
    fn observe(&mut self) -> Value {
        let mut lines = vec![];
        if let Some(c) = &mut self.ctl {
            self.carry.append(&mut c.got);
        }
        while let Some(i) = self.carry.iter().position(|&b| b == b'\r') {
            let l: Vec<u8> = self.carry.drain(..=i).collect();
            lines.push(jb(&l[..l.len() - 1]));
        }
        let calls: Vec<&str> = self
            .calls
            .iter()
            .map(|(s, cancelled)| match (&s.done, *cancelled) {
                _ if s.panicked => "panic",
                (_, true) => "cancel",
                (Some(Ok(())), _) => "ok",
                (Some(Err(_)), _) => "err",
                (None, _) => "pend",
            })
            .collect();
        let st = if self.tnc.is_some() && !self.session() {
            let t = self.t();
            let hb = t.last_heartbeat();
            let fresh = hb > self.seen_hb;
            self.seen_hb = Instant::now();
            let regs: Vec<Value> = (0..self.probes.len())
                .filter(|&i| t.local_registration(&self.probes[i]) == Registration::Registered)
                .map(|i| self.probes_raw[i].clone())
                .collect();
            json!({"on": true, "busy": t.busy_state() == BusyState::Busy, "buf": jb(t.buffer().to_string().as_bytes()),
                   "hb": fresh, "regs": regs, "remote": t.remote_registration() == Registration::Registered})
        } else {
            json!({"on": false})
        };
        let out = self.data.as_mut().map(|d| std::mem::take(&mut d.got)).unwrap_or_default();
        let pend = json!({"k": "pend"});
        json!({
            "lines": lines,
            "junk": jb(&self.carry),
            "calls": calls,
            "st": st,
            "ptt": *self.ptt.borrow() == TransceiverCommand::Transmit,
            "con": if self.connect.is_some() { "pend" } else { self.con },
            "end": if self.end.is_some() { "pend" } else { self.endr },
            "rd": if self.rd.is_some() { pend.clone() } else { std::mem::replace(&mut self.rdres, json!({"k": "none"})) },
            "wr": if self.wr.is_some() { pend } else { std::mem::replace(&mut self.wrres, json!({"k": "none"})) },
            "out": rle(&out),
            "ctleof": self.ctl.as_ref().map_or(true, |c| c.eof),
            "dataeof": self.data.as_ref().map_or(true, |c| c.eof),
            "panics": panics(),
        })
    }
    fn call(&mut self, cmd: &Value) {
        let t = self.t();
        let k = cmd["k"].as_str().unwrap();
        let m = cmd["m"].as_str().unwrap_or("").to_string();
        let ids: Vec<StationId> = cmd["ids"].as_array().map(|a| a.iter().map(sid).collect()).unwrap_or_default();
        let e = |r: Result<(), _>| r.map_err(|e: Box<dyn std::error::Error + Send + Sync>| e.to_string());
        let slot: Slot<Res> = match k {
            "mycall" => {
                let mut it = ids.into_iter();
                let cs = MyCallSigns(it.next().unwrap(), it.collect());
                Slot::new(async move { e(t.send_callsign(cs).await.map_err(|x| x.into())) })
            }
            "compression" => {
                let c = match &m[..] {
                    "OFF" => CompressionMode::Off,
                    "TEXT" => CompressionMode::Text,
                    _ => CompressionMode::Files,
                };
                Slot::new(async move { e(t.send_compression(c).await.map_err(|x| x.into())) })
            }
            "bw" => {
                let b = match &m[..] {
                    "500" => BandwidthMode::Narrow,
                    "2300" => BandwidthMode::Wide,
                    _ => BandwidthMode::Tactical,
                };
                Slot::new(async move { e(t.send_bandwidth(b).await.map_err(|x| x.into())) })
            }
            "disconnect" => Slot::new(async move { e(t.send_disconnect().await.map_err(|x| x.into())) }),
            "abort" => Slot::new(async move { e(t.send_abort().await.map_err(|x| x.into())) }),
            k => panic!("unknown command {}", k),
        };
        self.calls.push((slot, false));
        self.calls.last_mut().unwrap().0.drive();
    }
    /// Carries out one action; false when it does not apply in the state the real code is in.
    fn act(&mut self, op: &Value) -> bool {
        match op["op"].as_str().unwrap() {
            "call" => {
                if self.tnc.is_none() || self.session() {
                    return false;
                }
                self.call(&op["cmd"]);
            }
            "cancel" => {
                let i = op["id"].as_u64().unwrap() as usize - 1;
                if i >= self.calls.len() || !self.calls[i].0.pending() {
                    return false;
                }
                self.calls[i].0.cancel();
                self.calls[i].1 = true;
            }
            "connect" => {
                if self.tnc.is_none() || self.session() || self.calls.iter().any(|c| c.0.pending()) {
                    return false;
                }
                let t = unsafe { &mut *self.tnc.unwrap() };
                let (a, b) = (sid(&op["from"]), sid(&op["to"]));
                self.con = "none";
                self.endr = "none";
                self.connect = Some(Slot::new(async move { t.connect(a, b).await.map_err(|e| e.to_string()) }));
                self.slots();
            }
            "cconnect" => match self.connect.take() {
                Some(mut s) => {
                    s.cancel();
                    self.con = "none";
                }
                None => return false,
            },
            "tx" => match &mut self.ctl {
                Some(c) => c.send(&bytes(&op["b"])),
                None => return false,
            },
            "close" => match op["how"].as_str().unwrap_or("half") {
                "half" => match &mut self.ctl {
                    Some(c) => c.close(),
                    None => return false,
                },
                how => match &mut self.ctl {
                    Some(c) => {
                        if let Some(s) = c.s.take() {
                            if how == "rst" {
                                unsafe {
                                    let l = libc::linger { l_onoff: 1, l_linger: 0 };
                                    use std::os::unix::io::AsRawFd;
                                    libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as u32);
                                }
                            }
                        }
                        c.eof = true;
                    }
                    None => return false,
                },
            },
            "dtx" => match &mut self.data {
                Some(c) => c.send(&payload(op)),
                None => return false,
            },
            "dclose" => match &mut self.data {
                Some(c) => c.close(),
                None => return false,
            },
            "read" => {
                let p = match self.stream {
                    Some(p) if self.rd.is_none() && self.rdres["k"] == "none" => p,
                    _ => return false,
                };
                let n = op["n"].as_u64().unwrap() as usize;
                let pre = op["pre"].as_u64().unwrap_or(0) as usize;
                self.rd = Some(Slot::new(std::future::poll_fn(move |cx| {
                    let mut store = vec![0xAAu8; n + pre];
                    let mut rb = ReadBuf::new(&mut store);
                    rb.advance(pre);
                    match Pin::new(unsafe { &mut *p }).poll_read(cx, &mut rb) {
                        Poll::Pending => Poll::Pending,
                        Poll::Ready(Err(e)) => Poll::Ready(io(Err(e))),
                        Poll::Ready(Ok(())) => {
                            let f = rb.filled();
                            if f.len() < pre || f[..pre].iter().any(|&b| b != 0xAA) {
                                return Poll::Ready(json!({"k": "clobbered"}));
                            }
                            Poll::Ready(if f.len() == pre { json!({"k": "eof"}) } else { json!({"k": "data", "b": rle(&f[pre..])}) })
                        }
                    }
                })));
                self.slots();
            }
            "cread" => match self.rd.take() {
                Some(mut s) => {
                    s.cancel();
                    self.rdres = json!({"k": "none"});
                }
                None => return false,
            },
            w @ ("write" | "writev" | "flush" | "shutdown") => {
                let p = match self.stream {
                    Some(p) if self.wr.is_none() && self.wrres["k"] == "none" => p,
                    _ => return false,
                };
                let w = w.to_string();
                let b = payload(op);
                self.wr = Some(Slot::new(std::future::poll_fn(move |cx| {
                    let s = Pin::new(unsafe { &mut *p });
                    match &w[..] {
                        "write" => s.poll_write(cx, &b).map(io),
                        "writev" => {
                            let (x, y) = b.split_at(b.len() / 2);
                            s.poll_write_vectored(cx, &[std::io::IoSlice::new(x), std::io::IoSlice::new(y)]).map(io)
                        }
                        "flush" => s.poll_flush(cx).map(|r| io(r.map(|_| 0))),
                        _ => s.poll_shutdown(cx).map(|r| io(r.map(|_| 0))),
                    }
                })));
                self.slots();
            }
            // Only the network and the client act; "idle" also looks at the CPU used.
            "idle" | "wait" => {}
            "stall" => match &mut self.data {
                Some(d) => d.stalled = true,
                None => return false,
            },
            "unstall" => match &mut self.data {
                Some(d) => d.stalled = false,
                None => return false,
            },
            // Writes (zeros, not recorded one by one) until the connection takes no more.
            "fill" => {
                let p = match self.stream {
                    Some(p) if self.wr.is_none() && self.wrres["k"] == "none" => p,
                    _ => return false,
                };
                if let Some(d) = &self.data {
                    d.small_buffers();
                }
                let z = vec![0u8; 65536];
                let total = Rc::new(RefCell::new(0usize));
                self.wr = Some(Slot::new(std::future::poll_fn(move |cx| loop {
                    if *total.borrow() > 64 << 20 {
                        return Poll::Ready(json!({"k": "ok", "n": 0}));
                    }
                    match Pin::new(unsafe { &mut *p }).poll_write(cx, &z) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Ok(n)) => *total.borrow_mut() += n,
                        Poll::Ready(Err(e)) => return Poll::Ready(io(Err(e))),
                    }
                })));
                self.slots();
            }
            "drop" => match self.stream.take() {
                Some(p) => {
                    self.rd = None;
                    self.wr = None;
                    self.rdres = json!({"k": "none"});
                    self.wrres = json!({"k": "none"});
                    let s = unsafe { Box::from_raw(p) };
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(s)));
                    self.con = "none";
                }
                None => return false,
            },
            "end" => match self.stream.take() {
                Some(p) => {
                    self.rd = None;
                    self.wr = None;
                    self.rdres = json!({"k": "none"});
                    self.wrres = json!({"k": "none"});
                    let s = *unsafe { Box::from_raw(p) };
                    self.con = "none";
                    let abort = op["how"].as_str() == Some("abort");
                    self.end = Some(Slot::new(async move {
                        if abort { s.abort().await } else { s.disconnect().await }.map_err(|e| e.to_string())
                    }));
                    self.slots();
                }
                None => return false,
            },
            "cend" => match self.end.take() {
                Some(mut s) => {
                    s.cancel();
                    self.endr = "none";
                }
                None => return false,
            },
            "drophandle" => {
                if self.tnc.is_none() || self.session() || self.calls.iter().any(|c| c.0.pending()) {
                    return false;
                }
                let b = unsafe { Box::from_raw(self.tnc.take().unwrap()) };
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(b)));
            }
            o => panic!("unknown op {}", o),
        }
        true
    }
}

/// Whether this thread burns CPU while there is nothing to do.
async fn spins() -> bool {
    let mut hits = 0;
    for _ in 0..3 {
        let c0 = thread_cpu();
        tokio::time::sleep(std::time::Duration::from_millis(25)).await;
        if (thread_cpu() - c0).as_millis() >= 10 {
            hits += 1;
        }
    }
    hits == 3
}

pub async fn run(script: &Value, log: Log) {
    let (lc, ld) = (listen(), listen());
    let mut b = VaraTnc::builder();
    b.control_port(lc.local_addr().unwrap().port().try_into().unwrap());
    b.data_port(ld.local_addr().unwrap().port().try_into().unwrap());
    let tnc = match b.build().await {
        Ok(t) => t,
        Err(e) => {
            log.lock().unwrap().push(json!({"op": "nobuild", "why": e.to_string()}));
            return;
        }
    };
    let (ctl, data) = (Conn::accept(&lc), Conn::accept(&ld));
    let ptt = tnc.subscribe_rig_command();
    let probes_raw: Vec<Value> = script["probes"].as_array().cloned().unwrap_or_default();
    let mut r = Run {
        tnc: Some(Box::into_raw(Box::new(tnc))),
        ctl,
        data,
        ptt,
        calls: vec![],
        connect: None,
        con: "none",
        stream: None,
        end: None,
        endr: "none",
        rd: None,
        wr: None,
        seen_hb: Instant::now(),
        probes: probes_raw.iter().map(sid).collect(),
        probes_raw,
        carry: vec![],
        rdres: json!({"k": "none"}),
        wrres: json!({"k": "none"}),
    };
    r.settle().await;
    for op in script["ops"].as_array().unwrap() {
        step();
        let mut ev: Map<String, Value> = op.as_object().unwrap().clone();
        if !r.act(op) {
            ev.insert("op".into(), json!("skip"));
        }
        if op["s"].as_bool().unwrap_or(true) {
            r.settle().await;
            if script["slow"] == json!(true) {
                long_pause();
                r.settle().await;
            }
            let mut o = r.observe();
            o["spin"] = json!(op["op"] == "idle" && spins().await);
            ev.insert("o".into(), o);
        } else {
            // The client gets only so far before the next action.
            for _ in 0..op["y"].as_u64().unwrap_or(0) {
                let () = tokio::task::yield_now().await;
                if op["p"].as_bool().unwrap_or(true) {
                    r.slots();
                }
            }
        }
        log.lock().unwrap().push(Value::Object(ev));
    }
    step();
    // Leave nothing running that the next script could see.
    let p0 = panics();
    if let Some(s) = r.stream.take() {
        drop(unsafe { Box::from_raw(s) });
    }
    r.connect = None;
    r.end = None;
    r.calls.clear();
    if let Some(t) = r.tnc.take() {
        drop(unsafe { Box::from_raw(t) });
    }
    let _ = p0;
}
