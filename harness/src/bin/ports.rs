//! Building a TNC handle against listeners on the loopback network.
use harness::slot::Slot;
use harness::util::*;
use plusendi::modem::vara::{VaraTnc, VaraTncBuilder};
use plusendi::StationId;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{IpAddr, SocketAddr, TcpListener, TcpStream};
use std::num::NonZeroU16;
use std::os::unix::io::FromRawFd;
use std::time::{Duration, Instant};

struct Place {
    addr: SocketAddr,
    sock: TcpListener, // bound; listening unless closed
    open: bool,
    fillers: Vec<TcpStream>,
    skip: Vec<SocketAddr>, // fillers' own addresses
    conns: Vec<(TcpStream, Vec<u8>)>,
}

/// A bound socket, listening with the given backlog, or not at all.
fn place(addr: SocketAddr, backlog: Option<i32>) -> Option<TcpListener> {
    unsafe {
        let v6 = addr.is_ipv6();
        let fd = libc::socket(if v6 { libc::AF_INET6 } else { libc::AF_INET }, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return None;
        }
        let s = TcpListener::from_raw_fd(fd);
        let one: libc::c_int = 1;
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_REUSEADDR, &one as *const _ as *const libc::c_void, 4);
        let r = match addr {
            SocketAddr::V4(a) => {
                let mut x: libc::sockaddr_in = std::mem::zeroed();
                x.sin_family = libc::AF_INET as u16;
                x.sin_port = a.port().to_be();
                x.sin_addr.s_addr = u32::from(*a.ip()).to_be();
                libc::bind(fd, &x as *const _ as *const libc::sockaddr, std::mem::size_of_val(&x) as u32)
            }
            SocketAddr::V6(a) => {
                let mut x: libc::sockaddr_in6 = std::mem::zeroed();
                x.sin6_family = libc::AF_INET6 as u16;
                x.sin6_port = a.port().to_be();
                x.sin6_addr.s6_addr = a.ip().octets();
                libc::bind(fd, &x as *const _ as *const libc::sockaddr, std::mem::size_of_val(&x) as u32)
            }
        };
        if r != 0 {
            return None;
        }
        if let Some(n) = backlog {
            if libc::listen(fd, n) != 0 {
                return None;
            }
        }
        s.set_nonblocking(true).ok()?;
        Some(s)
    }
}

fn run(q: &Value, rt: &tokio::runtime::Runtime) -> Value {
    let skip = |why: String| json!({"id": q["id"], "skip": why, "net": q["net"], "ev": []});
    let mut places: Vec<Place> = vec![];
    for p in q["net"].as_array().unwrap() {
        let ip: IpAddr = p["h"].as_str().unwrap().parse().unwrap();
        let addr = SocketAddr::new(ip, p["p"].as_u64().unwrap() as u16);
        let how = p["how"].as_str().unwrap();
        let sock = match place(addr, match how { "closed" => None, "full" => Some(0), _ => Some(16) }) {
            Some(s) => s,
            None => return skip(format!("{} cannot be bound", addr)),
        };
        let mut x = Place { addr, sock, open: how != "closed", fillers: vec![], skip: vec![], conns: vec![] };
        if how == "full" {
            // The queue takes backlog + 1 connections.
            match TcpStream::connect_timeout(&addr, Duration::from_secs(1)) {
                Ok(s) => {
                    x.skip.push(s.local_addr().unwrap());
                    x.fillers.push(s);
                }
                Err(e) => return skip(format!("{}: {}", addr, e)),
            }
        }
        places.push(x);
    }
    let mut builder: VaraTncBuilder = VaraTnc::builder();
    let mut building: Option<Slot<std::io::Result<VaraTnc>>> = None;
    let mut tnc: Option<&'static VaraTnc> = None;
    let mut call: Option<Slot<bool>> = None;
    let mut held = false; // a connection is held back on purpose
    let mut ev = vec![];
    held |= places.iter().any(|p| !p.fillers.is_empty());
    for op in q["ops"].as_array().unwrap() {
        step();
        let mut e = op.clone();
        let mut res = "none";
        match op["op"].as_str().unwrap() {
            "host" => {
                builder.host(op["h"].as_str().unwrap().parse().unwrap());
            }
            "control" => {
                builder.control_port(NonZeroU16::new(op["p"].as_u64().unwrap() as u16).unwrap());
            }
            "data" => {
                builder.data_port(NonZeroU16::new(op["p"].as_u64().unwrap() as u16).unwrap());
            }
            "build" => {
                let b: *mut VaraTncBuilder = &mut builder;
                building = Some(Slot::new(async move { unsafe { &mut *b }.build().await }));
            }
            "admit" => {
                for p in places.iter_mut() {
                    p.fillers.clear();
                    // Taken from the queue below.
                    while !p.skip.is_empty() {
                        match p.sock.accept() {
                            Ok((_, a)) => p.skip.retain(|x| *x != a),
                            Err(_) => break,
                        }
                    }
                }
                held = false;
            }
            "call" => {
                // Without a handle, nothing can be called.
                call = tnc.map(|t| Slot::new(async move { t.send_callsign(StationId::new("W1AW".to_string()).unwrap()).await.is_ok() }));
                if call.is_none() {
                    e["o"] = json!({"res": "none", "conns": [], "to": []});
                    ev.push(e);
                    continue;
                }
            }
            k => panic!("{}", k),
        }
        if building.is_some() || call.is_some() {
            let t0 = Instant::now();
            let limit = if held { Duration::from_millis(400) } else { Duration::from_secs(8) };
            loop {
                rt.block_on(async {
                    if let Some(b) = building.as_mut() {
                        b.drive();
                    }
                    if let Some(c) = call.as_mut() {
                        c.drive();
                    }
                    tokio::time::sleep(Duration::from_millis(1)).await;
                });
                for p in places.iter_mut() {
                    for (s, got) in p.conns.iter_mut() {
                        let mut b = [0; 4096];
                        if let Ok(n) = s.read(&mut b) {
                            got.extend_from_slice(&b[..n]);
                            if n > 0 && got.ends_with(b"\r") && call.is_some() {
                                let _ = s.write_all(b"OK\r");
                            }
                        }
                    }
                }
                if building.as_ref().map(|b| !b.pending()).unwrap_or(false) || call.as_ref().map(|c| !c.pending()).unwrap_or(false) || t0.elapsed() > limit {
                    break;
                }
            }
        }
        if let Some(b) = building.as_mut() {
            res = if b.panicked { "panic" } else { match b.done.take() {
                None => "pend",
                Some(Err(_)) => "err",
                Some(Ok(t)) => {
                    tnc = Some(Box::leak(Box::new(t)));
                    "ok"
                }
            } };
            if res != "pend" {
                building = None;
            }
        }
        // New connections, by place.
        let mut conns = vec![];
        let open: Vec<usize> = (0..places.len()).filter(|&i| places[i].open).collect();
        for i in open {
            let p = &mut places[i];
            if !p.fillers.is_empty() {
                continue; // nothing can have come in, and looking would let it
            }
            while let Ok((s, a)) = p.sock.accept() {
                if p.skip.contains(&a) {
                    p.skip.retain(|x| *x != a);
                    continue;
                }
                s.set_nonblocking(true).unwrap();
                conns.push(json!([p.addr.ip().to_string(), p.addr.port()]));
                p.conns.push((s, vec![]));
            }
        }
        let mut o = json!({"res": res, "conns": conns});
        if let Some(c) = call.take() {
            // Which connection the command went to.
            let mut to = vec![];
            for p in places.iter_mut() {
                for (_, got) in p.conns.iter_mut() {
                    if !got.is_empty() {
                        to.push(json!([p.addr.ip().to_string(), p.addr.port(), jb(got)]));
                        got.clear();
                    }
                }
            }
            o["res"] = json!(match c.done { Some(true) => "ok", Some(false) => "err", None => "pend" });
            o["to"] = json!(to);
        }
        e["o"] = o;
        ev.push(e);
    }
    drop(building);
    json!({"id": q["id"], "net": q["net"], "ev": ev, "why": panic_text()})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    Watchdog::start(Duration::from_secs(10), Duration::from_secs(60));
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut out = Out::append(&a[2]);
    for line in text.lines() {
        let q: Value = serde_json::from_str(line).unwrap();
        let (id, path, net) = (q["id"].clone(), a[2].clone(), q["net"].clone());
        on_hang(Some(Box::new(move |why| Out::append(&path).line(&json!({"id": id, "net": net, "ev": [{"op": "hang", "why": why}]})))));
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let r = run(&q, &rt);
        on_hang(None);
        drop(rt);
        out.line(&r);
    }
}
