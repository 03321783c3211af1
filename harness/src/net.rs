//! The TNC's side: plain non-blocking sockets, and a look at the client's ends of them.
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::time::{Duration, Instant};

pub fn listen() -> TcpListener {
    let l = TcpListener::bind(("127.0.0.1", 0)).unwrap();
    l.set_nonblocking(true).unwrap();
    l
}

fn addr_of(fd: i32, peer: bool) -> Option<SocketAddr> {
    unsafe {
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        let mut n = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
        let p = &mut a as *mut _ as *mut libc::sockaddr;
        let r = if peer { libc::getpeername(fd, p, &mut n) } else { libc::getsockname(fd, p, &mut n) };
        if r != 0 || a.sin_family != libc::AF_INET as u16 {
            return None;
        }
        Some(SocketAddr::from((u32::from_be(a.sin_addr.s_addr).to_be_bytes(), u16::from_be(a.sin_port))))
    }
}

pub struct Conn {
    pub s: Option<TcpStream>,
    local: SocketAddr,
    remote: SocketAddr,
    client_fd: Option<i32>,
    pub eof: bool,
    pub stalled: bool,
    pub got: Vec<u8>,
    shut: bool,
}

impl Conn {
    pub fn accept(l: &TcpListener) -> Option<Conn> {
        let t0 = Instant::now();
        let (s, remote) = loop {
            match l.accept() {
                Ok(x) => break x,
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    if t0.elapsed() > Duration::from_secs(5) {
                        return None;
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
                Err(_) => return None,
            }
        };
        s.set_nonblocking(true).unwrap();
        s.set_nodelay(true).unwrap();
        let local = s.local_addr().unwrap();
        let mut c = Conn { s: Some(s), local, remote, client_fd: None, eof: false, stalled: false, got: vec![], shut: false };
        c.client_fd = c.find_client();
        Some(c)
    }
    fn is_client(&self, fd: i32) -> bool {
        addr_of(fd, false) == Some(self.remote) && addr_of(fd, true) == Some(self.local)
    }
    fn find_client(&self) -> Option<i32> {
        let dir = std::fs::read_dir("/proc/self/fd").ok()?;
        dir.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).find(|&fd| self.is_client(fd))
    }
    pub fn client(&self) -> Option<i32> {
        self.client_fd.filter(|&fd| self.is_client(fd) || (self.s.is_none() && addr_of(fd, false) == Some(self.remote)))
    }
    fn ioctl(fd: i32, req: libc::c_ulong) -> i32 {
        let mut n: libc::c_int = 0;
        unsafe { libc::ioctl(fd, req, &mut n) };
        n
    }
    /// Bytes the client has received and not read.
    pub fn unread(&self) -> i32 {
        self.client().map(|fd| Self::ioctl(fd, libc::FIONREAD)).unwrap_or(0)
    }
    /// Whether bytes or an end of stream are still under way between the two kernels' queues.
    pub fn in_flight(&self) -> bool {
        let mine = self.s.as_ref().map(|s| Self::ioctl(s.as_raw_fd(), libc::TIOCOUTQ)).unwrap_or(0);
        let theirs = if self.stalled { 0 } else { self.client().map(|fd| Self::ioctl(fd, libc::TIOCOUTQ)).unwrap_or(0) };
        if mine != 0 && self.client().is_some() || theirs != 0 && self.s.is_some() {
            return true;
        }
        if self.shut {
            if let Some(fd) = self.client() {
                return !matches!(tcp_state(fd), Some(8) | Some(7) | Some(9) | Some(11) | Some(6) | Some(5));
            }
        }
        false
    }
    pub fn send(&mut self, mut b: &[u8]) {
        let t0 = Instant::now();
        while let Some(s) = self.s.as_mut() {
            if b.is_empty() {
                return;
            }
            match s.write(b) {
                Ok(n) => b = &b[n..],
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock && t0.elapsed() < Duration::from_secs(5) => {
                    std::thread::sleep(Duration::from_millis(1))
                }
                Err(_) => return,
            }
        }
    }
    /// Reads what has come in; says whether anything did.
    pub fn pump(&mut self) -> bool {
        if self.stalled || self.eof {
            return false;
        }
        let mut any = false;
        let mut buf = [0u8; 65536];
        while let Some(s) = self.s.as_mut() {
            match s.read(&mut buf) {
                Ok(0) => {
                    self.eof = true;
                    return true;
                }
                Ok(n) => {
                    self.got.extend_from_slice(&buf[..n]);
                    any = true;
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(_) => {
                    self.eof = true;
                    return true;
                }
            }
        }
        any
    }
    /// Ends the TNC's sending side.
    pub fn close(&mut self) {
        if let Some(s) = self.s.as_ref() {
            let _ = s.shutdown(std::net::Shutdown::Write);
            self.shut = true;
        }
    }
    pub fn small_buffers(&self) {
        let n: libc::c_int = 4096;
        for (fd, o) in [(self.s.as_ref().map(|s| s.as_raw_fd()), libc::SO_RCVBUF), (self.client(), libc::SO_SNDBUF)] {
            if let Some(fd) = fd {
                unsafe {
                    libc::setsockopt(fd, libc::SOL_SOCKET, o, &n as *const _ as *const libc::c_void, 4);
                }
            }
        }
    }
}

/// The connection's state as the kernel sees it: the first byte of `struct tcp_info`.
fn tcp_state(fd: i32) -> Option<u8> {
    let mut b = [0u8; 256];
    let mut n = b.len() as libc::socklen_t;
    let r = unsafe { libc::getsockopt(fd, libc::IPPROTO_TCP, libc::TCP_INFO, b.as_mut_ptr() as *mut libc::c_void, &mut n) };
    (r == 0 && n > 0).then(|| b[0])
}
