//! A gazette server for P24 (native side only). The name lookup and connecting of this process
//! go through here: any host is this server, which listens on the loopback interface; nothing
//! else is replaced.
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::TcpListener;
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Debug)]
pub enum Answer {
    Body(Vec<u8>),
    /// Without a length: the body ends when the connection does
    Unsized(Vec<u8>),
    Status(u16),
    /// Announces more than it sends
    Cut(Vec<u8>),
    Nothing,
}
#[derive(Default)]
struct State {
    answers: HashMap<String, Answer>,
    asked: HashMap<String, u32>,
}
static STATE: OnceLock<Mutex<State>> = OnceLock::new();
static PORT: OnceLock<u16> = OnceLock::new();
fn state() -> std::sync::MutexGuard<'static, State> {
    STATE.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner())
}
fn port() -> u16 {
    *PORT.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let p = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                std::thread::spawn(move || serve(c));
            }
        });
        p
    })
}
fn serve(mut c: std::net::TcpStream) -> Option<()> {
    let mut head = vec![];
    let mut b = [0u8; 1];
    while !head.ends_with(b"\r\n\r\n") {
        if c.read(&mut b).ok()? == 0 {
            return None;
        }
        head.push(b[0]);
    }
    let head = String::from_utf8_lossy(&head).to_string();
    let path = head.split(' ').nth(1)?.to_string();
    let host = head.lines().find_map(|l| l.to_lowercase().strip_prefix("host:").map(|h| h.trim().to_string()))?;
    let url = format!("{host}{path}");
    let a = {
        let mut st = state();
        *st.asked.entry(url.clone()).or_default() += 1;
        st.answers.get(&url).cloned()
    };
    let send = |c: &mut std::net::TcpStream, status: u16, len: Option<usize>, body: &[u8]| {
        let len = len.map_or(String::new(), |l| format!("Content-Length: {l}\r\n"));
        let _ = c.write_all(format!("HTTP/1.1 {status} X\r\nConnection: close\r\n{len}\r\n").as_bytes());
        let _ = c.write_all(body);
    };
    match a {
        None => send(&mut c, 404, Some(0), b""),
        Some(Answer::Body(b)) => send(&mut c, 200, Some(b.len()), &b),
        Some(Answer::Unsized(b)) => send(&mut c, 200, None, &b),
        Some(Answer::Status(n)) => send(&mut c, n, Some(3), b"bad"),
        Some(Answer::Cut(b)) => send(&mut c, 200, Some(b.len() + 7), &b),
        Some(Answer::Nothing) => (),
    }
    Some(())
}
/// What is served at this address (without http://) from now on
pub fn answer(url: &str, a: Option<Answer>) {
    let mut st = state();
    st.asked.remove(url);
    match a {
        Some(a) => st.answers.insert(url.to_string(), a),
        None => st.answers.remove(url),
    };
}
/// How often it was asked for since then
pub fn asked(url: &str) -> u32 {
    state().asked.get(url).copied().unwrap_or(0)
}

type Int = std::os::raw::c_int;
type Ptr = *mut std::os::raw::c_void;
#[repr(C)]
pub struct AddrInfo {
    flags: Int,
    family: Int,
    socktype: Int,
    protocol: Int,
    addrlen: u32,
    addr: *mut SockAddr,
    canonname: Ptr,
    next: *mut AddrInfo,
}
#[repr(C)]
pub struct SockAddr {
    family: u16,
    port: [u8; 2],
    ip: [u8; 4],
    zero: [u8; 8],
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
const HERE: [u8; 4] = [198, 51, 100, 7];
const SYS_CONNECT: i64 = 42;

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(_node: Ptr, _service: Ptr, _hints: Ptr, res: *mut *mut AddrInfo) -> Int {
    let addr = Box::into_raw(Box::new(SockAddr { family: 2, port: [0; 2], ip: HERE, zero: [0; 8] }));
    *res = Box::into_raw(Box::new(AddrInfo {
        flags: 0,
        family: 2,
        socktype: 1,
        protocol: 6,
        addrlen: 16,
        addr,
        canonname: std::ptr::null_mut(),
        next: std::ptr::null_mut(),
    }));
    0
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(a: *mut AddrInfo) {
    if !a.is_null() {
        drop(Box::from_raw((*a).addr));
        drop(Box::from_raw(a));
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: Int, addr: *const SockAddr, len: u32) -> Int {
    if (*addr).family == 2 && (*addr).ip == HERE {
        let here = SockAddr { family: 2, port: port().to_be_bytes(), ip: [127, 0, 0, 1], zero: [0; 8] };
        return syscall(SYS_CONNECT, fd, &here, 16u32) as Int;
    }
    syscall(SYS_CONNECT, fd, addr, len) as Int
}
