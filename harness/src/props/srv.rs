//! A scripted server on the loopback interface, for C25 and C31.

use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::mpsc;
use std::time::Duration;

use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Framing { Length, Chunked, Close }

/// What goes wrong, with a position in the response body.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Event { None, CloseBefore, CloseHead(u16), CloseBody(u16), StallBefore, StallHead(u16), StallBody(u16), Drip(u16), Garbage }

/// How many bytes drip at the end of the body, in as many times 10 ms.
pub const DRIPS: usize = 400;

/// A request as it arrived.
pub struct Seen { pub line: String, pub headers: Vec<(String, Vec<u8>)>, pub body: Vec<u8> }

fn bad(s: &str) -> std::io::Error { std::io::Error::new(std::io::ErrorKind::InvalidData, s.to_string()) }

fn receive(s: &mut TcpStream) -> std::io::Result<Seen> {
    let mut buf = vec![];
    let mut tmp = [0u8; 4096];
    let mut more = |buf: &mut Vec<u8>| -> std::io::Result<()> {
        let n = s.read(&mut tmp)?;
        if n == 0 { return Err(bad("request ended early")); }
        buf.extend_from_slice(&tmp[..n]);
        Ok(())
    };
    let end = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break p; }
        more(&mut buf)?;
    };
    let head = buf[..end].to_vec();
    let mut rest = buf[end + 4..].to_vec();
    let mut lines = vec![];
    let mut at = 0;
    while at <= head.len() {
        let e = head[at..].windows(2).position(|w| w == b"\r\n").map(|p| at + p).unwrap_or(head.len());
        lines.push(&head[at..e]);
        at = e + 2;
    }
    let line = String::from_utf8_lossy(lines[0]).to_string();
    let mut headers = vec![];
    for l in &lines[1..] {
        let c = l.iter().position(|b| *b == b':').ok_or_else(|| bad("header"))?;
        headers.push((String::from_utf8_lossy(&l[..c]).to_lowercase(), trim(&l[c + 1..]).to_vec()));
    }
    let get = |n: &str| headers.iter().find(|(k, _)| k == n).map(|(_, v)| String::from_utf8_lossy(v).to_lowercase());
    let mut body = vec![];
    if let Some(l) = get("content-length") {
        let l: usize = l.parse().map_err(|_| bad("length"))?;
        while rest.len() < l { more(&mut rest)?; }
        body = rest[..l].to_vec();
    } else if get("transfer-encoding").map(|t| t == "chunked").unwrap_or(false) {
        loop {
            let p = loop {
                if let Some(p) = rest.windows(2).position(|w| w == b"\r\n") { break p; }
                more(&mut rest)?;
            };
            let n = usize::from_str_radix(&String::from_utf8_lossy(&rest[..p]), 16).map_err(|_| bad("chunk size"))?;
            while rest.len() < p + 2 + n + 2 { more(&mut rest)?; }
            body.extend_from_slice(&rest[p + 2..p + 2 + n]);
            rest.drain(..p + 2 + n + 2);
            if n == 0 { break; }
        }
    }
    Ok(Seen { line, headers, body })
}

pub struct Plan { pub head: Vec<u8>, pub body: Vec<u8>, pub writes: Vec<u16>, pub event: Event, pub close: bool }

thread_local!(static LISTENER: std::cell::RefCell<Option<TcpListener>> = const { std::cell::RefCell::new(None) });

/// One listener for all cases, as ports are limited, without connections left.
pub fn listener() -> R<TcpListener> {
    LISTENER.with(|l| {
        let mut l = l.borrow_mut();
        if l.is_none() { *l = Some(TcpListener::bind(("127.0.0.1", 0)).h("listen")?); }
        let l = l.as_ref().unwrap();
        l.set_nonblocking(true).h("listener")?;
        while l.accept().is_ok() {}
        l.set_nonblocking(false).h("listener")?;
        l.try_clone().h("listener")
    })
}

/// Reset on close, which leaves nothing behind.
fn reset_on_close(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void,
                         std::mem::size_of::<libc::linger>() as u32);
    }
}

/// Serve a single connection; ends when told.
pub fn serve(l: TcpListener, p: Plan, tx: mpsc::Sender<std::io::Result<Seen>>, done: mpsc::Receiver<()>) {
    let mut s = match l.accept() { Ok((s, _)) => s, Err(e) => { let _ = tx.send(Err(e)); return; } };
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_secs(30)));
    let _ = s.set_write_timeout(Some(Duration::from_secs(30)));
    let r = receive(&mut s);
    let ok = r.is_ok();
    let _ = tx.send(r);
    if !ok { return; }
    let cut = |b: &[u8], at: u16| at as usize % b.len().max(1);
    let mut bytes = p.head.clone();
    let (mut stall, mut close) = (false, p.close);
    let mut drip: &[u8] = &[];
    match p.event {
        Event::None => bytes.extend_from_slice(&p.body),
        Event::CloseBefore => { bytes.clear(); close = true; }
        Event::CloseHead(n) => { bytes.truncate(cut(&p.head, n)); close = true; }
        Event::CloseBody(n) => { bytes.extend_from_slice(&p.body[..cut(&p.body, n)]); close = true; }
        Event::StallBefore => { bytes.clear(); stall = true; }
        Event::StallHead(n) => { bytes.truncate(cut(&p.head, n)); stall = true; }
        Event::StallBody(n) => { bytes.extend_from_slice(&p.body[..cut(&p.body, n)]); stall = true; }
        Event::Drip(n) => {
            let at = p.body.len() - DRIPS.min(p.body.len()) - cut(&p.body, n) % 7;
            bytes.extend_from_slice(&p.body[..at]);
            drip = &p.body[at..];
        }
        Event::Garbage => bytes = b"\x00\x01garbage without any meaning\r\n\r\n".to_vec(),
    }
    for w in pieces(&bytes, &p.writes) {
        // The client may have given up already
        if s.write_all(w).is_err() { break; }
    }
    for b in drip.chunks(1) {
        if done.recv_timeout(Duration::from_millis(10)).is_ok() { return reset_on_close(&s); }
        if s.write_all(b).is_err() { break; }
    }
    if stall { let _ = done.recv_timeout(Duration::from_secs(60)); }
    if close { let _ = s.shutdown(Shutdown::Write); }
    let _ = done.recv_timeout(Duration::from_secs(60));
    reset_on_close(&s);
}

/// Without the headers that govern the connection.
pub fn usable(h: &[(String, Vec<u8>)]) -> Headers {
    h.iter().filter(|(n, _)| !["content-length", "transfer-encoding", "host", "connection", "expect", "upgrade", "te", "trailer",
        "keep-alive", "proxy-connection"].contains(&n.as_str())).cloned().collect()
}

/// Headers about the connection that change nothing for a single exchange.
pub fn connection(k: u8) -> Headers {
    let h: &[(&str, &str)] = match k % 8 {
        1 => &[("connection", "close")],
        2 => &[("connection", "keep-alive")],
        3 => &[("connection", "keep-alive"), ("keep-alive", "timeout=5")],
        4 => &[("proxy-connection", "close")],
        5 => &[("trailer", "etag")],
        6 => &[("upgrade", "h2c")],
        _ => &[],
    };
    h.iter().map(|(n, v)| (n.to_string(), v.as_bytes().to_vec())).collect()
}

/// The body as sent with chunked framing.
pub fn chunked(data: &[u8], sizes: &[u16]) -> Vec<u8> {
    let mut wire = vec![];
    for p in pieces(data, sizes) {
        if p.is_empty() { continue; }
        wire.extend_from_slice(format!("{:x}\r\n", p.len()).as_bytes());
        wire.extend_from_slice(p);
        wire.extend_from_slice(b"\r\n");
    }
    wire.extend_from_slice(b"0\r\n\r\n");
    wire
}

pub fn head(v10: bool, status: u16, served: &Headers) -> Vec<u8> {
    let mut head = format!("HTTP/1.{} {} {}\r\n", if v10 { 0 } else { 1 }, status, "Reason").into_bytes();
    for (k, v) in served {
        head.extend_from_slice(k.as_bytes());
        head.extend_from_slice(b": ");
        head.extend_from_slice(v);
        head.extend_from_slice(b"\r\n");
    }
    head.extend_from_slice(b"\r\n");
    head
}
