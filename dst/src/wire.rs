//! The harness's own HTTP/1.1 reader: deliberately strict and independent of wruster.
pub struct Msg { pub start: String, pub status: u16, pub headers: Vec<(String, String)>, pub head_end: usize, pub end: usize, pub cl: Option<u64> }
pub enum P { Done(Msg), Partial, Bad(String) }

pub fn header<'a>(h: &'a [(String, String)], name: &str) -> Vec<&'a str> { h.iter().filter(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str()).collect() }

fn head(buf: &[u8]) -> Option<usize> { buf.windows(4).position(|w| w == b"\r\n\r\n").map(|p| p + 4) }
fn parse_head(buf: &[u8]) -> Result<Option<(String, Vec<(String, String)>, usize)>, String> {
    let Some(end) = head(buf) else { return Ok(None) };
    let txt: String = buf[..end - 4].iter().map(|b| *b as char).collect();
    let mut lines = txt.split("\r\n");
    let start = lines.next().unwrap_or("").to_string();
    let mut hs = vec![];
    for l in lines {
        if l.contains('\n') || l.contains('\r') { return Err(format!("stray line end in header line {l:?}")); }
        let Some(c) = l.find(':') else { return Err(format!("header line without colon {l:?}")) };
        if c == 0 || l[..c].bytes().any(|b| b <= b' ' || b >= 0x7f) { return Err(format!("bad header name {l:?}")); }
        hs.push((l[..c].to_string(), l[c + 1..].trim_matches(|c| c == ' ' || c == '\t').to_string()));
    }
    Ok(Some((start, hs, end)))
}
fn length(hs: &[(String, String)]) -> Result<Option<u64>, String> {
    if !header(hs, "transfer-encoding").is_empty() { return Err("unexpected Transfer-Encoding".into()); }
    let cl = header(hs, "content-length");
    if cl.len() > 1 { return Err(format!("{} Content-Length headers", cl.len())); }
    match cl.first() { None => Ok(None), Some(v) if !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()) => v.parse().map(Some).map_err(|e| format!("Content-Length {v:?}: {e}")), Some(v) => Err(format!("Content-Length {v:?}")) }
}
/// Does a response end with its headers whatever they say?
pub fn bodyless(head: bool, status: u16) -> bool { head || status == 204 || status == 304 || status / 100 == 1 }
/// One response at the start of `buf`; a response without a Content-Length is not delimited and therefore Bad.
pub fn response(buf: &[u8]) -> P { response_to(buf, false) }
/// The same, for a request that was a HEAD one.
pub fn response_to(buf: &[u8], to_head: bool) -> P {
    let (start, headers, head_end) = match parse_head(buf) { Err(e) => return P::Bad(e), Ok(None) => {
        let good = b"HTTP/1.1 ";
        let n = buf.len().min(good.len());
        if buf[..n] != good[..n] { return P::Bad(format!("not a status line: {:?}", String::from_utf8_lossy(&buf[..buf.len().min(40)]))); }
        return P::Partial
    }, Ok(Some(v)) => v };
    let b = start.as_bytes();
    if b.len() < 12 || &b[..9] != b"HTTP/1.1 " || !b[9..12].iter().all(|c| c.is_ascii_digit()) || (b.len() > 12 && b[12] != b' ') { return P::Bad(format!("bad status line {start:?}")); }
    let status = start[9..12].parse().unwrap();
    match length(&headers) {
        Err(e) => P::Bad(e),
        Ok(cl) if bodyless(to_head, status) => P::Done(Msg { start, status, headers, head_end, end: head_end, cl }),
        Ok(None) => P::Bad(format!("response {start:?} has no Content-Length: its body is not delimited")),
        Ok(Some(n)) => { let end = head_end + n as usize; if buf.len() < end { P::Partial } else { P::Done(Msg { start, status, headers, head_end, end, cl: Some(n) }) } }
    }
}
/// The head of a response whose body is still incomplete.
pub fn response_head(buf: &[u8]) -> Option<(u16, Vec<(String, String)>, usize, u64)> {
    let (start, hs, e) = parse_head(buf).ok()??;
    let n = length(&hs).ok()??;
    Some((start.get(9..12)?.parse().ok()?, hs, e, n))
}
pub fn request(buf: &[u8]) -> P {
    let (start, headers, head_end) = match parse_head(buf) { Err(e) => return P::Bad(e), Ok(None) => return P::Partial, Ok(Some(v)) => v };
    let parts: Vec<&str> = start.split(' ').collect();
    if parts.len() != 3 || !parts[2].starts_with("HTTP/1.") || !parts[0].bytes().all(|b| b.is_ascii_uppercase()) || parts[0].is_empty() { return P::Bad(format!("bad request line {start:?}")); }
    match length(&headers) {
        Err(e) => P::Bad(e),
        Ok(n) => { let n = n.unwrap_or(0); let end = head_end + n as usize; if buf.len() < end { P::Partial } else { P::Done(Msg { start, status: 0, headers, head_end, end, cl: Some(n) }) } }
    }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() }
pub fn show(b: &[u8]) -> String { let s: String = b.iter().take(160).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect(); if b.len() > 160 { format!("{s}...({} bytes)", b.len()) } else { s } }
