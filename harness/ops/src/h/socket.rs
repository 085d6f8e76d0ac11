//! Websocket operations.
use super::common::*;
use crate::net::net;
use crate::resp::response;
use crate::rt;
use base64::Engine;

static mut KEY: [u8; 16] = [0; 16];
fn key() -> [u8; 16] {
    unsafe { KEY }
}

/// arg0: interface style, arg1: free bytes of the nonce.
pub fn socket() {
    let st = rt::u16();
    rt::assume(st >= 100 && st <= 999);
    let mut k = *b"0123456789abcdef";
    for i in 0..rt::arg(1) as usize {
        k[(i * 5) % 16] = rt::u8();
    }
    unsafe {
        KEY = k;
        rand::SOURCE = key;
    }
    let id = rt::word(1, 3);
    let q = if rt::choose(2) == 1 { Some(rt::word(1, 3)) } else { None };
    let h = if rt::choose(2) == 1 { Some(rt::word(1, 3)) } else { None };
    answer(response(st, &vec![], vec![]));
    let got = if rt::arg(0) == 0 {
        let c = gen::ps::Client::new_with_client(BASES[0], Client::new());
        kind(&run(c.channel(&id, q.as_deref(), h.as_deref())))
    } else {
        let c = gen::bs::Client::new_with_client(BASES[0], Client::new());
        let mut b = c.channel().id(&id);
        if let Some(q) = &q {
            b = b.q(q);
        }
        if let Some(h) = &h {
            b = b.x_h(h);
        }
        kind(&run(b.send()))
    };
    // the stand-in connection cannot be taken over, so 101 ends in its error
    let want = if st == 101 { K::Upgrade } else { K::Unexpected };
    rt::check(got == want, "socket: only 101 starts an upgrade, everything else is unexpected");
    let n = net();
    rt::check(n.sent.len() == 1, "socket: one call sends one request");
    let s = &n.sent[0];
    let mut w: Vec<(&str, &[u8])> = vec![
        ("api-version", VERSION),
        ("connection", b"Upgrade"),
        ("upgrade", b"websocket"),
        ("sec-websocket-version", b"13"),
    ];
    if let Some(h) = &h {
        w.push(("x-h", h.as_bytes()));
    }
    let mut hs = s.headers.clone();
    let nonce = hs.remove("sec-websocket-key");
    rt::check(headers_are(&hs, &w), "socket: the upgrade is asked for as the protocol prescribes");
    let ok = match nonce {
        Some(v) => v.len() == 24 && match base64::engine::general_purpose::STANDARD.decode(v.as_bytes()) {
            Ok(d) => rt::same(&d, &k),
            Err(_) => false,
        },
        None => false,
    };
    rt::check(ok, "socket: the key is the fresh nonce in base64");
    let qs: Vec<(&str, &[u8])> = q.iter().map(|q| ("q", q.as_bytes())).collect();
    rt::check(
        s.method == "GET" && segs_eq(&segments(&s.url, BASES[0]), &[b"ws".to_vec(), id.as_bytes().to_vec()]) && query_is(&s.url, &qs),
        "socket: parameters reach their places",
    );
}
