//! Hooks: order, what they see, and what their failures do.
use super::common::*;
use crate::hooks::Inner;
use crate::net::net;
use crate::rt;

fn text(n: usize) -> Option<String> {
    if rt::choose(2) == 1 {
        Some(rt::word(n, 3))
    } else {
        None
    }
}

/// arg0: interface style.
pub fn hooks() {
    let inner = Inner { pre_fail: text(2), post_fail: text(2), add: text(2), tag: rt::u8() };
    let transport_fails = rt::choose(2) == 1;
    let st = rt::u16();
    rt::assume(st >= 100 && st <= 999);
    if transport_fails {
        net().answers.push_back(Answer::Fail);
    } else {
        answer(json(st, "{\"name\":\"n\",\"code\":\"c\"}"));
    }
    let base = BASES[0];
    let (k, msg) = if rt::arg(0) == 0 {
        let c = gen::ph::Client::new_with_client(base, Client::new(), inner.clone());
        rt::check(c.inner().tag == inner.tag, "hooks: the inner value is the caller's");
        let t = gen::ph::types::Thing { name: "n".into(), size: None };
        let r = run(c.one("i", None, &t));
        (kind(&r), err(r))
    } else {
        let c = gen::bh::Client::new_with_client(base, Client::new(), inner.clone());
        let t = gen::bh::types::Thing { name: "n".into(), size: None };
        let r = run(c.one().id("i").body(t).send());
        (kind(&r), err(r))
    };
    let n = net();
    let t = inner.tag;
    let mut log = vec![b'p', t, 0, b'q', t];
    let want = if inner.pre_fail.is_some() {
        K::Pre
    } else {
        log.push(b'S');
        let (a, b) = if transport_fails { (255, 255) } else { ((st >> 8) as u8, st as u8) };
        log.extend_from_slice(&[b'r', t, a, b, b't', t, a, b]);
        if inner.post_fail.is_some() {
            K::Post
        } else if transport_fails {
            K::Comm
        } else if st == 200 {
            K::Ok
        } else if st >= 400 && st <= 499 {
            K::Documented
        } else {
            K::Unexpected
        }
    };
    rt::check(rt::same(&n.log, &log), "hooks: each hook runs once, in order, around the one request, and sees its outcome");
    rt::check(k == want, "hooks: a failing hook decides the result, otherwise the answer does");
    match want {
        K::Pre => {
            rt::check(n.sent.is_empty(), "hooks: nothing is sent after a failed pre-hook");
            rt::check(msg == inner.pre_fail, "hooks: the hook's message is passed on");
        }
        K::Post => rt::check(msg == inner.post_fail, "hooks: the hook's message is passed on"),
        _ => {}
    }
    if want != K::Pre {
        let ok = n.sent.len() == 1
            && match (&inner.add, n.sent[0].headers.get("x-added")) {
                (None, None) => true,
                (Some(a), Some(h)) => rt::same(a.as_bytes(), h.as_bytes()),
                _ => false,
            };
        rt::check(ok, "hooks: the request is sent as the pre-hook left it");
    }
}
fn err<T, E>(r: Result<progenitor_client::ResponseValue<T>, progenitor_client::Error<E>>) -> Option<String> {
    match r {
        Err(progenitor_client::Error::PreHookError(s)) | Err(progenitor_client::Error::PostHookError(s)) => Some(s),
        _ => None,
    }
}

/// Only the synchronous hooks are configured.
pub fn sync_hooks() {
    let inner = Inner { tag: rt::u8(), ..Inner::default() };
    let fails = rt::choose(2) == 1;
    let st = rt::u16();
    rt::assume(st >= 100 && st <= 999);
    if fails {
        net().answers.push_back(Answer::Fail);
    } else {
        answer(json(st, "{\"name\":\"n\",\"code\":\"c\"}"));
    }
    let c = gen::pa::Client::new_with_client(BASES[0], Client::new(), inner.clone());
    let t = gen::pa::types::Thing { name: "n".into(), size: None };
    let k = kind(&run(c.one("i", None, &t)));
    let (a, b) = if fails { (255, 255) } else { ((st >> 8) as u8, st as u8) };
    rt::check(
        rt::same(&net().log, &[b'p', inner.tag, 0, b'S', b'r', inner.tag, a, b]),
        "hooks: each hook runs once, in order, around the one request, and sees its outcome",
    );
    let want = if fails {
        K::Comm
    } else if st == 200 {
        K::Ok
    } else if st >= 400 && st <= 499 {
        K::Documented
    } else {
        K::Unexpected
    };
    rt::check(k == want, "hooks: a failing hook decides the result, otherwise the answer does");
}
