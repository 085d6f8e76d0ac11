//! Paginated operations as streams.
use super::common::*;
use crate::net::net;
use crate::rt;
use futures_core::Stream;
use progenitor_client::Error;
use std::task::{Context, Poll};

/// How page i ends the run, if it does.
#[derive(Clone, Copy, PartialEq)]
enum End {
    /// Next token absent or null.
    Last(bool),
    Fail(K),
}

/// arg0: interface style, arg1: most pages, arg2: most items per page,
/// arg3: free bytes per token.
pub fn pages() {
    let (mode, maxp, maxi, tl) = (rt::arg(0) % 2, rt::arg(1) as usize, rt::arg(2) as u32, rt::arg(3) as usize);
    // a long run: every page but the last goes on, with a set number of items
    let long = rt::arg(0) >= 2;
    let base = BASES[0];
    let id = rt::word(1, 3);
    let filter = if rt::choose(2) == 1 { Some(rt::word(1, 3)) } else { None };
    let limit = if rt::choose(2) == 1 { Some(5i32) } else { None };
    let xh = if rt::choose(2) == 1 { Some(rt::word(1, 3)) } else { None };
    // script
    let mut items: Vec<Vec<String>> = vec![];
    let mut tokens: Vec<String> = vec![];
    let mut end = End::Last(true);
    for p in 0..maxp {
        let how = if p + 1 == maxp {
            rt::choose(5)
        } else if long {
            5
        } else {
            rt::choose(6)
        };
        if how >= 2 && how < 5 {
            end = End::Fail(match how {
                2 => {
                    net().answers.push_back(Answer::Fail);
                    K::Comm
                }
                3 => {
                    answer(json(404, "{\"code\":\"c\"}"));
                    K::Documented
                }
                _ => {
                    answer(json(200, "{\"items\":3}"));
                    K::Payload
                }
            });
            break;
        }
        let n = if long { (p as u32 * 7 + maxi) % (maxi + 1) } else { rt::choose(maxi + 1) };
        let its: Vec<String> = (0..n).map(|_| rt::word(1, 3)).collect();
        let mut b = String::from("{\"items\":[");
        for (i, s) in its.iter().enumerate() {
            if i > 0 {
                b.push(',');
            }
            b.push('"');
            b.push_str(s);
            b.push('"');
        }
        b.push(']');
        items.push(its);
        if how == 5 {
            let t = rt::word(tl, 3);
            b.push_str(",\"next_page\":\"");
            b.push_str(&t);
            b.push('"');
            tokens.push(t);
        } else if how == 1 {
            b.push_str(",\"next_page\":null");
        }
        b.push('}');
        answer(json(200, &b));
        if how != 5 {
            end = End::Last(how == 1);
            break;
        }
    }
    // which page each item is on
    let mut want: Vec<(&str, usize)> = vec![];
    for (p, its) in items.iter().enumerate() {
        for s in its {
            want.push((s, p));
        }
    }
    let requests = items.len() + if matches!(end, End::Fail(_)) { 1 } else { 0 };

    fn drive<T: AsRef<str>, E, S: Stream<Item = Result<T, Error<E>>> + Unpin>(
        mut s: S,
        want: &[(&str, usize)],
        end: End,
        requests: usize,
    ) {
        let w = crate::resp::waker();
        let mut cx = Context::from_waker(&w);
        rt::check(net().sent.is_empty(), "pages: nothing is sent before the stream is polled");
        let mut i = 0;
        let mut stopped = false;
        for _ in 0..want.len() + 3 {
            match std::pin::Pin::new(&mut s).poll_next(&mut cx) {
                Poll::Pending => continue,
                Poll::Ready(Some(Ok(x))) => {
                    if i >= want.len() || stopped {
                        rt::check(false, "pages: no item beyond those of the pages");
                        return;
                    }
                    rt::check(rt::same(x.as_ref().as_bytes(), want[i].0.as_bytes()), "pages: the items arrive in page order");
                    rt::check(net().sent.len() == want[i].1 + 1, "pages: a page is requested once, when its items are needed");
                    i += 1;
                }
                Poll::Ready(Some(Err(e))) => {
                    rt::check(i == want.len() && !stopped, "pages: an error comes after the items of earlier pages, once");
                    rt::check(End::Fail(ekind(&e)) == end, "pages: the error of the failing page is passed on");
                    stopped = true;
                }
                Poll::Ready(None) => {
                    rt::check(i == want.len(), "pages: every item of every page is delivered");
                    rt::check(stopped == matches!(end, End::Fail(_)), "pages: the stream ends after the last page or the error");
                    rt::check(net().sent.len() == requests, "pages: exactly one request per page");
                    rt::reach("pages: end");
                    return;
                }
            }
        }
        rt::check(false, "pages: the stream ends");
    }
    if mode == 0 {
        let c = gen::pp::Client::new_with_client(base, Client::new());
        let s = c.pages_stream(&id, filter.as_deref(), limit, xh.as_deref());
        drive(s, &want, end, requests);
    } else {
        let c = gen::bp::Client::new_with_client(base, Client::new());
        let mut b = c.pages();
        if let Some(f) = &filter {
            b = b.filter(f);
        }
        if let Some(l) = limit {
            b = b.limit(l);
        }
        if let Some(h) = &xh {
            b = b.x_h(h);
        }
        drive(b.id(&id).stream(), &want, end, requests);
    }
    // what was asked for
    let segs = [b"pages".to_vec(), id.as_bytes().to_vec()];
    let mut ok_first = true;
    let mut ok_rest = true;
    let mut ok_all = true;
    for (i, s) in net().sent.iter().enumerate() {
        let mut q: Vec<(&str, &[u8])> = vec![];
        if limit.is_some() {
            q.push(("limit", b"5"));
        }
        if i == 0 {
            if let Some(f) = &filter {
                q.push(("filter", f.as_bytes()));
            }
            ok_first &= query_is(&s.url, &q);
        } else {
            q.push(("page_token", tokens[i - 1].as_bytes()));
            ok_rest &= query_is(&s.url, &q);
        }
        let mut h: Vec<(&str, &[u8])> = vec![("api-version", VERSION), ("accept", b"application/json")];
        if let Some(x) = &xh {
            h.push(("x-h", x.as_bytes()));
        }
        ok_all &= segs_eq(&segments(&s.url, base), &segs) & headers_are(&s.headers, &h) & (s.method == "GET");
    }
    rt::check(ok_first, "pages: the first request carries the caller's query and no token");
    rt::check(ok_rest, "pages: later requests carry the token just received and the limit only");
    rt::check(ok_all, "pages: path and headers are the same on every page");
}

/// Parameters named like variables of the stream keep their values on every
/// page. arg0: interface style.
pub fn page_locals() {
    let base = BASES[0];
    let v: Vec<String> = (0..6).map(|_| rt::word(2, 3)).collect();
    let has: Vec<bool> = (0..4).map(|_| rt::choose(2) == 1).collect();
    let opt = |k: usize| has[k].then(|| &v[2 + k][..]);
    answer(json(200, "{\"items\":[\"a\",\"b\"],\"next_page\":\"t\"}"));
    answer(json(200, "{\"items\":[],\"next_page\":\"u\"}"));
    answer(json(200, "{\"items\":[\"c\"]}"));
    fn drain<T: AsRef<str>, E, S: Stream<Item = Result<T, Error<E>>> + Unpin>(mut s: S) -> String {
        let w = crate::resp::waker();
        let mut cx = Context::from_waker(&w);
        let mut all = String::new();
        for _ in 0..12 {
            match std::pin::Pin::new(&mut s).poll_next(&mut cx) {
                Poll::Pending => {}
                Poll::Ready(Some(Ok(x))) => all += x.as_ref(),
                Poll::Ready(Some(Err(_))) => all += "!",
                Poll::Ready(None) => return all,
            }
        }
        all + "?"
    }
    let got = if rt::arg(0) == 0 {
        let c = gen::pp::Client::new_with_client(base, Client::new());
        drain(c.paged_locals_stream(&v[0], &v[1], Some(5), opt(0), opt(1), opt(2), opt(3)))
    } else {
        let c = gen::bp::Client::new_with_client(base, Client::new());
        let mut b = c.paged_locals().state(&v[0]).page(&v[1]).limit(5);
        if has[0] {
            b = b.next(&v[2]);
        }
        if has[1] {
            b = b.rest(&v[3]);
        }
        if has[2] {
            b = b.first(&v[4]);
        }
        if has[3] {
            b = b.next_page(&v[5]);
        }
        drain(b.stream())
    };
    rt::check(got == "abc", "names: a stream delivers its items whatever its parameters' names");
    let segs = [b"n".to_vec(), v[0].as_bytes().to_vec(), v[1].as_bytes().to_vec()];
    rt::check(net().sent.len() == 3, "names: a stream delivers its items whatever its parameters' names");
    for (i, s) in net().sent.iter().enumerate() {
        let mut q: Vec<(&str, &[u8])> = vec![("limit", b"5")];
        if i > 0 {
            q.push(("page_token", [&b"t"[..], b"u"][i - 1]));
        } else {
            for (k, n) in ["next", "rest"].iter().enumerate() {
                if has[k] {
                    q.push((n, v[2 + k].as_bytes()));
                }
            }
        }
        let mut h: Vec<(&str, &[u8])> = vec![("api-version", VERSION), ("accept", b"application/json")];
        for (k, n) in ["first", "next_page"].iter().enumerate() {
            if has[2 + k] {
                h.push((n, v[4 + k].as_bytes()));
            }
        }
        rt::check(
            segs_eq(&segments(&s.url, base), &segs) & headers_are(&s.headers, &h) & query_is(&s.url, &q),
            "names: parameters named like a stream's variables keep their places on every page",
        );
    }
}
