//! What a client keeps of what it was made with.
use super::common::*;
use crate::hooks::Inner;
use crate::net::{net, Made};
use crate::rt;

/// The accessors of a generated client, and one operation.
trait Kept {
    fn make(base: &str, with: Option<Client>, inner: Inner) -> Self;
    fn again(&self) -> Self;
    fn base(&self) -> &String;
    fn conn(&self) -> &Made;
    fn version(&self) -> &'static str;
    fn tag(&self) -> Option<u8>;
    fn call(&self) -> K;
}
macro_rules! kept {
    ($m:ident, $c:ident => $call:expr) => {
        kept!(@ $m, $c => $call, |b: &str, w, _i| match w {
            Some(w) => gen::$m::Client::new_with_client(b, w),
            None => gen::$m::Client::new(b),
        }, None);
    };
    ($m:ident, inner, $c:ident => $call:expr) => {
        kept!(@ $m, $c => $call, |b: &str, w, i| match w {
            Some(w) => gen::$m::Client::new_with_client(b, w, i),
            None => gen::$m::Client::new(b, i),
        }, Some($c.inner().tag));
    };
    (@ $m:ident, $c:ident => $call:expr, $make:expr, $tag:expr) => {
        impl Kept for gen::$m::Client {
            fn make(base: &str, with: Option<Client>, inner: Inner) -> Self {
                let f = $make;
                f(base, with, inner)
            }
            fn again(&self) -> Self { self.clone() }
            fn base(&self) -> &String { self.baseurl() }
            fn conn(&self) -> &Made { &self.client().1 }
            fn version(&self) -> &'static str { self.api_version() }
            fn tag(&self) -> Option<u8> {
                let $c = self;
                $tag
            }
            fn call(&self) -> K {
                let $c = self;
                $call
            }
        }
    };
}
use gen::tm::{ClientFirstExt as _, ClientSecondExt as _};
kept!(pm, c => kind(&run(c.alpha_get("x"))));
kept!(bm, c => kind(&run(c.alpha_get().one("x").send())));
kept!(tm, c => kind(&run(c.alpha_get().one("x").send())));
kept!(ph, inner, c => {
    let t = gen::ph::types::Thing { name: "n".into(), size: None };
    kind(&run(c.one("x", None, &t)))
});
kept!(bh, inner, c => {
    let t = gen::bh::types::Thing { name: "n".into(), size: None };
    kind(&run(c.one().id("x").body(t).send()))
});

fn one<T: Kept>(known: Option<&str>) {
    let text = match known {
        Some(b) => b.to_string(),
        None => rt::string(rt::arg(1) as usize),
    };
    let inner = Inner { tag: rt::u8(), ..Inner::default() };
    let (given, copied) = (rt::choose(2) == 1, rt::choose(3));
    let made = if given {
        Made { id: 7, ..Made::default() }
    } else {
        // documented: 15 seconds, to connect and in all
        let t = Some(std::time::Duration::from_secs(15));
        Made { id: 0, connect: t, total: t }
    };
    let first = T::make(&text, given.then(|| Client::numbered(7)), inner.clone());
    // a copy, and the original beside a copy
    let c = match copied {
        0 => first,
        1 => first.again(),
        _ => {
            let _other = first.again();
            first
        }
    };
    rt::reach("made");
    rt::check(rt::same(c.base().as_bytes(), text.as_bytes()), "made: baseurl is the base URL given");
    rt::check(*c.conn() == made, "made: client is the connection given, or one that gives up after 15 seconds");
    rt::check(c.tag().map_or(true, |t| t == inner.tag), "made: inner is the inner value given");
    rt::check(c.version().as_bytes() == VERSION, "made: api_version is the document's");
    if known.is_none() {
        return;
    }
    for i in 0..2 {
        no_content();
        let _ = c.call();
        let n = net();
        rt::check(n.sent.len() == i + 1, "made: a call sends one request");
        if let Some(s) = n.sent.last() {
            rt::reach("sent");
            rt::check(s.by == made, "made: requests go through the client's connection");
            rt::check(s.url.as_str().starts_with(&text[..]), "made: requests go to the base URL");
        }
    }
}
/// Args: which client; characters of the base URL (9: one of three, and calls).
pub fn made() {
    let known = (rt::arg(1) == 9).then(|| BASES[rt::choose(3) as usize]);
    match rt::arg(0) {
        0 => one::<gen::pm::Client>(known),
        1 => one::<gen::bm::Client>(known),
        2 => one::<gen::tm::Client>(known),
        3 => one::<gen::ph::Client>(known),
        _ => one::<gen::bh::Client>(known),
    }
}
