//! Stands in for the network: what generated code hands to `execute` is
//! recorded, and the answers are those the harness queued.
use ::reqwest::{Request, Response};
use std::cell::UnsafeCell;
use std::collections::VecDeque;

struct Global<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}

pub struct Sent {
    pub method: String,
    pub url: ::reqwest::Url,
    pub headers: ::http::HeaderMap,
    /// The connection it went through.
    pub by: Made,
    /// None: no body. Some(None): a body that is not held in memory.
    pub body: Option<Option<Vec<u8>>>,
}
pub enum Answer {
    Response(Response),
    Fail,
    /// Not ready when first asked.
    Later(Box<Answer>),
}
pub struct Net {
    pub sent: Vec<Sent>,
    pub answers: VecDeque<Answer>,
    /// Order of observable events.
    pub log: Vec<u8>,
}
static NET: Global<Net> = Global(UnsafeCell::new(Net { sent: Vec::new(), answers: VecDeque::new(), log: Vec::new() }));
pub fn net() -> &'static mut Net {
    unsafe { &mut *NET.0.get() }
}
pub fn answer(r: Response) {
    net().answers.push_back(Answer::Response(r));
}
/// A transport error, as reqwest reports it.
pub fn transport() -> ::reqwest::Error {
    ::reqwest::Client::builder().no_proxy().build().unwrap().get("no-scheme").build().unwrap_err()
}

/// How a connection was made.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Made {
    pub id: u32,
    pub connect: Option<std::time::Duration>,
    pub total: Option<std::time::Duration>,
}
#[derive(Clone, Debug)]
pub struct Client(::reqwest::Client, pub Made);
impl Default for Client {
    fn default() -> Self {
        Client::new()
    }
}
impl Client {
    pub fn new() -> Self {
        Client(::reqwest::Client::builder().no_proxy().build().unwrap(), Made::default())
    }
    pub fn numbered(id: u32) -> Self {
        let mut c = Client::new();
        c.1.id = id;
        c
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::new()
    }
    pub async fn execute(&self, r: Request) -> Result<Response, ::reqwest::Error> {
        let n = net();
        n.log.push(b'S');
        n.sent.push(Sent {
            method: r.method().as_str().to_string(),
            url: r.url().clone(),
            headers: r.headers().clone(),
            by: self.1.clone(),
            body: r.body().map(|b| b.as_bytes().map(|b| b.to_vec())),
        });
        let mut a = n.answers.pop_front().unwrap_or(Answer::Fail);
        loop {
            match a {
                Answer::Response(r) => return Ok(r),
                Answer::Fail => return Err(transport()),
                Answer::Later(b) => {
                    Once(false).await;
                    a = *b;
                }
            }
        }
    }
}
struct Once(bool);
impl std::future::Future for Once {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            std::task::Poll::Ready(())
        } else {
            self.0 = true;
            std::task::Poll::Pending
        }
    }
}
impl std::ops::Deref for Client {
    type Target = ::reqwest::Client;
    fn deref(&self) -> &::reqwest::Client {
        &self.0
    }
}
pub struct ClientBuilder(::reqwest::ClientBuilder, Made);
impl ClientBuilder {
    pub fn new() -> Self {
        ClientBuilder(::reqwest::Client::builder().no_proxy(), Made::default())
    }
    pub fn connect_timeout(self, d: std::time::Duration) -> Self {
        let Self(b, mut m) = self;
        m.connect = Some(d);
        ClientBuilder(b.connect_timeout(d), m)
    }
    pub fn timeout(self, d: std::time::Duration) -> Self {
        let Self(b, mut m) = self;
        m.total = Some(d);
        ClientBuilder(b.timeout(d), m)
    }
    pub fn read_timeout(self, d: std::time::Duration) -> Self {
        let Self(b, m) = self;
        ClientBuilder(b.read_timeout(d), m)
    }
    pub fn redirect(self, p: ::reqwest::redirect::Policy) -> Self {
        let Self(b, m) = self;
        ClientBuilder(b.redirect(p), m)
    }
    pub fn build(self) -> ::reqwest::Result<Client> {
        let Self(b, m) = self;
        b.build().map(|c| Client(c, m))
    }
}
