//! Stands in for the network: what generated code hands to `execute` is
//! recorded, and the answers are those the harness queued.
use ::reqwest::{Request, Response};
use std::cell::UnsafeCell;
use std::collections::VecDeque;

struct Global<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}

pub struct Sent {
    pub method: String,
    pub url: ::reqwest::Url,
    pub headers: ::http::HeaderMap,
    /// None: no body. Some(None): a body that is not held in memory.
    pub body: Option<Option<Vec<u8>>>,
}
pub enum Answer {
    Response(Response),
    Fail,
    /// Not ready when first asked.
    Later(Box<Answer>),
}
pub struct Net {
    pub sent: Vec<Sent>,
    pub answers: VecDeque<Answer>,
    /// Order of observable events.
    pub log: Vec<u8>,
}
static NET: Global<Net> = Global(UnsafeCell::new(Net { sent: Vec::new(), answers: VecDeque::new(), log: Vec::new() }));
pub fn net() -> &'static mut Net {
    unsafe { &mut *NET.0.get() }
}
pub fn answer(r: Response) {
    net().answers.push_back(Answer::Response(r));
}
/// A transport error, as reqwest reports it.
pub fn transport() -> ::reqwest::Error {
    ::reqwest::Client::builder().no_proxy().build().unwrap().get("no-scheme").build().unwrap_err()
}

#[derive(Clone, Debug)]
pub struct Client(::reqwest::Client);
impl Client {
    pub fn new() -> Self {
        Client(::reqwest::Client::builder().no_proxy().build().unwrap())
    }
    pub async fn execute(&self, r: Request) -> Result<Response, ::reqwest::Error> {
        let n = net();
        n.log.push(b'S');
        n.sent.push(Sent {
            method: r.method().as_str().to_string(),
            url: r.url().clone(),
            headers: r.headers().clone(),
            body: r.body().map(|b| b.as_bytes().map(|b| b.to_vec())),
        });
        let mut a = n.answers.pop_front().unwrap_or(Answer::Fail);
        loop {
            match a {
                Answer::Response(r) => return Ok(r),
                Answer::Fail => return Err(transport()),
                Answer::Later(b) => {
                    Once(false).await;
                    a = *b;
                }
            }
        }
    }
}
struct Once(bool);
impl std::future::Future for Once {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            std::task::Poll::Ready(())
        } else {
            self.0 = true;
            std::task::Poll::Pending
        }
    }
}
impl std::ops::Deref for Client {
    type Target = ::reqwest::Client;
    fn deref(&self) -> &::reqwest::Client {
        &self.0
    }
}
pub struct ClientBuilder(::reqwest::ClientBuilder);
impl ClientBuilder {
    pub fn new() -> Self {
        ClientBuilder(::reqwest::Client::builder().no_proxy())
    }
    pub fn connect_timeout(self, d: std::time::Duration) -> Self {
        ClientBuilder(self.0.connect_timeout(d))
    }
    pub fn timeout(self, d: std::time::Duration) -> Self {
        ClientBuilder(self.0.timeout(d))
    }
    pub fn build(self) -> ::reqwest::Result<Client> {
        self.0.build().map(Client)
    }
}
