//! Hooks given to the generator; they record that they ran and do what the
//! harness chose.
use crate::net::net;
#[derive(Clone, Debug, Default)]
pub struct Inner {
    /// pre_async: fail with a text?
    pub pre_fail: Option<String>,
    pub post_fail: Option<String>,
    /// Header value that pre_async adds.
    pub add: Option<String>,
    pub tag: u8,
}
pub fn pre(i: &Inner, r: &reqwest::Request) {
    net().log.push(b'p');
    net().log.push(i.tag);
    net().log.push(r.headers().contains_key("x-added") as u8);
}
pub async fn pre_async(i: &Inner, r: &mut reqwest::Request) -> Result<(), String> {
    net().log.push(b'q');
    net().log.push(i.tag);
    if let Some(a) = &i.add {
        if let Ok(v) = a.parse() {
            r.headers_mut().insert("x-added", v);
        }
    }
    match &i.pre_fail {
        Some(s) => Err(s.clone()),
        None => Ok(()),
    }
}
pub fn post(i: &Inner, r: &Result<reqwest::Response, reqwest::Error>) {
    net().log.push(b'r');
    net().log.push(i.tag);
    seen(r);
}
pub async fn post_async(i: &Inner, r: &Result<reqwest::Response, reqwest::Error>) -> Result<(), String> {
    net().log.push(b't');
    net().log.push(i.tag);
    seen(r);
    match &i.post_fail {
        Some(s) => Err(s.clone()),
        None => Ok(()),
    }
}
fn seen(r: &Result<reqwest::Response, reqwest::Error>) {
    match r {
        Ok(r) => {
            net().log.push((r.status().as_u16() >> 8) as u8);
            net().log.push(r.status().as_u16() as u8);
        }
        Err(_) => {
            net().log.push(255);
            net().log.push(255);
        }
    }
}
