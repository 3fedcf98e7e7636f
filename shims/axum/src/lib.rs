//! Minimal stand-in for axum over tokio TCP: one route table, State and Json, graceful shutdown.
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

pub struct Json<T>(pub T);
pub mod extract {
    pub struct State<S>(pub S);
}
pub type Reply = (u16, Vec<u8>);
pub trait IntoReply {
    fn into_reply(self) -> Reply;
}
impl IntoReply for &'static str {
    fn into_reply(self) -> Reply {
        (200, self.as_bytes().to_vec())
    }
}
impl<T: serde::Serialize> IntoReply for Json<T> {
    fn into_reply(self) -> Reply {
        (200, serde_json::to_vec(&self.0).unwrap())
    }
}
type BoxFut = Pin<Box<dyn Future<Output = Reply> + Send>>;
type Erased<S> = Arc<dyn Fn(S, Vec<u8>) -> BoxFut + Send + Sync>;
pub trait Handler<M, S>: Clone + Send + Sync + 'static {
    fn call(self, s: S, body: Vec<u8>) -> BoxFut;
}
impl<F, Fut, R, S> Handler<((),), S> for F
where
    F: Fn() -> Fut + Clone + Send + Sync + 'static,
    Fut: Future<Output = R> + Send + 'static,
    R: IntoReply,
{
    fn call(self, _s: S, _b: Vec<u8>) -> BoxFut {
        let f = self();
        Box::pin(async move { f.await.into_reply() })
    }
}
impl<F, Fut, R, S, T> Handler<(S, T), S> for F
where
    F: Fn(extract::State<S>, Json<T>) -> Fut + Clone + Send + Sync + 'static,
    Fut: Future<Output = R> + Send + 'static,
    R: IntoReply,
    T: serde::de::DeserializeOwned,
{
    fn call(self, s: S, b: Vec<u8>) -> BoxFut {
        match serde_json::from_slice(&b) {
            Ok(t) => {
                let f = self(extract::State(s), Json(t));
                Box::pin(async move { f.await.into_reply() })
            }
            Err(_) => Box::pin(async { (422, b"bad request".to_vec()) }),
        }
    }
}
pub struct MethodRouter<S> {
    method: &'static str,
    h: Erased<S>,
}
pub mod routing {
    use super::*;
    fn mr<M, S: 'static, H: Handler<M, S>>(method: &'static str, h: H) -> MethodRouter<S> {
        MethodRouter { method, h: Arc::new(move |s, b| h.clone().call(s, b)) }
    }
    pub fn get<M, S: 'static, H: Handler<M, S>>(h: H) -> MethodRouter<S> {
        mr("GET", h)
    }
    pub fn post<M, S: 'static, H: Handler<M, S>>(h: H) -> MethodRouter<S> {
        mr("POST", h)
    }
}
pub struct Router<S = ()> {
    r: HashMap<(String, String), Erased<S>>,
}
impl<S: Clone + Send + Sync + 'static> Default for Router<S> {
    fn default() -> Self {
        Self::new()
    }
}
impl<S: Clone + Send + Sync + 'static> Router<S> {
    pub fn new() -> Self {
        Router { r: HashMap::new() }
    }
    pub fn route(mut self, p: &str, m: MethodRouter<S>) -> Self {
        self.r.insert((m.method.to_string(), p.to_string()), m.h);
        self
    }
    pub fn with_state(self, s: S) -> Router<()> {
        Router {
            r: self
                .r
                .into_iter()
                .map(|(k, h)| {
                    let s = s.clone();
                    let e: Erased<()> = Arc::new(move |_, b| h(s.clone(), b));
                    (k, e)
                })
                .collect(),
        }
    }
    pub fn into_make_service(self) -> Self {
        self
    }
}
pub struct Serve {
    l: tokio::net::TcpListener,
    r: Router<()>,
}
pub fn serve(l: tokio::net::TcpListener, r: Router<()>) -> Serve {
    Serve { l, r }
}
async fn conn(mut s: tokio::net::TcpStream, r: Arc<HashMap<(String, String), Erased<()>>>) -> std::io::Result<()> {
    let mut buf = vec![];
    let head = loop {
        let mut t = [0u8; 4096];
        let n = s.read(&mut t).await?;
        if n == 0 {
            return Ok(());
        }
        buf.extend_from_slice(&t[..n]);
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break p + 4;
        }
    };
    let h = String::from_utf8_lossy(&buf[..head]).to_string();
    let mut first = h.lines().next().unwrap_or("").split(' ');
    let key = (first.next().unwrap_or("").to_string(), first.next().unwrap_or("").to_string());
    let len: usize = h
        .lines()
        .find_map(|l| l.to_lowercase().strip_prefix("content-length:").map(|x| x.trim().parse().unwrap_or(0)))
        .unwrap_or(0);
    while buf.len() < head + len {
        let mut t = [0u8; 4096];
        let n = s.read(&mut t).await?;
        if n == 0 {
            return Ok(());
        }
        buf.extend_from_slice(&t[..n]);
    }
    let body = buf[head..].to_vec();
    let (code, out) = match r.get(&key) {
        Some(f) => f((), body).await,
        None => (404, vec![]),
    };
    s.write_all(format!("HTTP/1.1 {code} X\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", out.len()).as_bytes()).await?;
    s.write_all(&out).await?;
    s.shutdown().await
}
impl Serve {
    pub async fn with_graceful_shutdown<F: Future<Output = ()> + Send + 'static>(self, f: F) -> std::io::Result<()> {
        let r = Arc::new(self.r.r);
        let live = Arc::new(AtomicUsize::new(0));
        let mut f = Box::pin(f);
        loop {
            tokio::select! {
                _ = &mut f => break,
                a = self.l.accept() => {
                    if let Ok((s, _)) = a {
                        let (r, live) = (r.clone(), live.clone());
                        live.fetch_add(1, SeqCst);
                        tokio::spawn(async move {
                            struct G(Arc<AtomicUsize>);
                            impl Drop for G { fn drop(&mut self) { self.0.fetch_sub(1, SeqCst); } }
                            let _g = G(live);
                            let _ = conn(s, r).await;
                        });
                    }
                }
            }
        }
        while live.load(SeqCst) > 0 {
            tokio::time::sleep(std::time::Duration::from_millis(2)).await;
        }
        Ok(())
    }
}
