//! A hook whose answers the explorer scripts and whose calls it records.
use std::collections::BTreeMap;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use akasa_core::*;
use mqtt_proto::{v3, v5};

#[derive(Default)]
pub struct Script {
    pub calls: Vec<String>,
    pub before_connect: Option<HookResult<HookConnectCode>>,
    pub after_connect: Option<HookResult<Vec<HookAction>>>,
    pub before_publish: Option<HookResult<HookPublishCode>>,
    pub after_publish: Option<HookResult<Vec<HookAction>>>,
    pub before_subscribe: Option<HookResult<HookSubscribeCode>>,
    pub after_subscribe: Option<HookResult<Vec<HookAction>>>,
    pub before_unsubscribe: Option<HookResult<HookUnsubscribeCode>>,
    pub after_unsubscribe: Option<HookResult<Vec<HookAction>>>,
    pub after_disconnect: Option<HookResult<()>>,
    /// rewrite the payload / topic of publishes in before_publish
    pub rewrite_topic: Option<String>,
    pub rewrite_payload: Option<String>,
    pub rewrite_filter: Option<String>,
    /// stages that wait until released: name -> permits left
    pub gates: BTreeMap<&'static str, usize>,
    /// only apply scripted answers to this client identifier
    pub only: Option<String>,
    wakers: Vec<Waker>,
}

#[derive(Clone, Default)]
pub struct ScriptHook(pub Arc<Mutex<Script>>);

struct Gate {
    script: Arc<Mutex<Script>>,
    name: &'static str,
    id: String,
}
impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut s = self.script.lock().unwrap();
        if s.only.as_ref().is_some_and(|o| *o != self.id) {
            return Poll::Ready(());
        }
        match s.gates.get_mut(self.name) {
            None => Poll::Ready(()),
            Some(0) => {
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
            Some(n) => {
                *n -= 1;
                Poll::Ready(())
            }
        }
    }
}

impl ScriptHook {
    pub fn set(&self, f: impl FnOnce(&mut Script)) {
        f(&mut self.0.lock().unwrap())
    }
    pub fn release(&self, name: &'static str) {
        let mut s = self.0.lock().unwrap();
        if let Some(n) = s.gates.get_mut(name) {
            *n += 1;
        }
        for w in s.wakers.drain(..) {
            w.wake();
        }
    }
    pub fn take_calls(&self) -> Vec<String> {
        std::mem::take(&mut self.0.lock().unwrap().calls)
    }
    fn gate(&self, name: &'static str, id: &str) -> Gate {
        Gate { script: self.0.clone(), name, id: id.to_string() }
    }
    /// A rewrite scripted for this client.
    fn rewrite(&self, id: &str, f: impl Fn(&Script) -> &Option<String>) -> Option<String> {
        let s = self.0.lock().unwrap();
        if s.only.as_ref().is_some_and(|o| o != id) {
            return None;
        }
        f(&s).clone()
    }
    fn call(&self, s: String) {
        self.0.lock().unwrap().calls.push(s);
    }
    fn answer<T: Clone>(&self, id: &str, f: impl Fn(&Script) -> &Option<T>, dflt: T) -> T {
        let s = self.0.lock().unwrap();
        if let Some(o) = &s.only {
            if o != id {
                return dflt;
            }
        }
        f(&s).clone().unwrap_or(dflt)
    }
}

/// The length and the body of the packet as the hook is shown them.
pub fn raw(len: usize, body: &[u8]) -> String {
    format!("{len}:{}", body.iter().map(|b| format!("{b:02x}")).collect::<String>())
}

macro_rules! hooks {
    ($ver:ident, $sess:ty, $bc:ident, $ac:ident, $bp:ident, $ap:ident, $bs:ident, $as_:ident, $bu:ident, $au:ident, $ad:ident, $code:ty) => {
        async fn $bc(&self, peer: SocketAddr, c: &$ver::Connect) -> HookResult<HookConnectCode> {
            self.call(format!("before_connect {} {}", c.client_id, peer));
            self.gate("before_connect", &c.client_id).await;
            self.answer(&c.client_id, |s| &s.before_connect, Ok(HookConnectCode::Success))
        }
        async fn $ac(&self, s: &$sess, present: bool) -> HookResult<Vec<HookAction>> {
            self.call(format!("after_connect {} {present}", s.client_identifier));
            self.gate("after_connect", &s.client_identifier).await;
            self.answer(&s.client_identifier, |s| &s.after_connect, Ok(vec![]))
        }
        async fn $bp(&self, s: &$sess, encode_len: usize, body: &[u8], p: &mut $ver::Publish, changed: &mut bool) -> HookResult<HookPublishCode> {
            self.call(format!("before_publish {} {} {:?} {}", s.client_identifier, p.topic_name, p.payload, raw(encode_len, body)));
            self.gate("before_publish", &s.client_identifier).await;
            let t = self.rewrite(&s.client_identifier, |x| &x.rewrite_topic);
            let pl = self.rewrite(&s.client_identifier, |x| &x.rewrite_payload);
            if let Some(t) = t {
                p.topic_name = mqtt_proto::TopicName::try_from(t).unwrap();
                *changed = true;
            }
            if let Some(pl) = pl {
                p.payload = bytes::Bytes::from(pl);
                *changed = true;
            }
            self.answer(&s.client_identifier, |s| &s.before_publish, Ok(HookPublishCode::Success))
        }
        async fn $ap(&self, s: &$sess, e: usize, b: &[u8], p: &$ver::Publish, changed: bool) -> HookResult<Vec<HookAction>> {
            self.call(format!("after_publish {} {} {:?} {changed} {}", s.client_identifier, p.topic_name, p.payload, raw(e, b)));
            self.gate("after_publish", &s.client_identifier).await;
            self.answer(&s.client_identifier, |s| &s.after_publish, Ok(vec![]))
        }
        async fn $bs(&self, s: &$sess, e: usize, b: &[u8], p: &mut $ver::Subscribe, changed: &mut bool) -> HookResult<HookSubscribeCode> {
            self.call(format!("before_subscribe {} {:?} {}", s.client_identifier, p.topics.iter().map(|t| t.0.to_string()).collect::<Vec<_>>(), raw(e, b)));
            self.gate("before_subscribe", &s.client_identifier).await;
            if let Some(f) = self.rewrite(&s.client_identifier, |x| &x.rewrite_filter) {
                p.topics[0].0 = mqtt_proto::TopicFilter::try_from(f).unwrap();
                *changed = true;
            }
            self.answer(&s.client_identifier, |s| &s.before_subscribe, Ok(HookSubscribeCode::Success))
        }
        async fn $as_(&self, s: &$sess, e: usize, b: &[u8], p: &$ver::Subscribe, changed: bool, codes: Option<Vec<$code>>) -> HookResult<Vec<HookAction>> {
            self.call(format!(
                "after_subscribe {} {:?} {changed} {:?} {}",
                s.client_identifier,
                p.topics.iter().map(|t| t.0.to_string()).collect::<Vec<_>>(),
                codes.map(|c| c.iter().map(|c| *c as u8).collect::<Vec<_>>()),
                raw(e, b)
            ));
            self.gate("after_subscribe", &s.client_identifier).await;
            self.answer(&s.client_identifier, |s| &s.after_subscribe, Ok(vec![]))
        }
        async fn $bu(&self, s: &$sess, e: usize, b: &[u8], p: &mut $ver::Unsubscribe, changed: &mut bool) -> HookResult<HookUnsubscribeCode> {
            self.call(format!("before_unsubscribe {} {:?} {}", s.client_identifier, p.topics.iter().map(|t| t.to_string()).collect::<Vec<_>>(), raw(e, b)));
            self.gate("before_unsubscribe", &s.client_identifier).await;
            if let Some(f) = self.rewrite(&s.client_identifier, |x| &x.rewrite_filter) {
                p.topics[0] = mqtt_proto::TopicFilter::try_from(f).unwrap();
                *changed = true;
            }
            self.answer(&s.client_identifier, |s| &s.before_unsubscribe, Ok(HookUnsubscribeCode::Success))
        }
        async fn $au(&self, s: &$sess, e: usize, b: &[u8], p: &$ver::Unsubscribe, changed: bool) -> HookResult<Vec<HookAction>> {
            self.call(format!("after_unsubscribe {} {:?} {changed} {}", s.client_identifier, p.topics.iter().map(|t| t.to_string()).collect::<Vec<_>>(), raw(e, b)));
            self.gate("after_unsubscribe", &s.client_identifier).await;
            self.answer(&s.client_identifier, |s| &s.after_unsubscribe, Ok(vec![]))
        }
        async fn $ad(&self, s: &$sess, taken_over: bool) -> HookResult<()> {
            self.call(format!("after_disconnect {} {taken_over}", s.client_identifier));
            self.gate("after_disconnect", &s.client_identifier).await;
            self.answer(&s.client_identifier, |s| &s.after_disconnect, Ok(()))
        }
    };
}

impl Hook for ScriptHook {
    hooks!(v5, SessionV5, v5_before_connect, v5_after_connect, v5_before_publish, v5_after_publish, v5_before_subscribe, v5_after_subscribe, v5_before_unsubscribe, v5_after_unsubscribe, v5_after_disconnect, v5::SubscribeReasonCode);
    hooks!(v3, SessionV3, v3_before_connect, v3_after_connect, v3_before_publish, v3_after_publish, v3_before_subscribe, v3_after_subscribe, v3_before_unsubscribe, v3_after_unsubscribe, v3_after_disconnect, v3::SubscribeReturnCode);
}
