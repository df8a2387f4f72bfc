//! C03 (table part): the retained-message store against a map.
use crate::c01::qos;
use crate::topics::*;
use akasa_core::mqtt_proto::TopicName;
use akasa_core::protocols::mqtt::{RetainContent, RetainTable};
use mc_engine::{Check, Outcome};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
enum Op {
    Set(&'static str, u8),
    Clear(&'static str),
}
fn show(o: &Op) -> String {
    match o {
        Op::Set(t, v) => format!("set({t},{v})"),
        Op::Clear(t) => format!("clear({t})"),
    }
}
fn content(t: &str, v: u8) -> Arc<RetainContent> {
    Arc::new(RetainContent::new("pub".into(), qos(v % 3), TopicName::try_from(t.to_string()).unwrap(), vec![v; v as usize].into(), None, 10))
}
fn key(x: &RetainContent) -> (String, Vec<u8>, u8) {
    (x.topic_name.to_string(), x.payload.to_vec(), x.qos as u8)
}

fn run_seq(c: &Check, ops: &[Op], filters: &[String]) -> Outcome {
    let t = RetainTable::default();
    let mut m: BTreeMap<String, u8> = BTreeMap::new();
    for op in ops {
        c.transition();
        let (old, want, what) = match op {
            Op::Set(topic, v) => (t.insert(content(topic, *v)), m.insert(topic.to_string(), *v), "replaced"),
            Op::Clear(topic) => (t.remove(topic), m.remove(*topic), "removed"),
        };
        let old = old.map(|o| (o.topic_name.to_string(), o.payload.len() as u8));
        let topic = match op {
            Op::Set(t, _) | Op::Clear(t) => t.to_string(),
        };
        if old != want.map(|w| (topic, w)) {
            return Err(format!("{} {what} {old:?}, expected value {want:?}", show(op)));
        }
    }
    c.state(&format!("{m:?}"));
    for f in filters {
        let mut got: Vec<_> = t.get_matches(f).iter().map(|x| key(x)).collect();
        got.sort();
        let want: Vec<_> = m.iter().filter(|(t, _)| matches(f, t)).map(|(t, v)| (t.clone(), vec![*v; *v as usize], *v % 3)).collect();
        if got != want {
            return Err(format!("filter {f:?} finds {got:?}, retained are {want:?}"));
        }
    }
    Ok(())
}

pub fn table(c: &Check) {
    let f2 = all_filters(&["", "a", "b", "$a"], 3);
    let mut alpha = vec![];
    for t in ["a", "a/b", "a/b/a", "b", "$a/b", "/a"] {
        alpha.push(Op::Set(t, 1));
        alpha.push(Op::Clear(t));
    }
    alpha.push(Op::Set("a", 2));
    alpha.push(Op::Set("a/b", 2));
    c.explore_seqs("store-histories", &alpha, c.pick(4, 5), show, |_, _| true, |ops| run_seq(c, ops, &f2));
    // every topic against every filter
    let names = ["", "a", "b", "$a"];
    let lv = c.pick(4, 5);
    let topics = all_topics(&names, lv);
    let filters = all_filters(&names, lv);
    c.explore_product("matching", "every topic of <=4 (5) levels over {'',a,b,$a} against every filter", topics.len(), |i| topics[i].clone(), |i| {
        let t = RetainTable::default();
        t.insert(content(&topics[i], 3));
        c.transitions_add(filters.len() as u64);
        c.state(&topics[i]);
        for f in &filters {
            let n = t.get_matches(f).len();
            let want = matches(f, &topics[i]) as usize;
            if n != want {
                return Err(format!("topic {:?}, filter {f:?}: {n} matches, expected {want}", topics[i]));
            }
        }
        if t.remove(&topics[i]).is_none() || t.get_matches("#").len() + t.get_matches("$a/#").len() != 0 {
            return Err("clearing did not remove the message".into());
        }
        Ok(())
    });
    // pairs, then one removed
    let topics = all_topics(&["", "a", "$a"], 3);
    let filters = all_filters(&["", "a", "$a"], 3);
    let n = topics.len();
    c.explore_product("pairs", "every ordered pair of topics of <=3 levels; both retained, then the first cleared", n * n, |i| format!("{} & {}", topics[i / n], topics[i % n]), |i| {
        let (a, b) = (&topics[i / n], &topics[i % n]);
        if a == b {
            return Ok(());
        }
        let t = RetainTable::default();
        t.insert(content(a, 1));
        t.insert(content(b, 2));
        c.transitions_add(3);
        for round in 0..2 {
            for f in &filters {
                let mut got: Vec<String> = t.get_matches(f).iter().map(|x| x.topic_name.to_string()).collect();
                got.sort();
                let mut want = vec![];
                if round == 0 && matches(f, a) {
                    want.push(a.clone());
                }
                if matches(f, b) {
                    want.push(b.clone());
                }
                want.sort();
                if got != want {
                    return Err(format!("round {round} filter {f:?}: {got:?}, expected {want:?}"));
                }
            }
            t.remove(a);
        }
        Ok(())
    });
}
