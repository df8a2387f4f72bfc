//! Reference definition of topic matching (MQTT 4.7), written from the text.

/// Does `filter` (without any $share prefix) match `topic`?
pub fn matches(filter: &str, topic: &str) -> bool {
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    if topic.starts_with('$') && (f[0] == "+" || f[0] == "#") {
        return false;
    }
    let mut i = 0;
    loop {
        match (f.get(i), t.get(i)) {
            (Some(&"#"), _) => return true,
            (None, None) => return true,
            (Some(&"+"), Some(_)) => {}
            (Some(a), Some(b)) if a == b => {}
            _ => return false,
        }
        i += 1;
    }
}

/// ("group", "filter") of a shared subscription.
pub fn shared(filter: &str) -> Option<(&str, &str)> {
    filter.strip_prefix("$share/")?.split_once('/')
}

/// All valid filters of up to `levels` levels over `names` plus wildcards.
pub fn all_filters(names: &[&str], levels: usize) -> Vec<String> {
    let mut out = vec![];
    let mut layer: Vec<String> = vec![];
    for n in names.iter().chain(["+", "#"].iter()) {
        layer.push(n.to_string());
    }
    for l in 0..levels {
        out.extend(layer.iter().filter(|s| !s.is_empty()).cloned());
        if l + 1 == levels {
            break;
        }
        let mut next = vec![];
        for s in &layer {
            if s.ends_with('#') {
                continue;
            }
            for n in names.iter().chain(["+", "#"].iter()) {
                next.push(format!("{s}/{n}"));
            }
        }
        layer = next;
    }
    out
}
pub fn all_topics(names: &[&str], levels: usize) -> Vec<String> {
    let mut out = vec![];
    let mut layer: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    for l in 0..levels {
        out.extend(layer.iter().filter(|s| !s.is_empty()).cloned());
        if l + 1 == levels {
            break;
        }
        layer = layer.iter().flat_map(|s| names.iter().map(move |n| format!("{s}/{n}"))).collect();
    }
    out
}
