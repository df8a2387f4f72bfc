//! C16: an honest client and an honest server always complete, and the client
//! accepts the server only when the server proves it knows the credential.
use crate::protocols::scram::client::ScramClient;
use crate::protocols::scram::server::ScramServer;
use crate::protocols::scram::{AuthenticationStatus as S, hash_password};
use crate::refscram::*;
use std::sync::Arc;
use mc_engine::{Check, Outcome};
use std::num::NonZeroU32;

fn crng(n: usize) -> ScriptRng {
    let s: Vec<u8> = (0..31).map(|i| (i * 59 + n * 77 + 3) as u8).collect();
    ScriptRng::new(&s)
}

fn pair(c: &Check, name: &str, claimed: Option<&str>, pw_client: &str, pw_server: &str, salt: &[u8], it: u16) -> Outcome {
    c.transitions_add(5);
    let mut cl = ScramClient::with_rng(name, pw_client, claimed, &mut crng(name.len()));
    let mut sv = ScramServer::new();
    let first = cl.encode_client_first().map_err(|e| format!("client-first: {e}"))?;
    sv.decode_client_first(&first).map_err(|e| format!("server refused the client's own client-first {first:?}: {e}"))?;
    if sv.authcid() != Some(name) {
        return Err(format!("server saw user {:?}, the client is {name:?} ({first:?})", sv.authcid()));
    }
    if sv.authzid() != Some(claimed) {
        return Err(format!("server saw authzid {:?}, the client asked for {claimed:?}", sv.authzid()));
    }
    let hp = hash_password(pw_server, NonZeroU32::new(it as u32).unwrap(), salt).to_vec();
    let sf = sv.encode_server_first(hp, salt, it, &mut crng(99)).map_err(|e| e.to_string())?;
    let fin = cl.decode_server_first(&sf).map_err(|e| format!("client refused server-first: {e}"))?;
    let (st, reply) = sv.decode_client_final(&fin).map_err(|e| format!("server failed on client-final: {e}"))?;
    c.outcome(&format!("{st:?}"));
    c.state(&(name, claimed, pw_client == pw_server, salt, it));
    let want = if pw_client != pw_server {
        S::NotAuthenticated
    } else if claimed.is_some_and(|z| z != name) {
        S::NotAuthorized
    } else {
        S::Authenticated
    };
    if st != want {
        return Err(format!("verdict {st:?}, expected {want:?}"));
    }
    let r = cl.decode_server_final(&reply);
    if r.is_ok() != (want == S::Authenticated) {
        return Err(format!("client concluded {r:?} from {reply:?} ({want:?})"));
    }
    Ok(())
}

/// An honest exchange seen from the client, up to the server-final message.
fn client_at_final<'a>(name: &'a str, pw: &'a str, salt: &[u8]) -> (ScramClient<'a>, Exchange) {
    let mut cl = ScramClient::with_rng(name, pw, None, &mut crng(1));
    let first = cl.encode_client_first().unwrap();
    let bare = first.strip_prefix("n,,").unwrap().to_string();
    let nonce = format!("{}SERVERpart", bare.split(',').nth(1).unwrap().strip_prefix("r=").unwrap());
    let sf = format!("r={nonce},s={},i=2", b64(salt));
    let ex = Exchange { gs2: "n,,".into(), bare, server_first: sf.clone(), nonce, salted: salted(pw, salt, 2) };
    let fin = cl.decode_server_first(&sf).unwrap();
    assert_eq!(fin, ex.client_final());
    (cl, ex)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    First,
    SfGood,
    SfForeignNonce,
    SfMalformed,
    FinalGood,
    FinalWrong,
    FinalOtherKey,
    FinalReflected,
    FinalError,
    FinalEmpty,
}

fn run_seq(c: &Check, ops: &[Op]) -> Outcome {
    #[derive(PartialEq, Debug, Hash)]
    enum M {
        New,
        Sf,
        Fin,
        Done,
    }
    let mut cl = ScramClient::with_rng("user", "pw", None, &mut crng(5));
    let mut m = M::New;
    let mut bare = String::new();
    let mut ex: Option<Exchange> = None;
    let mut obs = String::new();
    for (step, op) in ops.iter().enumerate() {
        c.transition();
        match op {
            Op::First => match (cl.encode_client_first(), m == M::New) {
                (Ok(t), true) => {
                    bare = t.strip_prefix("n,,").ok_or(format!("gs2 header of {t:?}"))?.to_string();
                    let n = bare.strip_prefix("n=user,r=").ok_or(format!("client-first {t:?}"))?;
                    if n.len() < 16 || !n.chars().all(|ch| ('!'..='~').contains(&ch) && ch != ',') {
                        return Err(format!("client nonce {n:?}"));
                    }
                    m = M::Sf;
                    obs.push('f');
                }
                (Err(_), false) => obs.push('-'),
                (r, _) => return Err(format!("step {step} {op:?}: {r:?}")),
            },
            Op::SfGood | Op::SfForeignNonce | Op::SfMalformed => {
                let cn = bare.split(',').nth(1).and_then(|x| x.strip_prefix("r=")).unwrap_or("zzz").to_string();
                let nonce = if *op == Op::SfForeignNonce { format!("X{cn}") } else { format!("{cn}srv{step}") };
                let sf = if *op == Op::SfMalformed { format!("r={nonce},i=1") } else { format!("r={nonce},s={},i=1", b64(b"salt")) };
                let r = cl.decode_server_first(&sf);
                match (r, m == M::Sf, *op == Op::SfGood) {
                    (Ok(fin), true, true) => {
                        let e = Exchange { gs2: "n,,".into(), bare: bare.clone(), server_first: sf, nonce, salted: salted("pw", b"salt", 1) };
                        if fin != e.client_final() {
                            return Err(format!("step {step}: client-final {fin:?}, expected {:?}", e.client_final()));
                        }
                        ex = Some(e);
                        m = M::Fin;
                        obs.push('s');
                    }
                    (Err(_), true, false) => {
                        m = M::Done;
                        obs.push('x');
                    }
                    (Err(_), false, _) => obs.push('-'),
                    (r, _, _) => return Err(format!("step {step} {op:?}: {r:?}")),
                }
            }
            fin => {
                let text = match (fin, &ex) {
                    (Op::FinalGood, Some(e)) => e.server_final(),
                    (Op::FinalWrong, Some(e)) => {
                        let mut s = e.server_sig();
                        s[0] ^= 0x80;
                        format!("v={}", b64(&s))
                    }
                    (Op::FinalOtherKey, Some(e)) => {
                        let o = Exchange { gs2: e.gs2.clone(), bare: e.bare.clone(), server_first: e.server_first.clone(), nonce: e.nonce.clone(), salted: salted("other", b"salt", 1) };
                        o.server_final()
                    }
                    (Op::FinalReflected, Some(e)) => format!("v={}", b64(&e.proof())),
                    (Op::FinalError, _) => "e=other-error".into(),
                    (Op::FinalEmpty, _) => "v=".into(),
                    _ => "v=AAAA".into(),
                };
                let r = cl.decode_server_final(&text);
                let good = m == M::Fin && *fin == Op::FinalGood;
                if r.is_ok() != good {
                    return Err(format!("step {step}: {fin:?} {text:?} gave {r:?} in {m:?}"));
                }
                obs.push(if good { 'V' } else { 'r' });
                if m == M::Fin {
                    m = M::Done;
                }
            }
        }
        c.state(&(&m, ex.is_some(), step));
    }
    c.outcome(&obs);
    Ok(())
}

pub fn run(c: &Arc<Check>) {
    c.assume("SHA-256, HMAC, PBKDF2 (ring) and base64 are trusted; nonces come from scripted RNGs");
    let alpha = [Op::First, Op::SfGood, Op::SfForeignNonce, Op::SfMalformed, Op::FinalGood, Op::FinalWrong, Op::FinalOtherKey, Op::FinalReflected, Op::FinalError, Op::FinalEmpty];
    c.explore_seqs("client-message-orders", &alpha, c.pick(6, 7), |o| format!("{o:?}"), |_, _| true, |ops| run_seq(c, ops));

    // all names over a small alphabet that contains every character SCRAM treats specially
    let chars = ['a', ',', '=', '2', 'C', '3', 'D', 'é', ' '];
    let len = c.pick(4, 5);
    let mut names = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..len {
        let mut next = vec![];
        for s in &layer {
            for ch in chars {
                next.push(format!("{s}{ch}"));
            }
        }
        names.extend(next.iter().cloned());
        layer = next;
    }
    names.extend(["=2C=3D", "=3D2C", "user=2C", "n=user", "a=,r=x"].map(String::from));
    let names = &names;
    c.explore_product("names", "every user name over {a , = 2 C 3 D é space}, alone, as itself, as another, wrong password", names.len() * 4, |i| format!("{:?}/{}", names[i / 4], i % 4), |i| {
        let name = &names[i / 4];
        match i % 4 {
            0 => pair(c, name, None, "pw", "pw", b"salt", 1),
            // an empty authorization identity is outside the grammar
            1 if !name.is_empty() => pair(c, name, Some(name), "pw", "pw", b"salt", 1),
            2 if !name.is_empty() => pair(c, "user", Some(name), "pw", "pw", b"salt", 1),
            3 => pair(c, name, None, "pw", "pwx", b"salt", 1),
            _ => Ok(()),
        }
    });
    let pws = ["", "p", "pass,word=", "pässwörd", "x", "a long password .................................................................................................."];
    let salts: [&[u8]; 4] = [b"\0", b"salt", b"0123456789abcdef0123456789abcdef", &[0xff, 0xfe, 0xfd, 0xfc, 0xfb]];
    let its: [u16; 4] = [1, 2, 4096, 65535];
    c.explore_product("password-pairs", "client password x stored password x salt x iterations", pws.len() * pws.len() * salts.len() * its.len(), |i| format!("{i}"), |i| {
        let a = pws[i % pws.len()];
        let b = pws[i / pws.len() % pws.len()];
        let k = i / pws.len() / pws.len();
        pair(c, "user", None, a, b, salts[k % 4], its[k / 4])
    });

    // server-first messages, valid and invalid
    let nonces: Vec<(&str, bool)> = vec![("+srv", true), ("", true), ("!prefix", false), ("!short", false), ("!empty", false), ("!é", false)];
    let salt_f = ["s=c2FsdA==", "s=", "s=!!!!", "s=c2FsdA", "c2FsdA==", "", "s", "é", "i=1"];
    let it_f = ["i=1", "i=4096", "i=0", "i=-1", "i=", "i=x", "i=1.5", "i=4294967296", "i=99999999999999999999", "1", "", "i", "é", "i= 1"];
    let tails = ["", ",x=1"];
    let pre = ["", "m=ext,", "x", "é"];
    let n = nonces.len() * salt_f.len() * it_f.len() * tails.len() * pre.len();
    c.explore_product("server-first-grammar", "prefix x nonce x salt x iterations x extension", n, |i| format!("{i}"), |i| {
        c.transition();
        let (nk, n_ok) = nonces[i % 6];
        let r = i / 6;
        let sa = salt_f[r % salt_f.len()];
        let r = r / salt_f.len();
        let it = it_f[r % it_f.len()];
        let r = r / it_f.len();
        let tl = tails[r % 2];
        let pr = pre[r / 2];
        let mut cl = ScramClient::with_rng("user", "pw", None, &mut crng(5));
        let first = cl.encode_client_first().map_err(|e| e.to_string())?;
        let bare = first.strip_prefix("n,,").unwrap().to_string();
        let cn = bare.split(',').nth(1).unwrap()[2..].to_string();
        let nonce = match nk {
            "!prefix" => format!("x{cn}srv"),
            "!short" => cn[..cn.len() - 1].to_string(),
            "!empty" => String::new(),
            "!é" => "é".into(),
            s => format!("{cn}{s}"),
        };
        let sf = format!("{pr}r={nonce},{sa},{it}{tl}");
        let valid = n_ok && pr.is_empty() && (sa == "s=c2FsdA==") && (it == "i=1" || it == "i=4096");
        // an empty salt is well-formed base64 of nothing: either answer is fine
        let unspecified = sa == "s=" && n_ok && pr.is_empty() && (it == "i=1" || it == "i=4096");
        let res = cl.decode_server_first(&sf);
        c.outcome(&format!("{:?}", res.as_ref().err()));
        c.state(&sf);
        match res {
            Ok(fin) if valid => {
                let iters = if it == "i=1" { 1 } else { 4096 };
                let e = Exchange { gs2: "n,,".into(), bare, server_first: sf, nonce, salted: salted("pw", b"salt", iters) };
                if fin != e.client_final() {
                    return Err(format!("client-final {fin:?}, expected {:?}", e.client_final()));
                }
                Ok(())
            }
            _ if unspecified => Ok(()),
            Ok(_) => Err(format!("accepted server-first {sf:?}")),
            Err(e) if valid => Err(format!("refused server-first {sf:?}: {e}")),
            Err(_) => {
                // no way on from a refused server
                if cl.decode_server_final("v=").is_ok() || cl.decode_server_first(&sf).is_ok() {
                    return Err("went on after a refused server-first".into());
                }
                Ok(())
            }
        }
    });

    // server-final: every corruption
    let (_, ex) = client_at_final("user", "pw", b"salt");
    let good = ex.server_final().into_bytes();
    let repl: Vec<char> = (0u8..128).map(|b| b as char).chain(['é', '€', '𝄞']).collect();
    let kinds = repl.len() + 3;
    c.explore_product("server-final-corruptions", "position x (replacement | delete | duplicate | truncate)", good.len() * kinds, |i| format!("{i}"), |i| {
        c.transition();
        let (mut cl, _) = client_at_final("user", "pw", b"salt");
        let pos = i / kinds;
        let k = i % kinds;
        let g: Vec<char> = good.iter().map(|b| *b as char).collect();
        let mut m = g.clone();
        if k < repl.len() {
            m[pos] = repl[k];
        } else if k == repl.len() {
            m.remove(pos);
        } else if k == repl.len() + 1 {
            let b = m[pos];
            m.insert(pos, b);
        } else {
            m.truncate(pos);
        }
        let text: String = m.iter().collect();
        let r = cl.decode_server_final(&text);
        c.outcome(&format!("{:?}", r.is_ok()));
        c.state(&text);
        if r.is_ok() != (m == g) {
            return Err(format!("server-final {text:?} gave {r:?}"));
        }
        Ok(())
    });
    c.explore_product("server-signature-bits", "256 bit flips, 64 lengths", 256 + 64, |i| format!("{i}"), |i| {
        c.transition();
        let (mut cl, ex) = client_at_final("user", "pw", b"salt");
        let mut s = ex.server_sig();
        if i < 256 {
            s[i / 8] ^= 1 << (i % 8);
        } else {
            if i - 256 == 32 {
                return Ok(());
            }
            s.resize(i - 256, 0);
        }
        if cl.decode_server_final(&format!("v={}", b64(&s))).is_ok() {
            return Err("a wrong server signature was accepted".into());
        }
        Ok(())
    });
    // nonce alphabet of the client
    c.explore_product("client-nonce-alphabet", "256 random bytes x 8 phases", 2048, |i| format!("{i}"), |i| {
        c.transition();
        let b = (i % 256) as u8;
        let ph = i / 256;
        let script: Vec<u8> = (0..24).map(|k| if k % 8 == ph { b } else { (k * 11 + 90) as u8 }).collect();
        let mut cl = ScramClient::with_rng("u", "p", None, &mut ScriptRng::new(&script));
        let t = cl.encode_client_first().map_err(|e| e.to_string())?;
        let n = t.strip_prefix("n,,n=u,r=").ok_or(format!("client-first {t:?}"))?;
        c.state(n);
        if n.len() < 16 || !n.chars().all(|ch| ('!'..='~').contains(&ch) && ch != ',') {
            return Err(format!("nonce {n:?}"));
        }
        let script2: Vec<u8> = script.iter().map(|x| x.wrapping_add(0x55)).collect();
        let mut cl2 = ScramClient::with_rng("u", "p", None, &mut ScriptRng::new(&script2));
        if cl2.encode_client_first().unwrap() == t {
            return Err("the nonce does not depend on the random source".into());
        }
        Ok(())
    });
}
