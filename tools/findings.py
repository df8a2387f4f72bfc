#!/usr/bin/env python3
"""Writes known_findings.json: genuine defects found by the checks."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
FIXED = [
 ("C17", "reject PROXY headers with an unspecified", "a PROXY v2 header with an unspecified address family or transport panicked the connection task"),
 ("C15", "verify SCRAM proofs over the client-first", "a client using gs2 flag 'y', an authzid or an extension could never authenticate: the server rebuilt client-first-bare instead of using what was sent"),
 ("C15", "escape and unescape", "user names with ',' or '=' were neither escaped by the client nor unescaped by the server (also C16)"),
 ("C16", "server-final message starting with a multi-byte", "a server-final message starting with a multi-byte character panicked the client"),
 ("C02", "forget a shared subscriber that leaves from the last position", "a client leaving a share group from the last position stayed a member: messages chosen for it were lost"),
 ("C07", "forward a QoS 2 message whose first received copy", "a QoS 2 PUBLISH whose first copy to arrive carried DUP was acknowledged but never forwarded"),
 ("C06", "do not release a QoS 2 message its receiver refused", "PUBREC with an error code was answered by PUBREL and kept the message in the window"),
 ("C28", "do not drop an expired message on reconnect", "an in-flight message past its expiry was dropped on reconnection instead of being completed"),
 ("C31", "clear the RETAIN flag of messages forwarded", "messages forwarded to an existing v3 subscription kept RETAIN=1"),
 ("C31", "send retained messages above the granted QoS", "retained messages whose QoS exceeded the granted QoS were not sent to new v3 subscribers (also C03)"),
 ("C09", "count a client once when a new connection takes", "the online counter counted a client twice after a takeover"),
 ("C10", "do not leave a connection hanging when the session", "a CONNECT taking over a session that ended at the same time was never answered"),
 ("C08", "drop the route table entries of a session that is not resumed", "subscriptions of a session replaced by a clean start stayed in the route table (also C02: they were chosen in share groups)"),
 ("C08", "do not resume a session that was to end", "a connection with session expiry 0 was resumable when taken over while online"),
 ("C11", "publish the will of a v5 client that disconnects", "DISCONNECT with a reason other than normal suppressed the will"),
 ("C11", "publish the will of a connection or session that a new", "the will of a connection or offline session replaced by a new connection was silently dropped"),
 ("C12", "do not let the keep alive timer of a replaced", "the keep-alive timer of a connection that was taken over kicked the new connection"),
 ("C09", "remove or keep offline a client whose connection fails right", "a client whose connection failed between registration and the session loop stayed registered as online for ever (also C10)"),
 ("C20", "do not stall output after a partial write", "after a partial write, or a flush that had to wait, the rest of the output was not sent until the client sent something"),
 ("C29", "refuse a v5 CONNECT with an unsupported will", "a v5 CONNECT refused for its will had already taken over and destroyed the existing session (also C09)"),
 ("C10", "keep pending broadcasts when a session is taken over", "what a connection still had to pass on (accepted publishes, the will of the one before) was lost when the connection was itself taken over (also C11)"),
 ("C32", "never send a v5 client a packet above its maximum", "the client's Maximum Packet Size was ignored: larger PUBLISH packets were sent to it"),
 ("C29", "refuse v5 messages above the announced maximum QoS", "a v5 PUBLISH above the Maximum QoS of the CONNACK was accepted"),
 ("C13", "do not accept a password against a truncated PBKDF2", "a stored PBKDF2 hash cut short was compared only as far as it went: one left byte accepted every 256th password"),
 ("C29", "limit the session expiry a client asks for in DISCONNECT", "a DISCONNECT could set a session expiry above the configured maximum"),
 ("C27", "bound the time a closing connection waits", "a client that did not read kept a closing connection, and whoever took it over, waiting for ever"),
 ("C22", "refuse a configuration with a zero in-flight limit", "max_inflight_client or max_inflight_server of 0 was accepted; no QoS>0 message could be delivered or published"),
 ("C25", "apply the connect timeout to the WebSocket handshake", "a client stalling in the WebSocket upgrade was never disconnected"),
 ("C23", "accept mqtt among several WebSocket subprotocols", "an upgrade offering mqtt among other subprotocols was refused"),
 ("C23", "answer the close frame of a WebSocket client", "the close frame of a WebSocket client was not answered"),
 ("C22", "deliver messages whatever the in-flight timeout is", "with an in-flight timeout above the Unix time no QoS>0 message was ever delivered; larger ones overflowed"),
 ("C10", "admit a client whose previous session ends at that moment", "a client reconnecting at the moment its previous session ended was closed without an answer (also C22)"),
 ("C23", "send a WebSocket pong that was blocked", "a pong that could not be written at once was never sent unless something else was"),
 ("C27", "keep receiving while a closing connection hands over", "a closing connection handing over its last messages waited for ever for one that waited for it (or for itself)"),
 ("C04", "the last subscriber leaves while a message is being matched", "a publisher's connection panicked if the last subscriber of a matching filter left between the match and the delivery"),
 ("C04", "deliver messages of v3.x publishers to shared subscriptions", "members of a shared subscription never received what a v3.x client published"),
 ("C21", "call the after-connect hook when it is enabled", "the after-connect hook ran exactly if the before-connect hook was enabled"),
 ("C21", "tell a v3.x client why the before-connect hook refused", "the return code a before-connect hook gave a v3.x client was not sent, the connection was only closed"),
 ("C21", "do not queue retained messages for a v3.x subscribe action", "retained QoS>0 messages of a hook's v3.x subscribe action were queued, took up the window and came with the next resend"),
 ("C04", "gave up one of several matching filters", "a v5 message under way to a v3.x client was lost if it unsubscribed one of the several filters matching it"),
 ("C27", "serve a resumed session whose client does not read", "a resumed session whose client did not read its pending messages could not be taken over or closed"),
 ("C29", "refuse QoS above the maximum from v3.x clients as well", "a v3.x PUBLISH or will above max_allowed_qos was accepted"),
 ("C19", "refuse no local on a shared subscription", "a v5 SUBSCRIBE with No Local on a shared subscription was accepted"),
 ("C28", "v5 messages for v3 subscribers expire as well", "a v5 message with an expiry interval queued for a v3.x client was sent however late"),
 ("C28", "send the messages behind discarded ones", "messages queued behind expired (or too large) ones were sent only with the next packet from or message to the client (also C32)"),
 ("C28", "retained messages expire", "a retained message with an expiry interval was sent to every new subscriber for ever, with its original interval"),
 ("C19", "a refused v3.x SUBSCRIBE subscribes to none of its filters", "the filters before a shared one in a refused v3.x SUBSCRIBE stayed subscribed in the kept session"),
]
exec(open(os.path.join(HERE, "tools", "findings_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "findings_more.py")) else None
out = []
for prop, key, what in FIXED:
    h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix:") and key in l]
    assert len(h) == 1, (key, h)
    out.append({"property": prop, "status": "fixed", "commit": h[0], "key": f"fixed: property={prop} {h[0]} {what}", "what": what})
for prop, key, what in globals().get("KNOWN", []):
    out.append({"property": prop, "status": "known", "key": key, "what": what})
json.dump({"findings": out}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "known_findings.json"), "a").write("\n")
