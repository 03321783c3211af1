//! The functional parts: one request in, one result out.
use crate::util::*;
use plusendi::modem::vara::{BandwidthMode, Command, CompressionMode, ConnectCommand, ConnectPath, ListenMode, MyCallSigns};
use plusendi::verif::fbb::{self, Outcome};
use plusendi::{verif, StationId};
use serde_json::{json, Value};

fn station(v: &Value) -> StationId {
    StationId::new(text(v)).expect("station id of the script")
}

fn command(c: &Value) -> Command {
    let ids: Vec<StationId> = c["ids"].as_array().map(|a| a.iter().map(station).collect()).unwrap_or_default();
    match c["k"].as_str().unwrap() {
        "listen" => Command::Listen(match c["m"].as_str().unwrap() {
            "OFF" => ListenMode::Disable,
            "CQ" => ListenMode::CQ,
            _ => ListenMode::Enable,
        }),
        "connect" => {
            let p: Vec<StationId> = c["path"].as_array().unwrap().iter().map(station).collect();
            Command::Connect(ConnectCommand {
                origin: ids[0].clone(),
                target: ids[1].clone(),
                path: match &p[..] {
                    [] => ConnectPath::Direct,
                    [a] => ConnectPath::OneHop { digipeater: a.clone() },
                    [a, b] => ConnectPath::TwoHops { first: a.clone(), second: b.clone() },
                    _ => panic!("path"),
                },
            })
        }
        "disconnect" => Command::Disconnect,
        "abort" => Command::Abort,
        "mycall" => Command::SetCall(if ids.len() == 1 && c["from"] == json!(true) {
            MyCallSigns::from(ids[0].clone())
        } else {
            MyCallSigns(ids[0].clone(), ids[1..].to_vec())
        }),
        "compression" => Command::SetCompression(match c["m"].as_str().unwrap() {
            "OFF" => CompressionMode::Off,
            "TEXT" => CompressionMode::Text,
            _ => CompressionMode::Files,
        }),
        "bw" => Command::SetBandwidth(match c["m"].as_str().unwrap() {
            "500" => BandwidthMode::Narrow,
            "2300" => BandwidthMode::Wide,
            _ => BandwidthMode::Tactical,
        }),
        k => panic!("{}", k),
    }
}

fn outcome<T>(o: Outcome<T>, f: impl FnOnce(T) -> Value) -> Value {
    match o {
        Outcome::Parsed { rest, value } => json!({"k": "parsed", "rest": rest, "v": f(value)}),
        Outcome::Incomplete(n) => json!({"k": "incomplete", "n": n.unwrap_or(0)}),
        Outcome::Rejected => json!({"k": "rejected"}),
    }
}

/// Numbers go out as decimal digits: the specification's integers have 32 bits.
fn digits(n: u64) -> Value {
    jb(n.to_string().as_bytes())
}

fn selection(b: &[u8], p: u64) -> Outcome<Vec<(char, u64)>> {
    match p {
        1 => fbb::selection_of::<1>(b),
        2 => fbb::selection_of::<2>(b),
        3 => fbb::selection_of::<3>(b),
        4 => fbb::selection_of::<4>(b),
        _ => fbb::selection_of::<5>(b),
    }
}

pub fn call(q: &Value) -> Value {
    let b = bytes(&q["b"]);
    match q["f"].as_str().unwrap() {
        "command" => json!({"text": jb(command(&q["c"]).to_string().as_bytes())}),
        "station" => match std::str::from_utf8(&b) {
            Err(_) => json!({"k": "nottext"}),
            Ok(s) => match StationId::new(s) {
                Ok(id) => {
                    let again = StationId::new(id.as_str());
                    json!({"k": "ok", "id": jb(id.as_str().as_bytes()),
                           "again": again.map(|x| x == id && x.as_str() == id.as_str()).unwrap_or(false)})
                }
                Err(_) => json!({"k": "no"}),
            },
        },
        "crc" => json!({"crc": verif::crc16::crc16(&b)}),
        "encode" => json!({"b": jb(&verif::lzhuf::encode(&b))}),
        "decode" => match verif::lzhuf::decode(&b, q["n"].as_u64().unwrap() as usize) {
            Some(x) => json!({"k": "ok", "b": jb(&x)}),
            None => json!({"k": "eof"}),
        },
        // Compress and decompress; says whether the message came back.
        "trip" => {
            let z = verif::lzhuf::encode(&b);
            let back = verif::lzhuf::decode(&z, b.len());
            json!({"z": z.len(), "same": back.as_deref() == Some(&b[..])})
        }
        "encdec" => {
            let z = verif::lzhuf::encode(&b);
            let back = verif::lzhuf::decode(&z, b.len());
            json!({"z": jb(&z), "same": back.as_deref() == Some(&b[..])})
        }
        "block" => outcome(fbb::message_block(&b, q["text"] == json!(true)), |m| {
            json!({"title": jb(m.title.as_bytes()), "offset": digits(m.offset), "crc": m.crc16,
                   "size": jb(&m.uncompressed_size.to_le_bytes()), "data": jb(&m.compressed),
                   "text": m.text.map(|t| json!([jb(&t)])).unwrap_or(json!([]))})
        }),
        "proposal" => outcome(fbb::proposal(&b), |p| {
            json!({"type": format!("{:?}", p.message_type), "fields": [jb(p.sender.as_bytes()), jb(p.mbo.as_bytes()), jb(p.recipient.as_bytes()),
                   jb(p.message_id.as_bytes())], "size": digits(p.size)})
        }),
        "b2proposal" => outcome(fbb::b2_proposal(&b), |p| {
            json!({"id": jb(p.message_id.as_bytes()), "usize": digits(p.uncompressed_size), "csize": digits(p.compressed_size),
                   "ext": p.extension.map(|e| e.iter().map(|x| jb(x.as_bytes())).collect::<Vec<_>>()).unwrap_or_default()})
        }),
        "selection" => outcome(selection(&b, q["p"].as_u64().unwrap()), |v| {
            json!(v.iter().map(|(c, o)| json!({"c": c.to_string(), "o": digits(*o)})).collect::<Vec<_>>())
        }),
        f => panic!("unknown request {}", f),
    }
}
