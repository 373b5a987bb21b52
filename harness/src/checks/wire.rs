//! C01, C02, C03, C08, C31: documents, names, decoders, serde forms.

use std::path::PathBuf;
use std::str::FromStr;

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value as Json};

use hyperborealib::address::Address;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::AsJson;

use crate::binary;
use crate::dict;
use crate::engine::*;
use crate::gens::*;
use crate::refimpl;
use crate::wire::*;
use crate::{ensure, fail, with_value};

fn over_the_wire(json: &Json) -> Result<Json, Fail> {
    let text = json.to_string();

    serde_json::from_str(&text).map_err(|err| Fail(format!("document {} isn't JSON: {err}", short(&text))))
}

// ----------------------------------------------------------------------- C01

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Scalar {
    Unit,
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(String),
    Usize(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(String),
    Isize(i64),
    Text(String),
    Path(String),
    Texts(Vec<String>),
    Nested(Vec<Vec<u64>>),
    Boxed(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C01 {
    Record { record: Record, list: u8 },
    Scalar { value: Scalar, container: u8, key: KeyId, seed: u64 },
    /// Long list of records: four kinds of records taken from the seed, again and again.
    Many { kind: u8, count: u32, seed: u64 },
}

fn cycled<T: Clone>(src: &mut Src, count: u32, gen: impl FnMut(&mut Src) -> T) -> Vec<T> {
    let kinds = src.vec(4, 4, gen);

    kinds.into_iter().cycle().take(count as usize).collect()
}

fn scalar_gen(src: &mut Src) -> Scalar {
    match src.below(18) {
        0 => Scalar::Unit,
        1 => Scalar::Text(text(src, 300)),
        2 => Scalar::U8(num(src) as u8),
        3 => Scalar::U16(num(src) as u16),
        4 => Scalar::U32(num(src) as u32),
        5 => Scalar::U64(num(src)),
        6 => {
            let v = if src.bool() { num(src) as u128 } else { (num(src) as u128) << 64 | num(src) as u128 };
            Scalar::U128(v.to_string())
        }
        7 => Scalar::Usize(num(src)),
        8 => Scalar::I8(num(src) as i8),
        9 => Scalar::I16(num(src) as i16),
        10 => Scalar::I32(num(src) as i32),
        11 => Scalar::I64(num(src) as i64),
        12 => {
            let v = match src.below(3) { 0 => num(src) as i128, 1 => -(num(src) as i128), _ => ((num(src) as i128) << 64) ^ -(num(src) as i128) };
            Scalar::I128(v.to_string())
        }
        13 => Scalar::Isize(num(src) as i64),
        14 => Scalar::Path(text(src, 60)),
        15 => Scalar::Texts(src.vec(0, 5, |s| text(s, 20))),
        16 => Scalar::Nested(src.vec(0, 4, |s| s.vec(0, 4, num))),
        _ => Scalar::Boxed(text(src, 40)),
    }
}

fn same_after_trip<T: AsJson + PartialEq + std::fmt::Debug>(value: &T) -> Verdict {
    let json = match value.to_json() {
        Ok(json) => json,
        Err(err) => fail!("{} can't be serialised: {err}", short(value)),
    };

    let back = over_the_wire(&json)?;

    match T::from_json(&back) {
        Ok(parsed) => ensure!(&parsed == value, "{} became {} after the trip as {}", short(value), short(&parsed), short(&json.to_string())),
        Err(err) => fail!("{} can't be parsed back from {}: {err}", short(value), short(&json.to_string())),
    }

    // The value itself is accepted too, as well as pretty-printed text
    ensure!(T::from_json(&json).is_ok_and(|v| &v == value), "{} differs when parsed from its own JSON value", short(value));

    let pretty = serde_json::to_string_pretty(&json).unwrap_or_default();
    let pretty = serde_json::from_str::<Json>(&pretty).map_err(|err| Fail(err.to_string()))?;
    ensure!(T::from_json(&pretty).is_ok_and(|v| &v == value), "{} differs after pretty printing", short(value));

    Ok(())
}

fn trip<T: AsJson + PartialEq + std::fmt::Debug + Clone>(value: T, list: u8) -> Verdict {
    match list {
        0 | 1 => same_after_trip(&value),
        2 => same_after_trip(&Box::new(value)),
        n => same_after_trip(&vec![value; n as usize - 3]),
    }
}

fn trip_scalar<T: AsJson + PartialEq + std::fmt::Debug + Clone>(value: T, container: u8, key: KeyId, seed: u64) -> Verdict {
    let req = ReqSpec { key, seed, sign: SignSpec::By(key), body: Body::Disconnect };
    let resp = RespSpec { answer: Answer::Send, key, seed, sign: SignSpec::By(key), error: None };

    match container {
        0 => same_after_trip(&value),
        1 => same_after_trip(&req.wrap(value)),
        2 => same_after_trip(&resp.wrap(value)),
        3 => same_after_trip(&vec![value.clone(), value]),
        4 => same_after_trip(&Box::new(req.wrap(vec![value]))),
        _ => same_after_trip(&RespSpec { error: Some((seed as u8 % 8, format!("{seed}\n\"\\"))), ..resp }.wrap(value)),
    }
}

fn wide<T: AsJson + PartialEq + std::fmt::Debug + Clone>(value: T, fits: bool, container: u8, key: KeyId, seed: u64) -> Verdict {
    // JSON numbers have 64 bits here: wider ones may be refused, but never changed
    if !fits && container != 5 && value.to_json().is_err() {
        return Ok(());
    }

    trip_scalar(value, container, key, seed)
}

fn c01_run(case: &C01, cx: &mut Cx) -> Verdict {
    match case {
        C01::Record { record, list } => {
            cx.label(record.name());
            cx.label_if(*list >= 3, "list");

            let text = record.reference().to_string();
            if text.len() > 40 {
                cx.nontrivial();
            }
            cx.label_if(text.contains('\\'), "escapes");
            cx.label_if(!text.is_ascii(), "unicode");

            with_value!(record, v => trip(v, *list))
        }

        C01::Many { kind, count, seed } => {
            cx.label("long list");
            cx.nontrivial();

            let src = &mut Src::random(Rng::new(*seed));
            let n = *count;

            match kind % 7 {
                0 => { let record = Record::Clients(cycled(src, n, ClientSpec::gen)); with_value!(&record, v => trip(v, 0)) }
                1 => { let record = Record::Servers(cycled(src, n, ServerSpec::gen)); with_value!(&record, v => trip(v, 0)) }
                2 => { let record = Record::Answer(Answer::Hint { servers: cycled(src, n, ServerSpec::gen) }); with_value!(&record, v => trip(v, 0)) }

                3 => {
                    let messages = cycled(src, n, |src| MessageInfoSpec { message: MessageSpec::gen(src, 20), ..MessageInfoSpec::gen(src) });
                    let record = Record::Answer(Answer::Poll { messages, remaining: num(src) });
                    with_value!(&record, v => trip(v, 0))
                }

                4 => trip(cycled(src, n, ServerSpec::gen).iter().map(ServerSpec::build).collect::<Vec<_>>(), 0),
                5 => trip(cycled(src, n, |src| text(src, 10)), 0),
                _ => trip(cycled(src, n, num), 0),
            }
        }

        C01::Scalar { value, container, key, seed } => {
            cx.label("scalar");
            cx.nontrivial();

            let (c, k, s) = (*container, *key, *seed);

            match value {
                Scalar::Unit => trip_scalar((), c, k, s),
                Scalar::U8(v) => trip_scalar(*v, c, k, s),
                Scalar::U16(v) => trip_scalar(*v, c, k, s),
                Scalar::U32(v) => trip_scalar(*v, c, k, s),
                Scalar::U64(v) => trip_scalar(*v, c, k, s),
                Scalar::U128(v) => { let v: u128 = v.parse().unwrap_or(0); wide(v, v <= u64::MAX as u128, c, k, s) }
                Scalar::Usize(v) => trip_scalar(*v as usize, c, k, s),
                Scalar::I8(v) => trip_scalar(*v, c, k, s),
                Scalar::I16(v) => trip_scalar(*v, c, k, s),
                Scalar::I32(v) => trip_scalar(*v, c, k, s),
                Scalar::I64(v) => trip_scalar(*v, c, k, s),
                Scalar::I128(v) => { let v: i128 = v.parse().unwrap_or(0); wide(v, v >= i64::MIN as i128 && v <= u64::MAX as i128, c, k, s) }
                Scalar::Isize(v) => trip_scalar(*v as isize, c, k, s),
                Scalar::Text(v) => trip_scalar(v.clone(), c, k, s),
                Scalar::Path(v) => trip_scalar(PathBuf::from(v), c, k, s),
                Scalar::Texts(v) => trip_scalar(v.clone(), c, k, s),
                Scalar::Nested(v) => trip_scalar(v.clone(), c, k, s),
                Scalar::Boxed(v) => trip_scalar(Box::new(v.clone()), c, k, s),
            }
        }
    }
}

pub fn c01() -> Check {
    Def {
        id: "C01",
        level: "exploration",
        rule: "the document carries generated content (longer than 40 characters of JSON, or a scalar in a container)",
        assumptions: &[
            "responses are a success variant with a success status or an error variant with a failure status",
            "128-bit integers which do not fit 64 bits may be refused when encoding",
            "paths are valid UTF-8",
        ],
        quick: 60_000,
        thorough: 1_500_000,
        shards: 8,
        gen: |src| {
            if let Some(count) = src.chance(1, 10).then(|| dict::count(src, 6, 5000)).flatten() {
                C01::Many { kind: src.below(7) as u8, count: count as u32, seed: src.below(1 << 32) }
            } else if src.chance(1, 1000) {
                C01::Many { kind: src.below(7) as u8, count: length(src, 3000) as u32, seed: src.below(1 << 32) }
            } else if src.chance(1, 5) {
                C01::Scalar { value: scalar_gen(src), container: src.below(6) as u8, key: key(src), seed: num(src) }
            } else {
                C01::Record { record: Record::gen(src), list: if src.chance(1, 4) { src.below(6) as u8 } else { 0 } }
            }
        },
        run: c01_run,
    }.build()
}

// ----------------------------------------------------------------------- C02

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C02 {
    pub record: Record,
    /// Numbers picking a field of the document to spoil, and how.
    pub field: u64,
    pub how: u8,
    pub standard: u64,
    /// Nonzero: spaces and field order of the document's text.
    pub layout: u64,
    /// Name under which a field is given instead of its own.
    pub alias: String,
}

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Index(usize),
}

/// All the fields of the document, as paths.
fn fields(json: &Json) -> Vec<Vec<Step>> {
    fn walk(json: &Json, path: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
        match json {
            Json::Object(map) => for (k, v) in map {
                path.push(Step::Key(k.clone()));
                out.push(path.clone());
                walk(v, path, out);
                path.pop();
            },

            Json::Array(list) => for (i, v) in list.iter().enumerate() {
                path.push(Step::Index(i));
                walk(v, path, out);
                path.pop();
            },

            _ => (),
        }
    }

    let mut out = vec![];
    walk(json, &mut vec![], &mut out);
    out
}

fn at<'a>(json: &'a mut Json, path: &[Step]) -> Option<&'a mut Json> {
    let mut json = json;

    for step in path {
        json = match step {
            Step::Key(k) => json.get_mut(k)?,
            Step::Index(i) => json.get_mut(*i)?,
        };
    }

    Some(json)
}

/// May the field be absent (or of another type) by the standard?
fn optional(parent: &Json, field: &str, value: &Json) -> (bool, bool) {
    let keys = parent.as_object().map(|o| o.keys().map(String::as_str).collect::<Vec<_>>()).unwrap_or_default();

    let absent = match field {
        "address" => keys == ["address", "type"],
        "type" => keys == ["public_key", "type"],
        _ => false,
    };

    // Empty bodies have no structure to require
    let any_type = absent
        || matches!(field, "request" | "response") && value.as_object().is_some_and(|o| o.is_empty())
        || field == "limit";

    (absent, any_type)
}

/// Write JSON text with other whitespace and field order.
fn relayout(json: &Json, rng: &mut Rng, out: &mut String) {
    fn space(rng: &mut Rng, out: &mut String) {
        for _ in 0..rng.below(3) {
            out.push([' ', '\n', '\t', '\r'][rng.below(4) as usize]);
        }
    }

    fn string(text: &str, rng: &mut Rng, out: &mut String) {
        out.push('"');
        for c in text.chars() {
            if (c as u32) < 0x20 || c == '"' || c == '\\' || rng.below(20) == 0 {
                let mut buf = [0; 2];
                for unit in c.encode_utf16(&mut buf) {
                    out.push_str(&format!("\\u{unit:04x}"));
                }
            } else {
                out.push(c);
            }
        }
        out.push('"');
    }

    space(rng, out);

    match json {
        Json::Object(map) => {
            let mut entries: Vec<_> = map.iter().collect();
            for i in (1..entries.len()).rev() {
                entries.swap(i, rng.below(i as u64 + 1) as usize);
            }
            out.push('{');
            for (i, (k, v)) in entries.into_iter().enumerate() {
                if i > 0 { out.push(','); }
                space(rng, out);
                string(k, rng, out);
                space(rng, out);
                out.push(':');
                relayout(v, rng, out);
            }
            space(rng, out);
            out.push('}');
        }

        Json::Array(list) => {
            out.push('[');
            for (i, v) in list.iter().enumerate() {
                if i > 0 { out.push(','); }
                relayout(v, rng, out);
            }
            space(rng, out);
            out.push(']');
        }

        Json::String(text) => string(text, rng, out),
        other => out.push_str(&other.to_string()),
    }

    space(rng, out);
}

fn c02_value<T: AsJson + PartialEq + std::fmt::Debug>(value: T, case: &C02, cx: &mut Cx) -> Verdict {
    let reference = case.record.reference();

    // Encoding
    let json = value.to_json().map_err(|err| Fail(format!("{} can't be serialised: {err}", short(&value))))?;
    let json = over_the_wire(&json)?;

    ensure!(json == reference, "{} is encoded as {} instead of {}", short(&value), short(&json.to_string()), short(&reference.to_string()));

    // Decoding of another implementation's text
    let text = if case.layout == 0 {
        reference.to_string()
    } else {
        let mut text = String::new();
        relayout(&reference, &mut Rng::new(case.layout), &mut text);
        text
    };

    let parsed = serde_json::from_str::<Json>(&text).unwrap_or_else(|err| infra(format!("reference document: {err}")));
    if parsed != reference {
        infra("relayout changed the document");
    }

    match T::from_json(&parsed) {
        Ok(parsed) => ensure!(parsed == value, "{} is decoded as {} instead of {}", short(&text), short(&parsed), short(&value)),
        Err(err) => fail!("{} isn't decoded: {err}", short(&text)),
    }

    // Spoiled documents
    let paths = fields(&reference);

    if paths.is_empty() {
        return Ok(());
    }

    let path = &paths[(case.field % paths.len() as u64) as usize];
    let Some((Step::Key(last), parent)) = path.split_last() else {
        return Ok(());
    };

    let mut spoiled = reference.clone();
    let above = parent;
    let parent = at(&mut spoiled, parent).unwrap_or_else(|| infra("no parent"));
    let (absent, any_type) = optional(parent, last, &parent[last.as_str()]);

    let (what, fine) = match case.how {
        0 => {
            parent.as_object_mut().map(|o| o.remove(last));
            ("without the field", absent)
        }
        1 => {
            parent[last.as_str()] = Json::Null;
            ("with null instead of the field", any_type)
        }
        3 if parent[last.as_str()].is_number() => {
            let numbers = [json!(1.5), json!(-1), json!(1e300), json!(100.25), json!(-100), json!(0.5), json!(u64::MAX as f64 * 2.0)];
            parent[last.as_str()] = numbers[(case.field / 7 % numbers.len() as u64) as usize].clone();
            ("with a number which isn't a whole one in the field", any_type)
        }
        4 => {
            let value = parent.as_object_mut().and_then(|o| o.remove(last)).unwrap_or_default();
            let alias = if case.alias.is_empty() { last.to_uppercase() } else { case.alias.clone() };

            if alias == *last || parent.get(&alias).is_some() { return Ok(()); }
            parent[alias.as_str()] = value;
            ("with another name of the field", absent)
        }
        5 => {
            // In the enclosing object
            let value = parent.as_object_mut().and_then(|o| o.remove(last)).unwrap_or_default();
            let Some(outer) = above.len().checked_sub(1).and_then(|n| at(&mut spoiled, &above[..n])) else { return Ok(()) };

            if !outer.is_object() || outer.get(last).is_some() { return Ok(()); }
            outer[last.as_str()] = value;
            ("with the outer object having the field", absent)
        }
        6 => {
            // Its own fields in place of it
            let Some(Json::Object(inner)) = parent.as_object_mut().and_then(|o| o.remove(last)) else { return Ok(()) };

            for (name, value) in inner {
                parent.as_object_mut().map(|o| o.entry(name).or_insert(value));
            }

            ("with the inner fields instead of the field", absent)
        }
        7 => {
            // Within an object or a list of its own
            let value = parent[last.as_str()].take();
            let list = value.is_object() || case.field % 2 == 0;
            parent[last.as_str()] = if list { json!([value]) } else { json!({ last.as_str(): value }) };
            ("with the value of the field in a list or an object", any_type)
        }
        _ => {
            let old = &parent[last.as_str()];
            parent[last.as_str()] = match old {
                Json::String(_) => json!({}),
                Json::Bool(_) => json!("true"),
                Json::Number(n) => json!(n.to_string()),
                Json::Array(_) => json!("[]"),
                _ => json!("object"),
            };
            ("with a value of another type in the field", any_type)
        }
    };

    cx.label(match case.how { 0 => "field removed", 1 => "field nulled", 3 => "number broken", 4 => "field renamed", 5 => "field moved", 6 => "field unfolded", 7 => "field wrapped", _ => "field retyped" });

    if !fine {
        // A retyped standard or limit is covered by the same rule
        if let Ok(value) = T::from_json(&spoiled) {
            fail!("document {} {what} `{last}` is decoded as {}", short(&spoiled.to_string()), short(&value));
        }
    }

    // Other standard versions
    if reference.get("standard").is_some() && case.standard != 1 {
        let mut other = reference.clone();
        other["standard"] = json!(case.standard);

        if let Ok(value) = T::from_json(&other) {
            fail!("document of the standard {} is decoded as {}", case.standard, short(&value));
        }

        cx.label("other standard");
    }

    if reference.get("standard").is_some() {
        let other = [json!(1.5), json!(-1), json!("1"), json!(true), json!([1]), json!(1.0000001)][(case.field % 6) as usize].clone();
        let mut document = reference.clone();
        document["standard"] = other.clone();

        if let Ok(value) = T::from_json(&document) {
            fail!("document of the standard {other} is decoded as {}", short(&value));
        }
    }

    // Undefined status codes
    if let (Some(_), true) = (reference.get("status"), matches!(case.record, Record::Response(_))) {
        let undefined = |code: u64| code != 100 && FAILURES.iter().all(|(_, c)| *c != code);

        // Near the defined ones and anywhere else
        let near = FAILURES[(case.field % FAILURES.len() as u64) as usize].1;

        for code in [case.standard, near + 1, near + 10, near + 100, near + 256, near + (1 << 16), near + (1 << 32), near - 1, near / 100 * 100 + 99, 101, 199, 356] {
            if !undefined(code) {
                continue;
            }

            let mut document = reference.clone();
            document["status"] = json!(code);
            document["reason"] = json!("reason");

            if let Ok(value) = T::from_json(&document) {
                fail!("document of the undefined status {code} is decoded as {}", short(&value));
            }
        }

        cx.label("undefined status");
    }

    Ok(())
}

fn c02_run(case: &C02, cx: &mut Cx) -> Verdict {
    cx.label(case.record.name());
    cx.label_if(case.layout != 0, "other layout");
    cx.nontrivial();

    with_value!(&case.record, v => c02_value(v, case, cx))?;

    // Status codes
    for (status, code) in FAILURES.iter().chain([&(ResponseStatus::Success, 100)]) {
        ensure!(status.to_code() == *code, "{status:?} has code {}", status.to_code());
        ensure!(ResponseStatus::from_code(*code) == Some(*status), "code {code} is {:?}", ResponseStatus::from_code(*code));
        ensure!(status.is_success() == (*code == 100), "{status:?} success: {}", status.is_success());
    }

    let code = case.standard;
    let known = FAILURES.iter().any(|(_, c)| *c == code) || code == 100;
    ensure!(ResponseStatus::from_code(code).is_some() == known, "code {code} is {:?}", ResponseStatus::from_code(code));

    // Sanity of constants a peer relies on
    ensure!(hyperborealib::STANDARD_VERSION == 1, "standard version is {}", hyperborealib::STANDARD_VERSION);

    Ok(())
}

pub fn c02() -> Check {
    Def {
        id: "C02",
        level: "exploration",
        rule: "every case compares a generated document with the reference encoding and spoils one of its fields",
        assumptions: &[
            "client info address and lookup type may be absent; the poll limit must be present but may be null",
            "unknown additional fields and uncompressed key points are not judged",
        ],
        quick: 60_000,
        thorough: 1_200_000,
        shards: 8,
        gen: |src| C02 {
            record: Record::gen(src),
            field: src.below(1000),
            how: src.below(8) as u8,
            standard: match src.below(4) { 0 => 0, 1 => 2, 2 => src.below(1000), _ => num(src) },
            layout: if src.bool() { src.word() | 1 } else { 0 },
            alias: dict::word(src),
        },
        run: c02_run,
    }.build()
}

// ----------------------------------------------------------------------- C03

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C03 {
    Document { kind: u8, json: Json },
    DocumentText { kind: u8, text: String },
    Base64(String),
    Text(String),
    Bytes(Blob),
    Capsule { key: KeyId, bytes: Blob },
    Signature { key: KeyId, message: Blob, signature: Blob },
    Decrypt { kind: u8, key: KeyId, bytes: Blob },
    Decompress { kind: u8, bytes: Blob },
    Read { receiver: KeyId, sender: KeyId, content: String, sign: String, encoding: EncSpec },
}

const KINDS: u8 = 27;

/// Decode the document as the type number `kind`, and use the value.
fn decode_kind(kind: u8, json: &Json) -> Result<bool, Fail> {
    fn common<T: AsJson + PartialEq + std::fmt::Debug>(json: &Json) -> Result<Option<T>, Fail> {
        match guarded(|| T::from_json(json))? {
            Ok(value) => {
                let again = match guarded(|| value.to_json())? {
                    Ok(json) => json,
                    Err(err) => fail!("{} was decoded but can't be encoded: {err}", short(&value)),
                };

                match guarded(|| T::from_json(&again))? {
                    Ok(back) => ensure!(back == value, "{} became {} after re-encoding", short(&value), short(&back)),
                    Err(err) => fail!("{} can't be decoded again: {err}", short(&again.to_string())),
                }

                Ok(Some(value))
            }

            Err(err) => {
                // Errors are printable
                guarded(|| format!("{err} {err:?}"))?;
                Ok(None)
            }
        }
    }

    macro_rules! plain { ($t:ty) => { common::<$t>(json)?.is_some() } }
    macro_rules! checked {
        ($t:ty, $v:ident => $e:expr) => {
            match common::<$t>(json)? {
                Some($v) => { let _ = guarded(|| $e.map(|_| ()).map_err(|err| err.to_string()))?; true }
                None => false,
            }
        }
    }

    let seed = 1 << 63 | 77;

    Ok(match kind % KINDS {
        0 => checked!(ConnectionCertificate, v => v.validate(&public(0), &public(1))),
        1 => plain!(ClientInfo),
        2 => plain!(Client),
        3 => plain!(Server),
        4 => plain!(Sender),
        5 => checked!(Message, v => v.read(&secret(0), &public(1))),
        6 => checked!(MessageInfo, v => v.message.read(&secret(0), &v.sender.client.public_key)),
        7 => checked!(ConnectRequest, v => v.validate(&public(1))),
        8 => checked!(DisconnectRequest, v => v.validate()),
        9 => checked!(AnnounceRequest, v => v.validate()),
        10 => checked!(LookupRequest, v => v.validate()),
        11 => checked!(SendRequest, v => v.validate()),
        12 => checked!(PollRequest, v => v.validate()),
        13 => checked!(ConnectResponse, v => v.validate(seed)),
        14 => checked!(DisconnectResponse, v => v.validate(seed)),
        15 => checked!(AnnounceResponse, v => v.validate(seed)),
        16 => checked!(LookupResponse, v => v.validate(seed)),
        17 => checked!(SendResponse, v => v.validate(seed)),
        18 => checked!(PollResponse, v => v.validate(seed)),
        19 => checked!(InfoResponse, v => v.validate()),
        20 => plain!(ClientsResponse),
        21 => plain!(ServersResponse),
        22 => checked!(Request<Vec<String>>, v => v.validate()),
        23 => checked!(Response<Box<u64>>, v => v.validate(seed)),
        24 => plain!(Vec<i64>),
        25 => plain!(Vec<u8>),
        _ => plain!(PathBuf),
    })
}

fn kind_of(record: &Record) -> u8 {
    match record {
        Record::Cert(_) => 0,
        Record::Info(_) => 1,
        Record::Client(_) => 2,
        Record::Server(_) => 3,
        Record::Sender(_) => 4,
        Record::Message(_) => 5,
        Record::MessageInfo(_) => 6,
        Record::Body(_) | Record::Answer(_) => 22,
        Record::Request(r) => match r.body {
            Body::Connect { .. } => 7,
            Body::Disconnect => 8,
            Body::AnnounceClient { .. } | Body::AnnounceServer { .. } => 9,
            Body::Lookup { .. } => 10,
            Body::Send { .. } => 11,
            Body::Poll { .. } => 12,
        },
        Record::Response(r) => match r.answer {
            Answer::Connect => 13,
            Answer::Disconnect => 14,
            Answer::Announce => 15,
            Answer::Send => 17,
            Answer::Poll { .. } => 18,
            _ => 16,
        },
        Record::ServerInfo(_) => 19,
        Record::Clients(_) => 20,
        Record::Servers(_) => 21,
    }
}

fn any_json(src: &mut Src, depth: u32) -> Json {
    match src.weighted(&[2, 1, 2, 1, 4, 1, 1]) {
        0 => Json::Null,
        1 => json!(src.bool()),
        2 => match src.below(3) { 0 => json!(num(src)), 1 => json!(-(num(src) as i64 as f64)), _ => json!(num(src) as f64 * 0.37) },
        3 => json!(if src.chance(1, 5) { wide_text(src) } else { text(src, 30) }),
        4 => {
            // Text of an expected look
            let n = src.usize(12);
            json!(match n {
                0 => refimpl::public_b64(key(src)),
                1 => refimpl::b64(&blob(src, 70).bytes()),
                2 => "base64/brotli".into(),
                3 => TYPE_NAMES[src.usize(4)].into(),
                4 => "local".into(),
                5 => "hint".into(),
                6 => "remote".into(),
                7 => "client".into(),
                8 => "server".into(),
                9 => "1".into(),
                _ => label_text(src),
            })
        }
        5 if depth > 0 => Json::Array(src.vec(0, 3, |s| any_json(s, depth - 1))),
        6 if depth > 0 => {
            const KEYS: [&str; 24] = ["standard", "public_key", "proof", "seed", "sign", "request", "response", "status", "reason", "client", "server", "certificate", "token", "address", "type", "messages", "remaining", "servers", "clients", "announce", "disposition", "available", "limit", "channel"];
            let pairs = src.vec(0, 6, |s| (s.pick(&KEYS).to_string(), any_json(s, depth - 1)));
            Json::Object(pairs.into_iter().collect())
        }
        _ => json!([]),
    }
}

fn spoil_text(src: &mut Src, text: &str) -> String {
    let mut chars: Vec<char> = text.chars().collect();

    for _ in 0..1 + src.below(2) {
        let at = src.usize(chars.len() + 1);

        match src.below(6) {
            0 => chars.truncate(at),
            1 => { if at < chars.len() { chars.remove(at); } }
            2 => chars.insert(at, character(src)),
            3 => { if at < chars.len() { chars[at] = character(src); } }
            4 => { if at < chars.len() { chars[at] = *src.pick(&['A', 'B', 'Q', 'g', 'w', 'z', '9', '-', '_', '=', '+', '/']); } }
            _ => { let tail: Vec<char> = chars[at..].to_vec(); chars.extend(tail); }
        }
    }

    chars.into_iter().collect()
}

fn spoil_bytes(src: &mut Src, bytes: &mut Vec<u8>) {
    for _ in 0..1 + src.below(3) {
        let at = src.usize(bytes.len() + 1);

        match src.below(6) {
            0 => bytes.truncate(at),
            1 => { if at < bytes.len() { bytes.remove(at); } }
            2 => bytes.insert(at, src.below(256) as u8),
            3 => { if at < bytes.len() { bytes[at] ^= 1 << src.below(8); } }
            4 => { if at < bytes.len() { bytes[at] = *src.pick(&[0, 1, 2, 3, 4, 63, 64, 65, 127, 128, 254, 255]); } }
            _ => { let end = (at + src.upto(40)).min(bytes.len()); let piece = bytes[at..end].to_vec(); bytes.extend(piece); }
        }
    }
}

fn spoil_json(src: &mut Src, json: &mut Json) {
    for _ in 0..1 + src.below(3) {
        let paths = fields(json);
        if paths.is_empty() { *json = any_json(src, 3); continue; }
        let path = paths[src.usize(paths.len())].clone();
        let Some((Step::Key(last), parent)) = path.split_last() else { continue };
        let Some(parent) = at(json, parent) else { continue };

        match src.below(5) {
            0 => { parent.as_object_mut().map(|o| o.remove(last)); }
            1 => parent[last.as_str()] = any_json(src, 2),
            2 => {
                let old = parent[last.as_str()].clone();
                if let Json::String(text) = old {
                    let bytes = refimpl::unb64(&text).filter(|b| b.len() > 7);
                    parent[last.as_str()] = match bytes {
                        // Keep it decodable, change the bytes
                        Some(mut bytes) if src.bool() => { spoil_bytes(src, &mut bytes); json!(refimpl::b64(&bytes)) }
                        _ => json!(spoil_text(src, &text)),
                    };
                } else {
                    parent[last.as_str()] = any_json(src, 1);
                }
            }
            3 => { let mut deep = json!([]); for _ in 0..src.below(80) { deep = json!([deep]); } parent[last.as_str()] = deep; }
            _ => { let v = any_json(src, 2); let k = text(src, 6); if let Some(o) = parent.as_object_mut() { o.insert(k, v); } }
        }
    }
}

pub fn label_text(src: &mut Src) -> String {
    const PARTS: [&str; 16] = ["base64", "plain", "none", "aes256-gcm", "chacha20-poly1305", "deflate", "brotli", "thin", "thick", "server", "file", "", "Base64", "base64url", "gzip", "AES256-GCM"];
    let n = 1 + src.below(4);
    let mut parts: Vec<String> = (0..n).map(|_| src.pick(&PARTS).to_string()).collect();

    if src.chance(1, 8) {
        for _ in 0..1 + src.below(4) { parts.push(wide_text(src)); }
    }

    parts.join(if src.chance(1, 12) { "," } else { "/" })
}

pub fn address_text(src: &mut Src) -> String {
    const SCHEMES: [&str; 14] = ["hyperborea://", "hyp://", "hyperborea-client://", "hyp-client://", "hyperborea-server://", "hyp-server://", "hyperborea-file://", "hyp-file://", "http://", "https://", "", "HYP://", "hyp:/", "ftp://"];
    const PREFIXES: [&str; 8] = ["", "thin:", "thick:", "server:", "file:", "Thin:", "thin", "other:"];
    let scheme = *src.pick(&SCHEMES);
    let prefix = *src.pick(&PREFIXES);
    let rest = match src.below(4) {
        0 => refimpl::public_b64(key(src)),
        1 => { let t = refimpl::public_b64(key(src)); spoil_text(src, &t) }
        2 => if src.chance(1, 5) { wide_text(src) } else { text(src, 30) },
        _ => format!("{}:{}", text(src, 10), src.below(70000)),
    };

    format!("{scheme}{prefix}{rest}")
}

fn capped(bytes: Vec<u8>) -> Blob {
    Blob::Hex(hex(&bytes))
}

fn c03_gen(src: &mut Src) -> C03 {
    match src.weighted(&[5, 1, 2, 2, 2, 2, 2, 2, 3, 3]) {
        0 => {
            let record = Record::gen(src);
            let mut json = record.reference();
            spoil_json(src, &mut json);
            let kind = if src.chance(1, 8) { src.below(KINDS as u64) as u8 } else { kind_of(&record) };
            C03::Document { kind, json }
        }

        1 => {
            if src.bool() {
                C03::Document { kind: src.below(KINDS as u64) as u8, json: any_json(src, 4) }
            } else {
                let record = Record::gen(src);
                let text = record.reference().to_string();
                C03::DocumentText { kind: kind_of(&record), text: spoil_text(src, &text) }
            }
        }

        2 => {
            let b = blob(src, 60).bytes();
            let t = refimpl::b64(&b);
            C03::Base64(if src.chance(1, 4) { text(src, 24) } else { spoil_text(src, &t) })
        }

        3 => C03::Text(match src.below(3) { 0 => label_text(src), 1 => address_text(src), _ => text(src, 60) }),

        4 => {
            let mut bytes = match src.below(4) {
                0 => refimpl::public_bytes(key(src)).to_vec(),
                1 => scalar(key(src)).to_vec(),
                2 => refimpl::token_bytes(&TokenSpec { date: num(src), server: key(src) }),
                _ => blob(src, 90).bytes(),
            };
            spoil_bytes(src, &mut bytes);
            C03::Bytes(capped(bytes))
        }

        5 => {
            let k = key(src);
            let message = blob(src, 40).bytes();
            let sign = refimpl::sign(k, &message);
            let len = match src.below(4) { 0 => 64, 1 => num(src), 2 => u64::MAX - src.below(200), _ => src.below(120) };
            let mut bytes = len.to_be_bytes().to_vec();
            bytes.extend(sign);
            bytes.extend(message);
            if src.chance(2, 3) { spoil_bytes(src, &mut bytes); }
            C03::Capsule { key: k, bytes: capped(bytes) }
        }

        6 => {
            let k = key(src);
            let message = blob(src, 40);
            let mut sign = match src.below(3) { 0 => blob(src, 80).bytes(), _ => refimpl::sign(k, &message.bytes()) };
            if src.chance(2, 3) { spoil_bytes(src, &mut sign); }
            C03::Signature { key: k, message, signature: capped(sign) }
        }

        7 => {
            let kind = src.below(3) as u8;
            let k = key(src);
            let mut bytes = refimpl::encrypt(kind, &blob(src, 64).bytes(), &[k as u8; 32]);
            spoil_bytes(src, &mut bytes);
            C03::Decrypt { kind, key: k, bytes: capped(bytes) }
        }

        8 => {
            let kind = 1 + src.below(2) as u8;
            let variant = src.below(180) as u32;
            let mut bytes = refimpl::compress(kind, variant, &blob(src, 300).bytes());
            if src.chance(1, 4) { bytes = blob(src, 60).bytes(); }
            spoil_bytes(src, &mut bytes);
            C03::Decompress { kind, bytes: capped(bytes) }
        }

        _ => {
            let (receiver, sender) = (key(src), key(src));
            let encoding = EncSpec::gen(src);
            let make = |src: &mut Src, data: &[u8]| {
                let shared = refimpl::shared_secret(sender, &refimpl::public_bytes(receiver), None);
                let mut data = refimpl::compress(encoding.compression, 5, data);
                if src.chance(1, 3) { spoil_bytes(src, &mut data); }
                let mut data = refimpl::encrypt(encoding.encryption, &data, &shared);
                if src.chance(1, 3) { spoil_bytes(src, &mut data); }
                let text = refimpl::b64(&data);
                if src.chance(1, 4) { spoil_text(src, &text) } else { text }
            };
            let data = blob(src, 60).bytes();
            let sign = match src.below(3) { 0 => blob(src, 70).bytes(), _ => refimpl::sign(sender, &data) };
            let content = make(src, &data);
            let sign = make(src, &sign);
            C03::Read { receiver, sender, content, sign, encoding }
        }
    }
}

fn c03_run(case: &C03, cx: &mut Cx) -> Verdict {
    cx.nontrivial();

    match case {
        C03::Document { kind, json } => {
            let decoded = decode_kind(*kind, json)?;
            cx.label(if decoded { "document accepted" } else { "document refused" });
        }

        C03::DocumentText { kind, text } => match serde_json::from_str::<Json>(text) {
            Ok(json) => { decode_kind(*kind, &json)?; cx.label("text accepted"); }
            Err(_) => cx.label("text refused"),
        },

        C03::Base64(text) => {
            let expected = refimpl::canonical_b64(text);
            let actual = guarded(|| base64_decode(text))?.ok();
            ensure!(actual == expected, "base64 {text:?} is decoded as {actual:?} instead of {expected:?}");

            let via = guarded(|| Encoding::Base64.decode(text))?.ok();
            ensure!(via == expected, "encoding decodes {text:?} as {via:?} instead of {expected:?}");

            if let Some(bytes) = actual {
                ensure!(&base64_encode(&bytes) == text, "{text:?} is encoded again as {:?}", base64_encode(&bytes));
                cx.label("base64 accepted");
            } else {
                cx.label("base64 refused");
            }

            // Keys in the text form
            if let Ok(key) = guarded(|| PublicKey::from_base64(text))? {
                guarded(|| key.to_base64())?;
            }
            if let Ok(key) = guarded(|| SecretKey::from_base64(text))? {
                // Short texts of a key are padded
                let again = guarded(|| SecretKey::from_base64(key.to_base64()))?;
                ensure!(again.as_ref().is_ok_and(|k| k == &key), "secret key {text:?} can't be read again");
            }
        }

        C03::Text(text) => {
            cx.label("name or address");
            guarded(|| { let _ = MessageEncoding::from_str(text).map(|v| v.to_string()).map_err(|e| e.to_string()); })?;
            guarded(|| { let _ = Encoding::from_str(text).map(|v| v.to_string()).map_err(|e| e.to_string()); })?;
            guarded(|| { let _ = Encryption::from_str(text).map(|v| v.to_string()).map_err(|e| e.to_string()); })?;
            guarded(|| { let _ = Compression::from_str(text).map(|v| v.to_string()).map_err(|e| e.to_string()); })?;
            guarded(|| { let _ = ClientType::from_str(text).map(|v| v.to_string()); })?;
            guarded(|| { let _ = Address::from_str(text).map(|v| format!("{v:?}")).map_err(|e| e.to_string()); })?;
            guarded(|| { let _ = PublicKey::from_base64(text).map(|v| v.to_base64()).map_err(|e| e.to_string()); })?;
        }

        C03::Bytes(blob) => {
            cx.label("bytes");
            let bytes = blob.bytes();
            if let Ok(key) = guarded(|| PublicKey::from_bytes(&bytes))? {
                let again = guarded(|| PublicKey::from_bytes(key.to_bytes()))?;
                ensure!(again.as_ref().is_ok_and(|k| k == &key), "public key {} can't be read again", hex(&bytes));
                cx.label("key accepted");
            }
            if let Ok(key) = guarded(|| SecretKey::deserialize(&bytes))? {
                // Short forms of a key are padded
                let again = guarded(|| SecretKey::deserialize(key.serialize()))?;
                ensure!(again.as_ref().is_ok_and(|k| k == &key), "secret key {} can't be read again", hex(&bytes));
            }
            if let Ok(token) = guarded(|| ConnectionToken::from_bytes(&bytes))? {
                let again = guarded(|| ConnectionToken::from_bytes(token.to_bytes()))?;
                ensure!(again.as_ref().is_ok_and(|t| t == &token), "token {} can't be read again", hex(&bytes));
                cx.label("token accepted");
            }
        }

        C03::Capsule { key, bytes } => {
            let bytes = bytes.bytes();
            match guarded(|| public(*key).decode_encapsulated_signature(&bytes))? {
                Ok(Some(_)) => cx.label("capsule accepted"),
                Ok(None) => cx.label("capsule not valid"),
                Err(_) => cx.label("capsule refused"),
            }
        }

        C03::Signature { key, message, signature } => {
            cx.label("signature");
            let _ = guarded(|| public(*key).verify_signature(message.bytes(), signature.bytes()))?;
        }

        C03::Decrypt { kind, key, bytes } => {
            cx.label("decrypt");
            let encryption = EncSpec { encryption: *kind, compression: 0 }.build().encryption;
            let _ = guarded(|| encryption.decrypt(bytes.bytes(), &[*key as u8; 32]))?;
        }

        C03::Decompress { kind, bytes } => {
            let compression = EncSpec { encryption: 0, compression: *kind }.build().compression;
            match guarded(|| compression.decompress(bytes.bytes()))? {
                Ok(_) => cx.label("decompressed"),
                Err(_) => cx.label("decompression refused"),
            }
        }

        C03::Read { receiver, sender, content, sign, encoding } => {
            let message = Message { content: content.clone(), sign: sign.clone(), encoding: encoding.build() };
            match guarded(|| message.read(&secret(*receiver), &public(*sender)))? {
                Ok(_) => cx.label("message read"),
                Err(_) => cx.label("message refused"),
            }
        }
    }

    Ok(())
}

pub fn c03() -> Check {
    Def {
        id: "C03",
        level: "exploration",
        rule: "every input is a valid one spoiled at random places, or has an expected look",
        assumptions: &[
            "inputs of decompressors are under 1 KiB: memory use on hostile streams is not judged",
            "keys given as longer point forms need not be encoded to the same text",
        ],
        quick: 150_000,
        thorough: 6_000_000,
        shards: 8,
        gen: c03_gen,
        run: c03_run,
    }.build()
}

// ----------------------------------------------------------------------- C08

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C08 {
    pub text: String,
    pub encoding: EncSpec,
}

fn c08_gen(src: &mut Src) -> C08 {
    let base = label_text(src);

    let text = match src.below(6) {
        0..=2 => base,
        3 => spoil_text(src, &base),
        4 => match src.below(5) {
            0 => base.to_uppercase(),
            1 => format!(" {base}"),
            2 => format!("{base}\n"),
            3 => format!("{base}/"),
            _ => format!("/{base}"),
        },
        _ => text(src, 20),
    };

    C08 { text, encoding: EncSpec::gen(src) }
}

fn c08_run(case: &C08, cx: &mut Cx) -> Verdict {
    let t = case.text.as_str();

    let encryption = match t {
        "none" | "plain" => Some(Encryption::None),
        "aes256-gcm" => Some(Encryption::Aes256Gcm),
        "chacha20-poly1305" => Some(Encryption::ChaCha20Poly1305),
        _ => None,
    };

    let compression_of = |t: &str| match t {
        "none" | "plain" => Some(Compression::None),
        "deflate" => Some(Compression::Deflate),
        "brotli" => Some(Compression::Brotli),
        _ => None,
    };

    let encryption_of = |t: &str| match t {
        "none" | "plain" => Some(Encryption::None),
        "aes256-gcm" => Some(Encryption::Aes256Gcm),
        "chacha20-poly1305" => Some(Encryption::ChaCha20Poly1305),
        _ => None,
    };

    let encoding_of = |t: &str| (t == "base64").then_some(Encoding::Base64);

    let kind = TYPE_NAMES.iter().position(|n| *n == t).map(|i| TYPES[i]);

    let parts: Vec<&str> = t.split('/').collect();

    let message = match parts[..] {
        [a] => encoding_of(a).map(|e| MessageEncoding::new(e, Encryption::None, Compression::None)),
        [a, b] => encoding_of(a).and_then(|e| {
            encryption_of(b).map(|x| MessageEncoding::new(e, x, Compression::None))
                .or(compression_of(b).map(|x| MessageEncoding::new(e, Encryption::None, x)))
        }),
        [a, b, c] => match (encoding_of(a), encryption_of(b), compression_of(c)) {
            (Some(a), Some(b), Some(c)) => Some(MessageEncoding::new(a, b, c)),
            _ => None,
        },
        _ => None,
    };

    macro_rules! same {
        ($t:ty, $expected:expr) => {{
            let actual = guarded(|| <$t>::from_str(t))?.ok();
            ensure!(actual == $expected, "{t:?} is parsed as {} {actual:?} instead of {:?}", stringify!($t), $expected);
        }}
    }

    same!(Encoding, encoding_of(t));
    same!(Encryption, encryption);
    same!(Compression, compression_of(t));
    same!(ClientType, kind);
    same!(MessageEncoding, message);

    cx.label(match (message.is_some(), parts.len()) {
        (true, 1) => "one part",
        (true, 2) => "two parts",
        (true, _) => "three parts",
        _ if encryption.is_some() || compression_of(t).is_some() || kind.is_some() => "other name",
        _ => "not a name",
    });

    // In a document
    let doc = json!({ "content": "", "sign": "", "encoding": t });
    let actual = guarded(|| Message::from_json(&doc))?.ok().map(|m| m.encoding);
    ensure!(actual == message, "message with the encoding {t:?} has {actual:?} instead of {message:?}");

    let doc = json!({ "type": t, "address": null });
    let actual = guarded(|| ClientInfo::from_json(&doc))?.ok().map(|i| i.client_type);
    ensure!(actual == kind, "client of the type {t:?} is {actual:?} instead of {kind:?}");

    let doc = json!({ "public_key": refimpl::public_b64(0), "type": t });
    let actual = guarded(|| LookupRequestBody::from_json(&doc))?.ok().map(|i| i.client_type);
    ensure!(actual == kind.map(Some), "lookup of the type {t:?} is {actual:?} instead of {kind:?}");

    // Printing
    let value = case.encoding.build();
    let label = refimpl::encoding_label(case.encoding);

    ensure!(value.to_string() == label, "{value:?} is printed as {value} instead of {label}");
    ensure!(MessageEncoding::from_str(&label).ok() == Some(value), "{label} is parsed as {:?}", MessageEncoding::from_str(&label));

    let (e, c) = (case.encoding.encryption as usize % 3, case.encoding.compression as usize % 3);
    ensure!(value.encryption.to_string() == refimpl::ENCRYPTION_NAMES[e], "{:?} is printed as {}", value.encryption, value.encryption);
    ensure!(value.compression.to_string() == refimpl::COMPRESSION_NAMES[c], "{:?} is printed as {}", value.compression, value.compression);
    ensure!(value.encoding.to_string() == "base64", "base64 is printed as {}", value.encoding);

    for (name, kind) in TYPE_NAMES.iter().zip(TYPES) {
        ensure!(&kind.to_string() == name, "{kind:?} is printed as {kind}");
    }

    // Long form selects the same algorithms
    let long = format!("base64/{}/{}", refimpl::ENCRYPTION_NAMES[e], refimpl::COMPRESSION_NAMES[c]);
    ensure!(MessageEncoding::from_str(&long).ok() == Some(value), "{long} is parsed as {:?}", MessageEncoding::from_str(&long));

    if message.is_some() || encryption.is_some() || kind.is_some() || t.contains("base64") {
        cx.nontrivial();
    }

    Ok(())
}

pub fn c08() -> Check {
    Def {
        id: "C08",
        level: "exploration",
        rule: "the text is a name, or contains one",
        assumptions: &[],
        quick: 120_000,
        thorough: 3_000_000,
        shards: 8,
        gen: c08_gen,
        run: c08_run,
    }.build()
}

// ----------------------------------------------------------------------- C31

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C31 {
    Record(Record),
    Public(KeyId),
    Secret(KeyId),
    Token(TokenSpec),
    Encoding(EncSpec),
    Level(u8),
    Type(u8),
    Status(u8),
    Generic { key: KeyId, seed: u64, text: String, numbers: Vec<u64>, error: Option<(u8, String)> },
    /// Spoiled serialised form given back to the deserialiser.
    Spoiled { kind: u8, json: Json },
}

fn same_after_serde<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(value: &T) -> Verdict {
    let text = guarded(|| serde_json::to_string(value))?.map_err(|err| Fail(format!("{} can't be serialised: {err}", short(value))))?;

    match guarded(|| serde_json::from_str::<T>(&text))? {
        Ok(back) => ensure!(&back == value, "{} became {} through {}", short(value), short(&back), short(&text)),
        Err(err) => fail!("{} can't be deserialised from {}: {err}", short(value), short(&text)),
    }

    let json = guarded(|| serde_json::to_value(value))?.map_err(|err| Fail(err.to_string()))?;

    match guarded(|| serde_json::from_value::<T>(json.clone()))? {
        Ok(back) => ensure!(&back == value, "{} became {} through {}", short(value), short(&back), short(&json)),
        Err(err) => fail!("{} can't be deserialised from {}: {err}", short(value), short(&json)),
    }

    // Streams can't lend their text
    match guarded(|| serde_json::from_reader::<_, T>(text.as_bytes()))? {
        Ok(back) => ensure!(&back == value, "{} became {} through a stream", short(value), short(&back)),
        Err(err) => fail!("{} can't be deserialised from a stream: {err}", short(value)),
    }

    // A format which doesn't describe itself
    let bytes = guarded(|| binary::to_bytes(value))?.map_err(|err| Fail(format!("{} can't be serialised in binary: {err}", short(value))))?;

    match guarded(|| binary::from_bytes::<T>(&bytes))? {
        Ok(back) => ensure!(&back == value, "{} became {} through binary", short(value), short(&back)),
        Err(err) => fail!("{} can't be deserialised from binary: {err}", short(value)),
    }

    // Spoiled, it's some value or an error
    if !bytes.is_empty() {
        let at = bytes.iter().fold(7, |h: usize, b| h.wrapping_mul(31).wrapping_add(*b as usize)) % bytes.len();
        let mut spoiled = bytes.clone();

        spoiled[at] ^= 1 << (at % 8);

        let _ = guarded(|| binary::from_bytes::<T>(&spoiled))?;
        let _ = guarded(|| binary::from_bytes::<T>(&bytes[..at]))?;
    }

    Ok(())
}

fn deserialise_kind(kind: u8, json: &Json) -> Result<bool, Fail> {
    macro_rules! try_type { ($t:ty) => {
        match guarded(|| serde_json::from_value::<$t>(json.clone()))? {
            Ok(value) => { same_after_serde(&value)?; true }
            Err(_) => false,
        }
    } }

    Ok(match kind % 14 {
        0 => try_type!(SecretKey),
        1 => try_type!(PublicKey),
        2 => try_type!(ConnectionCertificate),
        3 => try_type!(Client),
        4 => try_type!(MessageInfo),
        5 => try_type!(SendRequest),
        6 => try_type!(LookupResponse),
        7 => try_type!(InfoResponse),
        8 => try_type!(MessageEncoding),
        9 => try_type!(ConnectRequest),
        10 => try_type!(PollResponse),
        11 => try_type!(ResponseStatus),
        12 => try_type!(ServersResponse),
        _ => try_type!(AnnounceRequest),
    })
}

fn c31_gen(src: &mut Src) -> C31 {
    match src.weighted(&[10, 2, 3, 2, 1, 1, 1, 1, 3, 5]) {
        0 => C31::Record(Record::gen(src)),
        1 => C31::Public(key(src)),
        2 => C31::Secret(key(src)),
        3 => C31::Token(TokenSpec::gen(src)),
        4 => C31::Encoding(EncSpec::gen(src)),
        5 => C31::Level(src.below(3) as u8),
        6 => C31::Type(src.below(4) as u8),
        7 => C31::Status(src.below(9) as u8),
        8 => C31::Generic {
            key: key(src),
            seed: num(src),
            text: text(src, 40),
            numbers: src.vec(0, 4, num),
            error: if src.bool() { Some((src.below(8) as u8, text(src, 30))) } else { None },
        },
        _ => {
            let kind = src.below(14) as u8;
            let k = key(src);
            let (client, server) = (ClientSpec::gen(src), ServerSpec::gen(src));
            let record = match kind {
                2 => Record::Cert(client.cert),
                3 => Record::Client(client),
                4 => Record::MessageInfo(MessageInfoSpec::gen(src)),
                5 => Record::Request(ReqSpec { key: k, seed: num(src), sign: SignSpec::By(k), body: Body::Send { sender: SenderSpec { client, server }, receiver: k, channel: text(src, 10), message: MessageSpec::gen(src, 20) } }),
                6 => Record::Response(RespSpec { answer: Answer::Remote { client, server, available: true }, key: k, seed: num(src), sign: SignSpec::By(k), error: None }),
                7 => Record::ServerInfo(ServerInfoSpec { key: k, seed: num(src), sign: SignSpec::By(k) }),
                9 => Record::Request(ReqSpec { key: k, seed: num(src), sign: SignSpec::By(k), body: Body::Connect { cert: client.cert, info: client.info } }),
                10 => Record::Response(RespSpec { answer: Answer::Poll { messages: vec![MessageInfoSpec::gen(src)], remaining: 1 }, key: k, seed: num(src), sign: SignSpec::By(k), error: None }),
                12 => Record::Servers(vec![server]),
                13 => Record::Request(ReqSpec { key: k, seed: num(src), sign: SignSpec::By(k), body: Body::AnnounceClient { client, server } }),
                _ => Record::Server(server),
            };

            let mut json = match kind {
                0 => json!({ "0": scalar(k).to_vec() }),
                1 => json!(hex(&refimpl::public_bytes(k))),
                8 => json!({ "encoding": "Base64", "encryption": "None", "compression": "Brotli" }),
                11 => json!("Success"),
                _ => with_value!(&record, v => serde_json::to_value(v).unwrap_or(Json::Null), clients _v => Json::Null),
            };

            if src.chance(1, 10) {
                json = any_json(src, 3);
            } else if kind == 0 {
                // Too long, too short, zero, above the order, wrong element types
                let mut bytes = scalar(k).to_vec();
                match src.below(5) {
                    0 => bytes = vec![0; 32],
                    1 => bytes = vec![255; 32],
                    2 => bytes.truncate(src.upto(32)),
                    3 => bytes.extend(vec![1; src.upto(40)]),
                    _ => (),
                }
                json = match src.below(5) {
                    0 => json!({ "0": bytes }),
                    1 => json!([bytes]),
                    2 => json!(bytes),
                    3 => json!({ "0": bytes.iter().map(|b| *b as i64 - 128).collect::<Vec<_>>() }),
                    _ => json!({ "0": refimpl::b64(&bytes) }),
                };
            } else if let Json::String(t) = &json {
                json = json!(spoil_text(src, t));
            } else {
                spoil_json(src, &mut json);
            }

            C31::Spoiled { kind, json }
        }
    }
}

fn c31_run(case: &C31, cx: &mut Cx) -> Verdict {
    cx.nontrivial();

    match case {
        C31::Record(record) => {
            cx.label(record.name());
            with_value!(record, v => same_after_serde(&v), clients _v => Ok(()))
        }
        C31::Public(k) => { cx.label("public key"); same_after_serde(&public(*k))?; same_after_serde(&Some(vec![public(*k)])) }
        C31::Secret(k) => { cx.label("secret key"); same_after_serde(&secret(*k))?; same_after_serde(&Some(vec![secret(*k)])) }
        C31::Token(t) => { cx.label("token"); same_after_serde(&t.build()) }
        C31::Encoding(e) => {
            cx.label("encoding");
            let e = e.build();
            same_after_serde(&e)?;
            same_after_serde(&e.encoding)?;
            same_after_serde(&e.encryption)?;
            same_after_serde(&e.compression)
        }
        C31::Level(l) => { cx.label("level"); same_after_serde(&LEVELS[*l as usize % 3]) }
        C31::Type(t) => { cx.label("type"); same_after_serde(&client_type(*t)) }
        C31::Status(s) => { cx.label("status"); same_after_serde(&FAILURES.get(*s as usize).map(|f| f.0).unwrap_or(ResponseStatus::Success)) }
        C31::Generic { key, seed, text, numbers, error } => {
            cx.label("generic");
            let req = ReqSpec { key: *key, seed: *seed, sign: SignSpec::By(*key), body: Body::Disconnect };
            let resp = RespSpec { answer: Answer::Send, key: *key, seed: *seed, sign: SignSpec::By(*key), error: error.clone() };
            same_after_serde(&req.wrap(text.clone()))?;
            same_after_serde(&req.wrap(numbers.clone()))?;
            same_after_serde(&resp.wrap(text.clone()))?;
            same_after_serde(&resp.wrap(numbers.clone()))
        }
        C31::Spoiled { kind, json } => {
            let ok = deserialise_kind(*kind, json)?;
            cx.label(if ok { "spoiled, accepted" } else { "spoiled, refused" });
            Ok(())
        }
    }
}

pub fn c31() -> Check {
    Def {
        id: "C31",
        level: "exploration",
        rule: "every case serialises a generated value, or deserialises a spoiled form",
        assumptions: &["JSON is the serde format: text, value tree and stream"],
        quick: 80_000,
        thorough: 2_000_000,
        shards: 8,
        gen: c31_gen,
        run: c31_run,
    }.build()
}
