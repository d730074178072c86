//! C27: details and lobby data.  The oracle decodes with the committed layout and maps the value
//! tree to the JSON the neutral value must serialise to; the field names are the protocol's
//! without their prefix.
use crate::grammar::*;
use crate::neutral::{enc, eq, fix_text, text};
use crate::rng::Rng;
use crate::{Prop, Verdict};
use s2protocol::InitData;
use s2protocol::details::Details;
use s2protocol::versions::protocol87702::{bit_packed, byte_aligned};
use serde_json::{Value as J, json};

fn raw(v: &V) -> &Vec<u8> {
    match v {
        V::Bytes(b) => b,
        V::Wrap(_, v) | V::Some(v) => raw(v),
        v => panic!("{v:?}"),
    }
}
fn digits(v: &V) -> J {
    json!(raw(v).iter().map(|b| format!("{b:02x}")).collect::<String>())
}
fn items(v: &V) -> &[V] {
    match v {
        V::Arr(vs) => vs,
        V::Wrap(_, v) | V::Some(v) => items(v),
        V::None => &[],
        v => panic!("{v:?}"),
    }
}
fn rank(v: &V) -> usize {
    let V::Choice(_, i, _) = v else { panic!("{v:?}") };
    *i
}
/// the neutral form; None where some text is not UTF-8
fn neutral(key: &str, v: &V, lobby: bool) -> Option<J> {
    Some(match (key, v) {
        ("m_cache_handles", v) => J::Array(items(v).iter().map(digits).collect()),
        ("m_player_list" | "m_mod_paths", v) => J::Array(items(v).iter().map(|x| neutral("", x, lobby)).collect::<Option<_>>()?),
        ("m_clan_logo", V::Some(v)) => json!(raw(v)),
        ("m_allowed_controls" | "m_allowed_ai_builds", v) => json!(raw(v)),
        ("m_race_preference" | "m_team_preference" | "m_color_pref" | "m_race_pref", V::Struct(_, f)) => neutral("", &f[0], lobby)?,
        (_, V::Int(i)) => json!(*i as i64),
        (_, V::Bool(b)) => json!(b),
        (_, v @ V::Bytes(_)) => json!(text(v)?),
        (_, V::None) => J::Null,
        (_, V::Some(v)) | (_, V::Wrap(_, v)) => neutral(key, v, lobby)?,
        (_, V::Arr(vs)) => J::Array(vs.iter().map(|x| neutral("", x, lobby)).collect::<Option<_>>()?),
        (_, V::Struct(t, vs)) => {
            let Def::Struct { fields, .. } = &grammar().types[*t].def else { panic!() };
            let mut o = serde_json::Map::new();
            for (f, x) in fields.iter().zip(vs) {
                // the account's name is not kept
                if !(v.type_name() == "GameSToonNameDetails" && f.n == "m_name") {
                    o.insert(f.n.strip_prefix("m_").unwrap().into(), neutral(&f.n, x, lobby)?);
                }
            }
            J::Object(o)
        }
        (_, v @ V::Choice(..)) => match v.type_name() {
            "EObserve" => json!(rank(v)),
            "GameEGameSpeed" if lobby => json!(rank(v)),
            "GameEGameSpeed" | "GameEResultDetails" => json!(v.variant().0.strip_prefix('E').unwrap()),
            _ => json!(v.variant().0),
        },
        (k, v) => panic!("{k} {v:?}"),
    })
}
fn verdict<T: serde::Serialize, E: std::fmt::Debug>(got: Result<T, E>, want: Option<J>) -> Verdict {
    match (got, want) {
        (Ok(g), Some(w)) => {
            let g = serde_json::to_value(&g).map_err(|e| e.to_string())?;
            if eq(&g, &w) { Ok(true) } else { Err(differ("", &g, &w)) }
        }
        (Ok(_), None) => Err("accepted a text that is not UTF-8".into()),
        (Err(_), None) => Ok(false),
        (Err(e), Some(_)) => Err(format!("translation failed: {e:?}")),
    }
}
/// the first place where two values differ
pub fn differ(at: &str, g: &J, w: &J) -> String {
    match (g, w) {
        (J::Object(a), J::Object(b)) => {
            for (k, x) in b {
                match a.get(k) {
                    None => return format!("{at}.{k} is missing"),
                    Some(y) if y != x => return differ(&format!("{at}.{k}"), y, x),
                    _ => {}
                }
            }
        }
        (J::Array(a), J::Array(b)) if a.len() == b.len() => {
            for (i, (y, x)) in a.iter().zip(b).enumerate() {
                if x != y {
                    return differ(&format!("{at}[{i}]"), y, x);
                }
            }
        }
        _ => {}
    }
    format!("{at} is {g}, contract says {w}")
}
fn generate(r: &mut Rng, i: usize) -> J {
    if i % 2 == 0 {
        let t = ty_id(87702, true, "GameSDetails");
        let mut v = gen_ty(t, r, &mut 14);
        fix_text(&mut v, r);
        let mut e = enc(r);
        e.ba_type(t, &v);
        json!({"what": "details", "hex": hex(&e.o)})
    } else {
        let t = ty_id(87702, false, "ReplaySInitData");
        let mut v = gen_ty(t, r, &mut 20);
        fix_text(&mut v, r);
        let mut o = BitOut::default();
        o.ty(t, &v, r);
        o.align(0);
        json!({"what": "lobby", "hex": hex(&o.o)})
    }
}
fn run(c: &J) -> Verdict {
    let d = unhex(c["hex"].as_str().unwrap());
    if c["what"] == "details" {
        let Ok((v, _)) = ref_ba_type(ty_id(87702, true, "GameSDetails"), &d) else { return Ok(false) };
        let Ok((_, s)) = byte_aligned::GameSDetails::parse(&d) else { return Ok(false) };
        let mut want = neutral("", &v, false);
        if let Some(w) = &mut want {
            w["ext_fs_id"] = json!(0);
            w["ext_datetime"] = json!("1970-01-01T00:00:00");
        }
        verdict(Details::try_from(s), want)
    } else {
        let Ok(v) = ref_bp_type(ty_id(87702, false, "ReplaySInitData"), &mut Bits { d: &d, pos: 0 }) else { return Ok(false) };
        let Ok((_, s)) = bit_packed::ReplaySInitData::parse((&d, 0)) else { return Ok(false) };
        let mut want = neutral("", &v, true);
        if let Some(w) = &mut want {
            for (k, x) in [("ext_fs_id", json!(0)), ("ext_fs_sha256", json!("")), ("ext_fs_file_name", json!("")), ("version", json!(0))] {
                w[k] = x;
            }
        }
        verdict(InitData::try_from(s), want)
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "encoded details (some with shuffled fields) and lobby data in turn, with random players, slots, users, handles and texts (a tenth not UTF-8), decoded by the crate and translated; the serialised neutral value is compared part by part with the one derived from the committed layout",
        n: (30_000, 300_000),
        generate,
        run,
    }]
}
