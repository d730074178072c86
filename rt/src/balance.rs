//! C31: balance data read from and written to trees in a scratch directory.
use crate::files::Tree;
use crate::rng::Rng;
use crate::{Prop, Verdict};
use s2protocol::game_events::VersionedBalanceUnit;
use s2protocol::game_events::ability::balance_data::*;
use serde_json::{Map, Value as J, json};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

type Found = BTreeMap<(u32, String), J>;

// ------------------------------------------------------------------ units, in the form they are written
#[derive(Clone, Copy, PartialEq)]
enum K {
    S,
    U,
    U16,
    I,
    F,
    OS,
    OU,
    OU16,
    OI,
    OF,
    /// an element: present, optional, repeated
    One(&'static [(&'static str, K)]),
    Opt(&'static [(&'static str, K)]),
    Many(&'static [(&'static str, K)]),
}
use K::*;
type Fields = &'static [(&'static str, K)];
const META: Fields = &[("@name", S), ("@tooltip", S), ("@icon", OS), ("@race", OS), ("@hotkey", OS), ("@source", OS), ("@index", OU), ("@type", OS)];
const MAX: Fields = &[("@start", U), ("@max", U)];
const LIFE: Fields = &[("@start", U), ("@max", U), ("@regenRate", OF)];
const SHIELDS: Fields = &[("@start", U), ("@max", U), ("@regenRate", F), ("@delay", OF)];
const SHORT: Fields = &[("@id", S), ("@name", S)];
const REQ: Fields = &[("unit", Many(SHORT))];
const COST: Fields = &[("@minerals", OU), ("@vespene", OU), ("@supply", OF), ("@time", OF), ("@energy", OU), ("@cooldown", OF), ("@life", OU)];
const RESEARCHES: Fields = &[("upgrade", Many(&[("@id", S), ("@ability", U16), ("@index", I), ("meta", One(META)), ("cost", One(COST))]))];
const MOVEMENT: Fields = &[("@type", S), ("@speed", F), ("@acceleration", F), ("@deceleration", F), ("@turnRate", OF)];
const SCORE: Fields = &[("@build", OU), ("@kill", OU)];
const MISC: Fields = &[("@radius", OF), ("@cargoSize", OU), ("@footprint", OS), ("@sightRadius", OF), ("@supply", OF), ("@range", OF), ("@speed", OF), ("@targets", OS), ("@count", OU), ("@cargoCapacity", OU)];
const BONUS: Fields = &[("@damage", U), ("@max", U), ("@type", OS)];
const EFFECT: Fields = &[("@id", S), ("@index", U), ("@radius", F), ("@damage", U), ("@max", U), ("@death", S), ("@kind", S), ("bonus", Opt(BONUS))];
const WEAPONS: Fields = &[("weapon", Many(&[("@id", S), ("@index", U), ("meta", One(META)), ("misc", Opt(MISC)), ("score", Opt(EFFECT))]))];
const ABILITIES: Fields = &[("ability", Many(&[("@id", S), ("@index", OU16), ("command", Many(&[("@id", OS), ("@index", I), ("meta", One(META))]))]))];
const REFS: Fields = &[("unit", Many(&[("@id", S), ("@name", OS), ("@ability", OU16), ("@index", OI), ("meta", Opt(META)), ("cost", Opt(COST)), ("requires", One(REQ))]))];
const LEVEL: Fields = &[("@id", S), ("@index", U), ("meta", One(META)), ("requires", Many(&[("unit", Many(SHORT)), ("upgrade", Many(SHORT))])), ("cost", One(COST))];
const UNIT: Fields = &[
    ("@id", S),
    ("meta", One(META)),
    ("life", One(LIFE)),
    ("shields", Opt(SHIELDS)),
    ("armor", One(MAX)),
    ("shieldArmor", One(MAX)),
    ("requires", One(REQ)),
    ("cost", Opt(COST)),
    ("researches", Opt(RESEARCHES)),
    ("movement", Opt(MOVEMENT)),
    ("score", One(SCORE)),
    ("misc", One(MISC)),
    ("producer", Opt(SHORT)),
    ("attributes", One(&[("attribute", Many(&[("@type", OS)]))])),
    ("strengths", One(REQ)),
    ("weaknesses", One(REQ)),
    ("weapons", One(WEAPONS)),
    ("abilities", One(ABILITIES)),
    ("builds", One(REFS)),
    ("trains", One(REFS)),
    ("upgrades", One(&[("upgrade", Many(&[("@id", S), ("level", Many(LEVEL))]))])),
];
const WORDS: &[&str] = &["Probe", "Zealot", "7", "", "a&b <c> \"d\" 'e'", "\u{e9}\u{4e2d}", "Ground", "passive", "btn-command-stop", "true", "null", "1.0", "x.json", "]]>", "&amp;"];
fn float(r: &mut Rng) -> J {
    json!(f64::from(match r.below(6) {
        0 => 0.0,
        1 => r.int(0, 1000) as f32,
        2 => -(r.below(100) as f32),
        3 => 60.2,
        4 => r.below(100_000) as f32 / 8192.0,
        _ => 2.9531,
    }))
}
fn fields(fs: Fields, r: &mut Rng, budget: &mut usize) -> J {
    let mut o = Map::new();
    let few = |r: &mut Rng| r.chance(1, 2);
    for (n, k) in fs {
        let v = match *k {
            S => json!(r.pick(WORDS)),
            OS => if few(r) { json!(r.pick(WORDS)) } else { J::Null },
            U => json!(r.int(0, u32::MAX as i128) as u32),
            OU => if few(r) { json!(r.int(0, u32::MAX as i128) as u32) } else { J::Null },
            U16 => json!(r.int(0, u16::MAX as i128) as u16),
            OU16 => if few(r) { json!(r.int(0, u16::MAX as i128) as u16) } else { J::Null },
            I => json!(r.int(-5, i64::MAX as i128) as i64),
            OI => if few(r) { json!(r.int(-5, 100) as i64) } else { J::Null },
            F => float(r),
            OF => if few(r) { float(r) } else { J::Null },
            One(f) => fields(f, r, budget),
            Opt(f) => if few(r) { fields(f, r, budget) } else { J::Null },
            Many(f) => {
                let n = if *budget == 0 { 0 } else { r.below(4).min(*budget) };
                *budget -= n;
                J::Array((0..n).map(|_| fields(f, r, budget)).collect())
            }
        };
        o.insert(n.to_string(), v);
    }
    J::Object(o)
}
fn unit(r: &mut Rng, id: &str) -> J {
    let mut budget = if r.chance(1, 3) { 0 } else { r.below(25) };
    let mut u = fields(UNIT, r, &mut budget);
    u["@id"] = json!(id);
    u
}
/// the same unit with what may be left out left out (by a generator of its own), and with what a reader ignores
fn sparse(v: &J, r: &mut Rng, top: bool) -> J {
    match v {
        J::Object(o) => {
            let mut m = Map::new();
            for (k, x) in o {
                let tag = top && matches!(k.as_str(), "requires" | "attributes" | "strengths" | "weaknesses" | "weapons" | "abilities" | "builds" | "trains" | "upgrades");
                let bare = tag && x.as_object().unwrap().values().all(|a| a.as_array().is_some_and(|a| a.is_empty()));
                if (x.is_null() || bare) && r.chance(1, 2) {
                    continue;
                }
                m.insert(k.clone(), sparse(x, r, false));
            }
            if r.chance(1, 20) {
                m.insert("@zzz".into(), json!("1"));
            }
            J::Object(m)
        }
        J::Array(a) => J::Array(a.iter().map(|x| sparse(x, r, false)).collect()),
        J::Number(n) if n.is_f64() && n.as_f64().unwrap().fract() == 0.0 && n.as_f64().unwrap().abs() < 1e6 && r.chance(1, 3) => json!(n.as_f64().unwrap() as i64),
        x => x.clone(),
    }
}
fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;").replace('\n', "&#10;").replace('\r', "&#13;").replace('\t', "&#9;")
}
fn xml(tag: &str, v: &J, out: &mut String) {
    let o = v.as_object().unwrap();
    out.push_str(&format!("<{tag}"));
    for (k, x) in o.iter().filter(|(k, x)| k.starts_with('@') && !x.is_null()) {
        let t = match x {
            J::String(s) => esc(s),
            x => x.to_string(),
        };
        out.push_str(&format!(" {}=\"{t}\"", &k[1..]));
    }
    out.push('>');
    for (k, x) in o.iter().filter(|(k, _)| !k.starts_with('@')) {
        match x {
            J::Null => {}
            J::Array(a) => a.iter().for_each(|e| xml(k, e, out)),
            x => xml(k, x, out),
        }
    }
    out.push_str(&format!("</{tag}>"));
}

// ------------------------------------------------------------------ cases
const DIRS: &[&str] = &["94137", "95248", "7", "007", "+12", "0", "4294967295", "4294967296", "-1", "", "x", "94137a", " 7", "7 ", "1e3", "old", "\u{663}", "9.4", "94137.json"];
const NAMES: &[&str] = &["Probe", "Zealot", "SCV", "Overlord", "a b", "\u{e9}", "Probe.old", "x.y.z", "json", ".hidden", "Spine Crawler (Uprooted)", "PROBE", "probe", "a.json b", "json.json.x"];
fn plain(w: String, long: usize) -> String {
    let w: String = w.chars().filter(|c| !"/\0".contains(*c)).take(long).collect();
    if w.is_empty() || w == "." || w == ".." { "q".into() } else { w }
}
fn name(r: &mut Rng) -> String {
    let w = plain(crate::sm::name(r, NAMES), 60);
    w.trim_end_matches(".json").to_string()
}
fn generate(r: &mut Rng, k: usize) -> J {
    if k % 6000 == 0 {
        return json!({"mode": "included", "ops": []});
    }
    let mode = *r.pick(&["json", "xml", "round", "round"]);
    let n = r.below(9);
    let n = r.size(n, 200);
    let mut ops = vec![];
    let mut dirs: Vec<String> = vec![];
    for _ in 0..n {
        if dirs.is_empty() || r.chance(1, 3) {
            let w = r.word();
            let w = w.unwrap_or_else(|| match r.below(5) {
                0 | 1 => r.int(0, u32::MAX as i128).to_string(),
                2 => {
                    // a number with something about it
                    let n = r.int(0, u32::MAX as i128).to_string();
                    let n = if r.chance(1, 3) { r.near(&n) } else { n };
                    let (a, b) = *r.pick(&[("v", ""), ("", "-backup"), ("", "_1"), ("", ".1"), ("", ".0"), ("old-", ""), ("", " (2)"), ("", "~"), ("base", ""), ("0x", ""), ("", ",0"), ("#", ""), ("", "-7"), ("", "u32"), ("[", "]"), ("", ";x"), ("", "+")]);
                    format!("{a}{n}{b}")
                }
                _ => r.pick(DIRS).to_string(),
            });
            dirs.push(plain(w, 40));
        }
        let (d, u) = (r.pick(&dirs).clone(), name(r));
        if mode == "round" {
            let v = *r.pick(&[94137u32, 95248, 7, 0, u32::MAX]);
            let v = if r.chance(1, 3) { r.int(0, u32::MAX as i128) as u32 } else { v };
            ops.push(json!({"version": v, "name": if r.chance(1, 40) { String::new() } else { u.clone() }, "unit": unit(r, &u)}));
            continue;
        }
        let sub = if mode == "json" {
            if r.chance(1, 12) { r.pick(&["/deeper", "/../loose"]).to_string() } else { String::new() }
        } else if r.chance(1, 10) {
            r.pick(&["", "/balancedata", "/BalanceData/deeper", "/../loose"]).to_string()
        } else {
            "/BalanceData".into()
        };
        let ending = if mode == "json" { *r.pick(&[".json", ".json", ".json", ".json", "", ".JSON", ".txt"]) } else { *r.pick(&[".xml", ".xml", ".xml", ".xml", "", ".XML", ".txt", ".xml.bak", "xml"]) };
        let at = format!("{d}{sub}/{u}{ending}");
        if r.chance(1, 25) {
            ops.push(json!({"dir": at}));
        } else if r.chance(1, 40) {
            ops.push(json!({"link": at, "to": *r.pick(&["../94137", "Probe.json", "nowhere", "Probe.xml"])}));
        } else if r.chance(1, if mode == "json" { 60 } else { 15 }) {
            ops.push(json!({"file": at, "text": *r.pick(&["", "x", "{}", "<unit id=\"x\"/>", "<unit", "[1]", "\u{1}", "null", "\u{fffd}"])}));
        } else {
            let id = if r.chance(1, 3) { u.clone() } else { r.pick(NAMES).to_string() };
            ops.push(json!({"file": at, "unit": unit(r, &id), "form": r.u64() >> 12}));
        }
    }
    let old = if r.chance(1, 3) { *r.pick(&["94137/Probe.json", "94137/Zealot.json", "94137/SCV.json", "readme.txt", "7/Probe.json", "old/x.json", "94137"]) } else { "" };
    let root = match r.below(16) {
        0 => "missing",
        1 => "file",
        2 | 3 if mode == "round" => "a/b/c",
        _ => "",
    };
    json!({"mode": mode, "root": root, "ops": ops, "old": old})
}

// ------------------------------------------------------------------ oracle
fn number(s: &str) -> Option<u32> {
    let t = s.strip_prefix('+').unwrap_or(s);
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    t.bytes().try_fold(0u64, |a, b| (a * 10 + u64::from(b - b'0') <= u64::from(u32::MAX)).then(|| a * 10 + u64::from(b - b'0'))).map(|v| v as u32)
}
type Known = BTreeMap<std::path::PathBuf, J>;
fn known(k: &Known, p: &Path) -> Option<J> {
    // a link is what it points to
    k.get(p).or_else(|| std::fs::canonicalize(p).ok().and_then(|q| k.get(&q))).cloned()
}
/// None: reading fails
fn want_json(root: &Path, k: &Known) -> Option<Found> {
    let mut m = Found::new();
    for d in std::fs::read_dir(root).ok()? {
        let d = root.join(d.unwrap().file_name());
        if !std::fs::symlink_metadata(&d).unwrap().is_dir() {
            continue;
        }
        let Some(v) = number(d.file_name().unwrap().to_str().unwrap()) else { continue };
        for f in std::fs::read_dir(&d).unwrap() {
            let f = d.join(f.unwrap().file_name());
            if !std::fs::symlink_metadata(&f).unwrap().is_file() {
                continue;
            }
            let n = f.file_name().unwrap().to_str().unwrap().to_string();
            m.insert((v, n.strip_suffix(".json").unwrap_or(&n).to_string()), k.get(&f)?.clone());
        }
    }
    Some(m)
}
/// None: a file that is no text
fn want_xml(root: &Path, k: &Known) -> Option<Found> {
    let mut m = Found::new();
    if !root.is_dir() {
        return Some(m);
    }
    for d in std::fs::read_dir(root).unwrap() {
        let d = root.join(d.unwrap().file_name());
        let Some(v) = number(d.file_name().unwrap().to_str().unwrap()) else { continue };
        let b = d.join("BalanceData");
        if !std::fs::metadata(&b).is_ok_and(|x| x.is_dir()) {
            continue;
        }
        for f in std::fs::read_dir(&b).unwrap() {
            let f = b.join(f.unwrap().file_name());
            let n = f.file_name().unwrap().to_str().unwrap();
            if std::fs::metadata(&f).is_ok_and(|x| x.is_file()) && n.len() > 4 && n.ends_with(".xml") {
                if let Some(u) = known(k, &f) {
                    m.insert((v, u["@id"].as_str().unwrap().to_string()), u);
                } else if String::from_utf8(std::fs::read(&f).unwrap()).is_err() {
                    return None;
                }
            }
        }
    }
    Some(m)
}
/// equal, decimals by the 32-bit number they spell
fn same(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Object(a), J::Object(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| same(x, y))),
        (J::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (J::Number(x), J::Number(y)) if x.is_f64() && y.is_f64() => x.as_f64().unwrap() as f32 == y.as_f64().unwrap() as f32,
        _ => a == b,
    }
}
fn compare(what: &str, got: &HashMap<(u32, String), VersionedBalanceUnit>, want: &Found) -> Result<(), String> {
    for (k, u) in want {
        match got.get(k) {
            None => return Err(format!("{what}: no unit {k:?}")),
            Some(g) => {
                let g = serde_json::to_value(g).unwrap();
                if !same(&g, u) {
                    let f = u.as_object().unwrap().keys().find(|f| !same(&g[f.as_str()], &u[f.as_str()])).cloned().unwrap_or_default();
                    return Err(format!("{what}: unit {k:?} reads as {f}={}, it says {}", g[&f], u[&f]));
                }
            }
        }
    }
    match got.keys().find(|k| !want.contains_key(k)) {
        Some(k) => Err(format!("{what}: unit {k:?} is in no file")),
        None => Ok(()),
    }
}
fn tree(root: &Path, at: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(at).unwrap() {
        let p = at.join(e.unwrap().file_name());
        if p.is_dir() { tree(root, &p, out) } else { drop(out.insert(p.strip_prefix(root).unwrap().to_str().unwrap().to_string(), std::fs::read(&p).unwrap())) }
    }
}
fn run(c: &J) -> Verdict {
    let ops = c["ops"].as_array().unwrap();
    if c["mode"] == "included" {
        let got = read_balance_data_from_included_assets().map_err(|e| format!("the included data cannot be read: {e}"))?;
        let mut want = Found::new();
        let root = Path::new("/repo/assets/BalanceData");
        for d in std::fs::read_dir(root).unwrap() {
            let d = d.unwrap();
            for f in std::fs::read_dir(d.path()).unwrap() {
                let f = f.unwrap();
                let n = f.file_name().to_str().unwrap().strip_suffix(".json").unwrap().to_string();
                want.insert((d.file_name().to_str().unwrap().parse().unwrap(), n), serde_json::from_slice(&std::fs::read(f.path()).unwrap()).unwrap());
            }
        }
        compare("included", &got, &want)?;
        return Ok(true);
    }
    let t = Tree::new();
    let root = match c["root"].as_str().unwrap() {
        "" => t.0.join("r"),
        s => t.0.join("r").join(s),
    };
    std::fs::create_dir(t.0.join("r")).unwrap();
    std::fs::write(t.0.join("r/file"), b"x").unwrap();
    if c["mode"] == "round" {
        let old = c["old"].as_str().unwrap();
        let below_file = c["root"] == "file";
        let mut kept: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        if !below_file {
            std::fs::create_dir_all(&root).unwrap();
        }
        if !old.is_empty() && !below_file {
            let p = root.join(old);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, vec![b'#'; 60_000]).unwrap();
        }
        tree(&t.0, &t.0, &mut kept);
        let want: Found = ops.iter().map(|o| ((o["version"].as_u64().unwrap() as u32, o["name"].as_str().unwrap().to_string()), o["unit"].clone())).collect();
        let units: HashMap<(u32, String), VersionedBalanceUnit> = want.iter().map(|(k, u)| (k.clone(), serde_json::from_value(u.clone()).unwrap())).collect();
        let blocked = !want.is_empty() && below_file || old == "94137" && want.keys().any(|k| k.0 == 94137);
        let res = write_balance_data_to_json(&root, units);
        if res.is_err() != blocked {
            return Err(format!("writing {} units: {:?}, the place is {}", want.len(), res.map_err(|e| e.to_string()), if blocked { "blocked" } else { "free" }));
        }
        if blocked {
            return Ok(false);
        }
        let mut now = BTreeMap::new();
        tree(&t.0, &t.0, &mut now);
        let rel = root.strip_prefix(&t.0).unwrap().to_str().unwrap().to_string();
        for ((v, n), u) in &want {
            let p = format!("{rel}/{v}/{n}.json");
            let Some(b) = now.remove(&p) else { return Err(format!("unit {v}, {n:?} was not written to {p:?}")) };
            kept.remove(&p);
            match serde_json::from_slice::<J>(&b) {
                Ok(j) if same(&j, u) => {}
                Ok(_) => return Err(format!("{p:?} holds another unit")),
                Err(e) => return Err(format!("{p:?} is no JSON: {e}")),
            }
        }
        if now != kept {
            return Err(format!("other files changed: {:?} before, {:?} after", kept.keys(), now.keys()));
        }
        if below_file || !old.is_empty() && old != "readme.txt" && old != "old/x.json" && old != "94137" && kept.contains_key(&format!("{rel}/{old}")) {
            return Ok(!want.is_empty());
        }
        let got = read_balance_data_from_json_dir(&root).map_err(|e| format!("what was written cannot be read: {e}"))?;
        compare("written and read", &got, &want)?;
        return Ok(!want.is_empty());
    }
    let json_mode = c["mode"] == "json";
    let mut k = Known::new();
    for o in ops {
        let at = |k: &str| o[k].as_str().map(|p| t.0.join("r").join(p));
        let fresh = |p: &Path| {
            let _ = std::fs::create_dir_all(p.parent().unwrap());
            std::fs::symlink_metadata(p).is_err() && p.parent().unwrap().is_dir()
        };
        if let Some(p) = at("dir").filter(|p| fresh(p)) {
            std::fs::create_dir(p).unwrap();
        } else if let Some(p) = at("link").filter(|p| fresh(p)) {
            std::os::unix::fs::symlink(o["to"].as_str().unwrap(), p).unwrap();
        } else if let Some(p) = at("file").filter(|p| fresh(p)) {
            let text = if let Some(s) = o["text"].as_str() {
                if s == "\u{fffd}" { vec![b'<', 0xff, 0xfe] } else { s.as_bytes().to_vec() }
            } else {
                let u = sparse(&o["unit"], &mut Rng::new(o["form"].as_u64().unwrap()), true);
                if json_mode {
                    u.to_string().into_bytes()
                } else {
                    let mut s = String::new();
                    xml("unit", &u, &mut s);
                    s.into_bytes()
                }
            };
            std::fs::write(&p, text).unwrap();
            if o["unit"].is_object() {
                k.insert(std::fs::canonicalize(&p).unwrap(), o["unit"].clone());
            }
        }
    }
    // the paths as this run sees them
    let base = std::fs::canonicalize(t.0.join("r")).unwrap();
    let root = match c["root"].as_str().unwrap() {
        "" => base,
        s => base.join(s),
    };
    if json_mode {
        match (read_balance_data_from_json_dir(&root), want_json(&root, &k)) {
            (Ok(g), Some(w)) => compare("JSON", &g, &w).map(|_| !w.is_empty()),
            (Err(_), None) => Ok(false),
            (Ok(_), None) => Err("something cannot be read, yet reading succeeds".into()),
            (Err(e), Some(_)) => Err(format!("reading fails: {e}")),
        }
    } else {
        let w = want_xml(&root, &k);
        match (traverse_versioned_balance_abilities(root), w) {
            (Ok(g), Some(w)) => compare("XML", &g, &w).map(|_| !w.is_empty()),
            (Err(_), None) => Ok(false),
            (Ok(_), None) => Err("a file is no text, yet the traversal succeeds".into()),
            (Err(e), Some(_)) => Err(format!("the traversal fails: {e}")),
        }
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "random units in random trees of versions (numbers spelt in several ways, names that are no number, stray files, directories and links, text that is no unit) read as JSON and as XML; random maps of units written over empty, missing, occupied and blocked places and read back; the data included in the library against its own files; non-trivial when a unit is read or written",
        n: (8_000, 120_000),
        generate,
        run,
    }]
}
