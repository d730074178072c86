//! C23: the listing of replay files below a directory, over trees built in a scratch directory.
use crate::rng::Rng;
use crate::{Prop, Verdict};
use serde_json::{Value as J, json};
use std::path::{Path, PathBuf};

/// A directory of its own, removed when dropped; links are removed, never followed.
pub struct Tree(pub PathBuf);
impl Tree {
    pub fn new() -> Tree {
        use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("rt-tree-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir(&d).unwrap();
        Tree(d)
    }
}
impl Drop for Tree {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
const DIRS: &[&str] = &["a", "b", "old", "x.SC2Replay", ".hidden", "my replays", "\u{e9}t\u{e9}", "2024", "Battle.net"];
const FILES: &[&str] = &["1.SC2Replay", "2.SC2Replay", "z.SC2Replay", "a b (2).SC2Replay", ".SC2Replay", ".h.SC2Replay", "SC2Replay", "x.sc2replay", "x.SC2REPLAY", "x.SC2Replay.bak",
    "x.bak.SC2Replay", "x.SC2Replay2", "xSC2Replay", "x.SC2Replay.", "x..SC2Replay", "readme.txt", "\u{4e2d}.SC2Replay", "x.SC2Map", "x.SC2Replay ", "~x.SC2Replay", "x.SC2Replay.writeCacheBackup"];
fn gen23(r: &mut Rng, _: usize) -> J {
    let mut dirs: Vec<String> = vec!["".into()];
    let mut ops: Vec<J> = vec![];
    let n = r.below(14);
    let n = r.size(n, 300);
    let clean = |w: String| {
        let w: String = w.chars().filter(|c| !"/\0".contains(*c)).take(60).collect();
        if w.is_empty() || w == "." || w == ".." { "q".to_string() } else { w }
    };
    let mut links = 0;
    let deep = r.chance(1, 8);
    for k in 0..n {
        let d = if deep { dirs.last().unwrap().clone() } else { r.pick(&dirs).clone() };
        let under = |w: String| if d.is_empty() { w } else { format!("{d}/{w}") };
        match r.below(12) {
            0..=3 => {
                let w = under(clean(crate::sm::name(r, DIRS)));
                if w.len() < 900 {
                    ops.push(json!({"dir": w}));
                    dirs.push(w);
                }
            }
            4 if links < 1 && n < 12 => {
                links += 1;
                let w = if r.chance(1, 2) { "link" } else { "link.SC2Replay" };
                ops.push(json!({"link": under(w.into()), "to": *r.pick(&["", "a", "nowhere", "1.SC2Replay", "b/1.SC2Replay"])}));
            }
            5 | 6 => {
                let w = under(format!("{k}.SC2Replay"));
                ops.push(json!({"file": w}));
            }
            _ => {
                let w = under(clean(crate::sm::name(r, FILES)));
                ops.push(json!({"file": w}));
            }
        }
    }
    let depth = match r.below(8) {
        0 => 0,
        1 => 1,
        2 if links == 0 => u32::MAX as u64,
        3 if links == 0 => u64::MAX,
        _ => {
            let d = 1 + r.below(5);
            if links == 0 { r.size(d, 40) as u64 } else { d as u64 }
        }
    };
    let files = match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => 1000,
        _ => {
            let m = r.below(8);
            r.size(m, 300) as u64
        }
    };
    let source = match r.below(12) {
        0 => "missing".to_string(),
        1 => r.pick(&dirs).clone(),
        2 => "1.SC2Replay".to_string(),
        _ => String::new(),
    };
    json!({"ops": ops, "depth": depth, "files": files, "source": source})
}
/// every replay file at most d levels below p, in the order its directories list them
fn below(p: &Path, d: u64, out: &mut Vec<PathBuf>) {
    let Ok(m) = std::fs::metadata(p) else { return };
    if d == 0 || !m.is_dir() {
        return;
    }
    for e in std::fs::read_dir(p).unwrap() {
        let q = p.join(e.unwrap().file_name());
        match std::fs::metadata(&q) {
            Ok(m) if m.is_dir() => below(&q, d - 1, out),
            Ok(m) if m.is_file() => {
                let n = q.file_name().unwrap().to_string_lossy().to_string();
                if n.rfind('.').is_some_and(|k| k > 0 && &n[k..] == ".SC2Replay") {
                    out.push(q);
                }
            }
            _ => {}
        }
    }
}
fn run23(c: &J) -> Verdict {
    let t = Tree::new();
    for o in c["ops"].as_array().unwrap() {
        let at = |k: &str| o[k].as_str().map(|p| t.0.join(p));
        // what clashes with an earlier entry, or lost its parent to shrinking, is left out
        if let Some(p) = at("dir") {
            let _ = std::fs::create_dir(p);
        } else if let Some(p) = at("file") {
            if std::fs::symlink_metadata(&p).is_err() {
                let _ = std::fs::write(p, b"");
            }
        } else if let (Some(p), Some(to)) = (at("link"), at("to")) {
            let _ = std::os::unix::fs::symlink(to, p);
        }
    }
    let (depth, files) = (c["depth"].as_u64().unwrap(), c["files"].as_u64().unwrap());
    let source = match c["source"].as_str().unwrap() {
        "" => t.0.clone(),
        s => t.0.join(s),
    };
    let mut want = vec![];
    below(&source, depth, &mut want);
    let all = want.len();
    want.truncate(files.min(usize::MAX as u64) as usize);
    let got = s2protocol::get_matching_files(source, files as usize, depth as usize).map_err(|e| format!("listing failed: {e}"))?;
    let name = |v: &[PathBuf]| v.iter().map(|p| p.strip_prefix(&t.0).map(|p| p.to_string_lossy().to_string()).unwrap_or(format!("OUTSIDE {}", p.display()))).collect::<Vec<_>>();
    if got != want {
        return Err(format!("listed {:?}, contract says {:?} (of {all})", name(&got), name(&want)));
    }
    Ok(all > 0)
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "random directory trees in a scratch directory (nested, deep and wide directories, names close to the replay extension, directories and links named like replays, at most one link), any file and depth limit, the root, a subdirectory, a file or a missing path as source; non-trivial when a replay file is within reach",
        n: (12_000, 300_000),
        generate: gen23,
        run: run23,
    }]
}
