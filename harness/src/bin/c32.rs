//! The build metadata query vs. generated workspaces and cargo's own reading
//! of the real one.

use harness::*;
use std::path::Path;
use std::process::{Command, Output};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const SCRIPT: &str = "/repo/lib/util/cargo-query.py";
/// Below the build output.
const SCRATCH: &str = "target/c32";
const LEVELS: &[&str] = &["allow", "warn", "deny", "forbid"];

/// A failure of the harness, not of what it observes.
fn broken(what: &str) -> ! {
    println!("cannot run the monitor: {what}");
    std::process::exit(2);
}

/// A directory of this run, removed when done.
struct Dir(std::path::PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = Path::new(SCRATCH).join(format!("{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        if std::fs::create_dir_all(&p).is_err() {
            broken("no scratch directory");
        }
        Dir(p.canonicalize().unwrap_or_else(|_| broken("no scratch directory")))
    }
    fn file(&self, name: &str, text: &str) {
        let p = self.0.join(name);
        if std::fs::create_dir_all(p.parent().unwrap()).and_then(|_| std::fs::write(&p, text)).is_err() {
            broken("no scratch file");
        }
    }
}
impl Drop for Dir {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

fn query(ws: Option<&Path>, cwd: &Path) -> Output {
    let mut c = Command::new("python3");
    c.arg(SCRIPT).current_dir(cwd).env_remove("PATH_WS").env("PYTHONDONTWRITEBYTECODE", "1");
    if let Some(v) = ws {
        c.env("PATH_WS", v);
    }
    c.output().unwrap_or_else(|_| broken("no python3"))
}

/// Four lines: the versions of the packages, and the allowed lints.
fn judge(o: &Output, versions: &[String], lints: &[String], what: &str) -> R {
    ensure!(o.status.success(), "query failed for {what}\n{}", String::from_utf8_lossy(&o.stderr));
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let l: Vec<&str> = out.strip_suffix('\n').unwrap_or(&out).split('\n').collect();
    same!(l.len(), 4, "lines of {out:?} for {what}");
    same!(&l[..3], versions, "versions for {what}");
    let mut got: Vec<&str> = l[3].split(',').filter(|v| !v.is_empty() || l[3].len() > 0).collect();
    got.sort();
    let mut want: Vec<&str> = lints.iter().map(|v| &**v).collect();
    want.sort();
    same!(got, want, "allowed lints for {what}");
    Ok(())
}

fn version(r: &mut Rng) -> String {
    let mut n = || match r.below(4) { 0 => 0, 1 => r.below(10), 2 => r.below(300), _ => r.u32() as usize };
    let v = format!("{}.{}.{}", n(), n(), n());
    format!("{v}{}", r.pick(&["", "", "", "-rc.1", "-alpha", "+build.5", "-0.3.7"]))
}

fn generated(c: &mut Case) -> R {
    let r = &mut c.rng;
    let d = Dir::new();
    let versions: Vec<String> = (0..3).map(|_| version(r)).collect();
    for (n, v) in ["osi", "sys", "tmp"].iter().zip(&versions) {
        let decoy = version(r);
        d.file(&format!("lib/{n}/Cargo.toml"), &match r.below(3) {
            0 => format!("[package]\nname = \"{n}\"\nversion = \"{v}\"\n"),
            1 => format!("# version = \"{decoy}\"\n[package]\nversion = '{v}'\nname = \"{n}\"\n\n[dependencies]\nversion = \"{decoy}\"\n"),
            _ => format!("[dependencies]\nother = {{ version = \"{decoy}\" }}\n[package]\nrust-version = \"1.91\"\nversion = \"{v}\" # not {decoy}\nname = \"{n}\"\n"),
        });
    }
    let (mut text, mut lints, mut shape) = (String::from("[workspace]\nmembers = []\n"), vec![], vec![]);
    let mut groups = ["clippy", "rust"];
    r.shuffle(&mut groups);
    for g in groups {
        let n = match r.below(5) { 0 => 0, 4 => r.below(40), _ => r.below(6) };
        let mut subs = String::new();
        text += &format!("\n[workspace.lints.{g}]\n");
        for i in 0..n {
            let name = format!("{}_{i}", r.pick(&["identity", "len_zero", "a", "rust", "clippy", "allow", "unexpected_cfgs", "z9"]));
            let level = if r.bool() { "allow" } else { *r.pick(LEVELS) };
            let form = r.below(4);
            match form {
                0 => text += &format!("{name} = {{ level = \"{level}\", priority = -1 }}\n"),
                1 => subs += &format!("\n[workspace.lints.{g}.{name}]\nlevel = \"{level}\"\ncheck-cfg = [\"cfg(allow)\"]\n"),
                _ => text += &format!("{name} = \"{level}\"\n"),
            }
            if level == "allow" {
                lints.push(if g == "clippy" { format!("clippy::{name}") } else { name });
            }
            shape.push((g, level, form > 1));
        }
        text += &subs;
    }
    d.file("Cargo.toml", &text);
    let o = if r.chance(1, 4) { query(None, &d.0) } else { query(Some(&d.0), Path::new("/")) };
    judge(&o, &versions, &lints, &text)?;
    c.observe(&(&versions, &shape));
    c.sample(|| format!("{versions:?} {shape:?}"));
    Ok(())
}

/// The real workspace: cargo itself tells the versions.
fn real(c: &mut Case) -> R {
    let o = Command::new("cargo")
        .args(["metadata", "--no-deps", "--offline", "--format-version", "1", "--manifest-path", "/repo/Cargo.toml"])
        .output().unwrap_or_else(|_| broken("no cargo"));
    if !o.status.success() {
        broken("cargo metadata");
    }
    let json = String::from_utf8_lossy(&o.stdout).into_owned();
    let versions: Vec<String> = ["osi", "sys", "tmp"].iter().map(|n| {
        let k = format!("{{\"name\":\"{n}\",\"version\":\"");
        let i = json.find(&k).unwrap_or_else(|| broken("cargo metadata")) + k.len();
        json[i..].split('"').next().unwrap().to_string()
    }).collect();
    let o = query(Some(Path::new("/repo")), Path::new("/"));
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    // Every lint is known to the compiler's naming, and allowed in the manifest.
    let manifest = std::fs::read_to_string("/repo/Cargo.toml").unwrap_or_else(|_| broken("no manifest"));
    let lints: Vec<String> = out.lines().nth(3).unwrap_or("").split(',').filter(|v| !v.is_empty()).map(String::from).collect();
    for l in &lints {
        let name = l.strip_prefix("clippy::").unwrap_or(l);
        ensure!(manifest.contains(name), "lint {l} is not in the manifest");
    }
    judge(&o, &versions, &lints, "the repository")?;
    c.observe(&("real", &versions, lints.len()));
    Ok(())
}

fn run(cx: &mut Ctx) {
    let _ = std::fs::remove_dir_all(SCRATCH);
    cx.section("real", (1, 2, 0), real);
    cx.section("generated", (900, 12_000, 0), generated);
    let _ = std::fs::remove_dir_all(SCRATCH);
}

fn main() {
    harness::main(
        "C32",
        "A case is one workspace the query is run on; distinct = distinct versions and lint tables.",
        run,
    );
}
