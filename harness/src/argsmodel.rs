//! Schema and command-line generators, a reference model of the argument
//! grammar, and an arena to build schemas of dynamic size.

use crate::Rng;
use osi::{args, compat};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode { Set, Toggle, Parse }

impl Mode {
    pub fn real(self) -> args::FlagMode {
        match self {
            Mode::Set => args::FlagMode::Set,
            Mode::Toggle => args::FlagMode::Toggle,
            Mode::Parse => args::FlagMode::Parse,
        }
    }
}

#[derive(Clone, Debug)]
pub struct MFlag { pub name: String, pub mode: Mode, pub help: Option<String> }
#[derive(Clone, Debug)]
pub struct MCmd { pub path: Vec<String>, pub flags: Vec<MFlag>, pub help: Option<String> }
pub type MSchema = Vec<MCmd>;

pub const MAX_FLAGS: usize = 6;
pub const MAX_CMDS: usize = 9;

/// What the grammar prescribes for one command line.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// Definition index of command and flag, argument text, command in effect.
    Set(usize, usize, Vec<u8>, usize),
    Toggle(usize, usize, Vec<u8>, usize, bool),
    Parse(usize, usize, Vec<u8>, usize, Vec<u8>),
    Param(usize, Option<Vec<u8>>),
    Err(Er),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Er {
    Shorts(Vec<u8>),
    Unknown(Vec<u8>),
    UnexpectedToggle(Vec<u8>),
    UnexpectedValue(Vec<u8>, Vec<u8>),
    NoValue(Vec<u8>),
    ValueNotUtf8(Vec<u8>, Vec<u8>),
    ParamUnexpected(Vec<u8>),
    ParamNotUtf8(Vec<u8>),
    Other,
}

impl Er {
    pub fn from(e: &args::Error) -> Er {
        let b = |v: &compat::OsStr| v.as_encoded_bytes().to_vec();
        match e {
            args::Error::ShortsUnknown { shorts } => Er::Shorts(b(shorts)),
            args::Error::FlagUnknown { flag } => Er::Unknown(b(flag)),
            args::Error::FlagUnexpectedToggle { flag } => Er::UnexpectedToggle(b(flag)),
            args::Error::FlagUnexpectedValue { flag, value } => Er::UnexpectedValue(b(flag), b(value)),
            args::Error::FlagNoValue { flag } => Er::NoValue(b(flag)),
            args::Error::FlagValueNotUtf8 { flag, value } => Er::ValueNotUtf8(b(flag), b(value)),
            args::Error::ParameterUnexpected { parameter } => Er::ParamUnexpected(b(parameter)),
            args::Error::ParameterNotUtf8 { parameter } => Er::ParamNotUtf8(b(parameter)),
            _ => Er::Other,
        }
    }
    /// Equality, except that the text of an undecodable flag name is only
    /// required to be part of the argument and to contain the name.
    pub fn matches(&self, want: &Er) -> bool {
        if let (Er::Unknown(a), Er::Unknown(b)) = (self, want) {
            if std::str::from_utf8(b).is_err() {
                let mut full = b"--".to_vec();
                full.extend_from_slice(b);
                return a == b || *a == full;
            }
        }
        self == want
    }
    pub fn kind(&self) -> u8 {
        match self {
            Er::Shorts(_) => 0,
            Er::Unknown(_) => 1,
            Er::UnexpectedToggle(_) => 2,
            Er::UnexpectedValue(..) => 3,
            Er::NoValue(_) => 4,
            Er::ValueNotUtf8(..) => 5,
            Er::ParamUnexpected(_) => 6,
            Er::ParamNotUtf8(_) => 7,
            Er::Other => 8,
        }
    }
}

impl Ev {
    pub fn matches(&self, want: &Ev) -> bool {
        match (self, want) {
            (Ev::Err(a), Ev::Err(b)) => a.matches(b),
            _ => self == want,
        }
    }
}

/// Run the model: events in order, and the entered path.
pub fn model(schema: &MSchema, argv: &[Vec<u8>]) -> (Vec<Ev>, Vec<String>) {
    let mut ev = vec![];
    let mut path: Vec<String> = vec![];
    let mut commands = true;
    let mut flags = true;
    let def = |p: &[String]| schema.iter().position(|c| c.path == p);
    let lookup = |path: &[String], name: &str| -> Option<(usize, usize)> {
        for k in (0..=path.len()).rev() {
            if let Some(c) = def(&path[..k]) {
                if let Some(f) = schema[c].flags.iter().position(|f| f.name == name) {
                    return Some((c, f));
                }
            }
        }
        None
    };
    let param = |ev: &mut Vec<Ev>, path: &[String], a: &[u8]| match def(path) {
        Some(c) => ev.push(Ev::Param(c, Some(a.to_vec()))),
        None => ev.push(Ev::Err(Er::ParamUnexpected(a.to_vec()))),
    };
    let mut i = 0;
    while i < argv.len() {
        let a = &argv[i][..];
        i += 1;
        if flags && a.starts_with(b"--") {
            if a == b"--" {
                flags = false;
                commands = false;
                continue;
            }
            let body = &a[2..];
            let (name, value) = match body.iter().position(|b| *b == b'=') {
                Some(k) => (&body[..k], Some(body[k + 1..].to_vec())),
                None => (body, None),
            };
            let Ok(n) = std::str::from_utf8(name) else {
                ev.push(Ev::Err(Er::Unknown(body.to_vec())));
                continue;
            };
            let mut negated = false;
            let mut hit = lookup(&path, n);
            if hit.is_none() {
                if let Some(s) = n.strip_prefix("no-") {
                    hit = lookup(&path, s);
                    negated = true;
                }
            }
            let Some((c, f)) = hit else {
                ev.push(Ev::Err(Er::Unknown(name.to_vec())));
                continue;
            };
            let at = (0..=path.len()).rev().find_map(|k| def(&path[..k])).unwrap();
            let nm = name.to_vec();
            match schema[c].flags[f].mode {
                Mode::Set | Mode::Parse if negated => ev.push(Ev::Err(Er::UnexpectedToggle(nm))),
                Mode::Set | Mode::Toggle if value.is_some() => {
                    ev.push(Ev::Err(Er::UnexpectedValue(nm, value.unwrap())))
                },
                Mode::Set => ev.push(Ev::Set(c, f, nm, at)),
                Mode::Toggle => ev.push(Ev::Toggle(c, f, nm, at, !negated)),
                Mode::Parse => {
                    let v = match value {
                        Some(v) => v,
                        None if i < argv.len() => {
                            i += 1;
                            argv[i - 1].clone()
                        },
                        None => {
                            ev.push(Ev::Err(Er::NoValue(nm)));
                            continue;
                        },
                    };
                    ev.push(Ev::Parse(c, f, nm, at, v));
                },
            }
            continue;
        }
        if flags && a.len() >= 2 && a[0] == b'-' {
            ev.push(Ev::Err(Er::Shorts(a[1..].to_vec())));
            continue;
        }
        if commands {
            if let Ok(s) = std::str::from_utf8(a) {
                let mut p = path.clone();
                p.push(s.to_string());
                if schema.iter().any(|c| c.path.starts_with(&p)) {
                    path = p;
                    continue;
                }
            }
            commands = false;
        }
        param(&mut ev, &path, a);
    }
    if let Some(c) = def(&path) {
        ev.push(Ev::Param(c, None));
    }
    (ev, path)
}

const CMD_NAMES: &[&str] = &["a", "b", "ab", "a b", "x", "", "-", "ä", "no-a", "a\0", "zz", "A"];
const FLAG_NAMES: &[&str] = &["a", "b", "ab", "no-a", "no-no-a", "", "x", "no-", "ä", "foo", "a-b", "no-b", "-a", "help"];

/// Values as users write them, and ones that look like other syntax.
const VALUES: &[&str] = &[
    "", "v", "=", "a=b", "--", "-x", "ä", "true", "false", "yes", "no", "on", "off", "0", "1", "-1", "42", "none",
    "null", "auto", "--a", "--no-a", "-", "a b", "\"q\"", "a,b", "/etc/x", "~", "$HOME", "*", "a\0b", "\n", " ", "no-a", "x\\", "\\", "C:\\x", "v\n", "v\0", "v=", "v-", "v ", "v_", "V9", "a--b", "\u{feff}v", "v\u{10ffff}", "'v'",
    "help", "--help", "a", "True", "N",
];

/// Help texts: absent, empty, and plain ones.
fn help_text(r: &mut Rng, text: impl FnOnce() -> String) -> Option<String> {
    match r.below(8) {
        0..=3 => None,
        4 => Some(String::new()),
        5 => Some(r.pick(&[" ", "\n", "two\nlines", "\u{e4}", "-", "None"]).to_string()),
        _ => Some(text()),
    }
}

pub fn gen_schema(r: &mut Rng) -> MSchema {
    let names: Vec<&str> = (0..r.range(1, 4)).map(|_| *r.pick(CMD_NAMES)).collect();
    let fnames: Vec<&str> = (0..r.range(1, 5)).map(|_| *r.pick(FLAG_NAMES)).collect();
    let n = if r.chance(1, 25) { 0 } else { r.range(1, MAX_CMDS) };
    let mut s: MSchema = vec![];
    for i in 0..n {
        let path: Vec<String> = if i == 0 && r.chance(3, 4) {
            vec![]
        } else if !s.is_empty() && r.chance(1, 2) {
            let mut p = r.pick(&s).path.clone();
            p.push(r.pick(&names).to_string());
            if r.chance(1, 4) {
                p.push(r.pick(&names).to_string());
            }
            p
        } else {
            (0..r.range(0, 4)).map(|_| r.pick(&names).to_string()).collect()
        };
        if s.iter().any(|c| c.path == path) {
            continue;
        }
        let mut flags: Vec<MFlag> = vec![];
        for _ in 0..r.range(0, MAX_FLAGS) {
            let base = if r.chance(3, 4) { *r.pick(&fnames) } else { *r.pick(FLAG_NAMES) };
            let name = if r.chance(1, 8) { format!("no-{base}") } else { base.to_string() };
            if flags.iter().any(|f| f.name == name) {
                continue;
            }
            let mode = *r.pick(&[Mode::Set, Mode::Toggle, Mode::Parse]);
            let help = help_text(r, || format!("help {name}"));
            flags.push(MFlag { name, mode, help });
        }
        let help = help_text(r, || format!("cmd {:?}", path));
        s.push(MCmd { path, flags, help });
    }
    r.shuffle(&mut s);
    s
}

/// Set sizes the arena can build beyond the consecutive small ones.
const BIG_FLAGS: &[usize] = &[9, 12, 17, 33, 64, 150, 300];
const BIG_CMDS: &[usize] = &[11, 16, 33, 64, 130];

fn big_name(r: &mut Rng, cmd: bool) -> String {
    match r.below(8) {
        0 => format!("{}{}", "x".repeat(*r.pick(&[30, 31, 32, 62, 63, 64, 99, 126, 127, 128, 199, 254, 255, 256, 257, 1000, 1023, 4096])), r.below(4)),
        1 => (0..r.range(1, 4)).map(|_| *r.pick(&['a', 'b', '-', '.', '_', 'A', '\u{e4}', '\u{20ac}', '\u{1f600}', '0', ' ', '\\', '"', '\n', '\0', '\u{7f}', '\u{feff}', '\u{10ffff}', '/', ':', '+'])).collect(),
        2 => r.pick(if cmd { CMD_NAMES } else { FLAG_NAMES }).to_string(),
        3 => format!("no-{}", r.below(40)),
        4 => ((b'a' + r.below(26) as u8) as char).to_string(),
        _ => r.below(200).to_string(),
    }
}

/// A schema with many commands or flags, long names, or deep paths.
pub fn gen_big_schema(r: &mut Rng) -> MSchema {
    let n = if r.chance(1, 12) { *r.pick(&[257, 300, 520, 1100]) } else { *r.pick(BIG_CMDS) };
    let pool: Vec<String> = (0..r.range(3, 30)).map(|_| big_name(r, true)).collect();
    let (deep, bushy) = (r.chance(1, 3), r.chance(1, 4));
    let mut s: MSchema = vec![];
    let mut tries = 0;
    while s.len() < n {
        tries += 1;
        let name = |r: &mut Rng| if tries > 4 * n { format!("n{}", r.u32()) } else { r.pick(&pool).clone() };
        let path: Vec<String> = if s.is_empty() && r.chance(3, 4) {
            vec![]
        } else if !s.is_empty() && deep && r.chance(9, 10) {
            // Deep trees mostly get deeper, with branches at any level.
            let mut p = if tries % 7 == 0 { r.pick(&s) } else { s.last().unwrap() }.path.clone();
            if r.chance(1, 6) {
                let k = r.below(p.len() + 1);
                p.truncate(if r.bool() { p.len() - k.min(3).min(p.len()) } else { k });
            }
            p.push(name(r));
            p
        } else if !s.is_empty() && r.chance(2, 3) {
            // Bushy trees have most commands below a few of the first ones.
            let mut p = if bushy { s[r.below(3).min(s.len() - 1)].path.clone() } else { r.pick(&s).path.clone() };
            for _ in 0..if r.chance(1, 10) { r.range(1, 20) } else { 1 } {
                p.push(name(r));
            }
            p
        } else {
            (0..r.range(1, 3)).map(|_| name(r)).collect()
        };
        if s.iter().any(|c| c.path == path) {
            continue;
        }
        let k = if r.chance(1, 12) { *r.pick(BIG_FLAGS) } else { r.below(4) };
        let mut flags: Vec<MFlag> = vec![];
        while flags.len() < k {
            let name = if flags.len() > 40 { format!("f{}", r.u32()) } else { big_name(r, false) };
            if flags.iter().any(|f| f.name == name) {
                continue;
            }
            let mode = *r.pick(&[Mode::Set, Mode::Toggle, Mode::Parse]);
            let help = help_text(r, || format!("help {name}"));
            flags.push(MFlag { name, mode, help });
        }
        let help = help_text(r, || format!("cmd {}", path.len()));
        s.push(MCmd { path, flags, help });
    }
    r.shuffle(&mut s);
    s
}

/// A long command line for a large schema: mostly along one path, with flags
/// of the commands passed and of unrelated ones.
pub fn gen_big_argv(r: &mut Rng, s: &MSchema) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let target = if r.bool() { r.pick(s) } else { s.iter().max_by_key(|c| c.path.len() + r.below(3)).unwrap() }.path.clone();
    let noise = r.bool();
    let flag = |r: &mut Rng, at: usize| -> Vec<u8> {
        let near: Vec<&MCmd> = s.iter().filter(|c| target[..at].starts_with(&c.path) && !c.flags.is_empty()).collect();
        let with: Vec<&MCmd> = s.iter().filter(|c| !c.flags.is_empty()).collect();
        let name = match r.below(8) {
            0 => big_name(r, false),
            1 if !with.is_empty() => { let c = *r.pick(&with); r.pick(&c.flags).name.clone() },
            _ if !near.is_empty() => { let c = *r.pick(&near); r.pick(&c.flags).name.clone() },
            _ => big_name(r, false),
        };
        match r.below(8) {
            0 | 1 => format!("--no-{name}"),
            2 | 3 => format!("--{name}={}", if r.bool() { r.pick(VALUES).to_string() } else { "v".repeat(*r.pick(&[0, 1, 5, 255, 256, 300, 5000])) }),
            _ => format!("--{name}"),
        }.into_bytes()
    };
    for (i, p) in target.iter().enumerate() {
        while noise && r.chance(1, 3) {
            out.push(flag(r, i));
        }
        out.push(p.clone().into_bytes());
    }
    for _ in 0..*r.pick(&[0, 1, 3, 20, 150]) {
        out.push(match r.below(5) {
            0 => { let p = if r.bool() { "p".repeat(*r.pick(&[0, 1, 255, 256, 4096])) } else { big_name(r, true) }; p.into_bytes() },
            1 if r.chance(1, 4) => bad_utf8(r),
            2 if r.chance(1, 20) => b"--".to_vec(),
            _ => flag(r, target.len()),
        });
    }
    out
}

pub fn bad_utf8(r: &mut Rng) -> Vec<u8> {
    let mut v = r.pick(&["", "a", "ab", "ä"]).as_bytes().to_vec();
    if r.chance(1, 10) {
        let n = r.range(1, 300);
        v = r.pick(&["a", "\u{20ac}", "no-", "-", "x\0"]).repeat(n).into_bytes();
    }
    v.extend_from_slice(*r.pick(&[&b"\xff"[..], b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\xaf"]));
    if r.bool() {
        v.extend_from_slice(r.pick(&["", "=", "x", "=v"]).as_bytes());
    }
    v
}

pub fn gen_argv(r: &mut Rng, s: &MSchema, max: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let n = r.range(0, max);
    // Mostly follow one defined path, with noise interleaved.
    let path: Vec<String> = if s.is_empty() { vec![] } else { r.pick(s).path.clone() };
    let mut todo = path.iter();
    while out.len() < n {
        let flag_name = |r: &mut Rng| -> String {
            let c = if s.is_empty() { None } else { Some(r.pick(s)) };
            match c {
                Some(c) if !c.flags.is_empty() && r.chance(5, 6) => r.pick(&c.flags).name.clone(),
                _ => r.pick(FLAG_NAMES).to_string(),
            }
        };
        let a: Vec<u8> = match r.below(16) {
            0..=4 => match todo.next() {
                Some(v) => v.clone().into_bytes(),
                None => r.pick(CMD_NAMES).as_bytes().to_vec(),
            },
            5..=7 => format!("--{}", flag_name(r)).into_bytes(),
            8 => format!("--no-{}", flag_name(r)).into_bytes(),
            9 => format!("--{}={}", flag_name(r), r.pick(VALUES)).into_bytes(),
            10 => {
                let mut v = format!("--{}=", flag_name(r)).into_bytes();
                v.extend(bad_utf8(r));
                v
            },
            11 => {
                let mut v = b"--".to_vec();
                v.extend(bad_utf8(r));
                v
            },
            12 if r.chance(1, 12) => {
                // Long texts around sizes at which fixed buffers end.
                let n = *r.pick(&[15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1024, 4096, 70_000]);
                let fill = *r.pick(&["a", "-", "=", "\u{e4}", "no-"]);
                let mut v = r.pick(&["-", "--", "--no-", "", "--foo=", "--a="]).as_bytes().to_vec();
                v.extend(fill.repeat(n).into_bytes());
                v
            },
            12 => r.pick(&["-", "-a", "-ab", "-x=1", "---", "---a", "-\u{e4}", "--=", "--=v", "-="]).as_bytes().to_vec(),
            13 => match r.below(3) {
                0 => b"--".to_vec(),
                1 => r.pick(VALUES).as_bytes().to_vec(),
                _ => r.pick(&["p", "a", "zz", "help"]).as_bytes().to_vec(),
            },
            14 => bad_utf8(r),
            _ => {
                let mut v = r.pick(&["a", "b", "-", "--no-", "no-a"]).as_bytes().to_vec();
                if r.chance(1, 3) {
                    v.push(0xff);
                }
                v
            },
        };
        out.push(a);
    }
    out
}

pub fn show_case(s: &MSchema, argv: &[Vec<u8>]) -> String {
    let mut o = String::from("schema:");
    for (i, c) in s.iter().enumerate() {
        o.push_str(&format!("\n  [{i}] {:?} flags {:?}", c.path, c.flags.iter().map(|f| (&f.name, f.mode)).collect::<Vec<_>>()));
    }
    o.push_str("\nargs:");
    for a in argv {
        o.push_str(&format!(" {}", crate::show(a)));
    }
    o
}

/// Owns everything a schema borrows. Allocations are released in reverse
/// order when the arena is dropped, after all users are done.
#[derive(Default)]
pub struct Arena(Vec<(*mut (), unsafe fn(*mut ()))>);

impl Arena {
    /// The returned reference must not be used after the arena is dropped.
    pub fn put<T>(&mut self, v: T) -> &'static mut T {
        unsafe fn free<T>(p: *mut ()) { unsafe { drop(Box::from_raw(p as *mut T)) } }
        let p = Box::into_raw(Box::new(v));
        self.0.push((p as *mut (), free::<T>));
        unsafe { &mut *p }
    }
    pub fn str(&mut self, v: &str) -> &'static str { &self.put(v.to_string())[..] }
    pub fn os(&mut self, v: &[u8]) -> &'static compat::OsStr {
        let b: &'static Vec<u8> = self.put(v.to_vec());
        // Argument bytes are only ever split at ASCII boundaries.
        unsafe { compat::OsStr::from_encoded_bytes_unchecked(&b[..]) }
    }
    pub fn flagset<R: 'static>(
        &mut self,
        v: Vec<args::Flag<'static, 'static, R>>,
    ) -> &'static mut args::FlagSetRef<'static, 'static, R> {
        macro_rules! go { ($($n:literal)*) => { match v.len() {
            $($n => { let a: [_; $n] = v.try_into().ok().unwrap(); self.put(args::FlagSet::with(a)).as_mut() },)*
            _ => unreachable!(),
        } } }
        go!(0 1 2 3 4 5 6 7 8 9 12 17 33 64 150 300)
    }
    pub fn cmdset<R: 'static>(
        &mut self,
        v: Vec<args::Command<'static, 'static, R>>,
    ) -> &'static mut args::CommandSetRef<'static, 'static, R> {
        macro_rules! go { ($($n:literal)*) => { match v.len() {
            $($n => { let a: [_; $n] = v.try_into().ok().unwrap(); self.put(args::CommandSet::with(a)).as_mut() },)*
            _ => unreachable!(),
        } } }
        go!(0 1 2 3 4 5 6 7 8 9 10 11 16 33 64 130 257 300 520 1100)
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        while let Some((p, f)) = self.0.pop() {
            unsafe { f(p) }
        }
    }
}
