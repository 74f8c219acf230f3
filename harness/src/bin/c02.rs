//! Typed targets and error accounting.

use harness::argsmodel::*;
use harness::*;
use osi::{args, compat};
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;

type Os = &'static compat::OsStr;
type S = &'static str;

/// Observable content of a typed target.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Val {
    Flag(bool),
    One(Option<Vec<u8>>),
    Many(Option<Vec<Vec<u8>>>),
    Unit,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Class { Flag, One, Many, Unit }

#[derive(Clone, Copy, Debug)]
struct Ty { class: Class, text: bool, opt: bool }

fn os(v: Os) -> Vec<u8> { v.as_encoded_bytes().to_vec() }

struct Target {
    ty: Ty,
    read: Box<dyn Fn() -> Val>,
}

const NFLAG: usize = 20;
const NCMD: usize = 7;

type FR = &'static mut dyn args::FlagReport<'static, u32>;

/// Create a flag target of the given kind; second report for shared targets.
fn flag_target(ar: &mut Arena, kind: usize) -> (FR, Option<FR>, Target) {
    macro_rules! own {
        ($t:ty, $init:expr, $class:ident, $text:expr, $opt:expr, $read:expr) => {{
            let p: *mut $t = ar.put::<$t>($init);
            let f: fn(&$t) -> Val = $read;
            (
                unsafe { &mut *p } as FR,
                None,
                Target {
                    ty: Ty { class: Class::$class, text: $text, opt: $opt },
                    read: Box::new(move || f(unsafe { &*p })),
                },
            )
        }};
    }
    macro_rules! share {
        ($t:ty, $init:expr, $class:ident, $text:expr, $opt:expr, $read:expr) => {{
            let p: &'static $t = ar.put::<$t>($init);
            let f: fn(&$t) -> Val = $read;
            (
                ar.put(args::Shared::with(p)) as FR,
                Some(ar.put(args::Shared::with(p)) as FR),
                Target {
                    ty: Ty { class: Class::$class, text: $text, opt: $opt },
                    read: Box::new(move || f(p)),
                },
            )
        }};
    }
    let init_os: Os = "init".into();
    let many = |v: &[Os]| v.iter().map(|v| os(v)).collect::<Vec<_>>();
    let _ = many;
    match kind {
        0 => own!(Option<()>, None, Flag, false, true, |v| Val::Flag(v.is_some())),
        1 => own!(bool, false, Flag, false, false, |v| Val::Flag(*v)),
        2 => own!(Os, init_os, One, false, false, |v| Val::One(Some(os(v)))),
        3 => own!(Option<Os>, None, One, false, true, |v| Val::One(v.map(os))),
        4 => own!(S, "init", One, true, false, |v| Val::One(Some(v.as_bytes().to_vec()))),
        5 => own!(Option<S>, None, One, true, true, |v| Val::One(v.map(|v| v.as_bytes().to_vec()))),
        6 => own!(String, "init".into(), One, true, false, |v| Val::One(Some(v.as_bytes().to_vec()))),
        7 => own!(Option<String>, None, One, true, true, |v| Val::One(v.as_ref().map(|v| v.as_bytes().to_vec()))),
        8 => own!(Vec<Os>, vec![], Many, false, false, |v| Val::Many(Some(v.iter().map(|v| os(v)).collect()))),
        9 => own!(Option<Vec<Os>>, None, Many, false, true, |v| Val::Many(v.as_ref().map(|v| v.iter().map(|v| os(v)).collect()))),
        10 => own!(Vec<S>, vec![], Many, true, false, |v| Val::Many(Some(v.iter().map(|v| v.as_bytes().to_vec()).collect()))),
        11 => own!(Option<Vec<S>>, None, Many, true, true, |v| Val::Many(v.as_ref().map(|v| v.iter().map(|v| v.as_bytes().to_vec()).collect()))),
        12 => own!(Vec<String>, vec![], Many, true, false, |v| Val::Many(Some(v.iter().map(|v| v.as_bytes().to_vec()).collect()))),
        13 => own!(Option<Vec<String>>, None, Many, true, true, |v| Val::Many(v.as_ref().map(|v| v.iter().map(|v| v.as_bytes().to_vec()).collect()))),
        14 => share!(Cell<bool>, Cell::new(false), Flag, false, false, |v| Val::Flag(v.get())),
        15 => share!(Cell<Option<()>>, Cell::new(None), Flag, false, true, |v| Val::Flag(v.get().is_some())),
        16 => share!(Cell<S>, Cell::new("init"), One, true, false, |v| Val::One(Some(v.get().as_bytes().to_vec()))),
        17 => share!(RefCell<String>, RefCell::new("init".into()), One, true, false, |v| Val::One(Some(v.borrow().as_bytes().to_vec()))),
        18 => share!(RefCell<Vec<Os>>, RefCell::new(vec![]), Many, false, false, |v| Val::Many(Some(v.borrow().iter().map(|v| os(v)).collect()))),
        _ => share!(RefCell<bool>, RefCell::new(true), Flag, false, false, |v| Val::Flag(*v.borrow())),
    }
}

fn cmd_target(ar: &mut Arena, kind: usize) -> (&'static mut dyn args::CommandReport<'static, u32>, Target) {
    macro_rules! own {
        ($t:ty, $init:expr, $class:ident, $text:expr, $opt:expr, $read:expr) => {{
            let p: *mut $t = ar.put::<$t>($init);
            let f: fn(&$t) -> Val = $read;
            (
                unsafe { &mut *p } as &'static mut dyn args::CommandReport<'static, u32>,
                Target {
                    ty: Ty { class: Class::$class, text: $text, opt: $opt },
                    read: Box::new(move || f(unsafe { &*p })),
                },
            )
        }};
    }
    match kind {
        0 => own!((), (), Unit, false, false, |_| Val::Unit),
        1 => own!(Vec<Os>, vec![], Many, false, false, |v| Val::Many(Some(v.iter().map(|v| os(v)).collect()))),
        2 => own!(Option<Vec<Os>>, None, Many, false, true, |v| Val::Many(v.as_ref().map(|v| v.iter().map(|v| os(v)).collect()))),
        3 => own!(Vec<S>, vec![], Many, true, false, |v| Val::Many(Some(v.iter().map(|v| v.as_bytes().to_vec()).collect()))),
        4 => own!(Option<Vec<S>>, None, Many, true, true, |v| Val::Many(v.as_ref().map(|v| v.iter().map(|v| v.as_bytes().to_vec()).collect()))),
        5 => own!(Vec<String>, vec![], Many, true, false, |v| Val::Many(Some(v.iter().map(|v| v.as_bytes().to_vec()).collect()))),
        _ => own!(Option<Vec<String>>, None, Many, true, true, |v| Val::Many(v.as_ref().map(|v| v.iter().map(|v| v.as_bytes().to_vec()).collect()))),
    }
}

/// Assignment of target slots to a schema: `flags[cmd][flag]` and `cmds[cmd]`
/// are indices into the list of target kinds.
struct Plan { kinds: Vec<(bool, usize)>, flags: Vec<Vec<usize>>, cmds: Vec<usize> }

fn plan(r: &mut Rng, s: &MSchema) -> Plan {
    let mut p = Plan { kinds: vec![], flags: vec![], cmds: vec![] };
    let mut shared: Option<usize> = None;
    for c in s {
        p.kinds.push((false, r.below(NCMD)));
        p.cmds.push(p.kinds.len() - 1);
        let mut v = vec![];
        for f in &c.flags {
            if let (Some(k), true) = (shared, r.bool()) {
                v.push(k);
                shared = None;
                continue;
            }
            // Mostly a target suitable for the mode.
            let kind = match f.mode {
                Mode::Set | Mode::Toggle if r.chance(4, 5) => *r.pick(&[0, 1, 14, 15, 19]),
                Mode::Parse if r.chance(4, 5) => r.range(2, 13),
                _ => r.below(NFLAG),
            };
            p.kinds.push((true, kind));
            v.push(p.kinds.len() - 1);
            if kind >= 14 {
                shared = Some(p.kinds.len() - 1);
            }
        }
        p.flags.push(v);
    }
    p
}

struct Errors { list: Vec<Er>, stop: Option<usize>, late: bool }
impl args::ParserReport<'static, u32> for Errors {
    fn report_error(&mut self, _: &mut args::ParserContext<'_, 'static, u32>, e: args::Error<'static>) -> ControlFlow<u32> {
        let at = self.list.len();
        self.late |= self.stop.is_some_and(|s| at > s);
        self.list.push(Er::from(&e));
        if self.stop == Some(at) { ControlFlow::Break(100 + at as u32) } else { ControlFlow::Continue(()) }
    }
}

type Outcome = (Vec<Val>, Vec<Er>, Result<(), Option<u32>>);

fn real(s: &MSchema, p: &Plan, argv: &[Vec<u8>], stop: Option<usize>) -> Result<(Outcome, Vec<Ty>), String> {
    let mut ar = Arena::default();
    let mut targets: Vec<Option<Target>> = p.kinds.iter().map(|_| None).collect();
    let mut second: Vec<Option<FR>> = p.kinds.iter().map(|_| None).collect();
    let mut cmds = vec![];
    for (ci, c) in s.iter().enumerate() {
        let mut fl = vec![];
        for (fi, f) in c.flags.iter().enumerate() {
            let k = p.flags[ci][fi];
            let rep = match second[k].take() {
                Some(v) => v,
                None => {
                    let (a, b, t) = flag_target(&mut ar, p.kinds[k].1);
                    second[k] = b;
                    targets[k] = Some(t);
                    a
                },
            };
            fl.push(args::Flag::with(ar.str(&f.name), f.mode.real(), rep, None));
        }
        let fs = ar.flagset(fl);
        let path: Vec<S> = c.path.iter().map(|p| ar.str(p)).collect();
        let path: &'static [S] = ar.put(path);
        let (rep, t) = cmd_target(&mut ar, p.kinds[p.cmds[ci]].1);
        targets[p.cmds[ci]] = Some(t);
        cmds.push(args::Command::with(path, rep, fs, None));
    }
    let cs = ar.cmdset(cmds);
    let schema = ar.put(args::Schema::with(cs));
    let argv: Vec<Os> = argv.iter().map(|a| ar.os(a)).collect();
    let errs = ar.put(Errors { list: vec![], stop, late: false });
    let perr: *const Errors = errs;
    let r = args::parse(errs, schema, &mut argv.into_iter()).map(|_| ());
    let errs = unsafe { &*perr };
    ensure!(!errs.late, "errors reported after a stop: {:?}", errs.list);
    let vals = targets.iter().map(|t| (t.as_ref().unwrap().read)()).collect();
    let tys = targets.iter().map(|t| t.as_ref().unwrap().ty).collect();
    Ok(((vals, errs.list.clone(), r), tys))
}

fn initial(kinds: &[(bool, usize)]) -> Vec<Val> {
    kinds.iter().map(|(flag, k)| match (flag, k) {
        (true, 0 | 1 | 14 | 15) => Val::Flag(false),
        (true, 19) => Val::Flag(true),
        (true, 2 | 4 | 6 | 16 | 17) => Val::One(Some(b"init".to_vec())),
        (true, 3 | 5 | 7) => Val::One(None),
        (true, 8 | 10 | 12 | 18) => Val::Many(Some(vec![])),
        (true, _) => Val::Many(None),
        (false, 0) => Val::Unit,
        (false, 1 | 3 | 5) => Val::Many(Some(vec![])),
        (false, _) => Val::Many(None),
    }).collect()
}

/// Model: the grammar's events applied to typed targets.
fn want(s: &MSchema, p: &Plan, tys: &[Ty], argv: &[Vec<u8>], stop: Option<usize>) -> Outcome {
    let (ev, path) = model(s, argv);
    let mut vals = initial(&p.kinds);
    let mut errs = vec![];
    for e in ev {
        let mut err = None;
        match e {
            Ev::Err(e) => err = Some(e),
            Ev::Set(c, f, n, _) => {
                let k = p.flags[c][f];
                match tys[k].class {
                    Class::Flag => vals[k] = Val::Flag(true),
                    _ => err = Some(Er::NoValue(n)),
                }
            },
            Ev::Toggle(c, f, n, _, v) => {
                let k = p.flags[c][f];
                match (tys[k].class, v) {
                    (Class::Flag, v) => vals[k] = Val::Flag(v),
                    (_, true) => err = Some(Er::NoValue(n)),
                    (_, false) => err = Some(Er::UnexpectedToggle(n)),
                }
            },
            Ev::Parse(c, f, n, _, v) => {
                let k = p.flags[c][f];
                let bad = tys[k].text && std::str::from_utf8(&v).is_err();
                match tys[k].class {
                    Class::One | Class::Many if bad => err = Some(Er::ValueNotUtf8(n, v)),
                    Class::One => vals[k] = Val::One(Some(v)),
                    Class::Many => {
                        let Val::Many(m) = &mut vals[k] else { unreachable!() };
                        m.get_or_insert_default().push(v);
                    },
                    _ => err = Some(Er::UnexpectedValue(n, v)),
                }
            },
            Ev::Param(_, None) => (),
            Ev::Param(c, Some(v)) => {
                let k = p.cmds[c];
                let bad = tys[k].text && std::str::from_utf8(&v).is_err();
                match tys[k].class {
                    Class::Many if bad => err = Some(Er::ParamNotUtf8(v)),
                    Class::Many => {
                        let Val::Many(m) = &mut vals[k] else { unreachable!() };
                        m.get_or_insert_default().push(v);
                    },
                    _ => err = Some(Er::ParamUnexpected(v)),
                }
            },
        }
        if let Some(e) = err {
            errs.push(e);
            if stop == Some(errs.len() - 1) {
                let r = Err(Some(100 + errs.len() as u32 - 1));
                return (vals, errs, r);
            }
        }
    }
    let r = if s.iter().any(|c| c.path == path) { Ok(()) } else { Err(None) };
    (vals, errs, r)
}

fn compare(s: &MSchema, p: &Plan, argv: &[Vec<u8>], got: &Outcome, want: &Outcome) -> R {
    let ctx = || format!("{}\ntargets {:?}\nflag targets {:?} command targets {:?}", show_case(s, argv), p.kinds, p.flags, p.cmds);
    if got.1.len() != want.1.len() || !got.1.iter().zip(&want.1).all(|(a, b)| a.matches(b)) {
        return Err(format!("errors differ\n{}\n  observed: {:?}\n  expected: {:?}", ctx(), got.1, want.1));
    }
    same!(got.0, want.0, "typed targets differ\n{}", ctx());
    same!(got.2, want.2, "result differs\n{}", ctx());
    Ok(())
}

/// A schema with one command of a given typed report and flags of every kind.
fn run(cx: &mut Ctx) {
    cx.section("random", (120_000, 2_500_000, 24), |c| {
        let s = gen_schema(&mut c.rng);
        let p = plan(&mut c.rng, &s);
        let argv = gen_argv(&mut c.rng, &s, 10);
        let (got, tys) = real(&s, &p, &argv, None)?;
        let w = want(&s, &p, &tys, &argv, None);
        compare(&s, &p, &argv, &got, &w)?;
        c.count("errors", w.1.len() as u64);
        c.observe(&(&w.0, w.1.iter().map(|e| e.kind()).collect::<Vec<_>>()));
        c.sample(|| format!("{}\nerrors {:?} targets {:?}", show_case(&s, &argv), w.1, w.0));
        Ok(())
    });
    // Many commands and flags, deep paths, long names and command lines.
    cx.section("large", (4_000, 80_000, 0), |c| {
        let s = gen_big_schema(&mut c.rng);
        let p = plan(&mut c.rng, &s);
        for _ in 0..3 {
            let argv = gen_big_argv(&mut c.rng, &s);
            let (got, tys) = real(&s, &p, &argv, None)?;
            let w = want(&s, &p, &tys, &argv, None);
            compare(&s, &p, &argv, &got, &w)?;
            c.observe(&(&w.0, w.1.iter().map(|e| e.kind()).collect::<Vec<_>>()));
        }
        c.evals(2);
        Ok(())
    });
    // Every target kind under every mode with a value mix, focused.
    cx.section("focused", (20_000, 200_000, 10), |c| {
        let r = &mut c.rng;
        let kind = c.idx as usize % NFLAG;
        let mode = [Mode::Set, Mode::Toggle, Mode::Parse][c.idx as usize / NFLAG % 3];
        let s = vec![MCmd {
            path: vec![],
            flags: vec![MFlag { name: "f".into(), mode, help: None }, MFlag { name: "g".into(), mode: Mode::Parse, help: None }],
            help: None,
        }];
        let ck = r.below(NCMD);
        let g = r.range(2, 13);
        let p = Plan { kinds: vec![(false, ck), (true, kind), (true, g)], flags: vec![vec![1, 2]], cmds: vec![0] };
        let argv: Vec<Vec<u8>> = (0..r.range(0, 8)).map(|_| match r.below(9) {
            0 | 1 => b"--f".to_vec(),
            2 => b"--no-f".to_vec(),
            3 => format!("--f={}", r.pick(&["v", "true", "false", "yes", "no", "1", "0", "on", "off"])).into_bytes(),
            4 => b"--f=\xff".to_vec(),
            5 => b"--g=\xc3".to_vec(),
            6 => b"p\xff".to_vec(),
            7 => b"--f=".to_vec(),
            _ => r.pick(&["p", "", "q", "--g"]).as_bytes().to_vec(),
        }).collect();
        let (got, tys) = real(&s, &p, &argv, None)?;
        let w = want(&s, &p, &tys, &argv, None);
        compare(&s, &p, &argv, &got, &w)?;
        c.observe(&(kind, mode, ck, &w.0));
        Ok(())
    });
    // The handler stops at each error.
    cx.section("stop", (15_000, 300_000, 4), |c| {
        let s = gen_schema(&mut c.rng);
        let p = plan(&mut c.rng, &s);
        let argv = gen_argv(&mut c.rng, &s, 9);
        let (got, tys) = real(&s, &p, &argv, None)?;
        for k in 0..got.1.len() {
            let (got, _) = real(&s, &p, &argv, Some(k))?;
            let w = want(&s, &p, &tys, &argv, Some(k));
            compare(&s, &p, &argv, &got, &w)?;
        }
        c.count("stops", got.1.len() as u64);
        c.evals(got.1.len() as u64);
        Ok(())
    });
    // The bundled error collector.
    cx.section("collector", (5_000, 50_000, 0), |c| {
        // Mostly short lists, and some with thousands of errors.
        let n = if c.idx % 500 == 7 { *c.rng.pick(&[257, 1100, 5000, 70_000]) } else { 8 };
        let argv = gen_argv(&mut c.rng, &vec![], n);
        c.count("long_lists", (n > 8) as u64);
        let mut ar = Arena::default();
        let mut errs: Vec<args::Error<'static>> = vec![];
        let rep = ar.put(());
        let fs = ar.flagset::<()>(vec![]);
        let path: &'static [S] = &[];
        let cs = ar.cmdset(vec![args::Command::with(path, rep, fs, None)]);
        let mut schema = args::Schema::with(cs);
        let a: Vec<Os> = argv.iter().map(|a| ar.os(a)).collect();
        let r = args::parse(&mut errs, &mut schema, &mut a.into_iter());
        let s = vec![MCmd { path: vec![], flags: vec![], help: None }];
        same!(r, Ok(0), "result {}", show_case(&s, &argv));
        let (ev, _) = model(&s, &argv);
        let want: Vec<Er> = ev.into_iter().filter_map(|e| match e {
            Ev::Err(e) => Some(e),
            Ev::Param(_, Some(v)) => Some(Er::ParamUnexpected(v)),
            _ => None,
        }).collect();
        let got: Vec<Er> = errs.iter().map(Er::from).collect();
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.matches(b)),
            "collected errors differ\n{}\n  observed: {:?}\n  expected: {:?}", show_case(&s, &argv), got, want);
        c.observe(&want);
        Ok(())
    });
}

fn main() {
    harness::main(
        "C02",
        "A case is one (schema, typed targets, argument list) run; distinct = distinct (final target contents, error kinds); every case compares all targets and the whole error list with the model.",
        run,
    );
}
