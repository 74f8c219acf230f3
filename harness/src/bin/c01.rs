//! Command selection, flag resolution, parameters: trace vs. reference model.

use harness::argsmodel::*;
use harness::*;
use osi::{args, compat};
use std::cell::RefCell;
use std::ops::ControlFlow;
use std::rc::Rc;

#[derive(Default)]
struct Log { ev: Vec<Ev>, stop: Option<usize>, late: bool }

type L = Rc<RefCell<Log>>;

const STOP: u32 = 0x5709;

fn put(l: &L, e: Ev) -> ControlFlow<u32> {
    let mut l = l.borrow_mut();
    if l.stop.is_some_and(|s| l.ev.len() > s) {
        l.late = true;
    }
    let at = l.ev.len();
    l.ev.push(e);
    if l.stop == Some(at) { ControlFlow::Break(STOP + at as u32) } else { ControlFlow::Continue(()) }
}

fn b(v: &compat::OsStr) -> Vec<u8> { v.as_encoded_bytes().to_vec() }

struct F(L, usize, usize);
impl args::FlagReport<'static, u32> for F {
    fn report_set(&mut self, c: &mut args::FlagContext<'_, 'static, u32>) -> ControlFlow<u32> {
        put(&self.0, Ev::Set(self.1, self.2, b(c.flag_arg()), c.command_current()))
    }
    fn report_toggle(&mut self, c: &mut args::FlagContext<'_, 'static, u32>, v: bool) -> ControlFlow<u32> {
        put(&self.0, Ev::Toggle(self.1, self.2, b(c.flag_arg()), c.command_current(), v))
    }
    fn report_parse(&mut self, c: &mut args::FlagContext<'_, 'static, u32>, v: &'static compat::OsStr) -> ControlFlow<u32> {
        put(&self.0, Ev::Parse(self.1, self.2, b(c.flag_arg()), c.command_current(), b(v)))
    }
}
struct C(L, usize);
impl args::CommandReport<'static, u32> for C {
    fn report_parameter(&mut self, _: &mut args::CommandContext<'_, 'static, u32>, v: Option<&'static compat::OsStr>) -> ControlFlow<u32> {
        put(&self.0, Ev::Param(self.1, v.map(b)))
    }
}
struct P(L);
impl args::ParserReport<'static, u32> for P {
    fn report_error(&mut self, _: &mut args::ParserContext<'_, 'static, u32>, e: args::Error<'static>) -> ControlFlow<u32> {
        put(&self.0, Ev::Err(Er::from(&e)))
    }
}

/// Run the real parser; report indices are mapped back to definition order.
fn real(s: &MSchema, argv: &[Vec<u8>], stop: Option<usize>) -> Result<Run, String> {
    Ok(series(s, &[(argv, stop)])?.remove(0))
}

type Run = (Vec<Ev>, Result<Vec<String>, Option<u32>>);

/// Run the real parser on several command lines in a row, with one schema.
fn series(s: &MSchema, lines: &[(&[Vec<u8>], Option<usize>)]) -> Result<Vec<Run>, String> {
    let log: L = Default::default();
    let mut ar = Arena::default();
    let mut cmds = vec![];
    for (ci, c) in s.iter().enumerate() {
        let mut fl = vec![];
        for (fi, f) in c.flags.iter().enumerate() {
            let rep = ar.put(F(log.clone(), ci, fi));
            let name = ar.str(&f.name);
            fl.push(args::Flag::with(name, f.mode.real(), rep, None));
        }
        let fs = ar.flagset(fl);
        let path: Vec<&'static str> = c.path.iter().map(|p| ar.str(p)).collect();
        let path: &'static [&'static str] = ar.put(path);
        let rep = ar.put(C(log.clone(), ci));
        cmds.push(args::Command::with(path, rep, fs, None));
    }
    let cs = ar.cmdset(cmds);
    let schema = ar.put(args::Schema::with(cs));
    // The compiled schema must list all commands in path order, and all flags
    // in name order.
    same!(schema.commands().len(), s.len(), "number of commands in schema");
    let mut order: Vec<usize> = (0..s.len()).collect();
    order.sort_by(|x, y| s[*x].path.cmp(&s[*y].path));
    for (i, d) in order.iter().enumerate() {
        let c = schema.command_at(i);
        same!(c.path().iter().map(|v| v.to_string()).collect::<Vec<_>>(), s[*d].path, "command {i} of the schema");
        let mut names: Vec<&str> = s[*d].flags.iter().map(|f| &f.name[..]).collect();
        names.sort();
        same!(c.flags_iter().map(|f| f.name()).collect::<Vec<_>>(), names, "flags of command {i}");
    }
    let mut runs = vec![];
    for (argv, stop) in lines {
        log.borrow_mut().stop = *stop;
        let argv: Vec<&'static compat::OsStr> = argv.iter().map(|a| ar.os(a)).collect();
        let parser = ar.put(P(log.clone()));
        let n = argv.len();
        let mut it = argv.into_iter();
        let r = args::parse(parser, schema, &mut it);
        if r.is_ok() || r == Err(None) {
            same!(it.len(), 0, "arguments left unconsumed out of {n}");
        }
        let r = match r {
            Ok(i) => Ok(schema.command_at(i).path().iter().map(|v| v.to_string()).collect()),
            Err(e) => Err(e),
        };
        let l = std::mem::take(&mut *log.borrow_mut());
        ensure!(!l.late, "events reported after a stop: {:?}", l.ev);
        // Map "command in effect" from schema index to definition index.
        let ev = l.ev.into_iter().map(|e| match e {
            Ev::Set(c, f, n, at) => Ev::Set(c, f, n, order[at]),
            Ev::Toggle(c, f, n, at, v) => Ev::Toggle(c, f, n, order[at], v),
            Ev::Parse(c, f, n, at, v) => Ev::Parse(c, f, n, order[at], v),
            e => e,
        }).collect();
        runs.push((ev, r));
    }
    Ok(runs)
}

fn loose(a: &[Ev], b: &[Ev]) -> bool {
    // Error texts are the subject of another property.
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| match (x, y) {
        (Ev::Err(x), Ev::Err(y)) => x.kind() == y.kind(),
        _ => x == y,
    })
}

fn one(c: &mut Case, s: &MSchema, argv: &[Vec<u8>]) -> R {
    let (want, path) = model(s, argv);
    let (got, res) = real(s, argv, None)?;
    if !loose(&got, &want) {
        return Err(format!("reported calls differ\n{}\n  observed: {:?}\n  expected: {:?}", show_case(s, argv), got, want));
    }
    let wres = if s.iter().any(|c| c.path == path) { Ok(path) } else { Err(None) };
    same!(res, wres, "returned command\n{}", show_case(s, argv));
    c.count("events", want.len() as u64);
    let shape: Vec<(u8, usize, usize)> = want.iter().map(|e| match e {
        Ev::Set(c, f, ..) => (0, *c, *f),
        Ev::Toggle(c, f, _, _, v) => (1 + *v as u8, *c, *f),
        Ev::Parse(c, f, ..) => (3, *c, *f),
        Ev::Param(c, v) => (4 + v.is_some() as u8, *c, 0),
        Ev::Err(e) => (6 + e.kind(), 0, 0),
    }).collect();
    c.observe(&(shape, s.len()));
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.section("random", (150_000, 3_000_000, 24), |c| {
        let s = gen_schema(&mut c.rng);
        let argv = gen_argv(&mut c.rng, &s, 9);
        one(c, &s, &argv)?;
        c.sample(|| show_case(&s, &argv));
        Ok(())
    });
    // Many commands and flags, deep paths, long names and command lines.
    cx.section("large", (6_000, 120_000, 0), |c| {
        let s = gen_big_schema(&mut c.rng);
        for _ in 0..4 {
            let argv = gen_big_argv(&mut c.rng, &s);
            one(c, &s, &argv)?;
        }
        c.evals(3);
        Ok(())
    });
    // All command lines up to 4 arguments over a small alphabet, for random
    // schemas.
    cx.section("short", (60, 1500, 0), |c| {
        let s = gen_schema(&mut c.rng);
        let mut alpha: Vec<Vec<u8>> = vec![b"--".to_vec(), b"a".to_vec()];
        for cmd in &s {
            for p in &cmd.path {
                alpha.push(p.clone().into_bytes());
            }
            for f in &cmd.flags {
                alpha.push(format!("--{}", f.name).into_bytes());
                alpha.push(format!("--no-{}", f.name).into_bytes());
                alpha.push(format!("--{}=v", f.name).into_bytes());
            }
        }
        alpha.sort();
        alpha.dedup();
        c.rng.shuffle(&mut alpha);
        alpha.truncate(8);
        let k = alpha.len();
        let mut n = 0;
        for len in 0..=4u32 {
            for code in 0..k.pow(len) {
                let mut x = code;
                let argv: Vec<Vec<u8>> = (0..len).map(|_| { let v = alpha[x % k].clone(); x /= k; v }).collect();
                one(c, &s, &argv)?;
                n += 1;
            }
        }
        c.evals(n);
        Ok(())
    });
    // Several command lines in a row, some of them stopped halfway, against
    // one schema: no parse may depend on an earlier one.
    cx.section("series", (15_000, 250_000, 6), |c| {
        let large = c.rng.chance(1, 12);
        let s = if large { gen_big_schema(&mut c.rng) } else { gen_schema(&mut c.rng) };
        let k = c.rng.range(2, 6);
        let mut lines: Vec<Vec<Vec<u8>>> = vec![];
        for _ in 0..k {
            let same = !lines.is_empty() && c.rng.chance(1, 3);
            lines.push(if same { c.rng.pick(&lines).clone() } else if large { gen_big_argv(&mut c.rng, &s) } else { gen_argv(&mut c.rng, &s, 7) });
        }
        let want: Vec<_> = lines.iter().map(|l| model(&s, l)).collect();
        let mut plan: Vec<(&[Vec<u8>], Option<usize>)> = vec![];
        for (l, w) in lines.iter().zip(&want) {
            let stop = !w.0.is_empty() && c.rng.chance(1, 3);
            plan.push((l, stop.then(|| c.rng.below(w.0.len()))));
        }
        for (i, (got, res)) in series(&s, &plan)?.into_iter().enumerate() {
            let (w, path) = &want[i];
            let (w, wres) = match plan[i].1 {
                Some(k) => (&w[..=k], Err(Some(STOP + k as u32))),
                None => (&w[..], if s.iter().any(|c| c.path == *path) { Ok(path.clone()) } else { Err(None) }),
            };
            if !loose(&got, w) {
                return Err(format!("calls of parse {i} of a series differ\n{}\n  observed: {:?}\n  expected: {:?}", show_case(&s, &lines[i]), got, w));
            }
            same!(res, wres, "result of parse {i} of a series\n{}", show_case(&s, &lines[i]));
            c.count("series", 1);
        }
        c.evals(k as u64 - 1);
        Ok(())
    });
    // Stop at every reported call.
    cx.section("stop", (15_000, 200_000, 6), |c| {
        let s = gen_schema(&mut c.rng);
        let argv = gen_argv(&mut c.rng, &s, 7);
        let (want, _) = model(&s, &argv);
        for k in 0..want.len() {
            let (got, res) = real(&s, &argv, Some(k))?;
            if !loose(&got, &want[..=k]) {
                return Err(format!("calls up to stop {k} differ\n{}\n  observed: {:?}\n  expected: {:?}", show_case(&s, &argv), got, &want[..=k]));
            }
            same!(res, Err(Some(STOP + k as u32)), "value returned on stop {k}\n{}", show_case(&s, &argv));
        }
        c.evals(want.len() as u64);
        c.count("stops", want.len() as u64);
        Ok(())
    });
}

fn main() {
    harness::main(
        "C01",
        "A case is one (schema, argument list) pair parsed by the library and by the reference model; distinct = distinct sequence of reported calls (kind, command, flag) over schema size.",
        run,
    );
}
