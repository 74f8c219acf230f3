//! Help output vs. a reference renderer.

use harness::argsmodel::*;
use harness::*;
use osi::{args, compat};
use std::ops::ControlFlow;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Out {
    Info(String),
    Section(String),
    Usage(String, Vec<String>),
    Flag(String, String, Option<String>, usize),
    Command(String, Option<String>, usize),
}

struct Sink { out: Vec<Out>, stop: Option<usize>, late: bool }
impl Sink {
    fn put(&mut self, o: Out) -> ControlFlow<u32> {
        let at = self.out.len();
        self.late |= self.stop.is_some_and(|s| at > s);
        self.out.push(o);
        if self.stop == Some(at) { ControlFlow::Break(700 + at as u32) } else { ControlFlow::Continue(()) }
    }
}
impl args::help::Write<u32> for Sink {
    fn write_info(&mut self, i: &str) -> ControlFlow<u32> { self.put(Out::Info(i.into())) }
    fn write_section(&mut self, i: &str) -> ControlFlow<u32> { self.put(Out::Section(i.into())) }
    fn write_usage(&mut self, e: &str, p: &[&str]) -> ControlFlow<u32> {
        self.put(Out::Usage(e.into(), p.iter().map(|v| v.to_string()).collect()))
    }
    fn write_flag(&mut self, f: &str, m: args::FlagMode, i: Option<&str>, w: usize) -> ControlFlow<u32> {
        self.put(Out::Flag(f.into(), format!("{m:?}"), i.map(|v| v.into()), w))
    }
    fn write_command(&mut self, c: &str, i: Option<&str>, w: usize) -> ControlFlow<u32> {
        self.put(Out::Command(c.into(), i.map(|v| v.into()), w))
    }
}

struct Ignore;
impl args::FlagReport<'static, u32> for Ignore {
    fn report_set(&mut self, _: &mut args::FlagContext<'_, 'static, u32>) -> ControlFlow<u32> { ControlFlow::Continue(()) }
    fn report_parse(&mut self, _: &mut args::FlagContext<'_, 'static, u32>, _: &'static compat::OsStr) -> ControlFlow<u32> { ControlFlow::Continue(()) }
}
impl args::ParserReport<'static, u32> for Ignore {
    fn report_error(&mut self, _: &mut args::ParserContext<'_, 'static, u32>, _: args::Error<'static>) -> ControlFlow<u32> { ControlFlow::Continue(()) }
}

fn render(s: &MSchema, entry: &str, info: &str, at: usize) -> Vec<Out> {
    let c = &s[at];
    let mut o = vec![Out::Info(info.into()), Out::Section("Usage".into()), Out::Usage(entry.into(), c.path.clone())];
    let mut fl: Vec<&MFlag> = c.flags.iter().collect();
    fl.sort_by(|a, b| a.name.cmp(&b.name));
    if !fl.is_empty() {
        let w = fl.iter().map(|f| f.name.chars().count()).max().unwrap();
        o.push(Out::Section("Flags".into()));
        o.extend(fl.iter().map(|f| Out::Flag(f.name.clone(), format!("{:?}", f.mode), f.help.clone(), w)));
    }
    let mut subs: Vec<&MCmd> = s.iter().filter(|d| d.path.len() == c.path.len() + 1 && d.path.starts_with(&c.path)).collect();
    subs.sort_by(|a, b| a.path.cmp(&b.path));
    if !subs.is_empty() {
        let w = subs.iter().map(|d| d.path.last().unwrap().chars().count()).max().unwrap();
        o.push(Out::Section("Commands".into()));
        o.extend(subs.iter().map(|d| Out::Command(d.path.last().unwrap().clone(), d.help.clone(), w)));
    }
    o
}

fn help(c: &mut Case, large: bool) -> R {
    let r = &mut c.rng;
    let mut s = if large { gen_big_schema(r) } else { gen_schema(r) };
    // Put help flags on some commands.
    let hname = *r.pick(&["help", "no-help", "h", "a"]);
    let mut marks: Vec<Vec<bool>> = vec![];
    for (i, cmd) in s.iter_mut().enumerate() {
        if r.chance(2, 3) || i == 0 {
            let mode = *r.pick(&[Mode::Toggle, Mode::Toggle, Mode::Set]);
            cmd.flags.retain(|f| f.name != hname);
            cmd.flags.push(MFlag { name: hname.into(), mode, help: Some("H".into()) });
        }
        marks.push(cmd.flags.iter().map(|f| f.name == hname).collect());
    }
    if large {
        // Set sizes are limited to those the arena can build.
        for (i, cmd) in s.iter_mut().enumerate() {
            while ![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33, 64, 150, 300].contains(&cmd.flags.len()) {
                cmd.flags.remove(0);
            }
            marks[i] = cmd.flags.iter().map(|f| f.name == hname).collect();
        }
    }
    let mut argv = if large { gen_big_argv(r, &s) } else { gen_argv(r, &s, 8) };
    for _ in 0..r.range(0, 4) {
        let k = r.below(argv.len() + 1);
        argv.insert(k, format!("--{}{}", if r.chance(1, 4) { "no-" } else { "" }, hname).into_bytes());
    }
    let mut ar = Arena::default();
    let mut text = |r: &mut Rng, v: &[&'static str]| -> &'static str {
        match r.below(8) {
            0 => { let n = r.range(1, 300); ar.str(&r.pick(&["x", "\u{e4}", "a b ", "l\n"]).repeat(n)) },
            1 => ar.str(&r.pick(&["w", "_", "9", "\\", "\""]).repeat(2)),
            _ => *r.pick(v),
        }
    };
    let entry = text(r, &["prog", "", "ä b", "/usr/bin/prog", "./p", "-", "p\0q", "p ", "p\n", "p-1.2", "prog --", "\u{1f600}", "Usage", "p.exe", "x"]);
    let info = text(r, &["Info", "", "two\nlines", "ends with newline\n", "\n", " ", "Ends with dot.", "\ttab", "Flags", "\u{feff}x", "a\0", "{}", "%s", "0"]);
    let help: &'static args::help::Help<'static> = ar.put(args::help::Help::with(entry, info));
    let mut cmds = vec![];
    for (ci, cmd) in s.iter().enumerate() {
        let mut fl = vec![];
        for (fi, f) in cmd.flags.iter().enumerate() {
            let rep: &'static mut dyn args::FlagReport<'static, u32> =
                if marks[ci][fi] { ar.put(help.flag()) } else { ar.put(Ignore) };
            let h = f.help.as_ref().map(|h| ar.str(h));
            fl.push(args::Flag::with(ar.str(&f.name), f.mode.real(), rep, h));
        }
        let fs = ar.flagset(fl);
        let path: Vec<&'static str> = cmd.path.iter().map(|p| ar.str(p)).collect();
        let path: &'static [&'static str] = ar.put(path);
        let h = cmd.help.as_ref().map(|h| ar.str(h));
        let rep = ar.put(());
        cmds.push(args::Command::with(path, rep, fs, h));
    }
    let cs = ar.cmdset(cmds);
    let schema = ar.put(args::Schema::with(cs));
    let a: Vec<&'static compat::OsStr> = argv.iter().map(|a| ar.os(a)).collect();
    let _ = args::parse(&mut Ignore, schema, &mut a.into_iter());

    let (ev, _) = model(&s, &argv);
    let mut at = None;
    for e in &ev {
        match e {
            Ev::Set(c, f, _, k) if marks[*c][*f] => at = Some(*k),
            Ev::Toggle(c, f, _, k, v) if marks[*c][*f] => at = v.then_some(*k),
            _ => (),
        }
    }
    let want = at.map(|at| render(&s, entry, info, at));
    for round in 0..3 {
        let mut sink = Sink { out: vec![], stop: None, late: false };
        let res = match round {
            0 => help.help(&mut sink, schema),
            1 => help.try_help(&mut sink, schema),
            _ => help.clone().help(&mut sink, schema),
        };
        same!(res, Ok(want.is_some()), "result of rendering\n{}", show_case(&s, &argv));
        same!(sink.out, want.clone().unwrap_or_default(), "rendered help, round {round}\n{}", show_case(&s, &argv));
    }
    if let Some(w) = &want {
        for k in 0..w.len() {
            let mut sink = Sink { out: vec![], stop: Some(k), late: false };
            let res = if k % 2 == 0 { help.help(&mut sink, schema) } else { help.try_help(&mut sink, schema) };
            same!(res, Err(700 + k as u32), "result when the sink stops at {k}\n{}", show_case(&s, &argv));
            ensure!(!sink.late, "output after the sink stopped\n{}", show_case(&s, &argv));
            same!(sink.out[..], w[..=k], "output up to stop {k}\n{}", show_case(&s, &argv));
        }
        let n = w.len() as u64;
        c.evals(n);
        c.count("rendered", 1);
        c.count("stops", n);
        c.observe(w);
        c.sample(|| format!("{}\nhelp {:?}", show_case(&s, &argv), w));
    } else {
        c.count("not_requested", 1);
    }
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.section("help", (80_000, 1_500_000, 0), |c| help(c, false));
    cx.section("large", (6_000, 120_000, 0), |c| help(c, true));
}

fn main() {
    harness::main(
        "C03",
        "A case parses a generated command line with help flags and renders help; non-trivial when help was requested, distinct = distinct rendered output.",
        run,
    );
}
