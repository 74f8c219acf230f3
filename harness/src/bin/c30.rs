//! Compiled schemas: listing, lookup, and links between commands.

use harness::argsmodel::*;
use harness::*;
use osi::{args, compat};
use std::ops::ControlFlow;

/// A report with an address of its own.
struct Tag(#[allow(dead_code)] u64);
impl args::FlagReport<'static, ()> for Tag {
    fn report_set(&mut self, _: &mut args::FlagContext<'_, 'static, ()>) -> ControlFlow<()> { ControlFlow::Continue(()) }
    fn report_parse(&mut self, _: &mut args::FlagContext<'_, 'static, ()>, _: &'static compat::OsStr) -> ControlFlow<()> { ControlFlow::Continue(()) }
}
impl args::CommandReport<'static, ()> for Tag {
    fn report_parameter(&mut self, _: &mut args::CommandContext<'_, 'static, ()>, _: Option<&'static compat::OsStr>) -> ControlFlow<()> { ControlFlow::Continue(()) }
}

fn mode(m: args::FlagMode) -> &'static str {
    match m {
        args::FlagMode::Set => "Set",
        args::FlagMode::Toggle => "Toggle",
        args::FlagMode::Parse => "Parse",
    }
}
fn want_mode(m: Mode) -> &'static str { mode(m.real()) }

fn at(p: &mut (dyn args::FlagReport<'static, ()> + '_)) -> usize { p as *mut _ as *mut () as usize }
fn ca(p: &mut (dyn args::CommandReport<'static, ()> + '_)) -> usize { p as *mut _ as *mut () as usize }

fn check_flags(fs: &args::FlagSetRef<'static, 'static, ()>, want: &[&MFlag], what: &str) -> R {
    same!(fs.len(), want.len(), "number of flags of {what}");
    same!(fs.is_empty(), want.is_empty(), "emptiness of the flags of {what}");
    let it = fs.iter();
    let names: Vec<&str> = it.clone().map(|f| f.name()).collect();
    same!(names, want.iter().map(|f| &f.name[..]).collect::<Vec<_>>(), "flags of {what}");
    let mut again = it;
    for (i, w) in want.iter().enumerate() {
        let f = again.next().unwrap();
        ensure!(std::ptr::eq(f, fs.flag_at(i)), "flag {i} of {what} by iteration and by index");
        same!(f.name(), &w.name[..], "name of flag {i} of {what}");
        same!(mode(f.mode()), want_mode(w.mode), "mode of flag {i} of {what}");
        same!(f.help_short(), w.help.as_deref(), "help of flag {i} of {what}");
        same!(fs.search_by(|v| v.name().cmp(&w.name)), Ok(i), "search of flag {:?} of {what}", w.name);
    }
    ensure!(again.next().is_none(), "more flags in {what}");
    Ok(())
}

fn check(c: &mut Case, s: &MSchema) -> R {
    let mut ar = Arena::default();
    let mut tags: Vec<(usize, Vec<usize>)> = vec![];
    let mut cmds = vec![];
    for cmd in s {
        let mut t = vec![];
        let mut fl = vec![];
        for f in &cmd.flags {
            let rep = ar.put(Tag(0));
            t.push(rep as *mut Tag as usize);
            let h = f.help.as_ref().map(|h| ar.str(h));
            fl.push(args::Flag::with(ar.str(&f.name), f.mode.real(), rep, h));
        }
        let fs = ar.flagset(fl);
        let path: Vec<&'static str> = cmd.path.iter().map(|p| ar.str(p)).collect();
        let path: &'static [&'static str] = ar.put(path);
        let rep = ar.put(Tag(0));
        tags.push((rep as *mut Tag as usize, t));
        let h = cmd.help.as_ref().map(|h| ar.str(h));
        cmds.push(args::Command::with(path, rep, fs, h));
    }
    let cs = ar.cmdset(cmds);
    let schema = ar.put(args::Schema::with(cs));

    let mut order: Vec<usize> = (0..s.len()).collect();
    order.sort_by(|x, y| s[*x].path.cmp(&s[*y].path));
    let text = || show_case(s, &[]);

    same!(schema.commands().len(), s.len(), "number of commands\n{}", text());
    same!(schema.commands().is_empty(), s.is_empty(), "emptiness\n{}", text());
    let list: Vec<Vec<&str>> = schema.commands_iter().map(|v| v.path().to_vec()).collect();
    let want: Vec<Vec<&str>> = order.iter().map(|d| s[*d].path.iter().map(|v| &v[..]).collect()).collect();
    same!(list, want, "listed commands\n{}", text());

    for (i, d) in order.iter().enumerate() {
        let w = &s[*d];
        let v = schema.command_at(i);
        ensure!(std::ptr::eq(v, schema.commands().command_at(i)), "command {i} through the schema and its set");
        same!(v.path(), &want[i][..], "path of command {i}\n{}", text());
        same!(v.help_short(), w.help.as_deref(), "help of command {i}\n{}", text());
        let mut fl: Vec<&MFlag> = w.flags.iter().collect();
        fl.sort_by(|a, b| a.name.cmp(&b.name));
        check_flags(v.flags(), &fl, &format!("command {:?}", w.path)).map_err(|m| format!("{m}\n{}", text()))?;
        same!(v.flags_iter().map(|f| f.name()).collect::<Vec<_>>(), fl.iter().map(|f| &f.name[..]).collect::<Vec<_>>(), "flags of command {i}\n{}", text());

        // The link upwards names the longest defined proper prefix.
        let up = (0..w.path.len()).rev().find_map(|k| order.iter().position(|d| s[*d].path == w.path[..k]));
        same!(schema.commands().up_from(i), up, "command above {:?}\n{}", w.path, text());

        // Iteration from any position yields exactly the rest.
        let rest: Vec<Vec<&str>> = schema.commands().iter_from(i).map(|v| v.path().to_vec()).collect();
        same!(rest, want[i..].to_vec(), "commands from {i}\n{}", text());
        let mut it = schema.commands().iter_from(i);
        ensure!(std::ptr::eq(it.next().unwrap(), v), "first command from {i}\n{}", text());
        same!(it.clone().count(), s.len() - i - 1, "commands after {i}\n{}", text());
        same!(it.count(), s.len() - i - 1, "commands after {i}\n{}", text());
        same!(schema.commands().search_by(|v| v.path().cmp(&want[i])), Ok(i), "search of command {:?}\n{}", w.path, text());
    }
    same!(schema.commands().iter_from(s.len()).count(), 0, "commands past the last\n{}", text());

    // Searching for what is not there names its place in the order.
    for _ in 0..6 {
        let r = &mut c.rng;
        let mut p: Vec<String> = if s.is_empty() { vec![] } else { r.pick(s).path.clone() };
        match r.below(4) {
            0 => { p.pop(); },
            1 => p.push("m".into()),
            2 => if let Some(v) = p.last_mut() { v.push('m') },
            _ => if !p.is_empty() { let k = r.below(p.len()); p[k] = "".into() },
        }
        let key: Vec<&str> = p.iter().map(|v| &v[..]).collect();
        same!(schema.commands().search_by(|v| v.path().cmp(&key)), want.binary_search(&key), "search of {key:?}\n{}", text());
        if s.is_empty() {
            continue;
        }
        let i = r.below(s.len());
        let mut names: Vec<&str> = s[order[i]].flags.iter().map(|f| &f.name[..]).collect();
        names.sort();
        let key = match r.below(3) {
            0 if !names.is_empty() => format!("{}a", r.pick(&names)),
            1 if !names.is_empty() => { let n = *r.pick(&names); n.chars().skip(1).collect() },
            _ => "m".to_string(),
        };
        same!(schema.command_at(i).flags().search_by(|v| v.name().cmp(&key)), names.binary_search(&&key[..]), "search of flag {key:?} in command {i}\n{}", text());
    }

    // Every entry leads to the report it was defined with.
    for (i, d) in order.iter().enumerate() {
        same!(ca(schema.command_mut_at(i).report_mut()), tags[*d].0, "report of command {i}\n{}", text());
        same!(ca(schema.commands_mut().command_mut_at(i).report_mut()), tags[*d].0, "report of command {i}\n{}", text());
        let mut fl: Vec<usize> = (0..s[*d].flags.len()).collect();
        fl.sort_by(|a, b| s[*d].flags[*a].name.cmp(&s[*d].flags[*b].name));
        for (j, f) in fl.iter().enumerate() {
            same!(schema.flag_at((i, j)).name(), &s[*d].flags[*f].name[..], "flag {i},{j}\n{}", text());
            same!(schema.command_at(i).flag_at(j).name(), &s[*d].flags[*f].name[..], "flag {i},{j}\n{}", text());
            same!(at(schema.flag_mut_at((i, j)).report_mut()), tags[*d].1[*f], "report of flag {i},{j}\n{}", text());
            same!(at(schema.command_mut_at(i).flag_mut_at(j).report_mut()), tags[*d].1[*f], "report of flag {i},{j}\n{}", text());
            same!(at(schema.command_mut_at(i).flags_mut().flag_mut_at(j).report_mut()), tags[*d].1[*f], "report of flag {i},{j}\n{}", text());
        }
    }
    c.count("commands", s.len() as u64);
    c.count("flags", s.iter().map(|c| c.flags.len() as u64).sum());
    // Shape: depth and upward link of each command in order, flag counts.
    let ups: Vec<(usize, Option<usize>, usize)> = order.iter().enumerate().map(|(i, d)| (s[*d].path.len(), schema.commands().up_from(i), s[*d].flags.len())).collect();
    c.observe(&ups);
    c.sample(text);
    Ok(())
}

/// The set types themselves, without a schema.
fn sets(c: &mut Case) -> R {
    let n = |r: &mut Rng| big(r);
    fn big(r: &mut Rng) -> String { format!("{}{}", r.pick(&["", "a", "no-", "\u{e4}", "zz"]), r.below(50)) }
    let mut names: Vec<String> = vec![];
    while names.len() < 5 {
        let v = n(&mut c.rng);
        if !names.contains(&v) {
            names.push(v);
        }
    }
    let mut t = [Tag(0), Tag(1), Tag(2), Tag(3), Tag(4)];
    let [a, b, d, e, f] = &mut t;
    let mut set: args::FlagSet<'_, 'static, 5, ()> = args::FlagSet::with([
        args::Flag::with(&names[0], args::FlagMode::Set, a, None),
        args::Flag::with(&names[1], args::FlagMode::Toggle, b, Some("1")),
        args::Flag::with(&names[2], args::FlagMode::Parse, d, Some("2")),
        args::Flag::with(&names[3], args::FlagMode::Set, e, None),
        args::Flag::with(&names[4], args::FlagMode::Parse, f, Some("4")),
    ]);
    let modes = ["Set", "Toggle", "Parse", "Set", "Parse"];
    let helps = [None, Some("1"), Some("2"), None, Some("4")];
    let mut order: Vec<usize> = (0..5).collect();
    order.sort_by(|x, y| names[*x].cmp(&names[*y]));
    // Through dereferencing and through explicit conversion.
    for (i, d) in order.iter().enumerate() {
        for v in [set.flag_at(i), set.as_ref().flag_at(i)] {
            same!((v.name(), mode(v.mode()), v.help_short()), (&names[*d][..], modes[*d], helps[*d]), "flag {i} of {names:?}");
        }
        let p = set.flag_mut_at(i) as *mut _ as usize;
        same!(set.as_mut().flag_mut_at(i) as *mut _ as usize, p, "flag {i} of {names:?}");
    }
    same!((set.len(), set.is_empty(), set.as_ref().len(), set.iter().count()), (5, false, 5, 5), "size of {names:?}");
    c.observe(&order);
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.section("random", (60_000, 1_500_000, 8), |c| {
        let s = gen_schema(&mut c.rng);
        check(c, &s)
    });
    cx.section("large", (3_000, 60_000, 0), |c| {
        let s = gen_big_schema(&mut c.rng);
        check(c, &s)
    });
    cx.section("sets", (20_000, 300_000, 8), sets);
    // Every order of every subset of a small tree.
    let all: &[&[&str]] = &[&[], &["a"], &["a", "a"], &["a", "b", "c"], &["ab"], &["b"], &["b", "a"]];
    cx.exhaustive("orders", 1 << all.len(), |c| {
        let mut sub: Vec<&[&str]> = (0..all.len()).filter(|i| c.idx >> i & 1 != 0).map(|i| all[i]).collect();
        // Heap's algorithm, up to a cap.
        let n = sub.len();
        let mut ctl = vec![0; n];
        let mut todo = 1;
        let go = |c: &mut Case, sub: &[&[&str]]| {
            let s: MSchema = sub.iter().map(|p| MCmd { path: p.iter().map(|v| v.to_string()).collect(), flags: vec![], help: Some(p.join("/")) }).collect();
            check(c, &s)
        };
        go(c, &sub)?;
        let mut i = 0;
        while i < n {
            if ctl[i] < i {
                let k = if i % 2 == 0 { 0 } else { ctl[i] };
                sub.swap(k, i);
                go(c, &sub)?;
                todo += 1;
                ctl[i] += 1;
                i = 0;
            } else {
                ctl[i] = 0;
                i += 1;
            }
        }
        c.evals(todo - 1);
        Ok(())
    });
}

fn main() {
    harness::main(
        "C30",
        "A case is one set of commands and flags in one order of definition, compiled and compared entry by entry with a sorted reference; distinct = distinct (depth, upward link, number of flags) per listed command.",
        run,
    );
}
