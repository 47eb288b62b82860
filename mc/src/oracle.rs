//! The oracles: what is asked of the library for one input, and what the answer is compared with.
use crate::engine::{fp, show, Check, Ctx, Verdict};
use crate::model::{self, Cfg, Ent, EntRes, Res};
use crate::obs::{self, Audit};
use email_parser::prelude::*;
use std::sync::Arc;

pub fn class(r: &Res) -> u8 {
    match r {
        Res::Err => 0,
        Res::Ok(_) => 1,
        Res::Dup(_) => 2,
        Res::Missing(_) => 3,
    }
}
fn broken(e: String) -> Verdict {
    Verdict { outcome: fp(&e), bad: Some(e), class: 5 }
}

/// An entity and, when it is a multipart, what its parts parse to.
#[derive(Debug, PartialEq, Clone, Hash)]
pub struct Tree {
    pub res: EntRes,
    pub parts: Vec<Tree>,
}
pub const TREE_DEPTH: usize = 6;

#[cfg(feature = "mime")]
pub fn tree(e: &email_parser::mime::RawEntity, depth: usize, a: &mut Audit) -> Tree {
    a.ranges.push((e.value.as_ptr() as usize, e.value.as_ptr() as usize + e.value.len()));
    a.ranges.push((e.subtype.as_ptr() as usize, e.subtype.as_ptr() as usize + e.subtype.len()));
    let r = e.parse();
    let res = obs::parsed_entity(&r, a);
    let mut parts = vec![];
    if depth > 0 {
        if let Ok(email_parser::mime::Entity::Multipart { content, .. }) = &r {
            parts = content.iter().map(|p| tree(p, depth - 1, a)).collect();
        }
    }
    Tree { res, parts }
}
pub fn model_tree(c: &Cfg, e: &Ent, depth: usize) -> Tree {
    let res = model::entity(c, e);
    let mut parts = vec![];
    if depth > 0 {
        if let EntRes::Multipart(_, content) = &res {
            parts = content.iter().map(|p| model_tree(c, p, depth - 1)).collect();
        }
    }
    Tree { res, parts }
}

/// The library's answer on a message laid against a guard page.
pub struct Answer {
    pub res: Res,
    pub tree: Option<Tree>,
    pub audit: Audit,
}
pub fn ask(ctx: &mut Ctx, input: &[u8], deep: bool, at_end: bool) -> Result<Answer, String> {
    let data: &[u8] = {
        let d = ctx.guard.lay(input, at_end);
        // the buffer stays as it is until the next `lay`
        unsafe { std::slice::from_raw_parts(d.as_ptr(), d.len()) }
    };
    ctx.imp(|| {
        let r = Email::parse(data);
        let mut audit = Audit::new(vec![(data.as_ptr() as usize, data.as_ptr() as usize + data.len())]);
        let res = obs::result(&r, &mut audit);
        #[allow(unused_mut)]
        let mut tr = None;
        #[cfg(feature = "mime")]
        if deep {
            if let Ok(e) = &r {
                tr = Some(tree(&e.mime_entity, TREE_DEPTH, &mut audit));
            }
        }
        let _ = deep;
        Answer { res, tree: tr, audit }
    })
}
pub fn expect(ctx: &mut Ctx, cfg: &Cfg, input: &[u8], deep: bool) -> (Res, Option<Tree>) {
    ctx.model(|| {
        let r = model::parse(cfg, input);
        let t = match &r {
            Res::Ok(o) if deep && cfg.mime => Some(model_tree(cfg, o.ent.as_ref().unwrap(), TREE_DEPTH)),
            _ => None,
        };
        (r, t)
    })
}

fn differing(got: &Res, want: &Res) -> String {
    if let (Res::Ok(g), Res::Ok(w)) = (got, want) {
        macro_rules! f {
            ($($n:ident),*) => { $( if g.$n != w.$n { return format!("field `{}`:\n  expected {:?}\n  got      {:?}", stringify!($n), w.$n, g.$n) } )* }
        }
        f!(from, sender, subject, date, to, cc, bcc, reply_to, message_id, in_reply_to, references, comments, keywords, trace, unknown);
        if g.body != w.body {
            return format!("body:\n  expected {:?}\n  got      {:?}", w.body.as_ref().map(|b| show(b)), g.body.as_ref().map(|b| show(b)));
        }
        if g.ent != w.ent {
            return format!("entity:\n  expected {:?}\n  got      {:?}", w.ent, g.ent);
        }
    }
    let cut = |r: &Res| {
        let s = format!("{:?}", r);
        s.chars().take(1500).collect::<String>()
    };
    format!("result:\n  expected {}\n  got      {}", cut(want), cut(got))
}

/// Agreement with the reference model on everything a message shows; with `deep`, also on what its
/// entities parse to, recursively.
pub fn message(deep: bool) -> Check {
    let cfg = Cfg::current();
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let got = match ask(ctx, input, deep, true) {
            Ok(a) => a,
            Err(e) => return broken(e),
        };
        let (want, want_tree) = expect(ctx, &cfg, input, deep);
        let outcome = fp(&(&got.res, &got.tree));
        let class = class(&got.res);
        let bad = if got.res != want {
            Some(differing(&got.res, &want))
        } else if got.tree != want_tree {
            Some(format!("entities:\n  expected {:?}\n  got      {:?}", want_tree, got.tree))
        } else {
            None
        };
        Verdict { bad, outcome, class }
    })
}

/// The low-level reading: `parse_message` gives the model's trace blocks, fields in order and body, and the
/// message as a whole is consistent with it: refused when it is, and nothing else in it.
pub fn low() -> Check {
    let cfg = Cfg::current();
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let data: &[u8] = {
            let d = ctx.guard.lay(input, true);
            unsafe { std::slice::from_raw_parts(d.as_ptr(), d.len()) }
        };
        let got = match ctx.imp(|| {
            let mut a = Audit::new(vec![(data.as_ptr() as usize, data.as_ptr() as usize + data.len())]);
            (obs::low(data, &mut a), Email::parse(data).is_ok(), a)
        }) {
            Ok(g) => g,
            Err(e) => return broken(e),
        };
        let want = ctx.model(|| {
            model::low(&cfg, input).map(|l| obs::LowObs {
                trace: l.trace.iter().map(|t| format!("{:?}", t)).collect(),
                fields: l.fields,
                body: l.body.map(|b| b.to_vec()),
            })
        });
        let (got, whole, audit) = got;
        let bad = if got != want {
            Some(match (&got, &want) {
                (Some(g), Some(w)) => match g.fields.iter().zip(&w.fields).position(|(a, b)| a != b) {
                    Some(k) => format!("field number {}:\n  expected {:?}\n  got      {:?}", k + 1, w.fields[k], g.fields[k]),
                    None => format!("fields and body:\n  expected {:?}\n  got      {:?}", w, g),
                },
                _ => format!("fields and body:\n  expected {:?}\n  got      {:?}", want, got),
            })
        } else if whole && got.is_none() {
            Some("the message is accepted although its fields cannot be read".into())
        } else if audit.bad_utf8 || !audit.outside.is_empty() {
            Some(format!("text that is not UTF-8 or not from the input: {:?}", audit.outside))
        } else {
            None
        };
        Verdict { bad, outcome: fp(&format!("{:?}", got)), class: if got.is_some() { 1 } else { 0 } }
    })
}

/// Any input at all: an answer comes back, twice the same, from both placements of the input, and
/// every entity can be asked for its content.
pub fn total() -> Check {
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let mut outs = vec![];
        for at_end in [true, false] {
            match ask(ctx, input, true, at_end) {
                Ok(a) => outs.push((a.res, a.tree)),
                Err(e) => return broken(e),
            }
        }
        let bad = if outs[0] == outs[1] {
            None
        } else {
            Some(format!("two answers for one input:\n  {:?}\n  {:?}", outs[0], outs[1]))
        };
        Verdict { bad, outcome: fp(&outs[0]), class: class(&outs[0].0) }
    })
}

#[repr(C)]
struct Ts {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Ts) -> i32;
}
fn cpu() -> u64 {
    let mut t = Ts { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.ns as u64
}
/// A family of messages `start piece^n end` or `start piece^n middle piece'^n end` (pieces set off by 0xFE, an
/// 0xFD in a piece stands for its running number): what reading one costs must grow no faster than its length.
pub fn member(input: &[u8], n: usize) -> Vec<u8> {
    let p: Vec<&[u8]> = input.split(|b| *b == 0xfe).collect();
    let mut m = vec![];
    for (k, p) in p.iter().enumerate() {
        for i in 0..if k % 2 == 1 { n } else { 1 } {
            for c in *p {
                match c {
                    0xfd => m.extend_from_slice(i.to_string().as_bytes()),
                    c => m.push(*c),
                }
            }
        }
    }
    m
}
/// Everything a user can ask of a message, down to the parts of parts.
pub fn read_all(m: &[u8]) -> (bool, bool) {
    let r = Email::parse(m);
    #[allow(unused_mut)]
    let mut inner = false;
    #[cfg(feature = "mime")]
    if let Ok(e) = &r {
        fn visit(e: &email_parser::mime::RawEntity, depth: usize) -> bool {
            match e.parse() {
                Ok(email_parser::mime::Entity::Multipart { content, .. }) => depth == 0 || content.iter().map(|p| visit(p, depth - 1)).fold(true, |a, b| a & b),
                r => r.is_ok(),
            }
        }
        inner = visit(&e.mime_entity, 2);
    }
    (r.is_ok(), inner)
}
/// Linear in counted work: `f` times the pieces, at most `f` times the work, with a half of allowance for
/// what does not grow evenly (buffers that double, the random seeds of hash tables). `f` is 1 modulo 12, so that
/// both sizes agree modulo the group sizes of the transfer encodings.
#[cfg(feature = "work")]
pub fn linear_work(f: usize) -> Check {
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let unit = member(input, 1).len().saturating_sub(member(input, 0).len()).max(1);
        let n = (512 / unit).max(24);
        let (small, large) = (member(input, n), member(input, n * f));
        let mut w = [0u64; 2];
        let mut last = (false, false);
        for (k, m) in [&small, &large].into_iter().enumerate() {
            let r = ctx.imp(|| {
                let a = crate::work::read();
                let r = read_all(m);
                (crate::work::read() - a, r)
            });
            match r {
                Ok((x, r)) => {
                    w[k] = x;
                    last = r;
                }
                Err(e) => return broken(e),
            }
        }
        // running numbers get longer
        let bare = member(input, 0).len();
        let factor = (f as f64).max((large.len() - bare) as f64 / (small.len() - bare).max(1) as f64);
        let limit = (w[0] as f64 * factor * 1.5) as u64 + 2000;
        let bad = if w[1] > limit {
            Some(format!(
                "work out of proportion: the message with {} repetitions ({} bytes) takes {} units of work (basic blocks, 16 bytes moved or allocated), the one with {} repetitions ({} bytes) takes {}; up to {} would be in proportion\nthe message: b\"{}\", with what stands between each pair of \\xfe repeated",
                n, small.len(), w[0], n * f, large.len(), w[1], limit, show(input)
            ))
        } else {
            None
        };
        Verdict { bad, outcome: fp(&(w, last)), class: last.0 as u8 }
    })
}
/// Linear in processor time, coarsely: sixteen times the pieces take less than sixty times as long.
pub fn linear_time() -> Check {
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let unit = member(input, 1).len().saturating_sub(member(input, 0).len()).max(1);
        let n = (4000 / unit).max(12);
        let (small, large) = (member(input, n), member(input, 16 * n));
        let mut last = (false, false);
        let mut bad = None;
        // measured once when it is cheap; a suspicion must be confirmed six times in a row
        for round in 0..6 {
            let mut time = |m: &[u8]| -> Result<u64, String> {
                let mut best = u64::MAX;
                for _ in 0..if round == 0 { 1 } else { 3 } {
                    let t0 = cpu();
                    last = ctx.imp(|| read_all(m))?;
                    best = best.min(cpu() - t0);
                }
                Ok(best)
            };
            let (a, b) = match (time(&small), time(&large)) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(e), _) | (_, Err(e)) => return broken(e),
            };
            if b < 8_000_000 || b < 60 * a {
                bad = None;
                break;
            }
            bad = Some(format!("time out of proportion: a message of {} bytes takes {} us, one of {} bytes {} us", small.len(), a / 1000, large.len(), b / 1000));
        }
        Verdict { bad, outcome: fp(&last), class: last.0 as u8 }
    })
}

/// Text handed out is UTF-8 and borrowed data lies in the caller's buffer.
pub fn memory() -> Check {
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let a = match ask(ctx, input, true, true) {
            Ok(a) => a,
            Err(e) => return broken(e),
        };
        let bad = if a.audit.bad_utf8 {
            Some(format!("a string of the result is not UTF-8: {:?}", a.res))
        } else if !a.audit.outside.is_empty() {
            Some(format!("borrowed text outside of the input: {:?}", a.audit.outside))
        } else {
            None
        };
        Verdict { bad, outcome: fp(&(&a.res, a.audit.borrowed, a.audit.owned)), class: class(&a.res) }
    })
}

/// Nothing is copied (and the answer is the model's).
pub fn no_copy() -> Check {
    no_copy_(false)
}
/// The same, also for the parts of a multipart and the text of an entity.
#[cfg(feature = "mime")]
pub fn no_copy_deep() -> Check {
    no_copy_(true)
}
fn no_copy_(deep: bool) -> Check {
    let cfg = Cfg::current();
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let a = match ask(ctx, input, deep, true) {
            Ok(a) => a,
            Err(e) => return broken(e),
        };
        let (want, want_tree) = expect(ctx, &cfg, input, deep);
        let bad = if !matches!(a.res, Res::Ok(_)) {
            Some(format!("a plain message was refused: {:?}", a.res))
        } else if a.res != want {
            Some(differing(&a.res, &want))
        } else if a.tree != want_tree {
            Some(format!("entities:\n  expected {:?}\n  got      {:?}", want_tree, a.tree))
        } else if a.audit.owned > 0 {
            Some(format!("{} string(s) were copied: {:?}", a.audit.owned, a.audit.owned_text))
        } else if !a.audit.outside.is_empty() {
            Some(format!("borrowed text outside of the input: {:?}", a.audit.outside))
        } else {
            None
        };
        Verdict { bad, outcome: fp(&(&a.res, a.audit.borrowed)), class: class(&a.res) }
    })
}

/// A history: every byte of the input picks a message of `corpus`. The messages are read one after the
/// other, first through one and the same buffer (results dropped), then each from its own buffer with all
/// results kept and only looked at when the last one is there. Whatever came before or is alive, every
/// message reads as the model says, through every entry point, and the caller's bytes are left alone.
pub fn history(corpus: Vec<Vec<u8>>) -> Check {
    let cfg = Cfg::current();
    let base: Vec<(Res, Option<Tree>)> = corpus
        .iter()
        .map(|m| {
            let r = model::parse(&cfg, m);
            let t = match &r {
                Res::Ok(o) if cfg.mime => Some(model_tree(&cfg, o.ent.as_ref().unwrap(), TREE_DEPTH)),
                _ => None,
            };
            (r, t)
        })
        .collect();
    let room = corpus.iter().map(|m| m.len()).max().unwrap_or(0);
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let pick: Vec<usize> = input.iter().map(|b| (*b as usize).min(corpus.len() - 1)).collect();
        let describe = |pick: &[usize], k: usize, why: &str, got: String| {
            let all: Vec<String> = pick.iter().map(|p| format!("  b\"{}\"", show(&corpus[*p]))).collect();
            format!("messages read in this order:\n{}\nnumber {} {}:\n  expected {:?}\n  got      {}", all.join("\n"), k + 1, why, base[pick[k]], got)
        };
        let mut buf = vec![0u8; room];
        let mut bad = None;
        let mut seen = vec![];
        for (k, p) in pick.iter().enumerate() {
            let m = &corpus[*p];
            buf[..m.len()].copy_from_slice(m);
            let data = &buf[..m.len()];
            let r = ctx.imp(|| {
                let mut au = Audit::new(vec![]);
                look(&Email::parse(data), &mut au)
            });
            match r {
                Ok(r) => {
                    if r != base[*p] && bad.is_none() {
                        bad = Some(describe(&pick, k, "(one buffer for all)", format!("{:?}", r)));
                    }
                    if data != &m[..] && bad.is_none() {
                        bad = Some(describe(&pick, k, "was written to", show(data)));
                    }
                    seen.push(fp(&r));
                }
                Err(e) => return broken(e),
            }
        }
        // the last ones of a very long history are kept
        let pick = &pick[pick.len().saturating_sub(5_000)..];
        let own: Vec<Vec<u8>> = pick.iter().map(|p| corpus[*p].clone()).collect();
        let r = ctx.imp(|| {
            let mut live: Vec<Result<Email, email_parser::error::Error>> = vec![];
            let mut fields = vec![];
            for (k, m) in own.iter().enumerate() {
                let data: &[u8] = m;
                live.push(if k % 2 == 0 { Email::parse(data) } else { std::convert::TryFrom::try_from(data) });
                fields.push(email_parser::parse_message(data));
            }
            let mut au = Audit::new(vec![]);
            let first: Vec<_> = live.iter().map(|r| look(r, &mut au)).collect();
            let second: Vec<_> = live.iter().rev().map(|r| look(r, &mut au)).collect();
            let split: Vec<bool> = fields.iter().map(|f| f.is_ok()).collect();
            (first, second.into_iter().rev().collect::<Vec<_>>(), split)
        });
        match r {
            Ok((first, second, split)) => {
                for (k, p) in pick.iter().enumerate() {
                    if bad.is_none() && first[k] != base[*p] {
                        bad = Some(describe(&pick, k, "(all kept)", format!("{:?}", first[k])));
                    }
                    if bad.is_none() && second[k] != base[*p] {
                        bad = Some(describe(&pick, k, "(all kept, looked at a second time)", format!("{:?}", second[k])));
                    }
                    if bad.is_none() && matches!(base[*p].0, Res::Ok(_) | Res::Dup(_) | Res::Missing(_)) && !split[k] {
                        bad = Some(describe(&pick, k, "was refused by parse_message", String::new()));
                    }
                    if bad.is_none() && own[k] != corpus[*p] {
                        bad = Some(describe(&pick, k, "was written to", show(&own[k])));
                    }
                }
            }
            Err(e) => return broken(e),
        }
        Verdict { bad, outcome: fp(&seen), class: 4 }
    })
}
/// How many basic blocks of the library a message takes (parsing it and its entities), told by a copy of the process:
/// this one has not used the library yet.
#[cfg(feature = "sched")]
pub fn blocks_of(m: &[u8]) -> u64 {
    let r = crate::sys::forked(|| {
        let m = m.to_vec();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let a = crate::work::blocks();
            let _ = std::panic::catch_unwind(|| look(&Email::parse(&m), &mut Audit::new(vec![])));
            let _ = tx.send(crate::work::blocks() - a);
        });
        // (a library that hangs on it is reported when the schedules run)
        rx.recv_timeout(std::time::Duration::from_secs(5)).unwrap_or(5_000).to_le_bytes().to_vec()
    });
    r.map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(5_000)
}
/// A schedule of threads that read messages at the same time. The input: the number of threads, for each the
/// message it reads, then the turns: thread and number of basic blocks (two bytes). Every thread gets the answer
/// that its message gets when it is read alone. With `fresh`, the schedule is the first thing that happens in its
/// process.
#[cfg(feature = "sched")]
pub fn threads(corpus: Vec<Vec<u8>>, fresh: bool) -> Check {
    let cfg = Cfg::current();
    let base: Vec<(Res, Option<Tree>)> = corpus
        .iter()
        .map(|m| {
            let r = model::parse(&cfg, m);
            let t = match &r {
                Res::Ok(o) if cfg.mime => Some(model_tree(&cfg, o.ent.as_ref().unwrap(), TREE_DEPTH)),
                _ => None,
            };
            (r, t)
        })
        .collect();
    let (corpus, base) = (Arc::new(corpus), Arc::new(base));
    // outcome, whether a thread had to wait, what is wrong
    let go = move |input: &[u8]| -> (u64, bool, Option<String>) {
        let n = (*input.first().unwrap_or(&1) as usize).clamp(1, 200);
        let at = |i: usize| *input.get(i).unwrap_or(&0) as usize;
        let pick: Vec<usize> = (0..n).map(|t| at(1 + t).min(corpus.len() - 1)).collect();
        let turns: Vec<(usize, u64)> = input.get(1 + n..).unwrap_or(&[]).chunks_exact(3).map(|c| (c[0] as usize % n, c[1] as u64 * 256 + c[2] as u64)).collect();
        let results: Arc<std::sync::Mutex<Vec<Option<Result<(bool, u64, String), String>>>>> = Arc::new(std::sync::Mutex::new(vec![None; n]));
        let jobs: Vec<Box<dyn FnOnce() + Send>> = pick
            .iter()
            .enumerate()
            .map(|(t, p)| {
                let (corpus, base, results, p) = (corpus.clone(), base.clone(), results.clone(), *p);
                Box::new(move || {
                    let r = std::panic::catch_unwind(|| {
                        let r = look(&Email::parse(&corpus[p]), &mut Audit::new(vec![]));
                        let ok = r == base[p];
                        (ok, fp(&r), if ok { String::new() } else { format!("{:?}", r) })
                    });
                    results.lock().unwrap()[t] = Some(r.map_err(|_| "the library panicked".into()));
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let ran = crate::sched::run(jobs, &turns);
        let results = results.lock().unwrap();
        let mut bad = None;
        for (t, r) in results.iter().enumerate() {
            let why = match r {
                Some(Ok((true, _, _))) => continue,
                Some(Ok((_, _, got))) => format!("expected {:?}\n  got      {}", base[pick[t]], got),
                Some(Err(e)) => e.clone(),
                None => "no answer".into(),
            };
            if bad.is_none() {
                let all: Vec<String> = pick.iter().enumerate().map(|(t, p)| format!("  {}: b\"{}\"", t, show(&corpus[*p]))).collect();
                bad = Some(format!(
                    "messages read by several threads at the same time{}:\n{}\nturns (thread, basic blocks): {:?}, then each to its end ({:?} basic blocks in all)\nthread {}: {}",
                    if fresh { ", as the first ones in the process" } else { "" }, all.join("\n"), turns, ran.blocks, t, why
                ));
            }
        }
        (fp(&results.iter().map(|r| r.as_ref().and_then(|r| r.as_ref().ok()).map(|r| r.1)).collect::<Vec<_>>()), ran.blocked > 0, bad)
    };
    let go = Arc::new(go);
    let id = if fresh {
        let go = go.clone();
        crate::sched::register(Arc::new(move |input: &[u8]| {
            let (o, w, bad) = go(input);
            let mut out = o.to_le_bytes().to_vec();
            out.push(w as u8);
            out.extend(bad.unwrap_or_default().into_bytes());
            out
        }))
    } else {
        0
    };
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let r = if fresh {
            ctx.imp(|| crate::sched::fresh(id, input))
            .and_then(|r| r)
            .map(|b| (u64::from_le_bytes(b[..8].try_into().unwrap()), b[8] != 0, if b.len() > 9 { Some(String::from_utf8_lossy(&b[9..]).into_owned()) } else { None }))
        } else {
            ctx.imp(|| go(input))
        };
        let n = *input.first().unwrap_or(&1) as u64;
        ctx.execs += n.saturating_sub(1);
        ctx.models += n;
        match r {
            Ok((outcome, waited, bad)) => Verdict { bad, outcome, class: if waited { 5 } else { 4 } },
            Err(e) => broken(format!("messages read by several threads at the same time: {}", e)),
        }
    })
}
/// The same message at different places in memory.
pub fn placed(corpus: Vec<Vec<u8>>) -> Check {
    let cfg = Cfg::current();
    let base: Vec<(Res, Option<Tree>)> = corpus
        .iter()
        .map(|m| {
            let r = model::parse(&cfg, m);
            let t = match &r {
                Res::Ok(o) if cfg.mime => Some(model_tree(&cfg, o.ent.as_ref().unwrap(), TREE_DEPTH)),
                _ => None,
            };
            (r, t)
        })
        .collect();
    // one buffer for all, in which the lower bits of an address say something
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let at = |i: usize| *input.get(i).unwrap_or(&0) as usize;
        let m = &corpus[at(0).min(corpus.len() - 1)];
        let offset = at(1) * 256 + at(2);
        let mut buf = vec![at(3) as u8; m.len() + offset + 8192];
        let start = (buf.as_ptr() as usize + 4095) / 4096 * 4096 - buf.as_ptr() as usize + offset;
        let data = &mut buf[start..start + m.len()];
        data.copy_from_slice(m);
        let data = &*data;
        let r = ctx.imp(|| look(&Email::parse(data), &mut Audit::new(vec![])));
        ctx.models += 1;
        let want = &base[at(0).min(corpus.len() - 1)];
        match r {
            Ok(r) => {
                let bad = if r != *want || data != &m[..] {
                    Some(format!("read at an address {} bytes after the start of a page, with bytes {} around it:\n  b\"{}\"\n  expected {:?}\n  got      {:?}", offset, at(3), show(m), want, r))
                } else {
                    None
                };
                Verdict { bad, outcome: fp(&(offset, fp(&r))), class: class(&r.0) }
            }
            Err(e) => broken(e),
        }
    })
}
/// One buffer holds `base`, is overwritten by the input (of the same length), and overwritten by `base`
/// again; each is read three times in place (message, fields, message) and reads as the model says.
pub fn in_place(base: Vec<u8>) -> Check {
    let cfg = Cfg::current();
    let r0 = model::parse(&cfg, &base);
    let tree0 = match &r0 {
        Res::Ok(o) if cfg.mime => Some(model_tree(&cfg, o.ent.as_ref().unwrap(), TREE_DEPTH)),
        _ => None,
    };
    let first = (r0, tree0);
    Arc::new(move |ctx: &mut Ctx, input: &[u8]| {
        let want = expect(ctx, &cfg, input, true);
        let mut bad = None;
        let mut out = 0;
        let mut buf = vec![0u8; base.len().max(input.len())];
        let mut cls = 0;
        for (k, m) in [&base[..], input, &base[..]].into_iter().enumerate() {
            buf[..m.len()].copy_from_slice(m);
            let data = &buf[..m.len()];
            let r = ctx.imp(|| {
                let mut au = Audit::new(vec![]);
                let a = look(&Email::parse(data), &mut au);
                (a, email_parser::parse_message(data).is_ok())
            });
            match r {
                Ok((a, low)) => {
                    let w = if k == 1 { &want } else { &first };
                    if a != *w && bad.is_none() {
                        bad = Some(format!("read in place, one after the other:\n  b\"{}\"\n  b\"{}\"\n  the first again\nnumber {}: {}", show(&base), show(input), k + 1, differing(&a.0, &w.0)));
                    }
                    if !matches!(a.0, Res::Err) && !low && bad.is_none() {
                        bad = Some(format!("number {}: refused by parse_message", k + 1));
                    }
                    if k == 1 {
                        out = fp(&a);
                        cls = class(&a.0);
                    }
                }
                Err(e) => return broken(e),
            }
        }
        Verdict { bad, outcome: out, class: cls }
    })
}
fn look(r: &Result<Email, email_parser::error::Error>, au: &mut Audit) -> (Res, Option<Tree>) {
    let res = obs::result(r, au);
    #[allow(unused_mut)]
    let mut t = None;
    #[cfg(feature = "mime")]
    if let Ok(e) = r {
        t = Some(tree(&e.mime_entity, TREE_DEPTH, au));
    }
    (res, t)
}
