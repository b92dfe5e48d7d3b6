//! Jobs on subtrees of the choice tree, answered alike by every build.
use super::explore::*;
use super::fams;
use super::val::hash_of;
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec::Vec;

#[derive(Default)]
pub struct Sub {
    pub stats: Stats,
    pub panics: u64,
    /// trace of the first execution
    pub first: Vec<(u32, u32)>,
    /// first violation
    pub viol: Option<(Vec<(u32, u32)>, Viol)>,
}

pub fn choices(t: &[(u32, u32)]) -> String {
    t.iter().map(|(c, n)| format!("{c}/{n}")).collect::<Vec<_>>().join(" ")
}
pub fn parse_choices<'a>(it: impl Iterator<Item = &'a str>) -> Vec<(u32, u32)> {
    it.filter_map(|x| x.split_once('/')).map(|(a, b)| (a.parse().unwrap_or(0), b.parse().unwrap_or(0))).collect()
}
pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}

/// All executions whose choices start with `prefix`; at most `limit`.
pub fn subtree(s: &Scenario, prefix: &[(u32, u32)], thorough: bool, limit: u64) -> Sub {
    let mut out = Sub::default();
    let keep = prefix.len();
    let mut p = prefix.to_vec();
    let mut first = true;
    let mut n = 0;
    loop {
        let before = p.len();
        let mut ctx = Ctx::new(p, thorough);
        let r = (s.run)(&mut ctx);
        let st = &mut out.stats;
        st.paths += 1;
        st.states += (ctx.trace.len() + 1).saturating_sub(before.max(1)) as u64;
        st.add(&ctx.stats);
        if let Err(v) = r {
            // what a build does wrong is part of what it does
            st.digest = st.digest.wrapping_add(hash_of(&v.msg));
            if v.msg.contains("panic") {
                out.panics += 1;
            }
            if out.viol.is_none() {
                out.viol = Some((ctx.trace.clone(), v));
            }
        }
        if first {
            out.first = ctx.trace.clone();
            first = false;
        }
        n += 1;
        if n >= limit {
            return out;
        }
        match next_prefix(&ctx.trace, keep) {
            Some(q) => p = q,
            None => return out,
        }
    }
}

/// Scenarios of the last property asked for.
#[derive(Default)]
pub struct Cache(String, Vec<Scenario>);

/// `PROP TIER SCENARIO LIMIT c/n c/n ..`; with limit 0, one execution written out.
pub fn answer(cache: &mut Cache, l: &str) -> String {
    let mut f = l.split_whitespace();
    let (Some(prop), Some(tier), Some(scn), Some(limit)) = (f.next(), f.next(), f.next(), f.next()) else { return "E\tbad job".to_string() };
    let prefix = parse_choices(f);
    let thorough = tier == "thorough";
    let key = format!("{prop} {tier}");
    if cache.0 != key {
        cache.1 = fams::scenarios(prop, thorough);
        cache.1.extend(fams::bare_scenarios(prop, thorough).unwrap_or_default());
        cache.0 = key;
    }
    let Some(s) = cache.1.iter().find(|s| s.name == scn) else { return "E\tno such scenario".to_string() };
    let limit: u64 = limit.parse().unwrap_or(u64::MAX);
    if limit == 0 {
        WANT_LOG.store(true, core::sync::atomic::Ordering::Relaxed);
        let mut ctx = Ctx::new(prefix, thorough);
        ctx.want_notes = true;
        let r = (s.run)(&mut ctx);
        WANT_LOG.store(false, core::sync::atomic::Ordering::Relaxed);
        let mut t = ctx.notes.join("\n");
        for l in &ctx.stats.log {
            t.push_str("\n= ");
            t.push_str(l);
        }
        if let Err(v) = r {
            t.push_str("\n! ");
            t.push_str(&v.msg);
        }
        return format!("N\t{}", esc(&t));
    }
    let r = subtree(s, &prefix, thorough, limit);
    let t = &r.stats;
    let (vt, vk, vm) = match &r.viol {
        Some((t, v)) => (choices(t), v.key.clone(), v.msg.chars().take(3000).collect::<String>()),
        None => Default::default(),
    };
    format!(
        "R\t{:016x}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
        t.digest, t.states, t.transitions, t.traces, t.paths, t.accepted, t.skipped, t.faults, r.panics, choices(&r.first), vt, esc(&vk), esc(&vm)
    )
}
