use crate::engine::{Ctx, Meta, Stats};
use modelstd::rt::{self, Bounds};
pub mod c09;
pub mod c11;
pub mod c12;

pub type Check = fn(&mut Ctx);
pub static ALL: &[(Meta, Check)] = &[(c09::META, c09::run), (c11::META, c11::run), (c12::META, c12::run)];
pub fn find(id: &str) -> Option<(&'static Meta, Check)> {
    ALL.iter().find(|m| m.0.id == id).map(|m| (&m.0, m.1))
}

/// Explores one scenario; `outcome` reads the monitor after each execution.
pub fn explore(
    st: &mut Stats,
    b: Bounds,
    mk: impl FnMut() -> Box<dyn FnOnce()>,
    outcome: impl Fn() -> u64,
) -> Result<(), String> {
    let mut sched: Vec<u64> = Vec::new();
    let mut oc: Vec<u64> = Vec::new();
    let r = rt::explore(b, 30_000_000, mk, |taken| {
        let o = outcome();
        if !oc.contains(&o) {
            oc.push(o);
        }
        if sched.len() < 400 {
            sched.push(crate::engine::h64(taken));
        }
    });
    let r = r?;
    st.steps(r.executions);
    for o in oc {
        st.outcome(&o);
    }
    for s in sched {
        st.state(&s);
    }
    if r.executions > 1 {
        st.nontrivial();
    }
    if std::env::var("VZ_STAT").is_ok() {
        println!("   executions={} steps={} points={} depth={}", r.executions, r.steps, r.points, r.max_depth);
    }
    Ok(())
}
