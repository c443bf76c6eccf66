//! Self-test of the explorer: litmus tests with known sets of allowed outcomes.
use crate::engine::*;
use modelstd::rt::{self, Bounds};
use modelstd::sync::atomic::{fence, AtomicUsize, Ordering, Ordering::*};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

type Prog = Box<dyn Fn(&'static Mem) -> Vec<usize>>;
struct Mem {
    x: AtomicUsize,
    y: AtomicUsize,
}

fn outcomes(progs: Rc<Vec<Prog>>) -> Result<BTreeSet<Vec<usize>>, String> {
    let set: Rc<RefCell<BTreeSet<Vec<usize>>>> = Default::default();
    let cur: Rc<RefCell<Vec<Vec<usize>>>> = Default::default();
    let (c2, s2, p2) = (cur.clone(), set.clone(), progs.clone());
    rt::explore(
        Bounds { preempt: 6, stale: 4, spurious: 0, weak: 0 },
        10_000_000,
        move || {
            let n = p2.len();
            *c2.borrow_mut() = vec![Vec::new(); n];
            let mem: &'static Mem =
                Box::leak(Box::new(Mem { x: AtomicUsize::new(0), y: AtomicUsize::new(0) }));
            let (c3, p3) = (c2.clone(), p2.clone());
            Box::new(move || {
                let ids: Vec<usize> = (0..n)
                    .map(|i| {
                        let (c4, p4) = (c3.clone(), p3.clone());
                        rt::spawn(move || {
                            let r = p4[i](mem);
                            rt::quiet(|| c4.borrow_mut()[i] = r.clone());
                        })
                    })
                    .collect();
                for i in ids {
                    rt::join(i);
                }
            })
        },
        |_| {
            s2.borrow_mut().insert(cur.borrow().concat());
        },
    )?;
    let r = set.borrow().clone();
    Ok(r)
}

fn expect(st: &mut Stats, progs: Vec<Prog>, yes: &[&[usize]], no: &[&[usize]]) -> R {
    let o = outcomes(Rc::new(progs))?;
    for v in &o {
        st.outcome(v);
    }
    st.steps(o.len() as u64);
    st.nontrivial();
    for y in yes {
        if !o.contains(&y.to_vec()) {
            return Err(format!("engine: allowed outcome {y:?} not found in {o:?}"));
        }
    }
    for n in no {
        if o.contains(&n.to_vec()) {
            return Err(format!("engine: forbidden outcome {n:?} found"));
        }
    }
    Ok(())
}

pub fn run(cx: &mut Ctx) {
    cx.section("explorer litmus", "store buffering, message passing, coherence, fences, read-modify-write sequences: the explorer finds exactly the outcomes the memory model allows");
    for (o, weak) in [(Relaxed, true), (SeqCst, false)] {
        cx.case(|| format!("store buffering {o:?}"), |st| {
            let (ls, ss) = (o, o);
            let p: Vec<Prog> = vec![
                Box::new(move |m| {
                    m.x.store(1, ss);
                    vec![m.y.load(ls)]
                }),
                Box::new(move |m| {
                    m.y.store(1, ss);
                    vec![m.x.load(ls)]
                }),
            ];
            if weak {
                expect(st, p, &[&[0, 0], &[0, 1], &[1, 0], &[1, 1]], &[])
            } else {
                expect(st, p, &[&[0, 1], &[1, 0], &[1, 1]], &[&[0, 0]])
            }
        });
    }
    for (so, lo, weak) in [
        (Relaxed, Relaxed, true),
        (Release, Relaxed, true),
        (Relaxed, Acquire, true),
        (Release, Acquire, false),
        (SeqCst, SeqCst, false),
    ] {
        cx.case(|| format!("message passing {so:?}/{lo:?}"), |st| {
            let p: Vec<Prog> = vec![
                Box::new(move |m| {
                    m.x.store(1, Relaxed);
                    m.y.store(1, so);
                    vec![]
                }),
                Box::new(move |m| {
                    let a = m.y.load(lo);
                    vec![a, m.x.load(Relaxed)]
                }),
            ];
            if weak {
                expect(st, p, &[&[0, 0], &[0, 1], &[1, 0], &[1, 1]], &[])
            } else {
                expect(st, p, &[&[0, 0], &[0, 1], &[1, 1]], &[&[1, 0]])
            }
        });
    }
    for (rel, acq) in [(false, false), (true, false), (false, true), (true, true)] {
        cx.case(|| format!("message passing with fences {rel} {acq}"), |st| {
            let p: Vec<Prog> = vec![
                Box::new(move |m| {
                    m.x.store(1, Relaxed);
                    if rel {
                        fence(Release);
                    }
                    m.y.store(1, Relaxed);
                    vec![]
                }),
                Box::new(move |m| {
                    let a = m.y.load(Relaxed);
                    if acq {
                        fence(Acquire);
                    }
                    vec![a, m.x.load(Relaxed)]
                }),
            ];
            if rel && acq {
                expect(st, p, &[&[0, 0], &[0, 1], &[1, 1]], &[&[1, 0]])
            } else {
                expect(st, p, &[&[1, 0]], &[])
            }
        });
    }
    cx.case(|| "store buffering with SeqCst fences".into(), |st| {
        let p: Vec<Prog> = vec![
            Box::new(|m| {
                m.x.store(1, Relaxed);
                fence(SeqCst);
                vec![m.y.load(Relaxed)]
            }),
            Box::new(|m| {
                m.y.store(1, Relaxed);
                fence(SeqCst);
                vec![m.x.load(Relaxed)]
            }),
        ];
        expect(st, p, &[&[0, 1], &[1, 0], &[1, 1]], &[&[0, 0]])
    });
    cx.case(|| "read-read coherence".into(), |st| {
        let p: Vec<Prog> = vec![
            Box::new(|m| {
                m.x.store(1, Relaxed);
                m.x.store(2, Relaxed);
                vec![]
            }),
            Box::new(|m| vec![m.x.load(Relaxed), m.x.load(Relaxed)]),
        ];
        expect(st, p, &[&[0, 0], &[0, 1], &[0, 2], &[1, 1], &[1, 2], &[2, 2]], &[&[1, 0], &[2, 0], &[2, 1]])
    });
    cx.case(|| "increments are atomic".into(), |st| {
        let p: Vec<Prog> = vec![
            Box::new(|m| vec![m.x.fetch_add(1, Relaxed)]),
            Box::new(|m| vec![m.x.fetch_add(1, Relaxed)]),
        ];
        expect(st, p, &[&[0, 1], &[1, 0]], &[&[0, 0], &[1, 1]])
    });
    for (mid, weak) in [(Relaxed, false)] {
        cx.case(|| format!("release sequence through a {mid:?} read-modify-write"), |st| {
            let p: Vec<Prog> = vec![
                Box::new(|m| {
                    m.x.store(1, Relaxed);
                    m.y.store(1, Release);
                    vec![]
                }),
                Box::new(move |m| {
                    let _ = m.y.compare_exchange(1, 2, mid, Relaxed);
                    vec![]
                }),
                Box::new(|m| {
                    let a = m.y.load(Acquire);
                    vec![a, m.x.load(Relaxed)]
                }),
            ];
            let _ = weak;
            expect(st, p, &[&[2, 1], &[1, 1], &[0, 0]], &[&[2, 0], &[1, 0]])
        });
    }
    let _: Option<Ordering> = None;
}
