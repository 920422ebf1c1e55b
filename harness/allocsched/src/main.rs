//! C36: the logging allocator's statistics under every interleaving of allocating threads.
use rayon::verif::explore_bounded;
use std::alloc::{GlobalAlloc, Layout};
use std::collections::BTreeSet;
use std::sync::Mutex;
use vcommon::{guard, hs, hw, Ck, Def};
use zkp_logalloc_verif::LoggingAllocator;

pub const C36: Def = Def {
    prop: "C36",
    level: "model_checking",
    rule: "stateless exploration with visited-state pruning of the real allocator: all interleavings, at the operations on the shared counters, of 2 or 3 threads that each run a program of allocations, zeroed allocations, reallocations, rejected allocations and deallocations (own blocks and blocks of another thread), including loads of overwritten values and spuriously failing weak exchanges; every assignment of programs, complete for 2 threads with 1 call, up to 2 preemptions for 2 threads with up to 2 calls and 3 threads with 1 call; at the end the five statistics are compared with a sequential model (the peak with the set of peaks of all orders of the calls), and while running every thread must see at least its own calls",
    run,
};
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Alloc(usize),
    Zeroed(usize),
    Realloc(usize),
    /// free the thread's newest block
    Free,
    /// free a block that the main thread allocated for this thread
    FreeGiven,
    Reject,
}
use Op::*;
const GIVEN: usize = 64;
/// the changes of the counters: (bytes added, bytes removed) per atomic step of a program
fn steps(p: &[Op]) -> (Vec<i64>, u64, u64, u64) {
    let mut live = vec![];
    let (mut v, mut total, mut num, mut largest) = (vec![], 0, 0, 0);
    let mut add = |v: &mut Vec<i64>, s: usize| {
        v.push(s as i64);
        total += s as u64;
        num += 1;
        largest = largest.max(s as u64);
    };
    for o in p {
        match *o {
            Alloc(s) | Zeroed(s) => {
                add(&mut v, s);
                live.push(s);
            }
            Realloc(s) => {
                if let Some(l) = live.pop() {
                    add(&mut v, s);
                    v.push(-(l as i64));
                    live.push(s);
                }
            }
            Free => {
                if let Some(l) = live.pop() {
                    v.push(-(l as i64));
                }
            }
            FreeGiven => v.push(-(GIVEN as i64)),
            Reject => {}
        }
    }
    (v, total, num, largest)
}
/// all peaks over all orders of the steps (program order kept)
fn peaks(progs: &[Vec<i64>], at: &mut Vec<usize>, cur: i64, peak: i64, out: &mut BTreeSet<i64>) {
    let mut end = true;
    for t in 0..progs.len() {
        if at[t] < progs[t].len() {
            end = false;
            let c = cur + progs[t][at[t]];
            at[t] += 1;
            peaks(progs, at, c, peak.max(c), out);
            at[t] -= 1;
        }
    }
    if end {
        let _ = out.insert(peak);
    }
}
fn layout(s: usize) -> Layout {
    Layout::from_size_align(s, 8).unwrap()
}
struct Block(*mut u8, usize);
unsafe impl Send for Block {}
fn execute(al: &LoggingAllocator, p: &[Op], given: &mut Vec<Block>, fill: u8, observe: bool) -> Result<Vec<Block>, String> {
    let mut live: Vec<Block> = vec![];
    let (mut total, mut num, mut largest) = (0, 0, 0);
    let intact = |b: &Block| (0..b.1).all(|i| unsafe { *b.0.add(i) } == fill);
    for o in p {
        match *o {
            Alloc(s) | Zeroed(s) => unsafe {
                let q = if matches!(o, Alloc(_)) { al.alloc(layout(s)) } else { al.alloc_zeroed(layout(s)) };
                if q.is_null() {
                    return Err(format!("no memory for {} bytes", s));
                }
                if matches!(o, Zeroed(_)) && (0..s).any(|i| *q.add(i) != 0) {
                    return Err("zeroed allocation is not zero".into());
                }
                std::ptr::write_bytes(q, fill, s);
                live.push(Block(q, s));
                total += s;
                num += 1;
                largest = largest.max(s);
            },
            Realloc(s) => unsafe {
                if let Some(b) = live.pop() {
                    if !intact(&b) {
                        return Err("contents changed".into());
                    }
                    let q = al.realloc(b.0, layout(b.1), s);
                    if q.is_null() {
                        return Err(format!("no memory for {} bytes", s));
                    }
                    let k = b.1.min(s);
                    if !intact(&Block(q, k)) {
                        return Err("contents lost in reallocation".into());
                    }
                    std::ptr::write_bytes(q, fill, s);
                    live.push(Block(q, s));
                    total += s;
                    num += 1;
                    largest = largest.max(s);
                }
            },
            Free => unsafe {
                if let Some(b) = live.pop() {
                    if !intact(&b) {
                        return Err("contents changed".into());
                    }
                    al.dealloc(b.0, layout(b.1));
                }
            },
            FreeGiven => unsafe {
                if let Some(b) = given.pop() {
                    al.dealloc(b.0, layout(b.1));
                }
            },
            Reject => unsafe {
                if !al.alloc(layout(1_000_000_000_000)).is_null() {
                    return Err("1 TB were not rejected".into());
                }
            },
        }
    }
    if !live.iter().all(intact) {
        return Err("contents changed".into());
    }
    // a thread sees at least its own calls
    if !observe {
        return Ok(live);
    }
    let mine: usize = live.iter().map(|b| b.1).sum();
    let saw = (al.total_allocated(), al.num_allocations(), al.largest_allocated(), al.allocated());
    if saw.0 < total || saw.1 < num || saw.2 < largest || saw.3 < mine {
        return Err(format!("a thread that allocated {} bytes in {} calls, at most {}, {} of them live, reads {:?}", total, num, largest, mine, saw));
    }
    Ok(live)
}
fn programs(alpha: &[Op], len: usize) -> Vec<Vec<Op>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out
            .into_iter()
            .flat_map(|p: Vec<Op>| {
                alpha.iter().map(move |o| {
                    let mut q = p.clone();
                    q.push(*o);
                    q
                })
            })
            .collect();
    }
    // programs that do nothing at some place are shorter ones
    out.retain(|p| {
        let mut live = 0;
        p.iter().all(|o| match o {
            Alloc(_) | Zeroed(_) => {
                live += 1;
                true
            }
            Realloc(_) => live > 0,
            Free => {
                live -= 1;
                live >= 0
            }
            _ => true,
        })
    });
    out
}
struct Item {
    progs: Vec<Vec<Op>>,
    preemptions: usize,
    stale: usize,
    spurious: usize,
    observe: bool,
}
/// every multiset of n programs out of those per thread; sizes differ between the threads
fn sets(n: usize, len: usize, alpha: fn(usize) -> Vec<Op>, preemptions: usize, stale: usize, spurious: usize, observe: bool, items: &mut Vec<Item>) {
    let per: Vec<Vec<Vec<Op>>> = (0..n).map(|t| (1..=len).flat_map(|l| programs(&alpha(t), l)).collect()).collect();
    let mut idx = vec![0; n];
    loop {
        items.push(Item { progs: (0..n).map(|t| per[t][idx[t]].clone()).collect(), preemptions, stale, spurious, observe });
        let mut t = 0;
        loop {
            if t == n {
                return;
            }
            idx[t] += 1;
            if idx[t] < per[t].len() {
                break;
            }
            idx[t] = 0;
            t += 1;
        }
    }
}
fn full(t: usize) -> Vec<Op> {
    let s = 1 << t;
    vec![Alloc(s), Alloc(16 * s), Zeroed(8 * s), Realloc(40 * s), Free, FreeGiven, Reject]
}
fn few(t: usize) -> Vec<Op> {
    let s = 1 << t;
    vec![Alloc(3 * s), Alloc(16 * s), Free]
}
fn run(ck: &mut Ck) {
    let mut items = vec![];
    const ALL: usize = usize::MAX;
    sets(2, 1, full, ALL, 1, 1, false, &mut items);
    sets(2, 1, full, 2, 1, 0, true, &mut items);
    sets(2, 2, full, 2, 0, 0, false, &mut items);
    sets(3, 1, few, 2, 0, 0, false, &mut items);
    if ck.thorough() {
        sets(2, 2, full, 3, 1, 1, false, &mut items);
        sets(2, 2, few, 3, 1, 0, true, &mut items);
        sets(2, 3, few, 3, 0, 0, false, &mut items);
        sets(3, 2, few, 2, 0, 0, false, &mut items);
        sets(3, 1, full, 4, 0, 1, false, &mut items);
    }
    let bound = ck.b(20_000, 400_000);
    ck.par(&items, |ck, it| {
        let key = format!("schedules of {:?} preemptions={} stale={} spurious={}", it.progs, it.preemptions as isize, it.stale, it.spurious);
        let n = it.progs.len();
        let model: Vec<_> = it.progs.iter().map(|p| steps(p)).collect();
        let given: usize = it.progs.iter().flatten().filter(|o| **o == FreeGiven).count();
        let before = (given * GIVEN) as i64;
        let mut peak = BTreeSet::new();
        peaks(&model.iter().map(|m| m.0.clone()).collect::<Vec<_>>(), &mut vec![0; n], before, before, &mut peak);
        let now: i64 = before + model.iter().flat_map(|m| m.0.iter()).sum::<i64>();
        let total = before as u64 + model.iter().map(|m| m.1).sum::<u64>();
        let num = given as u64 + model.iter().map(|m| m.2).sum::<u64>();
        let largest = model.iter().map(|m| m.3).max().unwrap_or(0).max(if given > 0 { GIVEN as u64 } else { 0 });
        let mut st = Default::default();
        ck.case(hs(&key), 1, || key.clone(), || {
            let mut bad = None;
            st = explore_bounded(it.preemptions, it.stale, it.spurious, bound, || {
                let al = LoggingAllocator::new();
                let slots: Vec<Mutex<(Vec<Block>, Option<Result<Vec<Block>, String>>)>> = it
                    .progs
                    .iter()
                    .map(|p| {
                        let k = p.iter().filter(|o| **o == FreeGiven).count();
                        Mutex::new(((0..k).map(|_| Block(unsafe { al.alloc(layout(GIVEN)) }, GIVEN)).collect(), None))
                    })
                    .collect();
                let r = guard(|| {
                    rayon::scope(|s| {
                        for (t, slot) in slots.iter().enumerate() {
                            let (al, p) = (&al, &it.progs[t]);
                            s.spawn(move |_| {
                                let mut g = slot.lock().unwrap();
                                let r = execute(al, p, &mut g.0, 0x40 + t as u8, it.observe);
                                g.1 = Some(r);
                            });
                        }
                    })
                });
                let got = (al.allocated() as i64, al.total_allocated() as u64, al.num_allocations() as u64, al.largest_allocated() as u64, al.peak_allocated() as i64);
                let mut err = r.err();
                for s in slots {
                    let (given, r) = s.into_inner().unwrap_or_else(|e| e.into_inner());
                    match r {
                        Some(Ok(v)) => v.into_iter().chain(given).for_each(|b| unsafe { al.dealloc(b.0, layout(b.1)) }),
                        Some(Err(e)) => err = err.or(Some(e)),
                        None => err = err.or(Some("a thread did not finish".into())),
                    }
                }
                if err.is_none() && (got.0, got.1, got.2, got.3) != (now, total, num, largest) {
                    err = Some(format!("allocated, total, number, largest are {:?}, expected {:?}", (got.0, got.1, got.2, got.3), (now, total, num, largest)));
                }
                if err.is_none() && !peak.contains(&got.4) {
                    err = Some(format!("peak is {}, expected one of {:?}", got.4, peak));
                }
                if err.is_none() && al.allocated() != 0 {
                    err = Some(format!("{} bytes allocated after everything was freed", al.allocated()));
                }
                if err.is_some() {
                    bad = err;
                    return false;
                }
                true
            });
            bad.map_or(Ok(()), Err)
        });
        if std::env::var_os("VERIF_DEBUG").is_some() {
            println!("{:.1} {}: {:?}", ck.elapsed(), key, st);
        }
        ck.steps(st.transitions);
        for i in 0..st.states {
            ck.state(hw(&[hs(&key), i]));
        }
        ck.outcome(if st.complete { "all schedules explored" } else { "schedule bound reached" });
    });
}
fn main() {
    vcommon::main(&[C36])
}
