//! C30: the logging allocator's counters over every sequence of allocator calls.
use std::alloc::{GlobalAlloc, Layout};
use std::cell::RefCell;
use vcommon::{hs, hw, Ck, Def};
use zkp_logging_allocator::LoggingAllocator;

pub const C30: Def = Def {
    prop: "C30",
    level: "model_checking",
    rule: "every sequence of up to 4 (thorough 5) allocator calls from an alphabet of allocations (sizes around every threshold, 1 B to 1 TB and over), zeroed allocations, reallocations and deallocations; after every call the five counters, the memory contents and the level and size of the log message are compared with a model; plus every alignment 1 to 65536 and the log text for sizes next to every power of ten",
    run,
};
/// Stands in for harness/allocsched if that cannot be built.
pub const C36: Def = Def { prop: "C36", ..C30 };
thread_local! {
    static LOG: RefCell<Vec<(log::Level, String)>> = RefCell::new(vec![]);
}
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        let m = (r.level(), format!("{}", r.args()));
        LOG.with(|l| l.borrow_mut().push(m));
    }
    fn flush(&self) {}
}
static LOGGER: L = L;

#[derive(Clone, Copy, Debug)]
enum Op {
    Alloc(usize),
    Zeroed(usize),
    Free(usize),
    Realloc(usize, usize),
    Stats,
}
use Op::*;
fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = [1, 100, 999_999, 1_000_000, 9_999_999, 10_000_000, 99_999_999, 100_000_000, 1_000_000_000_000, 1_000_000_000_001]
        .iter()
        .map(|s| Alloc(*s))
        .collect();
    v.extend([Zeroed(64), Zeroed(1_500_000), Free(0), Free(1), Realloc(0, 10), Realloc(0, 5000), Realloc(1, 2_000_000), Realloc(0, 2_000_000_000_000), Stats]);
    v
}
#[derive(Default, Clone, Debug)]
struct M {
    live: Vec<usize>,
    allocated: usize,
    peak: usize,
    total: usize,
    largest: usize,
    num: usize,
}
fn level(size: usize) -> Option<log::Level> {
    match size {
        0..=999_999 => None,
        1_000_000..=9_999_999 => Some(log::Level::Info),
        10_000_000..=99_999_999 => Some(log::Level::Warn),
        _ => Some(log::Level::Error),
    }
}
/// all "<number> <unit>" pairs of a message, in bytes
fn sizes(m: &str) -> Vec<f64> {
    let t: Vec<&str> = m.split(|c: char| c.is_whitespace() || c == '(' || c == ')' || c == ',').filter(|s| !s.is_empty()).collect();
    t.windows(2)
        .filter_map(|w| {
            let x: f64 = w[0].parse().ok()?;
            let u = match w[1].trim_end_matches('.') {
                "B" => 1.0,
                "kB" => 1e3,
                "MB" => 1e6,
                "GB" => 1e9,
                "TB" => 1e12,
                _ => return None,
            };
            Some(x * u)
        })
        .collect()
}
fn near(a: f64, b: usize) -> bool {
    (a - b as f64).abs() <= 0.006 * b as f64
}
fn check_log(size: usize, before: usize) -> Result<(), String> {
    let got = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    match level(size) {
        None => {
            if !got.is_empty() {
                return Err(format!("a small allocation was logged: {:?}", got));
            }
        }
        Some(lv) => {
            if got.len() != 1 || got[0].0 != lv {
                return Err(format!("allocation of {} logged as {:?}, expected one {} message", size, got, lv));
            }
            let s = sizes(&got[0].1);
            if s.len() != 2 || !near(s[0], size) || !near(s[1], before) {
                return Err(format!("message {:?} for an allocation of {} with {} allocated", got[0].1, size, before));
            }
        }
    }
    Ok(())
}
#[allow(unsafe_code)]
fn seq(s: &[Op]) -> Result<(), String> {
    let a = LoggingAllocator::new();
    let mut m = M::default();
    let mut ptrs: Vec<(*mut u8, usize)> = vec![];
    LOG.with(|l| l.borrow_mut().clear());
    let r = (|| {
        for (i, op) in s.iter().enumerate() {
            let tag = i as u8 + 1;
            let before = m.allocated;
            // model and call
            match *op {
                Alloc(n) | Zeroed(n) => {
                    let lay = Layout::from_size_align(n, 8).unwrap();
                    let zero = matches!(op, Zeroed(_));
                    let p = unsafe { if zero { a.alloc_zeroed(lay) } else { a.alloc(lay) } };
                    if n >= 1_000_000_000_000 && !p.is_null() {
                        unsafe { a.dealloc(p, lay) };
                        return Err(format!("allocation of {} was not rejected", n));
                    }
                    if !p.is_null() {
                        ptrs.push((p, n));
                        unsafe {
                            if zero && (*p != 0 || *p.add(n - 1) != 0 || *p.add(n / 2) != 0) {
                                return Err("zeroed memory is not zero".into());
                            }
                            *p = tag;
                            *p.add(n - 1) = tag;
                        }
                        m.live.push(n);
                        add(&mut m, n);
                    } else if n < 1_000_000_000_000 {
                        return Err(format!("allocation of {} failed", n));
                    }
                    check_log(n, before)?;
                }
                Free(k) => {
                    if k < ptrs.len() {
                        let (p, n) = ptrs.remove(k);
                        m.live.remove(k);
                        m.allocated -= n;
                        unsafe { a.dealloc(p, Layout::from_size_align(n, 8).unwrap()) };
                    }
                    if LOG.with(|l| !l.borrow().is_empty()) {
                        return Err("deallocation was logged".into());
                    }
                }
                Realloc(k, n) => {
                    if k < ptrs.len() && ptrs[k].1 <= 10_000_000 {
                        let (p, old) = ptrs[k];
                        let (first, at_old_end) = unsafe { (*p, *p.add(old - 1)) };
                        let q = unsafe { a.realloc(p, Layout::from_size_align(old, 8).unwrap(), n) };
                        if q.is_null() {
                            if n < 1_000_000_000_000 {
                                return Err(format!("reallocation to {} failed", n));
                            }
                            // the old block stays
                            if unsafe { *p } != first {
                                return Err("failed reallocation changed the old block".into());
                            }
                        } else {
                            ptrs[k] = (q, n);
                            if n >= 1_000_000_000_000 {
                                return Err("reallocation was not rejected".into());
                            }
                            unsafe {
                                if *q != first || (n >= old && *q.add(old - 1) != at_old_end) {
                                    return Err("reallocation lost content".into());
                                }
                                *q.add(n - 1) = tag;
                            }
                            m.live[k] = n;
                            add(&mut m, n);
                            m.allocated -= old;
                        }
                        check_log(n, before)?;
                    }
                }
                Stats => {
                    a.log_statistics();
                    let got = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
                    if got.len() != 1 {
                        return Err("log_statistics wrote no message".into());
                    }
                    let s = sizes(&got[0].1);
                    if s.len() != 3 || !near(s[0], m.total) || !near(s[1], m.allocated) || !near(s[2], m.largest) {
                        return Err(format!("statistics {:?}, model {:?}", got[0].1, m));
                    }
                    if !got[0].1.contains(&format!(" {} allocations", m.num)) {
                        return Err(format!("statistics {:?}, model {:?}", got[0].1, m));
                    }
                }
            }
            let got = [a.allocated(), a.peak_allocated(), a.total_allocated(), a.largest_allocated(), a.num_allocations()];
            let want = [m.allocated, m.peak, m.total, m.largest, m.num];
            if got != want {
                return Err(format!("after step {} {:?}: [allocated, peak, total, largest, count] = {:?}, model {:?}", i, op, got, want));
            }
            if m.live.iter().sum::<usize>() != m.allocated {
                return Err("model broken".into());
            }
        }
        Ok(())
    })();
    for (p, n) in ptrs {
        unsafe { std::alloc::System.dealloc(p, Layout::from_size_align(n, 8).unwrap()) };
    }
    r
}
fn add(m: &mut M, n: usize) {
    m.allocated += n;
    m.total += n;
    m.num += 1;
    m.peak = m.peak.max(m.allocated);
    m.largest = m.largest.max(n);
}
fn run(ck: &mut Ck) {
    log::set_logger(&LOGGER).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let depth = ck.b(4, 5);
    let al = ops();
    let mut items = vec![];
    for a in &al {
        for b in &al {
            items.push(vec![*a, *b]);
        }
    }
    ck.par(&items, |ck, s0| {
        let mut stack = vec![s0.clone()];
        while let Some(s) = stack.pop() {
            if s.len() < depth {
                for o in &al {
                    let mut t = s.clone();
                    t.push(*o);
                    stack.push(t);
                }
                continue;
            }
            ck.case(hs(&format!("{:?}", s)), s.len() as u64, || format!("{:?}", s), || seq(&s));
        }
    });
    // alignments
    for n in [1_usize, 24, 4096, 1_500_000] {
        for log in 0..=16 {
            ck.case(hw(&[6, n as u64, log]), 3, || format!("{} bytes aligned to 2^{}", n, log), || {
                let a = LoggingAllocator::new();
                let lay = Layout::from_size_align(n, 1 << log).unwrap();
                #[allow(unsafe_code)]
                unsafe {
                    let mut ps = vec![];
                    for i in 0..6_usize {
                        let p = if i % 2 == 0 { a.alloc(lay) } else { a.alloc_zeroed(lay) };
                        if p.is_null() {
                            return Err("no memory".into());
                        }
                        if p as usize % (1 << log) != 0 {
                            return Err(format!("{:?} is not aligned", p));
                        }
                        std::ptr::write_bytes(p, i as u8, n);
                        ps.push((p, n));
                    }
                    for i in [1, 4] {
                        let q = a.realloc(ps[i].0, lay, 2 * n + 8);
                        if q.is_null() || q as usize % (1 << log) != 0 {
                            return Err(format!("{:?} after reallocation is not aligned", q));
                        }
                        ps[i] = (q, 2 * n + 8);
                    }
                    if a.allocated() != 8 * n + 16 || a.num_allocations() != 8 || a.total_allocated() != 10 * n + 16 || a.largest_allocated() != 2 * n + 8 {
                        return Err("counters".into());
                    }
                    for (i, (p, m)) in ps.into_iter().enumerate() {
                        if (0..n).any(|j| *p.add(j) != i as u8) {
                            return Err("content".into());
                        }
                        a.dealloc(p, Layout::from_size_align(m, 1 << log).unwrap());
                    }
                }
                if a.allocated() != 0 {
                    return Err("not everything freed".into());
                }
                LOG.with(|l| l.borrow_mut().clear());
                Ok(())
            });
        }
    }
    // text of the message next to every power of ten (sizes that are rejected or unmapped cost nothing)
    let mut ns = vec![];
    for e in 6..=18_u32 {
        let p = 10_usize.pow(e);
        for d in [0_usize, 1, 16, 64, 100, 400, 500, 512, 1000, 5000, 40_000, 70_000, 400_000] {
            ns.push(p - d);
            ns.push(p + d);
            ns.push(3 * p + d);
        }
    }
    for n in ns {
        ck.case(hw(&[5, n as u64]), 1, || format!("message for {}", n), || {
            #[allow(unsafe_code)]
            let a = LoggingAllocator::new();
            LOG.with(|l| l.borrow_mut().clear());
            let lay = Layout::from_size_align(n, 8).unwrap();
            #[allow(unsafe_code)]
            unsafe {
                let p = a.alloc(lay);
                if !p.is_null() {
                    a.dealloc(p, lay);
                }
            }
            check_log(n, 0)?;
            if a.allocated() != 0 {
                return Err("allocated not zero".into());
            }
            Ok(())
        });
    }
}
