//! Execution of task lists under a controlled scheduler.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

thread_local! {
    static THREADS: Cell<usize> = const { Cell::new(4) };
    static MODE: RefCell<Mode> = const { RefCell::new(Mode::Plain) };
    static TASK: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
}
#[derive(Clone)]
enum Mode {
    Plain,
    Order(Orders),
    Explore(Arc<Explorer>),
}
/// In which order the tasks of parallel loops are run
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Orders {
    /// the same pattern in every loop
    All(usize),
    /// this pattern in one loop (the k-th), ascending order in the others
    Only(usize, usize),
}
pub fn num_threads() -> usize {
    THREADS.with(|t| t.get())
}
pub fn task_index() -> Option<usize> {
    TASK.with(|t| t.borrow().as_ref().map(|t| t.1))
}
pub fn with_threads<R>(n: usize, f: impl FnOnce() -> R) -> R {
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            THREADS.with(|t| t.set(self.0));
        }
    }
    let _r = Reset(THREADS.with(|t| t.replace(n)));
    f()
}
struct ResetMode(Mode);
impl Drop for ResetMode {
    fn drop(&mut self) {
        let m = std::mem::replace(&mut self.0, Mode::Plain);
        MODE.with(|t| *t.borrow_mut() = m);
    }
}
fn with_mode<R>(m: Mode, f: impl FnOnce() -> R) -> R {
    let _r = ResetMode(MODE.with(|t| t.replace(m)));
    f()
}
/// Run f with the tasks of its parallel loops in the given order; also returns the number of loops
/// with more than one task.
pub fn with_orders<R>(o: Orders, f: impl FnOnce() -> R) -> (R, usize) {
    let old = CALLS.with(|c| c.replace(0));
    let r = with_mode(Mode::Order(o), f);
    (r, CALLS.with(|c| c.replace(old)))
}
/// pattern -> order of n tasks
fn order(pattern: usize, n: usize) -> Vec<usize> {
    if n <= 4 {
        // all permutations
        let mut items: Vec<usize> = (0..n).collect();
        let mut out = vec![];
        let mut p = pattern;
        for k in (1..=n).rev() {
            out.push(items.remove(p % k));
            p /= k;
        }
        return out;
    }
    let mut v: Vec<usize> = (0..n).collect();
    match pattern % 8 {
        0 => {}
        1 => v.reverse(),
        2 => v.rotate_left(1),
        3 => v.rotate_left(n - 1),
        4 => v.sort_by_key(|i| (i % 2, *i)),
        5 => v.sort_by_key(|i| (usize::MAX - i % 3, *i)),
        6 => v.rotate_left(n / 2),
        // bit-reversed: every split of the range interleaved
        _ => v.sort_by_key(|i| i.reverse_bits()),
    }
    v
}

// ------------------------------------------------------------------------------- exploration

/// A memory location: all values written to it, oldest first
pub struct Loc {
    pub history: Vec<(u64, View)>,
    pub locked: bool,
    pub readers: usize,
}
/// per location: index of the oldest value that may still be read
pub type View = Vec<usize>;
fn join(a: &mut View, b: &View) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}
fn at(v: &View, l: usize) -> usize {
    v.get(l).copied().unwrap_or(0)
}
fn set(v: &mut View, l: usize, i: usize) {
    if v.len() <= l {
        v.resize(l + 1, 0);
    }
    v[l] = v[l].max(i);
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Load { loc: usize, acquire: bool, sc: bool },
    Store { loc: usize, value: u64, release: bool },
    /// read-modify-write; the new value is computed from the latest one
    Rmw { loc: usize, release: bool, acquire: bool, code: u64 },
    /// compare and exchange; on failure a load
    Cas { loc: usize, old: u64, new: u64, weak: bool, release: bool, acquire: bool, fail_acquire: bool },
    Lock { loc: usize },
    Unlock { loc: usize },
    RLock { loc: usize },
    RUnlock { loc: usize },
}
#[derive(Default)]
struct State {
    locs: Vec<Loc>,
    /// per task: pending operation
    pending: Vec<Option<Op>>,
    granted: Vec<Option<Variant>>,
    /// tasks neither waiting for permission nor finished
    running: usize,
    done: Vec<bool>,
    views: Vec<View>,
    /// hash of everything a task has observed
    seen: Vec<u64>,
    stale_left: usize,
    spurious_left: usize,
    preemptions_left: usize,
    /// the task that made the last step
    last: Option<usize>,
    /// give up: every task panics at its next visible operation
    aborted: Option<&'static str>,
}
#[derive(Clone, Debug, PartialEq)]
enum Variant {
    /// read the value with this index of the history
    Read(usize),
    Spurious,
    Do,
}
pub struct Shared {
    st: Mutex<State>,
    /// the scheduler waits here
    cv: Condvar,
    /// the tasks wait here
    cvs: Vec<Condvar>,
}
pub struct Explorer {
    inner: Mutex<Search>,
    stale: usize,
    spurious: usize,
    preemptions: usize,
}
#[derive(Default)]
struct Search {
    /// choices to be made in this execution
    prefix: Vec<usize>,
    /// (choice taken, number of options) in this execution
    path: Vec<(usize, usize)>,
    visited: HashSet<u64>,
    /// reached a known state: nothing new below
    pruned: bool,
    transitions: u64,
    steps: u64,
    overlong: bool,
    /// an execution was not followed to its end with all options
    truncated: bool,
    /// hash of the parallel sections already finished in this execution
    carry: u64,
    /// parallel sections (by number) whose tasks did not touch anything shared
    silent: HashSet<usize>,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub complete: bool,
}
fn mix(mut h: u64, w: u64) -> u64 {
    h ^= w.wrapping_add(0x9e37_79b9_7f4a_7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51_afd7_ed55_8ccd);
    h ^= h >> 33;
    h
}
const MAX_STEPS: u64 = 200_000;
const MAX_BRANCH: u64 = 5_000;

/// Run `f` once for every schedule of its parallel tasks.  `stale` and `spurious` bound the number
/// of loads per execution that return an overwritten value and of weak exchanges that fail although
/// the value matches.  `f` returns false to stop the search.
pub fn explore(stale: usize, spurious: usize, max_executions: u64, f: impl FnMut() -> bool) -> Stats {
    explore_bounded(usize::MAX, stale, spurious, max_executions, f)
}
/// Same, with at most `preemptions` switches away from a task that could go on.
pub fn explore_bounded(preemptions: usize, stale: usize, spurious: usize, max_executions: u64, mut f: impl FnMut() -> bool) -> Stats {
    let ex = Arc::new(Explorer { inner: Mutex::new(Search::default()), stale, spurious, preemptions });
    let mut stats = Stats::default();
    loop {
        {
            let mut s = ex.inner.lock().unwrap();
            s.path.clear();
            s.pruned = false;
            s.steps = 0;
            s.carry = 0;
            CALLS.with(|c| c.set(0));
        }
        let go = with_mode(Mode::Explore(ex.clone()), &mut f);
        stats.executions += 1;
        let mut s = ex.inner.lock().unwrap();
        stats.states = s.visited.len() as u64;
        stats.transitions = s.transitions;
        if !go || s.overlong {
            return stats;
        }
        // next path in depth-first order
        let mut p = std::mem::take(&mut s.path);
        loop {
            match p.pop() {
                None => {
                    stats.complete = !s.truncated;
                    return stats;
                }
                Some((c, n)) if c + 1 < n => {
                    s.prefix = p.iter().map(|x| x.0).chain([c + 1]).collect();
                    break;
                }
                Some(_) => {}
            }
        }
        if stats.executions >= max_executions {
            return stats;
        }
    }
}

/// Run the tasks; `f(i)` runs the i-th.
pub(crate) fn run(n: usize, f: &(dyn Fn(usize) + Sync)) {
    let mode = MODE.with(|m| m.borrow().clone());
    // nested parallelism inside a scheduled task, or nothing to schedule
    if n <= 1 || TASK.with(|t| t.borrow().is_some()) {
        return (0..n).for_each(f);
    }
    let call = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get() - 1
    });
    match mode {
        Mode::Plain => (0..n).for_each(f),
        Mode::Order(Orders::All(p)) => order(p, n).into_iter().for_each(f),
        Mode::Order(Orders::Only(k, p)) => {
            let v = if k == call { order(p, n) } else { (0..n).collect() };
            v.into_iter().for_each(f)
        }
        Mode::Explore(_) if n > 16 => (0..n).for_each(f),
        Mode::Explore(ex) => {
            if ex.inner.lock().unwrap().silent.contains(&call) {
                (0..n).for_each(f)
            } else {
                scheduled(&ex, call, n, f)
            }
        }
    }
}
fn scheduled(ex: &Arc<Explorer>, call: usize, n: usize, f: &(dyn Fn(usize) + Sync)) {
    let sh = Arc::new(Shared {
        st: Mutex::new(State {
            pending: vec![None; n],
            granted: vec![None; n],
            running: 0,
            done: vec![false; n],
            views: vec![vec![]; n],
            seen: vec![0; n],
            stale_left: ex.stale,
            spurious_left: ex.spurious,
            preemptions_left: ex.preemptions,
            ..State::default()
        }),
        cv: Condvar::new(),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
    });
    sync_locs::enter(&sh);
    let threads = num_threads();
    let panics: Mutex<Option<Box<dyn std::any::Any + Send>>> = Mutex::new(None);
    std::thread::scope(|s| {
        for i in 0..n {
            // one after the other, so that the locations are numbered in a reproducible way
            sh.st.lock().unwrap().running += 1;
            let shi = sh.clone();
            let panics = &panics;
            let _ = std::thread::Builder::new()
                .stack_size(256 << 10)
                .spawn_scoped(s, move || {
                    THREADS.with(|t| t.set(threads));
                    TASK.with(|t| *t.borrow_mut() = Some((shi.clone(), i)));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i)));
                    TASK.with(|t| *t.borrow_mut() = None);
                    if let Err(e) = r {
                        *panics.lock().unwrap() = Some(e);
                    }
                    let mut st = shi.st.lock().unwrap();
                    st.done[i] = true;
                    st.running -= 1;
                    shi.cv.notify_all();
                })
                .expect("spawn");
            wait_idle(&sh, sh.st.lock().unwrap());
        }
        // the scheduler
        let mut st = sh.st.lock().unwrap();
        loop {
            st = wait_idle(&sh, st);
            if st.done.iter().all(|d| *d) {
                break;
            }
            // options: every variant of every enabled operation
            let mut options: Vec<(usize, Variant)> = vec![];
            for t in 0..n {
                let op = match &st.pending[t] {
                    Some(op) => op.clone(),
                    None => continue,
                };
                variants(&st, t, &op, &mut options);
            }
            if options.is_empty() {
                st.aborted = Some("deadlock: every task waits for a lock");
                sh.cvs.iter().for_each(Condvar::notify_all);
                break;
            }
            // the last task could go on: leaving it is a preemption
            let going = st.last.filter(|l| options.iter().any(|o| o.0 == *l));
            if let (Some(l), 0) = (going, st.preemptions_left) {
                options.retain(|o| o.0 == l);
            }
            let key = st.key();
            let pick = match ex.pick(key, options.len()) {
                Some(p) => p,
                None => {
                    st.aborted = Some("the parallel tasks do not terminate");
                    sh.cvs.iter().for_each(Condvar::notify_all);
                    break;
                }
            };
            let (t, v) = options.swap_remove(pick);
            if st.preemptions_left != usize::MAX {
                if going.map_or(false, |l| l != t) {
                    st.preemptions_left -= 1;
                }
                st.last = Some(t);
            }
            st.pending[t] = None;
            st.granted[t] = Some(v);
            st.running += 1;
            sh.cvs[t].notify_all();
        }
    });
    sync_locs::leave(&sh);
    {
        let st = sh.st.lock().unwrap();
        let k = st.key();
        let mut s = ex.inner.lock().unwrap();
        if st.locs.is_empty() {
            let _ = s.silent.insert(call);
        } else {
            s.carry = mix(s.carry, k);
        }
    }
    if let Some(e) = panics.into_inner().unwrap() {
        std::panic::resume_unwind(e);
    }
}
impl State {
    fn key(&self) -> u64 {
        let mut key = 0;
        for l in &self.locs {
            key = mix(key, l.locked as u64 + 2 * l.readers as u64);
            for (v, w) in &l.history {
                key = mix(key, *v);
                for x in w {
                    key = mix(key, *x as u64);
                }
            }
            key = mix(key, 0xabc);
        }
        for t in 0..self.seen.len() {
            key = mix(key, self.seen[t]);
            key = mix(key, self.done[t] as u64);
            for x in &self.views[t] {
                key = mix(key, *x as u64);
            }
            key = mix(key, 0xdef);
        }
        key = mix(key, self.last.map_or(0, |l| l as u64 + 1));
        key = mix(key, self.preemptions_left as u64);
        mix(key, self.stale_left as u64 * 64 + self.spurious_left as u64)
    }
}
impl Explorer {
    /// choose one of n options in the state with this key; None: the execution is too long
    fn pick(&self, key: u64, n: usize) -> Option<usize> {
        let mut s = self.inner.lock().unwrap();
        let key = mix(key, s.carry);
        let d = s.path.len();
        s.steps += 1;
        s.transitions += 1;
        if s.steps > MAX_STEPS {
            s.overlong = true;
            return None;
        }
        if d < s.prefix.len() && !s.pruned {
            let c = s.prefix[d].min(n - 1);
            s.path.push((c, n));
            return Some(c);
        }
        // a new node, unless the state is known or the execution is very long
        if !s.pruned && s.steps > MAX_BRANCH {
            s.truncated = true;
            s.pruned = true;
        }
        if !s.pruned && !s.visited.insert(key) {
            s.pruned = true;
        }
        if s.pruned {
            // fair completion
            return Some((s.steps as usize) % n);
        }
        s.path.push((0, n));
        Some(0)
    }
}
/// A decision of the runtime that is not an interleaving (which match find_any returns)
pub(crate) fn choose(n: usize) -> usize {
    let call = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get() - 1
    });
    match MODE.with(|m| m.borrow().clone()) {
        Mode::Plain => 0,
        Mode::Order(Orders::All(p)) => p % n,
        Mode::Order(Orders::Only(k, p)) => if k == call { p % n } else { 0 },
        Mode::Explore(ex) => {
            let c = ex.pick(0x777 + n as u64, n).unwrap_or(0);
            let mut s = ex.inner.lock().unwrap();
            s.carry = mix(s.carry, c as u64);
            c
        }
    }
}
/// The task cannot be stopped; whoever watches over this process has to.
fn hang() -> ! {
    loop {
        std::thread::sleep(Duration::from_secs(60));
    }
}
fn wait_idle<'a>(sh: &'a Shared, mut st: std::sync::MutexGuard<'a, State>) -> std::sync::MutexGuard<'a, State> {
    let mut waited = 0;
    while st.running > 0 {
        let (g, t) = sh.cv.wait_timeout(st, Duration::from_secs(2)).unwrap();
        st = g;
        if t.timed_out() {
            // a task blocks on something that is not under control: let another one go on
            waited += 1;
            if waited > 1 && st.pending.iter().any(|p| p.is_some()) {
                break;
            }
            if waited > 20 {
                hang();
            }
        }
    }
    st
}
fn variants(st: &State, t: usize, op: &Op, out: &mut Vec<(usize, Variant)>) {
    let view = &st.views[t];
    let reads = |loc: usize, fresh: bool, out: &mut Vec<(usize, Variant)>, skip: Option<u64>| {
        let h = &st.locs[loc].history;
        let last = h.len() - 1;
        let lo = if fresh || st.stale_left == 0 { last } else { at(view, loc) };
        for i in (lo..=last).rev() {
            if skip != Some(h[i].0) {
                out.push((t, Variant::Read(i)));
            }
        }
    };
    match op {
        Op::Load { loc, sc, .. } => reads(*loc, *sc, out, None),
        Op::Store { .. } | Op::Rmw { .. } | Op::Unlock { .. } | Op::RUnlock { .. } => out.push((t, Variant::Do)),
        Op::Cas { loc, old, weak, .. } => {
            let last = st.locs[*loc].history.last().unwrap().0;
            if last == *old {
                out.push((t, Variant::Do));
                if *weak && st.spurious_left > 0 {
                    out.push((t, Variant::Spurious));
                }
                // a failure caused by an older value
                if st.stale_left > 0 {
                    let h = &st.locs[*loc].history;
                    for i in at(view, *loc)..h.len() - 1 {
                        if h[i].0 != *old {
                            out.push((t, Variant::Read(i)));
                        }
                    }
                }
            } else {
                reads(*loc, false, out, Some(*old));
            }
        }
        Op::Lock { loc } => {
            if !st.locs[*loc].locked && st.locs[*loc].readers == 0 {
                out.push((t, Variant::Do));
            }
        }
        Op::RLock { loc } => {
            if !st.locs[*loc].locked {
                out.push((t, Variant::Do));
            }
        }
    }
}
/// Result of a visible operation
pub enum Done {
    Value(u64),
    CasOk(u64),
    CasErr(u64),
}
/// Perform a visible operation of the current task under the scheduler; None: no scheduler.
/// `loc` finds the location in the scheduler (registering it with its current value if needed),
/// `rmw` computes the new value of a read-modify-write, `mirror` gets the latest value afterwards.
pub(crate) fn visible(addr: usize, current: u64, make: impl FnOnce(usize) -> Op, rmw: &dyn Fn(u64) -> u64, mirror: &dyn Fn(u64)) -> Option<Done> {
    let (sh, me) = TASK.with(|t| t.borrow().clone())?;
    let mut st = sh.st.lock().unwrap();
    let loc = sync_locs::find(&sh, &mut st.locs, addr, current);
    let op = make(loc);
    st.seen[me] = mix(st.seen[me], hash_op(&op));
    st.pending[me] = Some(op.clone());
    st.running -= 1;
    sh.cv.notify_all();
    while st.granted[me].is_none() && st.aborted.is_none() {
        st = sh.cvs[me].wait(st).unwrap();
    }
    if let Some(why) = st.aborted {
        st.pending[me] = None;
        st.running += 1;
        drop(st);
        TASK.with(|t| *t.borrow_mut() = None);
        if std::thread::panicking() {
            return None;
        }
        panic!("{}", why);
    }
    let v = st.granted[me].take().unwrap();
    let st = &mut *st;
    let latest = st.locs[loc].history.len() - 1;
    let read = |st: &mut State, i: usize, acquire: bool| {
        if i < latest {
            st.stale_left = st.stale_left.saturating_sub(1);
        }
        set(&mut st.views[me], loc, i);
        let (val, w) = st.locs[loc].history[i].clone();
        if acquire {
            join(&mut st.views[me], &w);
        }
        st.seen[me] = mix(mix(st.seen[me], val), i as u64);
        val
    };
    let write = |st: &mut State, val: u64, release: bool, keep: View| {
        let i = st.locs[loc].history.len();
        set(&mut st.views[me], loc, i);
        let mut w = keep;
        if release {
            join(&mut w, &st.views[me].clone());
        }
        st.locs[loc].history.push((val, w));
        mirror(val);
    };
    Some(match (op, v) {
        (Op::Load { acquire, .. }, Variant::Read(i)) => Done::Value(read(st, i, acquire)),
        (Op::Store { value, release, .. }, _) => {
            write(st, value, release, vec![]);
            Done::Value(0)
        }
        (Op::Rmw { release, acquire, .. }, _) => {
            let old = read(st, latest, acquire);
            let keep = st.locs[loc].history[latest].1.clone();
            write(st, rmw(old), release, keep);
            Done::Value(old)
        }
        (Op::Cas { new, release, acquire, .. }, Variant::Do) => {
            let old = read(st, latest, acquire);
            let keep = st.locs[loc].history[latest].1.clone();
            write(st, new, release, keep);
            Done::CasOk(old)
        }
        (Op::Cas { fail_acquire, .. }, Variant::Spurious) => {
            st.spurious_left -= 1;
            st.seen[me] = mix(st.seen[me], 0x5555);
            Done::CasErr(read(st, latest, fail_acquire))
        }
        (Op::Cas { fail_acquire, .. }, Variant::Read(i)) => Done::CasErr(read(st, i, fail_acquire)),
        (Op::Lock { .. }, _) => {
            let _ = read(st, latest, true);
            st.locs[loc].locked = true;
            Done::Value(0)
        }
        (Op::RLock { .. }, _) => {
            let _ = read(st, latest, true);
            st.locs[loc].readers += 1;
            Done::Value(0)
        }
        (Op::Unlock { .. }, _) => {
            st.locs[loc].locked = false;
            write(st, latest as u64 + 1, true, vec![]);
            Done::Value(0)
        }
        (Op::RUnlock { .. }, _) => {
            st.locs[loc].readers -= 1;
            let keep = st.locs[loc].history[latest].1.clone();
            write(st, latest as u64 + 1, true, keep);
            Done::Value(0)
        }
        (op, v) => panic!("{:?} {:?}", op, v),
    })
}
fn hash_op(op: &Op) -> u64 {
    match op {
        Op::Load { loc, .. } => mix(1, *loc as u64),
        Op::Store { loc, value, .. } => mix(mix(2, *loc as u64), *value),
        Op::Rmw { loc, code, .. } => mix(mix(3, *loc as u64), *code),
        Op::Cas { loc, old, new, .. } => mix(mix(mix(4, *loc as u64), *old), *new),
        Op::Lock { loc } => mix(5, *loc as u64),
        Op::Unlock { loc } => mix(6, *loc as u64),
        Op::RLock { loc } => mix(7, *loc as u64),
        Op::RUnlock { loc } => mix(8, *loc as u64),
    }
}
/// Locations are numbered in the order in which they are first used in a parallel section.
mod sync_locs {
    use super::{Loc, Shared};
    use std::collections::HashMap;
    use std::sync::{Arc, Mutex, OnceLock};
    type Tab = Mutex<HashMap<usize, HashMap<usize, usize>>>;
    fn tab() -> &'static Tab {
        static T: OnceLock<Tab> = OnceLock::new();
        T.get_or_init(Default::default)
    }
    fn id(sh: &Arc<Shared>) -> usize {
        Arc::as_ptr(sh) as usize
    }
    pub(super) fn enter(sh: &Arc<Shared>) {
        tab().lock().unwrap().insert(id(sh), HashMap::new());
    }
    pub(super) fn leave(sh: &Arc<Shared>) {
        tab().lock().unwrap().remove(&id(sh));
    }
    pub(super) fn find(sh: &Arc<Shared>, locs: &mut Vec<Loc>, addr: usize, current: u64) -> usize {
        let mut t = tab().lock().unwrap();
        let m = t.get_mut(&id(sh)).expect("parallel section");
        let n = m.len();
        *m.entry(addr).or_insert_with(|| {
            locs.push(Loc { history: vec![(current, vec![])], locked: false, readers: 0 });
            n
        })
    }
}
