//! C28: MmapVec behaves as a Vec with a fixed capacity, for every operation sequence.
use std::cell::RefCell;
use std::collections::BTreeMap;
use vcommon::{guard, hs, hw, Ck, Def};
use zkp_mmap_vec::MmapVec;

pub const C28: Def = Def {
    prop: "C28",
    level: "model_checking",
    rule: "every sequence of up to 3 (thorough 4) operations from an alphabet of 23 (push, truncate, clear, resize, extend in three forms, in-place write, reversal, clone, drop) on vectors of capacity 0..=4 and every sequence of 4 (thorough 5) operations from 13 of them at capacities 1 and 3, replayed on MmapVec and on a list model after every step, for three element types; one element type tracks every creation and destruction, so that leaks, double drops and drops of memory that never held a value are seen; every single operation during which the k-th copy or drop of an element panics (k to 6, thorough 8), for every length and capacity up to 5; plus page-crossing capacities and capacities beyond the address space",
    run,
};

thread_local! {
    static LIVE: RefCell<(u64, BTreeMap<u64, u64>, Vec<String>)> = RefCell::new((0, BTreeMap::new(), vec![]));
}
thread_local! {
    /// clones and drops left until one panics
    static FAULT: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0));
}
fn fault(clone: bool) {
    let (c, d) = FAULT.with(|f| f.get());
    let n = if clone { c } else { d };
    if n > 0 {
        FAULT.with(|f| f.set(if clone { (n - 1, d) } else { (c, n - 1) }));
        if n == 1 && !std::thread::panicking() {
            panic!("injected");
        }
    }
}
/// An element that owns a unique identity.
#[derive(Debug)]
struct Tr {
    id: u64,
    val: u64,
}
impl Tr {
    fn new(val: u64) -> Tr {
        LIVE.with(|l| {
            let mut l = l.borrow_mut();
            l.0 += 1;
            let id = l.0;
            l.1.insert(id, val);
            Tr { id, val }
        })
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        LIVE.with(|l| {
            let mut l = l.borrow_mut();
            if l.1.get(&self.id) != Some(&self.val) {
                let m = format!("cloned a value that is not alive (id {})", self.id);
                l.2.push(m);
            }
        });
        fault(true);
        Tr::new(self.val)
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        LIVE.with(|l| {
            let mut l = l.borrow_mut();
            if l.1.remove(&self.id).is_none() {
                let m = format!("dropped a value that is not alive (id {})", self.id);
                l.2.push(m);
            }
        });
        fault(false);
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        self.val == o.val
    }
}
trait El: Clone + PartialEq + std::fmt::Debug {
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn tracked() -> bool {
        false
    }
}
impl El for Tr {
    fn mk(v: u64) -> Self {
        Tr::new(v)
    }
    fn val(&self) -> u64 {
        self.val
    }
    fn tracked() -> bool {
        true
    }
}
impl El for u64 {
    fn mk(v: u64) -> Self {
        v
    }
    fn val(&self) -> u64 {
        *self
    }
}
impl El for [u8; 3] {
    fn mk(v: u64) -> Self {
        [v as u8, !(v as u8), (v as u8).wrapping_mul(7)]
    }
    fn val(&self) -> u64 {
        if self[1] != !self[0] || self[2] != self[0].wrapping_mul(7) {
            return u64::MAX;
        }
        self[0].into()
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Push,
    Trunc(usize),
    Clear,
    Resize(usize),
    Slice(usize),
    ExtVal(usize),
    ExtRef(usize),
    Set(usize),
    Swap,
    CloneKeep,
    CloneDrop,
}
use Op::*;
fn ops() -> Vec<Op> {
    let mut v = vec![Push, Clear, Swap, CloneKeep, CloneDrop];
    for i in 0..4 {
        v.push(Trunc(i));
    }
    for i in 0..5 {
        v.push(Resize(i));
    }
    for i in 0..3 {
        v.push(Slice(i));
        v.push(ExtVal(i));
    }
    v.push(ExtRef(2));
    v.push(Set(0));
    v.push(Set(2));
    v
}
/// Vec with a capacity; Err(()) = must panic
fn model(cap: usize, m: &mut Vec<u64>, op: Op, fresh: u64) -> Result<(), ()> {
    match op {
        Push => {
            if m.len() == cap {
                return Err(());
            }
            m.push(fresh);
        }
        Trunc(n) => m.truncate(n),
        Clear => m.clear(),
        Resize(n) => {
            if n > cap {
                return Err(());
            }
            m.resize(n, fresh);
        }
        Slice(n) | ExtVal(n) | ExtRef(n) => {
            if m.len() + n > cap {
                return Err(());
            }
            m.extend((0..n as u64).map(|i| fresh + i));
        }
        Set(i) => {
            if i >= m.len() {
                return Err(());
            }
            m[i] = fresh;
        }
        Swap => m.reverse(),
        CloneKeep | CloneDrop => (),
    }
    Ok(())
}
fn apply<T: El>(v: &mut MmapVec<T>, op: Op, fresh: u64) -> Result<(), String> {
    let vals = |n: usize| (0..n as u64).map(|i| T::mk(fresh + i)).collect::<Vec<T>>();
    match op {
        Push => v.push(T::mk(fresh)),
        Trunc(n) => v.truncate(n),
        Clear => v.clear(),
        Resize(n) => v.resize(n, T::mk(fresh)),
        Slice(n) => v.extend_from_slice(&vals(n)),
        ExtVal(n) => v.extend(vals(n)),
        ExtRef(n) => v.extend(&vals(n)),
        Set(i) => v[i] = T::mk(fresh),
        Swap => v.as_mut_slice().reverse(),
        CloneKeep => {
            let c = v.clone();
            if c != *v {
                return Err("clone differs from its source".into());
            }
            *v = c;
        }
        CloneDrop => drop(v.clone()),
    }
    Ok(())
}
fn look<T: El>(v: &MmapVec<T>, m: &[u64]) -> Result<(), String> {
    if v.len() != m.len() || v.is_empty() != m.is_empty() || v.as_slice().len() != m.len() {
        return Err(format!("length {} model {}", v.len(), m.len()));
    }
    for (i, x) in m.iter().enumerate() {
        if v[i].val() != *x {
            return Err(format!("element {} is {:?}, model {}", i, v[i], x));
        }
    }
    if !v.iter().map(El::val).eq(m.iter().copied()) {
        return Err("iteration differs".into());
    }
    if T::tracked() {
        LIVE.with(|l| {
            let l = l.borrow();
            if let Some(e) = l.2.first() {
                return Err(e.clone());
            }
            if l.1.len() != m.len() {
                return Err(format!("{} live elements, model {}", l.1.len(), m.len()));
            }
            Ok(())
        })?;
    }
    Ok(())
}
fn seq<T: El>(cap: usize, s: &[Op]) -> Result<(), String> {
    LIVE.with(|l| *l.borrow_mut() = (0, BTreeMap::new(), vec![]));
    {
        let mut v: MmapVec<T> = MmapVec::with_capacity(cap);
        let mut m = vec![];
        look(&v, &m)?;
        for (i, op) in s.iter().enumerate() {
            let fresh = 10 * (i as u64 + 1);
            let before = m.clone();
            match (model(cap, &mut m, *op, fresh), guard(|| apply(&mut v, *op, fresh))) {
                (Ok(()), Ok(r)) => r?,
                (Ok(()), Err(p)) => return Err(format!("{:?} panicked: {}", op, p)),
                (Err(()), Ok(_)) => return Err(format!("{:?} beyond the bounds did not panic", op)),
                (Err(()), Err(_)) => {
                    // a failed extend may have stored the items that fit
                    if matches!(op, ExtVal(_) | ExtRef(_)) {
                        while m.len() < v.len() && m.len() < cap {
                            let k = (m.len() - before.len()) as u64;
                            m.push(fresh + k);
                        }
                    }
                }
            }
            look(&v, &m).map_err(|e| format!("after step {} {:?}: {}", i, op, e))?;
            // equality with a freshly built vector, and inequality with a changed one
            let mut w: MmapVec<T> = MmapVec::with_capacity(m.len() + 1);
            for x in &m {
                w.push(T::mk(*x));
            }
            if w != v {
                return Err("not equal to a vector with the same content".into());
            }
            w.push(T::mk(77));
            if w == v {
                return Err("equal to a longer vector".into());
            }
            w.truncate(m.len());
            if !m.is_empty() {
                let last = m.len() - 1;
                w[last] = T::mk(78);
                if w == v {
                    return Err("equal to a vector with another last element".into());
                }
            }
        }
    }
    if T::tracked() {
        LIVE.with(|l| {
            let l = l.borrow();
            if let Some(e) = l.2.first() {
                return Err(format!("at the end: {}", e));
            }
            if !l.1.is_empty() {
                return Err(format!("{} elements leaked when the vector was dropped", l.1.len()));
            }
            Ok(())
        })?;
    }
    Ok(())
}
/// one operation during which the k-th copy or drop of an element panics
fn faulty(cap: usize, len: usize, op: Op, clone: bool, k: usize) -> Result<(), String> {
    LIVE.with(|l| *l.borrow_mut() = (0, BTreeMap::new(), vec![]));
    let sane = |v: &MmapVec<Tr>| -> Result<(), String> {
        LIVE.with(|l| {
            let l = l.borrow();
            if let Some(e) = l.2.first() {
                return Err(e.clone());
            }
            if v.len() > cap {
                return Err(format!("length {} above the capacity", v.len()));
            }
            let mut ids: Vec<u64> = v.iter().map(|e| e.id).collect();
            ids.sort();
            ids.dedup();
            if ids.len() != v.len() {
                return Err("an element is contained twice".into());
            }
            for e in v.iter() {
                if l.1.get(&e.id) != Some(&e.val) {
                    return Err(format!("contains an element that is not alive (id {})", e.id));
                }
            }
            if clone && l.1.len() != v.len() {
                return Err(format!("{} live elements, {} in the vector", l.1.len(), v.len()));
            }
            Ok(())
        })
    };
    let mut v: MmapVec<Tr> = MmapVec::with_capacity(cap);
    for i in 0..len {
        v.push(Tr::new(i as u64 + 1));
    }
    // what the operation is given is made before and dropped after the fault
    FAULT.with(|f| f.set(if clone { (k, 0) } else { (0, k) }));
    let r = guard(|| apply(&mut v, op, 10));
    FAULT.with(|f| f.set((0, 0)));
    if let Ok(e) = r {
        e?;
    }
    sane(&v)?;
    // and it still works
    v.truncate(v.len().min(1));
    sane(&v)?;
    if v.len() < cap {
        v.push(Tr::new(99));
        if v[v.len() - 1].val != 99 {
            return Err("push after the panic".into());
        }
    }
    sane(&v)?;
    drop(v);
    LIVE.with(|l| {
        let l = l.borrow();
        if let Some(e) = l.2.first() {
            return Err(format!("at the end: {}", e));
        }
        if clone && !l.1.is_empty() {
            return Err(format!("{} elements leaked", l.1.len()));
        }
        Ok(())
    })
}
/// the vector itself is dropped and the k-th element panics
fn faulty_drop(len: usize, k: usize) -> Result<(), String> {
    LIVE.with(|l| *l.borrow_mut() = (0, BTreeMap::new(), vec![]));
    let mut v: MmapVec<Tr> = MmapVec::with_capacity(len);
    for i in 0..len {
        v.push(Tr::new(i as u64 + 1));
    }
    FAULT.with(|f| f.set((0, k)));
    let _ = guard(move || drop(v));
    FAULT.with(|f| f.set((0, 0)));
    LIVE.with(|l| l.borrow().2.first().map_or(Ok(()), |e| Err(e.clone())))
}
fn explore(ck: &mut Ck, caps: &[usize], al: &[Op], depth: usize) {
    let mut items = vec![];
    for cap in caps {
        for a in al {
            for b in al {
                items.push((*cap, *a, *b));
            }
        }
    }
    ck.par(&items, |ck, &(cap, a, b)| {
        let mut stack = vec![vec![a, b]];
        while let Some(s) = stack.pop() {
            if s.len() < depth {
                for o in al {
                    let mut t = s.clone();
                    t.push(*o);
                    stack.push(t);
                }
                continue;
            }
            let mut m = vec![];
            for (i, o) in s.iter().enumerate() {
                let _ = model(cap, &mut m, *o, 10 * (i as u64 + 1));
                ck.state(hw(&[cap as u64, hs(&format!("{:?}", m))]));
            }
            let st = hw(&[cap as u64, hs(&format!("{:?}", m))]);
            ck.case(st, 3 * s.len() as u64, || format!("cap {} {:?}", cap, s), || {
                seq::<Tr>(cap, &s).map_err(|e| format!("tracked: {}", e))?;
                seq::<u64>(cap, &s).map_err(|e| format!("u64: {}", e))?;
                seq::<[u8; 3]>(cap, &s).map_err(|e| format!("[u8; 3]: {}", e))
            });
        }
    });
}
fn run(ck: &mut Ck) {
    let al = ops();
    explore(ck, &[0, 1, 2, 3, 4], &al, ck.b(3, 4));
    let core = [Push, Clear, CloneKeep, Swap, Trunc(0), Trunc(1), Resize(0), Resize(1), Resize(3), Slice(1), Slice(2), ExtVal(2), Set(0)];
    explore(ck, &[1, 3], &core, ck.b(4, 5));
    for cap in 0..=5_usize {
        for len in 0..=cap {
            for op in al.iter() {
                for k in 1..=ck.b(6, 8) {
                    for clone in [true, false] {
                        let key = format!("cap {} len {} {:?}: {} {} panics", cap, len, op, if clone { "copy" } else { "drop" }, k);
                        ck.case(hs(&key), 4, || key.clone(), || faulty(cap, len, *op, clone, k));
                    }
                }
            }
            for k in 1..=len {
                ck.case(hw(&[98, len as u64, k as u64]), 1, || format!("drop of {} elements, number {} panics", len, k), || faulty_drop(len, k));
            }
        }
    }
    // more bytes than there are addresses
    for cap in [1_usize << 61, (1 << 61) + 1, (1 << 61) + 512, 1 << 62, 1 << 63, usize::MAX / 3 + 1, usize::MAX] {
        ck.case(hw(&[97, cap as u64]), 1, || format!("capacity {}", cap), || {
            if guard(|| MmapVec::<u64>::with_capacity(cap)).is_ok() || (cap > usize::MAX / 3 && guard(|| MmapVec::<[u8; 3]>::with_capacity(cap)).is_ok()) {
                return Err("memory for more bytes than there are addresses".into());
            }
            Ok(())
        });
    }
    for cap in [0_usize, 1, 511, 512, 513, 4095, 4096, 4097, 20000] {
        ck.case(hw(&[99, cap as u64]), 5 * cap as u64, || format!("large cap {}", cap), || {
            let mut v: MmapVec<u64> = MmapVec::with_capacity(cap);
            for i in 0..cap as u64 {
                v.push(i * i + 1);
            }
            let c = v.clone();
            if guard(|| v.push(1)).is_ok() {
                return Err("push beyond capacity".into());
            }
            for i in 0..cap as u64 {
                if v[i as usize] != i * i + 1 || c[i as usize] != i * i + 1 {
                    return Err(format!("element {}", i));
                }
            }
            // the documented contract: all bits zero is a valid u64
            #[allow(unsafe_code)]
            let z: MmapVec<u64> = unsafe { MmapVec::zero_initialized(cap) };
            if z.len() != cap || z.iter().any(|x| *x != 0) {
                return Err("zero_initialized".into());
            }
            v.truncate(cap / 2);
            v.resize(cap, 7);
            for i in 0..cap {
                let want = if i < cap / 2 { (i * i + 1) as u64 } else { 7 };
                if v[i] != want {
                    return Err(format!("element {} after resize", i));
                }
            }
            Ok(())
        });
    }
}
