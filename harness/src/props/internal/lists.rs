//! C22: linked list and LRU cache, reached through the guarded `verif_hooks` module.
use super::{big_size, copy, Prop, MIRI};
use crate::ctx::*;
use crate::ensure;
use crate::rng::*;
use adhoc_audio::verif_hooks::*;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::sync::Arc;
// ------------------------------------------------------------------ C22

pub static C22: Prop = Prop {
    id: "C22",
    quick: 400000,
    thorough: 32000000,
    run: c22,
    rule: "Each case drives one linked list (1-300 operations: push/pop at both ends, insert_at left/right of and remove_at random live nodes, allocate/free of detached nodes, iter_mut updates, serialise and carry on with the copy; with plain items and with reference-counted items whose drops are counted) or one LRU cache (capacity 1-40, key universes around and well above the capacity, put/update/get/get_mut/lookup/remove and serialise) and compares every result with a Vec model: order forwards and backwards, node pointers stable and unshared, memory never above the peak number of live nodes, every key's presence and value after every operation, length against capacity. Distinct by (container, operations).",
    assume: &["node pointers passed in are live", "LRU capacity is at least 1"],
    require: &[("list_ops", 1500000), ("list_middle_inserts", 150000), ("list_middle_removes", 150000), ("list_slots_reused", 150000), ("list_backward_checks", 60000), ("list_detached_nodes", 15000), ("iter_mut", 15000), ("items_dropped", 150000), ("lru_ops", 1500000), ("lru_evictions", 300000), ("lru_huge_capacities", 3000), ("lru_updates", 150000), ("lru_get_hits", 300000), ("lru_removes", 60000), ("serialised", 30000), ("emptied", 15000)],
};
pub fn c22(c: &mut Ctx, r: &mut Rng, idx: u64) -> Res {
    if !MIRI && idx % 4000 == 3999 {
        c.count("big_containers", 1);
        return big_lru(c, r);
    }
    match idx % 5 {
        0 | 1 => list_serde(c, r),
        2 => list_drops(c, r),
        3 => {
            let uni = keys(r);
            lru(c, r, (0..uni as u64).collect())
        }
        _ => {
            let uni = keys(r);
            lru(c, r, (0..uni).map(|i| format!("key {}", i * 7919)).collect())
        }
    }
}
pub fn keys(r: &mut Rng) -> usize {
    if r.chance(1, 10) {
        r.usize(1, 120)
    } else {
        r.usize(1, 14)
    }
}
pub fn list_serde(c: &mut Ctx, r: &mut Rng) -> Res {
    list(c, r, |x| x, |x: &u64| *x, Some(|l: &LinkedList<u64>| copy(l)))
}
pub fn list_drops(c: &mut Ctx, r: &mut Rng) -> Res {
    // one Arc per item id: live copies = strong count - 1
    let reg: std::cell::RefCell<BTreeMap<u64, Arc<u64>>> = Default::default();
    list(
        c,
        r,
        |x| {
            let a = Arc::new(x);
            reg.borrow_mut().insert(x, a.clone());
            a
        },
        |x: &Arc<u64>| **x,
        None::<fn(&LinkedList<Arc<u64>>) -> Result<LinkedList<Arc<u64>>, String>>,
    )?;
    for (k, a) in reg.borrow().iter() {
        ensure!(Arc::strong_count(a) == 1, "item {} was dropped the wrong number of times ({} owners left)", k, Arc::strong_count(a) - 1);
        c.count("items_dropped", 1);
    }
    Ok(())
}
fn check_list<T>(c: &mut Ctx, l: &LinkedList<T>, m: &[(u64, Ptr)], id: &impl Fn(&T) -> u64, k: usize) -> Res {
    ensure!(l.len() == m.len(), "op {}: length {} instead of {}", k, l.len(), m.len());
    let got: Vec<u64> = l.iter().map(|x| id(x)).collect();
    ensure!(got.iter().eq(m.iter().map(|x| &x.0)), "op {}: forward order {:?} instead of {:?}", k, got, m.iter().map(|x| x.0).collect::<Vec<_>>());
    let ptrs: Vec<Ptr> = LinkedListIterator::new(l).collect();
    ensure!(ptrs.iter().eq(m.iter().map(|x| &x.1)), "op {}: nodes {:?} instead of {:?}", k, ptrs, m);
    if m.is_empty() {
        c.count("emptied", 1);
    } else {
        ensure!(l.front() == m[0].1 && l.rear() == m[m.len() - 1].1, "op {}: front {:?} and rear {:?} are not the ends", k, l.front(), l.rear());
    }
    for (x, p) in m {
        ensure!(l.get(*p).and_then(|n| n.data()).map(|d| id(d)) == Some(*x), "op {}: node {:?} does not hold {}", k, p, x);
    }
    Ok(())
}
fn list<T>(c: &mut Ctx, r: &mut Rng, mk: impl Fn(u64) -> T, id: impl Fn(&T) -> u64, dup: Option<impl Fn(&LinkedList<T>) -> Result<LinkedList<T>, String>>) -> Res {
    let mut l = LinkedList::<T>::new();
    let mut m: Vec<(u64, Ptr)> = vec![];
    let mut loose: Vec<(u64, Ptr)> = vec![];
    let mut seen: HashSet<usize> = HashSet::new();
    let (mut next, mut peak) = (0u64, 0usize);
    let big = !MIRI && r.chance(1, 4000);
    c.count("big_containers", big as u64);
    let n = if MIRI { r.usize(1, 15) } else if r.chance(1, 10) { r.usize(1, 300) } else { r.usize(1, 60) };
    let mut h = vec![4];
    let n = if big { 40 } else { n };
    if big {
        for _ in 0..big_size(r) {
            next += 1;
            l.push_rear(mk(next));
            m.push((next, l.rear()));
            seen.insert(l.rear().as_usize());
        }
        peak = m.len();
    }
    for k in 0..n {
        let grow = (k / 25) % 2 == 0;
        let op = r.below(20);
        h.push(op);
        let mut added: Option<(usize, u64)> = None;
        match op {
            0 => {
                if let Some(d) = &dup {
                    l = d(&l)?;
                    c.count("serialised", 1);
                    // backwards on another copy
                    let mut b = d(&l)?;
                    for (x, _) in m.iter().rev() {
                        let y = b.pop_rear().map(|y| id(&y));
                        ensure!(y == Some(*x), "op {}: backward order: {:?} instead of {}", k, y, x);
                    }
                    ensure!(b.pop_rear().is_none() && b.len() == 0, "op {}: backwards, items remain", k);
                    c.count("list_backward_checks", 1);
                }
            }
            1 => {
                let ids: Vec<u64> = l.iter_mut().map(|x| { *x = mk({ next += 1; next }); next }).collect();
                ensure!(ids.len() == m.len(), "op {}: iter_mut visits {} of {} items", k, ids.len(), m.len());
                for (e, i) in m.iter_mut().zip(ids) {
                    e.0 = i
                }
                c.count("iter_mut", 1);
            }
            2 => {
                next += 1;
                let p = l.allocate(mk(next));
                ensure!(m.iter().chain(&loose).all(|x| x.1 != p), "op {}: allocate hands out the live node {:?}", k, p);
                loose.push((next, p));
                if !seen.insert(p.as_usize()) {
                    c.count("list_slots_reused", 1)
                }
                c.count("list_detached_nodes", 1);
            }
            3 => {
                if !loose.is_empty() {
                    let i = r.usize(0, loose.len() - 1);
                    let (x, p) = loose.swap_remove(i);
                    let y = l.free(p).map(|y| id(&y));
                    ensure!(y == Some(x), "op {}: free gives {:?} instead of {}", k, y, x);
                }
            }
            4 => {
                if !m.is_empty() {
                    let i = r.usize(0, m.len() - 1);
                    next += 1;
                    let nd = l.get_mut(m[i].1).ok_or("no node")?;
                    *nd.data_mut().ok_or("no data")? = mk(next);
                    m[i].0 = next;
                }
            }
            5..=12 if grow || op < 8 => {
                next += 1;
                match r.below(4) {
                    0 => {
                        l.push_front(mk(next));
                        added = Some((0, next))
                    }
                    1 => {
                        l.push_rear(mk(next));
                        added = Some((m.len(), next))
                    }
                    _ if m.is_empty() => {
                        l.insert_at(NULL, InsertDirection::Left, mk(next));
                        added = Some((0, next))
                    }
                    _ => {
                        let i = r.usize(0, m.len() - 1);
                        let left = r.chance(1, 2);
                        l.insert_at(m[i].1, if left { InsertDirection::Left } else { InsertDirection::Right }, mk(next));
                        added = Some((if left { i } else { i + 1 }, next));
                        c.count("list_middle_inserts", 1);
                    }
                }
            }
            _ => {
                let (got, want, how) = match r.below(4) {
                    0 => (l.pop_front(), if m.is_empty() { None } else { Some(m.remove(0)) }, "pop_front"),
                    1 => (l.pop_rear(), m.pop(), "pop_rear"),
                    _ => {
                        if m.is_empty() {
                            (l.pop_front(), None, "pop_front")
                        } else {
                            let i = r.usize(0, m.len() - 1);
                            let e = m.remove(i);
                            c.count("list_middle_removes", 1);
                            (l.remove_at(e.1), Some(e), "remove_at")
                        }
                    }
                };
                let got = got.map(|y| id(&y));
                ensure!(got == want.map(|x| x.0), "op {}: {} gives {:?} instead of {:?}", k, how, got, want);
            }
        }
        if let Some((i, x)) = added {
            // find the new node by position; every other node must be where it was
            let p = LinkedListIterator::new(&l).nth(i).ok_or_else(|| format!("op {}: inserted item {} not at position {}", k, x, i))?;
            ensure!(m.iter().chain(&loose).all(|e| e.1 != p), "op {}: insertion at {} reuses the live node {:?}", k, i, p);
            m.insert(i, (x, p));
            if !seen.insert(p.as_usize()) {
                c.count("list_slots_reused", 1)
            }
        }
        peak = peak.max(m.len() + loose.len());
        ensure!(seen.len() <= peak && (big && k % 8 > 0 || seen.iter().all(|&s| s < peak)), "op {}: {} slots used for at most {} live nodes", k, seen.len(), peak);
        if !big || k % 8 == 7 {
            check_list(c, &l, &m, &id, k)?;
        }
        for (x, p) in &loose {
            ensure!(l.get(*p).and_then(|n| n.data()).map(|d| id(d)) == Some(*x), "op {}: detached node {:?} lost {}", k, p, x);
        }
        c.count("list_ops", 1);
    }
    // drain, alternating backwards
    let back = r.chance(1, 2);
    let mut m: VecDeque<(u64, Ptr)> = m.into();
    while !m.is_empty() {
        let (g, w) = if back { (l.pop_rear(), m.pop_back().unwrap()) } else { (l.pop_front(), m.pop_front().unwrap()) };
        let g = g.map(|y| id(&y));
        ensure!(g == Some(w.0), "draining {}: {:?} instead of {}", if back { "backwards" } else { "forwards" }, g, w.0);
        if m.len() == 3 && r.chance(1, 2) {
            break; // leave the rest to Drop
        }
    }
    c.count("list_backward_checks", back as u64);
    c.d(format!("linked list, {} ops", n));
    c.sig(hash_u64s(&h));
    Ok(())
}
/// capacities beyond narrow counters, model with explicit times of use
fn big_lru(c: &mut Ctx, r: &mut Rng) -> Res {
    let cap = big_size(r).min(140_000);
    let mut l = LruCache::<u64, u64>::new(cap);
    let mut val: BTreeMap<u64, (u64, u64)> = BTreeMap::new(); // key -> (time, value)
    let mut by_time: BTreeMap<u64, u64> = BTreeMap::new();
    let uni = cap as u64 + r.below(cap as u64 + 10);
    let mut time = 0;
    let n = cap * 2 + 1000;
    for k in 0..n {
        time += 1;
        let fill = k < cap;
        let key = if fill { k as u64 } else { r.below(uni) };
        let op = if fill { 9 } else { r.below(10) };
        match op {
            0 if k % 50 == 0 => {
                let (got, want) = (l.remove(&key), val.remove(&key));
                if let Some((t, _)) = want {
                    by_time.remove(&t);
                }
                ensure!(got == want.map(|x| x.1), "op {}: remove({}) gives {:?} instead of {:?}", k, key, got, want);
            }
            1 | 2 => {
                let got = l.lookup(&key).copied();
                ensure!(got == val.get(&key).map(|x| x.1), "op {}: lookup({}) gives {:?} instead of {:?} (capacity {})", k, key, got, val.get(&key), cap);
            }
            3 | 4 => {
                let got = l.get(&key).copied();
                ensure!(got == val.get(&key).map(|x| x.1), "op {}: get({}) gives {:?} instead of {:?} (capacity {})", k, key, got, val.get(&key), cap);
                if let Some(e) = val.get_mut(&key) {
                    by_time.remove(&e.0);
                    e.0 = time;
                    by_time.insert(time, key);
                }
            }
            _ => {
                let v = r.u64();
                l.put(key, v);
                match val.insert(key, (time, v)) {
                    Some((t, _)) => {
                        by_time.remove(&t);
                    }
                    None if val.len() > cap => {
                        let (&t, &old) = by_time.iter().next().unwrap();
                        by_time.remove(&t);
                        val.remove(&old);
                        c.count("lru_evictions", 1);
                        ensure!(l.lookup(&old).is_none(), "op {}: key {} is not evicted although least recently used (capacity {})", k, old, cap);
                    }
                    None => {}
                }
                by_time.insert(time, key);
            }
        }
        ensure!(l.len() == val.len(), "op {}: {} entries instead of {} (capacity {})", k, l.len(), val.len(), cap);
        c.count("lru_ops", 1);
    }
    if r.chance(1, 2) {
        l = copy(&l)?;
    }
    for (key, (_, v)) in &val {
        ensure!(l.lookup(key) == Some(v), "finally: key {} holds {:?} instead of {} (capacity {})", key, l.lookup(key), v, cap);
    }
    c.d(format!("LRU cache of {}, {} ops", cap, n));
    c.sig(hash_u64s(&[6, cap as u64, uni, time]));
    Ok(())
}
pub fn lru<K>(c: &mut Ctx, r: &mut Rng, uni: Vec<K>) -> Res
where
    K: Eq + std::hash::Hash + Clone + serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug,
{
    let cap = match r.below(30) {
        0..=4 => r.usize(1, 40),
        5 => {
            c.count("lru_huge_capacities", 1);
            // as good as unbounded
            usize::MAX - (usize::MAX >> r.usize(0, 31)) + r.usize(0, 3)
        }
        _ => r.usize(1, 5),
    };
    let cap = cap.max(1);
    let mut l = LruCache::<K, u64>::new(cap);
    let mut m: Vec<(usize, u64)> = vec![]; // most recent first
    let n = if MIRI { r.usize(1, 20) } else if r.chance(1, 10) { r.usize(1, 400) } else { r.usize(1, 80) };
    let mut h = vec![5, cap as u64, uni.len() as u64];
    for k in 0..n {
        let op = r.below(24);
        let i = r.usize(0, uni.len() - 1);
        h.push(op * 1000 + i as u64);
        let key = &uni[i];
        let at = m.iter().position(|e| e.0 == i);
        let v = r.u64();
        match op {
            0 => {
                l = copy(&l)?;
                c.count("serialised", 1)
            }
            1 | 2 => {
                let got = l.remove(key);
                let want = at.map(|a| m.remove(a).1);
                ensure!(got == want, "op {}: remove({:?}) gives {:?} instead of {:?}", k, key, got, want);
                c.count("lru_removes", want.is_some() as u64);
            }
            3..=6 => {
                let got = l.lookup(key).copied();
                ensure!(got == at.map(|a| m[a].1), "op {}: lookup({:?}) gives {:?} instead of {:?}", k, key, got, at.map(|a| m[a].1));
            }
            7..=10 => {
                let got = l.get(key).copied();
                ensure!(got == at.map(|a| m[a].1), "op {}: get({:?}) gives {:?} instead of {:?}", k, key, got, at.map(|a| m[a].1));
                if let Some(a) = at {
                    let e = m.remove(a);
                    m.insert(0, e);
                    c.count("lru_get_hits", 1);
                }
            }
            11 | 12 => {
                let got = l.get_mut(key);
                ensure!(got.as_deref().copied() == at.map(|a| m[a].1), "op {}: get_mut({:?}) gives {:?}", k, key, got);
                if let (Some(x), Some(a)) = (got, at) {
                    *x = v;
                    m.remove(a);
                    m.insert(0, (i, v));
                }
            }
            _ => {
                l.put(key.clone(), v);
                match at {
                    Some(a) => {
                        m.remove(a);
                        c.count("lru_updates", 1)
                    }
                    None => {
                        if m.len() == cap {
                            m.pop();
                            c.count("lru_evictions", 1)
                        }
                    }
                }
                m.insert(0, (i, v));
            }
        }
        ensure!(l.len() == m.len() && l.len() <= cap, "op {}: {} entries instead of {} (capacity {})", k, l.len(), m.len(), cap);
        for (j, key) in uni.iter().enumerate() {
            let want = m.iter().find(|e| e.0 == j).map(|e| e.1);
            let got = l.lookup(key).copied();
            ensure!(got == want, "op {} ({}): key {:?} holds {:?} instead of {:?} (capacity {}, {} of {} entries)", k, op, key, got, want, cap, l.len(), m.len());
        }
        c.count("lru_ops", 1);
    }
    // eviction order of everything that is left, by pushing it out with the keys that are not held
    let order: Vec<usize> = m.iter().map(|e| e.0).collect();
    let fresh: Vec<&K> = (0..uni.len()).filter(|i| !order.contains(i)).map(|i| &uni[i]).collect();
    let mut len = l.len();
    for f in fresh {
        l.put(f.clone(), 0);
        if len == cap {
            if let Some(e) = m.pop() {
                ensure!(l.lookup(&uni[e.0]).is_none(), "{:?} is not evicted although least recently used", uni[e.0]);
                c.count("lru_evictions", 1);
            }
        } else {
            len += 1
        }
        for e in &m {
            ensure!(l.lookup(&uni[e.0]) == Some(&e.1), "{:?} is evicted before its turn", uni[e.0]);
        }
    }
    c.d(format!("LRU cache of {} with {} keys, {} ops", cap, uni.len(), n));
    c.sig(hash_u64s(&h));
    Ok(())
}
