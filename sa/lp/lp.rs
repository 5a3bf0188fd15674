//! Exact rational feasibility of a system of affine inequalities and equalities (general simplex
//! with Bland's rule). All arithmetic is checked; on overflow the answer is "unknown" and the
//! caller falls back to its own arbitrary precision implementation.
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Q {
    n: i128,
    d: i128,
}
type R<T> = Option<T>;

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
            let (mut x, mut y) = (a as u64, b as u64);
            while y != 0 {
                let t = x % y;
                x = y;
                y = t;
            }
            return x as i128;
        }
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

impl Q {
    fn int(n: i128) -> Q {
        Q { n, d: 1 }
    }
    fn new(n: i128, d: i128) -> R<Q> {
        if n == i128::MIN || d == i128::MIN {
            return None;
        }
        let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
        if d == 1 {
            return Some(Q { n, d });
        }
        let g = gcd(n, d);
        if g > 1 {
            Some(Q { n: n / g, d: d / g })
        } else {
            Some(Q { n, d })
        }
    }
    fn add(self, o: Q) -> R<Q> {
        if self.d == 1 && o.d == 1 {
            return Some(Q::int(self.n.checked_add(o.n)?));
        }
        Q::new(
            self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?,
            self.d.checked_mul(o.d)?,
        )
    }
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
    fn sub(self, o: Q) -> R<Q> {
        self.add(o.neg())
    }
    fn mul(self, o: Q) -> R<Q> {
        if self.d == 1 && o.d == 1 {
            return Some(Q::int(self.n.checked_mul(o.n)?));
        }
        Q::new(self.n.checked_mul(o.n)?, self.d.checked_mul(o.d)?)
    }
    fn inv(self) -> R<Q> {
        Q::new(self.d, self.n)
    }
    fn lt(self, o: Q) -> R<bool> {
        if self.d == o.d {
            return Some(self.n < o.n);
        }
        Some(self.n.checked_mul(o.d)? < o.n.checked_mul(self.d)?)
    }
    fn is0(self) -> bool {
        self.n == 0
    }
}

type Row = BTreeMap<u32, Q>;

fn run(data: &[i64]) -> R<bool> {
    let mut p = 0usize;
    let mut next = || {
        p += 1;
        data[p - 1]
    };
    // terms are given by increasing identifiers; they are numbered in that order
    let nrows = next() as usize;
    let mut ids: Vec<i64> = Vec::new();
    {
        let mut q = 1usize;
        for _ in 0..nrows {
            let nt = data[q + 1] as usize;
            q += 4;
            for _ in 0..nt {
                ids.push(data[q]);
                q += 3;
            }
        }
    }
    ids.sort_unstable();
    ids.dedup();
    let nvars = ids.len();
    let mut ges: Vec<(Row, Q)> = Vec::new();
    let mut eqs: Vec<(Row, Q)> = Vec::new();
    let big = |lo: i64, hi: i64| ((hi as i128) << 64) | (lo as u64 as i128);
    for _ in 0..nrows {
        let kind = next();
        let nt = next();
        let (l, h) = (next(), next());
        let c = Q::int(big(l, h));
        let mut row = Row::new();
        for _ in 0..nt {
            let v = ids.binary_search(&next()).unwrap() as u32;
            let (l, h) = (next(), next());
            row.insert(v, Q::int(big(l, h)));
        }
        if kind == 0 {
            ges.push((row, c));
        } else {
            eqs.push((row, c));
        }
    }
    // eliminate equalities
    while let Some((d, c)) = eqs.pop() {
        if d.is_empty() {
            if !c.is0() {
                return Some(true);
            }
            continue;
        }
        let pv = d
            .iter()
            .filter(|(_, k)| k.d == 1 && (k.n == 1 || k.n == -1))
            .map(|(x, _)| *x)
            .next()
            .unwrap_or_else(|| *d.keys().next().unwrap());
        let k = d[&pv];
        let ik = k.inv()?;
        for (e, c2) in ges.iter_mut().chain(eqs.iter_mut()) {
            if let Some(v) = e.get(&pv).copied() {
                let q = v.mul(ik)?;
                for (x, y) in d.iter() {
                    let o = e.get(x).copied().unwrap_or(Q::int(0));
                    let n = o.sub(q.mul(*y)?)?;
                    if n.is0() {
                        e.remove(x);
                    } else {
                        e.insert(*x, n);
                    }
                }
                *c2 = c2.sub(q.mul(c)?)?;
            }
        }
    }
    let mut lo: Vec<Option<Q>> = vec![None; nvars];
    let mut hi: Vec<Option<Q>> = vec![None; nvars];
    let mut slack: Vec<(Row, Q)> = Vec::new();
    for (e, c) in ges {
        if e.is_empty() {
            if c.n < 0 {
                return Some(true);
            }
            continue;
        }
        if e.len() == 1 {
            let (x, k) = e.iter().next().unwrap();
            let x = *x as usize;
            let b = c.neg().mul(k.inv()?)?;
            if k.n > 0 {
                if lo[x].is_none() || lo[x].unwrap().lt(b)? {
                    lo[x] = Some(b);
                }
            } else if hi[x].is_none() || b.lt(hi[x].unwrap())? {
                hi[x] = Some(b);
            }
        } else {
            slack.push((e, c.neg()));
        }
    }
    for x in 0..nvars {
        if let (Some(a), Some(b)) = (lo[x], hi[x]) {
            if b.lt(a)? {
                return Some(true);
            }
        }
    }
    if slack.is_empty() {
        return Some(false);
    }
    // rows with the same linear part
    let mut index: std::collections::HashMap<Vec<(u32, i128, i128)>, u32> = Default::default();
    let mut rows: BTreeMap<u32, Row> = BTreeMap::new();
    for (e, b) in slack {
        let key: Vec<_> = e.iter().map(|(x, k)| (*x, k.n, k.d)).collect();
        match index.get(&key) {
            Some(s) => {
                let s = *s as usize;
                if lo[s].unwrap().lt(b)? {
                    lo[s] = Some(b);
                }
            }
            None => {
                let s = lo.len() as u32;
                index.insert(key, s);
                lo.push(Some(b));
                hi.push(None);
                rows.insert(s, e);
            }
        }
    }
    let n = lo.len();
    let mut val = vec![Q::int(0); n];
    for x in 0..nvars {
        val[x] = match (lo[x], hi[x]) {
            (Some(l), _) => l,
            (None, Some(h)) => {
                if h.n < 0 {
                    h
                } else {
                    Q::int(0)
                }
            }
            _ => Q::int(0),
        };
    }
    for (s, e) in rows.iter() {
        let mut v = Q::int(0);
        for (x, k) in e.iter() {
            v = v.add(k.mul(val[*x as usize])?)?;
        }
        val[*s as usize] = v;
    }
    for _ in 0..4000 {
        let mut b = None;
        for s in rows.keys() {
            let i = *s as usize;
            let bad = (match lo[i] {
                Some(l) => val[i].lt(l)?,
                None => false,
            }) || (match hi[i] {
                Some(h) => h.lt(val[i])?,
                None => false,
            });
            if bad {
                b = Some(*s);
                break;
            }
        }
        let b = match b {
            None => return Some(false),
            Some(b) => b,
        };
        let bi = b as usize;
        let low = match lo[bi] {
            Some(l) => val[bi].lt(l)?,
            None => false,
        };
        let target = if low { lo[bi].unwrap() } else { hi[bi].unwrap() };
        let row = rows[&b].clone();
        let mut ent = None;
        for (x, k) in row.iter() {
            let i = *x as usize;
            let up = (k.n > 0) == low;
            if up {
                if let Some(h) = hi[i] {
                    if !val[i].lt(h)? {
                        continue;
                    }
                }
            } else if let Some(l) = lo[i] {
                if !l.lt(val[i])? {
                    continue;
                }
            }
            ent = Some(*x);
            break;
        }
        let ent = match ent {
            None => return Some(true),
            Some(e) => e,
        };
        let a = row[&ent];
        let ia = a.inv()?;
        let theta = target.sub(val[bi])?.mul(ia)?;
        val[bi] = target;
        val[ent as usize] = val[ent as usize].add(theta)?;
        rows.remove(&b);
        let mut new = Row::new();
        new.insert(b, ia);
        for (x, k) in row.iter() {
            if *x != ent {
                new.insert(*x, k.neg().mul(ia)?);
            }
        }
        for (s, e) in rows.iter_mut() {
            if let Some(q) = e.remove(&ent) {
                let i = *s as usize;
                val[i] = val[i].add(q.mul(theta)?)?;
                for (x, k) in new.iter() {
                    let o = e.get(x).copied().unwrap_or(Q::int(0));
                    let v = o.add(q.mul(*k)?)?;
                    if v.is0() {
                        e.remove(x);
                    } else {
                        e.insert(*x, v);
                    }
                }
            }
        }
        rows.insert(ent, new);
    }
    Some(false)
}

/// 1: infeasible, 0: not shown infeasible, -1: unknown (overflow)
///
/// # Safety
/// `data` points at `len` numbers.
#[no_mangle]
pub unsafe extern "C" fn lp_infeasible(data: *const i64, len: usize) -> i32 {
    let s = std::slice::from_raw_parts(data, len);
    match run(s) {
        Some(true) => 1,
        Some(false) => 0,
        None => -1,
    }
}
