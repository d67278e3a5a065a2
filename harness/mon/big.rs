//! Exact decimal arithmetic: the rounding oracle of C14.

/// Little-endian base 2^32.
#[derive(Clone, Debug, PartialEq)]
pub struct Big(Vec<u32>);

impl Big {
    pub fn new(v: u64) -> Big {
        let mut b = Big(vec![v as u32, (v >> 32) as u32]);
        b.trim();
        b
    }
    fn trim(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn mul(&mut self, m: u32) {
        let mut c = 0u64;
        for x in self.0.iter_mut() {
            let t = *x as u64 * m as u64 + c;
            *x = t as u32;
            c = t >> 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    pub fn shl(&mut self, n: usize) {
        for _ in 0..n / 32 {
            self.0.insert(0, 0);
        }
        self.mul(1u32 << (n % 32));
        self.trim();
    }
    /// Quotient and remainder of the division by 2^n, the remainder compared with 2^(n-1).
    pub fn shr(&self, n: usize) -> (Big, std::cmp::Ordering) {
        let bit = |i: usize| self.0.get(i / 32).map_or(false, |w| w >> (i % 32) & 1 == 1);
        let mut q = Big(vec![0; self.0.len()]);
        for i in n..self.0.len() * 32 {
            if bit(i) {
                q.0[(i - n) / 32] |= 1 << ((i - n) % 32);
            }
        }
        q.trim();
        if n == 0 {
            return (q, std::cmp::Ordering::Less);
        }
        let half = bit(n - 1);
        let rest = (0..n - 1).any(bit);
        let ord = match (half, rest) {
            (false, _) => std::cmp::Ordering::Less,
            (true, false) => std::cmp::Ordering::Equal,
            (true, true) => std::cmp::Ordering::Greater,
        };
        (q, ord)
    }
    pub fn add1(&mut self) {
        for x in self.0.iter_mut() {
            let (y, o) = x.overflowing_add(1);
            *x = y;
            if !o {
                return;
            }
        }
        self.0.push(1);
    }
    pub fn decimal(&self) -> String {
        let mut v = self.0.clone();
        let mut parts = vec![];
        while !v.is_empty() {
            let mut r = 0u64;
            for x in v.iter_mut().rev() {
                let t = (r << 32) | *x as u64;
                *x = (t / 1_000_000_000) as u32;
                r = t % 1_000_000_000;
            }
            while v.last() == Some(&0) {
                v.pop();
            }
            parts.push(r);
        }
        if parts.is_empty() {
            return "0".into();
        }
        let mut s = parts.pop().unwrap().to_string();
        while let Some(p) = parts.pop() {
            s.push_str(&format!("{:09}", p));
        }
        s
    }
}

/// |v| rounded to `p` decimals, without sign: one text, or two at an exact tie.
pub fn rounded(v: f64, p: usize) -> Vec<String> {
    if p > 1074 {
        // Exact with that many decimals; only zeroes follow.
        return rounded(v, 1074).into_iter().map(|s| s + &"0".repeat(p - 1074)).collect();
    }
    let bits = v.abs().to_bits();
    let e = (bits >> 52) as i64;
    let m = bits & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let mut b = Big::new(m);
    for _ in 0..p {
        b.mul(10);
    }
    let outs = if e >= 0 {
        b.shl(e as usize);
        vec![b]
    } else {
        let (q, ord) = b.shr((-e) as usize);
        let mut up = q.clone();
        up.add1();
        match ord {
            std::cmp::Ordering::Less => vec![q],
            std::cmp::Ordering::Greater => vec![up],
            std::cmp::Ordering::Equal => vec![q, up],
        }
    };
    outs.iter().map(|b| point(b.decimal(), p)).collect()
}

/// Puts the decimal point `p` digits from the end.
pub fn point(mut s: String, p: usize) -> String {
    if p == 0 {
        return s;
    }
    while s.len() <= p {
        s.insert(0, '0');
    }
    s.insert(s.len() - p, '.');
    s
}

/// The same for an exact number of nanoseconds.
pub fn rounded_ns(ns: u128, p: usize) -> Vec<String> {
    if p >= 9 {
        return vec![point(format!("{}{}", ns, "0".repeat(p - 9)), p)];
    }
    let d = 10u128.pow(9 - p as u32);
    let (q, r) = (ns / d, ns % d);
    match (2 * r).cmp(&d) {
        std::cmp::Ordering::Less => vec![point(q.to_string(), p)],
        std::cmp::Ordering::Greater => vec![point((q + 1).to_string(), p)],
        std::cmp::Ordering::Equal => vec![point(q.to_string(), p), point((q + 1).to_string(), p)],
    }
}
