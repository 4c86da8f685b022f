//! Shrinks a failing case: smaller histories, fewer faults, simpler values, as
//! long as the same class of violation remains.  Works on the case's JSON tree,
//! so it knows nothing about what the parts mean; whoever judges a candidate
//! rejects what does not parse.

use serde_json::Value;
use std::time::Instant;

pub struct Shrinker<'a> {
    pub judge: &'a mut dyn FnMut(&Value) -> bool,
    pub until: Instant,
    pub tried: u64,
}

#[derive(Clone, Debug)]
enum Seg {
    I(usize),
    K(String),
}

fn at<'v>(v: &'v Value, p: &[Seg]) -> Option<&'v Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Seg::I(i) => v.get(*i)?,
            Seg::K(k) => v.get(k.as_str())?,
        };
    }
    Some(v)
}

fn set(v: &Value, p: &[Seg], new: Value) -> Value {
    let mut out = v.clone();
    let mut c = &mut out;
    for s in p {
        c = match s {
            Seg::I(i) => &mut c[*i],
            Seg::K(k) => &mut c[k.as_str()],
        };
    }
    *c = new;
    out
}

fn paths(v: &Value, here: &mut Vec<Seg>, out: &mut Vec<Vec<Seg>>) {
    out.push(here.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(Seg::I(i));
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                here.push(Seg::K(k.clone()));
                paths(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}

impl Shrinker<'_> {
    fn ok(&mut self, v: &Value) -> bool {
        if Instant::now() >= self.until {
            return false;
        }
        self.tried += 1;
        (self.judge)(v)
    }

    /// Returns the smallest found.
    pub fn run(&mut self, v: Value) -> Value {
        let mut v = v;
        loop {
            let before = v.clone();
            v = self.arrays(v);
            v = self.leaves(v);
            if v == before || Instant::now() >= self.until {
                return v;
            }
        }
    }

    /// ddmin over every array, outermost first.
    fn arrays(&mut self, mut v: Value) -> Value {
        let mut k = 0;
        loop {
            let mut ps = Vec::new();
            paths(&v, &mut Vec::new(), &mut ps);
            ps.retain(|p| matches!(at(&v, p), Some(Value::Array(_))));
            ps.sort_by_key(|p| p.len());
            let Some(p) = ps.get(k).cloned() else { return v };
            k += 1;
            let mut len = at(&v, &p).unwrap().as_array().unwrap().len();
            let mut chunk = len;
            while chunk > 0 {
                let mut i = 0;
                while i < len {
                    let mut a = at(&v, &p).unwrap().as_array().unwrap().clone();
                    let end = (i + chunk).min(len);
                    a.drain(i..end);
                    let c = set(&v, &p, Value::Array(a));
                    if self.ok(&c) {
                        v = c;
                        len -= end - i;
                    } else {
                        i += chunk;
                    }
                    if Instant::now() >= self.until {
                        return v;
                    }
                }
                chunk /= 2;
            }
        }
    }

    fn leaves(&mut self, mut v: Value) -> Value {
        let mut k = 0;
        loop {
            let mut ps = Vec::new();
            paths(&v, &mut Vec::new(), &mut ps);
            let Some(p) = ps.get(k).cloned() else { return v };
            k += 1;
            if p.is_empty() {
                continue;
            }
            let mut tries = 0;
            'again: while tries < 40 {
                tries += 1;
                let cur = at(&v, &p).unwrap().clone();
                for c in simpler(&cur) {
                    let n = set(&v, &p, c);
                    if self.ok(&n) {
                        v = n;
                        continue 'again;
                    }
                    if Instant::now() >= self.until {
                        return v;
                    }
                }
                break;
            }
        }
    }
}

fn simpler(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    match v {
        Value::Bool(true) => out.push(Value::Bool(false)),
        Value::Number(n) => {
            if let Some(n) = n.as_u64() {
                for c in [0, 1, n / 2, n - (n > 0) as u64] {
                    if c < n && !out.contains(&Value::from(c)) {
                        out.push(Value::from(c));
                    }
                }
            } else if let Some(n) = n.as_i64() {
                out.push(Value::from(0));
                out.push(Value::from(n / 2));
                if n < -1 {
                    out.push(Value::from(-1));
                }
            }
        }
        Value::String(s) => {
            if let Some(h) = s.strip_prefix("0x").filter(|h| !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit())) {
                let h: Vec<u8> = h.bytes().collect();
                let push = |d: Vec<u8>, out: &mut Vec<Value>| {
                    let d = String::from_utf8(d).unwrap();
                    let d = d.trim_start_matches('0');
                    let d = format!("0x{}", if d.is_empty() { "0" } else { d });
                    if d != *s && d.len() <= s.len() {
                        out.push(Value::from(d));
                    }
                };
                push(vec![b'0'], &mut out);
                push(vec![b'1'], &mut out);
                let mut c = h.len();
                while c > 0 {
                    let mut i = 0;
                    while i < h.len() {
                        let e = (i + c).min(h.len());
                        if h[i..e].iter().any(|b| *b != b'0') {
                            let mut d = h.clone();
                            d[i..e].fill(b'0');
                            push(d, &mut out);
                        }
                        i += c;
                    }
                    c /= 2;
                }
            } else {
                let cs: Vec<char> = s.chars().collect();
                let mut c = cs.len();
                while c > 0 {
                    let mut i = 0;
                    while i < cs.len() {
                        let mut d = cs.clone();
                        d.drain(i..(i + c).min(cs.len()));
                        out.push(Value::from(d.into_iter().collect::<String>()));
                        i += c;
                    }
                    c /= 2;
                }
            }
        }
        Value::Object(m) => {
            // an enum's payload alone when it is of the same type: Some(Box<In>)
            for x in m.values() {
                if x.is_object() {
                    out.push(x.clone());
                }
            }
            out.push(Value::Null);
        }
        _ => {}
    }
    if !v.is_null() && !matches!(v, Value::Object(_)) {
        out.push(Value::Null);
    }
    out
}
